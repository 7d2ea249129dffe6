//! Environment model of the `rayon` crate (see DESIGN.md, "Models").
//!
//! Every adaptor runs its closure over the items one at a time, in an order
//! picked by the harness (`__rayon_pick`), and keeps results in index order as
//! rayon does. Reductions split at len/2 wherever the harness says so, which
//! is the set of shapes rayon's adaptive splitter can produce.
extern "C" {
    /// nondeterministic choice in 0..n (n >= 2), provided by the harness
    fn __rayon_pick(n: usize) -> usize;
    /// nondeterministic decision whether a reduction splits here
    fn __rayon_split(n: usize) -> bool;
    fn __rayon_threads() -> usize;
    /// a parallel operation over n items begins
    fn __rayon_op(n: usize);
}
pub fn current_num_threads() -> usize { unsafe { __rayon_threads() } }
pub fn current_thread_index() -> Option<usize> { None }
pub fn max_num_threads() -> usize { 1 << 16 }

fn order(n: usize) -> Vec<usize> {
    unsafe { __rayon_op(n) };
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = Vec::with_capacity(n);
    while !left.is_empty() {
        let k = if left.len() < 2 { 0 } else { unsafe { __rayon_pick(left.len()) } };
        out.push(left.remove(k));
    }
    out
}
fn run<T, R>(items: Vec<T>, mut f: impl FnMut(T) -> R) -> Vec<R> {
    let n = items.len();
    let mut src: Vec<Option<T>> = items.into_iter().map(Some).collect();
    let mut dst: Vec<Option<R>> = Vec::with_capacity(n);
    for _ in 0..n { dst.push(None); }
    for i in order(n) { let x = src[i].take().unwrap(); dst[i] = Some(f(x)); }
    dst.into_iter().map(|x| x.unwrap()).collect()
}
fn tree<T>(mut items: Vec<T>, leaf: &dyn Fn(Vec<T>) -> T, join: &dyn Fn(T, T) -> T) -> T {
    let n = items.len();
    if n >= 2 && unsafe { __rayon_split(n) } {
        let right = items.split_off(n / 2);
        let a = tree(items, leaf, join);
        let b = tree(right, leaf, join);
        join(a, b)
    } else { leaf(items) }
}

pub mod iter {
    use super::*;
    use std::cmp::Ordering;
    pub struct Par<T> { pub(crate) v: Vec<T> }
    impl<T> Par<T> { pub fn new(v: Vec<T>) -> Self { Par { v } } }

    pub trait ParallelIterator: Sized {
        type Item;
        fn items(self) -> Vec<Self::Item>;
        fn opt_len(&self) -> Option<usize> { None }
        fn map<F, R>(self, f: F) -> Par<R> where F: Fn(Self::Item) -> R { Par { v: run(self.items(), f) } }
        fn map_init<I, T, F, R>(self, init: I, f: F) -> Par<R> where I: Fn() -> T, F: Fn(&mut T, Self::Item) -> R { Par { v: run(self.items(), |x| { let mut t = init(); f(&mut t, x) }) } }
        fn map_with<T: Clone, F, R>(self, init: T, f: F) -> Par<R> where F: Fn(&mut T, Self::Item) -> R { Par { v: run(self.items(), |x| { let mut t = init.clone(); f(&mut t, x) }) } }
        fn for_each<F>(self, f: F) where F: Fn(Self::Item) { run(self.items(), f); }
        fn try_for_each<F, E>(self, f: F) -> Result<(), E> where F: Fn(Self::Item) -> Result<(), E> { for r in run(self.items(), f) { r?; } Ok(()) }
        fn inspect<F>(self, f: F) -> Par<Self::Item> where F: Fn(&Self::Item) { Par { v: run(self.items(), |x| { f(&x); x }) } }
        fn filter<F>(self, f: F) -> Par<Self::Item> where F: Fn(&Self::Item) -> bool { Par { v: run(self.items(), |x| if f(&x) { Some(x) } else { None }).into_iter().flatten().collect() } }
        fn filter_map<F, R>(self, f: F) -> Par<R> where F: Fn(Self::Item) -> Option<R> { Par { v: run(self.items(), f).into_iter().flatten().collect() } }
        fn flat_map<F, R>(self, f: F) -> Par<R::Item> where F: Fn(Self::Item) -> R, R: IntoParallelIterator { Par { v: run(self.items(), |x| f(x).into_par_iter().items()).into_iter().flatten().collect() } }
        fn flat_map_iter<F, R>(self, f: F) -> Par<R::Item> where F: Fn(Self::Item) -> R, R: IntoIterator { Par { v: run(self.items(), |x| f(x).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect() } }
        fn flatten(self) -> Par<<Self::Item as IntoParallelIterator>::Item> where Self::Item: IntoParallelIterator { self.flat_map(|x| x) }
        fn cloned<'a, T>(self) -> Par<T> where Self: ParallelIterator<Item = &'a T>, T: 'a + Clone { Par { v: self.items().into_iter().cloned().collect() } }
        fn copied<'a, T>(self) -> Par<T> where Self: ParallelIterator<Item = &'a T>, T: 'a + Copy { Par { v: self.items().into_iter().copied().collect() } }
        fn chain<C>(self, o: C) -> Par<Self::Item> where C: IntoParallelIterator<Item = Self::Item> { let mut v = self.items(); v.extend(o.into_par_iter().items()); Par { v } }
        fn count(self) -> usize { self.items().len() }
        fn sum<S>(self) -> S where S: std::iter::Sum<Self::Item> + std::iter::Sum<S> {
            sum_tree(self.items(), &|v| v.into_iter().sum(), &|a, b| [a, b].into_iter().sum())
        }
        fn product<S>(self) -> S where S: std::iter::Product<Self::Item> + std::iter::Product<S> {
            sum_tree(self.items(), &|v| v.into_iter().product(), &|a, b| [a, b].into_iter().product())
        }
        fn reduce<OP, ID>(self, identity: ID, op: OP) -> Self::Item where OP: Fn(Self::Item, Self::Item) -> Self::Item, ID: Fn() -> Self::Item {
            tree(self.items(), &|v| v.into_iter().fold(identity(), &op), &|a, b| op(a, b))
        }
        fn reduce_with<OP>(self, op: OP) -> Option<Self::Item> where OP: Fn(Self::Item, Self::Item) -> Self::Item {
            let v = self.items();
            if v.is_empty() { return None; }
            Some(tree(v, &|v| v.into_iter().reduce(&op).unwrap(), &|a, b| op(a, b)))
        }
        fn fold<T, ID, F>(self, identity: ID, f: F) -> Par<T> where F: Fn(T, Self::Item) -> T, ID: Fn() -> T {
            fn go<A, T>(mut v: Vec<A>, id: &dyn Fn() -> T, f: &dyn Fn(T, A) -> T, out: &mut Vec<T>) {
                let n = v.len();
                if n >= 2 && unsafe { __rayon_split(n) } { let r = v.split_off(n / 2); go(v, id, f, out); go(r, id, f, out); } else { out.push(v.into_iter().fold(id(), f)); }
            }
            let mut out = vec![];
            go(self.items(), &identity, &f, &mut out);
            Par { v: out }
        }
        fn max_by<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item, &Self::Item) -> Ordering { self.reduce_with(|a, b| match f(&a, &b) { Ordering::Greater => a, _ => b }) }
        fn min_by<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item, &Self::Item) -> Ordering { self.reduce_with(|a, b| match f(&a, &b) { Ordering::Greater => b, _ => a }) }
        fn max(self) -> Option<Self::Item> where Self::Item: Ord { self.max_by(|a, b| a.cmp(b)) }
        fn min(self) -> Option<Self::Item> where Self::Item: Ord { self.min_by(|a, b| a.cmp(b)) }
        fn max_by_key<K: Ord, F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> K { self.max_by(|a, b| f(a).cmp(&f(b))) }
        fn min_by_key<K: Ord, F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> K { self.min_by(|a, b| f(a).cmp(&f(b))) }
        fn any<F>(self, f: F) -> bool where F: Fn(Self::Item) -> bool { run(self.items(), f).into_iter().any(|x| x) }
        fn all<F>(self, f: F) -> bool where F: Fn(Self::Item) -> bool { run(self.items(), f).into_iter().all(|x| x) }
        fn find_any<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> bool {
            let mut v: Vec<_> = self.items().into_iter().filter(|x| f(x)).collect();
            if v.is_empty() { return None; }
            let k = if v.len() < 2 { 0 } else { unsafe { __rayon_pick(v.len()) } };
            Some(v.swap_remove(k))
        }
        fn find_first<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> bool { self.items().into_iter().find(|x| f(x)) }
        fn find_last<F>(self, f: F) -> Option<Self::Item> where F: Fn(&Self::Item) -> bool { self.items().into_iter().filter(|x| f(x)).last() }
        fn partition<A, B, F>(self, f: F) -> (A, B) where A: Default + Extend<Self::Item>, B: Default + Extend<Self::Item>, F: Fn(&Self::Item) -> bool {
            let (mut a, mut b) = (A::default(), B::default());
            for x in self.items() { if f(&x) { a.extend(Some(x)) } else { b.extend(Some(x)) } }
            (a, b)
        }
        fn unzip<A, B, FA, FB>(self) -> (FA, FB) where Self: ParallelIterator<Item = (A, B)>, FA: Default + Extend<A>, FB: Default + Extend<B> { self.items().into_iter().unzip() }
        fn collect<C>(self) -> C where C: FromParallelIterator<Self::Item> { C::from_par_iter(self) }
    }
    fn sum_tree<T, S>(mut items: Vec<T>, leaf: &dyn Fn(Vec<T>) -> S, join: &dyn Fn(S, S) -> S) -> S {
        let n = items.len();
        if n >= 2 && unsafe { __rayon_split(n) } {
            let r = items.split_off(n / 2);
            let a = sum_tree(items, leaf, join);
            let b = sum_tree(r, leaf, join);
            join(a, b)
        } else { leaf(items) }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn len(&self) -> usize;
        fn zip<Z>(self, z: Z) -> Par<(Self::Item, Z::Item)> where Z: IntoParallelIterator { Par { v: self.items().into_iter().zip(z.into_par_iter().items()).collect() } }
        fn zip_eq<Z>(self, z: Z) -> Par<(Self::Item, Z::Item)> where Z: IntoParallelIterator { let b = z.into_par_iter().items(); let a = self.items(); assert_eq!(a.len(), b.len()); Par { v: a.into_iter().zip(b).collect() } }
        fn enumerate(self) -> Par<(usize, Self::Item)> { Par { v: self.items().into_iter().enumerate().collect() } }
        fn rev(self) -> Par<Self::Item> { Par { v: self.items().into_iter().rev().collect() } }
        fn take(self, n: usize) -> Par<Self::Item> { Par { v: self.items().into_iter().take(n).collect() } }
        fn skip(self, n: usize) -> Par<Self::Item> { Par { v: self.items().into_iter().skip(n).collect() } }
        fn step_by(self, n: usize) -> Par<Self::Item> { Par { v: self.items().into_iter().step_by(n).collect() } }
        fn chunks(self, n: usize) -> Par<Vec<Self::Item>> { let mut o = vec![]; let mut it = self.items().into_iter(); loop { let c: Vec<_> = it.by_ref().take(n).collect(); if c.is_empty() { break; } o.push(c); } Par { v: o } }
        fn with_min_len(self, _n: usize) -> Self { self }
        fn with_max_len(self, _n: usize) -> Self { self }
        fn position_any<F>(self, f: F) -> Option<usize> where F: Fn(Self::Item) -> bool { self.items().into_iter().position(f) }
        fn position_first<F>(self, f: F) -> Option<usize> where F: Fn(Self::Item) -> bool { self.items().into_iter().position(f) }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) { *v = self.items(); }
    }
    impl<T> ParallelIterator for Par<T> { type Item = T; fn items(self) -> Vec<T> { self.v } }
    impl<T> IndexedParallelIterator for Par<T> { fn len(&self) -> usize { self.v.len() } }

    pub trait IntoParallelIterator { type Iter: ParallelIterator<Item = Self::Item>; type Item; fn into_par_iter(self) -> Self::Iter; }
    impl<T> IntoParallelIterator for Par<T> { type Iter = Par<T>; type Item = T; fn into_par_iter(self) -> Par<T> { self } }
    impl<T> IntoParallelIterator for Vec<T> { type Iter = Par<T>; type Item = T; fn into_par_iter(self) -> Par<T> { Par { v: self } } }
    impl<T> IntoParallelIterator for Option<T> { type Iter = Par<T>; type Item = T; fn into_par_iter(self) -> Par<T> { Par { v: self.into_iter().collect() } } }
    impl<T, const N: usize> IntoParallelIterator for [T; N] { type Iter = Par<T>; type Item = T; fn into_par_iter(self) -> Par<T> { Par { v: self.into_iter().collect() } } }
    impl<'a, T> IntoParallelIterator for &'a [T] { type Iter = Par<&'a T>; type Item = &'a T; fn into_par_iter(self) -> Par<&'a T> { Par { v: self.iter().collect() } } }
    impl<'a, T> IntoParallelIterator for &'a Vec<T> { type Iter = Par<&'a T>; type Item = &'a T; fn into_par_iter(self) -> Par<&'a T> { Par { v: self.iter().collect() } } }
    impl<'a, T> IntoParallelIterator for &'a mut [T] { type Iter = Par<&'a mut T>; type Item = &'a mut T; fn into_par_iter(self) -> Par<&'a mut T> { Par { v: self.iter_mut().collect() } } }
    impl<'a, T> IntoParallelIterator for &'a mut Vec<T> { type Iter = Par<&'a mut T>; type Item = &'a mut T; fn into_par_iter(self) -> Par<&'a mut T> { Par { v: self.iter_mut().collect() } } }
    macro_rules! rng { ($($t:ty)*) => { $(
        impl IntoParallelIterator for std::ops::Range<$t> { type Iter = Par<$t>; type Item = $t; fn into_par_iter(self) -> Par<$t> { Par { v: self.collect() } } }
        impl IntoParallelIterator for std::ops::RangeInclusive<$t> { type Iter = Par<$t>; type Item = $t; fn into_par_iter(self) -> Par<$t> { Par { v: self.collect() } } }
    )* } }
    rng!(usize u64 u32 i32 i64);
    pub trait IntoParallelRefIterator<'a> { type Iter: ParallelIterator<Item = Self::Item>; type Item: 'a; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I where &'a I: IntoParallelIterator, <&'a I as IntoParallelIterator>::Item: 'a { type Iter = <&'a I as IntoParallelIterator>::Iter; type Item = <&'a I as IntoParallelIterator>::Item; fn par_iter(&'a self) -> Self::Iter { self.into_par_iter() } }
    pub trait IntoParallelRefMutIterator<'a> { type Iter: ParallelIterator<Item = Self::Item>; type Item: 'a; fn par_iter_mut(&'a mut self) -> Self::Iter; }
    impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I where &'a mut I: IntoParallelIterator, <&'a mut I as IntoParallelIterator>::Item: 'a { type Iter = <&'a mut I as IntoParallelIterator>::Iter; type Item = <&'a mut I as IntoParallelIterator>::Item; fn par_iter_mut(&'a mut self) -> Self::Iter { self.into_par_iter() } }
    pub trait FromParallelIterator<T> { fn from_par_iter<I: ParallelIterator<Item = T>>(i: I) -> Self; }
    impl<T> FromParallelIterator<T> for Vec<T> { fn from_par_iter<I: ParallelIterator<Item = T>>(i: I) -> Self { i.items() } }
    impl<C, T, E> FromParallelIterator<Result<T, E>> for Result<C, E> where C: FromParallelIterator<T> {
        fn from_par_iter<I: ParallelIterator<Item = Result<T, E>>>(i: I) -> Self {
            let mut ok = vec![];
            let mut errs = vec![];
            for x in i.items() { match x { Ok(v) => ok.push(v), Err(e) => errs.push(e) } }
            if errs.is_empty() { Ok(C::from_par_iter(Par { v: ok })) } else {
                // rayon reports any one of the errors
                let k = if errs.len() < 2 { 0 } else { unsafe { __rayon_pick(errs.len()) } };
                Err(errs.swap_remove(k))
            }
        }
    }
    impl<C, T> FromParallelIterator<Option<T>> for Option<C> where C: FromParallelIterator<T> {
        fn from_par_iter<I: ParallelIterator<Item = Option<T>>>(i: I) -> Self { let v: Option<Vec<T>> = i.items().into_iter().collect(); v.map(|v| C::from_par_iter(Par { v })) }
    }
    pub trait ParallelExtend<T> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I); }
    impl<T> ParallelExtend<T> for Vec<T> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) { self.extend(i.into_par_iter().items()); } }
    pub trait ParallelBridge: Sized + Iterator { fn par_bridge(self) -> Par<Self::Item> { let v: Vec<_> = self.collect(); let o = order(v.len()); let mut s: Vec<Option<_>> = v.into_iter().map(Some).collect(); Par { v: o.into_iter().map(|i| s[i].take().unwrap()).collect() } } }
    impl<I: Iterator> ParallelBridge for I {}
}
pub mod slice {
    use crate::iter::Par;
    use std::cmp::Ordering;
    pub trait ParallelSlice<T> { fn as_s(&self) -> &[T]; fn par_chunks(&self, n: usize) -> Par<&[T]> { Par::new(self.as_s().chunks(n).collect()) } fn par_windows(&self, n: usize) -> Par<&[T]> { Par::new(self.as_s().windows(n).collect()) } }
    impl<T> ParallelSlice<T> for [T] { fn as_s(&self) -> &[T] { self } }
    pub trait ParallelSliceMut<T> {
        fn as_m(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> { Par::new(self.as_m().chunks_mut(n).collect()) }
        fn par_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { self.as_m().sort_by(f) }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { self.as_m().sort_unstable_by(f) }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) { self.as_m().sort_by_key(f) }
    }
    impl<T> ParallelSliceMut<T> for [T] { fn as_m(&mut self) -> &mut [T] { self } }
}
pub mod prelude { pub use crate::iter::*; pub use crate::slice::*; }
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA, B: FnOnce() -> RB {
    if unsafe { __rayon_pick(2) } == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) }
}
pub struct ThreadPoolBuilder { n: usize }
#[derive(Debug)] pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("pool") } }
impl std::error::Error for ThreadPoolBuildError {}
impl Default for ThreadPoolBuilder { fn default() -> Self { Self { n: 0 } } }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self { n: 0 } }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool { n: self.n }) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
#[derive(Debug)] pub struct ThreadPool { n: usize }
impl ThreadPool {
    pub fn install<R>(&self, f: impl FnOnce() -> R) -> R { f() }
    pub fn current_num_threads(&self) -> usize { if self.n == 0 { current_num_threads() } else { self.n } }
}
