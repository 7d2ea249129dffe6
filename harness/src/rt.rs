//! Harness runtime: nondeterminism, assertions, the problem under optimisation,
//! the local-solver model and the rayon schedule hooks.
#![allow(static_mut_refs)]
use globalsearch::problem::Problem;
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2};

extern "C" {
    fn __sym_int(p: *const u8, n: usize, lo: i64, hi: i64) -> i64;
    fn __sym_f64(p: *const u8, n: usize) -> f64;
    fn __sym_bool(p: *const u8, n: usize) -> u8;
    fn __sym_assume(b: bool);
    fn __sym_assert(b: bool, p: *const u8, n: usize);
    fn __sym_cover(p: *const u8, n: usize);
    fn __sym_log(p: *const u8, n: usize, v: u64);
    fn __sym_allow_panic(b: bool);
    fn __sym_fork(b: bool) -> bool;
    fn __sym_concrete(v: u64) -> u64;
    pub fn __sym_native() -> bool;
}
pub fn int(t: &str, lo: i64, hi: i64) -> i64 { unsafe { __sym_int(t.as_ptr(), t.len(), lo, hi) } }
pub fn any_f64(t: &str) -> f64 { unsafe { __sym_f64(t.as_ptr(), t.len()) } }
pub fn boolean(t: &str) -> bool { unsafe { __sym_bool(t.as_ptr(), t.len()) & 1 == 1 } }
pub fn assume(b: bool) { unsafe { __sym_assume(b) } }
pub fn check(b: bool, m: &str) { unsafe { __sym_assert(b, m.as_ptr(), m.len()) } }
pub fn cover(t: &str) { unsafe { __sym_cover(t.as_ptr(), t.len()) } }
pub fn log(t: &str, v: u64) { unsafe { __sym_log(t.as_ptr(), t.len(), v) } }
pub fn logf(t: &str, v: f64) { log(t, v.to_bits()) }
pub fn allow_panic(b: bool) { unsafe { __sym_allow_panic(b) } }
/// decide a boolean here (one path each way)
pub fn fork(b: bool) -> bool { unsafe { __sym_fork(b) } }
pub fn concrete(v: i64) -> i64 { unsafe { __sym_concrete(v as u64) as i64 } }
/// nondeterministic choice among n alternatives, one path each
pub fn choice(t: &str, n: i64) -> usize { concrete(int(t, 0, n - 1)) as usize }
/// k / den with k in lo..=hi (exactly representable)
pub fn num(t: &str, lo: i64, hi: i64, den: i64) -> f64 { int(t, lo, hi) as f64 / den as f64 }
pub fn tagn(t: &str, i: usize) -> String { format!("{}{}", t, i) }

/// a number that may also be NaN or +-infinity, by `flags` (1 NaN, 2 +inf, 4 -inf)
pub fn ext_num(t: &str, lo: i64, hi: i64, den: i64, flags: u32) -> f64 {
    let mut alts = vec![];
    if flags & 1 != 0 { alts.push(f64::NAN); }
    if flags & 2 != 0 { alts.push(f64::INFINITY); }
    if flags & 4 != 0 { alts.push(f64::NEG_INFINITY); }
    let k = if alts.is_empty() { 0 } else { choice(&format!("{}.kind", t), alts.len() as i64 + 1) };
    if k == 0 { num(t, lo, hi, den) } else { alts[k - 1] }
}

// ---------------------------------------------------------------- the problem
pub type ObjFn = Box<dyn FnMut(&[f64]) -> Result<f64, EvaluationError>>;
pub type VecFn = Box<dyn FnMut(&[f64]) -> Result<Vec<f64>, EvaluationError>>;
pub type ConFn = Box<dyn FnMut(usize, &[f64]) -> f64>;
pub type LocFn = Box<dyn FnMut(&mut cobyla::Call)>;
pub struct World {
    pub bounds: Vec<(f64, f64)>,
    pub obj: Option<ObjFn>,
    pub grad: Option<VecFn>,
    pub hess: Option<VecFn>,
    pub con: Option<ConFn>,
    pub ncon: usize,
    pub local: Option<LocFn>,
    pub obj_calls: usize,
    pub local_calls: usize,
    /// rayon: 0 in order, 1 reversed, 2 nondeterministic, 3 nondeterministic in operation nd_op only
    pub sched: u8,
    pub ops: usize,
    pub nd_op: usize,
    pub op_len: usize,
    pub op_mode: usize,
    pub op_lens: Vec<usize>,
    pub split: u8,
    pub picks: usize,
    pub threads: usize,
}
static mut W: World = World { bounds: Vec::new(), obj: None, grad: None, hess: None, con: None, ncon: 0, local: None, obj_calls: 0, local_calls: 0, sched: 0, ops: 0, nd_op: 0, op_len: 0, op_mode: 0, op_lens: Vec::new(), split: 0, picks: 0, threads: 4 };
pub fn w() -> &'static mut World { unsafe { &mut W } }
#[derive(Clone)]
pub struct P;
impl Problem for P {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        w().obj_calls += 1;
        let v = x.to_vec();
        let mut f = w().obj.take().unwrap();
        let r = f(&v);
        w().obj = Some(f);
        r
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let Some(mut f) = w().grad.take() else { return Err(EvaluationError::GradientNotImplemented) };
        let r = f(&x.to_vec());
        w().grad = Some(f);
        r.map(Array1::from)
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        let Some(mut f) = w().hess.take() else { return Err(EvaluationError::HessianNotImplemented) };
        let r = f(&x.to_vec());
        w().hess = Some(f);
        let n = x.len();
        r.map(|v| Array2::from_shape_vec((n, n), v).unwrap())
    }
    fn variable_bounds(&self) -> Array2<f64> {
        let b = &w().bounds;
        Array2::from_shape_fn((b.len(), 2), |(i, j)| if j == 0 { b[i].0 } else { b[i].1 })
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        let all: [fn(&[f64], &mut ()) -> f64; 3] = [con0, con1, con2];
        all[..w().ncon].to_vec()
    }
}
fn con(i: usize, x: &[f64]) -> f64 { let mut f = w().con.take().unwrap(); let r = f(i, x); w().con = Some(f); r }
fn con0(x: &[f64], _: &mut ()) -> f64 { con(0, x) }
fn con1(x: &[f64], _: &mut ()) -> f64 { con(1, x) }
fn con2(x: &[f64], _: &mut ()) -> f64 { con(2, x) }

#[no_mangle]
pub fn __cobyla_hook(c: &mut cobyla::Call) {
    w().local_calls += 1;
    let mut f = w().local.take().expect("no local solver");
    f(c);
    w().local = Some(f);
}
#[no_mangle] pub extern "C" fn __rayon_pick(n: usize) -> usize {
    w().picks += 1;
    match w().sched {
        0 => 0,
        1 => n - 1,
        2 => choice("schedule", n as i64),
        _ if w().ops != w().nd_op => 0,
        // all orders of up to 3 items; of more: reversed, alternating ends, from the middle
        _ => match w().op_mode { 0 => choice("schedule", n as i64), 1 => n - 1, 2 => if n % 2 == 0 { n - 1 } else { 0 }, _ => n / 2 },
    }
}
#[no_mangle] pub extern "C" fn __rayon_op(n: usize) {
    let w = w();
    w.ops += 1;
    w.op_len = n;
    if w.sched == 0 { w.op_lens.push(n); }
    if w.sched == 3 && w.ops == w.nd_op { w.op_mode = if n <= 3 { 0 } else { 1 + choice("order", 3) }; }
}
/// one of the operations of the in-order run just finished that has at least two items
pub fn choose_op() { let c: Vec<usize> = (0..w().op_lens.len()).filter(|i| w().op_lens[*i] >= 2).collect(); w().nd_op = 1 + c[choice("operation", c.len() as i64)]; w().ops = 0; w().sched = 3; }
#[no_mangle] pub extern "C" fn __rayon_split(_n: usize) -> bool {
    match w().split { 0 => false, 1 => true, _ => fork(boolean("split")) }
}
#[no_mangle] pub extern "C" fn __rayon_threads() -> usize { w().threads }

// ---------------------------------------------------------------- memo tables
/// a function of the (concrete) point: the first call at a point fixes the value
pub struct Memo<T> { pub t: Vec<(Vec<u64>, T)> }
impl<T: Clone> Memo<T> {
    pub const fn new() -> Self { Memo { t: Vec::new() } }
    pub fn get(&mut self, x: &[f64], mk: impl FnOnce(usize) -> T) -> T {
        let k: Vec<u64> = x.iter().map(|v| v.to_bits()).collect();
        for (a, v) in &self.t { if *a == k { return v.clone(); } }
        let v = mk(self.t.len());
        self.t.push((k, v.clone()));
        v
    }
}
