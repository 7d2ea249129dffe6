//! Hash-consed expression DAG over bit-vectors and IEEE-754 doubles/floats, with an exact
//! fixed-point sub-domain (`Fix`) for doubles that are provably dyadic rationals of bounded size.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite,
    Eq, Ult, Ule, Slt, Sle,
    // Floating point: operands and results are IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FAbs, FNeg,
    FMin, FMax, // minimumnum/maximumnum (number wins over NaN)
    FEq, FLt, FLe, FIsNan,
    FFromS, FFromU, FToS, FToU, // FToS/FToU: saturating conversions (aux = result width)
    FRoundI, // aux: 0 RNE 1 floor 2 ceil 3 trunc 4 RNA
    FCvt,
    TotalKey,
    /// exact: signed integer arg0 (any width) * 2^-aux ; aux2 = 1 if a zero may in fact be -0.0
    Fix,
    /// correctly rounded sqrt of (unsigned-valued signed int arg0) * 2^-aux
    FixSqrt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: [E; 3],
    pub aux: u64,
    pub val: u128,
}

pub const NOE: E = u32::MAX;

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub lo: i128,
    pub hi: i128,
    pub ranged: bool,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    /// sorted variable ids
    pub vsets: Vec<std::rc::Rc<Vec<u32>>>,
    /// signed range of integer-valued nodes where known
    pub ranges: HashMap<E, (i128, i128)>,
    pub taint: u64,
    lifted: HashMap<E, E>,
    fpmemo: HashMap<E, bool>,
    pub tables: u64,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn bits_for(lo: i128, hi: i128) -> u32 {
    // minimal signed width
    let f = |x: i128| -> u32 { if x >= 0 { 128 - x.leading_zeros() + 1 } else { 128 - (!x).leading_zeros() + 1 } };
    f(lo).max(f(hi)).max(2)
}

pub fn f64_of(v: u128) -> f64 { f64::from_bits(v as u64) }
pub fn f32_of(v: u128) -> f32 { f32::from_bits(v as u32) }

pub fn min_num(a: f64, b: f64) -> f64 {
    if a.is_nan() { return b; }
    if b.is_nan() { return a; }
    if a == 0.0 && b == 0.0 { return if a.is_sign_negative() { a } else { b }; }
    if a < b { a } else { b }
}
pub fn max_num(a: f64, b: f64) -> f64 {
    if a.is_nan() { return b; }
    if b.is_nan() { return a; }
    if a == 0.0 && b == 0.0 { return if a.is_sign_negative() { b } else { a }; }
    if a > b { a } else { b }
}
pub fn total_key(x: u128) -> u128 {
    let l = x as u64 as i64;
    (l ^ (((l >> 63) as u64) >> 1) as i64) as u64 as u128
}

/// Represent a finite double exactly as m * 2^-s with s >= 0 minimal, if |m| < 2^62
pub fn dyadic(x: f64) -> Option<(i128, u32)> {
    if !x.is_finite() { return None; }
    if x == 0.0 { return if x.is_sign_negative() { None } else { Some((0, 0)) }; }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let frac = (b & ((1u64 << 52) - 1)) as i128;
    let (mut m, mut ex) = if e == 0 { (frac, -1074) } else { (frac | (1 << 52), e - 1075) };
    while m & 1 == 0 { m >>= 1; ex += 1; }
    if x < 0.0 { m = -m; }
    if ex >= 0 {
        if ex > 60 || (m.abs() << ex) >= (1i128 << 100) { return None; }
        Some((m << ex, 0))
    } else {
        if -ex > 1100 { return None; }
        Some((m, (-ex) as u32))
    }
}

pub fn ldexp(m: i128, s: u32) -> f64 {
    // exact for |m| < 2^53
    let mut r = m as f64;
    let mut k = s as i32;
    while k > 0 { let st = k.min(1000); r *= 2f64.powi(-st); k -= st; }
    r
}

const EXACT: i128 = 1 << 53;

impl Pool {
    pub fn new() -> Self {
        Pool { nodes: vec![], map: HashMap::new(), vars: vec![], vsets: vec![], ranges: HashMap::new(), taint: 0, lifted: HashMap::new(), fpmemo: HashMap::new(), tables: 0 }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let id = self.nodes.len() as E;
        let vs = match n.op {
            Op::Const => std::rc::Rc::new(vec![]),
            Op::Var => std::rc::Rc::new(vec![n.aux as u32]),
            _ => {
                let k: Vec<E> = n.a.iter().copied().filter(|&x| x != NOE).collect();
                let mut base = self.vsets[k[0] as usize].clone();
                for &x in &k[1..] {
                    let o = &self.vsets[x as usize];
                    if o.iter().all(|v| base.binary_search(v).is_ok()) { continue; }
                    let mut m: Vec<u32> = base.iter().chain(o.iter()).copied().collect();
                    m.sort_unstable();
                    m.dedup();
                    base = std::rc::Rc::new(m);
                }
                base
            }
        };
        self.nodes.push(n.clone());
        self.vsets.push(vs);
        self.map.insert(n, id);
        id
    }
    pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const { Some(n.val) } else { None }
    }
    pub fn cnst(&mut self, v: u128, w: u32) -> E {
        self.intern(Node { op: Op::Const, w, a: [NOE; 3], aux: 0, val: v & mask(w) })
    }
    pub fn var(&mut self, name: String, w: u32, lo: i128, hi: i128, ranged: bool) -> E {
        let id = self.vars.len();
        self.vars.push(VarInfo { name, w, lo, hi, ranged });
        let e = self.intern(Node { op: Op::Var, w, a: [NOE; 3], aux: id as u64, val: 0 });
        if ranged { self.ranges.insert(e, (lo, hi)); }
        e
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, aux: u64) -> E {
        self.intern(Node { op, w, a: [a, b, c], aux, val: 0 })
    }
    pub fn tru(&mut self) -> E { self.cnst(1, 1) }
    pub fn fals(&mut self) -> E { self.cnst(0, 1) }

    pub fn range(&self, e: E) -> (i128, i128) {
        if let Some(r) = self.ranges.get(&e) { return *r; }
        let n = self.n(e);
        match n.op {
            Op::Const => { let v = sext(n.val, n.w); (v, v) }
            Op::ZExt => {
                let iw = self.w(n.a[0]);
                let r = self.range(n.a[0]);
                if r.0 >= 0 && iw < n.w { r } else if iw < n.w { (0, mask(iw) as i128) } else { r }
            }
            Op::SExt => self.range(n.a[0]),
            _ => {
                if n.w >= 127 { (i128::MIN / 2, i128::MAX / 2) } else { (-(1i128 << (n.w - 1)), (1i128 << (n.w - 1)) - 1) }
            }
        }
    }

    // ---------- bit-vector constructors ----------
    pub fn binop_c(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
            }
            Op::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 { a } else { x.wrapping_rem(y) as u128 }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { a << b },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => { let s = (b.min(w as u128 - 1)) as u32; (sext(a, w) >> s) as u128 }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext(a, w) < sext(b, w)) as u128,
            Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
            _ => unreachable!(),
        };
        r & m
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { return self.cmp_any(op, a, b); }
        let w = self.w(a);
        assert_eq!(w, self.w(b), "{:?}", op);
        self.chk_nz(a);
        self.chk_nz(b);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.cnst(Self::binop_c(op, w, x, y), w);
        }
        let (mut a, mut b) = (a, b);
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => {
                // canonical: constant on the right, otherwise ordered by id
                if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
            }
            _ => {}
        }
        let cb = self.cval(b);
        let m = mask(w);
        match (op, cb) {
            (Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr, Some(0)) => return a,
            (Op::And, Some(0)) => return b,
            (Op::And, Some(v)) if v == m => return a,
            (Op::Or, Some(v)) if v == m => return b,
            (Op::Mul, Some(0)) => return b,
            (Op::Mul, Some(1)) | (Op::UDiv, Some(1)) | (Op::SDiv, Some(1)) => return a,
            (Op::Sub | Op::Xor, _) if a == b => return self.cnst(0, w),
            (Op::And | Op::Or, _) if a == b => return a,
            (Op::Mul, Some(v)) if v.is_power_of_two() => { let s = self.cnst(v.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); }
            (Op::UDiv, Some(v)) if v.is_power_of_two() => { let s = self.cnst(v.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); }
            (Op::URem, Some(v)) if v.is_power_of_two() => { let s = self.cnst(v - 1, w); return self.bin(Op::And, a, s); }
            _ => {}
        }
        // (x + c1) + c2
        if let Some(c2) = cb {
            let na = self.n(a).clone();
            if op == Op::Sub { let c = self.cnst((0u128).wrapping_sub(c2), w); return self.bin(Op::Add, a, c); }
            if (op == Op::Add || op == Op::Xor || op == Op::And || op == Op::Or) && na.op == op {
                if let Some(c1) = self.cval(na.a[1]) {
                    let c = self.cnst(Self::binop_c(op, w, c1, c2), w);
                    return self.bin(op, na.a[0], c);
                }
            }
            // boolean not of comparison handled in not()
            // and/shift of zext: stays zero
            if op == Op::And && na.op == Op::ZExt && c2 == mask(self.w(na.a[0])) { return a; }
            if op == Op::LShr && na.op == Op::ZExt && c2 >= self.w(na.a[0]) as u128 { return self.cnst(0, w); }
            if w == 1 && op == Op::Xor && c2 == 1 {
                // not
                match na.op {
                    Op::Ult => return self.bin(Op::Ule, na.a[1], na.a[0]),
                    Op::Ule => return self.bin(Op::Ult, na.a[1], na.a[0]),
                    Op::Slt => return self.bin(Op::Sle, na.a[1], na.a[0]),
                    Op::Sle => return self.bin(Op::Slt, na.a[1], na.a[0]),
                    _ => {}
                }
            }
            // shifts by a constant: distribute ite with constant arms
            if na.op == Op::Ite && (self.cval(na.a[1]).is_some() && self.cval(na.a[2]).is_some()) {
                let t = self.bin(op, na.a[1], b);
                let f = self.bin(op, na.a[2], b);
                return self.ite(na.a[0], t, f);
            }
        }
        if w == 1 && op == Op::And {
            // x & !x
            if self.is_not_of(a, b) { return self.cnst(0, 1); }
        }
        if w == 1 && op == Op::Or && self.is_not_of(a, b) { return self.cnst(1, 1); }
        if op == Op::Xor && w == 64 {
            for (x, k) in [(a, b), (b, a)] {
                // x ^ ((x ashr 63) lshr 1)
                let nk = self.n(k).clone();
                if nk.op == Op::LShr && self.cval(nk.a[1]) == Some(1) {
                    let nn = self.n(nk.a[0]).clone();
                    if nn.op == Op::AShr && nn.a[0] == x && self.cval(nn.a[1]) == Some(63) {
                        return self.mk(Op::TotalKey, 64, x, NOE, NOE, 0);
                    }
                }
            }
        }
        let r = self.mk(op, w, a, b, NOE, 0);
        r
    }
    /// a fixed-point zero that may really be -0.0 reached an operation that can observe the sign
    fn chk_nz(&mut self, e: E) {
        let n = self.n(e);
        if n.op == Op::Fix && (n.aux >> 16) & 1 == 1 {
            let (lo, hi) = self.range(n.a[0]);
            if lo <= 0 && hi >= 0 { self.taint += 1; }
        }
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let chk = |x: E, y: E| { let n = self.n(x); n.op == Op::Xor && n.w == 1 && n.a[0] == y && self.cval(n.a[1]) == Some(1) };
        chk(a, b) || chk(b, a)
    }
    fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        self.chk_nz(a);
        self.chk_nz(b);
        let w = self.w(a);
        if a == b { return self.cnst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1); }
        if w == 1 {
            // booleans
            match op {
                Op::Eq => {
                    if let Some(c) = self.cval(b) { return if c == 1 { a } else { self.not(a) }; }
                    if let Some(c) = self.cval(a) { return if c == 1 { b } else { self.not(b) }; }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                Op::Ult => { let na = self.not(a); return self.bin(Op::And, na, b); }
                Op::Ule => { let na = self.not(a); return self.bin(Op::Or, na, b); }
                Op::Slt => { let nb = self.not(b); return self.bin(Op::And, a, nb); }
                Op::Sle => { let nb = self.not(b); return self.bin(Op::Or, a, nb); }
                _ => {}
            }
        }
        // total-order keys over exact fixed-point values
        {
            let (na, nb) = (self.n(a).clone(), self.n(b).clone());
            let ka = na.op == Op::TotalKey;
            let kb = nb.op == Op::TotalKey;
            if (ka || kb) && w == 64 && matches!(op, Op::Slt | Op::Sle | Op::Eq) {
                let xa = if ka { Some(na.a[0]) } else if let Some(c) = self.cval(a) { Some(self.cnst(total_key(c), 64)) } else { None };
                let xb = if kb { Some(nb.a[0]) } else if let Some(c) = self.cval(b) { Some(self.cnst(total_key(c), 64)) } else { None };
                if let (Some(xa), Some(xb)) = (xa, xb) {
                    let okf = |s: &Pool, e: E| { let n = s.n(e); n.op == Op::Fix && (n.aux >> 16) & 1 == 0 };
                    let okc = |s: &Pool, e: E| s.cval(e).map(|v| { let f = f64_of(v); !f.is_nan() && !(f == 0.0 && f.is_sign_negative()) }).unwrap_or(false);
                    let (fa, fb) = (okf(self, xa), okf(self, xb));
                    if (fa && (fb || okc(self, xb))) || (fb && okc(self, xa)) {
                        let fop = match op { Op::Slt => Op::FLt, Op::Sle => Op::FLe, _ => Op::FEq };
                        return self.fcmp(fop, xa, xb);
                    }
                    if (fa || fb) && (self.cval(xa).is_some() || self.cval(xb).is_some()) {
                        // constant NaN or -0.0 against a finite fixed-point value
                        let (c, flip) = if let Some(c) = self.cval(xa) { (c, false) } else { (self.cval(xb).unwrap(), true) };
                        let f = f64_of(c);
                        if f.is_nan() {
                            let c_less = f.is_sign_negative();
                            let r = match op { Op::Eq => false, _ => if flip { !c_less } else { c_less } };
                            return self.cnst(r as u128, 1);
                        }
                    }
                }
            }
        }
        // ranges
        if op == Op::Slt || op == Op::Sle {
            let (ra, rb) = (self.range(a), self.range(b));
            if op == Op::Slt {
                if ra.1 < rb.0 { return self.tru(); }
                if ra.0 >= rb.1 { return self.fals(); }
            } else {
                if ra.1 <= rb.0 { return self.tru(); }
                if ra.0 > rb.1 { return self.fals(); }
            }
        }
        if op == Op::Eq {
            let (ra, rb) = (self.range(a), self.range(b));
            if ra.1 < rb.0 || rb.1 < ra.0 { return self.fals(); }
        }
        if op == Op::Ult || op == Op::Ule {
            let (ra, rb) = (self.range(a), self.range(b));
            if ra.0 >= 0 && rb.0 >= 0 && ra.1 < i128::MAX / 4 && rb.1 < i128::MAX / 4 {
                if op == Op::Ult {
                    if ra.1 < rb.0 { return self.tru(); }
                    if ra.0 >= rb.1 { return self.fals(); }
                } else {
                    if ra.1 <= rb.0 { return self.tru(); }
                    if ra.0 > rb.1 { return self.fals(); }
                }
            }
            if op == Op::Ult && self.cval(b) == Some(0) { return self.fals(); }
            if op == Op::Ule && self.cval(a) == Some(0) { return self.tru(); }
            if op == Op::Ult && self.cval(b) == Some(1) { let z = self.cnst(0, w); return self.cmp(Op::Eq, a, z); }
        }
        // compare of zext/sext with constants
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if op == Op::Eq {
            let (mut a, mut b, mut na, mut nb) = (a, b, na.clone(), nb.clone());
            if na.op == Op::Const { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut na, &mut nb); }
            if let Some(c) = self.cval(b) {
                match na.op {
                    Op::ZExt => {
                        let iw = self.w(na.a[0]);
                        if c > mask(iw) { return self.fals(); }
                        let k = self.cnst(c, iw);
                        return self.cmp(Op::Eq, na.a[0], k);
                    }
                    Op::SExt => {
                        let iw = self.w(na.a[0]);
                        let v = sext(c, w);
                        if sext(c & mask(iw), iw) != v { return self.fals(); }
                        let k = self.cnst(c, iw);
                        return self.cmp(Op::Eq, na.a[0], k);
                    }
                    Op::Add => if let Some(c1) = self.cval(na.a[1]) {
                        let k = self.cnst(c.wrapping_sub(c1), w);
                        return self.cmp(Op::Eq, na.a[0], k);
                    },
                    Op::Ite => if self.cval(na.a[1]).is_some() || self.cval(na.a[2]).is_some() {
                        let t = self.cmp_any(Op::Eq, na.a[1], b);
                        let f = self.cmp_any(Op::Eq, na.a[2], b);
                        return self.ite(na.a[0], t, f);
                    },
                    _ => {}
                }
            }
            if a > b { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut na, &mut nb); }
            if na.op == Op::Fix && nb.op == Op::Fix && (na.aux >> 16) & 1 == 0 && (nb.aux >> 16) & 1 == 0 {
                return self.fcmp(Op::FEq, a, b);
            }
            return self.mk(Op::Eq, 1, a, b, NOE, 0);
        }
        // ite with constant arms vs constant
        if self.cval(b).is_some() && na.op == Op::Ite && (self.cval(na.a[1]).is_some() || self.cval(na.a[2]).is_some()) {
            let t = self.cmp_any(op, na.a[1], b);
            let f = self.cmp_any(op, na.a[2], b);
            return self.ite(na.a[0], t, f);
        }
        if self.cval(a).is_some() && nb.op == Op::Ite && (self.cval(nb.a[1]).is_some() || self.cval(nb.a[2]).is_some()) {
            let t = self.cmp_any(op, a, nb.a[1]);
            let f = self.cmp_any(op, a, nb.a[2]);
            return self.ite(nb.a[0], t, f);
        }
        // sign test of an fp value: bits < 0
        if op == Op::Slt && self.cval(b) == Some(0) && w == 64 && na.op == Op::Fix && (na.aux >> 16) & 1 == 0 {
            let z = self.cnst(0, self.w(na.a[0]));
            return self.cmp_any(Op::Slt, na.a[0], z);
        }
        // matching extensions
        if na.op == nb.op && (na.op == Op::ZExt || na.op == Op::SExt) && self.w(na.a[0]) == self.w(nb.a[0]) {
            let o2 = if na.op == Op::ZExt { match op { Op::Slt => Op::Ult, Op::Sle => Op::Ule, o => o } } else { op };
            return self.cmp_any(o2, na.a[0], nb.a[0]);
        }
        self.mk(op, 1, a, b, NOE, 0)
    }
    fn cmp_any(&mut self, op: Op, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let w = self.w(a);
            return self.cnst(Self::binop_c(op, w, x, y) & 1, 1);
        }
        self.cmp(op, a, b)
    }
    pub fn icmp(&mut self, op: Op, a: E, b: E) -> E { self.cmp_any(op, a, b) }
    pub fn not(&mut self, a: E) -> E {
        let o = self.cnst(1, 1);
        let n = self.n(a).clone();
        if n.op == Op::Xor && self.cval(n.a[1]) == Some(1) { return n.a[0]; }
        self.bin(Op::Xor, a, o)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.cval(c) { return if v == 1 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        if w == 1 {
            match (self.cval(t), self.cval(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, f); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, t); }
                _ => {}
            }
        }
        // fixed point
        if w == 64 {
            let (nt, nf) = (self.n(t).clone(), self.n(f).clone());
            if nt.op == Op::Fix || nf.op == Op::Fix {
                if let (Some((a, sa, za)), Some((b, sb, zb))) = (self.as_fix(t), self.as_fix(f)) {
                    if let Some((a, b, s)) = self.align(a, sa, b, sb) {
                        let (a, b) = self.same_width(a, b);
                        let (ra, rb) = (self.range(a), self.range(b));
                        let i = self.ite(c, a, b);
                        self.set_range(i, (ra.0.min(rb.0), ra.1.max(rb.1)));
                        return self.fix(i, s, za || zb);
                    }
                }
            }
        }
        // negated condition: canonicalise
        let nc = self.n(c).clone();
        if nc.op == Op::Xor && nc.w == 1 && self.cval(nc.a[1]) == Some(1) { return self.ite(nc.a[0], f, t); }
        self.mk(Op::Ite, w, c, t, f, 0)
    }
    fn set_range(&mut self, e: E, r: (i128, i128)) {
        if self.n(e).op == Op::Const { return; }
        let old = self.range(e);
        self.ranges.insert(e, (old.0.max(r.0), old.1.min(r.1)));
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a).clone();
        if lo == 0 && w == n.w { return a; }
        self.chk_nz(a);
        match n.op {
            Op::Const => return self.cnst(n.val >> lo, w),
            Op::Extract => return self.extract(n.a[0], lo + n.aux as u32, w),
            Op::Concat => {
                let lw = self.w(n.a[1]);
                if lo >= lw { return self.extract(n.a[0], lo - lw, w); }
                if lo + w <= lw { return self.extract(n.a[1], lo, w); }
                let l = self.extract(n.a[1], lo, lw - lo);
                let h = self.extract(n.a[0], 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a[0]);
                if lo >= iw { return self.cnst(0, w); }
                if lo + w <= iw { return self.extract(n.a[0], lo, w); }
                let x = self.extract(n.a[0], lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a[0]);
                if lo + w <= iw { return self.extract(n.a[0], lo, w); }
                if lo == 0 { return self.sext(n.a[0], w); }
            }
            Op::Ite => if self.cval(n.a[1]).is_some() && self.cval(n.a[2]).is_some() {
                let t = self.extract(n.a[1], lo, w);
                let f = self.extract(n.a[2], lo, w);
                return self.ite(n.a[0], t, f);
            },
            Op::And | Op::Or | Op::Xor => {
                let t = self.extract(n.a[0], lo, w);
                let f = self.extract(n.a[1], lo, w);
                return self.bin(n.op, t, f);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // low bits of modular arithmetic
                let t = self.extract(n.a[0], 0, w);
                let f = self.extract(n.a[1], 0, w);
                let r = self.bin(n.op, t, f);
                let rg = self.range(a);
                if w < 127 && rg.0 >= -(1i128 << (w - 1)) && rg.1 < (1i128 << (w - 1)) { self.set_range(r, rg); }
                return r;
            }
            _ => {}
        }
        let r = self.mk(Op::Extract, w, a, NOE, NOE, lo as u64);
        if lo == 0 {
            let rg = self.range(a);
            if w > 1 && w < 127 && rg.0 >= -(1i128 << (w - 1)) && rg.1 < (1i128 << (w - 1)) { self.set_range(r, rg); }
        }
        r
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) { return self.cnst((x << lw) | y, hw + lw); }
        let (nh, nl) = (self.n(h).clone(), self.n(l).clone());
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a[0] == nl.a[0] && nh.aux == nl.aux + lw as u64 {
            return self.extract(nh.a[0], nl.aux as u32, hw + lw);
        }
        if self.cval(h) == Some(0) { return self.zext(l, hw + lw); }
        self.mk(Op::Concat, hw + lw, h, l, NOE, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a).clone();
        if n.w == w { return a; }
        match n.op {
            Op::Const => return self.cnst(n.val, w),
            Op::ZExt => return self.zext(n.a[0], w),
            Op::Ite if self.cval(n.a[1]).is_some() && self.cval(n.a[2]).is_some() => {
                let t = self.zext(n.a[1], w);
                let f = self.zext(n.a[2], w);
                return self.ite(n.a[0], t, f);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, NOE, NOE, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a).clone();
        if n.w == w { return a; }
        match n.op {
            Op::Const => return self.cnst(sext(n.val, n.w) as u128, w),
            Op::SExt => return self.sext(n.a[0], w),
            Op::ZExt => return self.zext(n.a[0], w),
            Op::Ite if self.cval(n.a[1]).is_some() && self.cval(n.a[2]).is_some() => {
                let t = self.sext(n.a[1], w);
                let f = self.sext(n.a[2], w);
                return self.ite(n.a[0], t, f);
            }
            _ => {}
        }
        self.mk(Op::SExt, w, a, NOE, NOE, 0)
    }

    // ---------- exact fixed point ----------
    fn fix(&mut self, e: E, s: u32, nz: bool) -> E {
        if let Some(v) = self.cval(e) {
            let x = ldexp(sext(v, self.w(e)), s);
            return self.cnst(x.to_bits() as u128, 64);
        }
        self.mk(Op::Fix, 64, e, NOE, NOE, s as u64 | ((nz as u64) << 16))
    }
    fn as_fix(&mut self, e: E) -> Option<(E, u32, bool)> {
        let n = self.n(e).clone();
        match n.op {
            Op::Fix => Some((n.a[0], (n.aux & 0xffff) as u32, (n.aux >> 16) & 1 == 1)),
            Op::Const if n.w == 64 => {
                let x = f64_of(n.val);
                let (m, s) = dyadic(x)?;
                if m.abs() >= EXACT || s > 60 { return None; }
                let w = bits_for(m, m);
                Some((self.cnst(m as u128, w), s, false))
            }
            _ => None,
        }
    }
    fn to_width(&mut self, e: E, w: u32) -> E {
        let cw = self.w(e);
        if cw == w { e } else if cw < w { let r = self.range(e); let x = self.sext(e, w); self.set_range(x, r); x } else { let r = self.range(e); let x = self.extract(e, 0, w); self.set_range(x, r); x }
    }
    fn same_width(&mut self, a: E, b: E) -> (E, E) {
        let w = self.w(a).max(self.w(b));
        (self.to_width(a, w), self.to_width(b, w))
    }
    fn shl_exact(&mut self, e: E, k: u32) -> Option<E> {
        if k == 0 { return Some(e); }
        let (lo, hi) = self.range(e);
        if k > 60 || lo.abs().max(hi.abs()) >= (EXACT >> k.min(53)).max(1) << 1 { return None; }
        let (lo, hi) = (lo << k, hi << k);
        if lo.abs().max(hi.abs()) >= EXACT { return None; }
        let w = bits_for(lo, hi);
        let x = self.to_width(e, w.max(self.w(e)));
        let w = self.w(x);
        let kk = self.cnst(k as u128, w);
        let r = self.bin(Op::Shl, x, kk);
        self.set_range(r, (lo, hi));
        Some(r)
    }
    fn align(&mut self, a: E, sa: u32, b: E, sb: u32) -> Option<(E, E, u32)> {
        if sa == sb { return Some((a, b, sa)); }
        if sa < sb { let a2 = self.shl_exact(a, sb - sa)?; Some((a2, b, sb)) } else { let b2 = self.shl_exact(b, sa - sb)?; Some((a, b2, sa)) }
    }
    fn fix_arith(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a).op, self.n(b).op);
        if na != Op::Fix && nb != Op::Fix { return None; }
        let (x, sx, zx) = self.as_fix(a)?;
        let (y, sy, zy) = self.as_fix(b)?;
        match op {
            Op::FAdd | Op::FSub => {
                let (x, y, s) = self.align(x, sx, y, sy)?;
                let (rx, ry) = (self.range(x), self.range(y));
                let (lo, hi) = if op == Op::FAdd { (rx.0 + ry.0, rx.1 + ry.1) } else { (rx.0 - ry.1, rx.1 - ry.0) };
                if lo.abs().max(hi.abs()) >= EXACT { return None; }
                let w = bits_for(lo, hi).max(self.w(x)).max(self.w(y));
                let x = self.to_width(x, w);
                let y = self.to_width(y, w);
                let r = self.bin(if op == Op::FAdd { Op::Add } else { Op::Sub }, x, y);
                self.set_range(r, (lo, hi));
                // -0 arises only from (-0)+(-0) or (-0)-(+0)
                let nz = if op == Op::FAdd { zx && zy } else { zx };
                Some(self.fix(r, s, nz))
            }
            Op::FMul => {
                let (rx, ry) = (self.range(x), self.range(y));
                let c = [rx.0 * ry.0, rx.0 * ry.1, rx.1 * ry.0, rx.1 * ry.1];
                let (mut lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                if x == y { lo = 0; }
                if lo.abs().max(hi.abs()) >= EXACT || sx + sy > 200 { return None; }
                let w = bits_for(lo, hi).max(self.w(x)).max(self.w(y));
                let xx = self.to_width(x, w);
                let yy = self.to_width(y, w);
                let r = self.bin(Op::Mul, xx, yy);
                self.set_range(r, (lo, hi));
                let has0 = |r: (i128, i128)| r.0 <= 0 && r.1 >= 0;
                let mut nz = zx || zy;
                if !(x == y && !zx && !zy) && ((has0(rx) && ry.0 < 0) || (has0(ry) && rx.0 < 0)) { nz = true; }
                if x == y { nz = false; }
                Some(self.fix(r, sx + sy, nz))
            }
            _ => None,
        }
    }
    fn fix_cmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        // compare a Fix (or FixSqrt) with a constant or another Fix
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        let isf = |o: Op| o == Op::Fix || o == Op::FixSqrt;
        if !isf(na.op) && !isf(nb.op) { return None; }
        if nb.op == Op::Const || na.op == Op::Const {
            // find thresholds by monotonicity: value(i) is monotone non-decreasing in i
            let (fixe, c, flip) = if nb.op == Op::Const { (na, f64_of(nb.val), false) } else { (nb, f64_of(na.val), true) };
            if c.is_nan() { return Some(self.fals()); }
            let s = (fixe.aux & 0xffff) as u32;
            let i = fixe.a[0];
            let (lo, hi) = self.range(i);
            let isq = fixe.op == Op::FixSqrt;
            let lo = if isq { lo.max(0) } else { lo };
            let val = |k: i128| { let v = ldexp(k, s); if isq { v.sqrt() } else { v } };
            // first k in [lo, hi+1] with val(k) >= c, and first with val(k) > c
            let first = |strict: bool| {
                let (mut l, mut h) = (lo, hi + 1);
                while l < h {
                    let m = l + (h - l) / 2;
                    let v = val(m);
                    if (if strict { v > c } else { v >= c }) { h = m } else { l = m + 1 }
                }
                l
            };
            let ge = first(false); // k >= ge  <=> v >= c
            let gt = first(true);
            let w = self.w(i).max(bits_for(lo - 1, hi + 1));
            let ii = self.to_width(i, w);
            let mut atleast = |p: &mut Pool, k: i128| -> E {
                if k <= lo { return p.tru(); }
                if k > hi { return p.fals(); }
                let kc = p.cnst(k as u128, w);
                p.icmp(Op::Sle, kc, ii)
            };
            let r = match (op, flip) {
                (Op::FLt, false) => { let x = atleast(self, ge); self.not(x) }
                (Op::FLe, false) => { let x = atleast(self, gt); self.not(x) }
                (Op::FLt, true) => atleast(self, gt),
                (Op::FLe, true) => atleast(self, ge),
                (Op::FEq, _) => { let x = atleast(self, ge); let y = atleast(self, gt); let ny = self.not(y); self.bin(Op::And, x, ny) }
                _ => return None,
            };
            return Some(r);
        }
        if na.op == Op::FixSqrt && nb.op == Op::FixSqrt {
            let (sa, sb) = ((na.aux & 0xffff) as u32, (nb.aux & 0xffff) as u32);
            let (x, y, _s) = self.align(na.a[0], sa, nb.a[0], sb)?;
            let (rx, ry) = (self.range(x), self.range(y));
            if rx.1 >= 1 << 50 || ry.1 >= 1 << 50 { return None; }
            let (x, y) = self.same_width(x, y);
            return Some(match op { Op::FLt => self.icmp(Op::Slt, x, y), Op::FLe => self.icmp(Op::Sle, x, y), _ => self.icmp(Op::Eq, x, y) });
        }
        if na.op == Op::Fix && nb.op == Op::Fix {
            let (sa, sb) = ((na.aux & 0xffff) as u32, (nb.aux & 0xffff) as u32);
            let (x, y, _s) = self.align(na.a[0], sa, nb.a[0], sb)?;
            let (x, y) = self.same_width(x, y);
            return Some(match op { Op::FLt => self.icmp(Op::Slt, x, y), Op::FLe => self.icmp(Op::Sle, x, y), _ => self.icmp(Op::Eq, x, y) });
        }
        None
    }

    // ---------- floating point ----------
    pub fn fbin_c(op: Op, w: u32, a: u128, b: u128) -> u128 {
        if w == 32 {
            let (x, y) = (f32_of(a), f32_of(b));
            let r = match op {
                Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FRem => x % y,
                Op::FMin => min_num(x as f64, y as f64) as f32, Op::FMax => max_num(x as f64, y as f64) as f32,
                _ => unreachable!(),
            };
            return r.to_bits() as u128;
        }
        let (x, y) = (f64_of(a), f64_of(b));
        let r = match op {
            Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FRem => x % y,
            Op::FMin => min_num(x, y), Op::FMax => max_num(x, y),
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.cnst(Self::fbin_c(op, w, x, y), w); }
        let (mut a, mut b) = (a, b);
        if w == 64 {
            // exact identities
            if op == Op::FMul && self.cval(b) == Some(1f64.to_bits() as u128) { return a; }
            if op == Op::FMul && self.cval(a) == Some(1f64.to_bits() as u128) { return b; }
            if matches!(op, Op::FAdd | Op::FSub | Op::FMul) {
                if let Some(r) = self.fix_arith(op, a, b) { return r; }
            }
            if op == Op::FDiv {
                self.chk_nz(b);
                // division by a power of two is multiplication by its inverse
                if let Some(c) = self.cval(b) {
                    let f = f64_of(c);
                    if let Some((m, s)) = dyadic(f) {
                        if m.abs().count_ones() == 1 && s < 500 && m.abs() < EXACT {
                            let k = self.cnst((1.0 / f).to_bits() as u128, 64);
                            if let Some(r) = self.fix_arith(Op::FMul, a, k) { return r; }
                        }
                    }
                }
            }
            if matches!(op, Op::FMin | Op::FMax) {
                let (oa, ob) = (self.n(a).op, self.n(b).op);
                if oa == Op::Fix || ob == Op::Fix {
                    for (x, y) in [(a, b), (b, a)] {
                        if let Some(c) = self.cval(x) { if f64_of(c).is_nan() { return y; } }
                    }
                    if let Some(lt) = self.fix_cmp(Op::FLt, a, b) {
                        return if op == Op::FMin { self.ite(lt, a, b) } else { self.ite(lt, b, a) };
                    }
                }
            }
            if op == Op::FSub && self.n(a).op == Op::Var && false { return a; }
        }
        match op {
            Op::FAdd | Op::FMul | Op::FMin | Op::FMax => if a > b { std::mem::swap(&mut a, &mut b) },
            _ => {}
        }
        // canonical square of a difference: (a-b)*(a-b) == (b-a)*(b-a) exactly
        if op == Op::FMul && a == b {
            let n = self.n(a).clone();
            if n.op == Op::FSub && n.a[0] > n.a[1] {
                let d = self.mk(Op::FSub, w, n.a[1], n.a[0], NOE, 0);
                return self.mk(Op::FMul, w, d, d, NOE, 0);
            }
            if n.op == Op::FAbs || n.op == Op::FNeg { return self.fbin(Op::FMul, n.a[0], n.a[0]); }
        }
        self.mk(op, w, a, b, NOE, 0)
    }
    pub fn fneg(&mut self, a: E) -> E {
        let n = self.n(a).clone();
        let sb = 1u128 << (n.w - 1);
        match n.op {
            Op::Const => self.cnst(n.val ^ sb, n.w),
            Op::FNeg => n.a[0],
            Op::Fix => {
                let (lo, hi) = self.range(n.a[0]);
                let has0 = lo <= 0 && hi >= 0;
                let w = bits_for(-hi, -lo).max(self.w(n.a[0]));
                let x = self.to_width(n.a[0], w);
                let z = self.cnst(0, w);
                let r = self.bin(Op::Sub, z, x);
                self.set_range(r, (-hi, -lo));
                self.fix(r, (n.aux & 0xffff) as u32, has0)
            }
            _ => self.mk(Op::FNeg, n.w, a, NOE, NOE, 0),
        }
    }
    pub fn fabs(&mut self, a: E) -> E {
        let n = self.n(a).clone();
        let sb = 1u128 << (n.w - 1);
        match n.op {
            Op::Const => self.cnst(n.val & !sb, n.w),
            Op::FNeg => self.fabs(n.a[0]),
            Op::FAbs | Op::FixSqrt => a,
            Op::Fix => {
                let (lo, hi) = self.range(n.a[0]);
                let s = (n.aux & 0xffff) as u32;
                if lo >= 0 { return self.fix(n.a[0], s, false); }
                let m = lo.abs().max(hi.abs());
                let w = bits_for(-m, m).max(self.w(n.a[0]));
                let x = self.to_width(n.a[0], w);
                let z = self.cnst(0, w);
                let neg = self.bin(Op::Sub, z, x);
                self.set_range(neg, (-hi, -lo));
                let c = self.icmp(Op::Slt, x, z);
                let r = self.ite(c, neg, x);
                self.set_range(r, (0, m));
                self.fix(r, s, false)
            }
            // |x - y| is symmetric
            Op::FSub if n.a[0] > n.a[1] => {
                let d = self.mk(Op::FSub, n.w, n.a[1], n.a[0], NOE, 0);
                self.mk(Op::FAbs, n.w, d, NOE, NOE, 0)
            }
            _ => self.mk(Op::FAbs, n.w, a, NOE, NOE, 0),
        }
    }
    pub fn fsqrt(&mut self, a: E) -> E {
        let n = self.n(a).clone();
        match n.op {
            Op::Const => if n.w == 64 { self.cnst(f64_of(n.val).sqrt().to_bits() as u128, 64) } else { self.cnst(f32_of(n.val).sqrt().to_bits() as u128, 32) },
            Op::Fix => {
                let s = (n.aux & 0xffff) as u32;
                let m = self.n(n.a[0]).clone();
                if m.op == Op::Mul && m.a[0] == m.a[1] && s % 2 == 0 {
                    let f = self.fix(m.a[0], s / 2, false);
                    return self.fabs(f);
                }
                if self.range(n.a[0]).0 >= 0 && (n.aux >> 16) & 1 == 0 {
                    return self.mk(Op::FixSqrt, 64, n.a[0], NOE, NOE, s as u64);
                }
                self.mk(Op::FSqrt, n.w, a, NOE, NOE, 0)
            }
            _ => self.mk(Op::FSqrt, n.w, a, NOE, NOE, 0),
        }
    }
    pub fn fcmp_c(op: Op, w: u32, a: u128, b: u128) -> bool {
        let (x, y) = if w == 64 { (f64_of(a), f64_of(b)) } else { (f32_of(a) as f64, f32_of(b) as f64) };
        match op { Op::FEq => x == y, Op::FLt => x < y, Op::FLe => x <= y, _ => unreachable!() }
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.cnst(Self::fcmp_c(op, w, x, y) as u128, 1); }
        for x in [a, b] { if let Some(c) = self.cval(x) { let f = if w == 64 { f64_of(c) } else { f32_of(c) as f64 }; if f.is_nan() { return self.fals(); } } }
        if w == 64 { if let Some(r) = self.fix_cmp(op, a, b) { return r; } }
        if a == b {
            if op == Op::FLt { return self.fals(); }
            let nan = self.fisnan(a);
            return self.not(nan);
        }
        // ite with a constant arm
        for (x, y, flip) in [(a, b, false), (b, a, true)] {
            let n = self.n(x).clone();
            if n.op == Op::Ite && (self.cval(n.a[1]).is_some() || self.cval(n.a[2]).is_some()) && (self.cval(y).is_some() || self.n(y).op == Op::Fix) {
                let (t, f) = if !flip { (self.fcmp(op, n.a[1], y), self.fcmp(op, n.a[2], y)) } else { (self.fcmp(op, y, n.a[1]), self.fcmp(op, y, n.a[2])) };
                return self.ite(n.a[0], t, f);
            }
        }
        let (a, b) = if op == Op::FEq && a > b { (b, a) } else { (a, b) };
        self.mk(op, 1, a, b, NOE, 0)
    }
    pub fn fisnan(&mut self, a: E) -> E {
        let n = self.n(a).clone();
        match n.op {
            Op::Const => { let nan = if n.w == 64 { f64_of(n.val).is_nan() } else { f32_of(n.val).is_nan() }; self.cnst(nan as u128, 1) }
            Op::Fix | Op::FixSqrt | Op::FFromS | Op::FFromU => self.fals(),
            Op::FNeg | Op::FAbs => self.fisnan(n.a[0]),
            Op::Ite => { let t = self.fisnan(n.a[1]); let f = self.fisnan(n.a[2]); self.ite(n.a[0], t, f) }
            _ => self.mk(Op::FIsNan, 1, a, NOE, NOE, 0),
        }
    }
    pub fn ffrom(&mut self, a: E, signed: bool, w: u32) -> E {
        let iw = self.w(a);
        if let Some(v) = self.cval(a) {
            let r = if w == 64 { (if signed { sext(v, iw) as f64 } else { v as f64 }).to_bits() as u128 } else { (if signed { sext(v, iw) as f32 } else { v as f32 }).to_bits() as u128 };
            return self.cnst(r, w);
        }
        if w == 64 {
            let (lo, hi) = self.range(a);
            let (e, lo, hi) = if signed { (a, lo, hi) } else if lo >= 0 { (a, lo, hi) } else if iw <= 52 {
                let z = self.zext(a, iw + 1);
                (z, 0, mask(iw) as i128)
            } else { (a, lo, i128::MAX) };
            if (signed || lo >= 0) && lo.abs().max(hi.saturating_abs()) < EXACT {
                // shrink to the minimal width
                let nw = bits_for(lo, hi);
                let e = if nw < self.w(e) { self.to_width(e, nw) } else { e };
                self.set_range(e, (lo, hi));
                return self.fix(e, 0, false);
            }
        }
        self.mk(if signed { Op::FFromS } else { Op::FFromU }, w, a, NOE, NOE, 0)
    }
    pub fn fto_c(signed: bool, fw: u32, v: u128, iw: u32) -> u128 {
        let x = if fw == 64 { f64_of(v) } else { f32_of(v) as f64 };
        let r = if signed {
            let lo = -(2f64.powi(iw as i32 - 1));
            let hi = 2f64.powi(iw as i32 - 1);
            if x.is_nan() { 0 } else if x <= lo { -(1i128 << (iw - 1)) } else if x >= hi { (1i128 << (iw - 1)) - 1 } else { x as i128 }
        } else {
            let hi = 2f64.powi(iw as i32);
            if x.is_nan() || x <= 0.0 { 0 } else if x >= hi { mask(iw) as i128 } else { x as i128 }
        };
        r as u128 & mask(iw)
    }
    pub fn fto(&mut self, a: E, signed: bool, iw: u32) -> E {
        let fw = self.w(a);
        if let Some(v) = self.cval(a) { return self.cnst(Self::fto_c(signed, fw, v, iw), iw); }
        let n = self.n(a).clone();
        if n.op == Op::Fix {
            let s = (n.aux & 0xffff) as u32;
            let (lo, hi) = self.range(n.a[0]);
            // truncation toward zero
            let fits = if signed { iw >= 54 } else { iw >= 53 && lo >= 0 };
            if fits {
                let x = if s == 0 { n.a[0] } else {
                    let w = self.w(n.a[0]).max(bits_for(-(1i128 << s), 1i128 << s));
                    let x = self.to_width(n.a[0], w);
                    let d = self.cnst(1u128 << s, w);
                    let q = if lo >= 0 { self.bin(Op::UDiv, x, d) } else { self.bin(Op::SDiv, x, d) };
                    self.set_range(q, (lo / (1i128 << s), hi / (1i128 << s)));
                    q
                };
                return self.to_width(x, iw);
            }
        }
        self.mk(if signed { Op::FToS } else { Op::FToU }, iw, a, NOE, NOE, iw as u64)
    }
    pub fn fround_c(w: u32, v: u128, mode: u64) -> u128 {
        let f = |x: f64| match mode { 0 => x.round_ties_even(), 1 => x.floor(), 2 => x.ceil(), 3 => x.trunc(), _ => x.round() };
        if w == 64 { f(f64_of(v)).to_bits() as u128 } else { (f(f32_of(v) as f64) as f32).to_bits() as u128 }
    }
    pub fn fround(&mut self, a: E, mode: u64) -> E {
        let w = self.w(a);
        if let Some(v) = self.cval(a) { return self.cnst(Self::fround_c(w, v, mode), w); }
        let n = self.n(a).clone();
        if n.op == Op::Fix && n.aux & 0xffff == 0 { return a; }
        self.mk(Op::FRoundI, w, a, NOE, NOE, mode)
    }
    pub fn fcvt(&mut self, a: E, w: u32) -> E {
        let iw = self.w(a);
        if iw == w { return a; }
        if let Some(v) = self.cval(a) {
            return if w == 64 { self.cnst((f32_of(v) as f64).to_bits() as u128, 64) } else { self.cnst((f64_of(v) as f32).to_bits() as u128, 32) };
        }
        self.mk(Op::FCvt, w, a, NOE, NOE, 0)
    }

    // ---------- finite-domain lifting ----------
    fn hasfp(&mut self, e: E) -> bool {
        if let Some(b) = self.fpmemo.get(&e) { return *b; }
        let n = self.n(e).clone();
        let b = matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FMin | Op::FMax | Op::FFromS | Op::FFromU | Op::FRoundI | Op::FCvt | Op::Fix | Op::FixSqrt | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan | Op::FToS | Op::FToU)
            || n.a.iter().any(|&x| x != NOE && self.hasfp(x));
        self.fpmemo.insert(e, b);
        b
    }
    /// Replace floating-point atoms that depend on one or two small-range
    /// variables by their exact truth table over those variables.
    pub fn lift(&mut self, e: E) -> E {
        if self.cval(e).is_some() || !self.hasfp(e) { return e; }
        if let Some(&r) = self.lifted.get(&e) { return r; }
        let n = self.n(e).clone();
        let vs = self.vsets[e as usize].clone();
        let dom = |p: &Pool, v: u32| -> i128 { let i = &p.vars[v as usize]; if i.ranged { i.hi - i.lo + 1 } else if i.w == 1 { 2 } else { 1 << 40 } };
        let mut size = 1i128;
        for &v in vs.iter() { size = size.saturating_mul(dom(self, v)).min(1 << 50); }
        let r = if n.w == 1 && vs.len() <= 2 && size <= 3000 && vs.iter().all(|&v| self.vars[v as usize].ranged) {
            self.tables += 1;
            self.table(e, &vs)
        } else if n.w == 1 && matches!(n.op, Op::And | Op::Or | Op::Xor) {
            let a = self.lift(n.a[0]);
            let b = self.lift(n.a[1]);
            self.bin(n.op, a, b)
        } else if n.w == 1 && n.op == Op::Ite {
            let c = self.lift(n.a[0]);
            let a = self.lift(n.a[1]);
            let b = self.lift(n.a[2]);
            self.ite(c, a, b)
        } else { e };
        self.lifted.insert(e, r);
        r
    }
    fn varnode(&mut self, v: u32) -> E {
        let w = self.vars[v as usize].w;
        self.intern(Node { op: Op::Var, w, a: [NOE; 3], aux: v as u64, val: 0 })
    }
    fn intervals(&mut self, v: u32, ok: &[bool]) -> E {
        let (lo, w) = (self.vars[v as usize].lo, self.vars[v as usize].w);
        if ok.iter().all(|&x| x) { return self.tru(); }
        let x = self.varnode(v);
        let mut acc = self.fals();
        let mut i = 0;
        while i < ok.len() {
            if !ok[i] { i += 1; continue; }
            let mut j = i;
            while j + 1 < ok.len() && ok[j + 1] { j += 1; }
            let (a, b) = (self.cnst((lo + i as i128) as u128 & mask(w), w), self.cnst((lo + j as i128) as u128 & mask(w), w));
            let t = if i == j { self.icmp(Op::Eq, x, a) } else {
                let p = if i == 0 { self.tru() } else { self.icmp(Op::Sle, a, x) };
                let q = if j + 1 == ok.len() { self.tru() } else { self.icmp(Op::Sle, x, b) };
                self.bin(Op::And, p, q)
            };
            acc = self.bin(Op::Or, acc, t);
            i = j + 1;
        }
        acc
    }
    fn table(&mut self, e: E, vs: &[u32]) -> E {
        let rng = |p: &Pool, v: u32| (p.vars[v as usize].lo, (p.vars[v as usize].hi - p.vars[v as usize].lo + 1) as usize);
        if vs.len() == 1 {
            let (lo, n) = rng(self, vs[0]);
            let ok: Vec<bool> = (0..n).map(|i| { let val = (lo + i as i128) as u128; self.eval(e, &|_| val, &mut HashMap::new()) == 1 }).collect();
            return self.intervals(vs[0], &ok);
        }
        // two variables: group equal rows of the first
        let (lo0, n0) = rng(self, vs[0]);
        let (lo1, n1) = rng(self, vs[1]);
        let mut groups: Vec<(Vec<bool>, Vec<bool>)> = vec![];
        for i in 0..n0 {
            let a = (lo0 + i as i128) as u128;
            let row: Vec<bool> = (0..n1).map(|j| { let b = (lo1 + j as i128) as u128; let v0 = vs[0]; self.eval(e, &|v| if v == v0 { a } else { b }, &mut HashMap::new()) == 1 }).collect();
            match groups.iter_mut().find(|g| g.0 == row) { Some(g) => g.1[i] = true, None => { let mut m = vec![false; n0]; m[i] = true; groups.push((row, m)); } }
        }
        let mut acc = self.fals();
        for (row, m) in groups {
            if row.iter().all(|&x| !x) { continue; }
            let p = self.intervals(vs[0], &m);
            let q = self.intervals(vs[1], &row);
            let t = self.bin(Op::And, p, q);
            acc = self.bin(Op::Or, acc, t);
        }
        acc
    }

    // ---------- evaluation ----------
    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> u128, memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.val,
            Op::Var => return model(n.aux as u32) & mask(n.w),
            _ => {}
        }
        if let Some(v) = memo.get(&e) { return *v; }
        let m = mask(n.w);
        let r = match n.op {
            Op::Ite => {
                if self.eval(n.a[0], model, memo) == 1 { self.eval(n.a[1], model, memo) } else { self.eval(n.a[2], model, memo) }
            }
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => {
                let a = self.eval(n.a[0], model, memo);
                let b = self.eval(n.a[1], model, memo);
                Self::binop_c(n.op, n.w, a, b)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.eval(n.a[0], model, memo);
                let b = self.eval(n.a[1], model, memo);
                Self::binop_c(n.op, self.w(n.a[0]), a, b) & 1
            }
            Op::Concat => {
                let h = self.eval(n.a[0], model, memo);
                let l = self.eval(n.a[1], model, memo);
                (h << self.w(n.a[1])) | l
            }
            Op::Extract => (self.eval(n.a[0], model, memo) >> n.aux) & m,
            Op::ZExt => self.eval(n.a[0], model, memo),
            Op::SExt => sext(self.eval(n.a[0], model, memo), self.w(n.a[0])) as u128 & m,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FMin | Op::FMax => {
                let a = self.eval(n.a[0], model, memo);
                let b = self.eval(n.a[1], model, memo);
                Self::fbin_c(n.op, n.w, a, b)
            }
            Op::FSqrt => { let v = self.eval(n.a[0], model, memo); if n.w == 64 { f64_of(v).sqrt().to_bits() as u128 } else { f32_of(v).sqrt().to_bits() as u128 } }
            Op::FAbs => self.eval(n.a[0], model, memo) & (m >> 1),
            Op::FNeg => self.eval(n.a[0], model, memo) ^ (1u128 << (n.w - 1)),
            Op::FEq | Op::FLt | Op::FLe => {
                let a = self.eval(n.a[0], model, memo);
                let b = self.eval(n.a[1], model, memo);
                Self::fcmp_c(n.op, self.w(n.a[0]), a, b) as u128
            }
            Op::FIsNan => { let v = self.eval(n.a[0], model, memo); (if self.w(n.a[0]) == 64 { f64_of(v).is_nan() } else { f32_of(v).is_nan() }) as u128 }
            Op::FFromS | Op::FFromU => {
                let iw = self.w(n.a[0]);
                let v = self.eval(n.a[0], model, memo);
                let s = n.op == Op::FFromS;
                if n.w == 64 { (if s { sext(v, iw) as f64 } else { v as f64 }).to_bits() as u128 } else { (if s { sext(v, iw) as f32 } else { v as f32 }).to_bits() as u128 }
            }
            Op::FToS | Op::FToU => { let v = self.eval(n.a[0], model, memo); Self::fto_c(n.op == Op::FToS, self.w(n.a[0]), v, n.w) }
            Op::FRoundI => { let v = self.eval(n.a[0], model, memo); Self::fround_c(n.w, v, n.aux) }
            Op::FCvt => { let v = self.eval(n.a[0], model, memo); if n.w == 64 { (f32_of(v) as f64).to_bits() as u128 } else { (f64_of(v) as f32).to_bits() as u128 } }
            Op::TotalKey => total_key(self.eval(n.a[0], model, memo)),
            Op::Fix => { let v = self.eval(n.a[0], model, memo); ldexp(sext(v, self.w(n.a[0])), (n.aux & 0xffff) as u32).to_bits() as u128 }
            Op::FixSqrt => { let v = self.eval(n.a[0], model, memo); ldexp(sext(v, self.w(n.a[0])), (n.aux & 0xffff) as u32).sqrt().to_bits() as u128 }
            Op::Const | Op::Var => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
}
