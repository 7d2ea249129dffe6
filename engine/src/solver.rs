//! SMT-LIB2 back end (z3 and cvc5 processes) with independence slicing, model reuse and a query cache.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub type Model = std::rc::Rc<HashMap<u32, u128>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Sat(HashMap<u32, u128>), Unsat, Unknown }

struct Proc { child: Child, inp: ChildStdin, out: BufReader<ChildStdout>, #[allow(dead_code)] cmd: String }

impl Proc {
    fn start(cmd: &str) -> Option<Proc> {
        let mut it = cmd.split_whitespace();
        let mut c = Command::new(it.next()?);
        c.args(it).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut child = c.spawn().ok()?;
        let inp = child.stdin.take()?;
        let out = BufReader::new(child.stdout.take()?);
        Some(Proc { child, inp, out, cmd: cmd.to_string() })
    }
    fn ask(&mut self, q: &str, end: &str) -> Option<String> {
        self.inp.write_all(q.as_bytes()).and_then(|_| self.inp.flush()).ok()?;
        let mut ans = String::new();
        loop {
            let mut l = String::new();
            match self.out.read_line(&mut l) { Ok(0) | Err(_) => return None, _ => {} }
            if l.contains(end) { return Some(ans); }
            ans += &l;
        }
    }
}
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache: u64, pub model_hits: u64, pub fp_queries: u64, pub secs: f64, pub max_secs: f64, pub fallback: u64 }

pub struct Solver {
    main: Option<Proc>,
    inc: Option<Proc>,
    pub timeout_ms: u64,
    pub stats: Stats,
    cache: HashMap<Vec<E>, Res>,
    recent: Vec<HashMap<u32, u128>>,
    pub dump: Option<String>,
    pub selfcheck: u64,
    pub selfchecked: u64,
    pub errors: Vec<String>,
}

const Z3: &str = "z3 -in -smt2";
const Z3INC: &str = "z3-new -in -smt2";
const CVC5: &str = "cvc5 --lang smt2 --produce-models --fp-exp";

struct Emit<'a> { p: &'a Pool, out: String, done_bv: HashSet<E>, done_fp: HashSet<E>, vars: HashSet<u32>, has_fp: bool, cvc: bool, aux: usize, side: String }

fn is_fp_op(o: Op) -> bool { matches!(o, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FMin | Op::FMax | Op::FFromS | Op::FFromU | Op::FRoundI | Op::FCvt | Op::Fix | Op::FixSqrt) }

impl<'a> Emit<'a> {
    fn bvc(v: u128, w: u32) -> String { format!("(_ bv{} {})", v, w) }
    fn fsort(w: u32) -> &'static str { if w == 64 { "11 53" } else { "8 24" } }
    fn fsortname(w: u32) -> &'static str { if w == 64 { "(_ FloatingPoint 11 53)" } else { "(_ FloatingPoint 8 24)" } }
    /// bit-vector (or Bool for width 1) form; returns the term name
    fn bv(&mut self, e: E) -> String {
        let n = self.p.n(e).clone();
        match n.op {
            Op::Const => return if n.w == 1 { if n.val == 1 { "true".into() } else { "false".into() } } else { Self::bvc(n.val, n.w) },
            Op::Var => {
                let id = n.aux as u32;
                if self.vars.insert(id) {
                    let vi = &self.p.vars[id as usize];
                    if n.w == 1 { self.out += &format!("(declare-const v{} Bool)\n", id); } else {
                        self.out += &format!("(declare-const v{} (_ BitVec {}))\n", id, n.w);
                        if vi.ranged {
                            self.side += &format!("(assert (bvsle {} v{}))\n(assert (bvsle v{} {}))\n", Self::bvc(vi.lo as u128 & mask(n.w), n.w), id, id, Self::bvc(vi.hi as u128 & mask(n.w), n.w));
                        }
                    }
                }
                return format!("v{}", id);
            }
            _ => {}
        }
        let name = format!("b{}", e);
        if self.done_bv.contains(&e) { return name; }
        let w1 = n.w == 1;
        let t = match n.op {
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::And | Op::Or | Op::Xor => {
                let a = self.bv(n.a[0]);
                let b = self.bv(n.a[1]);
                if w1 {
                    let o = match n.op { Op::And | Op::Mul => "and", Op::Or => "or", Op::Xor | Op::Add | Op::Sub => "xor", o => panic!("bool {:?}", o) };
                    format!("({} {} {})", o, a, b)
                } else {
                    let o = match n.op { Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::SDiv => "bvsdiv", Op::URem => "bvurem", Op::SRem => "bvsrem", Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::And => "bvand", Op::Or => "bvor", _ => "bvxor" };
                    format!("({} {} {})", o, a, b)
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.bv(n.a[0]);
                let b = self.bv(n.a[1]);
                let o = match n.op { Op::Eq => "=", Op::Ult => "bvult", Op::Ule => "bvule", Op::Slt => "bvslt", _ => "bvsle" };
                format!("({} {} {})", o, a, b)
            }
            Op::Ite => {
                let c = self.bv(n.a[0]);
                let a = self.bv(n.a[1]);
                let b = self.bv(n.a[2]);
                format!("(ite {} {} {})", c, a, b)
            }
            Op::Concat => {
                let a = self.bv1(n.a[0]);
                let b = self.bv1(n.a[1]);
                format!("(concat {} {})", a, b)
            }
            Op::Extract => {
                let a = self.bv1(n.a[0]);
                let x = format!("((_ extract {} {}) {})", n.aux as u32 + n.w - 1, n.aux, a);
                if w1 { format!("(= {} #b1)", x) } else { x }
            }
            Op::ZExt => {
                let iw = self.p.w(n.a[0]);
                let a = self.bv1(n.a[0]);
                format!("((_ zero_extend {}) {})", n.w - iw, a)
            }
            Op::SExt => {
                let iw = self.p.w(n.a[0]);
                let a = self.bv1(n.a[0]);
                format!("((_ sign_extend {}) {})", n.w - iw, a)
            }
            Op::FEq | Op::FLt | Op::FLe => {
                let a = self.fp(n.a[0]);
                let b = self.fp(n.a[1]);
                format!("({} {} {})", match n.op { Op::FEq => "fp.eq", Op::FLt => "fp.lt", _ => "fp.leq" }, a, b)
            }
            Op::FIsNan => { let a = self.fp(n.a[0]); format!("(fp.isNaN {})", a) }
            Op::FAbs => { let a = self.bv(n.a[0]); format!("(bvand {} {})", a, Self::bvc(mask(n.w) >> 1, n.w)) }
            Op::FNeg => { let a = self.bv(n.a[0]); format!("(bvxor {} {})", a, Self::bvc(1u128 << (n.w - 1), n.w)) }
            Op::FToS | Op::FToU => {
                // saturating
                let fw = self.p.w(n.a[0]);
                let a = self.fp(n.a[0]);
                let iw = n.w;
                let s = n.op == Op::FToS;
                let (lo, hi) = if s { (-(2f64.powi(iw as i32 - 1)), 2f64.powi(iw as i32 - 1)) } else { (0.0, 2f64.powi(iw as i32)) };
                let k = |x: f64| if fw == 64 { format!("((_ to_fp 11 53) {})", Self::bvc(x.to_bits() as u128, 64)) } else { format!("((_ to_fp 8 24) {})", Self::bvc((x as f32).to_bits() as u128, 32)) };
                let (minv, maxv) = if s { (1u128 << (iw - 1), mask(iw) >> 1) } else { (0, mask(iw)) };
                format!("(ite (fp.isNaN {a}) {z} (ite (fp.leq {a} {lo}) {mn} (ite (fp.leq {hi} {a}) {mx} ((_ {cv} {iw}) RTZ {a}))))", a = a, z = Self::bvc(0, iw), lo = k(lo), hi = k(hi), mn = Self::bvc(minv, iw), mx = Self::bvc(maxv, iw), cv = if s { "fp.to_sbv" } else { "fp.to_ubv" }, iw = iw)
            }
            Op::TotalKey => {
                let a = self.bv(n.a[0]);
                format!("(bvxor {a} (bvlshr (bvashr {a} {c63}) {c1}))", a = a, c63 = Self::bvc(63, 64), c1 = Self::bvc(1, 64))
            }
            o if is_fp_op(o) => {
                let a = self.fp(e);
                if self.cvc {
                    // fresh bits constrained to denote the value
                    self.aux += 1;
                    let v = format!("x{}", self.aux);
                    self.out += &format!("(declare-const {} (_ BitVec {}))\n", v, n.w);
                    self.side += &format!("(assert (= ((_ to_fp {}) {}) {}))\n", Self::fsort(n.w), v, a);
                    v
                } else { format!("(fp.to_ieee_bv {})", a) }
            }
            o => panic!("emit {:?}", o),
        };
        let sort = if w1 { "Bool".to_string() } else { format!("(_ BitVec {})", n.w) };
        self.out += &format!("(define-fun {} () {} {})\n", name, sort, t);
        self.done_bv.insert(e);
        name
    }
    /// like bv but width-1 values as (_ BitVec 1)
    fn bv1(&mut self, e: E) -> String {
        let a = self.bv(e);
        if self.p.w(e) == 1 { format!("(ite {} #b1 #b0)", a) } else { a }
    }
    fn fp(&mut self, e: E) -> String {
        self.has_fp = true;
        let n = self.p.n(e).clone();
        let name = format!("f{}", e);
        if self.done_fp.contains(&e) { return name; }
        let t = match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let a = self.fp(n.a[0]);
                let b = self.fp(n.a[1]);
                format!("({} RNE {} {})", match n.op { Op::FAdd => "fp.add", Op::FSub => "fp.sub", Op::FMul => "fp.mul", _ => "fp.div" }, a, b)
            }
            Op::FRem => panic!("frem symbolic"),
            Op::FMin | Op::FMax => {
                let a = self.fp(n.a[0]);
                let b = self.fp(n.a[1]);
                // minimumnum semantics with ordered zeros
                let lt = if n.op == Op::FMin { format!("(or (fp.lt {a} {b}) (and (fp.eq {a} {b}) (fp.isNegative {a})))", a = a, b = b) } else { format!("(or (fp.lt {b} {a}) (and (fp.eq {a} {b}) (fp.isPositive {a})))", a = a, b = b) };
                format!("(ite (fp.isNaN {a}) {b} (ite (fp.isNaN {b}) {a} (ite {lt} {a} {b})))", a = a, b = b, lt = lt)
            }
            Op::FSqrt => { let a = self.fp(n.a[0]); format!("(fp.sqrt RNE {})", a) }
            Op::FAbs => { let a = self.fp(n.a[0]); format!("(fp.abs {})", a) }
            Op::FNeg => { let a = self.fp(n.a[0]); format!("(fp.neg {})", a) }
            Op::FFromS => { let a = self.bv1(n.a[0]); format!("((_ to_fp {}) RNE {})", Self::fsort(n.w), a) }
            Op::FFromU => { let a = self.bv1(n.a[0]); format!("((_ to_fp_unsigned {}) RNE {})", Self::fsort(n.w), a) }
            Op::FRoundI => { let a = self.fp(n.a[0]); format!("(fp.roundToIntegral {} {})", ["RNE", "RTN", "RTP", "RTZ", "RNA"][n.aux as usize], a) }
            Op::FCvt => { let a = self.fp(n.a[0]); format!("((_ to_fp {}) RNE {})", Self::fsort(n.w), a) }
            Op::Fix | Op::FixSqrt => {
                let s = n.aux & 0xffff;
                let a = self.bv1(n.a[0]);
                let mut t = format!("((_ to_fp 11 53) RNE {})", a);
                if s > 0 { t = format!("(fp.mul RNE {} ((_ to_fp 11 53) {}))", t, Self::bvc(2f64.powi(-(s as i32)).to_bits() as u128, 64)); }
                if n.op == Op::FixSqrt { t = format!("(fp.sqrt RNE {})", t); }
                t
            }
            Op::Ite => {
                let c = self.bv(n.a[0]);
                let a = self.fp(n.a[1]);
                let b = self.fp(n.a[2]);
                format!("(ite {} {} {})", c, a, b)
            }
            _ => { let a = self.bv(e); format!("((_ to_fp {}) {})", Self::fsort(n.w), a) }
        };
        self.out += &format!("(define-fun {} () {} {})\n", name, Self::fsortname(n.w), t);
        self.done_fp.insert(e);
        name
    }
}

impl Solver {
    pub fn new() -> Solver {
        Solver { main: None, inc: None, timeout_ms: 60000, stats: Stats::default(), cache: HashMap::new(), recent: vec![], dump: None, selfcheck: 0, selfchecked: 0, errors: vec![] }
    }

    /// Is the conjunction satisfiable? `hint` is a model of the path condition so far.
    pub fn check(&mut self, p: &Pool, pc: &[E], extra: E, hint: &HashMap<u32, u128>) -> Res {
        if let Some(v) = p.cval(extra) { if v == 0 { return Res::Unsat; } }
        // slicing
        let mut vars: HashSet<u32> = p.vsets[extra as usize].iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                if p.vsets[c as usize].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(p.vsets[c as usize].iter().copied());
                }
            }
            if !ch { break; }
        }
        let mut cons: Vec<E> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &c)| c).collect();
        cons.push(extra);
        cons.sort_unstable();
        cons.dedup();
        if let Some(r) = self.cache.get(&cons) { self.stats.cache += 1; return r.clone(); }
        // try recent models
        for k in (0..self.recent.len()).rev() {
            let m = &self.recent[k];
            let f = |v: u32| *m.get(&v).or_else(|| hint.get(&v)).unwrap_or(&0);
            let mut memo = HashMap::new();
            let inr = vars.iter().all(|&v| { let vi = &p.vars[v as usize]; if !vi.ranged { true } else { let x = sext(f(v), vi.w); x >= vi.lo && x <= vi.hi } });
            if inr && cons.iter().all(|&c| p.eval(c, &f, &mut memo) == 1) {
                self.stats.model_hits += 1;
                let mm: HashMap<u32, u128> = vars.iter().map(|&v| (v, f(v))).collect();
                let r = Res::Sat(mm);
                self.cache.insert(cons, r.clone());
                return r;
            }
        }
        let r = self.solve(p, &cons, &vars);
        if let Res::Sat(m) = &r {
            self.recent.push(m.clone());
            if self.recent.len() > 48 { self.recent.remove(0); }
        }
        if r != Res::Unknown { self.cache.insert(cons, r.clone()); }
        r
    }

    fn script(p: &Pool, cons: &[E], cvc: bool) -> (String, bool, Vec<u32>) {
        let mut em = Emit { p, out: String::new(), done_bv: HashSet::new(), done_fp: HashSet::new(), vars: HashSet::new(), has_fp: false, cvc, aux: 0, side: String::new() };
        let mut asserts = String::new();
        for &c in cons {
            let t = em.bv(c);
            asserts += &format!("(assert {})\n", t);
        }
        let mut vs: Vec<u32> = em.vars.iter().copied().collect();
        vs.sort_unstable();
        (format!("{}{}{}", em.out, em.side, asserts), em.has_fp, vs)
    }

    fn solve(&mut self, p: &Pool, cons: &[E], _vars: &HashSet<u32>) -> Res {
        let t0 = Instant::now();
        let (scr, fp, vs) = Self::script(p, cons, false);
        self.stats.queries += 1;
        if fp { self.stats.fp_queries += 1; }
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), format!("{}(check-sat)\n", scr));
        }
        // bit-vector queries go to a live solver with push/pop first
        let mut r = if fp { Res::Unknown } else { self.run_z3(&scr, &vs, true) };
        if r == Res::Unknown {
            let scr = if fp { scr.clone() } else { format!("(set-logic QF_BV)\n{}", scr) };
            r = self.run_z3(&scr, &vs, false);
        }
        if r == Res::Unknown {
            self.stats.fallback += 1;
            r = self.run_cvc5(p, cons, &vs);
        } else if self.selfcheck > 0 && self.stats.queries % self.selfcheck == 0 {
            // cross-check with a second solver
            let r2 = self.run_cvc5(p, cons, &vs);
            match (&r, &r2) {
                (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => self.errors.push(format!("solver disagreement on query {}", self.stats.queries)),
                (_, Res::Unknown) => {}
                _ => self.selfchecked += 1,
            }
        }
        if let Res::Sat(m) = &r {
            // never trust a model without evaluating it
            let f = |v: u32| *m.get(&v).unwrap_or(&0);
            let mut memo = HashMap::new();
            if !cons.iter().all(|&c| p.eval(c, &f, &mut memo) == 1) {
                let dbg = std::env::var("ENGINE_DEBUG").is_ok();
                if dbg { eprintln!("BAD MODEL {:?}\n{}", m, scr); }
                self.errors.push("model does not satisfy the query (encoding error)".into());
                r = Res::Unknown;
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.secs += dt;
        if dt > self.stats.max_secs { self.stats.max_secs = dt; }
        match r { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        r
    }

    fn run_z3(&mut self, scr: &str, vs: &[u32], inc: bool) -> Res {
        let timeout = if inc { self.timeout_ms.min(3000) } else { self.timeout_ms };
        for _try in 0..2 {
            let slot = if inc { &mut self.inc } else { &mut self.main };
            if slot.is_none() {
                *slot = Proc::start(if inc { Z3INC } else { Z3 });
                let Some(pr) = slot.as_mut() else { return Res::Unknown };
                if inc && pr.inp.write_all(format!("(set-logic QF_BV)\n(set-option :timeout {})\n", timeout).as_bytes()).is_err() { *slot = None; continue; }
            }
            let pr = slot.as_mut().unwrap();
            let names: Vec<String> = vs.iter().map(|v| format!("v{}", v)).collect();
            let head = if inc { "(push)\n".to_string() } else { format!("(reset)\n(set-option :timeout {})\n", timeout) };
            let q = format!("{}{}(check-sat)\n(echo \"<<sat>>\")\n", head, scr);
            let Some(ans) = pr.ask(&q, "<<sat>>") else { *slot = None; continue };
            if ans.contains("(error") {
                self.errors.push(format!("z3: {}", ans.trim()));
                if inc { self.inc = None } else { self.main = None }
                return Res::Unknown;
            }
            let r = match ans.trim() {
                "unsat" => Res::Unsat,
                "sat" if names.is_empty() => Res::Sat(HashMap::new()),
                "sat" => {
                    let q = format!("(get-value ({}))\n(echo \"<<val>>\")\n", names.join(" "));
                    match pr.ask(&q, "<<val>>") { Some(t) => parse_model(&t), None => { *slot = None; return Res::Unknown; } }
                }
                _ => Res::Unknown,
            };
            if inc { let _ = pr.inp.write_all(b"(pop)\n"); }
            return r;
        }
        Res::Unknown
    }

    fn run_cvc5(&mut self, p: &Pool, cons: &[E], vs: &[u32]) -> Res {
        let (scr, _fp, _) = Self::script(p, cons, true);
        let names: Vec<String> = vs.iter().map(|v| format!("v{}", v)).collect();
        let gv = if names.is_empty() { String::new() } else { format!("(get-value ({}))\n", names.join(" ")) };
        let q = format!("(set-logic ALL)\n{}(check-sat)\n{}", scr, gv);
        let cmd = format!("{} --tlimit={}", CVC5, self.timeout_ms);
        let mut it = cmd.split_whitespace();
        let mut c = Command::new(it.next().unwrap());
        c.args(it).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        let Ok(mut ch) = c.spawn() else { return Res::Unknown };
        let mut inp = ch.stdin.take().unwrap();
        let h = std::thread::spawn(move || { let _ = inp.write_all(q.as_bytes()); });
        let Ok(o) = ch.wait_with_output() else { return Res::Unknown };
        let _ = h.join();
        let txt = String::from_utf8_lossy(&o.stdout).to_string();
        let first = txt.lines().next().unwrap_or("");
        match first {
            "unsat" => Res::Unsat,
            "sat" => { if names.is_empty() { Res::Sat(HashMap::new()) } else { parse_model(&txt[4..]) } }
            _ => Res::Unknown,
        }
    }
}

fn parse_model(t: &str) -> Res {
    let mut m = HashMap::new();
    let toks: Vec<&str> = t.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        let Some(id) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) else { i += 1; continue };
        let v = toks[i + 1];
        let val = if v == "true" { 1 } else if v == "false" { 0 } else if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() } else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap() } else if v == "_" {
            toks[i + 2].strip_prefix("bv").unwrap().parse().unwrap()
        } else { return Res::Unknown };
        m.insert(id, val);
        i += 2;
    }
    Res::Sat(m)
}
