//! Symbolic executor over LLVM IR: forking states, byte-addressed memory with symbolic shadow bytes.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(E), A(Rc<Vec<Val>>) }

pub const PSZ: u64 = 4096;
const GBASE: u64 = 0x1_0000_0000;
const MBASE: u64 = 0x3_0000_0000;
const FBASE: u64 = 0x8_0000_0000;
const HBASE: u64 = 0x10_0000_0000;
const SBASE: u64 = 0x20_0000_0000;
const STOP: u64 = 0x30_0000_0000;

#[derive(Clone)]
pub struct Page { data: Box<[u8; PSZ as usize]>, sym: Option<Box<HashMap<u16, (E, u8)>>> }
impl Page { fn new() -> Page { Page { data: Box::new([0; PSZ as usize]), sym: None } } }

#[derive(Clone, Default)]
pub struct Mem { heap: Vec<Option<Rc<Page>>>, stack: Vec<Option<Rc<Page>>>, muts: HashMap<u64, Rc<Page>>, hp: u64, sp: u64 }

pub struct FuncC { pub f: Func, pub cv: Vec<Val> }

#[derive(Clone)]
pub struct Frame { f: Rc<FuncC>, regs: Vec<Val>, blk: u32, ip: usize, sp: u64, dst: Option<u32>, normal: Option<u32> }

#[derive(Clone, Debug)]
pub struct Nd { pub tag: String, pub kind: u8, pub w: u32, pub e: E }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: HashMap<E, bool>,
    pub model: HashMap<u32, u128>,
    pub nd: Vec<Nd>,
    pub log: Vec<(String, Val)>,
    pub steps: u64,
    pub covers: BTreeSet<String>,
    pub forks: u32,
    pub allow_panic: bool,
    pub partial: bool,
}

#[derive(Debug, Clone)]
pub enum Stop { Done, Assume, Panic(String), Violation(String), Unsupported(String), Budget }
type R<T> = Result<T, Stop>;

pub struct FEntry { pub module: usize, pub name: String, pub code: Option<Rc<FuncC>>, pub builtin: Option<BuiltinId> }
pub type BuiltinId = &'static str;

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub completed: u64,
    pub assume_pruned: u64,
    pub panics_allowed: u64,
    pub unsupported: BTreeMap<String, u64>,
    pub budget: u64,
    pub violations: Vec<(String, Vec<(String, u8, u128)>, Vec<(String, u128)>)>,
    pub asserts_checked: u64,
    pub asserts_concrete: u64,
    pub asserts_symbolic: u64,
    pub assert_unknown: u64,
    pub branch_unknown: u64,
    pub covers: BTreeMap<String, u64>,
    pub steps: u64,
    pub samples: Vec<(Vec<(String, u8, u128)>, Vec<(String, u128)>)>,
    pub forks_at: HashMap<String, u64>,
}

pub struct Engine {
    pub prog: Program,
    pub pool: Pool,
    pub solver: Solver,
    pub funcs: Vec<FEntry>,
    fmap: HashMap<(usize, String), usize>,
    gmap: HashMap<(usize, String), u64>,
    gpages: Vec<Page>,
    gp: u64,
    mpages: HashMap<u64, Page>,
    mp: u64,
    pub work: Vec<State>,
    pub rep: Report,
    pub varkeys: HashMap<(usize, String, u32, i128, i128), E>,
    pub deadline: Instant,
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub nsamples: usize,
    pub used_funcs: BTreeSet<usize>,
    pub out: String,
    pub trace: bool,
    pub rng: u64,
}

fn force_builtin(name: &str) -> Option<BuiltinId> {
    // intercepted even when a definition exists
    if name.starts_with("llvm.") { return Some("llvm"); }
    if name.starts_with("__sym_") { return Some("sym"); }
    if name.starts_with("_R") {
        let has = |s: &str| name.contains(s);
        if has("7___rustc") {
            if name.ends_with("12___rust_alloc") { return Some("alloc"); }
            if name.ends_with("14___rust_dealloc") { return Some("nop"); }
            if name.ends_with("14___rust_realloc") { return Some("realloc"); }
            if name.ends_with("19___rust_alloc_zeroed") { return Some("alloc"); }
            if has("no_alloc_shim_is_unstable") { return Some("nop"); }
            if has("rust_begin_unwind") || has("__rust_start_panic") || has("rust_panic") { return Some("panic"); }
        }
        if has("_4core9panicking") { return Some("panic"); }
        if has("_4core6option13unwrap_failed") || has("_4core6option13expect_failed") || has("_4core6result13unwrap_failed") || has("_4core4cell22panic_already_") { return Some("panic"); }
        if has("_4core5slice5index") && (name.ends_with("_fail")) { return Some("panic"); }
        if has("_3std9panicking") && (has("begin_panic") || has("panic_with_hook")) { return Some("panic"); }
        if has("_5alloc5alloc18handle_alloc_error") || has("_5alloc7raw_vec12handle_error") || has("_5alloc7raw_vec17capacity_overflow") { return Some("panic"); }
        if has("_3std7process5abort") || has("_3std7process4exit") { return Some("panic"); }
        if has("_3std2io5stdio6__print") || has("_3std2io5stdio7__eprint") || has("_3std2io5stdio6_print") || has("_3std2io5stdio7_eprint") { return Some("nop"); }
        if has("_3std9backtrace") && has("Backtrace7capture") { return Some("btcapture"); }
        if has("hashmap_random_keys") { return Some("hashkeys"); }
    }
    match name {
        "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "memchr" | "abort" => Some(Box::leak(name.to_string().into_boxed_str())),
        "exp" | "log" | "pow" | "sin" | "cos" | "tan" | "fmod" | "log10" | "log2" | "exp2" | "floor" | "ceil" | "round" | "trunc" | "sqrt" | "fabs" | "cbrt" | "hypot" | "expm1" | "log1p" | "tanh" | "sinh" | "cosh" | "atan" | "atan2" | "asin" | "acos" | "fma" | "rint" | "ldexp" => Some("libm"),
        _ => None,
    }
}

impl Engine {
    pub fn new(prog: Program) -> Engine {
        Engine {
            prog, pool: Pool::new(), solver: Solver::new(), funcs: vec![], fmap: HashMap::new(), gmap: HashMap::new(), gpages: vec![], gp: GBASE + 64, mpages: HashMap::new(), mp: MBASE, work: vec![], rep: Report::default(), varkeys: HashMap::new(), deadline: Instant::now(), max_paths: u64::MAX, max_steps: 400_000_000, max_viol: 1, nsamples: 3, used_funcs: BTreeSet::new(), out: String::new(), trace: false, rng: 0x9E3779B97F4A7C15,
        }
    }

    // ---------- linking ----------
    fn func_id(&mut self, module: usize, name: &str) -> usize {
        let mut name = name.to_string();
        let mut m = module;
        for _ in 0..4 {
            if let Some(a) = self.prog.modules.get(m).and_then(|x| x.aliases.get(name.as_str())) { name = a.clone(); continue; }
            break;
        }
        let has_local = self.prog.modules.get(m).map(|x| x.funcs.contains_key(name.as_str())).unwrap_or(false);
        if has_local {
            // an external definition elsewhere wins only for harness overrides; otherwise local
        } else if let Some(&mm) = self.prog.ext_funcs.get(name.as_str()) {
            m = mm;
            if let Some(a) = self.prog.modules[m].aliases.get(name.as_str()) { name = a.clone(); }
        } else { m = usize::MAX; }
        if let Some(&i) = self.fmap.get(&(m, name.clone())) { return i; }
        let id = self.funcs.len();
        let mut b = force_builtin(&name);
        if b.is_none() && m == usize::MAX { b = Some("extern"); }
        self.funcs.push(FEntry { module: m, name: name.clone(), code: None, builtin: b });
        self.fmap.insert((m, name), id);
        id
    }
    fn func_addr(&mut self, module: usize, name: &str) -> u64 { FBASE + self.func_id(module, name) as u64 * 16 }
    fn is_func(&self, module: usize, name: &str) -> bool {
        let md = &self.prog.modules[module];
        if md.globals.contains_key(name) { return false; }
        if md.funcs.contains_key(name) || md.aliases.contains_key(name) { return true; }
        if self.prog.ext_globals.contains_key(name) { return false; }
        true
    }
    fn global_addr(&mut self, module: usize, name: &str) -> u64 {
        if self.is_func(module, name) { return self.func_addr(module, name); }
        let m = if self.prog.modules[module].globals.contains_key(name) { module } else { self.prog.ext_globals[name] };
        if let Some(&a) = self.gmap.get(&(m, name.to_string())) { return a; }
        let (ty, k, al, cst) = self.prog.parse_global(m, name);
        let sz = ty.size().max(1);
        let al = al.max(16);
        let addr;
        if cst {
            addr = (self.gp + al - 1) / al * al;
            self.gp = addr + sz + 16;
        } else {
            let a2 = al.max(PSZ);
            addr = (self.mp + a2 - 1) / a2 * a2;
            self.mp = addr + sz;
        }
        self.gmap.insert((m, name.to_string()), addr);
        let v = self.kval(m, &ty, &k);
        self.init_store(addr, &ty, &v);
        addr
    }
    fn init_store(&mut self, addr: u64, ty: &Ty, v: &Val) {
        match v {
            Val::A(xs) => {
                if let Ty::Arr(_, t) = ty {
                    if **t == Ty::Int(8) {
                        for (i, x) in xs.iter().enumerate() { if let Val::C(c) = x { self.init_byte(addr + i as u64, *c as u8); } }
                        return;
                    }
                }
                for (i, x) in xs.iter().enumerate() { self.init_store(addr + ty.field_off(i), &ty.elem(i), x); }
            }
            Val::C(c) => { let n = ty.size(); for i in 0..n.min(16) { self.init_byte(addr + i, (*c >> (8 * i)) as u8); } }
            Val::S(_) => unreachable!(),
        }
    }
    fn init_byte(&mut self, addr: u64, b: u8) {
        if b == 0 && addr >= MBASE { self.mpages.entry(addr / PSZ).or_insert_with(Page::new); return; }
        if addr >= MBASE {
            self.mpages.entry(addr / PSZ).or_insert_with(Page::new).data[(addr % PSZ) as usize] = b;
        } else {
            let pi = ((addr - GBASE) / PSZ) as usize;
            while self.gpages.len() <= pi { self.gpages.push(Page::new()); }
            self.gpages[pi].data[(addr % PSZ) as usize] = b;
        }
    }
    fn kval(&mut self, m: usize, ty: &Ty, k: &K) -> Val {
        match k {
            K::Int(v) => Val::C(*v),
            K::Zero | K::Undef => self.zero(ty),
            K::Agg(v) => { let xs = v.iter().map(|(t, k)| self.kval(m, t, k)).collect(); Val::A(Rc::new(xs)) }
            K::Bytes(b) => Val::A(Rc::new(b.iter().map(|&x| Val::C(x as u128)).collect())),
            K::Splat(b) => { let x = self.kval(m, &b.0, &b.1); Val::A(Rc::new(vec![x; ty.count()])) }
            K::Global(g) => Val::C(self.global_addr(m, g) as u128),
            K::Gep(t, b, idx) => {
                let base = self.kval(m, &Ty::Ptr, b);
                let Val::C(mut a) = base else { panic!() };
                let mut cur = t.clone();
                for (i, (it, k)) in idx.iter().enumerate() {
                    let Val::C(v) = self.kval(m, it, k) else { panic!() };
                    let v = sext(v, it.bits());
                    if i == 0 { a = a.wrapping_add((v * t.size() as i128) as u128); } else {
                        let o = match &cur { Ty::Struct(..) => cur.field_off(v as usize) as i128, _ => v * cur.elem(0).size() as i128 };
                        a = a.wrapping_add(o as u128);
                        cur = cur.elem(if matches!(cur, Ty::Struct(..)) { v as usize } else { 0 });
                    }
                }
                Val::C(a & mask(64))
            }
            K::Bin(op, a, b, t) => {
                let (Val::C(x), Val::C(y)) = (self.kval(m, t, a), self.kval(m, t, b)) else { panic!() };
                let r = match op.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), _ => x ^ y };
                Val::C(r & mask(t.bits()))
            }
            K::Cast(a, f, t, _) => { let v = self.kval(m, f, a); match v { Val::C(x) => Val::C(x & mask(t.bits())), v => v } }
        }
    }
    fn zero(&self, ty: &Ty) -> Val {
        if ty.is_agg() { Val::A(Rc::new((0..ty.count()).map(|i| self.zero(&ty.elem(i))).collect())) } else { Val::C(0) }
    }
    fn code(&mut self, id: usize) -> R<Rc<FuncC>> {
        if let Some(c) = &self.funcs[id].code { return Ok(c.clone()); }
        let (m, name) = (self.funcs[id].module, self.funcs[id].name.clone());
        let mut f = self.prog.parse_func(m, &name, id);
        let cs = std::mem::take(&mut f.consts);
        let cv = cs.iter().map(|(t, k)| self.kval(m, t, k)).collect();
        let c = Rc::new(FuncC { f, cv });
        self.funcs[id].code = Some(c.clone());
        self.used_funcs.insert(id);
        Ok(c)
    }

    // ---------- memory ----------
    fn page<'a>(&'a self, mem: &'a Mem, addr: u64) -> R<&'a Page> {
        static_zero();
        if addr >= HBASE && addr < SBASE {
            if addr >= mem.hp { return Err(Stop::Unsupported(format!("heap fault {:#x}", addr))); }
            return Ok(match mem.heap.get(((addr - HBASE) / PSZ) as usize) { Some(Some(p)) => p, _ => &self.gpages[0] });
        }
        if addr >= SBASE && addr < STOP {
            if addr >= mem.sp { return Err(Stop::Unsupported(format!("stack fault {:#x}", addr))); }
            return Ok(match mem.stack.get(((addr - SBASE) / PSZ) as usize) { Some(Some(p)) => p, _ => &self.gpages[0] });
        }
        if addr >= GBASE && addr < MBASE {
            let i = ((addr - GBASE) / PSZ) as usize;
            return self.gpages.get(i).ok_or_else(|| Stop::Unsupported("const fault".into()));
        }
        if addr >= MBASE && addr < FBASE {
            if let Some(p) = mem.muts.get(&(addr / PSZ)) { return Ok(p); }
            return self.mpages.get(&(addr / PSZ)).ok_or_else(|| Stop::Unsupported(format!("global fault {:#x}", addr)));
        }
        Err(Stop::Unsupported(format!("memory fault at {:#x}", addr)))
    }
    fn page_mut<'a>(&self, mem: &'a mut Mem, addr: u64) -> R<&'a mut Page> {
        if addr >= HBASE && addr < SBASE {
            if addr >= mem.hp { return Err(Stop::Unsupported(format!("heap write fault {:#x}", addr))); }
            let i = ((addr - HBASE) / PSZ) as usize;
            while mem.heap.len() <= i { mem.heap.push(None); }
            return Ok(Rc::make_mut(mem.heap[i].get_or_insert_with(|| Rc::new(Page::new()))));
        }
        if addr >= SBASE && addr < STOP {
            if addr >= mem.sp { return Err(Stop::Unsupported(format!("stack write fault {:#x}", addr))); }
            let i = ((addr - SBASE) / PSZ) as usize;
            while mem.stack.len() <= i { mem.stack.push(None); }
            return Ok(Rc::make_mut(mem.stack[i].get_or_insert_with(|| Rc::new(Page::new()))));
        }
        if addr >= MBASE && addr < FBASE {
            let k = addr / PSZ;
            if !mem.muts.contains_key(&k) {
                let p = self.mpages.get(&k).cloned().ok_or_else(|| Stop::Unsupported(format!("global write fault {:#x}", addr)))?;
                mem.muts.insert(k, Rc::new(p));
            }
            return Ok(Rc::make_mut(mem.muts.get_mut(&k).unwrap()));
        }
        Err(Stop::Unsupported(format!("memory write fault at {:#x}", addr)))
    }
    pub fn load_byte(&self, mem: &Mem, a: u64) -> R<Result<u8, (E, u8)>> {
        let p = self.page(mem, a)?;
        let o = (a % PSZ) as u16;
        if let Some(s) = &p.sym { if let Some(x) = s.get(&o) { return Ok(Err(*x)); } }
        Ok(Ok(p.data[o as usize]))
    }
    fn store_byte(&self, mem: &mut Mem, a: u64, b: Result<u8, (E, u8)>) -> R<()> {
        let p = self.page_mut(mem, a)?;
        let o = (a % PSZ) as u16;
        match b {
            Ok(c) => {
                if let Some(s) = &mut p.sym { s.remove(&o); if s.is_empty() { p.sym = None; } }
                p.data[o as usize] = c;
            }
            Err(x) => { p.sym.get_or_insert_with(|| Box::new(HashMap::new())).insert(o, x); }
        }
        Ok(())
    }
    fn load_scalar(&mut self, mem: &Mem, a: u64, n: u64) -> R<Val> {
        let o = (a % PSZ) as usize;
        if o as u64 + n <= PSZ {
            let p = self.page(mem, a)?;
            if p.sym.is_none() {
                let mut v = 0u128;
                for i in (0..n as usize).rev() { v = (v << 8) | p.data[o + i] as u128; }
                return Ok(Val::C(v));
            }
        }
        let mut bs = Vec::with_capacity(n as usize);
        let mut sym = false;
        for i in 0..n { let b = self.load_byte(mem, a + i)?; sym |= b.is_err(); bs.push(b); }
        if !sym {
            let mut v = 0u128;
            for b in bs.iter().rev() { v = (v << 8) | *b.as_ref().unwrap() as u128; }
            return Ok(Val::C(v));
        }
        // one contiguous source?
        if let Err((e, k0)) = bs[0] {
            if bs.iter().enumerate().all(|(i, b)| matches!(b, Err((e2, k)) if *e2 == e && *k as usize == k0 as usize + i)) {
                return Ok(Val::S(self.pool.extract(e, k0 as u32 * 8, n as u32 * 8)));
            }
        }
        let mut acc: Option<E> = None;
        for b in bs {
            let x = match b { Ok(c) => self.pool.cnst(c as u128, 8), Err((e, k)) => self.pool.extract(e, k as u32 * 8, 8) };
            acc = Some(match acc { None => x, Some(l) => self.pool.concat(x, l) });
        }
        Ok(self.mkv(acc.unwrap()))
    }
    fn mkv(&self, e: E) -> Val { match self.pool.cval(e) { Some(v) => Val::C(v), None => Val::S(e) } }
    fn load(&mut self, mem: &Mem, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let n = ty.count();
                let mut v = Vec::with_capacity(n);
                for i in 0..n { v.push(self.load(mem, a + ty.field_off(i), &ty.elem(i))?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    let x = self.load_scalar(mem, a, ty.size())?;
                    return self.bitcast(x, &Ty::Int((*n * t.bits() as u64) as u32), ty);
                }
                let mut v = vec![];
                for i in 0..*n { v.push(self.load(mem, a + i * t.size(), t)?); }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let bits = ty.bits();
                let n = (bits as u64 + 7) / 8;
                let v = self.load_scalar(mem, a, n)?;
                if bits % 8 != 0 {
                    return Ok(match v { Val::C(c) => Val::C(c & mask(bits)), Val::S(e) => { let x = self.pool.extract(e, 0, bits); self.mkv(x) } v => v });
                }
                Ok(v)
            }
        }
    }
    fn store(&mut self, mem: &mut Mem, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match v {
            Val::A(xs) => {
                if let Ty::Vec(n, t) = ty {
                    if t.bits() % 8 != 0 {
                        let iv = self.bitcast(v.clone(), ty, &Ty::Int((*n * t.bits() as u64) as u32))?;
                        return self.store(mem, a, &Ty::Int((*n * t.bits() as u64) as u32), &iv);
                    }
                }
                for (i, x) in xs.iter().enumerate() { let o = ty.field_off(i); let et = ty.elem(i); self.store(mem, a + o, &et, x)?; }
                Ok(())
            }
            Val::C(c) => {
                let n = (ty.bits() as u64 + 7) / 8;
                let o = (a % PSZ) as usize;
                if o as u64 + n <= PSZ {
                    let p = self.page_mut(mem, a)?;
                    if let Some(s) = &mut p.sym { for i in 0..n { s.remove(&((o as u64 + i) as u16)); } if s.is_empty() { p.sym = None; } }
                    let mut x = *c;
                    for i in 0..n as usize { p.data[o + i] = x as u8; x >>= 8; }
                    return Ok(());
                }
                for i in 0..n { self.store_byte(mem, a + i, Ok((*c >> (8 * i)) as u8))?; }
                Ok(())
            }
            Val::S(e) => {
                let w = self.pool.w(*e);
                let n = (w + 7) / 8;
                let e = if w % 8 != 0 { self.pool.zext(*e, n * 8) } else { *e };
                for i in 0..n { self.store_byte(mem, a + i as u64, Err((e, i as u8)))?; }
                Ok(())
            }
        }
    }
    fn copy(&mut self, mem: &mut Mem, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let mut buf = Vec::with_capacity(n as usize);
        let mut i = 0;
        while i < n {
            let a = s + i;
            let o = (a % PSZ) as usize;
            let k = ((PSZ as usize - o) as u64).min(n - i) as usize;
            let p = self.page(mem, a)?;
            if let Some(sy) = &p.sym {
                for j in 0..k { buf.push(match sy.get(&((o + j) as u16)) { Some(x) => Err(*x), None => Ok(p.data[o + j]) }); }
            } else {
                for j in 0..k { buf.push(Ok(p.data[o + j])); }
            }
            i += k as u64;
        }
        let mut i = 0usize;
        while (i as u64) < n {
            let a = d + i as u64;
            let o = (a % PSZ) as usize;
            let k = ((PSZ as usize - o) as u64).min(n - i as u64) as usize;
            let p = self.page_mut(mem, a)?;
            for j in 0..k {
                match buf[i + j] {
                    Ok(c) => { p.data[o + j] = c; if let Some(sy) = &mut p.sym { sy.remove(&((o + j) as u16)); } }
                    Err(x) => { p.sym.get_or_insert_with(|| Box::new(HashMap::new())).insert((o + j) as u16, x); }
                }
            }
            if p.sym.as_ref().map(|s| s.is_empty()).unwrap_or(false) { p.sym = None; }
            i += k;
        }
        Ok(())
    }
    fn alloc(&mut self, mem: &mut Mem, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (mem.hp + al - 1) / al * al;
        mem.hp = a + size.max(1) + 16;
        a
    }
    fn read_str(&self, mem: &Mem, a: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(4096) { match self.load_byte(mem, a + i) { Ok(Ok(b)) => v.push(b), _ => v.push(b'?') } }
        String::from_utf8_lossy(&v).to_string()
    }

    // ---------- decisions ----------
    pub fn eval_state(&self, st: &State, e: E) -> u128 {
        let f = |v: u32| *st.model.get(&v).unwrap_or(&0);
        self.pool.eval(e, &f, &mut HashMap::new())
    }
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        let c = self.pool.lift(c);
        if let Some(v) = self.pool.cval(c) { return Ok(v == 1); }
        if let Some(b) = st.known.get(&c) { return Ok(*b); }
        let nc = self.pool.not(c);
        if let Some(b) = st.known.get(&nc) { return Ok(!*b); }
        let v = self.eval_state(st, c) == 1;
        let (here, other) = if v { (c, nc) } else { (nc, c) };
        match self.solver.check(&self.pool, &st.pc, other, &st.model) {
            Res::Unsat => { st.known.insert(c, v); }
            Res::Sat(m) => {
                if Instant::now() < self.deadline && self.rep.paths + (self.work.len() as u64) < self.max_paths {
                    let mut s2 = st.clone();
                    s2.pc.push(other);
                    s2.known.insert(c, !v);
                    for (k, x) in m { s2.model.insert(k, x); }
                    s2.forks += 1;
                    if self.trace {
                        let fr = st.frames.last().unwrap();
                        *self.rep.forks_at.entry(format!("{}:{}", demangle(&fr.f.f.name), fr.blk)).or_insert(0) += 1;
                    }
                    self.work.push(s2);
                } else { self.rep.budget += 1; }
                st.pc.push(here);
                st.known.insert(c, v);
            }
            Res::Unknown => {
                self.rep.branch_unknown += 1;
                st.pc.push(here);
                st.known.insert(c, v);
                st.partial = true;
            }
        }
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                for _ in 0..100000 {
                    let w = self.pool.w(*e);
                    let x = self.eval_state(st, *e);
                    let k = self.pool.cnst(x, w);
                    let c = self.pool.icmp(Op::Eq, *e, k);
                    if self.decide(st, c)? { return Ok(x); }
                    return Err(Stop::Unsupported("concretisation".into()));
                }
                Err(Stop::Unsupported("concretisation".into()))
            }
            Val::A(_) => Err(Stop::Unsupported("aggregate as scalar".into())),
        }
    }
    fn ex(&mut self, v: &Val, w: u32) -> R<E> {
        match v { Val::C(c) => Ok(self.pool.cnst(*c, w)), Val::S(e) => { if self.pool.w(*e) != w { return Err(Stop::Unsupported(format!("width {} vs {}", self.pool.w(*e), w))); } Ok(*e) } Val::A(_) => Err(Stop::Unsupported("agg".into())) }
    }

    // ---------- running ----------
    pub fn run(&mut self, entry: &str, arg: u64) -> Result<(), String> {
        let m = *self.prog.ext_funcs.get(entry).ok_or(format!("no entry {}", entry))?;
        if self.gpages.is_empty() { self.gpages.push(Page::new()); }
        self.gp = self.gp.max(GBASE + PSZ); // page 0 stays all zero
        let id = self.func_id(m, entry);
        let code = self.code(id).map_err(|e| format!("{:?}", e))?;
        let mut regs = vec![Val::C(0); code.f.nregs];
        if code.f.nparams > 0 { regs[0] = Val::C(arg as u128); }
        let st = State {
            frames: vec![Frame { f: code, regs, blk: 0, ip: 0, sp: SBASE, dst: None, normal: None }],
            mem: Mem { hp: HBASE + 64, sp: SBASE + 64, ..Default::default() },
            pc: vec![], known: HashMap::new(), model: HashMap::new(), nd: vec![], log: vec![], steps: 0, covers: BTreeSet::new(), forks: 0, allow_panic: false, partial: false,
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline || self.rep.paths >= self.max_paths {
                self.rep.budget += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            self.rep.paths += 1;
            let s0 = st.steps;
            let r = loop { match self.go(&mut st) { Ok(()) => {} Err(s) => break s } };
            self.rep.steps += st.steps - s0;
            for c in &st.covers { *self.rep.covers.entry(c.clone()).or_insert(0) += 1; }
            match r {
                Stop::Done => { self.rep.completed += 1; self.sample(&st); }
                Stop::Assume => self.rep.assume_pruned += 1,
                Stop::Budget => self.rep.budget += 1,
                Stop::Panic(m) => {
                    if st.allow_panic { self.rep.panics_allowed += 1; } else { let v = self.violation(&st, &format!("panic: {}", m)); self.rep.violations.push(v); }
                }
                Stop::Violation(m) => { let v = self.violation(&st, &m); self.rep.violations.push(v); }
                Stop::Unsupported(m) => {
                    let fr: Vec<String> = st.frames.iter().rev().take(6).map(|f| demangle(&f.f.f.name)).collect();
                    *self.rep.unsupported.entry(format!("{} in {}", m, fr.join(" < "))).or_insert(0) += 1;
                }
            }
            if self.rep.violations.len() >= self.max_viol { break; }
        }
        Ok(())
    }
    fn values(&self, st: &State) -> Vec<(String, u8, u128)> { st.nd.iter().map(|n| (n.tag.clone(), n.kind, self.eval_state(st, n.e))).collect() }
    fn logs(&self, st: &State) -> Vec<(String, u128)> { st.log.iter().map(|(t, v)| (t.clone(), match v { Val::C(c) => *c, Val::S(e) => self.eval_state(st, *e), _ => 0 })).collect() }
    fn violation(&self, st: &State, m: &str) -> (String, Vec<(String, u8, u128)>, Vec<(String, u128)>) { (m.to_string(), self.values(st), self.logs(st)) }
    fn sample(&mut self, st: &State) {
        // reservoir sampling of completed paths for native validation
        let n = self.rep.completed as usize;
        let s = (self.values(st), self.logs(st));
        if self.rep.samples.len() < self.nsamples { self.rep.samples.push(s); return; }
        if self.nsamples == 0 { return; }
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let k = (self.rng >> 33) as usize % n;
        if k < self.nsamples { self.rep.samples[k] = s; }
    }

    fn opnd(&self, fr: &Frame, o: &Opnd) -> Val {
        match o { Opnd::Reg(r) => fr.regs[*r as usize].clone(), Opnd::C(c) => fr.f.cv[*c as usize].clone(), Opnd::K(..) => unreachable!() }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let code = fr.f.clone();
        let b = &code.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = p.inc.iter().find(|(l, _)| *l == from).map(|(_, o)| o).expect("phi");
                vals.push(match o { Opnd::Reg(r) => fr.regs[*r as usize].clone(), Opnd::C(c) => code.cv[*c as usize].clone(), _ => unreachable!() });
            }
            for (p, v) in b.phis.iter().zip(vals) { fr.regs[p.d as usize] = v; }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    /// execute instructions until the frame changes or the path stops
    fn go(&mut self, st: &mut State) -> R<()> {
        let code = st.frames.last().unwrap().f.clone();
        loop {
            st.steps += 1;
            if st.steps & 0xfffff == 0 && Instant::now() > self.deadline { return Err(Stop::Budget); }
            if st.steps > self.max_steps { return Err(Stop::Unsupported("step limit".into())); }
            let fr = st.frames.last().unwrap();
            let ins = &code.f.blocks[fr.blk as usize].ins[fr.ip];
            match ins {
                I::Br(l) => { let l = *l; self.jump(st, l); continue; }
                I::CBr { c, t, f } => {
                    let v = self.opnd(fr, c);
                    let b = match v { Val::C(x) => x & 1 == 1, Val::S(e) => self.decide(st, e)?, _ => return Err(Stop::Unsupported("br agg".into())) };
                    self.jump(st, if b { *t } else { *f });
                    continue;
                }
                I::Switch { ty, v, d, cases } => {
                    let val = self.opnd(fr, v);
                    let mut tgt = *d;
                    match val {
                        Val::C(x) => { for (k, l) in cases { if *k == x { tgt = *l; break; } } }
                        Val::S(e) => {
                            let w = ty.bits();
                            for (k, l) in cases {
                                let kc = self.pool.cnst(*k, w);
                                let c = self.pool.icmp(Op::Eq, e, kc);
                                if self.decide(st, c)? { tgt = *l; break; }
                            }
                        }
                        _ => return Err(Stop::Unsupported("switch agg".into())),
                    }
                    self.jump(st, tgt);
                    continue;
                }
                I::Ret(v) => {
                    let rv = v.as_ref().map(|(_, o)| self.opnd(fr, o));
                    let fr = st.frames.pop().unwrap();
                    st.mem.sp = fr.sp + 64;
                    st.mem.sp = fr.sp;
                    let Some(caller) = st.frames.last_mut() else { return Err(Stop::Done) };
                    if let (Some(d), Some(v)) = (fr.dst, rv) { caller.regs[d as usize] = v; }
                    match fr.normal { Some(l) => self.jump(st, l), None => { caller.ip += 1; } }
                    return Ok(());
                }
                I::Call { d, rty, f, args, normal } => {
                    let mut av = Vec::with_capacity(args.len());
                    for (_, o) in args { av.push(self.opnd(fr, o)); }
                    let id = match f {
                        Callee::Name(n) => self.func_id_cached(code.f.module, n),
                        Callee::Ind(o) => {
                            let v = self.opnd(fr, o);
                            let a = self.conc(st, &v)? as u64;
                            if a < FBASE || (a - FBASE) / 16 >= self.funcs.len() as u64 { return Err(Stop::Unsupported(format!("call of {:#x}", a))); }
                            ((a - FBASE) / 16) as usize
                        }
                        Callee::Asm(s) => {
                            if s == "asm:" || s.is_empty() {
                                let fr = st.frames.last_mut().unwrap();
                                if let Some(d) = d { fr.regs[*d as usize] = av.get(0).cloned().unwrap_or(Val::C(0)); }
                                fr.ip += 1;
                                continue;
                            }
                            let z = self.zero(rty);
                            let fr = st.frames.last_mut().unwrap();
                            if let Some(d) = d { fr.regs[*d as usize] = z; }
                            fr.ip += 1;
                            if s.contains("cpuid") || s.contains("pause") || s.contains("xgetbv") { continue; }
                            return Err(Stop::Unsupported(s.clone()));
                        }
                    };
                    if let Some(b) = self.funcs[id].builtin {
                        let name = self.funcs[id].name.clone();
                        let aty: Vec<&Ty> = args.iter().map(|(t, _)| t).collect();
                        let r = self.builtin(st, b, &name, &av, &aty, rty)?;
                        let fr = st.frames.last_mut().unwrap();
                        if let Some(d) = d { fr.regs[*d as usize] = r; }
                        match normal { Some(l) => { let l = *l; self.jump(st, l) } None => fr.ip += 1 }
                        continue;
                    }
                    if st.frames.len() > 2000 { return Err(Stop::Unsupported("recursion depth".into())); }
                    let c2 = self.code(id)?;
                    // a symbolic float about to be rendered as text: rendering is not modelled
                    if self.is_float_fmt(&c2.f.name) {
                        if let Some(Val::C(p)) = av.get(0) {
                            if let Val::S(_) = self.load_scalar(&st.mem.clone(), *p as u64, 8)? {
                                let fr = st.frames.last_mut().unwrap();
                                if let Some(d) = d { fr.regs[*d as usize] = Val::C(0); }
                                match normal { Some(l) => { let l = *l; self.jump(st, l) } None => fr.ip += 1 }
                                continue;
                            }
                        }
                    }
                    let np = c2.f.nparams;
                    if av.len() < np { return Err(Stop::Unsupported("arity".into())); }
                    av.truncate(np);
                    av.resize(c2.f.nregs.max(np), Val::C(0));
                    let sp = st.mem.sp;
                    st.frames.push(Frame { f: c2, regs: av, blk: 0, ip: 0, sp, dst: *d, normal: *normal });
                    return Ok(());
                }
                I::Alloca { d, size, align, n } => {
                    let cnt = match n { None => 1, Some(o) => { let v = self.opnd(fr, o); self.conc(st, &v)? as u64 } };
                    let a = (st.mem.sp + align - 1) / align * align;
                    st.mem.sp = a + size * cnt + 16;
                    if st.mem.sp > SBASE + (1 << 28) { return Err(Stop::Unsupported("stack overflow".into())); }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = Val::C(a as u128);
                    fr.ip += 1;
                    continue;
                }
                I::Load { d, ty, p } => {
                    let a = match self.opnd(fr, p) { Val::C(a) => a as u64, v => self.conc(st, &v)? as u64 };
                    // split borrows
                    let mem = std::mem::take(&mut st.mem);
                    let r = self.load(&mem, a, ty);
                    st.mem = mem;
                    let v = r?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = v;
                    fr.ip += 1;
                    continue;
                }
                I::Store { ty, v, p } => {
                    let val = self.opnd(fr, v);
                    let a = match self.opnd(fr, p) { Val::C(a) => a as u64, v => self.conc(st, &v)? as u64 };
                    self.store(&mut st.mem, a, ty, &val)?;
                    st.frames.last_mut().unwrap().ip += 1;
                    continue;
                }
                I::Gep { d, base, off, dyn_ } => {
                    let mut b = self.opnd(fr, base);
                    if *off != 0 { b = self.add64(b, *off as u64)?; }
                    for (o, w, s) in dyn_ {
                        let i = self.opnd(fr, o);
                        b = match (b, i) {
                            (Val::C(x), Val::C(y)) => Val::C((x as u64).wrapping_add((sext(y, *w) as u64).wrapping_mul(*s)) as u128),
                            (b, i) => {
                                let be = self.ex(&b, 64)?;
                                let ie = self.ex(&i, *w)?;
                                let ie = if *w < 64 { self.pool.sext(ie, 64) } else { self.pool.extract(ie, 0, 64) };
                                let k = self.pool.cnst(*s as u128, 64);
                                let m = self.pool.bin(Op::Mul, ie, k);
                                let r = self.pool.bin(Op::Add, be, m);
                                self.mkv(r)
                            }
                        };
                    }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = b;
                    fr.ip += 1;
                    continue;
                }
                I::Bin { d, op, ty, a, b } => {
                    let (x, y) = (self.opnd(fr, a), self.opnd(fr, b));
                    let r = self.binop(st, *op, ty, &x, &y)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                    continue;
                }
                I::ICmp { d, p, ty, a, b } => {
                    let (x, y) = (self.opnd(fr, a), self.opnd(fr, b));
                    let r = self.icmp(*p, ty, &x, &y)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                    continue;
                }
                I::FCmp { d, p, ty, a, b } => {
                    let (x, y) = (self.opnd(fr, a), self.opnd(fr, b));
                    let r = self.fcmp(*p, ty, &x, &y)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                    continue;
                }
                I::FNeg { d, ty, a } => {
                    let x = self.opnd(fr, a);
                    let r = self.map1(ty, &x, &mut |s, t, v| { let e = s.ex(v, t.bits())?; let r = s.pool.fneg(e); Ok(s.mkv(r)) })?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                    continue;
                }
                I::Cast { d, op, from, to, a } => {
                    let x = self.opnd(fr, a);
                    let r = self.cast(*op, from, to, &x)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                    continue;
                }
                I::Select { d, cty, c, ty, a, b } => {
                    let cv = self.opnd(fr, c);
                    let (x, y) = (self.opnd(fr, a), self.opnd(fr, b));
                    let r = match (&cv, cty) {
                        (Val::C(k), _) => if k & 1 == 1 { x } else { y },
                        (Val::S(e), _) => {
                            let scalar = matches!(ty, Ty::Int(_) | Ty::F64 | Ty::F32);
                            if scalar {
                                let (xe, ye) = (self.ex(&x, ty.bits())?, self.ex(&y, ty.bits())?);
                                if let Some(kb) = st.known.get(e) { if *kb { x } else { y } } else {
                                    let r = self.pool.ite(*e, xe, ye);
                                    self.mkv(r)
                                }
                            } else if self.decide(st, *e)? { x } else { y }
                        }
                        (Val::A(cs), _) => {
                            let (Val::A(xs), Val::A(ys)) = (&x, &y) else { return Err(Stop::Unsupported("select".into())) };
                            let mut o = vec![];
                            for (i, c) in cs.iter().enumerate() {
                                let w = ty.elem(i).bits();
                                o.push(match c { Val::C(k) => if k & 1 == 1 { xs[i].clone() } else { ys[i].clone() }, Val::S(e) => { let (p, q) = (self.ex(&xs[i], w)?, self.ex(&ys[i], w)?); let r = self.pool.ite(*e, p, q); self.mkv(r) } _ => return Err(Stop::Unsupported("select".into())) });
                            }
                            Val::A(Rc::new(o))
                        }
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                    continue;
                }
                I::ExtractV { d, a, idx } => {
                    let mut v = self.opnd(fr, a);
                    for i in idx { let Val::A(xs) = &v else { return Err(Stop::Unsupported("extractvalue".into())) }; v = xs[*i as usize].clone(); }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = v;
                    fr.ip += 1;
                    continue;
                }
                I::InsertV { d, ty: _, a, v, idx } => {
                    let base = self.opnd(fr, a);
                    let nv = self.opnd(fr, v);
                    fn ins(b: &Val, idx: &[u32], v: Val) -> Val {
                        if idx.is_empty() { return v; }
                        let Val::A(xs) = b else { panic!("insertvalue") };
                        let mut ys = (**xs).clone();
                        ys[idx[0] as usize] = ins(&xs[idx[0] as usize], &idx[1..], v);
                        Val::A(Rc::new(ys))
                    }
                    let r = ins(&base, idx, nv);
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                    continue;
                }
                I::ExtractE { d, a, i } => {
                    let v = self.opnd(fr, a);
                    let i = self.opnd(fr, i);
                    let k = self.conc(st, &i)? as usize;
                    let Val::A(xs) = &v else { return Err(Stop::Unsupported("extractelement".into())) };
                    let r = xs.get(k).cloned().unwrap_or(Val::C(0));
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                    continue;
                }
                I::InsertE { d, a, v, i } => {
                    let base = self.opnd(fr, a);
                    let nv = self.opnd(fr, v);
                    let i = self.opnd(fr, i);
                    let k = self.conc(st, &i)? as usize;
                    let Val::A(xs) = &base else { return Err(Stop::Unsupported("insertelement".into())) };
                    let mut ys = (**xs).clone();
                    if k < ys.len() { ys[k] = nv; }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = Val::A(Rc::new(ys));
                    fr.ip += 1;
                    continue;
                }
                I::Shuffle { d, a, b, n, m } => {
                    let (Val::A(x), Val::A(y)) = (self.opnd(fr, a), self.opnd(fr, b)) else { return Err(Stop::Unsupported("shuffle".into())) };
                    let r: Vec<Val> = m.iter().map(|&k| if k < 0 { Val::C(0) } else if (k as usize) < *n { x[k as usize].clone() } else { y[k as usize - n].clone() }).collect();
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = Val::A(Rc::new(r));
                    fr.ip += 1;
                    continue;
                }
                I::Freeze { d, a } => {
                    let v = self.opnd(fr, a);
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = v;
                    fr.ip += 1;
                    continue;
                }
                I::Rmw { d, op, ty, p, v } => {
                    let val = self.opnd(fr, v);
                    let pv = self.opnd(fr, p);
                    let a = self.conc(st, &pv)? as u64;
                    let mem = std::mem::take(&mut st.mem);
                    let old = self.load(&mem, a, ty);
                    st.mem = mem;
                    let old = old?;
                    let nv = match op.as_str() {
                        "xchg" => val,
                        "add" => self.binop(st, Bin::Add, ty, &old, &val)?,
                        "sub" => self.binop(st, Bin::Sub, ty, &old, &val)?,
                        "and" => self.binop(st, Bin::And, ty, &old, &val)?,
                        "or" => self.binop(st, Bin::Or, ty, &old, &val)?,
                        "xor" => self.binop(st, Bin::Xor, ty, &old, &val)?,
                        "max" | "min" | "umax" | "umin" => {
                            let p = match op.as_str() { "max" => IPred::Sgt, "min" => IPred::Slt, "umax" => IPred::Ugt, _ => IPred::Ult };
                            let c = self.icmp(p, ty, &old, &val)?;
                            let b = match c { Val::C(x) => x == 1, Val::S(e) => self.decide(st, e)?, _ => false };
                            if b { old.clone() } else { val }
                        }
                        o => return Err(Stop::Unsupported(format!("atomicrmw {}", o))),
                    };
                    self.store(&mut st.mem, a, ty, &nv)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = old;
                    fr.ip += 1;
                    continue;
                }
                I::CmpXchg { d, ty, p, c, n } => {
                    let (cv, nv) = (self.opnd(fr, c), self.opnd(fr, n));
                    let pv = self.opnd(fr, p);
                    let a = self.conc(st, &pv)? as u64;
                    let mem = std::mem::take(&mut st.mem);
                    let old = self.load(&mem, a, ty);
                    st.mem = mem;
                    let old = old?;
                    let eq = match self.icmp(IPred::Eq, ty, &old, &cv)? { Val::C(x) => x == 1, Val::S(e) => self.decide(st, e)?, _ => false };
                    if eq { self.store(&mut st.mem, a, ty, &nv)?; }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::C(eq as u128)]));
                    fr.ip += 1;
                    continue;
                }
                I::Fence => { st.frames.last_mut().unwrap().ip += 1; continue; }
                I::Unreachable => return Err(Stop::Unsupported("unreachable executed".into())),
                I::LandingPad => return Err(Stop::Unsupported("landingpad".into())),
                I::Bad(s) => return Err(Stop::Unsupported(format!("instruction {}", s))),
            }
        }
    }
    fn is_float_fmt(&self, n: &str) -> bool {
        n.contains("_4core3fmt5float") && n.ends_with("3fmt") && n.contains("floatd")
    }
    fn func_id_cached(&mut self, m: usize, n: &str) -> usize {
        self.func_id(m, n)
    }
    fn add64(&mut self, b: Val, k: u64) -> R<Val> {
        Ok(match b { Val::C(x) => Val::C((x as u64).wrapping_add(k) as u128), v => { let e = self.ex(&v, 64)?; let c = self.pool.cnst(k as u128, 64); let r = self.pool.bin(Op::Add, e, c); self.mkv(r) } })
    }
    fn map1(&mut self, ty: &Ty, a: &Val, f: &mut dyn FnMut(&mut Engine, &Ty, &Val) -> R<Val>) -> R<Val> {
        if let (Val::A(xs), Ty::Vec(_, t)) = (a, ty) {
            let mut o = vec![];
            for x in xs.iter() { o.push(f(self, t, x)?); }
            return Ok(Val::A(Rc::new(o)));
        }
        f(self, ty, a)
    }
    fn binop(&mut self, st: &mut State, op: Bin, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(xs), Val::A(ys)) = (a, b) {
            let t = ty.elem(0);
            let mut o = vec![];
            for (x, y) in xs.iter().zip(ys.iter()) { o.push(self.binop(st, op, &t, x, y)?); }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = ty.bits();
        let fop = match op { Bin::FAdd => Some(Op::FAdd), Bin::FSub => Some(Op::FSub), Bin::FMul => Some(Op::FMul), Bin::FDiv => Some(Op::FDiv), Bin::FRem => Some(Op::FRem), _ => None };
        if let Some(fo) = fop {
            if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(Pool::fbin_c(fo, w, *x, *y))); }
            let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
            if fo == Op::FRem { return Err(Stop::Unsupported("symbolic frem".into())); }
            let r = self.pool.fbin(fo, x, y);
            return Ok(self.mkv(r));
        }
        let o = match op { Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::And => Op::And, Bin::Or => Op::Or, _ => Op::Xor };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if *y == 0 && matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { return Err(Stop::Unsupported("division by zero".into())); }
            return Ok(Val::C(Pool::binop_c(o, w, *x, *y)));
        }
        let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
        if w == 1 && !matches!(o, Op::And | Op::Or | Op::Xor) {
            return Err(Stop::Unsupported("i1 arithmetic".into()));
        }
        let r = self.pool.bin(o, x, y);
        Ok(self.mkv(r))
    }
    fn icmp(&mut self, p: IPred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(xs), Val::A(ys)) = (a, b) {
            let t = ty.elem(0);
            let mut o = vec![];
            for (x, y) in xs.iter().zip(ys.iter()) { o.push(self.icmp(p, &t, x, y)?); }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p { IPred::Eq => x == y, IPred::Ne => x != y, IPred::Ugt => x > y, IPred::Uge => x >= y, IPred::Ult => x < y, IPred::Ule => x <= y, IPred::Sgt => sx > sy, IPred::Sge => sx >= sy, IPred::Slt => sx < sy, IPred::Sle => sx <= sy };
            return Ok(Val::C(r as u128));
        }
        let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
        let r = match p {
            IPred::Eq => self.pool.icmp(Op::Eq, x, y),
            IPred::Ne => { let e = self.pool.icmp(Op::Eq, x, y); self.pool.not(e) }
            IPred::Ugt => self.pool.icmp(Op::Ult, y, x),
            IPred::Uge => self.pool.icmp(Op::Ule, y, x),
            IPred::Ult => self.pool.icmp(Op::Ult, x, y),
            IPred::Ule => self.pool.icmp(Op::Ule, x, y),
            IPred::Sgt => self.pool.icmp(Op::Slt, y, x),
            IPred::Sge => self.pool.icmp(Op::Sle, y, x),
            IPred::Slt => self.pool.icmp(Op::Slt, x, y),
            IPred::Sle => self.pool.icmp(Op::Sle, x, y),
        };
        Ok(self.mkv(r))
    }
    fn fcmp(&mut self, p: u8, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(xs), Val::A(ys)) = (a, b) {
            let t = ty.elem(0);
            let mut o = vec![];
            for (x, y) in xs.iter().zip(ys.iter()) { o.push(self.fcmp(p, &t, x, y)?); }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if w == 64 { (f64_of(*x), f64_of(*y)) } else { (f32_of(*x) as f64, f32_of(*y) as f64) };
            let m = if x.is_nan() || y.is_nan() { 8 } else if x == y { 1 } else if x > y { 2 } else { 4 };
            return Ok(Val::C((p & m != 0) as u128));
        }
        let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
        let pl = &mut self.pool;
        let r = match p {
            0 => pl.fals(),
            15 => pl.tru(),
            1 => pl.fcmp(Op::FEq, x, y),
            2 => pl.fcmp(Op::FLt, y, x),
            3 => pl.fcmp(Op::FLe, y, x),
            4 => pl.fcmp(Op::FLt, x, y),
            5 => pl.fcmp(Op::FLe, x, y),
            14 => { let e = pl.fcmp(Op::FEq, x, y); pl.not(e) }
            13 => { let e = pl.fcmp(Op::FLt, y, x); pl.not(e) }
            12 => { let e = pl.fcmp(Op::FLe, y, x); pl.not(e) }
            11 => { let e = pl.fcmp(Op::FLt, x, y); pl.not(e) }
            10 => { let e = pl.fcmp(Op::FLe, x, y); pl.not(e) }
            6 => { let e = pl.fcmp(Op::FLt, x, y); let f = pl.fcmp(Op::FLt, y, x); pl.bin(Op::Or, e, f) }
            9 => { let e = pl.fcmp(Op::FLt, x, y); let f = pl.fcmp(Op::FLt, y, x); let o = pl.bin(Op::Or, e, f); pl.not(o) }
            7 | 8 => {
                let e = pl.fisnan(x);
                let f = pl.fisnan(y);
                let o = pl.bin(Op::Or, e, f);
                if p == 8 { o } else { pl.not(o) }
            }
            _ => unreachable!(),
        };
        Ok(self.mkv(r))
    }
    fn bitcast(&mut self, a: Val, from: &Ty, to: &Ty) -> R<Val> {
        // via a flat list of bits: only vectors need work
        match (from, to) {
            (Ty::Vec(..), _) | (_, Ty::Vec(..)) => {
                let total = match from { Ty::Vec(n, t) => *n as u32 * t.bits(), t => t.bits() };
                // to one integer
                let flat: Val = match (&a, from) {
                    (Val::A(xs), Ty::Vec(_, t)) => {
                        let w = t.bits();
                        if xs.iter().all(|x| matches!(x, Val::C(_))) && total <= 128 {
                            let mut v = 0u128;
                            for x in xs.iter().rev() { let Val::C(c) = x else { unreachable!() }; v = (if w >= 128 { 0 } else { v << w }) | (c & mask(w)); }
                            Val::C(v)
                        } else {
                            if total > 128 { return Err(Stop::Unsupported("wide vector bitcast".into())); }
                            let mut acc: Option<E> = None;
                            for x in xs.iter() { let e = self.ex(x, w)?; acc = Some(match acc { None => e, Some(l) => self.pool.concat(e, l) }); }
                            self.mkv(acc.unwrap())
                        }
                    }
                    _ => a.clone(),
                };
                match to {
                    Ty::Vec(n, t) => {
                        let w = t.bits();
                        let mut o = vec![];
                        for i in 0..*n as u32 {
                            o.push(match &flat { Val::C(c) => Val::C((c >> (i * w)) & mask(w)), Val::S(e) => { let r = self.pool.extract(*e, i * w, w); self.mkv(r) } _ => return Err(Stop::Unsupported("bitcast".into())) });
                        }
                        Ok(Val::A(Rc::new(o)))
                    }
                    _ => Ok(flat),
                }
            }
            _ => Ok(a),
        }
    }
    fn cast(&mut self, op: Cast, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if op == Cast::BitCast { return self.bitcast(a.clone(), from, to); }
        if let (Val::A(xs), Ty::Vec(_, f), Ty::Vec(_, t)) = (a, from, to) {
            let mut o = vec![];
            for x in xs.iter() { o.push(self.cast(op, f, t, x)?); }
            return Ok(Val::A(Rc::new(o)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Val::C(c) = a {
            let c = *c;
            let r = match op {
                Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr => c & mask(tw),
                Cast::SExt => sext(c, fw) as u128 & mask(tw),
                _ => { let e = self.pool.cnst(c, fw); let r = self.cast_e(op, e, tw); return Ok(self.mkv(r)); }
            };
            return Ok(Val::C(r));
        }
        let e = self.ex(a, fw)?;
        let r = match op {
            Cast::Trunc => self.pool.extract(e, 0, tw),
            Cast::ZExt => self.pool.zext(e, tw),
            Cast::SExt => self.pool.sext(e, tw),
            Cast::PtrToInt | Cast::IntToPtr => if tw < fw { self.pool.extract(e, 0, tw) } else { self.pool.zext(e, tw) },
            o => self.cast_e(o, e, tw),
        };
        Ok(self.mkv(r))
    }
    fn cast_e(&mut self, op: Cast, e: E, tw: u32) -> E {
        match op {
            Cast::FpToSi => self.pool.fto(e, true, tw),
            Cast::FpToUi => self.pool.fto(e, false, tw),
            Cast::SiToFp => self.pool.ffrom(e, true, tw),
            Cast::UiToFp => self.pool.ffrom(e, false, tw),
            Cast::FpExt | Cast::FpTrunc => self.pool.fcvt(e, tw),
            _ => unreachable!(),
        }
    }

    // ---------- builtins ----------
    fn location(&self, st: &State, v: Option<&Val>) -> String {
        if let Some(Val::C(a)) = v {
            let a = *a as u64;
            let rd = |o: u64, n: u64| -> Option<u64> { let mut x = 0; for i in (0..n).rev() { x = (x << 8) | self.load_byte(&st.mem, a + o + i).ok()?.ok()? as u64; } Some(x) };
            if let (Some(p), Some(l), Some(line)) = (rd(0, 8), rd(8, 8), rd(16, 4)) {
                if l < 400 && p >= GBASE { return format!("{}:{}", self.read_str(&st.mem, p, l), line); }
            }
        }
        "?".into()
    }
    fn fresh(&mut self, st: &mut State, tag: String, kind: u8, w: u32, lo: i128, hi: i128, ranged: bool) -> E {
        let key = (st.nd.len(), tag.clone(), w, lo, hi);
        let e = match self.varkeys.get(&key) {
            Some(e) => *e,
            None => { let e = self.pool.var(tag.clone(), w, lo, hi, ranged); self.varkeys.insert(key, e); e }
        };
        let id = self.pool.n(e).aux as u32;
        let init = if ranged { if lo <= 0 && hi >= 0 { 0 } else { lo } } else { 0 };
        st.model.entry(id).or_insert(init as u128 & mask(w));
        st.nd.push(Nd { tag, kind, w, e });
        e
    }
    fn builtin(&mut self, st: &mut State, b: BuiltinId, name: &str, a: &[Val], aty: &[&Ty], rty: &Ty) -> R<Val> {
        match b {
            "llvm" => self.intrinsic(st, name, a, aty, rty),
            "nop" => Ok(self.zero(rty)),
            "alloc" => {
                let n = self.conc(st, &a[0])? as u64;
                let al = self.conc(st, &a[1])? as u64;
                if n > 1 << 30 { return Err(Stop::Unsupported("huge allocation".into())); }
                Ok(Val::C(self.alloc(&mut st.mem, n, al) as u128))
            }
            "realloc" => {
                let p = self.conc(st, &a[0])? as u64;
                let old = self.conc(st, &a[1])? as u64;
                let al = self.conc(st, &a[2])? as u64;
                let n = self.conc(st, &a[3])? as u64;
                let q = self.alloc(&mut st.mem, n, al);
                self.copy(&mut st.mem, q, p, old.min(n))?;
                Ok(Val::C(q as u128))
            }
            "panic" => {
                let loc = self.location(st, a.last());
                let mut msg = String::new();
                if a.len() >= 2 {
                    if let (Val::C(p), Val::C(l)) = (&a[0], &a[1]) {
                        let (p, l) = (*p as u64, *l as u64);
                        if name.contains("panic_fmt") { if l & 1 == 1 && l >> 1 < 300 { msg = self.read_str(&st.mem, p, l >> 1); } }
                        else if p >= GBASE && p < MBASE && l < 300 { msg = self.read_str(&st.mem, p, l); }
                    }
                }
                let short = demangle(name);
                Err(Stop::Panic(format!("{} ({}) at {}", msg, short.rsplit("::").next().unwrap_or(""), loc)))
            }
            "hashkeys" => Ok(Val::A(Rc::new(vec![Val::C(0x1234567), Val::C(0x89abcdef)]))),
            "btcapture" => {
                // Backtrace { inner: Inner::Unsupported/Disabled }: discriminant value for Disabled
                let p = self.conc(st, &a[0])? as u64;
                // run the real thing is not needed: backtraces are disabled in the model (RUST_BACKTRACE unset)
                self.store(&mut st.mem, p, &Ty::Int(64), &Val::C(1))?;
                Ok(Val::C(0))
            }
            "memcpy" | "memmove" => {
                let d = self.conc(st, &a[0])? as u64;
                let s = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                self.copy(&mut st.mem, d, s, n)?;
                Ok(a[0].clone())
            }
            "memset" => {
                let d = self.conc(st, &a[0])? as u64;
                let v = self.conc(st, &a[1])? as u8;
                let n = self.conc(st, &a[2])? as u64;
                for i in 0..n { self.store_byte(&mut st.mem, d + i, Ok(v))?; }
                Ok(a[0].clone())
            }
            "memcmp" | "bcmp" => {
                let p = self.conc(st, &a[0])? as u64;
                let q = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                for i in 0..n {
                    let x = self.load_byte(&st.mem, p + i)?;
                    let y = self.load_byte(&st.mem, q + i)?;
                    match (x, y) {
                        (Ok(x), Ok(y)) => if x != y { return Ok(Val::C(if x < y { mask(32) } else { 1 })); },
                        (x, y) => {
                            let f = |s: &mut Engine, b: Result<u8, (E, u8)>| match b { Ok(c) => s.pool.cnst(c as u128, 8), Err((e, k)) => s.pool.extract(e, k as u32 * 8, 8) };
                            let (xe, ye) = (f(self, x), f(self, y));
                            let c = self.pool.icmp(Op::Eq, xe, ye);
                            if !self.decide(st, c)? {
                                let c = self.pool.icmp(Op::Ult, xe, ye);
                                return Ok(Val::C(if self.decide(st, c)? { mask(32) } else { 1 }));
                            }
                        }
                    }
                }
                Ok(Val::C(0))
            }
            "strlen" => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0;
                loop { match self.load_byte(&st.mem, p + n)? { Ok(0) => return Ok(Val::C(n as u128)), Ok(_) => n += 1, Err(_) => return Err(Stop::Unsupported("strlen of symbolic".into())) } }
            }
            "memchr" => {
                let p = self.conc(st, &a[0])? as u64;
                let c = self.conc(st, &a[1])? as u8;
                let n = self.conc(st, &a[2])? as u64;
                for i in 0..n { match self.load_byte(&st.mem, p + i)? { Ok(b) => if b == c { return Ok(Val::C((p + i) as u128)); }, Err(_) => return Err(Stop::Unsupported("memchr of symbolic".into())) } }
                Ok(Val::C(0))
            }
            "abort" => Err(Stop::Panic("abort".into())),
            "libm" => self.libm(st, name, a, rty),
            "sym" => self.sym(st, name, a),
            "extern" => self.ext(st, name, a, rty),
            o => Err(Stop::Unsupported(format!("builtin {}", o))),
        }
    }
    fn libm(&mut self, _st: &mut State, name: &str, a: &[Val], _rty: &Ty) -> R<Val> {
        let mut x = [0f64; 3];
        for (i, v) in a.iter().enumerate().take(3) {
            match v {
                Val::C(c) => x[i] = f64_of(*c),
                Val::S(e) => {
                    let r = match name { "sqrt" => self.pool.fsqrt(*e), "fabs" => self.pool.fabs(*e), "floor" => self.pool.fround(*e, 1), "ceil" => self.pool.fround(*e, 2), "trunc" => self.pool.fround(*e, 3), "round" => self.pool.fround(*e, 4), "rint" => self.pool.fround(*e, 0), _ => return Err(Stop::Unsupported(format!("symbolic {}", name))) };
                    return Ok(self.mkv(r));
                }
                _ => return Err(Stop::Unsupported(name.into())),
            }
        }
        let r = match name {
            "exp" => x[0].exp(), "log" => x[0].ln(), "pow" => x[0].powf(x[1]), "sin" => x[0].sin(), "cos" => x[0].cos(), "tan" => x[0].tan(), "fmod" => x[0] % x[1], "log10" => x[0].log10(), "log2" => x[0].log2(), "exp2" => x[0].exp2(), "floor" => x[0].floor(), "ceil" => x[0].ceil(), "round" => x[0].round(), "trunc" => x[0].trunc(), "sqrt" => x[0].sqrt(), "fabs" => x[0].abs(), "cbrt" => x[0].cbrt(), "hypot" => x[0].hypot(x[1]), "expm1" => x[0].exp_m1(), "log1p" => x[0].ln_1p(), "tanh" => x[0].tanh(), "sinh" => x[0].sinh(), "cosh" => x[0].cosh(), "atan" => x[0].atan(), "atan2" => x[0].atan2(x[1]), "asin" => x[0].asin(), "acos" => x[0].acos(), "fma" => x[0].mul_add(x[1], x[2]), "rint" => x[0].round_ties_even(),
            _ => return Err(Stop::Unsupported(format!("libm {}", name))),
        };
        Ok(Val::C(r.to_bits() as u128))
    }
    fn sym(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Val> {
        let tag = |s: &mut Engine, st: &mut State, a: &[Val]| -> R<String> { let p = s.conc(st, &a[0])? as u64; let n = s.conc(st, &a[1])? as u64; Ok(s.read_str(&st.mem, p, n)) };
        match name {
            "__sym_int" => {
                let t = tag(self, st, a)?;
                let lo = sext(self.conc(st, &a[2])?, 64);
                let hi = sext(self.conc(st, &a[3])?, 64);
                if lo > hi { return Err(Stop::Assume); }
                if lo == hi { let e = self.pool.cnst(lo as u128, 64); st.nd.push(Nd { tag: t, kind: b'i', w: 64, e }); return Ok(Val::C(lo as u128 & mask(64))); }
                // narrow variable, sign-extended
                let f = |x: i128| -> u32 { if x >= 0 { 128 - x.leading_zeros() + 1 } else { 128 - (!x).leading_zeros() + 1 } };
                let w = f(lo).max(f(hi)).max(2).min(64);
                let full = w == 64 && lo == i64::MIN as i128 && hi == i64::MAX as i128;
                let v = self.fresh(st, t, b'i', w, lo, hi, !full);
                let e = self.pool.sext(v, 64);
                let n = st.nd.last_mut().unwrap();
                n.e = e;
                Ok(Val::S(e))
            }
            "__sym_f64" => {
                let t = tag(self, st, a)?;
                let v = self.fresh(st, t, b'f', 64, 0, 0, false);
                Ok(Val::S(v))
            }
            "__sym_bool" => {
                let t = tag(self, st, a)?;
                let v = self.fresh(st, t, b'b', 1, 0, 0, false);
                let e = self.pool.zext(v, 8);
                Ok(Val::S(e))
            }
            "__sym_assume" => {
                match &a[0] {
                    Val::C(c) => if c & 1 == 1 { Ok(Val::C(0)) } else { Err(Stop::Assume) },
                    v => {
                        let e = self.boole(v)?;
                        if let Some(b) = st.known.get(&e) { return if *b { Ok(Val::C(0)) } else { Err(Stop::Assume) }; }
                        if self.eval_state(st, e) != 1 {
                            match self.solver.check(&self.pool, &st.pc, e, &st.model) {
                                Res::Sat(m) => { for (k, x) in m { st.model.insert(k, x); } }
                                Res::Unsat => return Err(Stop::Assume),
                                Res::Unknown => { self.rep.branch_unknown += 1; return Err(Stop::Unsupported("assume: solver gave no answer".into())); }
                            }
                        }
                        st.pc.push(e);
                        st.known.insert(e, true);
                        Ok(Val::C(0))
                    }
                }
            }
            "__sym_assert" => {
                let p = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                let msg = self.read_str(&st.mem, p, n);
                self.rep.asserts_checked += 1;
                match &a[0] {
                    Val::C(c) => { self.rep.asserts_concrete += 1; if c & 1 == 1 { Ok(Val::C(0)) } else { Err(Stop::Violation(msg)) } }
                    v => {
                        let e = self.boole(v)?;
                        self.rep.asserts_symbolic += 1;
                        if let Some(b) = st.known.get(&e) { return if *b { Ok(Val::C(0)) } else { Err(Stop::Violation(msg)) }; }
                        if self.eval_state(st, e) != 1 { return Err(Stop::Violation(msg)); }
                        let ne = self.pool.not(e);
                        match self.solver.check(&self.pool, &st.pc, ne, &st.model) {
                            Res::Unsat => { st.known.insert(e, true); Ok(Val::C(0)) }
                            Res::Sat(m) => { for (k, x) in m { st.model.insert(k, x); } Err(Stop::Violation(msg)) }
                            Res::Unknown => { self.rep.assert_unknown += 1; st.partial = true; Ok(Val::C(0)) }
                        }
                    }
                }
            }
            "__sym_cover" => { let t = tag(self, st, a)?; st.covers.insert(t); Ok(Val::C(0)) }
            "__sym_log" => { let t = tag(self, st, a)?; st.log.push((t, a[2].clone())); Ok(Val::C(0)) }
            "__sym_allow_panic" => { st.allow_panic = matches!(&a[0], Val::C(c) if c & 1 == 1); Ok(Val::C(0)) }
            // force a decision on a boolean / a concrete value for an integer
            "__sym_fork" => { let v = match &a[0] { Val::C(c) => c & 1 == 1, v => { let e = self.boole(v)?; self.decide(st, e)? } }; Ok(Val::C(v as u128)) }
            "__sym_concrete" => { let v = self.conc(st, &a[0])?; Ok(Val::C(v)) }
            "__sym_native" => Ok(Val::C(0)),
            "__sym_is_symbolic" => Ok(Val::C(matches!(a[0], Val::S(_)) as u128)),
            _ => Err(Stop::Unsupported(format!("sym {}", name))),
        }
    }
    fn boole(&mut self, v: &Val) -> R<E> {
        match v {
            Val::S(e) => { let w = self.pool.w(*e); let r = if w == 1 { *e } else { self.pool.extract(*e, 0, 1) }; Ok(self.pool.lift(r)) }
            Val::C(c) => Ok(self.pool.cnst(c & 1, 1)),
            _ => Err(Stop::Unsupported("bool".into())),
        }
    }
    fn ext(&mut self, st: &mut State, name: &str, a: &[Val], rty: &Ty) -> R<Val> {
        match name {
            "getenv" | "secure_getenv" | "dlsym" | "getauxval" => Ok(Val::C(0)),
            "malloc" => { let n = self.conc(st, &a[0])? as u64; Ok(Val::C(self.alloc(&mut st.mem, n, 16) as u128)) }
            "calloc" => { let n = self.conc(st, &a[0])? as u64 * self.conc(st, &a[1])? as u64; Ok(Val::C(self.alloc(&mut st.mem, n, 16) as u128)) }
            "free" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "sched_yield" | "pthread_getspecific" | "pthread_self" => Ok(Val::C(0)),
            "__errno_location" => {
                // one cell in the stack guard area
                Ok(Val::C((SBASE) as u128))
            }
            "sysconf" => Ok(Val::C(4096)),
            "write" | "writev" => { if a.len() > 2 { Ok(a[2].clone()) } else { Ok(Val::C(0)) } }
            "syscall" => {
                let n = self.conc(st, &a[0])? as u64;
                match n {
                    318 => {
                        let p = self.conc(st, &a[1])? as u64;
                        let l = self.conc(st, &a[2])? as u64;
                        for i in 0..l { self.store_byte(&mut st.mem, p + i, Ok(i as u8))?; }
                        Ok(Val::C(l as u128))
                    }
                    186 => Ok(Val::C(1)),
                    202 => Ok(Val::C(0)),
                    _ => Err(Stop::Unsupported(format!("syscall {}", n))),
                }
            }
            "gettid" | "getpid" => Ok(Val::C(1)),
            "getrandom" => {
                let p = self.conc(st, &a[0])? as u64;
                let l = self.conc(st, &a[1])? as u64;
                for i in 0..l { self.store_byte(&mut st.mem, p + i, Ok(i as u8))?; }
                Ok(Val::C(l as u128))
            }
            _ => { let _ = rty; Err(Stop::Unsupported(format!("external {}", demangle(name)))) }
        }
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], aty: &[&Ty], rty: &Ty) -> R<Val> {
        let n = &name[5..];
        let base = |s: &str| n.starts_with(s);
        if base("lifetime") || base("experimental.noalias") || base("assume") || base("dbg") || base("invariant") || base("donothing") || base("prefetch") || base("sideeffect") || base("pseudoprobe") { return Ok(self.zero(rty)); }
        if base("memcpy") || base("memmove") { return self.builtin(st, "memcpy", name, a, aty, rty); }
        if base("memset") { return self.builtin(st, "memset", name, a, aty, rty); }
        if base("trap") || base("ubsantrap") || base("debugtrap") { return Err(Stop::Panic("trap".into())); }
        if base("threadlocal.address") || base("launder.invariant") || base("strip.invariant") { return Ok(a[0].clone()); }
        if base("expect") { return Ok(a[0].clone()); }
        if base("is.constant") { return Ok(Val::C(0)); }
        if base("stacksave") { return Ok(Val::C(0)); }
        if base("stackrestore") { return Ok(Val::C(0)); }
        if base("objectsize") { return Ok(Val::C(mask(rty.bits()))); }
        if base("load.relative") {
            let p = self.conc(st, &a[0])? as u64;
            let o = self.conc(st, &a[1])? as u64;
            let mem = std::mem::take(&mut st.mem);
            let v = self.load_scalar(&mem, p.wrapping_add(o), 4);
            st.mem = mem;
            let Val::C(v) = v? else { return Err(Stop::Unsupported("load.relative".into())) };
            return Ok(Val::C(p.wrapping_add(sext(v, 32) as u64) as u128));
        }
        if base("ptrmask") { return self.binop(st, Bin::And, &Ty::Int(64), &a[0], &a[1]); }
        // vector reductions
        if base("vector.reduce.") {
            let Val::A(xs) = &a[a.len() - 1] else { return Err(Stop::Unsupported(n.into())) };
            let t = aty[a.len() - 1].elem(0);
            let op = n["vector.reduce.".len()..].split('.').next().unwrap();
            let mut acc = xs[0].clone();
            for x in &xs[1..] {
                acc = match op {
                    "add" => self.binop(st, Bin::Add, &t, &acc, x)?,
                    "or" => self.binop(st, Bin::Or, &t, &acc, x)?,
                    "and" => self.binop(st, Bin::And, &t, &acc, x)?,
                    "xor" => self.binop(st, Bin::Xor, &t, &acc, x)?,
                    "mul" => self.binop(st, Bin::Mul, &t, &acc, x)?,
                    "umax" | "umin" | "smax" | "smin" => self.intrinsic(st, &format!("llvm.{}.x", op), &[acc.clone(), x.clone()], &[&t, &t], &t)?,
                    _ => return Err(Stop::Unsupported(n.into())),
                };
            }
            return Ok(acc);
        }
        // elementwise over vectors
        if let Ty::Vec(cnt, et) = rty {
            if a.iter().any(|v| matches!(v, Val::A(_))) && !n.contains("with.overflow") && !base("masked") && !base("x86") {
                let mut o = vec![];
                for i in 0..*cnt as usize {
                    let ai: Vec<Val> = a.iter().map(|v| match v { Val::A(xs) => xs[i].clone(), v => v.clone() }).collect();
                    let ti: Vec<Ty> = aty.iter().map(|t| if let Ty::Vec(_, t) = t { (**t).clone() } else { (*t).clone() }).collect();
                    let tr: Vec<&Ty> = ti.iter().collect();
                    o.push(self.intrinsic(st, name, &ai, &tr, et)?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        let w = aty.get(0).map(|t| t.bits()).unwrap_or(0);
        let cc = |i: usize| -> Option<u128> { if let Val::C(c) = &a[i] { Some(*c) } else { None } };
        if base("fabs") { let e = self.ex(&a[0], w)?; let r = self.pool.fabs(e); return Ok(self.mkv(r)); }
        if base("sqrt") { let e = self.ex(&a[0], w)?; let r = self.pool.fsqrt(e); return Ok(self.mkv(r)); }
        for (k, m) in [("floor", 1), ("ceil", 2), ("trunc", 3), ("roundeven", 0), ("rint", 0), ("nearbyint", 0), ("round", 4)] {
            if base(k) { let e = self.ex(&a[0], w)?; let r = self.pool.fround(e, m); return Ok(self.mkv(r)); }
        }
        if base("copysign") {
            if let (Some(x), Some(y)) = (cc(0), cc(1)) { let m = mask(w) >> 1; return Ok(Val::C((x & m) | (y & !m & mask(w)))); }
            let (x, y) = (self.ex(&a[0], w)?, self.ex(&a[1], w)?);
            let m = self.pool.cnst(mask(w) >> 1, w);
            let sgn = self.pool.cnst(1u128 << (w - 1), w);
            let p = self.pool.bin(Op::And, x, m);
            let q = self.pool.bin(Op::And, y, sgn);
            let r = self.pool.bin(Op::Or, p, q);
            return Ok(self.mkv(r));
        }
        if base("minnum") || base("minimumnum") || base("maxnum") || base("maximumnum") {
            let (x, y) = (self.ex(&a[0], w)?, self.ex(&a[1], w)?);
            let r = self.pool.fbin(if base("min") { Op::FMin } else { Op::FMax }, x, y);
            return Ok(self.mkv(r));
        }
        if base("fma") || base("fmuladd") {
            if let (Some(x), Some(y), Some(z)) = (cc(0), cc(1), cc(2)) {
                let r = if base("fmuladd") { f64_of(x) * f64_of(y) + f64_of(z) } else { f64_of(x).mul_add(f64_of(y), f64_of(z)) };
                return Ok(Val::C(r.to_bits() as u128));
            }
            return Err(Stop::Unsupported("symbolic fma".into()));
        }
        if base("powi") {
            if let (Some(x), Some(k)) = (cc(0), cc(1)) { return Ok(Val::C(powi(f64_of(x), sext(k, 32) as i32).to_bits() as u128)); }
            if let Some(k) = cc(1) {
                let k = sext(k, 32) as i32;
                if k >= 0 && k <= 4 {
                    let e = self.ex(&a[0], 64)?;
                    if k == 2 { let r = self.pool.fbin(Op::FMul, e, e); return Ok(self.mkv(r)); }
                    if k == 1 { return Ok(a[0].clone()); }
                }
            }
            return Err(Stop::Unsupported("symbolic powi".into()));
        }
        for k in ["exp2", "exp", "log10", "log2", "log", "pow", "sin", "cos", "tan"] {
            if n.starts_with(&format!("{}.", k)) { return self.libm(st, k, a, rty); }
        }
        if base("fptosi.sat") || base("fptoui.sat") { let e = self.ex(&a[0], w)?; let r = self.pool.fto(e, base("fptosi"), rty.bits()); return Ok(self.mkv(r)); }
        if base("is.fpclass") {
            let m = cc(1).unwrap();
            let Some(c) = cc(0) else {
                let e = self.ex(&a[0], 64)?;
                if m == 3 { let r = self.pool.fisnan(e); return Ok(self.mkv(r)); }
                // finite classes or infinities
                let ab = self.pool.fabs(e);
                let inf = self.pool.cnst(f64::INFINITY.to_bits() as u128, 64);
                if m == 0x204 { let r = self.pool.fcmp(Op::FEq, ab, inf); return Ok(self.mkv(r)); }
                if m == 0x1f8 { let r = self.pool.fcmp(Op::FLt, ab, inf); return Ok(self.mkv(r)); }
                if m == 0x40 || m == 0x20 { let z = self.pool.cnst(if m == 0x40 { 0 } else { 1u128 << 63 }, 64); let r = self.pool.icmp(Op::Eq, e, z); return Ok(self.mkv(r)); }
                if m == 0x60 { let z = self.pool.cnst(0, 64); let r = self.pool.fcmp(Op::FEq, e, z); return Ok(self.mkv(r)); }
                return Err(Stop::Unsupported("is.fpclass".into()));
            };
            let f = f64_of(c);
            let neg = f.is_sign_negative();
            let bit = match f.classify() {
                std::num::FpCategory::Nan => 3u128,
                std::num::FpCategory::Infinite => if neg { 4 } else { 0x200 },
                std::num::FpCategory::Normal => if neg { 8 } else { 0x100 },
                std::num::FpCategory::Subnormal => if neg { 0x10 } else { 0x80 },
                std::num::FpCategory::Zero => if neg { 0x20 } else { 0x40 },
            };
            return Ok(Val::C((m & bit != 0) as u128));
        }
        if let Some(op) = ["smax", "smin", "umax", "umin"].iter().find(|k| base(k)) {
            let p = match *op { "smax" => IPred::Sgt, "smin" => IPred::Slt, "umax" => IPred::Ugt, _ => IPred::Ult };
            let c = self.icmp(p, &Ty::Int(w), &a[0], &a[1])?;
            return Ok(match c { Val::C(1) => a[0].clone(), Val::C(_) => a[1].clone(), Val::S(e) => { let (x, y) = (self.ex(&a[0], w)?, self.ex(&a[1], w)?); let r = self.pool.ite(e, x, y); self.mkv(r) } v => v });
        }
        if base("scmp") || base("ucmp") {
            let (p, q) = if base("scmp") { (IPred::Slt, IPred::Sgt) } else { (IPred::Ult, IPred::Ugt) };
            let lt = self.icmp(p, &Ty::Int(w), &a[0], &a[1])?;
            let gt = self.icmp(q, &Ty::Int(w), &a[0], &a[1])?;
            let rw = rty.bits();
            let (le, ge) = (self.boole(&lt)?, self.boole(&gt)?);
            let (m1, z, o) = (self.pool.cnst(mask(rw), rw), self.pool.cnst(0, rw), self.pool.cnst(1, rw));
            let r = self.pool.ite(ge, o, z);
            let r = self.pool.ite(le, m1, r);
            return Ok(self.mkv(r));
        }
        if base("abs.") {
            if let Some(c) = cc(0) { return Ok(Val::C(sext(c, w).wrapping_abs() as u128 & mask(w))); }
            let e = self.ex(&a[0], w)?;
            let z = self.pool.cnst(0, w);
            let ng = self.pool.bin(Op::Sub, z, e);
            let c = self.pool.icmp(Op::Slt, e, z);
            let r = self.pool.ite(c, ng, e);
            return Ok(self.mkv(r));
        }
        if n.contains(".with.overflow") {
            let signed = n.starts_with('s');
            let op = &n[1..4];
            let bop = match op { "add" => Bin::Add, "sub" => Bin::Sub, _ => Bin::Mul };
            if let (Some(x), Some(y)) = (cc(0), cc(1)) {
                let (r, o) = if signed {
                    let (x, y) = (sext(x, w), sext(y, w));
                    let (r, of) = match op { "add" => x.overflowing_add(y), "sub" => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                    (r as u128 & mask(w), of || sext(r as u128 & mask(w), w) != r)
                } else {
                    let (r, of) = match op { "add" => x.overflowing_add(y), "sub" => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                    (r & mask(w), of || r > mask(w))
                };
                return Ok(Val::A(Rc::new(vec![Val::C(r), Val::C(o as u128)])));
            }
            let r = self.binop(st, bop, &Ty::Int(w), &a[0], &a[1])?;
            let (x, y) = (self.ex(&a[0], w)?, self.ex(&a[1], w)?);
            let ew = if op == "mul" { w * 2 } else { w + 1 };
            if ew > 128 { return Err(Stop::Unsupported("wide overflow check".into())); }
            let (xx, yy) = if signed { (self.pool.sext(x, ew), self.pool.sext(y, ew)) } else { (self.pool.zext(x, ew), self.pool.zext(y, ew)) };
            let o = match op { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
            // ranges decide the common cases without the solver
            let (rx, ry) = (self.pool.range(x), self.pool.range(y));
            let lim = 1i128 << 62;
            if w == 64 && rx.0 >= 0 && ry.0 >= 0 && rx.1 < lim && ry.1 < lim && (op == "add" || (op == "mul" && rx.1.checked_mul(ry.1).map(|v| v < lim).unwrap_or(false)) || (op == "sub" && (rx.0 >= ry.1 || signed))) {
                return Ok(Val::A(Rc::new(vec![r, Val::C(0)])));
            }
            let full = self.pool.bin(o, xx, yy);
            let re = self.ex(&r, w)?;
            let back = if signed { self.pool.sext(re, ew) } else { self.pool.zext(re, ew) };
            let eq = self.pool.icmp(Op::Eq, full, back);
            let of = self.pool.not(eq);
            return Ok(Val::A(Rc::new(vec![r, self.mkv(of)])));
        }
        if n.contains(".sat.") && (base("uadd") || base("usub") || base("sadd") || base("ssub")) {
            let ty = Ty::Int(w);
            if base("usub") {
                let c = self.icmp(IPred::Ult, &ty, &a[0], &a[1])?;
                let d = self.binop(st, Bin::Sub, &ty, &a[0], &a[1])?;
                return Ok(match c { Val::C(1) => Val::C(0), Val::C(_) => d, Val::S(e) => { let z = self.pool.cnst(0, w); let de = self.ex(&d, w)?; let r = self.pool.ite(e, z, de); self.mkv(r) } v => v });
            }
            if base("uadd") {
                let d = self.binop(st, Bin::Add, &ty, &a[0], &a[1])?;
                let c = self.icmp(IPred::Ult, &ty, &d, &a[0])?;
                return Ok(match c { Val::C(1) => Val::C(mask(w)), Val::C(_) => d, Val::S(e) => { let z = self.pool.cnst(mask(w), w); let de = self.ex(&d, w)?; let r = self.pool.ite(e, z, de); self.mkv(r) } v => v });
            }
            if let (Some(x), Some(y)) = (cc(0), cc(1)) {
                let (x, y) = (sext(x, w), sext(y, w));
                let r = if base("sadd") { x + y } else { x - y };
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                return Ok(Val::C(r.clamp(lo, hi) as u128 & mask(w)));
            }
            return Err(Stop::Unsupported(n.into()));
        }
        if base("fshl") || base("fshr") {
            let s = cc(2);
            if let (Some(x), Some(y), Some(s)) = (cc(0), cc(1), s) {
                let s = (s % w as u128) as u32;
                let r = if base("fshl") { if s == 0 { x } else { (x << s) | (y >> (w - s)) } } else if s == 0 { y } else { (x << (w - s)) | (y >> s) };
                return Ok(Val::C(r & mask(w)));
            }
            if let Some(s) = s {
                let s = (s % w as u128) as u32;
                let (x, y) = (self.ex(&a[0], w)?, self.ex(&a[1], w)?);
                if s == 0 { return Ok(if base("fshl") { a[0].clone() } else { a[1].clone() }); }
                let (l, r) = if base("fshl") { (s, w - s) } else { (w - s, s) };
                let (lc, rc) = (self.pool.cnst(l as u128, w), self.pool.cnst(r as u128, w));
                let p = self.pool.bin(Op::Shl, x, lc);
                let q = self.pool.bin(Op::LShr, y, rc);
                let z = self.pool.bin(Op::Or, p, q);
                return Ok(self.mkv(z));
            }
            return Err(Stop::Unsupported("symbolic funnel shift".into()));
        }
        if base("ctlz") || base("cttz") || base("ctpop") || base("bswap") || base("bitreverse") {
            let c = if base("bswap") {
                match &a[0] {
                    Val::S(e) => {
                        let k = w / 8;
                        let mut acc: Option<E> = None;
                        for i in (0..k).rev() { let x = self.pool.extract(*e, i * 8, 8); acc = Some(match acc { None => x, Some(l) => self.pool.concat(x, l) }); }
                        return Ok(self.mkv(acc.unwrap()));
                    }
                    v => self.conc(st, v)?,
                }
            } else { self.conc(st, &a[0])? };
            let r = if base("ctlz") { (if c == 0 { w } else { w - (128 - c.leading_zeros()) }) as u128 } else if base("cttz") { (if c == 0 { w } else { c.trailing_zeros() }) as u128 } else if base("ctpop") { c.count_ones() as u128 } else if base("bswap") { c.swap_bytes() >> (128 - w) } else { c.reverse_bits() >> (128 - w) };
            return Ok(Val::C(r));
        }
        Err(Stop::Unsupported(format!("intrinsic {}", name)))
    }
}

fn static_zero() {}

fn powi(x: f64, n: i32) -> f64 {
    // compiler-rt's __powidf2
    let recip = n < 0;
    let mut b = n.unsigned_abs();
    let mut a = x;
    let mut r = 1.0;
    loop {
        if b & 1 == 1 { r *= a; }
        b /= 2;
        if b == 0 { break; }
        a *= a;
    }
    if recip { 1.0 / r } else { r }
}

/// crude v0 demangling: the identifiers of the symbol's path
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // disambiguator s<base62>_
            let mut j = i + if b[i] == b'C' { 2 } else { 1 };
            let st = j;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - st <= 12 { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { l = l * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if l > 0 && j + l <= b.len() && l < 80 {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
