//! LLVM textual IR: types, lexer, module index, and the compiled form of a function.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void => 1,
            Ty::Int(n) => { let b = (*n as u64 + 7) / 8; b.next_power_of_two().min(16) }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(n, t) => { let s = (n * t.bits() as u64 + 7) / 8; s.next_power_of_two() }
            Ty::Other(_) => 16,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(n) => { let b = (*n as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Other(_) => 16,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Struct(f, _) => f[i].clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self { Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, Ty::Struct(f, _) => f.len(), _ => 0 }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..)) }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok<'a> {
    Word(&'a str),
    Num(&'a str),
    Local(&'a str),
    Global(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta,
    Attr,
    P(u8),
    Dots,
    NL,
    Eof,
}

pub struct Lex<'a> { s: &'a str, pub i: usize }

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self { Lex { s, i: 0 } }
    fn quoted(&mut self) -> &'a str {
        // at '"'
        let b = self.s.as_bytes();
        let st = self.i + 1;
        let mut j = st;
        while b[j] != b'"' { j += 1; }
        self.i = j + 1;
        &self.s[st..j]
    }
    fn ident(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        if self.i < b.len() && b[self.i] == b'"' { return self.quoted(); }
        let st = self.i;
        let mut j = st;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) { j += 1; }
        self.i = j;
        &self.s[st..j]
    }
    pub fn next(&mut self) -> Tok<'a> {
        let b = self.s.as_bytes();
        loop {
            if self.i >= b.len() { return Tok::Eof; }
            match b[self.i] {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b'/' if b.get(self.i + 1) == Some(&b'*') => {
                    self.i += 2;
                    while !(b[self.i] == b'*' && b[self.i + 1] == b'/') { self.i += 1; }
                    self.i += 2;
                }
                b';' => { while self.i < b.len() && b[self.i] != b'\n' { self.i += 1; } }
                _ => break,
            }
        }
        let c = b[self.i];
        match c {
            b'\n' => { self.i += 1; Tok::NL }
            b'%' => { self.i += 1; Tok::Local(self.ident()) }
            b'@' => { self.i += 1; Tok::Global(self.ident()) }
            b'!' => { self.i += 1; if self.i < b.len() && b[self.i] != b'{' && b[self.i] != b'"' { self.ident(); } Tok::Meta }
            b'#' => { self.i += 1; self.ident(); Tok::Attr }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < b.len() && b[self.i + 1] == b'"' => { self.i += 1; Tok::CStr(self.quoted()) }
            b'.' if self.s[self.i..].starts_with("...") => { self.i += 3; Tok::Dots }
            b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'<' | b'>' | b',' | b'=' | b'*' | b':' | b'|' => { self.i += 1; Tok::P(c) }
            b'-' | b'+' | b'.' | b'0'..=b'9' => {
                let st = self.i;
                // block labels may look like numbers or start with '.'
                let mut e = st;
                while e < b.len() && (b[e].is_ascii_alphanumeric() || matches!(b[e], b'_' | b'.' | b'$' | b'-')) { e += 1; }
                if e > st && b.get(e) == Some(&b':') { self.i = e; return Tok::Word(&self.s[st..e]); }
                let mut j = st + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e' || b[j - 1] == b'E') && !self.s[st..].starts_with("0x"))) { j += 1; }
                self.i = j;
                Tok::Num(&self.s[st..j])
            }
            b'f' if self.s[self.i..].starts_with("f0x") => {
                let st = self.i;
                let mut j = st + 3;
                while j < b.len() && b[j].is_ascii_hexdigit() { j += 1; }
                self.i = j;
                Tok::Num(&self.s[st..j])
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let id = self.ident();
                Tok::Word(id)
            }
            _ => panic!("lex: unexpected {:?} near {:?}", c as char, &self.s[self.i..(self.i + 60).min(self.s.len())]),
        }
    }
}

/// constants before global resolution
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Zero,
    Undef,
    Agg(Vec<(Ty, K)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, K)>),
    Global(String),
    Gep(Ty, Box<K>, Vec<(Ty, K)>),
    Bin(String, Box<K>, Box<K>, Ty),
    Cast(Box<K>, Ty, Ty, String),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(Ty, K),
    /// resolved constant index into function constant pool
    C(u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToSi, FpToUi, SiToFp, UiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, align: u64, n: Option<Opnd> },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, dyn_: Vec<(Opnd, u32, u64)> },
    Bin { d: u32, op: Bin, ty: Ty, a: Opnd, b: Opnd },
    FNeg { d: u32, ty: Ty, a: Opnd },
    ICmp { d: u32, p: IPred, ty: Ty, a: Opnd, b: Opnd },
    FCmp { d: u32, p: u8, ty: Ty, a: Opnd, b: Opnd }, // p bits: 1 eq, 2 gt, 4 lt, 8 uno
    Cast { d: u32, op: Cast, from: Ty, to: Ty, a: Opnd },
    Select { d: u32, cty: Ty, c: Opnd, ty: Ty, a: Opnd, b: Opnd },
    ExtractV { d: u32, a: Opnd, idx: Vec<u32> },
    InsertV { d: u32, ty: Ty, a: Opnd, v: Opnd, idx: Vec<u32> },
    ExtractE { d: u32, a: Opnd, i: Opnd },
    InsertE { d: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, n: usize, m: Vec<i32> },
    Freeze { d: u32, a: Opnd },
    Call { d: Option<u32>, rty: Ty, f: Callee, args: Vec<(Ty, Opnd)>, normal: Option<u32> },
    Rmw { d: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { d: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Fence,
    Br(u32),
    CBr { c: Opnd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opnd, d: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    LandingPad,
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Callee { Name(String), Ind(Opnd), Asm(String) }

pub struct Phi { pub d: u32, pub ty: Ty, pub inc: Vec<(u32, Opnd)> }
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<I> }
pub struct Func {
    pub name: String,
    pub module: usize,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    /// constants used by the body, resolved lazily by the executor
    pub consts: Vec<(Ty, K)>,
    pub id: usize,
}

pub struct Module {
    pub name: String,
    pub text: &'static str,
    /// function name -> byte range, is_local
    pub funcs: HashMap<&'static str, (usize, usize)>,
    pub globals: HashMap<&'static str, (usize, usize)>,
    pub types: HashMap<&'static str, Ty>,
    pub aliases: HashMap<&'static str, String>,
}

pub fn is_local_linkage(line: &str) -> bool { line.contains(" internal ") || line.contains(" private ") }

pub struct Program {
    pub modules: Vec<Module>,
    /// external definitions: name -> (module)
    pub ext_funcs: HashMap<&'static str, usize>,
    pub ext_globals: HashMap<&'static str, usize>,
}

fn global_name(s: &str) -> (&str, usize) {
    // s starts right after '@'
    if s.as_bytes()[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], e + 1)
    } else {
        let e = s.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '$' | '-'))).unwrap_or(s.len());
        (&s[..e], e)
    }
}

impl Program {
    pub fn load(files: &[String]) -> Program {
        let mut p = Program { modules: vec![], ext_funcs: HashMap::new(), ext_globals: HashMap::new() };
        for f in files {
            let text: &'static str = Box::leak(std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e)).into_boxed_str());
            let mut m = Module { name: f.clone(), text, funcs: HashMap::new(), globals: HashMap::new(), types: HashMap::new(), aliases: HashMap::new() };
            let mi = p.modules.len();
            let mut pos = 0;
            let b = text.as_bytes();
            while pos < b.len() {
                let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
                let line = &text[pos..e];
                if line.starts_with("define ") {
                    let at = line.find('@').unwrap();
                    let (name, _) = global_name(&line[at + 1..]);
                    let end = text[pos..].find("\n}\n").map(|x| pos + x + 2).unwrap_or(b.len());
                    m.funcs.insert(name, (pos, end));
                    let local = is_local_linkage(&line[..at]);
                    let avail = line[..at].contains("available_externally");
                    if !local && !avail { p.ext_funcs.entry(name).or_insert(mi); }
                    pos = end + 1;
                    continue;
                } else if line.starts_with('@') {
                    let (name, l) = global_name(&line[1..]);
                    let rest = &line[1 + l..];
                    if rest.contains(" alias ") && !rest.contains(" global ") && !rest.contains(" constant ") {
                        let at = rest.rfind('@').unwrap();
                        let (tgt, _) = global_name(&rest[at + 1..]);
                        m.aliases.insert(name, tgt.to_string());
                        if !is_local_linkage(rest) { p.ext_funcs.entry(name).or_insert(mi); }
                    } else {
                        let hdr = &rest[..rest.len().min(120)];
                        let is_ext_decl = hdr.starts_with(" = external ") || hdr.contains(" extern_weak ") || hdr.starts_with(" = dso_local external ");
                        if !is_ext_decl {
                            m.globals.insert(name, (pos, e));
                            if !is_local_linkage(hdr) { p.ext_globals.entry(name).or_insert(mi); }
                        }
                    }
                } else if line.starts_with('%') && line.contains(" = type ") {
                    let (name, l) = global_name(&line[1..]);
                    let rest = line[1 + l..].trim_start().trim_start_matches("= type ");
                    let mut ps = Parser::new(rest, HashMap::new());
                    m.types.insert(name, ps.ty());
                }
                pos = e + 1;
            }
            p.modules.push(m);
        }
        p
    }
    pub fn parse_func(&self, mi: usize, name: &str, id: usize) -> Func {
        let m = &self.modules[mi];
        let (s, e) = m.funcs[name];
        let mut ps = Parser::new(&m.text[s..e], m.types.clone());
        ps.func(name, mi, id)
    }
    /// returns (type, initializer, align, is_constant)
    pub fn parse_global(&self, mi: usize, name: &str) -> (Ty, K, u64, bool) {
        let m = &self.modules[mi];
        let (s, e) = m.globals[name];
        let line = &m.text[s..e];
        let mut ps = Parser::new(line, m.types.clone());
        ps.bump(); // @name
        ps.expect(b'=');
        let constant;
        loop {
            match ps.t.clone() {
                Tok::Word("global") => { ps.bump(); constant = false; break; }
                Tok::Word("constant") => { ps.bump(); constant = true; break; }
                Tok::Word("thread_local") => { ps.bump(); if ps.t == Tok::P(b'(') { ps.skip_parens(); } }
                Tok::Word("addrspace") => { ps.bump(); ps.skip_parens(); }
                Tok::Word(_) => { ps.bump(); }
                ref t => panic!("global {} {:?}", name, t),
            }
        }
        let ty = ps.ty();
        let k = ps.konst(&ty);
        let mut al = ty.align();
        if let Some(x) = line.rfind(", align ") {
            let d: String = line[x + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            al = d.parse().unwrap_or(al);
        }
        (ty, k, al, constant)
    }
}

pub struct Parser<'a> {
    l: Lex<'a>,
    pub t: Tok<'a>,
    types: HashMap<&'static str, Ty>,
    regs: HashMap<&'a str, u32>,
    blocks: HashMap<&'a str, u32>,
    consts: Vec<(Ty, K)>,
}

const CONSTWORDS: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint", "ptrtoaddr", "bitcast", "trunc", "add", "sub", "mul", "xor", "splat", "blockaddress", "dso_local_equivalent", "no_cfi", "addrspacecast", "asm"];

impl<'a> Parser<'a> {
    pub fn new(s: &'a str, types: HashMap<&'static str, Ty>) -> Self {
        let mut l = Lex::new(s);
        let t = l.next();
        Parser { l, t, types, regs: HashMap::new(), blocks: HashMap::new(), consts: vec![] }
    }
    pub fn bump(&mut self) -> Tok<'a> { let n = self.l.next(); std::mem::replace(&mut self.t, n) }
    fn is(&self, c: u8) -> bool { self.t == Tok::P(c) }
    fn word(&self, w: &str) -> bool { matches!(&self.t, Tok::Word(x) if *x == w) }
    fn eat(&mut self, c: u8) -> bool { if self.is(c) { self.bump(); true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.word(w) { self.bump(); true } else { false } }
    pub fn expect(&mut self, c: u8) { if !self.eat(c) { panic!("expected {:?} got {:?} near {:?}", c as char, self.t, &self.l_rest()); } }
    fn l_rest(&self) -> String { let i = self.l.i; let s = self.l.s; s[i.saturating_sub(80)..(i + 80).min(s.len())].to_string() }
    pub fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.bump() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => { d -= 1; if d == 0 { return; } }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.bump() {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => { if self.word("addrspace") { self.bump(); self.skip_parens(); } Ty::Ptr }
            Tok::Word("double") => Ty::F64,
            Tok::Word("float") => Ty::F32,
            Tok::Word(w) if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
            Tok::Word(w) => Ty::Other(w.to_string()),
            Tok::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Other(n.to_string())),
            Tok::P(b'[') => {
                let n = self.num() as u64;
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'{') => Ty::Struct(Rc::new(self.struct_body()), false),
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let f = self.struct_body();
                    self.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num() as u64;
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            t => panic!("type: {:?} near {}", t, self.l_rest()),
        };
        t
    }
    fn struct_body(&mut self) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat(b'}') { return f; }
        loop {
            f.push(self.ty());
            if self.eat(b'}') { return f; }
            self.expect(b',');
        }
    }
    fn num(&mut self) -> u128 {
        match self.bump() { Tok::Num(s) => parse_int(s), t => panic!("num: {:?} near {}", t, self.l_rest()) }
    }
    /// skip parameter/return attributes; returns when a value, callee or delimiter is next
    fn attrs(&mut self) {
        loop {
            match self.t.clone() {
                Tok::Word(w) if CONSTWORDS.contains(&w) => return,
                Tok::Word("align") => { self.bump(); if self.is(b'(') { self.skip_parens(); } else { self.bump(); } }
                Tok::Word(_) => { self.bump(); if self.is(b'(') { self.skip_parens(); } }
                Tok::Str(_) => { self.bump(); if self.eat(b'=') { self.bump(); } }
                Tok::Attr => { self.bump(); }
                _ => return,
            }
        }
    }
    pub fn konst(&mut self, ty: &Ty) -> K {
        match self.bump() {
            Tok::Word("true") => K::Int(1),
            Tok::Word("false") => K::Int(0),
            Tok::Word("null") | Tok::Word("none") => K::Int(0),
            Tok::Word("zeroinitializer") => K::Zero,
            Tok::Word("undef") | Tok::Word("poison") => K::Undef,
            Tok::Word("splat") => {
                self.expect(b'(');
                let t = self.ty();
                let k = self.konst(&t);
                self.expect(b')');
                K::Splat(Box::new((t, k)))
            }
            Tok::Num(s) => K::Int(parse_num(s, ty)),
            Tok::CStr(s) => K::Bytes(unescape(s)),
            Tok::Global(g) => K::Global(g.to_string()),
            Tok::Word("dso_local_equivalent") | Tok::Word("no_cfi") => self.konst(ty),
            Tok::P(b'[') => {
                let mut v = vec![];
                if self.eat(b']') { return K::Agg(v); }
                loop {
                    let t = self.ty();
                    let k = self.konst(&t);
                    v.push((t, k));
                    if self.eat(b']') { return K::Agg(v); }
                    self.expect(b',');
                }
            }
            Tok::P(b'{') => { let v = self.kstruct(); K::Agg(v) }
            Tok::P(b'<') => {
                if self.eat(b'{') { let v = self.kstruct(); self.expect(b'>'); K::Agg(v) } else {
                    let mut v = vec![];
                    loop {
                        let t = self.ty();
                        let k = self.konst(&t);
                        v.push((t, k));
                        if self.eat(b'>') { return K::Agg(v); }
                        self.expect(b',');
                    }
                }
            }
            Tok::Word("getelementptr") => {
                loop {
                    if self.is(b'(') { break; }
                    if self.word("inrange") { self.bump(); self.skip_parens(); continue; }
                    self.bump();
                }
                self.expect(b'(');
                let t = self.ty();
                self.expect(b',');
                let bt = self.ty();
                let b = self.konst(&bt);
                let mut idx = vec![];
                while self.eat(b',') {
                    self.eatw("inrange");
                    let it = self.ty();
                    let k = self.konst(&it);
                    idx.push((it, k));
                }
                self.expect(b')');
                K::Gep(t, Box::new(b), idx)
            }
            Tok::Word(op @ ("inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast")) => {
                while !self.is(b'(') { self.bump(); }
                self.expect(b'(');
                let t = self.ty();
                let k = self.konst(&t);
                assert!(self.eatw("to"));
                let t2 = self.ty();
                self.expect(b')');
                K::Cast(Box::new(k), t, t2, op.to_string())
            }
            Tok::Word(op @ ("add" | "sub" | "mul" | "xor")) => {
                while !self.is(b'(') { self.bump(); }
                self.expect(b'(');
                let t = self.ty();
                let a = self.konst(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.konst(&t2);
                self.expect(b')');
                K::Bin(op.to_string(), Box::new(a), Box::new(b), t)
            }
            t => panic!("const {:?} of {:?} near {}", t, ty, self.l_rest()),
        }
    }
    fn kstruct(&mut self) -> Vec<(Ty, K)> {
        let mut v = vec![];
        if self.eat(b'}') { return v; }
        loop {
            let t = self.ty();
            let k = self.konst(&t);
            v.push((t, k));
            if self.eat(b'}') { return v; }
            self.expect(b',');
        }
    }
    fn reg(&mut self, n: &'a str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn blk(&mut self, n: &'a str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(l)
    }
    fn val(&mut self, ty: &Ty) -> Opnd {
        if let Tok::Local(n) = self.t { self.bump(); return Opnd::Reg(self.reg(n)); }
        let k = self.konst(ty);
        self.mkc(ty.clone(), k)
    }
    fn mkc(&mut self, ty: Ty, k: K) -> Opnd {
        self.consts.push((ty, k));
        Opnd::C(self.consts.len() as u32 - 1)
    }
    fn tval(&mut self) -> (Ty, Opnd) { let t = self.ty(); let v = self.val(&t); (t, v) }
    fn label(&mut self) -> u32 {
        assert!(self.eatw("label"), "label expected near {}", self.l_rest());
        match self.bump() { Tok::Local(n) => self.blk(n), t => panic!("label {:?}", t) }
    }
    fn skip_line(&mut self) {
        let mut depth = 0i32;
        loop {
            match &self.t {
                Tok::NL if depth <= 0 => { self.bump(); return; }
                Tok::Eof => return,
                Tok::P(b'(') | Tok::P(b'[') => depth += 1,
                Tok::P(b')') | Tok::P(b']') => depth -= 1,
                _ => {}
            }
            self.bump();
        }
    }
    fn nls(&mut self) { while self.t == Tok::NL { self.bump(); } }

    pub fn func(&mut self, name: &str, module: usize, id: usize) -> Func {
        // header
        loop {
            if let Tok::Global(_) = self.t { self.bump(); break; }
            if self.is(b'(') { self.skip_parens(); continue; }
            self.bump();
        }
        self.expect(b'(');
        let mut nparams = 0;
        let mut unnamed = 0;
        if !self.eat(b')') {
            loop {
                if self.t == Tok::Dots { self.bump(); self.expect(b')'); break; }
                let _t = self.ty();
                self.attrs();
                match self.t {
                    Tok::Local(n) => {
                        self.bump();
                        if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                        let r = self.reg(n);
                        assert_eq!(r as usize, nparams);
                    }
                    _ => {
                        let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                        unnamed += 1;
                        self.reg(n);
                    }
                }
                nparams += 1;
                if self.eat(b')') { break; }
                self.expect(b',');
            }
        }
        // to '{' NL  (attributes may contain braces only in personality? no)
        loop {
            if self.is(b'{') { self.bump(); break; }
            self.bump();
        }
        self.nls();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let put = |blocks: &mut Vec<Option<Block>>, b: u32| {
            while blocks.len() <= b as usize { blocks.push(None); }
            blocks[b as usize] = Some(Block { phis: vec![], ins: vec![] });
        };
        loop {
            self.nls();
            if self.is(b'}') || self.t == Tok::Eof { break; }
            // label?
            let save_i = self.l.i;
            let save_t = self.t.clone();
            let lab = match &self.t {
                Tok::Word(w) | Tok::Num(w) | Tok::Str(w) => { let w = *w; if self.l.s.as_bytes().get(save_i) == Some(&b':') { Some(w) } else { None } }
                _ => None,
            };
            if let Some(w) = lab {
                self.bump();
                self.bump();
                let b = self.blk(w);
                put(&mut blocks, b);
                cur = Some(b);
                self.skip_line();
                continue;
            }
            let _ = save_t;
            if cur.is_none() {
                let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                let b = self.blk(n);
                assert_eq!(b, 0);
                put(&mut blocks, b);
                cur = Some(b);
            }
            if self.t == Tok::Attr { self.skip_line(); continue; } // debug records
            let b = cur.unwrap() as usize;
            self.instr(blocks[b].as_mut().unwrap());
        }
        let entry_ok = !blocks.is_empty();
        assert!(entry_ok);
        let nb = self.blocks.len();
        let mut out = vec![];
        for i in 0..nb.max(blocks.len()) {
            match blocks.get_mut(i).and_then(|x| x.take()) {
                Some(b) => out.push(b),
                None => out.push(Block { phis: vec![], ins: vec![I::Bad("missing block".into())] }),
            }
        }
        Func { name: name.to_string(), module, nparams, nregs: self.regs.len(), blocks: out, consts: std::mem::take(&mut self.consts), id }
    }

    fn instr(&mut self, b: &mut Block) {
        let mut d: Option<u32> = None;
        if let Tok::Local(n) = self.t {
            self.bump();
            self.expect(b'=');
            d = Some(self.reg(n));
        }
        let op = match self.bump() { Tok::Word(w) => w, t => panic!("instr {:?} near {}", t, self.l_rest()) };
        let flags = |p: &mut Parser| {
            while let Tok::Word(w) = p.t {
                if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw") { p.bump(); } else { break; }
            }
        };
        let bin = |p: &mut Parser<'a>, o: Bin| {
            flags(p);
            let ty = p.ty();
            let a = p.val(&ty);
            p.expect(b',');
            let c = p.val(&ty);
            I::Bin { d: d.unwrap(), op: o, ty, a, b: c }
        };
        let cast = |p: &mut Parser<'a>, o: Cast| {
            flags(p);
            let (from, a) = p.tval();
            assert!(p.eatw("to"));
            let to = p.ty();
            I::Cast { d: d.unwrap(), op: o, from, to, a }
        };
        let ins = match op {
            "add" => bin(self, Bin::Add), "sub" => bin(self, Bin::Sub), "mul" => bin(self, Bin::Mul),
            "udiv" => bin(self, Bin::UDiv), "sdiv" => bin(self, Bin::SDiv), "urem" => bin(self, Bin::URem), "srem" => bin(self, Bin::SRem),
            "shl" => bin(self, Bin::Shl), "lshr" => bin(self, Bin::LShr), "ashr" => bin(self, Bin::AShr),
            "and" => bin(self, Bin::And), "or" => bin(self, Bin::Or), "xor" => bin(self, Bin::Xor),
            "fadd" => bin(self, Bin::FAdd), "fsub" => bin(self, Bin::FSub), "fmul" => bin(self, Bin::FMul), "fdiv" => bin(self, Bin::FDiv), "frem" => bin(self, Bin::FRem),
            "trunc" => cast(self, Cast::Trunc), "zext" => cast(self, Cast::ZExt), "sext" => cast(self, Cast::SExt),
            "ptrtoint" | "ptrtoaddr" => cast(self, Cast::PtrToInt), "inttoptr" => cast(self, Cast::IntToPtr), "bitcast" | "addrspacecast" => cast(self, Cast::BitCast),
            "fptosi" => cast(self, Cast::FpToSi), "fptoui" => cast(self, Cast::FpToUi), "sitofp" => cast(self, Cast::SiToFp), "uitofp" => cast(self, Cast::UiToFp),
            "fpext" => cast(self, Cast::FpExt), "fptrunc" => cast(self, Cast::FpTrunc),
            "fneg" => { flags(self); let (ty, a) = self.tval(); I::FNeg { d: d.unwrap(), ty, a } }
            "freeze" => { let (_t, a) = self.tval(); I::Freeze { d: d.unwrap(), a } }
            "alloca" => {
                self.eatw("inalloca");
                let ty = self.ty();
                let mut n = None;
                let mut align = ty.align();
                while self.eat(b',') {
                    if self.eatw("align") { align = self.num() as u64; }
                    else if self.word("addrspace") { self.bump(); self.skip_parens(); }
                    else if self.t == Tok::Meta { break; }
                    else { let (_t, v) = self.tval(); n = Some(v); }
                }
                I::Alloca { d: d.unwrap(), size: ty.size(), align, n }
            }
            "load" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let ty = self.ty();
                self.expect(b',');
                let (_pt, p) = self.tval();
                I::Load { d: d.unwrap(), ty, p }
            }
            "store" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let (ty, v) = self.tval();
                self.expect(b',');
                let (_pt, p) = self.tval();
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                loop {
                    if self.word("inrange") { self.bump(); self.skip_parens(); continue; }
                    if self.word("inbounds") || self.word("nuw") || self.word("nusw") { self.bump(); continue; }
                    break;
                }
                let sty = self.ty();
                self.expect(b',');
                let (pt, base) = self.tval();
                if pt != Ty::Ptr {
                    self.skip_line();
                    b.ins.push(I::Bad("vector gep".into()));
                    return;
                }
                let mut off = 0i64;
                let mut dyn_ = vec![];
                let mut cur = sty.clone();
                let mut first = true;
                while self.is(b',') {
                    self.bump();
                    if self.t == Tok::Meta { break; }
                    let it = self.ty();
                    let iv = self.val(&it);
                    let scale = if first { sty.size() } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &iv { Opnd::C(c) => match &self.consts[*c as usize].1 { K::Int(v) => *v as usize, K::Zero => 0, k => panic!("gep struct idx {:?}", k) }, _ => panic!() };
                                off += cur.field_off(k) as i64;
                                cur = cur.elem(k);
                                continue;
                            }
                            _ => { let e = cur.elem(0); let s = e.size(); cur = e; s }
                        }
                    };
                    first = false;
                    match &iv {
                        Opnd::C(c) => {
                            match &self.consts[*c as usize].1 {
                                K::Int(v) => { let s = crate::expr::sext(*v, it.bits()) as i64; off = off.wrapping_add(s.wrapping_mul(scale as i64)); }
                                K::Zero | K::Undef => {}
                                _ => dyn_.push((iv, it.bits(), scale)),
                            }
                        }
                        _ => dyn_.push((iv, it.bits(), scale)),
                    }
                }
                I::Gep { d: d.unwrap(), base, off, dyn_ }
            }
            "icmp" => {
                flags(self);
                let p = match self.bump() { Tok::Word(w) => match w { "eq" => IPred::Eq, "ne" => IPred::Ne, "ugt" => IPred::Ugt, "uge" => IPred::Uge, "ult" => IPred::Ult, "ule" => IPred::Ule, "sgt" => IPred::Sgt, "sge" => IPred::Sge, "slt" => IPred::Slt, "sle" => IPred::Sle, _ => panic!("{}", w) }, _ => panic!() };
                let ty = self.ty();
                let a = self.val(&ty);
                self.expect(b',');
                let c = self.val(&ty);
                I::ICmp { d: d.unwrap(), p, ty, a, b: c }
            }
            "fcmp" => {
                flags(self);
                let p = match self.bump() { Tok::Word(w) => match w { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, _ => panic!("{}", w) }, _ => panic!() };
                let ty = self.ty();
                let a = self.val(&ty);
                self.expect(b',');
                let c = self.val(&ty);
                I::FCmp { d: d.unwrap(), p, ty, a, b: c }
            }
            "select" => {
                flags(self);
                let (cty, c) = self.tval();
                self.expect(b',');
                let (ty, a) = self.tval();
                self.expect(b',');
                let (_t, f) = self.tval();
                I::Select { d: d.unwrap(), cty, c, ty, a, b: f }
            }
            "phi" => {
                flags(self);
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.expect(b'[');
                    let v = self.val(&ty);
                    self.expect(b',');
                    let l = match self.bump() { Tok::Local(n) => self.blk(n), t => panic!("{:?}", t) };
                    self.expect(b']');
                    inc.push((l, v));
                    if self.is(b',') { self.bump(); if self.t == Tok::Meta { break; } } else { break; }
                }
                self.skip_line();
                b.phis.push(Phi { d: d.unwrap(), ty, inc });
                return;
            }
            "extractvalue" => {
                let (_t, a) = self.tval();
                let mut idx = vec![];
                while self.eat(b',') { if self.t == Tok::Meta { break; } idx.push(self.num() as u32); }
                I::ExtractV { d: d.unwrap(), a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tval();
                self.expect(b',');
                let (_t, v) = self.tval();
                let mut idx = vec![];
                while self.eat(b',') { if self.t == Tok::Meta { break; } idx.push(self.num() as u32); }
                I::InsertV { d: d.unwrap(), ty, a, v, idx }
            }
            "extractelement" => {
                let (_t, a) = self.tval();
                self.expect(b',');
                let (_t, i) = self.tval();
                I::ExtractE { d: d.unwrap(), a, i }
            }
            "insertelement" => {
                let (_t, a) = self.tval();
                self.expect(b',');
                let (_t, v) = self.tval();
                self.expect(b',');
                let (_t, i) = self.tval();
                I::InsertE { d: d.unwrap(), a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.tval();
                self.expect(b',');
                let (_t, c) = self.tval();
                self.expect(b',');
                let mt = self.ty();
                let k = self.konst(&mt);
                let n = mt.count();
                let m: Vec<i32> = match k {
                    K::Zero => vec![0; n],
                    K::Undef => vec![-1; n],
                    K::Agg(v) => v.iter().map(|(_, k)| match k { K::Int(x) => *x as i32, K::Zero => 0, _ => -1 }).collect(),
                    K::Splat(b) => vec![match b.1 { K::Int(x) => x as i32, _ => 0 }; n],
                    k => panic!("shuffle mask {:?}", k),
                };
                I::Shuffle { d: d.unwrap(), a, b: c, n: t.count(), m }
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let o = match self.bump() { Tok::Word(w) => w.to_string(), t => panic!("{:?}", t) };
                let (_pt, p) = self.tval();
                self.expect(b',');
                let (ty, v) = self.tval();
                I::Rmw { d: d.unwrap(), op: o, ty, p, v }
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let (_pt, p) = self.tval();
                self.expect(b',');
                let (ty, c) = self.tval();
                self.expect(b',');
                let (_t, n) = self.tval();
                I::CmpXchg { d: d.unwrap(), ty, p, c, n }
            }
            "fence" => I::Fence,
            "br" => {
                if self.word("label") { let l = self.label(); I::Br(l) } else {
                    let (_t, c) = self.tval();
                    self.expect(b',');
                    let t = self.label();
                    self.expect(b',');
                    let f = self.label();
                    I::CBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tval();
                self.expect(b',');
                let dl = self.label();
                self.expect(b'[');
                let mut cases = vec![];
                loop {
                    self.nls();
                    if self.eat(b']') { break; }
                    let t = self.ty();
                    let k = match self.konst(&t) { K::Int(v) => v, K::Zero => 0, k => panic!("{:?}", k) };
                    self.expect(b',');
                    let l = self.label();
                    cases.push((k & crate::expr::mask(ty.bits()), l));
                }
                I::Switch { ty, v, d: dl, cases }
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void { I::Ret(None) } else { let v = self.val(&t); I::Ret(Some((t, v))) }
            }
            "unreachable" => I::Unreachable,
            "landingpad" => {
                self.skip_line();
                while self.word("cleanup") || self.word("catch") || self.word("filter") { self.skip_line(); }
                b.ins.push(I::LandingPad);
                return;
            }
            "resume" | "cleanupret" | "catchret" => I::Bad("resume".into()),
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { self.bump(); }
                let mut bad_asm = None;
                // flags, cconv, attrs until a type
                loop {
                    match &self.t {
                        Tok::Word(w) => {
                            let w = *w;
                            let isty = w == "void" || w == "ptr" || w == "double" || w == "float" || w == "metadata" || w == "token" || w == "half" || w == "fp128" || w == "x86_fp80" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                            if isty { break; }
                            self.bump();
                            if w == "align" && !self.is(b'(') { self.bump(); continue; }
                            if w == "cc" { self.bump(); continue; }
                            if self.is(b'(') { self.skip_parens(); }
                        }
                        Tok::Attr => { self.bump(); }
                        Tok::Str(_) => { self.bump(); if self.eat(b'=') { self.bump(); } }
                        _ => break,
                    }
                }
                let rty = self.ty();
                // function type?
                if self.is(b'(') { self.skip_parens(); }
                let f = match self.t.clone() {
                    Tok::Global(g) => { self.bump(); Callee::Name(g.to_string()) }
                    Tok::Local(n) => { self.bump(); Callee::Ind(Opnd::Reg(self.reg(n))) }
                    Tok::Word("asm") => {
                        self.bump();
                        let mut s = String::new();
                        loop {
                            match self.t.clone() {
                                Tok::Str(x) => { if s.is_empty() { s = format!("asm:{}", x); } self.bump(); }
                                Tok::P(b'(') => break,
                                _ => { self.bump(); }
                            }
                        }
                        bad_asm = Some(());
                        Callee::Asm(s)
                    }
                    _ => { let k = self.konst(&Ty::Ptr); let o = self.mkc(Ty::Ptr, k); Callee::Ind(o) }
                };
                let _ = bad_asm;
                self.expect(b'(');
                let mut args = vec![];
                if !self.eat(b')') {
                    loop {
                        if self.word("metadata") {
                            // skip to , or )
                            let mut dep = 0;
                            loop {
                                match &self.t {
                                    Tok::P(b'(') | Tok::P(b'{') => dep += 1,
                                    Tok::P(b')') if dep == 0 => break,
                                    Tok::P(b',') if dep == 0 => break,
                                    Tok::P(b')') | Tok::P(b'}') => dep -= 1,
                                    _ => {}
                                }
                                self.bump();
                            }
                        } else {
                            let t = self.ty();
                            self.attrs();
                            let v = self.val(&t);
                            args.push((t, v));
                        }
                        if self.eat(b')') { break; }
                        self.expect(b',');
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    // attrs, bundles, then 'to label'
                    loop {
                        if self.eatw("to") { break; }
                        self.bump();
                    }
                    normal = Some(self.label());
                }
                I::Call { d, rty, f, args, normal }
            }
            o => I::Bad(o.to_string()),
        };
        self.skip_line();
        b.ins.push(ins);
    }
}

pub fn parse_int(s: &str) -> u128 {
    if let Some(h) = s.strip_prefix("u0x") { return u128::from_str_radix(h, 16).unwrap(); }
    if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap_or(0)).wrapping_neg() } else { s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s)) }
}
pub fn parse_num(s: &str, ty: &Ty) -> u128 {
    match ty {
        Ty::F64 | Ty::F32 => {
            let is64 = *ty == Ty::F64;
            if let Some(h) = s.strip_prefix("f0x") { return u128::from_str_radix(h, 16).unwrap(); }
            if let Some(h) = s.strip_prefix("0x") {
                let bits = u64::from_str_radix(h, 16).unwrap();
                return if is64 { bits as u128 } else { (f64::from_bits(bits) as f32).to_bits() as u128 };
            }
            let v: f64 = match s {
                "+inf" => f64::INFINITY,
                "-inf" => f64::NEG_INFINITY,
                "+qnan" | "+nan" => f64::NAN,
                "-qnan" | "-nan" => -f64::NAN,
                _ => s.parse().unwrap_or_else(|_| panic!("float {}", s)),
            };
            if is64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 }
        }
        _ => parse_int(s) & crate::expr::mask(ty.bits()),
    }
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else { o.push(b[i]); i += 1; }
    }
    o
}
