//! Reader for textual LLVM IR as emitted by rustc (LLVM 23 syntax), lowering functions lazily
//! to a compact register form.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { I(u64), S(E), W(u128), Agg(Rc<Vec<V>>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Other }

impl Ty {
    pub fn scalar_w(&self) -> Option<u16> { match self { Ty::Int(w) => Some(*w), Ty::Ptr | Ty::F64 => Some(64), Ty::F32 => Some(32), _ => None } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0, Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.scalar_w().unwrap() as u64 + 7) / 8,
            Ty::Struct(f, packed) => { let mut o = 0; for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } if !packed { let a = self.align(); o = (o + a - 1) / a * a; } o }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Arr(_, t) => t.align(), Ty::Vec(..) => self.size().max(1),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }, _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, packed) => { let mut o = 0; for (j, t) in f.iter().enumerate() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } if j as u64 == i { return o; } o += t.size(); } panic!("field") }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(), _ => panic!("field_off"),
        }
    }
    pub fn field(&self, i: u64) -> Ty { match self { Ty::Struct(f, _) => f[i as usize].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("field") } }
    pub fn nfields(&self) -> u64 { match self { Ty::Struct(f, _) => f.len() as u64, Ty::Arr(n, _) | Ty::Vec(n, _) => *n, _ => 0 } }
    pub fn zero(&self) -> V {
        match self { Ty::Int(w) if *w > 64 => V::W(0), Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => V::Agg(Rc::new((0..self.nfields()).map(|i| self.field(i).zero()).collect())), _ => V::I(0) }
    }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Debug)]
pub enum Callee { Fn(u32), Ind(Opd), Asm }

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u16, n: u32, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u16, n: u32, d: u32, a: Opd, b: Opd },
    FBin { op: Op, w: u16, d: u32, a: Opd, b: Opd },
    FCmp { p: &'static str, w: u16, d: u32, a: Opd, b: Opd },
    FNeg { w: u16, d: u32, a: Opd },
    Cast { op: Cast, st: Ty, dt: Ty, d: u32, a: Opd },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u16, u64)> },
    Alloca { d: u32, size: u64 },
    Select { d: u32, ty: Ty, c: Opd, a: Opd, b: Opd, vc: bool },
    Call { d: Option<u32>, ty: Ty, callee: Callee, args: Vec<Opd>, argw: Vec<u16> },
    ExtractV { d: u32, a: Opd, idx: Vec<u32> },
    InsertV { d: u32, a: Opd, v: Opd, idx: Vec<u32> },
    InsertE { d: u32, a: Opd, v: Opd, i: Opd },
    ExtractE { d: u32, a: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, m: Opd },
    Rmw { op: String, w: u16, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u16, d: u32, p: Opd, c: Opd, n: Opd },
    Mov { d: u32, a: Opd },
}
#[derive(Debug)]
pub enum Term { Br(u32), CBr(Opd, u32, u32), Switch(u16, Opd, u32, Vec<(u64, u32)>), Ret(Option<Opd>), Unreachable, Resume }

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub insts: Vec<Inst>, pub term: Term }
pub struct Func { pub id: u32, pub nregs: u32, pub nargs: u32, pub blocks: Vec<Block> }

pub struct FuncSym { pub name: &'static str, pub def: Option<(usize, usize)>, pub parsed: Option<Rc<Func>> }
pub struct GlobSym { pub name: &'static str, pub text: &'static str, pub tls: bool, pub weak_ext: bool, pub constant: bool }

#[derive(Clone, Copy)]
pub enum Sym { F(u32), G(u32) }

pub struct Module { pub text: &'static str, pub funcs: Vec<FuncSym>, pub globs: Vec<GlobSym>, pub syms: HashMap<&'static str, Sym> }

pub const FN_BASE: u64 = 0x7ff0_0000_0000_0000;
pub const FIRST_GLOBAL_OBJ: u64 = 16;

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("cannot read {}: {}", path, e))).into_boxed_str());
        let mut m = Module { text, funcs: vec![], globs: vec![], syms: HashMap::new() };
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let end = memchr(b, b'\n', pos);
            let line = &text[pos..end];
            if line.starts_with('@') {
                let (name, rest) = gname(line);
                let eq = rest.find('=').unwrap();
                let rest = &rest[eq + 1..];
                let tls = rest.contains(" thread_local");
                let weak = rest.trim_start().starts_with("extern_weak") || rest.trim_start().starts_with("external");
                let id = m.globs.len() as u32;
                let (kpos, constant) = find_kw(rest);
                m.globs.push(GlobSym { name, text: &rest[kpos..], tls, weak_ext: weak, constant });
                m.syms.insert(name, Sym::G(id));
                pos = end + 1;
            } else if line.starts_with("define") || line.starts_with("declare") {
                let at = line.find('@').unwrap();
                let (name, _) = gname(&line[at..]);
                let id = m.funcs.len() as u32;
                if line.starts_with("define") {
                    // body ends at "\n}\n"
                    let mut q = end;
                    loop { let e = memchr(b, b'\n', q + 1); if e - (q + 1) == 1 && b[q + 1] == b'}' { q = e; break; } q = e; if q >= b.len() { die("unterminated function"); } }
                    m.funcs.push(FuncSym { name, def: Some((pos, q)), parsed: None });
                    pos = q + 1;
                } else { m.funcs.push(FuncSym { name, def: None, parsed: None }); pos = end + 1; }
                m.syms.insert(name, Sym::F(id));
            } else { pos = end + 1; }
        }
        m
    }
    pub fn sym_addr(&mut self, name: &'static str) -> u64 {
        match self.syms.get(name) {
            Some(Sym::F(i)) => FN_BASE + (*i as u64) * 16,
            Some(Sym::G(i)) => { if self.globs[*i as usize].weak_ext { 0 } else { (FIRST_GLOBAL_OBJ + *i as u64) << 32 } }
            None => die(&format!("unknown symbol {}", name)),
        }
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].parsed { return f.clone(); }
        let (s, e) = self.funcs[id as usize].def.unwrap_or_else(|| die(&format!("call of undefined external function {}", self.funcs[id as usize].name)));
        let text = &self.text[s..e];
        let f = Rc::new(parse_func(self, id, text));
        self.funcs[id as usize].parsed = Some(f.clone());
        f
    }
    /// Initial bytes of a global.
    pub fn global_init(&mut self, id: u32) -> Vec<u8> {
        let t = self.globs[id as usize].text;
        let mut lx = Lex { s: t, p: 0 };
        lx.next(); // global / constant
        let ty = parse_ty(&mut lx);
        let mut p = FnParser { m: self, regs: HashMap::new(), nregs: 0, bbs: HashMap::new() };
        let v = p.value(&mut lx, &ty);
        let v = match v { Opd::K(v) => v, _ => unreachable!() };
        let mut out = vec![0u8; ty.size() as usize];
        flatten(&ty, &v, &mut out, 0);
        out
    }
}
fn flatten(ty: &Ty, v: &V, out: &mut [u8], off: usize) {
    match v {
        V::I(x) => { let n = ((ty.scalar_w().unwrap() as usize) + 7) / 8; for i in 0..n { out[off + i] = (x >> (8 * i)) as u8; } }
        V::W(x) => { let n = ((ty.scalar_w().unwrap() as usize) + 7) / 8; for i in 0..n { out[off + i] = (x >> (8 * i)) as u8; } }
        V::Agg(a) => { if let (Ty::Arr(_, t), true) = (ty, true) { if **t == Ty::Int(8) { for (i, x) in a.iter().enumerate() { if let V::I(b) = x { out[off + i] = *b as u8; } } return; } }
            for (i, x) in a.iter().enumerate() { let ft = ty.field(i as u64); flatten(&ft, x, out, off + ty.field_off(i as u64) as usize); } }
        V::S(_) => unreachable!(),
    }
}
fn memchr(b: &[u8], c: u8, from: usize) -> usize { let mut i = from; while i < b.len() && b[i] != c { i += 1; } i }
fn gname(s: &'static str) -> (&'static str, &'static str) {
    let b = s.as_bytes();
    if b[1] == b'"' { let e = memchr(b, b'"', 2); (&s[2..e], &s[e + 1..]) } else { let mut e = 1; while e < b.len() && is_name(b[e]) { e += 1; } (&s[1..e], &s[e..]) }
}
fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
fn find_kw(s: &str) -> (usize, bool) {
    let mut best = None;
    for (kw, c) in [(" global ", false), (" constant ", true)] { if let Some(p) = s.find(kw) { if best.map_or(true, |(q, _)| p < q) { best = Some((p, c)); } } }
    match best { Some((p, c)) => (p + 1, c), None => (0, false) }
}
pub fn die(s: &str) -> ! { eprintln!("ENGINE-ERROR: {}", s); std::process::exit(73) }

// ---- lexer ---------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T { Word(&'static str), Local(&'static str), Global(&'static str), Num(&'static str), CStr(&'static str), Str(&'static str), P(u8), Meta, Attr, Nl, Eof }
pub struct Lex { s: &'static str, p: usize }
impl Lex {
    fn peek(&self) -> T { let mut c = Lex { s: self.s, p: self.p }; c.next() }
    fn next(&mut self) -> T {
        let b = self.s.as_bytes();
        while self.p < b.len() && (b[self.p] == b' ' || b[self.p] == b'\t' || b[self.p] == b'\r') { self.p += 1; }
        if self.p >= b.len() { return T::Eof; }
        let st = self.p;
        let c = b[st];
        match c {
            b'\n' => { self.p += 1; T::Nl }
            b';' => { self.p = memchr(b, b'\n', self.p); self.next() }
            b'%' | b'@' => {
                if b[st + 1] == b'"' { let e = memchr(b, b'"', st + 2); self.p = e + 1; let n = &self.s[st + 2..e]; return if c == b'%' { T::Local(n) } else { T::Global(n) }; }
                let mut e = st + 1; while e < b.len() && is_name(b[e]) { e += 1; } self.p = e;
                let n = &self.s[st + 1..e]; if c == b'%' { T::Local(n) } else { T::Global(n) }
            }
            b'"' => { let e = memchr(b, b'"', st + 1); self.p = e + 1; T::Str(&self.s[st + 1..e]) }
            b'c' if b.get(st + 1) == Some(&b'"') => { let e = memchr(b, b'"', st + 2); self.p = e + 1; T::CStr(&self.s[st + 2..e]) }
            b'!' => { let mut e = st + 1; while e < b.len() && is_name(b[e]) { e += 1; } self.p = e; T::Meta }
            b'#' => { let mut e = st + 1; while e < b.len() && is_name(b[e]) { e += 1; } self.p = e; T::Attr }
            b'0'..=b'9' | b'-' | b'+' => { let mut e = st + 1; while e < b.len() && (is_name(b[e]) || b[e] == b'+') { e += 1; } self.p = e; T::Num(&self.s[st..e]) }
            _ if is_name(c) => { let mut e = st + 1; while e < b.len() && is_name(b[e]) { e += 1; } self.p = e;
                let w = &self.s[st..e]; if w.starts_with("f0x") { T::Num(w) } else { T::Word(w) } }
            _ => { self.p += 1; T::P(c) }
        }
    }
    fn accept(&mut self, t: T) -> bool { if self.peek() == t { self.next(); true } else { false } }
    fn expect(&mut self, t: T) { let n = self.next(); if n != t { let a = self.p.saturating_sub(80); die(&format!("parse: expected {:?} got {:?} near `{}`", t, n, &self.s[a..(self.p + 60).min(self.s.len())])); } }
    fn skip_parens(&mut self) { // at '('
        self.expect(T::P(b'('));
        let mut d = 1;
        while d > 0 { match self.next() { T::P(b'(') => d += 1, T::P(b')') => d -= 1, T::Eof => die("parens"), _ => {} } }
    }
    fn to_nl(&mut self) { let b = self.s.as_bytes(); self.p = memchr(b, b'\n', self.p); if self.p < b.len() { self.p += 1; } }
    fn word(&mut self) -> &'static str { match self.next() { T::Word(w) => w, t => { let a = self.p.saturating_sub(80); die(&format!("parse: word expected, got {:?} near {}", t, &self.s[a..(self.p + 40).min(self.s.len())])) } } }
    fn int(&mut self) -> u64 { match self.next() { T::Num(n) => n.parse::<u64>().unwrap(), t => die(&format!("int expected got {:?}", t)) } }
}

fn parse_ty(lx: &mut Lex) -> Ty {
    match lx.next() {
        T::Word(w) => match w {
            "void" => Ty::Void, "ptr" => { if lx.peek() == T::Word("addrspace") { lx.next(); lx.skip_parens(); } Ty::Ptr }
            "float" => Ty::F32, "double" => Ty::F64, "metadata" | "token" | "label" | "x86_fp80" | "half" | "bfloat" | "fp128" => Ty::Other,
            _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
            _ => { let a = lx.p.saturating_sub(100); die(&format!("type? {} near {}", w, &lx.s[a..(lx.p + 40).min(lx.s.len())])) }
        },
        T::P(b'[') => { let n = lx.int(); lx.expect(T::Word("x")); let t = parse_ty(lx); lx.expect(T::P(b']')); Ty::Arr(n, Rc::new(t)) }
        T::P(b'{') => { let mut f = vec![]; if !lx.accept(T::P(b'}')) { loop { f.push(parse_ty(lx)); if lx.accept(T::P(b'}')) { break; } lx.expect(T::P(b',')); } } Ty::Struct(Rc::new(f), false) }
        T::P(b'<') => {
            if lx.accept(T::P(b'{')) { let mut f = vec![]; if !lx.accept(T::P(b'}')) { loop { f.push(parse_ty(lx)); if lx.accept(T::P(b'}')) { break; } lx.expect(T::P(b',')); } } lx.expect(T::P(b'>')); Ty::Struct(Rc::new(f), true) }
            else { let n = lx.int(); lx.expect(T::Word("x")); let t = parse_ty(lx); lx.expect(T::P(b'>')); Ty::Vec(n, Rc::new(t)) }
        }
        t => { let a = lx.p.saturating_sub(100); die(&format!("type? {:?} near {}", t, &lx.s[a..(lx.p + 40).min(lx.s.len())])) }
    }
}
fn is_type_start(t: T) -> bool {
    match t { T::Word(w) => matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "token" | "label") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())), T::P(b'[') | T::P(b'{') | T::P(b'<') => true, _ => false }
}
const VALUE_WORDS: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "sub", "add", "mul", "xor", "and", "or", "shl", "lshr", "none", "splat", "asm"];

struct FnParser<'a> { m: &'a mut Module, regs: HashMap<&'static str, u32>, nregs: u32, bbs: HashMap<&'static str, u32> }

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'\\' { let h = |c: u8| (c as char).to_digit(16).unwrap() as u8; if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(h(b[i + 1]) * 16 + h(b[i + 2])); i += 3; } } else { o.push(b[i]); i += 1; } }
    o
}
pub fn norm(w: u16, v: u128) -> V { if w <= 64 { V::I((v & mask(w)) as u64) } else { V::W(v & mask(w)) } }

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &'static str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.nregs; self.nregs += 1; self.regs.insert(n, r); r }
    fn bb(&mut self, n: &'static str) -> u32 { let k = self.bbs.len() as u32; *self.bbs.entry(n).or_insert(k) }
    fn skip_attrs(&mut self, lx: &mut Lex) {
        loop {
            match lx.peek() {
                T::Word(w) if !VALUE_WORDS.contains(&w) => {
                    lx.next();
                    if w == "align" { if let T::Num(_) = lx.peek() { lx.next(); continue; } }
                    if lx.peek() == T::P(b'(') { lx.skip_parens(); }
                }
                T::Str(_) => { lx.next(); if lx.accept(T::P(b'=')) { lx.next(); } }
                T::Attr => { lx.next(); }
                _ => break,
            }
        }
    }
    fn ty_value(&mut self, lx: &mut Lex) -> (Ty, Opd) { let t = parse_ty(lx); self.skip_attrs(lx); let v = self.value(lx, &t); (t, v) }
    fn kval(&mut self, lx: &mut Lex) -> (Ty, V) { let (t, v) = self.ty_value(lx); match v { Opd::K(v) => (t, v), _ => die("constant expected") } }
    fn value(&mut self, lx: &mut Lex, ty: &Ty) -> Opd {
        match lx.next() {
            T::Local(n) => Opd::R(self.reg(n)),
            T::Global(n) => Opd::K(V::I(self.m.sym_addr(n))),
            T::Num(n) => {
                match ty {
                    Ty::Int(w) => { let v: i128 = match n.strip_prefix('-') { Some(r) => (r.parse::<u128>().unwrap() as i128).wrapping_neg(), None => n.parse::<u128>().unwrap_or_else(|_| die(n)) as i128 }; Opd::K(norm(*w, v as u128)) }
                    Ty::F32 | Ty::F64 => {
                        let f32t = *ty == Ty::F32;
                        let hex = n.strip_prefix("f0x").or_else(|| n.strip_prefix("0x"));
                        let v = if let Some(h) = hex {
                            let bits = u64::from_str_radix(h, 16).unwrap_or_else(|_| die(n));
                            if h.len() <= 8 && n.starts_with('f') { if f32t { bits } else { die("f32 bits in double") } }
                            else if f32t { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits }
                        } else { let f: f64 = match n { "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, _ => n.parse().unwrap_or_else(|_| die(&format!("float {}", n))) }; if f32t { (f as f32).to_bits() as u64 } else { f.to_bits() } };
                        Opd::K(V::I(v))
                    }
                    _ => die(&format!("number for type {:?}", ty)),
                }
            }
            T::Word(w) => match w {
                "true" => Opd::K(V::I(1)), "false" | "null" => Opd::K(V::I(0)),
                "undef" | "poison" | "zeroinitializer" | "none" => Opd::K(ty.zero()),
                "splat" => { lx.expect(T::P(b'(')); let (_, v) = self.kval(lx); lx.expect(T::P(b')')); Opd::K(V::Agg(Rc::new(vec![v; ty.nfields() as usize]))) }
                "getelementptr" => {
                    while let T::Word(_) = lx.peek() { lx.next(); if lx.peek() == T::P(b'(') && lx.s.as_bytes()[lx.p - 1] == b'e' { /* inrange( */ lx.skip_parens(); } }
                    lx.expect(T::P(b'('));
                    let t = parse_ty(lx); lx.expect(T::P(b','));
                    let (_, base) = self.kval(lx);
                    let mut a = match base { V::I(x) => x, _ => die("gep base") };
                    let mut cur = t; let mut first = true;
                    while lx.accept(T::P(b',')) {
                        let (it, iv) = self.kval(lx);
                        let i = match iv { V::I(x) => sext64(x, it.scalar_w().unwrap()), _ => die("gep idx") };
                        if first { a = a.wrapping_add((i as u64).wrapping_mul(cur.size())); first = false; }
                        else { a = a.wrapping_add(match &cur { Ty::Struct(..) => cur.field_off(i as u64), _ => (i as u64).wrapping_mul(cur.field(0).size()) }); cur = match &cur { Ty::Struct(..) => cur.field(i as u64), _ => cur.field(0) }; }
                    }
                    lx.expect(T::P(b')'));
                    Opd::K(V::I(a))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => { lx.expect(T::P(b'(')); let (_, v) = self.kval(lx); lx.expect(T::Word("to")); let t = parse_ty(lx); lx.expect(T::P(b')')); match (v, t.scalar_w()) { (V::I(x), Some(w)) => Opd::K(norm(w, x as u128)), (v, _) => Opd::K(v) } }
                "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while let T::Word(_) = lx.peek() { lx.next(); }
                    lx.expect(T::P(b'(')); let (t, a) = self.kval(lx); lx.expect(T::P(b',')); let (_, b) = self.kval(lx); lx.expect(T::P(b')'));
                    match (a, b) { (V::I(x), V::I(y)) => Opd::K(norm(t.scalar_w().unwrap(), match w { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), "mul" => x.wrapping_mul(y), "xor" => x ^ y, "and" => x & y, "or" => x | y, "shl" => x.wrapping_shl(y as u32), _ => x.wrapping_shr(y as u32) } as u128)), _ => die("const expr") }
                }
                _ => { let a = lx.p.saturating_sub(100); die(&format!("value word {} near {}", w, &lx.s[a..(lx.p + 40).min(lx.s.len())])) }
            },
            T::CStr(s) => { let v = unesc(s); Opd::K(V::Agg(Rc::new(v.into_iter().map(|b| V::I(b as u64)).collect()))) }
            T::P(b'{') => { let mut f = vec![]; if !lx.accept(T::P(b'}')) { loop { f.push(self.ty_value(lx).1); if lx.accept(T::P(b'}')) { break; } lx.expect(T::P(b',')); } } self.agg(f) }
            T::P(b'[') => { let mut f = vec![]; if !lx.accept(T::P(b']')) { loop { f.push(self.ty_value(lx).1); if lx.accept(T::P(b']')) { break; } lx.expect(T::P(b',')); } } self.agg(f) }
            T::P(b'<') => {
                let mut f = vec![];
                if lx.accept(T::P(b'{')) { if !lx.accept(T::P(b'}')) { loop { f.push(self.ty_value(lx).1); if lx.accept(T::P(b'}')) { break; } lx.expect(T::P(b',')); } } lx.expect(T::P(b'>')); }
                else { loop { f.push(self.ty_value(lx).1); if lx.accept(T::P(b'>')) { break; } lx.expect(T::P(b',')); } }
                self.agg(f)
            }
            t => { let a = lx.p.saturating_sub(120); die(&format!("value? {:?} near {}", t, &lx.s[a..(lx.p + 60).min(lx.s.len())])) }
        }
    }
    fn agg(&mut self, f: Vec<Opd>) -> Opd { Opd::K(V::Agg(Rc::new(f.into_iter().map(|o| match o { Opd::K(v) => v, _ => die("non-constant aggregate") }).collect()))) }
}
pub fn sext64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn parse_func(m: &mut Module, id: u32, text: &'static str) -> Func {
    let mut lx = Lex { s: text, p: 0 };
    let mut fp = FnParser { m, regs: HashMap::new(), nregs: 0, bbs: HashMap::new() };
    // header: find '@name(' then params
    loop { match lx.next() { T::Global(_) => break, T::Eof | T::Nl => die("define"), _ => {} } }
    lx.expect(T::P(b'('));
    let mut nargs = 0u32;
    if !lx.accept(T::P(b')')) {
        loop {
            if lx.peek() == T::P(b'.') || lx.peek() == T::Word("...") { die("varargs definition"); }
            let _t = parse_ty(&mut lx); fp.skip_attrs(&mut lx);
            match lx.next() { T::Local(n) => { let r = fp.reg(n); assert!(r == nargs); nargs += 1; } t => die(&format!("param {:?}", t)) }
            if lx.accept(T::P(b')')) { break; }
            lx.expect(T::P(b','));
        }
    }
    lx.to_nl();
    // entry block label: either explicit or the next number
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<(u32, Vec<(u32, Vec<(u32, Opd)>)>, Vec<Inst>)> = None;
    let put = |blocks: &mut Vec<Option<Block>>, i: u32, b: Block| { while blocks.len() <= i as usize { blocks.push(None); } blocks[i as usize] = Some(b); };
    let entry_name: &'static str = Box::leak(format!("{}", nargs).into_boxed_str());
    let mut first = true;
    loop {
        // skip blank
        while lx.peek() == T::Nl { lx.next(); }
        let b = text.as_bytes();
        let st = { let mut p = lx.p; while p < b.len() && (b[p] == b' ') { p += 1; } p };
        if st >= b.len() || b[st] == b'}' { break; }
        if b[st] == b'#' { lx.to_nl(); continue; }
        if b[st] == b';' { lx.to_nl(); continue; }
        let at_col0 = st == lx.p;
        if at_col0 {
            // label
            let (name, e) = if b[st] == b'"' { let e = memchr(b, b'"', st + 1); (&text[st + 1..e], e + 1) } else { let mut e = st; while is_name(b[e]) { e += 1; } (&text[st..e], e) };
            if b[e] != b':' { die(&format!("label expected: {}", &text[st..(st + 60).min(text.len())])); }
            let i = fp.bb(name); first = false;
            cur = Some((i, vec![], vec![]));
            lx.p = e + 1; lx.to_nl();
            continue;
        }
        if first { let i = fp.bb(entry_name); cur = Some((i, vec![], vec![])); first = false; }
        let c = match cur.as_mut() { Some(c) => c, None => { die(&format!("instruction outside block: {}", &text[st..(st + 80).min(text.len())])) } };
        // instruction
        let mut dst: Option<u32> = None;
        if let T::Local(n) = lx.peek() { lx.next(); lx.expect(T::P(b'=')); dst = Some(fp.reg(n)); }
        let mut w = lx.word();
        if matches!(w, "tail" | "musttail" | "notail") { w = lx.word(); }
        let d = dst.unwrap_or(u32::MAX);
        let mut term: Option<Term> = None;
        match w {
            "phi" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); }
                let t = parse_ty(&mut lx);
                let mut inc = vec![];
                loop { lx.expect(T::P(b'[')); let v = fp.value(&mut lx, &t); lx.expect(T::P(b',')); let n = match lx.next() { T::Local(n) => n, _ => die("phi") }; lx.expect(T::P(b']')); let bi = fp.bb(n); inc.push((bi, v)); if !lx.accept(T::P(b',')) { break; } if lx.peek() == T::Meta { break; } }
                c.1.push((d, inc));
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); }
                let t = parse_ty(&mut lx); let a = fp.value(&mut lx, &t); lx.expect(T::P(b',')); let b2 = fp.value(&mut lx, &t);
                let op = match w { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                let (w, n) = match &t { Ty::Vec(n, e) => (e.scalar_w().unwrap(), *n as u32), _ => (t.scalar_w().unwrap(), 0) };
                c.2.push(Inst::Bin { op, w, n, d, a, b: b2 });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); }
                let t = parse_ty(&mut lx); let a = fp.value(&mut lx, &t); lx.expect(T::P(b',')); let b2 = fp.value(&mut lx, &t);
                let op = match w { "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "frem" => Op::FRem, _ => Op::FDiv };
                c.2.push(Inst::FBin { op, w: t.scalar_w().unwrap(), d, a, b: b2 });
            }
            "fneg" => { while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); } let t = parse_ty(&mut lx); let a = fp.value(&mut lx, &t); c.2.push(Inst::FNeg { w: t.scalar_w().unwrap(), d, a }); }
            "icmp" => {
                let mut p = lx.word(); if p == "samesign" { p = lx.word(); }
                let t = parse_ty(&mut lx); let a = fp.value(&mut lx, &t); lx.expect(T::P(b',')); let b2 = fp.value(&mut lx, &t);
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => die(p) };
                let (w, n) = match &t { Ty::Vec(n, e) => (e.scalar_w().unwrap(), *n as u32), _ => (t.scalar_w().unwrap(), 0) };
                c.2.push(Inst::ICmp { p, w, n, d, a, b: b2 });
            }
            "fcmp" => {
                let mut p = lx.word();
                while !matches!(p, "oeq" | "ogt" | "oge" | "olt" | "ole" | "one" | "ord" | "ueq" | "ugt" | "uge" | "ult" | "ule" | "une" | "uno" | "true" | "false") { p = lx.word(); }
                let t = parse_ty(&mut lx); let a = fp.value(&mut lx, &t); lx.expect(T::P(b',')); let b2 = fp.value(&mut lx, &t);
                c.2.push(Inst::FCmp { p, w: t.scalar_w().unwrap(), d, a, b: b2 });
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); }
                let st = parse_ty(&mut lx); let a = fp.value(&mut lx, &st); lx.expect(T::Word("to")); let dt = parse_ty(&mut lx);
                let op = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc,
                    "bitcast" => Cast::Bit, _ => { let (s, e) = (st.scalar_w().unwrap(), dt.scalar_w().unwrap()); if s > e { Cast::Trunc } else if s < e { Cast::ZExt } else { Cast::Bit } } };
                c.2.push(Inst::Cast { op, st, dt, d, a });
            }
            "load" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); }
                let t = parse_ty(&mut lx); lx.expect(T::P(b',')); let (_, p) = fp.ty_value(&mut lx);
                c.2.push(Inst::Load { d, ty: t, p });
            }
            "store" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); }
                let (t, v) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, p) = fp.ty_value(&mut lx);
                c.2.push(Inst::Store { ty: t, v, p });
            }
            "getelementptr" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); if lx.peek() == T::P(b'(') { lx.skip_parens(); } }
                let t = parse_ty(&mut lx); lx.expect(T::P(b','));
                let (_, base) = fp.ty_value(&mut lx);
                let mut off = 0i64; let mut idx = vec![]; let mut curt = t; let mut firsti = true;
                while lx.accept(T::P(b',')) {
                    if lx.peek() == T::Meta { break; }
                    let (it, iv) = fp.ty_value(&mut lx);
                    let iw = it.scalar_w().unwrap();
                    if firsti {
                        let sc = curt.size();
                        match iv { Opd::K(V::I(x)) => off = off.wrapping_add(sext64(x, iw).wrapping_mul(sc as i64)), o => idx.push((o, iw, sc)) }
                        firsti = false;
                    } else {
                        match &curt {
                            Ty::Struct(..) => { let i = match iv { Opd::K(V::I(x)) => x, _ => die("struct idx") }; off += curt.field_off(i) as i64; curt = curt.field(i); }
                            _ => { let el = curt.field(0); let sc = el.size(); match iv { Opd::K(V::I(x)) => off = off.wrapping_add(sext64(x, iw).wrapping_mul(sc as i64)), o => idx.push((o, iw, sc)) } curt = el; }
                        }
                    }
                }
                c.2.push(Inst::Gep { d, base, off, idx });
            }
            "alloca" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); }
                let t = parse_ty(&mut lx);
                let mut n = 1;
                if lx.accept(T::P(b',')) { if let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { let (_, v) = fp.kval(&mut lx); if let V::I(k) = v { n = k; } } } }
                c.2.push(Inst::Alloca { d, size: t.size() * n });
            }
            "select" => {
                while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); }
                let (ct, cv) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (t, a) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, b2) = fp.ty_value(&mut lx);
                c.2.push(Inst::Select { d, ty: t, c: cv, a, b: b2, vc: matches!(ct, Ty::Vec(..)) });
            }
            "call" | "invoke" => {
                // fast-math flags, cconv, ret attrs
                let is_invoke = w == "invoke";
                loop { match lx.peek() { t if is_type_start(t) => break, T::Word(_) => { lx.next(); if lx.peek() == T::P(b'(') { lx.skip_parens(); } else if let T::Num(_) = lx.peek() { lx.next(); } } t => die(&format!("call {:?}", t)) } }
                let t = parse_ty(&mut lx);
                if lx.peek() == T::P(b'(') { lx.skip_parens(); }
                let callee = match lx.next() {
                    T::Global(n) => match fp.m.syms.get(n) { Some(Sym::F(i)) => Callee::Fn(*i), _ => die(&format!("callee {}", n)) },
                    T::Local(n) => Callee::Ind(Opd::R(fp.reg(n))),
                    T::Word("asm") => { loop { match lx.peek() { T::P(b'(') => break, _ => { lx.next(); } } } Callee::Asm }
                    x => { let a = lx.p.saturating_sub(100); die(&format!("callee {:?} near {}", x, &text[a..lx.p])) }
                };
                lx.expect(T::P(b'('));
                let mut args = vec![]; let mut argw = vec![];
                if !lx.accept(T::P(b')')) {
                    loop {
                        let at = parse_ty(&mut lx);
                        if at == Ty::Other { // metadata argument
                            let mut depth = 0; loop { match lx.peek() { T::P(b'(') => { depth += 1; lx.next(); } T::P(b')') if depth > 0 => { depth -= 1; lx.next(); } T::P(b')') | T::P(b',') if depth == 0 => break, T::Nl => die("md"), _ => { lx.next(); } } }
                        } else { fp.skip_attrs(&mut lx); let v = fp.value(&mut lx, &at); argw.push(at.scalar_w().unwrap_or(0)); args.push(v); }
                        if lx.accept(T::P(b')')) { break; }
                        lx.expect(T::P(b','));
                    }
                }
                c.2.push(Inst::Call { d: dst, ty: t, callee, args, argw });
                if is_invoke {
                    lx.to_nl();
                    lx.expect(T::Word("to")); lx.expect(T::Word("label"));
                    let n = match lx.next() { T::Local(n) => n, _ => die("invoke") };
                    let bi = fp.bb(n); term = Some(Term::Br(bi));
                    lx.expect(T::Word("unwind")); lx.expect(T::Word("label")); if let T::Local(n) = lx.next() { fp.bb(n); }
                }
            }
            "extractvalue" => { let (_, a) = fp.ty_value(&mut lx); let mut idx = vec![]; while lx.accept(T::P(b',')) { if lx.peek() == T::Meta { break; } idx.push(lx.int() as u32); } c.2.push(Inst::ExtractV { d, a, idx }); }
            "insertvalue" => { let (_, a) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, v) = fp.ty_value(&mut lx); let mut idx = vec![]; while lx.accept(T::P(b',')) { if lx.peek() == T::Meta { break; } idx.push(lx.int() as u32); } c.2.push(Inst::InsertV { d, a, v, idx }); }
            "insertelement" => { let (_, a) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, v) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, i) = fp.ty_value(&mut lx); c.2.push(Inst::InsertE { d, a, v, i }); }
            "extractelement" => { let (_, a) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, i) = fp.ty_value(&mut lx); c.2.push(Inst::ExtractE { d, a, i }); }
            "shufflevector" => { let (_, a) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, b2) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, m2) = fp.ty_value(&mut lx); c.2.push(Inst::Shuffle { d, a, b: b2, m: m2 }); }
            "atomicrmw" => { let mut op = lx.word(); if op == "volatile" { op = lx.word(); } let (_, p) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (t, v) = fp.ty_value(&mut lx); c.2.push(Inst::Rmw { op: op.to_string(), w: t.scalar_w().unwrap(), d, p, v }); }
            "cmpxchg" => { while let T::Word(x) = lx.peek() { if is_type_start(T::Word(x)) { break; } lx.next(); } let (_, p) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (t, cc) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); let (_, n) = fp.ty_value(&mut lx); c.2.push(Inst::CmpXchg { w: t.scalar_w().unwrap(), d, p, c: cc, n }); }
            "freeze" => { let (_, a) = fp.ty_value(&mut lx); c.2.push(Inst::Mov { d, a }); }
            "fence" => {}
            "landingpad" => { lx.to_nl(); loop { match lx.peek() { T::Word("cleanup") | T::Word("catch") | T::Word("filter") => lx.to_nl(), _ => break } } c.2.push(Inst::Mov { d, a: Opd::K(V::Agg(Rc::new(vec![V::I(0), V::I(0)]))) }); continue; }
            "br" => {
                match lx.next() {
                    T::Word("label") => { let n = match lx.next() { T::Local(n) => n, _ => die("br") }; let b2 = fp.bb(n); term = Some(Term::Br(b2)); }
                    T::Word("i1") => { let v = fp.value(&mut lx, &Ty::Int(1)); lx.expect(T::P(b',')); lx.expect(T::Word("label")); let x = match lx.next() { T::Local(n) => fp.bb(n), _ => die("br") }; lx.expect(T::P(b',')); lx.expect(T::Word("label")); let y = match lx.next() { T::Local(n) => fp.bb(n), _ => die("br") }; term = Some(Term::CBr(v, x, y)); }
                    t => die(&format!("br {:?}", t)),
                }
            }
            "switch" => {
                let (t, v) = fp.ty_value(&mut lx); lx.expect(T::P(b',')); lx.expect(T::Word("label"));
                let def = match lx.next() { T::Local(n) => fp.bb(n), _ => die("switch") };
                lx.expect(T::P(b'['));
                let mut cases = vec![];
                loop { while lx.accept(T::Nl) {} if lx.accept(T::P(b']')) { break; } let (_, k) = fp.kval(&mut lx); lx.expect(T::P(b',')); lx.expect(T::Word("label")); let b2 = match lx.next() { T::Local(n) => fp.bb(n), _ => die("switch") }; if let V::I(k) = k { cases.push((k, b2)); } else { die("switch128") } }
                term = Some(Term::Switch(t.scalar_w().unwrap(), v, def, cases));
            }
            "ret" => { let t = parse_ty(&mut lx); term = Some(Term::Ret(if t == Ty::Void { None } else { Some(fp.value(&mut lx, &t)) })); }
            "unreachable" => term = Some(Term::Unreachable),
            "resume" => term = Some(Term::Resume),
            _ => die(&format!("unsupported instruction `{}` in {}", w, fp.m.funcs[id as usize].name)),
        }
        lx.to_nl();
        if let Some(t) = term { let (i, phis, insts) = cur.take().unwrap(); put(&mut blocks, i, Block { phis, insts, term: t }); }
    }
    let nb = fp.bbs.len();
    while blocks.len() < nb { blocks.push(None); }
    let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![], term: Term::Unreachable })).collect();
    Func { id, nregs: fp.nregs, nargs, blocks }
}

/// Readable path of a v0-mangled (or plain) symbol: its identifiers joined by "::".
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut parts: Vec<&str> = vec![];
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() { // disambiguator s<base62>_
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j + 1 < b.len() && b[j+1].is_ascii_digit() { i = j + 1; continue; }
        }
        if b[i] == b'B' || b[i] == b'K' { let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; } if j < b.len() && b[j] == b'_' { i = j + 1; continue; } }
        if b[i].is_ascii_digit() {
            let mut j = i; while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if let Ok(l) = n[i..j].parse::<usize>() { let mut s = j; if s < b.len() && b[s] == b'_' { s += 1; } if l > 0 && s + l <= b.len() { parts.push(&n[s..s + l]); i = s + l; continue; } }
            i = j; continue;
        }
        i += 1;
    }
    parts.join("::")
}
