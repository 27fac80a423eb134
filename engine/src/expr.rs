//! Hash-consed bit-vector expression pool with local simplification, unsigned intervals and
//! concrete evaluation.  One pool per process (the engine is single-threaded; parallelism is by fork).
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Extract, Bnd, Concat, SExt, Tab,
    FAdd, FSub, FMul, FDiv, FRem, FMin, FMax, FNeg, FAbs, FCeil, FFloor, FRound, FTruncInt, FRint, FSqrt, FExp2, FEq, FLt, FLe, FUno,
    UiToFp, SiToFp, FpToUiSat, FpToSiSat, FpExt, FpTrunc,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct VarInfo { pub name: String, pub w: u16, pub lo: u64, pub hi: u64 }

/// Piecewise-constant function of an unsigned source: segment i covers (prev.hi, hi_i].
pub struct Table { pub segs: Vec<(u64, u64)> }

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    pub iv: Vec<(u64, u64)>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    pub vars: Vec<VarInfo>,
    pub tabs: Vec<Table>,
    tabmap: HashMap<(E, Vec<(u64, u64)>), E>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

static mut POOL: *mut Pool = std::ptr::null_mut();
pub fn pool() -> &'static mut Pool {
    unsafe {
        if POOL.is_null() {
            POOL = Box::into_raw(Box::new(Pool { nodes: vec![], map: Default::default(), iv: vec![], memo: vec![], epoch: 1, vars: vec![], tabs: vec![], tabmap: HashMap::new() }));
            (*POOL).konst(1, 0);
            (*POOL).konst(1, 1);
        }
        &mut *POOL
    }
}
impl Op {
    /// floating-point operations on two floating-point values
    pub fn is_fbin(self) -> bool { matches!(self, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FMin | Op::FMax | Op::FEq | Op::FLt | Op::FLe | Op::FUno) }
    /// ... on one
    pub fn is_fun(self) -> bool { matches!(self, Op::FNeg | Op::FAbs | Op::FCeil | Op::FFloor | Op::FRound | Op::FTruncInt | Op::FRint | Op::FSqrt | Op::FExp2 | Op::FpExt | Op::FpTrunc | Op::FpToUiSat | Op::FpToSiSat) }
}
pub const FALSE: E = 0;
pub const TRUE: E = 1;

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn mask64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fp_bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        match op { Op::FAdd => (x + y).to_bits() as u128, Op::FSub => (x - y).to_bits() as u128, Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128, Op::FRem => (x % y).to_bits() as u128, Op::FMin => x.min(y).to_bits() as u128, Op::FMax => x.max(y).to_bits() as u128, Op::FEq => (x == y) as u128, Op::FLt => (x < y) as u128, Op::FLe => (x <= y) as u128,
            Op::FUno => (x.is_nan() || y.is_nan()) as u128, _ => unreachable!() }
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        match op { Op::FAdd => (x + y).to_bits() as u128, Op::FSub => (x - y).to_bits() as u128, Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128, Op::FRem => (x % y).to_bits() as u128, Op::FMin => x.min(y).to_bits() as u128, Op::FMax => x.max(y).to_bits() as u128, Op::FEq => (x == y) as u128, Op::FLt => (x < y) as u128, Op::FLe => (x <= y) as u128,
            Op::FUno => (x.is_nan() || y.is_nan()) as u128, _ => unreachable!() }
    }
}
pub fn fp_un(op: Op, sw: u16, w: u16, a: u128) -> u128 {
    match op {
        Op::FNeg => if w == 32 { (-f32::from_bits(a as u32)).to_bits() as u128 } else { (-f64::from_bits(a as u64)).to_bits() as u128 },
        Op::FAbs => if w == 32 { f32::from_bits(a as u32).abs().to_bits() as u128 } else { f64::from_bits(a as u64).abs().to_bits() as u128 },
        Op::FCeil => if w == 32 { f32::from_bits(a as u32).ceil().to_bits() as u128 } else { f64::from_bits(a as u64).ceil().to_bits() as u128 },
        Op::FFloor => if w == 32 { f32::from_bits(a as u32).floor().to_bits() as u128 } else { f64::from_bits(a as u64).floor().to_bits() as u128 },
        Op::FRound => if w == 32 { f32::from_bits(a as u32).round().to_bits() as u128 } else { f64::from_bits(a as u64).round().to_bits() as u128 },
        Op::FTruncInt => if w == 32 { f32::from_bits(a as u32).trunc().to_bits() as u128 } else { f64::from_bits(a as u64).trunc().to_bits() as u128 },
        Op::FRint => if w == 32 { f32::from_bits(a as u32).round_ties_even().to_bits() as u128 } else { f64::from_bits(a as u64).round_ties_even().to_bits() as u128 },
        Op::FSqrt => if w == 32 { f32::from_bits(a as u32).sqrt().to_bits() as u128 } else { f64::from_bits(a as u64).sqrt().to_bits() as u128 },
        Op::FExp2 => if w == 32 { f32::from_bits(a as u32).exp2().to_bits() as u128 } else { f64::from_bits(a as u64).exp2().to_bits() as u128 },
        Op::UiToFp => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::SiToFp => { let s = sx(a, sw); if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        Op::FpExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FpTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::FpToUiSat => {
            let v: u128 = if sw == 32 { f32::from_bits(a as u32) as u128 } else { f64::from_bits(a as u64) as u128 };
            v.min(mask(w))
        }
        Op::FpToSiSat => {
            let v: i128 = if sw == 32 { f32::from_bits(a as u32) as i128 } else { f64::from_bits(a as u64) as i128 };
            let hi = (mask(w) >> 1) as i128;
            (v.clamp(-hi - 1, hi) as u128) & mask(w)
        }
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn node(&self, e: E) -> &Node { &self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    pub fn is_const(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn interval(&self, e: E) -> (u64, u64) { self.iv[e as usize] }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let iv = self.compute_iv(&n);
        // a node whose interval is a single point is a constant
        if n.op != Op::Const && n.op != Op::Var && n.w <= 64 && iv.0 == iv.1 {
            let c = self.konst(n.w, iv.0 as u128);
            self.map.insert(n, c);
            return c;
        }
        self.nodes.push(n);
        self.iv.push(iv);
        self.memo.push((0, 0));
        self.map.insert(n, e);
        e
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E) -> E { self.intern(Node { op, w, a, b, c, k: 0 }) }
    pub fn konst(&mut self, w: u16, v: u128) -> E { self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn var(&mut self, name: &str, w: u16, lo: u64, hi: u64) -> E {
        let id = self.vars.len();
        self.vars.push(VarInfo { name: name.to_string(), w, lo, hi });
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 })
    }

    fn compute_iv(&self, n: &Node) -> (u64, u64) {
        if n.w > 64 { return (0, u64::MAX); }
        let m = mask64(n.w);
        let top = (0, m);
        let iv = |e: E| self.iv[e as usize];
        let wide = |e: E| self.nodes[e as usize].w > 64;
        match n.op {
            Op::Const => (n.k as u64, n.k as u64),
            Op::Var => { let v = &self.vars[n.k as usize]; (v.lo, v.hi) }
            Op::Add => { let (a, b) = (iv(n.a), iv(n.b)); match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h),
                _ => { // both wrap?
                    let lo = a.0 as u128 + b.0 as u128; let hi = a.1 as u128 + b.1 as u128;
                    if lo > m as u128 && hi <= 2 * (m as u128) + 1 { ((lo - m as u128 - 1) as u64, (hi - m as u128 - 1) as u64) } else { top } } } }
            Op::Sub => { let (a, b) = (iv(n.a), iv(n.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { top } }
            Op::Mul => { let (a, b) = (iv(n.a), iv(n.b)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => top } }
            Op::UDiv => { let (a, b) = (iv(n.a), iv(n.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { top } }
            Op::URem => { let (a, b) = (iv(n.a), iv(n.b)); if b.0 > 0 { if a.1 < b.0 { a } else { (0, a.1.min(b.1 - 1)) } } else { (0, a.1) } }
            Op::And => { let (a, b) = (iv(n.a), iv(n.b)); (0, a.1.min(b.1)) }
            Op::Or => { let (a, b) = (iv(n.a), iv(n.b)); let h = a.1 | b.1; let bits = 64 - h.leading_zeros(); (a.0.max(b.0), if bits == 64 { u64::MAX } else { ((1u64 << bits) - 1).min(m) }) }
            Op::Xor => { let (a, b) = (iv(n.a), iv(n.b)); let h = a.1 | b.1; let bits = 64 - h.leading_zeros(); (0, if bits == 64 { u64::MAX } else { ((1u64 << bits) - 1).min(m) }) }
            Op::LShr => { let a = iv(n.a); (0, a.1) }
            Op::Ite => { let (a, b) = (iv(n.b), iv(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            Op::Extract => {
                if wide(n.a) { return top; }
                let a = iv(n.a); let lo = n.k as u32;
                let (x, y) = (a.0 >> lo, a.1 >> lo);
                if y <= m { (x, y) } else if x & !m == y & !m { (x & m, y & m) } else { top }
            }
            Op::Concat => { let (a, b) = (iv(n.a), iv(n.b)); let lw = self.nodes[n.b as usize].w; if lw >= 64 { return b; } ((a.0 << lw) + b.0, (a.1 << lw) + b.1) }
            Op::SExt => { let a = iv(n.a); let sw = self.nodes[n.a as usize].w; if sw <= 64 && a.1 <= mask64(sw - 1) { a } else { top } }
            Op::Bnd => ((n.k >> 64) as u64, n.k as u64),
            Op::Tab => {
                let (lo, hi) = iv(n.a); let t = &self.tabs[n.k as usize];
                let mut mn = u64::MAX; let mut mx = 0; let mut start = 0u64;
                for &(h, v) in &t.segs { if start <= hi && h >= lo { mn = mn.min(v); mx = mx.max(v); } if h == u64::MAX { break; } start = h + 1; }
                (mn, mx)
            }
            _ => top,
        }
    }

    pub fn not(&mut self, a: E) -> E { debug_assert!(self.w(a) == 1); self.xor(a, TRUE) }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        let z = self.konst(w - aw, 0);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = *self.node(a);
        if n.w == w { return a; }
        if n.op == Op::Const { return self.konst(w, sx(n.k, n.w) as u128); }
        if n.w <= 64 && n.w > 1 && self.iv[a as usize].1 <= mask64(n.w - 1) { return self.zext(a, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E { self.extract(a, 0, w) }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (*self.node(hi), *self.node(lo));
        let w = h.w + l.w;
        assert!(w <= 128);
        if h.op == Op::Const && l.op == Op::Const { return self.konst(w, (h.k << l.w) | l.k); }
        // concat(concat(x, y), z): right-assoc normal form
        if h.op == Op::Concat { let r = self.concat(h.b, lo); return self.concat(h.a, r); }
        // adjacent extracts / constants
        let (first, rest) = if l.op == Op::Concat { (l.a, Some(l.b)) } else { (lo, None) };
        let f = *self.node(first);
        if h.op == Op::Const && f.op == Op::Const {
            let m = self.konst(h.w + f.w, (h.k << f.w) | f.k);
            return match rest { Some(r) => self.concat(m, r), None => m };
        }
        // extract(x, j+.., ..) ++ extract(x, j, ..)
        let (hx, hlo) = if h.op == Op::Extract { (h.a, h.k as u16) } else { (hi, 0) };
        let (fx, flo) = if f.op == Op::Extract { (f.a, f.k as u16) } else { (first, 0) };
        if hx == fx && hlo == flo + f.w && h.op == Op::Extract {
            let m = self.extract(hx, flo, h.w + f.w);
            return match rest { Some(r) => self.concat(m, r), None => m };
        }
        // zeros over the low part of an expression that has no more than that part
        if h.op == Op::Const && h.k == 0 && rest.is_none() && f.op == Op::Extract && flo == 0 && f.w < 64 {
            let xw = self.w(fx);
            if xw <= 64 && self.iv[fx as usize].1 <= mask64(f.w) { return if w == xw { fx } else if w < xw { self.extract(fx, 0, w) } else { self.zext(fx, w) }; }
        }
        self.mk(Op::Concat, w, hi, lo, 0)
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = *self.node(a);
        if lo == 0 && w == n.w { return a; }
        assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::SExt => { let sw = self.w(n.a); if lo + w <= sw { return self.extract(n.a, lo, w); } if lo == 0 { return self.sext(n.a, w); } }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Tab => {
                let segs: Vec<(u64, u64)> = self.tabs[n.k as usize].segs.iter().map(|&(h, v)| (h, (v >> lo) & mask64(w))).collect();
                return self.tab(n.a, w, segs);
            }
            _ => {}
        }
        if n.w <= 64 && self.iv[a as usize].1 >> lo == 0 { return self.konst(w, 0); }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == TRUE { return a; }
        if c == FALSE { return b; }
        if a == b { return a; }
        let w = self.w(a);
        let cn = *self.node(c);
        if cn.op == Op::Xor && cn.b == TRUE { return self.ite(cn.a, b, a); }
        if w == 1 {
            if a == TRUE && b == FALSE { return c; }
            if a == FALSE && b == TRUE { return self.not(c); }
            if a == TRUE { return self.or(c, b); }
            if b == FALSE { return self.and(c, a); }
            if a == FALSE { let nc = self.not(c); return self.and(nc, b); }
            if b == TRUE { let nc = self.not(c); return self.or(nc, a); }
        }
        let an = *self.node(a);
        if an.op == Op::Ite && an.a == c { return self.ite(c, an.b, b); }
        let bn = *self.node(b);
        if bn.op == Op::Ite && bn.a == c { return self.ite(c, a, bn.c); }
        self.mk(Op::Ite, w, c, a, b)
    }

    pub fn tab(&mut self, src: E, w: u16, mut segs: Vec<(u64, u64)>) -> E {
        // normalise: merge equal neighbours, last segment extends to the top
        let mut out: Vec<(u64, u64)> = vec![];
        for (h, v) in segs.drain(..) { if let Some(l) = out.last_mut() { if l.1 == v { l.0 = h; continue; } } out.push((h, v)); }
        out.last_mut().unwrap().0 = u64::MAX;
        if out.len() == 1 { return self.konst(w, out[0].1 as u128); }
        if let Some(c) = self.is_const(src) { let c = c as u64; let v = out.iter().find(|s| c <= s.0).unwrap().1; return self.konst(w, v as u128); }
        if let Some(&e) = self.tabmap.get(&(src, out.clone())) { if self.w(e) == w { return e; } }
        let id = self.tabs.len();
        self.tabs.push(Table { segs: out.clone() });
        let e = self.intern(Node { op: Op::Tab, w, a: src, b: 0, c: 0, k: id as u128 });
        self.tabmap.insert((src, out), e);
        e
    }

    pub fn add(&mut self, a: E, b: E) -> E { self.bin(Op::Add, a, b) }
    pub fn sub(&mut self, a: E, b: E) -> E { self.bin(Op::Sub, a, b) }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }
    pub fn xor(&mut self, a: E, b: E) -> E { self.bin(Op::Xor, a, b) }

    fn const_bin(op: Op, w: u16, x: u128, y: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => if y == 0 { m } else { x / y }, Op::URem => if y == 0 { x } else { x % y },
            Op::SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m } }
            Op::SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m } }
            Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
            Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
            Op::LShr => if y >= w as u128 { 0 } else { x >> y },
            Op::AShr => { let s = sx(x, w); (if y >= w as u128 { s >> 127 } else { s >> y }) as u128 & m }
            Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Ule => (x <= y) as u128,
            Op::Slt => (sx(x, w) < sx(y, w)) as u128, Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
            _ => unreachable!(),
        }
    }

    /// The same expression with what is known about its range on this path.
    pub fn bnd(&mut self, x: E, lo: u64, hi: u64) -> E {
        let n = *self.node(x);
        if n.op == Op::Const || n.w > 64 { return x; }
        let iv = self.iv[x as usize];
        let (lo, hi) = (lo.max(iv.0), hi.min(iv.1));
        if (lo, hi) == iv || lo > hi { return x; }
        let x = if n.op == Op::Bnd { n.a } else { x };
        self.intern(Node { op: Op::Bnd, w: n.w, a: x, b: 0, c: 0, k: ((lo as u128) << 64) | hi as u128 })
    }
    /// Collect e as a sum of coefficient * atom + constant (mod 2^w).
    fn linear(&self, e: E, f: u128, out: &mut Vec<(E, u128)>, k: &mut u128, depth: u32) -> bool {
        let n = *self.node(e);
        if depth > 24 || out.len() > 16 { return false; }
        match n.op {
            Op::Const => { *k = k.wrapping_add(n.k.wrapping_mul(f)); true }
            Op::Bnd => self.linear(n.a, f, out, k, depth + 1),
            Op::Add => self.linear(n.a, f, out, k, depth + 1) && self.linear(n.b, f, out, k, depth + 1),
            Op::Sub => self.linear(n.a, f, out, k, depth + 1) && self.linear(n.b, 0u128.wrapping_sub(f), out, k, depth + 1),
            Op::Mul if self.is_const(n.b).is_some() => { let c = self.is_const(n.b).unwrap(); self.linear(n.a, f.wrapping_mul(c), out, k, depth + 1) }
            _ => { if let Some(x) = out.iter_mut().find(|x| x.0 == e) { x.1 = x.1.wrapping_add(f); } else { out.push((e, f)); } true }
        }
    }
    /// a - b with common parts cancelled, if there are any.
    fn cancel(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (na, nb) = (self.node(a).op, self.node(b).op);
        let sum = |o: Op| matches!(o, Op::Add | Op::Sub | Op::Mul | Op::Bnd);
        if !sum(na) && !sum(nb) { return None; }
        let (mut t, mut k) = (vec![], 0u128);
        if !self.linear(a, 1, &mut t, &mut k, 0) { return None; }
        let before = t.len();
        let mut tb = vec![]; let mut kb = 0u128;
        if !self.linear(b, 1, &mut tb, &mut kb, 0) { return None; }
        let total = before + tb.len();
        for (e, c) in tb { if let Some(x) = t.iter_mut().find(|x| x.0 == e) { x.1 = x.1.wrapping_sub(c); } else { t.push((e, 0u128.wrapping_sub(c))); } }
        let m = mask(w);
        t.retain(|x| x.1 & m != 0);
        if t.len() + 1 >= total { return None; }
        t.sort();
        let k = k.wrapping_sub(kb) & m;
        let (mut pos, mut neg): (Option<E>, Option<E>) = (None, None);
        for (e, c) in t {
            let c = c & m;
            let (c, minus) = if c > m / 2 { (0u128.wrapping_sub(c) & m, true) } else { (c, false) };
            let kk = self.konst(w, c);
            let x = self.mk_mul(e, kk);
            let s = if minus { &mut neg } else { &mut pos };
            *s = Some(match *s { None => x, Some(y) => self.mk(Op::Add, w, x, y, 0) });
        }
        let r = match (pos, neg) { (None, None) => return Some(self.konst(w, k)), (Some(p), None) => p, (p, Some(n)) => { let p = match p { Some(p) => p, None => self.konst(w, 0) }; self.mk(Op::Sub, w, p, n, 0) } };
        let kk = self.konst(w, k);
        Some(if k == 0 { r } else { self.bin(Op::Add, r, kk) })
    }
    fn mk_mul(&mut self, e: E, k: E) -> E { self.bin(Op::Mul, e, k) }

    fn low_zero_bits(&self, e: E) -> u16 {
        let n = self.node(e);
        match n.op { Op::Const => if n.k == 0 { n.w } else { n.k.trailing_zeros() as u16 },
            Op::Concat => { let lw = self.w(n.b); let l = self.low_zero_bits(n.b); if l == lw { lw + self.low_zero_bits(n.a) } else { l } }
            _ => 0 }
    }

    /// Arithmetic / logic / comparison with simplification.  Comparisons produce width 1.
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let (mut na, mut nb) = (*self.node(a), *self.node(b));
        let w = na.w;
        assert!(na.w == nb.w, "width mismatch {:?} {} {}", op, na.w, nb.w);
        let rw = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { w };
        if na.op == Const && nb.op == Const { return self.konst(rw, Self::const_bin(op, w, na.k, nb.k)); }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            if na.op == Const || (nb.op != Const && a > b) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut na, &mut nb); }
        }
        let m = mask(w);
        let (ia, ib) = (self.iv[a as usize], self.iv[b as usize]);
        let small = w <= 64;
        let cb = if nb.op == Const { Some(nb.k) } else { None };
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if na.op == Add { if let Some(c1) = self.is_const(na.b) { let k = self.konst(w, c1.wrapping_add(c)); return self.bin(Add, na.a, k); } }
                    if na.op == Sub { if let Some(c1) = self.is_const(na.a) { let k = self.konst(w, c1.wrapping_add(c)); return self.bin(Sub, k, na.b); } }
                }
                if w == 1 { return self.bin(Xor, a, b); }
                // x + (y - x) = y
                if nb.op == Sub && nb.b == a { return nb.a; }
                if na.op == Sub && na.b == b { return na.a; }
                // (x + c) + y -> (x + y) + c
                if na.op == Add && cb.is_none() { if self.is_const(na.b).is_some() { let s = self.bin(Add, na.a, b); return self.bin(Add, s, na.b); } }
                if nb.op == Add { if self.is_const(nb.b).is_some() { let s = self.bin(Add, a, nb.a); return self.bin(Add, s, nb.b); } }
                // disjoint bits -> concat
                if small {
                    let lz = self.low_zero_bits(a).min(63);
                    if lz > 0 && ib.1 < (1u64 << lz) { let h = self.extract(a, lz, w - lz); let l = self.extract(b, 0, lz); return self.concat(h, l); }
                    let lz = self.low_zero_bits(b).min(63);
                    if cb.is_none() && lz > 0 && ia.1 < (1u64 << lz) { let h = self.extract(b, lz, w - lz); let l = self.extract(a, 0, lz); return self.concat(h, l); }
                }
            }
            Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(w, 0); }
                if w == 1 { return self.bin(Xor, a, b); }
                if let Some(c) = cb { let k = self.konst(w, (!c).wrapping_add(1)); return self.bin(Add, a, k); }
                if na.op == Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if nb.op == Add { if nb.a == a { let z = self.konst(w, 0); return self.bin(Sub, z, nb.b); } if nb.b == a { let z = self.konst(w, 0); return self.bin(Sub, z, nb.a); } }
                if nb.op == Sub && nb.a == a { return nb.b; }
                if let Some(r) = self.cancel(a, b) { return r; }
                if na.op == Add { if let Some(c1) = self.is_const(na.b) {
                    if nb.op == Add { if let Some(c2) = self.is_const(nb.b) { let s = self.bin(Sub, na.a, nb.a); let k = self.konst(w, c1.wrapping_sub(c2)); return self.bin(Add, s, k); } }
                    let s = self.bin(Sub, na.a, b); return self.bin(Add, s, na.b); } }
                if nb.op == Add { if let Some(c2) = self.is_const(nb.b) { if na.op != Const { let s = self.bin(Sub, a, nb.a); let k = self.konst(w, 0u128.wrapping_sub(c2)); return self.bin(Add, s, k); } } }
            }
            Mul => {
                if let Some(c) = cb {
                    if c == 0 { return b; }
                    if c == 1 { return a; }
                    if c.is_power_of_two() { let k = c.trailing_zeros() as u16; return self.shl_const(a, k); }
                    if na.op == Mul { if let Some(c1) = self.is_const(na.b) { let k = self.konst(w, c1.wrapping_mul(c)); return self.bin(Mul, na.a, k); } }
                }
            }
            UDiv => {
                if let Some(c) = cb {
                    if c == 1 { return a; }
                    if c != 0 && c.is_power_of_two() { let k = c.trailing_zeros() as u16; return self.lshr_const(a, k); }
                    if small && c != 0 {
                        if (ia.1 as u128) < c { return self.konst(w, 0); }
                        if na.op == Mul { if let Some(c1) = self.is_const(na.b) { let ix = self.iv[na.a as usize];
                            if (ix.1 as u128) * c1 <= m { // no overflow
                                if c1 % c == 0 { let k = self.konst(w, c1 / c); return self.bin(Mul, na.a, k); }
                                if c % c1 == 0 { let k = self.konst(w, c / c1); return self.bin(UDiv, na.a, k); }
                            } } }
                        // small operand: divide at the narrow width
                        let k = (64 - ia.1.leading_zeros()) as u16;
                        if k + 1 < w && na.op != Concat && c <= mask(k) as u128 { let x = self.extract(a, 0, k); let kk = self.konst(k, c); let q = self.bin(UDiv, x, kk); return self.zext(q, w); }
                        // zero-extended operand: divide at the narrow width
                        if na.op == Concat && self.is_const(na.a) == Some(0) { let lw = self.w(na.b); if c <= mask(lw) { let k = self.konst(lw, c); let q = self.bin(UDiv, na.b, k); return self.zext(q, w); } }
                    }
                }
                if small && ib.0 > ia.1 { return self.konst(w, 0); }
                if cb.is_none() && small { if let Some((x, y, lw)) = self.narrow2(a, b) { let q = self.bin(UDiv, x, y); let _ = lw; if ib.0 > 0 { return self.zext(q, w); } } }
            }
            URem => {
                if let Some(c) = cb {
                    if c == 1 { return self.konst(w, 0); }
                    if c != 0 && c.is_power_of_two() { let k = c.trailing_zeros() as u16; let l = self.extract(a, 0, k); return self.zext(l, w); }
                    if small && c != 0 && (ia.1 as u128) < c { return a; }
                    if small && c != 0 && na.op == Concat && self.is_const(na.a) == Some(0) { let lw = self.w(na.b); if c <= mask(lw) { let k = self.konst(lw, c); let q = self.bin(URem, na.b, k); return self.zext(q, w); } }
                }
                if small && ib.0 > ia.1 { return a; }
                if cb.is_none() && small { if let Some((x, y, _)) = self.narrow2(a, b) { let q = self.bin(URem, x, y); return self.zext(q, w); } }
            }
            SDiv | SRem => {
                if small && w > 1 && ia.1 <= mask64(w - 1) && ib.1 <= mask64(w - 1) { return self.bin(if op == SDiv { UDiv } else { URem }, a, b); }
            }
            And => {
                if a == b { return a; }
                if let Some(c) = cb {
                    if c == 0 { return b; }
                    if c == m { return a; }
                    // contiguous mask
                    let tz = c.trailing_zeros() as u16;
                    let run = (c >> tz).trailing_ones() as u16;
                    if (c >> tz) == mask(run) {
                        let mid = self.extract(a, tz, run);
                        let mut r = mid;
                        if tz > 0 { let z = self.konst(tz, 0); r = self.concat(r, z); }
                        return self.zext(r, w);
                    }
                    if na.op == And { if let Some(c1) = self.is_const(na.b) { let k = self.konst(w, c & c1); return self.bin(And, na.a, k); } }
                    if na.op == Concat { let lw = self.w(na.b); let kh = self.konst(w - lw, c >> lw); let kl = self.konst(lw, c); let h = self.bin(And, na.a, kh); let l = self.bin(And, na.b, kl); return self.concat(h, l); }
                }
                if w == 1 { if self.is_neg(a, b) { return FALSE; } if let Some(r) = self.range_and(a, b) { return r; } }
                if na.op == Concat && nb.op == Concat { let lw = self.w(na.b); if lw == self.w(nb.b) { let h = self.bin(And, na.a, nb.a); let l = self.bin(And, na.b, nb.b); return self.concat(h, l); } }
            }
            Or => {
                if a == b { return a; }
                if let Some(c) = cb { if c == 0 { return a; } if c == m { return b; }
                    if na.op == Concat { let lw = self.w(na.b); let kh = self.konst(w - lw, c >> lw); let kl = self.konst(lw, c); let h = self.bin(Or, na.a, kh); let l = self.bin(Or, na.b, kl); return self.concat(h, l); } }
                if w == 1 { if self.is_neg(a, b) { return TRUE; } }
                if small {
                    let lz = self.low_zero_bits(a).min(63);
                    if lz > 0 && ib.1 < (1u64 << lz) && lz < w { let h = self.extract(a, lz, w - lz); let l = self.extract(b, 0, lz); return self.concat(h, l); }
                    let lz = self.low_zero_bits(b).min(63);
                    if cb.is_none() && lz > 0 && ia.1 < (1u64 << lz) && lz < w { let h = self.extract(b, lz, w - lz); let l = self.extract(a, 0, lz); return self.concat(h, l); }
                }
                if na.op == Concat && nb.op == Concat { let lw = self.w(na.b); if lw == self.w(nb.b) { let h = self.bin(Or, na.a, nb.a); let l = self.bin(Or, na.b, nb.b); return self.concat(h, l); } }
            }
            Xor => {
                if a == b { return self.konst(w, 0); }
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if na.op == Xor { if let Some(c1) = self.is_const(na.b) { let k = self.konst(w, c ^ c1); return self.bin(Xor, na.a, k); } }
                    if w == 1 { // c == 1: negate comparison
                        match na.op { Ult => return self.bin(Ule, na.b, na.a), Ule => return self.bin(Ult, na.b, na.a), Slt => return self.bin(Sle, na.b, na.a), Sle => return self.bin(Slt, na.b, na.a), _ => {} }
                    }
                    if na.op == Concat { let lw = self.w(na.b); let kh = self.konst(w - lw, c >> lw); let kl = self.konst(lw, c); let h = self.bin(Xor, na.a, kh); let l = self.bin(Xor, na.b, kl); return self.concat(h, l); }
                }
            }
            Shl => if let Some(c) = cb { return if c >= w as u128 { self.konst(w, 0) } else { self.shl_const(a, c as u16) }; },
            LShr => if let Some(c) = cb { return if c >= w as u128 { self.konst(w, 0) } else { self.lshr_const(a, c as u16) }; },
            AShr => if let Some(c) = cb { let c = c.min(w as u128 - 1) as u16; if c == 0 { return a; } let h = self.extract(a, c, w - c); return self.sext(h, w); },
            Eq => {
                if a == b { return TRUE; }
                if w == 1 { if let Some(c) = cb { return if c == 1 { a } else { self.not(a) }; } }
                if small && (ia.1 < ib.0 || ib.1 < ia.0) { return FALSE; }
                if na.op == Bnd || nb.op == Bnd { let (x, y) = (if na.op == Bnd { na.a } else { a }, if nb.op == Bnd { nb.a } else { b }); return self.bin(Eq, x, y); }
                if let Some(c) = cb {
                    match na.op {
                        Concat => { let lw = self.w(na.b); let kh = self.konst(w - lw, c >> lw); let kl = self.konst(lw, c); let l = self.bin(Eq, na.b, kl); if l == FALSE { return FALSE; } let h = self.bin(Eq, na.a, kh); return self.bin(And, h, l); }
                        Add => if let Some(c1) = self.is_const(na.b) { let k = self.konst(w, c.wrapping_sub(c1)); return self.bin(Eq, na.a, k); },
                        Sub => if c == 0 { return self.bin(Eq, na.a, na.b); } else if let Some(c1) = self.is_const(na.a) { let k = self.konst(w, c1.wrapping_sub(c)); return self.bin(Eq, na.b, k); },
                        Xor => if let Some(c1) = self.is_const(na.b) { let k = self.konst(w, c ^ c1); return self.bin(Eq, na.a, k); },
                        SExt => { let sw = self.w(na.a); if sx(c, w) == sx(c & mask(sw), sw) { let k = self.konst(sw, c); return self.bin(Eq, na.a, k); } else { return FALSE; } }
                        Ite => { let (x, y) = (self.is_const(na.b), self.is_const(na.c));
                            if x.is_some() || y.is_some() { let p = self.bin(Eq, na.b, b); let q = self.bin(Eq, na.c, b); return self.ite(na.a, p, q); } }
                        Mul => if let Some(c1) = self.is_const(na.b) { let ix = self.iv[na.a as usize]; if small && c1 != 0 && (ix.1 as u128) * c1 <= m { return if c % c1 == 0 { let k = self.konst(w, c / c1); self.bin(Eq, na.a, k) } else { FALSE }; } },
                        Tab => { // a union of source ranges
                            let segs = &self.tabs[na.k as usize].segs; let mut rs = vec![]; let mut s = 0u64;
                            for &(h, v) in segs { if v as u128 == c { rs.push((s, h)); } s = h.wrapping_add(1); }
                            if rs.is_empty() { return FALSE; }
                            if rs.len() <= 3 { let mut r = FALSE; let src = na.a; for (lo, hi) in rs { let x = self.in_range(src, lo, hi); r = self.bin(Or, r, x); } return r; }
                        }
                        _ => {}
                    }
                }
                if na.op == Concat && nb.op == Concat { let (la, lb) = (self.w(na.b), self.w(nb.b)); if la == lb { let h = self.bin(Eq, na.a, nb.a); if h == FALSE { return FALSE; } let l = self.bin(Eq, na.b, nb.b); return self.bin(And, h, l); }
                    if self.is_const(na.a) == Some(0) && self.is_const(nb.a) == Some(0) { let mx = la.max(lb); let x = self.extract(a, 0, mx); let y = self.extract(b, 0, mx); return self.bin(Eq, x, y); } }
                if na.op == Add && nb.op == Add { // cancel common term
                    if na.a == nb.a { return self.bin(Eq, na.b, nb.b); } if na.b == nb.b { return self.bin(Eq, na.a, nb.a); }
                    if na.a == nb.b { return self.bin(Eq, na.b, nb.a); } if na.b == nb.a { return self.bin(Eq, na.a, nb.b); } }
            }
            Ult | Ule => {
                if a == b { return if op == Ule { TRUE } else { FALSE }; }
                if small {
                    if op == Ult { if ia.1 < ib.0 { return TRUE; } if ia.0 >= ib.1 { return FALSE; } }
                    else { if ia.1 <= ib.0 { return TRUE; } if ia.0 > ib.1 { return FALSE; } }
                    // canonicalise comparisons with constants to <=
                    if op == Ult { if let Some(c) = cb { let k = self.konst(w, c - 1); return self.bin(Ule, a, k); } if na.op == Const { let k = self.konst(w, na.k + 1); return self.bin(Ule, k, b); } }
                    if let Some(c) = cb { if c == ia.0 as u128 { return self.bin(Eq, a, b); } }
                    if na.op == Const { if na.k == ib.1 as u128 { return self.bin(Eq, b, a); } }
                    // x + c1 <= c2 without overflow
                    if let Some(c) = cb { if na.op == Add { if let Some(c1) = self.is_const(na.b) { let ix = self.iv[na.a as usize]; if ix.1 as u128 + c1 <= m && c >= c1 { let k = self.konst(w, c - c1); return self.bin(op, na.a, k); } } }
                        if na.op == Mul { if let Some(c1) = self.is_const(na.b) { let ix = self.iv[na.a as usize]; if op == Ule && c1 > 0 && (ix.1 as u128) * c1 <= m { let k = self.konst(w, c / c1); return self.bin(Ule, na.a, k); } } }
                        if na.op == Concat && op == Ule { let lw = self.w(na.b); if c & mask(lw) == mask(lw) { let k = self.konst(w - lw, c >> lw); return self.bin(Ule, na.a, k); } } }
                    if na.op == Const { if nb.op == Add { if let Some(c1) = self.is_const(nb.b) { let ix = self.iv[nb.a as usize]; if ix.1 as u128 + c1 <= m && na.k >= c1 { let k = self.konst(w, na.k - c1); return self.bin(op, k, nb.a); } } }
                        if nb.op == Mul { if let Some(c1) = self.is_const(nb.b) { let ix = self.iv[nb.a as usize]; if op == Ule && c1 > 0 && (ix.1 as u128) * c1 <= m { let k = self.konst(w, (na.k + c1 - 1) / c1); return self.bin(Ule, k, nb.a); } } }
                        if nb.op == Concat && op == Ule { let lw = self.w(nb.b); if na.k & mask(lw) == 0 { let k = self.konst(w - lw, na.k >> lw); return self.bin(Ule, k, nb.a); } } }
                    // narrow zero-extensions
                    if let Some((x, y, _)) = self.narrow2(a, b) { return self.bin(op, x, y); }
                    if na.op == Bnd || nb.op == Bnd { let (x, y) = (if na.op == Bnd { na.a } else { a }, if nb.op == Bnd { nb.a } else { b }); return self.bin(op, x, y); }
                }
            }
            Slt | Sle => {
                if a == b { return if op == Sle { TRUE } else { FALSE }; }
                if small && w > 1 {
                    let h = mask64(w - 1);
                    let (pa, pb) = (ia.1 <= h, ib.1 <= h);
                    let (nega, negb) = (ia.0 > h, ib.0 > h);
                    if (pa && pb) || (nega && negb) { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
                    if pa && negb { return FALSE; }
                    if nega && pb { return TRUE; }
                }
            }
            FAdd | FSub | FMul | FDiv => {}
            _ => panic!("bin {:?}", op),
        }
        self.mk(op, rw, a, b, 0)
    }

    /// Are a and b negations of one another (width 1)?
    fn is_neg(&mut self, a: E, b: E) -> bool {
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Xor && na.b == TRUE && na.a == b { return true; }
        if nb.op == Op::Xor && nb.b == TRUE && nb.a == a { return true; }
        (na.op == Op::Ult && nb.op == Op::Ule || na.op == Op::Ule && nb.op == Op::Ult || na.op == Op::Slt && nb.op == Op::Sle || na.op == Op::Sle && nb.op == Op::Slt) && na.a == nb.b && na.b == nb.a
    }
    fn range_and(&mut self, _a: E, _b: E) -> Option<E> { None }

    /// If both operands are (conceptually) zero-extended, return them at the smaller common width.
    fn narrow2(&mut self, a: E, b: E) -> Option<(E, E, u16)> {
        let w = self.w(a);
        let need = |p: &Pool, e: E| -> u16 {
            let n = p.node(e);
            match n.op { Op::Const => (128 - n.k.leading_zeros()) as u16, Op::Concat => if p.is_const(n.a) == Some(0) { p.w(n.b) } else { w }, _ => w }
        };
        let k = need(self, a).max(need(self, b)).max(1);
        if k >= w { return None; }
        let x = self.extract(a, 0, k); let y = self.extract(b, 0, k);
        Some((x, y, k))
    }
    pub fn in_range(&mut self, e: E, lo: u64, hi: u64) -> E {
        let w = self.w(e);
        let hi = hi.min(mask64(w));
        if lo > hi { return FALSE; }
        let (l, h) = (self.konst(w, lo as u128), self.konst(w, hi as u128));
        let x = self.bin(Op::Ule, l, e); let y = self.bin(Op::Ule, e, h);
        self.bin(Op::And, x, y)
    }
    fn shl_const(&mut self, a: E, k: u16) -> E {
        if k == 0 { return a; }
        let w = self.w(a);
        let h = self.extract(a, 0, w - k); let z = self.konst(k, 0);
        self.concat(h, z)
    }
    fn lshr_const(&mut self, a: E, k: u16) -> E {
        if k == 0 { return a; }
        let w = self.w(a);
        let h = self.extract(a, k, w - k);
        self.zext(h, w)
    }

    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let rw = if matches!(op, Op::FEq | Op::FLt | Op::FLe | Op::FUno) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.konst(rw, fp_bin(op, w, x, y)); }
        self.mk(op, rw, a, b, 0)
    }
    pub fn fun(&mut self, op: Op, a: E, w: u16) -> E {
        let sw = self.w(a);
        if let Some(x) = self.is_const(a) { return self.konst(w, fp_un(op, sw, w, x)); }
        self.mk(op, w, a, 0, 0)
    }

    // ---- evaluation -------------------------------------------------------------------------
    pub fn new_epoch(&mut self) -> u32 { self.epoch += 1; self.epoch }
    pub fn eval(&mut self, e: E, model: &[u64], epoch: u32) -> u128 {
        let n = self.nodes[e as usize];
        if n.op == Op::Const { return n.k; }
        let mm = self.memo[e as usize];
        if mm.0 == epoch { return mm.1; }
        // iterative for deep chains is not needed: expression depth stays small
        let v = match n.op {
            Op::Var => *model.get(n.k as usize).unwrap_or(&self.vars[n.k as usize].lo) as u128,
            Op::Bnd => self.eval(n.a, model, epoch),
            Op::Ite => { if self.eval(n.a, model, epoch) != 0 { self.eval(n.b, model, epoch) } else { self.eval(n.c, model, epoch) } }
            Op::Extract => (self.eval(n.a, model, epoch) >> n.k) & mask(n.w),
            Op::Concat => { let lw = self.w(n.b); let h = self.eval(n.a, model, epoch); let l = self.eval(n.b, model, epoch); if lw >= 128 { l } else { (h << lw) | l } }
            Op::SExt => { let sw = self.w(n.a); sx(self.eval(n.a, model, epoch), sw) as u128 & mask(n.w) }
            Op::Tab => { let x = self.eval(n.a, model, epoch) as u64; let t = &self.tabs[n.k as usize].segs; let i = t.partition_point(|s| s.0 < x); t[i].1 as u128 }
            o if o.is_fbin() => { let w = self.w(n.a); let x = self.eval(n.a, model, epoch); let y = self.eval(n.b, model, epoch); fp_bin(n.op, w, x, y) }
            Op::UiToFp | Op::SiToFp => { let sw = self.w(n.a); let x = self.eval(n.a, model, epoch); fp_un(n.op, sw, n.w, x) }
            o if o.is_fun() => { let sw = self.w(n.a); let x = self.eval(n.a, model, epoch); fp_un(n.op, sw, n.w, x) }
            _ => { let w = self.w(n.a); let x = self.eval(n.a, model, epoch); let y = self.eval(n.b, model, epoch); Self::const_bin(n.op, w, x, y) }
        };
        self.memo[e as usize] = (epoch, v);
        v
    }

    /// Source of a floating-point chain: the unique non-constant integer leaf feeding `e`, if any.
    pub fn fp_source(&self, e: E) -> Option<E> {
        let n = self.node(e);
        match n.op {
            Op::Const => None,
            Op::UiToFp | Op::SiToFp => Some(n.a),
            o if o.is_fbin() => {
                match (self.is_const(n.a).is_some(), self.is_const(n.b).is_some()) {
                    (false, true) => self.fp_source(n.a), (true, false) => self.fp_source(n.b),
                    (false, false) => { let (x, y) = (self.fp_source(n.a), self.fp_source(n.b)); if x == y { x } else { None } }
                    _ => None }
            }
            o if o.is_fun() => self.fp_source(n.a),
            _ => None,
        }
    }
    /// A choice between floating-point values inside an fp chain, if any.
    pub fn fp_choice(&self, e: E) -> Option<E> {
        let n = self.node(e);
        match n.op { Op::Ite => Some(e), o if o.is_fbin() => self.fp_choice(n.a).or_else(|| self.fp_choice(n.b)), o if o.is_fun() => self.fp_choice(n.a), _ => None }
    }
    pub fn fp_replace(&mut self, e: E, from: E, to: E) -> E {
        if e == from { return to; }
        let n = *self.node(e);
        match n.op {
            o if o.is_fbin() => { let (x, y) = (self.fp_replace(n.a, from, to), self.fp_replace(n.b, from, to)); self.fbin(n.op, x, y) }
            o if o.is_fun() => { let x = self.fp_replace(n.a, from, to); self.fun(n.op, x, n.w) }
            _ => e,
        }
    }
    /// Concrete evaluation of an fp chain with its source replaced by `v`.
    pub fn fp_eval(&self, e: E, src: E, v: u64) -> u128 {
        if e == src { return v as u128; }
        let n = self.node(e);
        match n.op {
            Op::Const => n.k,
            o if o.is_fbin() => fp_bin(n.op, self.w(n.a), self.fp_eval(n.a, src, v), self.fp_eval(n.b, src, v)),
            _ => fp_un(n.op, self.w(n.a), n.w, self.fp_eval(n.a, src, v)),
        }
    }
    /// Replace an integer-valued floating-point chain by an exact table / linear form over [lo,hi] of its source.
    /// Every value of the source in [lo,hi] is evaluated with IEEE arithmetic, so the result is exact there.
    pub fn tabulate(&mut self, e: E, src: E, lo: u64, hi: u64) -> E {
        let w = self.w(e);
        let mut segs: Vec<(u64, u64)> = vec![];
        for v in lo..=hi {
            let r = self.fp_eval(e, src, v) as u64;
            match segs.last_mut() { Some(l) if l.1 == r => l.0 = v, _ => segs.push((v, r)) }
        }
        if segs.len() > 12 && self.w(src) <= 64 {
            if let Some((aa, bb, cc)) = fit_linear(&segs, lo) {
                // (src*aa + bb) / cc without overflow
                let sw = self.w(src);
                let top = hi as u128 * aa as u128 + bb as u128;
                let need = (128 - top.leading_zeros()) as u16;
                let ww = need.max(w).max((64 - cc.leading_zeros()) as u16).max(1);
                let s = if sw >= ww { self.extract(src, 0, ww) } else { self.zext(src, ww) };
                let (ka, kb, kc) = (self.konst(ww, aa as u128), self.konst(ww, bb as u128), self.konst(ww, cc as u128));
                let p = self.bin(Op::Mul, s, ka); let p = self.bin(Op::Add, p, kb); let q = self.bin(Op::UDiv, p, kc);
                return self.extract(q, 0, w);
            }
        }
        self.tab(src, w, segs)
    }
}

/// Find A,B,C with (s*A+B)/C == table(s) for every s in [lo, last]; exact by interval intersection.
fn fit_linear(segs: &[(u64, u64)], lo: u64) -> Option<(u64, u64, u64)> {
    let hi = segs.last()?.0;
    let (f0, f1) = (segs[0].1, segs.last()?.1);
    if f1 <= f0 || hi <= lo { return None; }
    let mut cands: Vec<(u64, u64)> = vec![];
    // slope lies in (f1-f0-1, f1-f0+1)/(hi-lo): enumerate small denominators
    let d = hi - lo;
    let (mn, mx) = ((f1 - f0).saturating_sub(1) as f64 / d as f64, (f1 - f0 + 1) as f64 / d as f64);
    for c in 1..=2048u64 { let a0 = (mn * c as f64).ceil() as u64; let a1 = (mx * c as f64).floor() as u64; for a in a0..=a1.min(a0 + 2) { if a > 0 { cands.push((a, c)); } } if cands.len() > 400 { break; } }
    'c: for (a, c) in cands {
        let (mut bl, mut bh) = (0i128, i128::MAX);
        let mut start = lo;
        for &(h, v) in segs {
            // for s in [start,h]: c*v <= s*a+b < c*(v+1)
            bl = bl.max(c as i128 * v as i128 - start as i128 * a as i128);
            bh = bh.min(c as i128 * (v as i128 + 1) - h as i128 * a as i128 - 1);
            if bl > bh { continue 'c; }
            start = h + 1;
        }
        return Some((a, bl as u64, c));
    }
    None
}
impl Pool {
    /// Range constraint on a variable, built without the simplifier (which already assumes it).
    pub fn raw_range(&mut self, v: E, lo: u64, hi: u64) -> Option<E> {
        let w = self.w(v);
        let mut r: Option<E> = None;
        if lo > 0 { let l = self.konst(w, lo as u128); r = Some(self.mk(Op::Ule, 1, l, v, 0)); }
        if hi < mask64(w) { let h = self.konst(w, hi as u128); let c = self.mk(Op::Ule, 1, v, h, 0); r = Some(match r { None => c, Some(p) => self.mk(Op::And, 1, p, c, 0) }); }
        r
    }
    pub fn low_zeros(&self, e: E) -> u16 { self.low_zero_bits(e) }
}
