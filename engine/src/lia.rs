//! The integer encoding: expressions as linear forms over integer atoms, with every wrap-around made explicit.
//! Values that are equal for linear reasons come out as the same form, and divisions by constants lose every
//! multiple of the divisor, so most timing questions reach the solver without a division in them.
use crate::expr::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::ffi::CString;
use std::rc::Rc;

/// Sum of coefficient * atom plus a constant; `lo..=hi` bounds its value wherever the expression it came from is used.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin { t: Vec<(u32, i128)>, k: i128, lo: i128, hi: i128 }

#[derive(PartialEq, Eq, Hash, Clone)]
enum Key { Var(usize), Div(Lin, i128), Ite(usize, Lin, Lin), Tab(usize, Lin), Abs(E), Bool(usize) }

#[derive(Default)]
pub struct Lia {
    atoms: Vec<(P, i128, i128)>,
    keys: HashMap<Key, u32>,
    lins: HashMap<E, Option<Rc<Lin>>>,
    bools: HashMap<E, Option<P>>,
    ivars: Vec<P>,
    pub abs: BTreeMap<E, (P, Vec<P>)>,
    deps: HashMap<E, Rc<(Vec<usize>, Vec<E>)>>,
}

fn merge(a: &[(u32, i128)], b: &[(u32, i128)], f: i128) -> Option<Vec<(u32, i128)>> {
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) { o.push(a[i]); i += 1; }
        else if i == a.len() || b[j].0 < a[i].0 { o.push((b[j].0, b[j].1.checked_mul(f)?)); j += 1; }
        else { let c = a[i].1.checked_add(b[j].1.checked_mul(f)?)?; if c != 0 { o.push((a[i].0, c)); } i += 1; j += 1; }
    }
    Some(o)
}

const BIG: i128 = 1 << 100;

impl Solver {
    pub fn inum(&self, v: i128) -> P { unsafe { if v >= 0 && v <= u64::MAX as i128 { k_unsigned_int64(self.ctx, v as u64, self.isort) } else { let t = CString::new(v.to_string()).unwrap(); k_numeral(self.ctx, t.as_ptr(), self.isort) } } }
    pub fn ivar(&mut self, id: usize) -> P {
        while self.lia.ivars.len() <= id {
            let i = self.lia.ivars.len();
            let nm = CString::new(format!("i{}_{}", i, pool().vars[i].name)).unwrap();
            unsafe { let a = k_const(self.ctx, Z3_mk_string_symbol(self.ctx, nm.as_ptr()), self.isort); self.lia.ivars.push(a); }
        }
        self.lia.ivars[id]
    }
    fn bounds(&self, t: &[(u32, i128)], k: i128) -> (i128, i128) {
        let (mut lo, mut hi) = (k, k);
        for &(a, c) in t {
            let (_, l, h) = self.lia.atoms[a as usize];
            if c > 0 { lo += c * l; hi += c * h; } else { lo += c * h; hi += c * l; }
        }
        (lo, hi)
    }
    fn lconst(&self, v: i128) -> Lin { Lin { t: vec![], k: v, lo: v, hi: v } }
    /// Tightest of what the form itself says and what is known otherwise.
    fn mk(&self, t: Vec<(u32, i128)>, k: i128, lo: i128, hi: i128) -> Option<Lin> {
        for x in &t { if x.1.abs() > BIG { return None; } }
        if k.abs() > BIG { return None; }
        let (l, h) = self.bounds(&t, k);
        Some(Lin { t, k, lo: l.max(lo), hi: h.min(hi) })
    }
    fn ladd(&self, a: &Lin, b: &Lin, f: i128) -> Option<Lin> {
        let t = merge(&a.t, &b.t, f)?;
        let (l, h) = if f > 0 { (a.lo + f * b.lo, a.hi + f * b.hi) } else { (a.lo + f * b.hi, a.hi + f * b.lo) };
        self.mk(t, a.k + f * b.k, l, h)
    }
    fn lscale(&self, a: &Lin, f: i128) -> Option<Lin> { let z = self.lconst(0); self.ladd(&z, a, f) }
    fn lshift(&self, a: &Lin, k: i128) -> Lin { Lin { t: a.t.clone(), k: a.k + k, lo: a.lo + k, hi: a.hi + k } }
    fn lclamp(&self, mut a: Lin, lo: i128, hi: i128) -> Lin { if lo > a.lo { a.lo = lo; } if hi < a.hi { a.hi = hi; } a }
    pub fn term(&self, a: &Lin) -> P {
        unsafe {
            let mut v: Vec<P> = vec![];
            for &(x, c) in &a.t { let p = self.lia.atoms[x as usize].0; v.push(if c == 1 { p } else { k_mul(self.ctx, self.inum(c), p) }); }
            if a.k != 0 || v.is_empty() { v.push(self.inum(a.k)); }
            if v.len() == 1 { v[0] } else { k_sum(self.ctx, &v) }
        }
    }
    fn atom(&mut self, key: Key, lo: i128, hi: i128, p: impl FnOnce(&mut Solver) -> P) -> Lin {
        if lo == hi { return self.lconst(lo); }
        let i = match self.lia.keys.get(&key) { Some(i) => *i, None => {
            let p = p(self);
            let i = self.lia.atoms.len() as u32;
            self.lia.atoms.push((p, lo, hi));
            self.lia.keys.insert(key, i);
            i
        } };
        Lin { t: vec![(i, 1)], k: 0, lo, hi }
    }
    /// Floor division by a positive constant.
    fn ldiv(&mut self, a: &Lin, d: i128) -> Option<Lin> {
        if d == 1 { return Some(a.clone()); }
        // a = d * q + b, with the coefficients of b as small as they get
        let near = |c: i128| { let q = c.div_euclid(d); let r = c.rem_euclid(d); if r * 2 > d { (q + 1, r - d) } else { (q, r) } };
        let (mut qt, mut bt) = (vec![], vec![]);
        for &(x, c) in &a.t { let (q, r) = near(c); if q != 0 { qt.push((x, q)); } if r != 0 { bt.push((x, r)); } }
        let (qk, bk) = (a.k.div_euclid(d), a.k.rem_euclid(d));
        let q = self.mk(qt, qk, -BIG, BIG)?;
        let mut b = self.mk(bt, bk, -BIG, BIG)?;
        if q.t.is_empty() { b = self.lclamp(b, a.lo - q.k * d, a.hi - q.k * d); }
        let (l, h) = (b.lo.div_euclid(d), b.hi.div_euclid(d));
        let (ql, qh) = (a.lo.div_euclid(d), a.hi.div_euclid(d));
        if ql >= qh { return Some(self.lconst(ql)); }
        let r = if l == h { self.lshift(&q, l) } else {
            let bb = b.clone();
            let f = self.atom(Key::Div(b, d), l, h, move |s| unsafe {
                let t = s.term(&bb);
                if h - l <= 3 {
                    let mut r = s.inum(h);
                    for j in (l..h).rev() { let lim = s.inum((j + 1) * d); let c = k_lt(s.ctx, t, lim); r = k_ite(s.ctx, c, s.inum(j), r); }
                    r
                } else { k_div(s.ctx, t, s.inum(d)) }
            });
            self.ladd(&q, &f, 1)?
        };
        Some(self.lclamp(r, ql, qh))
    }
    fn lmod(&mut self, a: &Lin, d: i128) -> Option<Lin> {
        if a.lo >= 0 && a.hi < d { return Some(a.clone()); }
        let q = self.ldiv(a, d)?;
        let r = self.ladd(a, &q, -d)?;
        Some(self.lclamp(r, 0, d - 1))
    }
    fn wrap(&mut self, a: &Lin, w: u16) -> Option<Lin> { self.lmod(a, 1i128 << w) }
    fn lsigned(&mut self, e: E) -> Option<Lin> {
        let w = pool().w(e);
        if w > 64 { return None; }
        let x = self.lin(e)?;
        let h = 1i128 << (w - 1);
        if x.hi < h { return Some((*x).clone()); }
        let s = self.lshift(&x, h);
        let q = self.ldiv(&s, 2 * h)?;
        let r = self.ladd(&x, &q, -2 * h)?;
        Some(self.lclamp(r, -h, h - 1))
    }
    fn lite(&mut self, c: P, x: &Lin, y: &Lin) -> Option<Lin> {
        // the part both sides share stays outside
        let mut common = vec![];
        for &(a, f) in &x.t { if y.t.iter().any(|&(b, g)| a == b && f == g) { common.push((a, f)); } }
        let com = self.mk(common, 0, -BIG, BIG)?;
        let (mut x1, mut y1) = (self.ladd(x, &com, -1)?, self.ladd(y, &com, -1)?);
        if com.t.is_empty() { x1 = x.clone(); y1 = y.clone(); } else { let (a, b) = (self.bounds(&x1.t, x1.k), self.bounds(&y1.t, y1.k)); x1.lo = a.0; x1.hi = a.1; y1.lo = b.0; y1.hi = b.1; }
        let k = if x1.k == y1.k { x1.k } else { 0 };
        if k != 0 { x1 = self.lshift(&x1, -k); y1 = self.lshift(&y1, -k); }
        let (lo, hi) = (x1.lo.min(y1.lo), x1.hi.max(y1.hi));
        let r = if x1.t == y1.t && x1.k == y1.k { let mut r = x1.clone(); r.lo = lo; r.hi = hi; r } else {
            let (xa, ya) = (x1.clone(), y1.clone());
            self.atom(Key::Ite(c as usize, x1, y1), lo, hi, move |s| unsafe { let (p, q) = (s.term(&xa), s.term(&ya)); k_ite(s.ctx, c, p, q) })
        };
        let r = self.ladd(&com, &r, 1)?;
        let r = self.lshift(&r, k);
        Some(self.lclamp(r, x.lo.min(y.lo), x.hi.max(y.hi)))
    }
    pub fn inot(&self, x: P) -> P {
        unsafe { let (t, f) = (k_true(self.ctx), k_false(self.ctx)); if x == t { f } else if x == f { t } else { k_not(self.ctx, x) } }
    }
    /// x < 0
    fn lneg(&self, x: &Lin) -> P {
        unsafe {
            if x.hi < 0 { return k_true(self.ctx); }
            if x.lo >= 0 { return k_false(self.ctx); }
            let mut g = 0i128;
            for &(_, c) in &x.t { g = gcd(g, c.abs()); }
            // sum < -k  <=>  sum/g <= (-k-1) div g
            let r = (-x.k - 1).div_euclid(g);
            let l = Lin { t: x.t.iter().map(|&(a, c)| (a, c / g)).collect(), k: 0, lo: 0, hi: 0 };
            k_le(self.ctx, self.term(&l), self.inum(r))
        }
    }
    fn lzero(&self, x: &Lin) -> P {
        unsafe {
            if x.hi < 0 || x.lo > 0 { return k_false(self.ctx); }
            if x.t.is_empty() { return if x.k == 0 { k_true(self.ctx) } else { k_false(self.ctx) }; }
            let mut g = 0i128;
            for &(_, c) in &x.t { g = gcd(g, c.abs()); }
            if x.k % g != 0 { return k_false(self.ctx); }
            if x.t[0].1 < 0 { g = -g; }
            let l = Lin { t: x.t.iter().map(|&(a, c)| (a, c / g)).collect(), k: 0, lo: 0, hi: 0 };
            k_eq(self.ctx, self.term(&l), self.inum(-x.k / g))
        }
    }
    pub fn ibool(&mut self, e: E) -> Option<P> {
        if let Some(r) = self.lia.bools.get(&e) { return *r; }
        let r = self.ibool0(e);
        self.lia.bools.insert(e, r);
        r
    }
    fn cmp(&mut self, a: Option<Lin>, b: Option<Lin>) -> Option<Lin> { self.ladd(&a?, &b?, -1) }
    fn ibool0(&mut self, e: E) -> Option<P> {
        let n = *pool().node(e);
        let c = self.ctx;
        let l = |s: &mut Solver, e: E| s.lin(e).map(|x| (*x).clone());
        Some(unsafe { match n.op {
            Op::Const => if n.k == 1 { k_true(c) } else { k_false(c) },
            Op::Eq => if pool().w(n.a) == 1 { let (x, y) = (self.ibool(n.a)?, self.ibool(n.b)?); k_eq(c, x, y) } else { let (x, y) = (l(self, n.a), l(self, n.b)); let d = self.cmp(x, y)?; self.lzero(&d) },
            Op::Ult => { let (x, y) = (l(self, n.a), l(self, n.b)); let d = self.cmp(x, y)?; self.lneg(&d) }
            Op::Ule => { let (x, y) = (l(self, n.a), l(self, n.b)); let d = self.cmp(x, y)?; let d = self.lshift(&d, -1); self.lneg(&d) }
            Op::Slt => { let (x, y) = (self.lsigned(n.a), self.lsigned(n.b)); let d = self.cmp(x, y)?; self.lneg(&d) }
            Op::Sle => { let (x, y) = (self.lsigned(n.a), self.lsigned(n.b)); let d = self.cmp(x, y)?; let d = self.lshift(&d, -1); self.lneg(&d) }
            Op::And | Op::Or => {
                let v = [self.ibool(n.a)?, self.ibool(n.b)?];
                let (t, f) = (k_true(c), k_false(c));
                let (zero, one) = if n.op == Op::And { (f, t) } else { (t, f) };
                if v[0] == zero || v[1] == zero { zero } else if v[0] == one { v[1] } else if v[1] == one { v[0] }
                else if n.op == Op::And { k_and(c, 2, v.as_ptr()) } else { k_or(c, 2, v.as_ptr()) }
            }
            Op::Xor => if n.b == TRUE { let x = self.ibool(n.a)?; self.inot(x) } else { let (x, y) = (self.ibool(n.a)?, self.ibool(n.b)?); k_xor(c, x, y) },
            Op::Ite => { let (p, x, y) = (self.ibool(n.a)?, self.ibool(n.b)?, self.ibool(n.c)?); k_ite(c, p, x, y) }
            _ => { let x = self.lin(e)?; let one = self.inum(1); k_eq(c, self.term(&x), one) }
        } })
    }
    fn lin(&mut self, e: E) -> Option<Rc<Lin>> {
        if let Some(r) = self.lia.lins.get(&e) { return r.clone(); }
        let mut r = self.lin0(e);
        if r.is_none() { r = self.abstracted(e); }
        let r = r.map(|l| { let iv = pool().interval(e); Rc::new(self.lclamp(l, iv.0 as i128, iv.1 as i128)) });
        if r.is_none() && std::env::var("SYMEX_INTLESS").is_ok() { let n = *pool().node(e); eprintln!("no integer form: {:?} w={} a={:?} b={:?}", n.op, n.w, pool().node(n.a), pool().node(n.b)); }
        self.lia.lins.insert(e, r.clone());
        r
    }
    fn lin0(&mut self, e: E) -> Option<Lin> {
        let n = *pool().node(e);
        if n.w > 64 { return None; }
        let w = n.w;
        if n.op == Op::Const { return Some(self.lconst(n.k as i128)); }
        let m = mask64(w) as i128;
        let kc = |e: E| pool().is_const(e).map(|k| k as i128);
        match n.op {
            Op::Var => { let (lo, hi) = pool().interval(e); let p = self.ivar(n.k as usize); Some(self.atom(Key::Var(n.k as usize), lo as i128, hi as i128, |_| p)) }
            Op::Bnd => {
                let i = *pool().node(n.a);
                let (lo, hi) = pool().interval(e);
                let (lo, hi) = (lo as i128, hi as i128);
                let x = self.lin(n.a)?;
                if matches!(i.op, Op::Sub | Op::Add) {
                    // known to lie in lo..=hi: if no other wrap of the plain form could, the plain form it is
                    let (a, b) = (self.lin(i.a)?, self.lin(i.b)?);
                    let plain = self.ladd(&a, &b, if i.op == Op::Sub { -1 } else { 1 })?;
                    if plain.lo + m + 1 > hi && plain.hi - m - 1 < lo { return Some(self.lclamp(plain, lo, hi)); }
                }
                Some(self.lclamp((*x).clone(), lo, hi))
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let b = self.ibool(e)?; Some(self.atom(Key::Bool(b as usize), 0, 1, |s| unsafe { k_ite(s.ctx, b, s.inum(1), s.inum(0)) })) }
            Op::And | Op::Or | Op::Xor if w == 1 => { let b = self.ibool(e)?; Some(self.atom(Key::Bool(b as usize), 0, 1, |s| unsafe { k_ite(s.ctx, b, s.inum(1), s.inum(0)) })) }
            Op::Add => {
                let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
                let mut s = self.ladd(&x, &y, 1)?;
                if let Some(k) = kc(n.b) { if k > m / 2 { s = self.lshift(&s, -m - 1); } }
                self.wrap(&s, w)
            }
            Op::Sub => { let (x, y) = (self.lin(n.a)?, self.lin(n.b)?); let s = self.ladd(&x, &y, -1)?; self.wrap(&s, w) }
            Op::Mul => {
                let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
                let s = if x.t.is_empty() { self.lscale(&y, x.k)? } else if y.t.is_empty() { self.lscale(&x, y.k)? } else { return None };
                self.wrap(&s, w)
            }
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
                if !y.t.is_empty() || y.k == 0 { return None; }
                if matches!(n.op, Op::SDiv | Op::SRem) && (y.k > m / 2 || x.hi > m / 2) { return None; }
                if matches!(n.op, Op::UDiv | Op::SDiv) { self.ldiv(&x, y.k) } else { self.lmod(&x, y.k) }
            }
            Op::And => {
                // only masks made of one run of ones
                let (v, k) = match (kc(n.a), kc(n.b)) { (None, Some(k)) => (n.a, k), (Some(k), None) => (n.b, k), _ => return None };
                if k == 0 { return Some(self.lconst(0)); }
                let lo = k.trailing_zeros(); let run = (k >> lo).trailing_ones();
                if k >> lo >> run != 0 { return None; }
                let x = self.lin(v)?;
                let d = self.ldiv(&x, 1i128 << lo)?;
                let r = self.lmod(&d, 1i128 << run)?;
                self.lscale(&r, 1i128 << lo)
            }
            Op::Or | Op::Xor => {
                if n.op == Op::Xor && kc(n.b) == Some(m) { let x = self.lin(n.a)?; let t = self.lconst(m); return self.ladd(&t, &x, -1); }
                // disjoint bits
                let z = pool().low_zeros(n.a); let y = pool().low_zeros(n.b);
                let iv = |e: E| pool().interval(e).1 as u128;
                if !((z > 0 && iv(n.b) < 1u128 << z) || (y > 0 && iv(n.a) < 1u128 << y)) { return None; }
                let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
                self.ladd(&x, &y, 1)
            }
            Op::Shl => { let k = kc(n.b)?; if k >= w as i128 { return None; } let x = self.lin(n.a)?; let s = self.lscale(&x, 1i128 << k)?; self.wrap(&s, w) }
            Op::LShr => { let k = kc(n.b)?; if k >= w as i128 { return None; } let x = self.lin(n.a)?; self.ldiv(&x, 1i128 << k) }
            Op::AShr => { let k = kc(n.b)?; if k >= w as i128 { return None; } let x = self.lsigned(n.a)?; let q = self.ldiv(&x, 1i128 << k)?; self.wrap(&q, w) }
            Op::Ite => { let p = self.ibool(n.a)?; let (x, y) = (self.lin(n.b)?, self.lin(n.c)?); self.lite(p, &x, &y) }
            Op::Extract => {
                if pool().w(n.a) > 64 { return None; }
                let x = self.lin(n.a)?;
                let d = self.ldiv(&x, 1i128 << n.k)?;
                self.wrap(&d, w)
            }
            Op::Concat => { let (x, y) = (self.lin(n.a)?, self.lin(n.b)?); let s = self.lscale(&x, 1i128 << pool().w(n.b))?; self.ladd(&s, &y, 1) }
            Op::SExt => { let x = self.lsigned(n.a)?; self.wrap(&x, w) }
            Op::Tab => {
                let x = self.lin(n.a)?;
                let (lo, hi) = (x.lo.max(0) as u64, x.hi.max(0) as u64);
                // the segments that matter
                let mut segs: Vec<(u64, u64)> = vec![];
                let mut from = 0u64;
                for &(h, v) in &pool().tabs[n.k as usize].segs { if h >= lo && from <= hi { segs.push((h.min(hi), v)); } if h == u64::MAX { break; } from = h + 1; }
                if segs.is_empty() { return None; }
                if segs.len() == 1 { return Some(self.lconst(segs[0].1 as i128)); }
                // steps of equal width and height: a division
                let height = segs[1].1 as i128 - segs[0].1 as i128;
                let width = if segs.len() > 2 { (segs[1].0 - segs[0].0) as i128 } else { 0 };
                if width > 0 && (1..segs.len()).all(|i| segs[i].1 as i128 - segs[i - 1].1 as i128 == height) && (1..segs.len() - 1).all(|i| (segs[i].0 - segs[i - 1].0) as i128 == width)
                    && (segs[0].0 - lo) < width as u64 && (segs[segs.len() - 1].0 - segs[segs.len() - 2].0) as i128 <= width {
                    // the first segment ends at segs[0].0
                    let s = self.lshift(&x, width - 1 - segs[0].0 as i128);
                    let q = self.ldiv(&s, width)?;
                    let r = self.lscale(&q, height)?;
                    return Some(self.lshift(&r, segs[0].1 as i128));
                }
                let (mn, mx) = (segs.iter().map(|s| s.1).min().unwrap() as i128, segs.iter().map(|s| s.1).max().unwrap() as i128);
                let xx = (*x).clone();
                Some(self.atom(Key::Tab(n.k as usize, xx.clone()), mn, mx, move |s| { let t = s.term(&xx); s.itab(&segs, t) }))
            }
            _ => None,
        }
    }
    fn itab(&self, segs: &[(u64, u64)], src: P) -> P {
        if segs.len() == 1 { return self.inum(segs[0].1 as i128); }
        let mid = segs.len() / 2;
        unsafe {
            let k = self.inum(segs[mid - 1].0 as i128);
            let c = k_le(self.ctx, src, k);
            let (a, b) = (self.itab(&segs[..mid], src), self.itab(&segs[mid..], src));
            k_ite(self.ctx, c, a, b)
        }
    }
    /// An operation without a linear form becomes a variable of its range, to be refined when a model contradicts it.
    fn abstracted(&mut self, e: E) -> Option<Lin> {
        let n = *pool().node(e);
        if n.w > 64 || !matches!(n.op, Op::UDiv | Op::URem | Op::Mul | Op::Shl | Op::LShr | Op::And | Op::Or | Op::Xor) || pool().w(n.a) > 64 { return None; }
        let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
        let (x, y) = (self.term(&x), self.term(&y));
        let nm = CString::new(format!("f{}", e)).unwrap();
        let c = self.ctx;
        let (lo, hi) = pool().interval(e);
        unsafe {
            let v = k_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), self.isort);
            let (l, h) = (self.inum(lo as i128), self.inum(hi as i128));
            let mut side = vec![k_le(c, l, v), k_le(c, v, h)];
            let one = self.inum(1);
            let nz = k_le(c, one, y);
            match n.op {
                Op::URem => { let b = k_lt(c, v, y); let nn = k_not(c, nz); side.push(k_or(c, 2, [nn, b].as_ptr())); side.push(k_le(c, v, x)); let small = k_lt(c, x, y); let eq = k_eq(c, v, x); let ns = k_not(c, small); side.push(k_or(c, 2, [ns, eq].as_ptr())); }
                Op::UDiv => { let b = k_le(c, v, x); let nn = k_not(c, nz); side.push(k_or(c, 2, [nn, b].as_ptr())); let small = k_lt(c, x, y); let z = self.inum(0); let eq = k_eq(c, v, z); let ns = k_not(c, small); side.push(k_or(c, 2, [ns, eq].as_ptr())); }
                Op::And => { side.push(k_le(c, v, x)); side.push(k_le(c, v, y)); }
                Op::Or => { side.push(k_le(c, x, v)); side.push(k_le(c, y, v)); side.push(k_le(c, v, k_sum(c, &[x, y]))); }
                Op::Xor => side.push(k_le(c, v, k_sum(c, &[x, y]))),
                _ => {}
            }
            self.lia.abs.insert(e, (v, side));
            Some(self.atom(Key::Abs(e), lo as i128, hi as i128, |_| v))
        }
    }
    pub fn vars_of(&mut self, r: E) -> Vec<usize> { self.deps(r).0.clone() }
    fn deps(&mut self, r: E) -> Rc<(Vec<usize>, Vec<E>)> {
        if let Some(d) = self.lia.deps.get(&r) { return d.clone(); }
        // abstracted operations are found only once the linear form exists
        let _ = self.ibool(r);
        let mut seen = HashSet::new();
        let (mut v, mut a) = (vec![], vec![]);
        let mut st = vec![r];
        while let Some(e) = st.pop() {
            if !seen.insert(e) { continue; }
            let n = *pool().node(e);
            if n.op == Op::Var { v.push(n.k as usize); }
            if self.lia.abs.contains_key(&e) { a.push(e); }
            st.extend(kids(&n));
        }
        let d = Rc::new((v, a));
        self.lia.deps.insert(r, d.clone());
        d
    }
    /// The variables and abstracted operations a set of expressions depends on.
    pub fn atoms_in(&mut self, roots: &[E]) -> (Vec<usize>, Vec<E>) {
        let (mut vs, mut ab) = (HashSet::new(), HashSet::new());
        for &r in roots {
            let d = self.deps(r);
            vs.extend(d.0.iter().copied()); ab.extend(d.1.iter().copied());
        }
        let (mut v, mut a): (Vec<usize>, Vec<E>) = (vs.into_iter().collect(), ab.into_iter().collect());
        v.sort(); a.sort();
        (v, a)
    }
    /// The model `m` gives the abstracted `e` a wrong value: pin it down for the second operand's current value.
    pub fn refine(&mut self, e: E, m: &[u64], epoch: u32) -> Option<P> {
        let n = *pool().node(e);
        let k = pool().eval(n.b, m, epoch) as i128;
        let (x, y) = (self.lin(n.a)?, self.lin(n.b)?);
        if matches!(n.op, Op::UDiv | Op::URem) && k > 0 {
            let j = pool().eval(n.a, m, epoch) as i128 / k;
            if j <= 32 {
                // j*y <= x < (j+1)*y  =>  the quotient is j, the remainder x - j*y
                let lo = self.ladd(&x, &y, -j)?;
                let hi = self.ladd(&x, &y, -j - 1)?;
                let c = self.ctx;
                unsafe {
                    let below = self.lneg(&lo);
                    let lt = self.lneg(&hi);
                    let above = k_not(c, lt);
                    let f = self.lia.abs[&e].0;
                    let eq = if n.op == Op::UDiv { k_eq(c, f, self.inum(j)) } else { k_eq(c, f, self.term(&lo)) };
                    return Some(k_or(c, 3, [below, above, eq].as_ptr()));
                }
            }
        }
        let rhs = match n.op {
            Op::UDiv if k > 0 => self.ldiv(&x, k)?,
            Op::URem if k > 0 => self.lmod(&x, k)?,
            Op::Mul => { let s = self.lscale(&x, k)?; self.wrap(&s, n.w)? }
            Op::Shl if k < n.w as i128 => { let s = self.lscale(&x, 1i128 << k)?; self.wrap(&s, n.w)? }
            Op::LShr if k < n.w as i128 => self.ldiv(&x, 1i128 << k)?,
            Op::And | Op::Or | Op::Xor => {
                // only for these very values
                let ka = pool().eval(n.a, m, epoch) as i128;
                let v = pool().eval(e, m, epoch) as i128;
                let c = self.ctx;
                unsafe {
                    let (a1, b1) = (self.lshift(&x, -ka), self.lshift(&y, -k));
                    let (p, q) = (self.lzero(&a1), self.lzero(&b1));
                    let (np, nq) = (k_not(c, p), k_not(c, q));
                    let r = k_eq(c, self.lia.abs[&e].0, self.inum(v));
                    return Some(k_or(c, 3, [np, nq, r].as_ptr()));
                }
            }
            _ => return None,
        };
        unsafe {
            let c = self.ctx;
            let d = self.lshift(&y, -k);
            let at = self.lzero(&d);
            let na = k_not(c, at);
            let eq = k_eq(c, self.lia.abs[&e].0, self.term(&rhs));
            Some(k_or(c, 2, [na, eq].as_ptr()))
        }
    }
}
fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a } else { gcd(b, a % b) } }
