//! The symbolic interpreter: steps instructions, forks on symbolic decisions, asks the solver.
use crate::env;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::par::Par;
use crate::state::*;
use crate::z3::Solver;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Handler = fn(&mut Exec, &mut State, &CallInfo) -> R<V>;
pub struct CallInfo<'a> { pub name: &'static str, pub args: &'a [V], pub argw: &'a [u16], pub ty: &'a Ty, pub dst: Option<u32> }

#[derive(Clone, Copy)]
pub enum FnKind { Unknown, Ir, Native(Handler), Panic(u8), Redirect(u32) }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub done: u64, pub assumed: u64, pub panics_ok: u64, pub insts: u64, pub forks: u64, pub sym_branches: u64, pub concretizations: u64,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub solver_time: f64, pub solver_max: f64,
    pub checks: u64, pub trivially: u64, pub discharged: u64, pub max_branches: u64, pub max_insts: u64,
    pub reach: BTreeMap<String, u64>, pub check_ids: BTreeMap<String, u64>,
}
#[derive(Clone)]
pub struct Sample { pub inputs: Vec<(String, u64)>, pub observed: Vec<(String, Vec<u8>)>, pub end: String, pub marks: Vec<String> }
#[derive(Clone)]
pub struct Violation { pub id: String, pub what: String, pub inputs: Vec<(String, u64)>, pub observed: Vec<(String, Vec<u8>)> }

pub struct Config { pub out: String, pub budget: u64, pub rlimit: u32, pub known: Vec<String>, pub only: Vec<String>, pub params: HashMap<String, u64>, pub samples: usize, pub verbose: bool, pub deadline: f64 }

pub struct Exec {
    pub m: Module, pub solver: Solver, pub cfg: Config, pub stats: Stats, pub stack: Vec<State>,
    pub kinds: Vec<FnKind>, pub ginit: Vec<Option<Rc<Obj>>>, pub touched: Vec<bool>,
    pub violations: Vec<Violation>, pub samples: Vec<Sample>, pub par: Par,
    pub varmap: HashMap<(usize, String, u64, u64), E>, pub fpmemo: FxMap<(E, u64, u64), E>, pub t0: std::time::Instant,
    tick: u64,
}

impl Exec {
    pub fn new(m: Module, cfg: Config, par: Par) -> Exec {
        let nf = m.funcs.len(); let ng = m.globs.len();
        let rl = cfg.rlimit;
        Exec { m, solver: Solver::new(rl), cfg, stats: Stats::default(), stack: vec![], kinds: vec![FnKind::Unknown; nf], ginit: vec![None; ng], touched: vec![false; nf], violations: vec![], samples: vec![], par, varmap: HashMap::new(), fpmemo: Default::default(), t0: std::time::Instant::now(), tick: 0 }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let id = match self.m.syms.get(entry) { Some(Sym::F(i)) => *i, _ => die(&format!("no entry function {}", entry)) };
        let f = self.m.func(id);
        self.touched[id as usize] = true;
        let first = FIRST_GLOBAL_OBJ as u32 + self.m.globs.len() as u32;
        let mut st = State { frames: vec![], mem: Mem::new(first), pc: vec![], known: Default::default(), subst: Default::default(), model: Rc::new(vec![]), epoch: pool().new_epoch(),
            files: Default::default(), dirs: Default::default(), fds: vec![Some(FdKind::Sink), Some(FdKind::Sink), Some(FdKind::Sink)], tid: 0, threads: vec![(0, 0, false)], tls: Default::default(), errno: Default::default(), keys: vec![], keyvals: Default::default(),
            inputs: vec![], names: vec![], observed: vec![], on_panic: None, on_exit: None, panic_ok: false, faults: Default::default(), nwrites: 0, hash_mode: 0, hashes: Default::default(), insts: 0, branches: 0, marks: vec![] };
        let n = f.nregs as usize;
        st.frames.push(Frame { f, bb: 0, ip: 0, regs: vec![V::I(0); n], allocas: vec![], dst: None, act: RetAct::Finish });
        st
    }

    // ---- values ------------------------------------------------------------------------------
    #[inline] pub fn val(&self, st: &State, o: &Opd) -> V { match o { Opd::K(v) => v.clone(), Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone() } }
    pub fn to_e(&self, v: &V, w: u16) -> E { match v { V::I(x) => pool().konst(w, *x as u128), V::W(x) => pool().konst(w, *x), V::S(e) => { debug_assert_eq!(pool().w(*e), w); *e } V::Agg(_) => die("aggregate where scalar expected") } }
    pub fn from_e(&self, e: E) -> V { let n = pool().node(e); if n.op == Op::Const { if n.w <= 64 { V::I(n.k as u64) } else { V::W(n.k) } } else { V::S(e) } }
    /// Concrete 64-bit value, forking over the values of a symbolic one.
    pub fn conc(&self, st: &State, v: &V) -> R<u64> {
        match v { V::I(x) => Ok(*x), V::S(e) => match st.subst.get(e) { Some(x) => Ok(*x), None => Err(Trap::Conc(*e)) }, V::W(x) => Ok(*x as u64), V::Agg(_) => die("conc aggregate") }
    }
    pub fn decide(&self, st: &State, c: E) -> R<bool> {
        if c == TRUE { return Ok(true); } if c == FALSE { return Ok(false); }
        if let Some(b) = st.known.get(&c) { return Ok(*b); }
        let n = pool().not(c);
        if let Some(b) = st.known.get(&n) { return Ok(!*b); }
        Err(Trap::Cond(c))
    }
    pub fn eval(&self, st: &State, e: E) -> u128 { pool().eval(e, &st.model, st.epoch) }

    // ---- memory ------------------------------------------------------------------------------
    pub fn ensure_obj(&mut self, st: &mut State, id: u32) -> bool {
        if st.mem.get(id).is_some() { return true; }
        let g = (id as u64).wrapping_sub(FIRST_GLOBAL_OBJ);
        if (id as u64) < FIRST_GLOBAL_OBJ || g >= self.m.globs.len() as u64 { return false; }
        if self.ginit[g as usize].is_none() {
            let d = self.m.global_init(g as u32);
            let k = if self.m.globs[g as usize].constant { Kind::Const } else { Kind::Global };
            self.ginit[g as usize] = Some(Rc::new(Obj { data: d, sym: BTreeMap::new(), kind: k }));
        }
        let o = self.ginit[g as usize].clone().unwrap();
        st.mem.put(id, o);
        true
    }
    pub fn at(&mut self, st: &mut State, a: u64, n: usize) -> R<(u32, usize)> {
        let (id, off) = ((a >> 32) as u32, (a & 0xffff_ffff) as usize);
        if a < FN_BASE && self.ensure_obj(st, id) {
            let o = st.mem.get(id).unwrap();
            if o.kind != Kind::Dead && off + n <= o.data.len() { return Ok((id, off)); }
            return Err(Trap::End(End::Mem(format!("access of {} bytes at offset {} of {:?} object of size {} in {}", n, off, o.kind, o.data.len(), self.wher(st)))));
        }
        Err(Trap::End(End::Mem(format!("access of {} bytes at address {:#x} in {}", n, a, self.wher(st)))))
    }
    pub fn wher(&self, st: &State) -> String { st.frames.iter().rev().take(6).map(|f| demangle(self.m.funcs[f.f.id as usize].name)).collect::<Vec<_>>().join(" < ") }
    pub fn ld(&mut self, st: &mut State, a: u64, n: usize) -> R<V> {
        let (id, off) = self.at(st, a, n)?;
        let o = st.mem.get(id).unwrap();
        Ok(self.ld_obj(o, off, n))
    }
    fn ld_obj(&self, o: &Obj, off: usize, n: usize) -> V {
        if !o.has_sym(off, n) {
            if n <= 8 { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]); V::I(u64::from_le_bytes(b)) }
            else { let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.data[off..off + n]); V::W(u128::from_le_bytes(b)) }
        } else {
            let mut e = o.byte_e(off);
            for i in 1..n { let b = o.byte_e(off + i); e = pool().concat(b, e); }
            self.from_e(e)
        }
    }
    pub fn load_ty(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.scalar_w().unwrap(); let n = (w as usize + 7) / 8;
                let v = self.ld(st, a, n)?;
                Ok(if w as usize == n * 8 { v } else { match v { V::I(x) => V::I(x & mask64(w)), V::W(x) => V::W(x & mask(w)), V::S(e) => { let t = pool().trunc(e, w); self.from_e(t) } x => x } })
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, t) = ty { if t.scalar_w().unwrap() % 8 != 0 { die("load of bit vector"); } }
                let mut f = vec![];
                for i in 0..ty.nfields() { let t = ty.field(i); let o = ty.field_off(i); f.push(self.load_ty(st, a + o, &t)?); }
                Ok(V::Agg(Rc::new(f)))
            }
            _ => die("load type"),
        }
    }
    pub fn st_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (id, off) = self.at(st, a, b.len())?;
        let o = st.mem.get_mut(id).unwrap();
        o.data[off..off + b.len()].copy_from_slice(b);
        o.clear_sym(off, b.len());
        Ok(())
    }
    pub fn st_v(&mut self, st: &mut State, a: u64, n: usize, v: &V) -> R<()> {
        match v {
            V::I(x) => self.st_bytes(st, a, &x.to_le_bytes()[..n]),
            V::W(x) => self.st_bytes(st, a, &x.to_le_bytes()[..n]),
            V::S(e) => {
                let (id, off) = self.at(st, a, n)?;
                let w = pool().w(*e);
                let e = if (w as usize) < n * 8 { pool().zext(*e, (n * 8) as u16) } else { *e };
                let bs: Vec<E> = (0..n).map(|i| pool().extract(e, (8 * i) as u16, 8)).collect();
                let o = st.mem.get_mut(id).unwrap();
                for (i, b) in bs.into_iter().enumerate() { o.set_e(off + i, b); }
                Ok(())
            }
            V::Agg(_) => die("st agg"),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => { let w = ty.scalar_w().unwrap(); self.st_v(st, a, (w as usize + 7) / 8, v) }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, t) = ty { if t.scalar_w().unwrap() % 8 != 0 { die("store of bit vector"); } }
                let f = match v { V::Agg(f) => f.clone(), _ => die("store agg") };
                for i in 0..ty.nfields() { let t = ty.field(i); let o = ty.field_off(i); self.store_ty(st, a + o, &t, &f[i as usize])?; }
                Ok(())
            }
            _ => die("store type"),
        }
    }
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> R<V> {
        if let Some(x) = st.subst.get(&e) { let x = *x; return self.load_ty(st, x, ty); }
        let w = match ty.scalar_w() { Some(w) if w <= 64 => w, _ => return Err(Trap::Conc(e)) };
        let n = (w as usize + 7) / 8;
        let cur = self.eval(st, e) as u64;
        let (id, off) = self.at(st, cur, n)?;
        let size = st.mem.get(id).unwrap().data.len();
        let base = (id as u64) << 32;
        let p = pool();
        let bk = p.konst(64, base as u128);
        let off64 = p.sub(e, bk);
        let inr = p.in_range(off64, 0, (size - n) as u64);
        if !self.decide(st, inr)? { return Err(Trap::Conc(e)); }
        let off_e = p.extract(off64, 0, 32);
        let iv = p.interval(off_e);
        let (lo, hi) = (iv.0.min((size - n) as u64) as usize, iv.1.min((size - n) as u64) as usize);
        let k = p.low_zeros(off_e).min(6);
        let stride = 1usize << k;
        if off % stride != 0 { die("stride"); }
        let lo = (lo + stride - 1) / stride * stride;
        if hi < lo { return Err(Trap::Conc(e)); }
        let cnt = (hi - lo) / stride + 1;
        if cnt > 70000 { return Err(Trap::Conc(e)); }
        let o = st.mem.get(id).unwrap().clone();
        let src = p.extract(off_e, k, 32 - k);
        if !o.has_sym(lo, hi + n - lo) {
            let mut segs: Vec<(u64, u64)> = vec![];
            let mut a = lo;
            while a <= hi { if let V::I(v) = self.ld_obj(&o, a, n) { let ix = (a / stride) as u64; match segs.last_mut() { Some(l) if l.1 == v => l.0 = ix, _ => segs.push((ix, v)) } } a += stride; }
            segs.last_mut().unwrap().0 = mask64(32 - k);
            let segs: Vec<(u64, u64)> = segs.into_iter().map(|(h, v)| (h, v & mask64(w))).collect();
            if segs.len() > 600 { return Err(Trap::Conc(e)); }
            let t = p.tab(src, w, segs);
            return Ok(self.from_e(t));
        }
        if cnt > 80 { return Err(Trap::Conc(e)); }
        let mut acc: Option<E> = None;
        let mut a = hi / stride * stride;
        loop {
            if a < lo { break; }
            let v = self.ld_obj(&o, a, n);
            let ve = self.to_e(&v, (n * 8) as u16);
            let ve = p.trunc(ve, w);
            acc = Some(match acc { None => ve, Some(x) => { let kx = p.konst(32 - k, (a / stride) as u128); let c = p.bin(Op::Eq, src, kx); p.ite(c, ve, x) } });
            if a < stride { break; } a -= stride;
        }
        Ok(self.from_e(acc.unwrap()))
    }
    /// n bytes at a, as expressions
    pub fn bytes(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<E>> {
        if n == 0 { return Ok(vec![]); }
        let (id, off) = self.at(st, a, n)?;
        let o = st.mem.get(id).unwrap();
        Ok((0..n).map(|i| o.byte_e(off + i)).collect())
    }
    pub fn cbytes(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        let b = self.bytes(st, a, n)?;
        b.into_iter().map(|e| { let v = self.from_e(e); self.conc(st, &v).map(|x| x as u8) }).collect()
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<String> {
        let mut out = vec![]; let mut p = a;
        loop { let v = self.ld(st, p, 1)?; let c = self.conc(st, &v)? as u8; if c == 0 { break; } out.push(c); p += 1; }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = self.at(st, s, n)?; let (di, doff) = self.at(st, d, n)?;
        let src = st.mem.get(si).unwrap().clone();
        let dst = st.mem.get_mut(di).unwrap();
        dst.data[doff..doff + n].copy_from_slice(&src.data[so..so + n]);
        dst.clear_sym(doff, n);
        if !src.sym.is_empty() { for (k, e) in src.sym.range(so as u32..(so + n) as u32) { dst.sym.insert((*k as usize - so + doff) as u32, *e); } }
        Ok(())
    }

    // ---- floating point ------------------------------------------------------------------------
    fn fp_leaves(e: E, out: &mut Vec<E>) {
        let p = pool(); let n = *p.node(e);
        match n.op {
            Op::Const => {}
            Op::UiToFp | Op::SiToFp => if p.is_const(n.a).is_none() && !out.contains(&n.a) { out.push(n.a) },
            o if o.is_fbin() => { Self::fp_leaves(n.a, out); Self::fp_leaves(n.b, out); }
            o if o.is_fun() => Self::fp_leaves(n.a, out),
            _ => out.push(u32::MAX),
        }
    }
    fn fp_subst(e: E, m: &FxMap<E, u64>) -> E {
        let p = pool(); let n = *p.node(e);
        match n.op {
            Op::UiToFp | Op::SiToFp => match m.get(&n.a) { Some(v) => { let sw = p.w(n.a); p.konst(n.w, fp_un(n.op, sw, n.w, *v as u128)) } None => e },
            o if o.is_fbin() => { let (x, y) = (Self::fp_subst(n.a, m), Self::fp_subst(n.b, m)); p.fbin(n.op, x, y) }
            o if o.is_fun() => { let x = Self::fp_subst(n.a, m); p.fun(n.op, x, n.w) }
            _ => e,
        }
    }
    /// Integer- or boolean-valued floating-point expression -> exact bit-vector expression under the path condition.
    pub fn fp_to_int(&mut self, st: &State, e: E) -> R<E> {
        let p = pool();
        if p.is_const(e).is_some() { return Ok(e); }
        if let Some(i) = p.fp_choice(e) {
            let n = *p.node(i);
            let (x, y) = (p.fp_replace(e, i, n.b), p.fp_replace(e, i, n.c));
            let (x, y) = (self.fp_to_int(st, x)?, self.fp_to_int(st, y)?);
            return Ok(p.ite(n.a, x, y));
        }
        let mut lv = vec![]; Self::fp_leaves(e, &mut lv);
        if lv.iter().any(|l| *l == u32::MAX) { die("floating-point value of unknown origin"); }
        if lv.iter().any(|l| st.subst.contains_key(l)) { let e2 = Self::fp_subst(e, &st.subst); return self.fp_to_int(st, e2); }
        if lv.len() > 1 {
            let l = *lv.iter().min_by_key(|l| { let i = p.interval(**l); i.1 - i.0 }).unwrap();
            return Err(Trap::Conc(l));
        }
        let src = lv[0];
        let (mut lo, mut hi) = p.interval(src);
        if hi - lo > 4096 {
            // narrow with the solver: largest / smallest feasible value, by bisection
            let cur = self.eval(st, src) as u64;
            let (mut a, mut b) = (cur, hi);
            while a < b { let mid = a + (b - a + 1) / 2; let c = p.in_range(src, mid, b); match self.query(st, c) { Some(m) => { let ep = p.new_epoch(); a = p.eval(src, &m, ep) as u64; if a < mid { die("narrow"); } } None => b = mid - 1 } }
            hi = a;
            let (mut a, mut b) = (lo, cur);
            while a < b { let mid = a + (b - a) / 2; let c = p.in_range(src, a, mid); match self.query(st, c) { Some(m) => { let ep = p.new_epoch(); b = p.eval(src, &m, ep) as u64; } None => a = mid + 1 } }
            lo = b;
        }
        if hi - lo > 1 << 24 { return Err(Trap::Conc(src)); }
        if let Some(r) = self.fpmemo.get(&(e, lo, hi)) { return Ok(*r); }
        let r = p.tabulate(e, src, lo, hi);
        self.fpmemo.insert((e, lo, hi), r);
        Ok(r)
    }

    // ---- solver --------------------------------------------------------------------------------
    pub fn query(&mut self, st: &State, c: E) -> Option<Vec<u64>> {
        let r = self.solver.check(&st.pc, c, &st.model);
        if let Some(m) = &r {
            // cross-check every model with our own evaluator
            let p = pool(); let ep = p.new_epoch();
            if p.eval(c, m, ep) != 1 { die("solver model does not satisfy the query (evaluator disagrees)"); }
            for e in &st.pc { if p.eval(*e, m, ep) != 1 { die("solver model violates the path condition (evaluator disagrees)"); } }
        }
        r
    }
    pub fn assume(&self, st: &mut State, c: E, v: bool) {
        if c == TRUE || c == FALSE { return; }
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, v);
        let n = pool().not(c); k.insert(n, !v);
        // what an ordering says about the other orderings of the same pair
        {
            let p = pool(); let (op, x, y, lt) = { let a = *p.node(c); match (a.op, v) { (Op::Ult, true) => (true, a.a, a.b, true), (Op::Ult, false) => (true, a.b, a.a, false), (Op::Ule, true) => (true, a.a, a.b, false), (Op::Ule, false) => (true, a.b, a.a, true), _ => (false, 0, 0, false) } };
            // now x < y (lt) or x <= y
            if op {
                let f = p.bin(Op::Ult, y, x); k.insert(f, false); let t = p.bin(Op::Ule, x, y); k.insert(t, true);
                if lt { let f = p.bin(Op::Ule, y, x); k.insert(f, false); let e = p.bin(Op::Eq, x, y); k.insert(e, false); let t = p.bin(Op::Ult, x, y); k.insert(t, true); }
                k.insert(TRUE, true); k.insert(FALSE, false);
            }
        }
        // split conjunctions (true) / disjunctions (false) so that parts are recognised later
        let nd = *pool().node(c);
        if v && nd.op == Op::And && nd.w == 1 { self.assume(st, nd.a, true); self.assume(st, nd.b, true); }
        if !v && nd.op == Op::Or && nd.w == 1 { self.assume(st, nd.a, false); self.assume(st, nd.b, false); }
    }
    /// Handle a Cond trap: returns false if this process became a child that must abandon the path.
    fn fork_cond(&mut self, st: &mut State, c: E) -> bool {
        let v = self.eval(st, c) != 0;
        let nc = pool().not(c);
        let (here, there) = if v { (c, nc) } else { (nc, c) };
        self.stats.sym_branches += 1;
        match self.query(st, there) {
            None => { self.assume(st, c, v); true }
            Some(m) => {
                self.stats.forks += 1; st.branches += 1;
                let mut sib = st.clone();
                sib.pc.push(there); self.assume(&mut sib, c, !v);
                sib.model = Rc::new(m); sib.epoch = pool().new_epoch();
                st.pc.push(here); self.assume(st, c, v);
                self.push(sib)
            }
        }
    }
    fn fork_conc(&mut self, st: &mut State, e: E) -> bool {
        let v = self.eval(st, e) as u64;
        let w = pool().w(e);
        if w > 64 { die("concretization of a wide value"); }
        let k = pool().konst(w, v as u128);
        let eq = pool().bin(Op::Eq, e, k);
        self.stats.concretizations += 1;
        let ne = pool().not(eq);
        let known = if eq == TRUE { Some(true) } else { st.known.get(&eq).copied() };
        let alt = if known == Some(true) { None } else { self.query(st, ne) };
        match alt {
            None => {}
            Some(m) => {
                self.stats.forks += 1; st.branches += 1;
                let mut sib = st.clone();
                sib.pc.push(ne); self.assume(&mut sib, eq, false);
                sib.model = Rc::new(m); sib.epoch = pool().new_epoch();
                st.pc.push(eq);
                if !{ Rc::make_mut(&mut st.subst).insert(e, v); self.assume(st, eq, true); self.push(sib) } { return false; }
                return true;
            }
        }
        Rc::make_mut(&mut st.subst).insert(e, v);
        self.assume(st, eq, true);
        true
    }
    fn push(&mut self, s: State) -> bool {
        self.stack.push(s);
        if self.par.want_split() {
            let n = self.stack.len();
            let give = (n + 1) / 2;
            let r = self.par.fork();
            if let crate::par::Split::None = r { return true; }
            if let crate::par::Split::Child = r {
                self.stack.truncate(give);
                self.stats = Stats::default();
                self.violations.clear(); self.samples.clear();
                self.solver.queries = 0; self.solver.cached = 0; self.solver.quick = 0; self.solver.cvc5 = 0; self.solver.sat = 0; self.solver.unsat = 0; self.solver.time = 0.0; self.solver.max_time = 0.0;
                return false;
            }
            self.stack.drain(..give);
        }
        true
    }

    // ---- driver ----------------------------------------------------------------------------------
    pub fn run(&mut self) {
        while let Some(mut st) = self.stack.pop() {
            if self.par.stopped() { self.stack.clear(); break; }
            let before = st.insts;
            let end = self.run_path(&mut st);
            self.stats.insts += st.insts - before;
            self.finish(&mut st, end);
        }
        self.stats.queries = self.solver.queries; self.stats.sat = self.solver.sat; self.stats.unsat = self.solver.unsat; self.stats.solver_time = self.solver.time; self.stats.solver_max = self.solver.max_time;
    }
    pub fn inputs_of(&self, st: &State, model: &[u64], epoch: u32) -> Vec<(String, u64)> {
        st.inputs.iter().zip(st.names.iter()).map(|(e, n)| (n.0.to_string(), pool().eval(*e, model, epoch) as u64)).collect()
    }
    pub fn obs_of(&self, st: &State, model: &[u64], epoch: u32) -> Vec<(String, Vec<u8>)> {
        st.observed.iter().map(|(t, b)| (t.to_string(), b.iter().map(|e| pool().eval(*e, model, epoch) as u8).collect())).collect()
    }
    pub fn violate(&mut self, st: &State, id: String, what: String, model: &[u64]) {
        let ep = pool().new_epoch();
        let known = self.cfg.known.iter().any(|k| *k == id);
        if known && self.violations.iter().any(|v| v.id == id) { return; }
        let v = Violation { id, what, inputs: self.inputs_of(st, model, ep), observed: self.obs_of(st, model, ep) };
        // written at once, so that the runner can act on it whatever becomes of the rest of the exploration
        let f = format!("{}/viol-{}-{}", self.cfg.out, std::process::id(), self.violations.len());
        if std::fs::write(format!("{}.tmp", f), crate::viol_json(&v)).is_ok() { let _ = std::fs::rename(format!("{}.tmp", f), format!("{}.json", f)); }
        self.violations.push(v);
        if !known { self.par.stop(); }
    }
    fn finish(&mut self, st: &mut State, end: End) {
        if let End::Abandon = end { return; }
        self.stats.paths += 1;
        self.stats.max_branches = self.stats.max_branches.max(st.branches as u64);
        self.stats.max_insts = self.stats.max_insts.max(st.insts);
        let m = st.model.clone();
        match &end {
            End::Assume => { self.stats.assumed += 1; return; }
            End::Done => { self.stats.done += 1; }
            End::Panic(w) => self.violate(st, format!("panic:{}", w), format!("panic at {}", w), &m),
            End::Abort(w) => self.violate(st, "abort".into(), w.clone(), &m),
            End::Mem(w) => self.violate(st, "memory".into(), w.clone(), &m),
            End::Deadlock(w) => self.violate(st, "deadlock".into(), w.clone(), &m),
            End::Budget => { let w = format!("no end within {} instructions; in {}", self.cfg.budget, self.wher(st)); self.violate(st, "hang".into(), w, &m) }
            End::Abandon | End::Exit(_) => {}
        }
        for mk in &st.marks { *self.stats.reach.entry(mk.to_string()).or_insert(0) += 1; }
        if let End::Done = end {
            // keep a bounded, spread-out sample of complete paths for replay against the real binary
            self.tick += 1;
            let s = self.cfg.samples;
            let newmark = st.marks.iter().any(|mk| self.stats.reach[&**mk] <= 2);
            if self.samples.len() < s * 4 && (newmark || self.tick.is_power_of_two() || self.tick % 97 == 0) {
                let ep = pool().new_epoch();
                let smp = Sample { inputs: self.inputs_of(st, &m, ep), observed: self.obs_of(st, &m, ep), end: "done".into(), marks: st.marks.iter().map(|x| x.to_string()).collect() };
                self.samples.push(smp);
            }
        }
        if self.cfg.verbose { eprintln!("path end {:?} branches {} insts {} pc {}", end, st.branches, st.insts, st.pc.len()); }
    }
    fn run_path(&mut self, st: &mut State) -> End {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(Trap::Cond(c)) => { if !self.fork_cond(st, c) { return End::Abandon; } }
                Err(Trap::Conc(e)) => { if !self.fork_conc(st, e) { return End::Abandon; } }
                Err(Trap::End(End::Panic(w))) => {
                    if st.panic_ok {
                        self.stats.panics_ok += 1;
                        st.marks.push("panic".into());
                        match st.on_panic.take() {
                            Some(f) => { st.panic_ok = false; st.frames.clear(); let fid = ((f - FN_BASE) / 16) as u32; self.push_frame(st, fid, &[], None, RetAct::Finish); continue; }
                            None => return End::Done,
                        }
                    }
                    return End::Panic(w);
                }
                Err(Trap::End(End::Exit(code))) => match st.on_exit.take() {
                    Some(f) => { st.frames.clear(); let fid = ((f - FN_BASE) / 16) as u32; self.push_frame(st, fid, &[V::I(code)], None, RetAct::Finish); }
                    None => return End::Done,
                },
                Err(Trap::End(e)) => return e,
            }
            if self.par.stopped() { return End::Abandon; }
        }
    }
    pub fn push_frame(&mut self, st: &mut State, fid: u32, args: &[V], dst: Option<u32>, act: RetAct) {
        let f = self.m.func(fid);
        self.touched[fid as usize] = true;
        let mut regs = Vec::with_capacity(f.nregs as usize);
        regs.extend_from_slice(args);
        if args.len() != f.nargs as usize { die(&format!("arity of {}", self.m.funcs[fid as usize].name)); }
        regs.resize(f.nregs as usize, V::I(0));
        if st.frames.len() > 4000 { die("call stack too deep"); }
        st.frames.push(Frame { f, bb: 0, ip: 0, regs, allocas: vec![], dst, act });
    }
    fn kind(&mut self, fid: u32) -> FnKind {
        match self.kinds[fid as usize] {
            FnKind::Unknown => {
                let s = &self.m.funcs[fid as usize];
                let k = if s.name == "sx_args" {
                    // the standard library's own initialiser of the program's arguments
                    match self.m.funcs.iter().position(|f| f.name.contains("ARGV_INIT_ARRAY") && f.def.is_some()) { Some(i) => FnKind::Redirect(i as u32), None => die("no initialiser of the arguments") }
                } else { env::classify(s.name, s.def.is_some()) };
                self.kinds[fid as usize] = k;
                k
            }
            k => k,
        }
    }
    fn jump(&mut self, st: &mut State, target: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let v = match inc.iter().find(|x| x.0 == from) { Some((_, Opd::K(v))) => v.clone(), Some((_, Opd::R(r))) => fr.regs[*r as usize].clone(), None => die("phi edge") };
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<(u32, V)> = b.phis.iter().map(|(d, inc)| (*d, match inc.iter().find(|x| x.0 == from) { Some((_, Opd::K(v))) => v.clone(), Some((_, Opd::R(r))) => fr.regs[*r as usize].clone(), None => die("phi edge") })).collect();
                for (d, v) in vals { fr.regs[d as usize] = v; }
            }
        }
        fr.bb = target; fr.ip = 0;
    }
    #[inline] fn set(&self, st: &mut State, d: u32, v: V) { st.frames.last_mut().unwrap().regs[d as usize] = v; }

    /// Run until a trap or (for stop checks) a bounded number of instructions.
    fn step(&mut self, st: &mut State) -> R<()> {
        for _ in 0..20000 {
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let b = &f.blocks[fr.bb as usize];
            let ip = fr.ip as usize;
            st.insts += 1;
            if ip < b.insts.len() {
                let depth = st.frames.len();
                self.inst(st, &b.insts[ip])?;
                // calls that pushed a frame have already advanced the caller
                if st.frames.len() == depth { st.frames.last_mut().unwrap().ip = ip as u32 + 1; }
            } else {
                self.term(st, &b.term)?;
            }
        }
        if st.insts > self.cfg.budget { return Err(Trap::End(End::Budget)); }
        if self.t0.elapsed().as_secs_f64() > self.cfg.deadline { die("time limit reached; nothing is concluded"); }
        Ok(())
    }
    fn term(&mut self, st: &mut State, t: &Term) -> R<()> {
        match t {
            Term::Br(b) => self.jump(st, *b),
            Term::CBr(c, a, b) => {
                let c = match self.val(st, c) { V::I(x) => x != 0, V::S(e) => self.decide(st, e)?, _ => die("br") };
                self.jump(st, if c { *a } else { *b });
            }
            Term::Switch(w, v, def, cases) => {
                let t = match self.val(st, v) {
                    V::I(x) => cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def),
                    V::S(e) => {
                        if let Some(x) = st.subst.get(&e) { let x = *x; cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def) } else {
                            let x = self.eval(st, e) as u64;
                            let t = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                            // condition "goes to t"
                            let p = pool();
                            let mut vals: Vec<u64> = cases.iter().filter(|c| (c.1 == t) == (t != *def) || (t == *def && c.1 != *def)).map(|c| c.0).collect();
                            if t == *def { vals = cases.iter().filter(|c| c.1 != *def).map(|c| c.0).collect(); }
                            vals.sort_unstable();
                            let mut c = FALSE; let mut i = 0;
                            while i < vals.len() { let mut j = i; while j + 1 < vals.len() && vals[j + 1] == vals[j] + 1 { j += 1; } let r = p.in_range(e, vals[i], vals[j]); c = p.or(c, r); i = j + 1; }
                            let _ = w;
                            if t == *def { if self.decide(st, c)? { die("switch"); } t } else { if !self.decide(st, c)? { die("switch"); } t }
                        }
                    }
                    _ => die("switch"),
                };
                self.jump(st, t);
            }
            Term::Ret(v) => {
                let v = v.as_ref().map(|o| self.val(st, o));
                let fr = st.frames.pop().unwrap();
                for id in fr.allocas { st.mem.kill(id); st.mem.free_stack.push(id); }
                match fr.act {
                    RetAct::Normal => { if let (Some(d), Some(v)) = (fr.dst, v) { self.set(st, d, v); } }
                    RetAct::ThreadEnd(prev) => { let t = st.tid; st.threads[t as usize].2 = true; st.tid = prev; if let Some(d) = fr.dst { self.set(st, d, V::I(0)); } }
                    RetAct::Finish => return Err(Trap::End(End::Done)),
                }
            }
            Term::Unreachable => { let w = self.wher(st); die(&format!("unreachable instruction executed in {}", w)) }
            Term::Resume => die("resume"),
        }
        Ok(())
    }
    fn vbin(&mut self, op: Op, w: u16, a: &V, b: &V) -> V {
        match (a, b) {
            (V::I(x), V::I(y)) if w <= 64 => {
                let m = mask64(w); let (x, y) = (*x, *y);
                V::I(match op {
                    Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
                    Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                    Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m }, Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Op::AShr => ((sext64(x, w) >> y.min(63)) as u64) & m,
                    Op::UDiv => { if y == 0 { die("division by zero") } x / y } Op::URem => { if y == 0 { die("division by zero") } x % y }
                    Op::SDiv => { if y == 0 { die("division by zero") } (sext64(x, w).wrapping_div(sext64(y, w)) as u64) & m }
                    Op::SRem => { if y == 0 { die("division by zero") } (sext64(x, w).wrapping_rem(sext64(y, w)) as u64) & m }
                    _ => die("vbin"),
                })
            }
            (V::Agg(_), _) | (_, V::Agg(_)) => die("vbin agg"),
            _ => { let (x, y) = (self.to_e(a, w), self.to_e(b, w)); let r = pool().bin(op, x, y); self.from_e(r) }
        }
    }
    pub fn vcmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> V {
        match (a, b) {
            (V::I(x), V::I(y)) => {
                let (x, y) = (*x, *y); let (sx, sy) = (sext64(x, w), sext64(y, w));
                V::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy } as u64)
            }
            _ => {
                let (x, y) = (self.to_e(a, w), self.to_e(b, w)); let q = pool();
                let r = match p { Pred::Eq => q.bin(Op::Eq, x, y), Pred::Ne => { let r = q.bin(Op::Eq, x, y); q.not(r) } Pred::Ult => q.bin(Op::Ult, x, y), Pred::Ule => q.bin(Op::Ule, x, y), Pred::Ugt => q.bin(Op::Ult, y, x), Pred::Uge => q.bin(Op::Ule, y, x), Pred::Slt => q.bin(Op::Slt, x, y), Pred::Sle => q.bin(Op::Sle, x, y), Pred::Sgt => q.bin(Op::Slt, y, x), Pred::Sge => q.bin(Op::Sle, y, x) };
                self.from_e(r)
            }
        }
    }
    pub fn ite(&mut self, st: &State, c: E, a: &V, b: &V, ty: &Ty) -> R<V> {
        Ok(match (a, b) {
            (V::Agg(x), V::Agg(y)) => { let mut f = vec![]; for i in 0..x.len() { let t = ty.field(i as u64); f.push(self.ite(st, c, &x[i], &y[i], &t)?); } V::Agg(Rc::new(f)) }
            _ => {
                if let (V::I(x), V::I(y)) = (a, b) { if x == y { return Ok(a.clone()); } }
                if *ty == Ty::Ptr || matches!(ty, Ty::F32 | Ty::F64) { return Ok(if self.decide(st, c)? { a.clone() } else { b.clone() }); }
                let w = ty.scalar_w().unwrap();
                let (x, y) = (self.to_e(a, w), self.to_e(b, w)); let r = pool().ite(c, x, y); self.from_e(r)
            }
        })
    }
    fn inst(&mut self, st: &mut State, i: &Inst) -> R<()> {
        match i {
            Inst::Bin { op, w, n, d, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = if *n == 0 {
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) { if let V::S(e) = y { let z = pool().konst(*w, 0); let c = pool().bin(Op::Eq, e, z); if self.decide(st, c)? { die("division by zero reached"); } } }
                    self.vbin(*op, *w, &x, &y)
                } else { let (p, q) = (agg(&x), agg(&y)); V::Agg(Rc::new((0..*n as usize).map(|k| self.vbin(*op, *w, &p[k], &q[k])).collect())) };
                self.set(st, *d, r);
            }
            Inst::ICmp { p, w, n, d, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = if *n == 0 { self.vcmp(*p, *w, &x, &y) } else { let (s, t) = (agg(&x), agg(&y)); V::Agg(Rc::new((0..*n as usize).map(|k| self.vcmp(*p, *w, &s[k], &t[k])).collect())) };
                self.set(st, *d, r);
            }
            Inst::FBin { op, w, d, a, b } => { let (x, y) = (self.val(st, a), self.val(st, b)); let (x, y) = (self.to_e(&x, *w), self.to_e(&y, *w)); let r = pool().fbin(*op, x, y); let v = self.from_e(r); self.set(st, *d, v); }
            Inst::FCmp { p, w, d, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b)); let (x, y) = (self.to_e(&x, *w), self.to_e(&y, *w));
                let q = pool();
                let uno = { let u = q.fbin(Op::FUno, x, y); self.fp_to_int(st, u)? };
                let (base, unord) = match *p { "oeq" => (q.fbin(Op::FEq, x, y), false), "ueq" => (q.fbin(Op::FEq, x, y), true), "olt" => (q.fbin(Op::FLt, x, y), false), "ult" => (q.fbin(Op::FLt, x, y), true), "ole" => (q.fbin(Op::FLe, x, y), false), "ule" => (q.fbin(Op::FLe, x, y), true), "ogt" => (q.fbin(Op::FLt, y, x), false), "ugt" => (q.fbin(Op::FLt, y, x), true), "oge" => (q.fbin(Op::FLe, y, x), false), "uge" => (q.fbin(Op::FLe, y, x), true),
                    "une" => { let e = q.fbin(Op::FEq, x, y); let e = self.fp_to_int(st, e)?; let r = q.not(e); let v = self.from_e(r); self.set(st, *d, v); return Ok(()); }
                    "one" => { let e = q.fbin(Op::FEq, x, y); let e = self.fp_to_int(st, e)?; let r = q.not(e); let nu = q.not(uno); let r = q.and(r, nu); let v = self.from_e(r); self.set(st, *d, v); return Ok(()); }
                    "uno" => (FALSE, true), "ord" => { let r = q.not(uno); let v = self.from_e(r); self.set(st, *d, v); return Ok(()); } _ => die(p) };
                let b = if base == FALSE { FALSE } else { self.fp_to_int(st, base)? };
                let r = if unord { q.or(b, uno) } else { b };
                let v = self.from_e(r); self.set(st, *d, v);
            }
            Inst::FNeg { w, d, a } => { let x = self.val(st, a); let e = self.to_e(&x, *w); let r = pool().fun(Op::FNeg, e, *w); let v = self.from_e(r); self.set(st, *d, v); }
            Inst::Cast { op, st: sty, dt, d, a } => {
                let x = self.val(st, a);
                let r = self.cast(st, *op, sty, dt, &x)?;
                self.set(st, *d, r);
            }
            Inst::Load { d, ty, p } => {
                let v = match self.val(st, p) { V::I(a) => self.load_ty(st, a, ty)?, V::S(e) => self.load_sym(st, e, ty)?, _ => die("load ptr") };
                self.set(st, *d, v);
            }
            Inst::Store { ty, v, p } => {
                let p = self.val(st, p); let a = self.conc(st, &p)?;
                let v = self.val(st, v);
                self.store_ty(st, a, ty, &v)?;
            }
            Inst::Gep { d, base, off, idx } => {
                let b = self.val(st, base);
                let mut acc = b; let mut k = *off as u64;
                for (o, w, sc) in idx {
                    match self.val(st, o) {
                        V::I(x) => k = k.wrapping_add((sext64(x, *w) as u64).wrapping_mul(*sc)),
                        V::S(e) => { let q = pool(); let e = q.sext(e, 64); let s = q.konst(64, *sc as u128); let t = q.bin(Op::Mul, e, s); let ae = self.to_e(&acc, 64); let r = q.add(ae, t); acc = self.from_e(r); }
                        _ => die("gep"),
                    }
                }
                let r = match acc { V::I(x) => V::I(x.wrapping_add(k)), V::S(e) => { let q = pool(); let kk = q.konst(64, k as u128); let r = q.add(e, kk); self.from_e(r) } _ => die("gep") };
                self.set(st, *d, r);
            }
            Inst::Alloca { d, size } => {
                let id = st.mem.alloc(*size as usize, Kind::Stack);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(id);
                fr.regs[*d as usize] = V::I((id as u64) << 32);
            }
            Inst::Select { d, ty, c, a, b, vc } => {
                let c = self.val(st, c);
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = if *vc { let (cs, xs, ys) = (agg(&c), agg(&x), agg(&y)); let t = ty.field(0); let mut o = vec![]; for k in 0..cs.len() { o.push(match &cs[k] { V::I(1) => xs[k].clone(), V::I(_) => ys[k].clone(), V::S(e) => self.ite(st, *e, &xs[k], &ys[k], &t)?, _ => die("select") }); } V::Agg(Rc::new(o)) }
                else { match c { V::I(0) => y, V::I(_) => x, V::S(e) => match st.known.get(&e) { Some(true) => x, Some(false) => y, None => self.ite(st, e, &x, &y, ty)? }, _ => die("select") } };
                self.set(st, *d, r);
            }
            Inst::ExtractV { d, a, idx } => { let mut v = self.val(st, a); for k in idx { v = agg(&v)[*k as usize].clone(); } self.set(st, *d, v); }
            Inst::InsertV { d, a, v, idx } => { let base = self.val(st, a); let x = self.val(st, v); let r = insert(&base, &x, idx); self.set(st, *d, r); }
            Inst::InsertE { d, a, v, i } => { let base = self.val(st, a); let x = self.val(st, v); let iv = self.val(st, i); let k = self.conc(st, &iv)? as u32; let r = insert(&base, &x, &[k]); self.set(st, *d, r); }
            Inst::ExtractE { d, a, i } => { let base = self.val(st, a); let iv = self.val(st, i); let k = self.conc(st, &iv)? as usize; let v = agg(&base)[k].clone(); self.set(st, *d, v); }
            Inst::Shuffle { d, a, b, m } => {
                let (x, y, m) = (self.val(st, a), self.val(st, b), self.val(st, m));
                let (x, m) = (agg(&x), agg(&m));
                let y = match &y { V::Agg(y) => y.clone(), _ => Rc::new(vec![V::I(0); x.len()]) };
                let r = m.iter().map(|k| { let k = if let V::I(k) = k { *k as usize } else { 0 }; if k < x.len() { x[k].clone() } else { y[k - x.len()].clone() } }).collect();
                self.set(st, *d, V::Agg(Rc::new(r)));
            }
            Inst::Rmw { op, w, d, p, v } => {
                let pv = self.val(st, p); let a = self.conc(st, &pv)?;
                let ty = Ty::Int(*w);
                let old = self.load_ty(st, a, &ty)?; let v = self.val(st, v);
                let new = match op.as_str() { "xchg" => v, "add" => self.vbin(Op::Add, *w, &old, &v), "sub" => self.vbin(Op::Sub, *w, &old, &v), "and" => self.vbin(Op::And, *w, &old, &v), "or" => self.vbin(Op::Or, *w, &old, &v), "xor" => self.vbin(Op::Xor, *w, &old, &v),
                    "umax" | "umin" => { let c = self.vcmp(Pred::Ult, *w, &old, &v); let c = self.to_e(&c, 1); if op == "umax" { self.ite(st, c, &v, &old, &ty)? } else { self.ite(st, c, &old, &v, &ty)? } } o => die(&format!("atomicrmw {}", o)) };
                self.store_ty(st, a, &ty, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg { w, d, p, c, n } => {
                let pv = self.val(st, p); let a = self.conc(st, &pv)?;
                let ty = Ty::Int(*w);
                let old = self.load_ty(st, a, &ty)?; let c = self.val(st, c); let n = self.val(st, n);
                let eq = self.vcmp(Pred::Eq, *w, &old, &c);
                let ok = match &eq { V::I(x) => *x != 0, V::S(e) => self.decide(st, *e)?, _ => die("cx") };
                if ok { self.store_ty(st, a, &ty, &n)?; }
                self.set(st, *d, V::Agg(Rc::new(vec![old, V::I(ok as u64)])));
            }
            Inst::Mov { d, a } => { let v = self.val(st, a); self.set(st, *d, v); }
            Inst::Call { d, ty, callee, args, argw } => {
                let fid = match callee {
                    Callee::Asm => return Ok(()),
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => { let v = self.val(st, o); let a = self.conc(st, &v)?; if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.funcs.len() as u64 { return Err(Trap::End(End::Mem(format!("call through bad pointer {:#x}", a)))); } ((a - FN_BASE) / 16) as u32 }
                };
                let av: Vec<V> = args.iter().map(|o| self.val(st, o)).collect();
                match self.kind(fid) {
                    FnKind::Ir => { st.frames.last_mut().unwrap().ip += 1; self.push_frame(st, fid, &av, *d, RetAct::Normal); }
                    FnKind::Redirect(f) => { st.frames.last_mut().unwrap().ip += 1; self.push_frame(st, f, &av, *d, RetAct::Normal); }
                    FnKind::Native(h) => {
                        let name = self.m.funcs[fid as usize].name;
                        let depth = st.frames.len();
                        let ci = CallInfo { name, args: &av, argw, ty, dst: *d };
                        let r = h(self, st, &ci)?;
                        if st.frames.len() == depth { if let Some(d) = d { self.set(st, *d, r); } }
                    }
                    FnKind::Panic(k) => {
                        let w = self.panic_where(st, k, &av);
                        return Err(Trap::End(End::Panic(w)));
                    }
                    FnKind::Unknown => unreachable!(),
                }
            }
        }
        Ok(())
    }
    fn panic_where(&mut self, st: &mut State, _k: u8, args: &[V]) -> String {
        // the caller location is the last pointer argument of the panic entry points
        for v in args.iter().rev() {
            if let V::I(a) = v {
                let r: R<String> = (|| {
                    let p = self.ld(st, *a, 8)?; let n = self.ld(st, *a + 8, 8)?; let l = self.ld(st, *a + 16, 4)?;
                    match (p, n, l) { (V::I(p), V::I(n), V::I(l)) if n > 1 && n < 400 => { let b = self.cbytes(st, p, n as usize - 0)?; let s = String::from_utf8_lossy(&b).trim_end_matches('\0').to_string(); if s.ends_with(".rs") { Ok(format!("{}:{}", s, l)) } else { Err(Trap::End(End::Budget)) } } _ => Err(Trap::End(End::Budget)) }
                })();
                if let Ok(s) = r { return s; }
            }
        }
        format!("in {}", self.wher(st))
    }
    fn cast(&mut self, st: &State, op: Cast, sty: &Ty, dt: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(n, t), Ty::Vec(m, u)) = (sty, dt) { if n == m { let f = agg(x); let mut o = vec![]; for e in f.iter() { o.push(self.cast(st, op, t, u, e)?); } return Ok(V::Agg(Rc::new(o))); } }
        if op == Cast::Bit {
            if let (Ty::Vec(n, t), Some(dw)) = (sty, dt.scalar_w()) {
                let tw = t.scalar_w().unwrap(); if *n as u16 * tw != dw { die("bitcast"); }
                let f = agg(x); let mut acc = self.to_e(&f[0], tw);
                for k in 1..*n as usize { let h = self.to_e(&f[k], tw); acc = pool().concat(h, acc); }
                return Ok(self.from_e(acc));
            }
            if let (Some(_), Ty::Vec(n, t)) = (sty.scalar_w(), dt) {
                let tw = t.scalar_w().unwrap(); let e = self.to_e(x, sty.scalar_w().unwrap());
                return Ok(V::Agg(Rc::new((0..*n).map(|k| { let b = pool().extract(e, k as u16 * tw, tw); self.from_e(b) }).collect())));
            }
            if let (Ty::Vec(n, t), Ty::Vec(m, u)) = (sty, dt) {
                let (tw, uw) = (t.scalar_w().unwrap(), u.scalar_w().unwrap()); let f = agg(x);
                let mut bytes: Vec<E> = vec![];
                for k in 0..*n as usize { let e = self.to_e(&f[k], tw); for j in 0..tw / 8 { bytes.push(pool().extract(e, j * 8, 8)); } }
                let per = (uw / 8) as usize;
                return Ok(V::Agg(Rc::new((0..*m as usize).map(|k| { let mut acc = bytes[k * per]; for j in 1..per { acc = pool().concat(bytes[k * per + j], acc); } self.from_e(acc) }).collect())));
            }
            if let (V::S(e), Ty::F32 | Ty::F64, Ty::Int(_)) = (x, sty, dt) {
                // the bits of a number: one path per number
                let mut lv = vec![]; Self::fp_leaves(*e, &mut lv);
                if let Some(l) = lv.into_iter().find(|l| *l != u32::MAX) {
                    if st.subst.contains_key(&l) { let r = Self::fp_subst(*e, &st.subst); return Ok(self.from_e(r)); }
                    return Err(Trap::Conc(l));
                }
            }
            return Ok(x.clone());
        }
        let (sw, dw) = (sty.scalar_w().unwrap(), dt.scalar_w().unwrap());
        if let V::I(v) = x {
            if dw <= 64 && sw <= 64 { match op { Cast::Trunc => return Ok(V::I(v & mask64(dw))), Cast::ZExt => return Ok(V::I(*v)), Cast::SExt => return Ok(V::I(sext64(*v, sw) as u64 & mask64(dw))), _ => {} } }
        }
        let e = self.to_e(x, sw); let q = pool();
        let r = match op { Cast::Trunc => q.trunc(e, dw), Cast::ZExt => q.zext(e, dw), Cast::SExt => q.sext(e, dw), Cast::UiToFp => q.fun(Op::UiToFp, e, dw), Cast::SiToFp => q.fun(Op::SiToFp, e, dw), Cast::FpExt => q.fun(Op::FpExt, e, dw), Cast::FpTrunc => q.fun(Op::FpTrunc, e, dw),
            Cast::FpToUi => { let f = q.fun(Op::FpToUiSat, e, dw); self.fp_to_int(st, f)? } Cast::FpToSi => { let f = q.fun(Op::FpToSiSat, e, dw); self.fp_to_int(st, f)? } Cast::Bit => unreachable!() };
        Ok(self.from_e(r))
    }
}
pub fn agg(v: &V) -> Rc<Vec<V>> { match v { V::Agg(a) => a.clone(), _ => die("aggregate expected") } }
fn insert(base: &V, x: &V, idx: &[u32]) -> V {
    if idx.is_empty() { return x.clone(); }
    let mut a = (*agg(base)).clone();
    a[idx[0] as usize] = insert(&a[idx[0] as usize], x, &idx[1..]);
    V::Agg(Rc::new(a))
}
