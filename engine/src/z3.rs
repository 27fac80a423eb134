//! Minimal binding to libz3's C API: an incremental QF_BV solver over pool expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

pub type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

// every term is kept alive: a context with reference counting frees an unreferenced one at the next call
#[inline] pub unsafe fn k_unsigned_int64(c: P, v: u64, ty: P) -> P { let r = Z3_mk_unsigned_int64(c, v, ty); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_sign_ext(c: P, n: c_uint, a: P) -> P { let r = Z3_mk_sign_ext(c, n, a); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bv_sort(c: P, sz: c_uint) -> P { let r = Z3_mk_bv_sort(c, sz); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P { let r = Z3_mk_extract(c, hi, lo, a); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_numeral(c: P, n: *const c_char, ty: P) -> P { let r = Z3_mk_numeral(c, n, ty); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvsrem(c: P, a: P, b: P) -> P { let r = Z3_mk_bvsrem(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_concat(c: P, a: P, b: P) -> P { let r = Z3_mk_concat(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvurem(c: P, a: P, b: P) -> P { let r = Z3_mk_bvurem(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvlshr(c: P, a: P, b: P) -> P { let r = Z3_mk_bvlshr(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvsdiv(c: P, a: P, b: P) -> P { let r = Z3_mk_bvsdiv(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvudiv(c: P, a: P, b: P) -> P { let r = Z3_mk_bvudiv(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvashr(c: P, a: P, b: P) -> P { let r = Z3_mk_bvashr(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvsub(c: P, a: P, b: P) -> P { let r = Z3_mk_bvsub(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvadd(c: P, a: P, b: P) -> P { let r = Z3_mk_bvadd(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvslt(c: P, a: P, b: P) -> P { let r = Z3_mk_bvslt(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvshl(c: P, a: P, b: P) -> P { let r = Z3_mk_bvshl(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_const(c: P, s: P, ty: P) -> P { let r = Z3_mk_const(c, s, ty); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvmul(c: P, a: P, b: P) -> P { let r = Z3_mk_bvmul(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvand(c: P, a: P, b: P) -> P { let r = Z3_mk_bvand(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvsle(c: P, a: P, b: P) -> P { let r = Z3_mk_bvsle(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvxor(c: P, a: P, b: P) -> P { let r = Z3_mk_bvxor(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvule(c: P, a: P, b: P) -> P { let r = Z3_mk_bvule(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvult(c: P, a: P, b: P) -> P { let r = Z3_mk_bvult(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_false(c: P) -> P { let r = Z3_mk_false(c); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_true(c: P) -> P { let r = Z3_mk_true(c); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_bvor(c: P, a: P, b: P) -> P { let r = Z3_mk_bvor(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_not(c: P, a: P) -> P { let r = Z3_mk_not(c, a); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_ite(c: P, a: P, b: P, d: P) -> P { let r = Z3_mk_ite(c, a, b, d); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_and(c: P, n: c_uint, a: *const P) -> P { let r = Z3_mk_and(c, n, a); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_xor(c: P, a: P, b: P) -> P { let r = Z3_mk_xor(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_eq(c: P, a: P, b: P) -> P { let r = Z3_mk_eq(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_or(c: P, n: c_uint, a: *const P) -> P { let r = Z3_mk_or(c, n, a); Z3_inc_ref(c, r); r }

#[inline] pub unsafe fn k_add(c: P, a: P, b: P) -> P { let v = [a, b]; let r = Z3_mk_add(c, 2, v.as_ptr()); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_sub(c: P, a: P, b: P) -> P { let v = [a, b]; let r = Z3_mk_sub(c, 2, v.as_ptr()); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_mul(c: P, a: P, b: P) -> P { let v = [a, b]; let r = Z3_mk_mul(c, 2, v.as_ptr()); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_div(c: P, a: P, b: P) -> P { let r = Z3_mk_div(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_mod(c: P, a: P, b: P) -> P { let r = Z3_mk_mod(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_le(c: P, a: P, b: P) -> P { let r = Z3_mk_le(c, a, b); Z3_inc_ref(c, r); r }
#[inline] pub unsafe fn k_lt(c: P, a: P, b: P) -> P { let r = Z3_mk_lt(c, a, b); Z3_inc_ref(c, r); r }

extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("ENGINE-ERROR z3: {:?}", m);
    std::process::exit(70);
}

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

pub struct Solver {
    pub ctx: P, sol: P,
    bv: Vec<P>,   // per pool node, as bit-vector
    bo: Vec<P>,   // per pool node of width 1, as Bool
    stack: Vec<E>,
    varasts: Vec<P>,
    // the integer encoding: the same expressions over mathematical integers with the wrap-around made explicit
    pub isol: P, iquick: P, psol: P, last: Vec<P>, pub isort: P, pub lia: crate::lia::Lia, hard: Vec<u8>, fvals: Vec<(E, u64)>, trace: Vec<(usize, c_int, f32)>,
    params: [P; 4],
    pub int_queries: u64, pub int_decided: u64, pub diff: u64, pub cvc5: u64, pub refined: u64, pub cached: u64, pub quick: u64, cache: std::collections::HashMap<(Vec<E>, E), Option<Vec<(usize, u64)>>>, int_ok: bool,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub time: f64, pub max_time: f64,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let s = CString::new("QF_BV").unwrap();
            let sol = if std::env::var("SYMEX_SIMPLE").is_ok() { Z3_mk_solver(ctx) } else { Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, s.as_ptr())) };
            Z3_solver_inc_ref(ctx, sol);
            let mut params = [std::ptr::null_mut(); 4];
            for (i, lim) in [rlimit / 200, rlimit / 20, rlimit, rlimit / 2000].iter().enumerate() {
                let p = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, p);
                let k = CString::new("rlimit").unwrap();
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), *lim);
                params[i] = p;
            }
            Z3_solver_set_params(ctx, sol, params[2]);
            let s = CString::new("QF_LIA").unwrap();
            let isol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, s.as_ptr()));
            let iquick = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, iquick);
            Z3_solver_inc_ref(ctx, isol);
            let psol = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, psol);
            let isort = Z3_mk_int_sort(ctx); Z3_inc_ref(ctx, isort);
            Solver { isol, iquick, psol, last: vec![], isort, lia: Default::default(), hard: vec![], fvals: vec![], trace: vec![], params, int_queries: 0, int_decided: 0, cvc5: 0, refined: 0, cached: 0, quick: 0, cache: Default::default(), int_ok: false, diff: std::env::var("SYMEX_DIFF").ok().and_then(|s| s.parse().ok()).unwrap_or(0), ctx, sol, bv: vec![], bo: vec![], stack: vec![], varasts: vec![], queries: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0 }
        }
    }
    fn num(&self, w: u16, v: u128) -> P {
        unsafe {
            let s = k_bv_sort(self.ctx, w as u32);
            if w <= 64 { k_unsigned_int64(self.ctx, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); k_numeral(self.ctx, t.as_ptr(), s) }
        }
    }
    fn ensure(&mut self, e: E) { let n = e as usize + 1; if self.bv.len() < n { self.bv.resize(n.max(pool().nodes.len()), std::ptr::null_mut()); self.bo.resize(n.max(pool().nodes.len()), std::ptr::null_mut()); } }
    fn var(&mut self, id: usize) -> P {
        while self.varasts.len() <= id {
            let i = self.varasts.len();
            let v = &pool().vars[i];
            let nm = CString::new(format!("v{}_{}", i, v.name)).unwrap();
            unsafe {
                let a = k_const(self.ctx, Z3_mk_string_symbol(self.ctx, nm.as_ptr()), k_bv_sort(self.ctx, v.w as u32));
                Z3_inc_ref(self.ctx, a);
                self.varasts.push(a);
            }
        }
        self.varasts[id]
    }
    pub fn to_bool(&mut self, e: E) -> P {
        self.ensure(e);
        if !self.bo[e as usize].is_null() { return self.bo[e as usize]; }
        let n = *pool().node(e);
        let c = self.ctx;
        let r = unsafe { match n.op {
            Op::Const => if n.k == 1 { k_true(c) } else { k_false(c) },
            Op::Eq => if pool().w(n.a) == 1 { let (x, y) = (self.to_bool(n.a), self.to_bool(n.b)); k_eq(c, x, y) } else { let (x, y) = (self.to_bv(n.a), self.to_bv(n.b)); k_eq(c, x, y) },
            Op::Ult => { let (x, y) = (self.to_bv(n.a), self.to_bv(n.b)); k_bvult(c, x, y) }
            Op::Ule => { let (x, y) = (self.to_bv(n.a), self.to_bv(n.b)); k_bvule(c, x, y) }
            Op::Slt => { let (x, y) = (self.to_bv(n.a), self.to_bv(n.b)); k_bvslt(c, x, y) }
            Op::Sle => { let (x, y) = (self.to_bv(n.a), self.to_bv(n.b)); k_bvsle(c, x, y) }
            Op::And => { let v = [self.to_bool(n.a), self.to_bool(n.b)]; k_and(c, 2, v.as_ptr()) }
            Op::Or => { let v = [self.to_bool(n.a), self.to_bool(n.b)]; k_or(c, 2, v.as_ptr()) }
            Op::Xor => { if n.b == TRUE { let x = self.to_bool(n.a); k_not(c, x) } else { let (x, y) = (self.to_bool(n.a), self.to_bool(n.b)); k_xor(c, x, y) } }
            Op::Ite => { let (p, x, y) = (self.to_bool(n.a), self.to_bool(n.b), self.to_bool(n.c)); k_ite(c, p, x, y) }
            _ => { let x = self.to_bv(e); let one = self.num(1, 1); k_eq(c, x, one) }
        } };
        unsafe { Z3_inc_ref(c, r) };
        self.bo[e as usize] = r;
        r
    }
    pub fn to_bv(&mut self, e: E) -> P {
        self.ensure(e);
        if !self.bv[e as usize].is_null() { return self.bv[e as usize]; }
        let n = *pool().node(e);
        let c = self.ctx;
        macro_rules! b2 { ($f:ident) => {{ let (x, y) = (self.to_bv(n.a), self.to_bv(n.b)); $f(c, x, y) }} }
        let r = unsafe { match n.op {
            Op::Const => self.num(n.w, n.k),
            Op::Var => self.var(n.k as usize),
            Op::Bnd => { let x = self.to_bv(n.a); x }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let b = self.to_bool(e); let (o, z) = (self.num(1, 1), self.num(1, 0)); k_ite(c, b, o, z) }
            Op::And | Op::Or | Op::Xor if n.w == 1 => { let b = self.to_bool(e); let (o, z) = (self.num(1, 1), self.num(1, 0)); k_ite(c, b, o, z) }
            Op::Add => b2!(k_bvadd), Op::Sub => b2!(k_bvsub), Op::Mul => b2!(k_bvmul),
            Op::UDiv => b2!(k_bvudiv), Op::URem => b2!(k_bvurem), Op::SDiv => b2!(k_bvsdiv), Op::SRem => b2!(k_bvsrem),
            Op::And => b2!(k_bvand), Op::Or => b2!(k_bvor), Op::Xor => b2!(k_bvxor),
            Op::Shl => b2!(k_bvshl), Op::LShr => b2!(k_bvlshr), Op::AShr => b2!(k_bvashr),
            Op::Ite => { let p = self.to_bool(n.a); let (x, y) = (self.to_bv(n.b), self.to_bv(n.c)); k_ite(c, p, x, y) }
            Op::Extract => { let x = self.to_bv(n.a); k_extract(c, (n.k as u32) + n.w as u32 - 1, n.k as u32, x) }
            Op::Concat => b2!(k_concat),
            Op::SExt => { let x = self.to_bv(n.a); k_sign_ext(c, (n.w - pool().w(n.a)) as u32, x) }
            Op::Tab => {
                let segs = pool().tabs[n.k as usize].segs.clone();
                let src = self.to_bv(n.a); let sw = pool().w(n.a);
                self.tab_tree(&segs, src, sw, n.w)
            }
            _ => { eprintln!("ENGINE-ERROR: floating-point operation {:?} reached the solver untabulated", n.op); std::process::exit(71); }
        } };
        unsafe { Z3_inc_ref(c, r) };
        self.bv[e as usize] = r;
        r
    }
    fn tab_tree(&self, segs: &[(u64, u64)], src: P, sw: u16, w: u16) -> P {
        if segs.len() == 1 { return self.num(w, segs[0].1 as u128); }
        let mid = segs.len() / 2;
        let pivot = segs[mid - 1].0;
        if pivot >= mask64(sw) { return self.tab_tree(&segs[..mid], src, sw, w); }
        unsafe {
            let c = k_bvule(self.ctx, src, self.num(sw, pivot as u128));
            let (a, b) = (self.tab_tree(&segs[..mid], src, sw, w), self.tab_tree(&segs[mid..], src, sw, w));
            k_ite(self.ctx, c, a, b)
        }
    }
    fn sync(&mut self, pc: &[E]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] { k += 1; }
        if self.stack.len() > k { unsafe { Z3_solver_pop(self.ctx, self.sol, (self.stack.len() - k) as u32) }; self.stack.truncate(k); }
        for &e in &pc[k..] {
            let a = self.to_bool(e);
            unsafe { Z3_solver_push(self.ctx, self.sol); Z3_solver_assert(self.ctx, self.sol, a); }
            self.stack.push(e);
        }
    }
    /// Does bit-blasting this expression involve a division or a multiplication?
    fn is_hard(&mut self, e: E) -> bool {
        let k = e as usize;
        if self.hard.len() <= k { let m = (k + 1).max(pool().nodes.len()); self.hard.resize(m, 0); }
        if self.hard[k] > 0 { return self.hard[k] == 2; }
        let n = *pool().node(e);
        let kids = kids(&n);
        let mut h = matches!(n.op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Mul) || (n.op == Op::Tab && pool().tabs[n.k as usize].segs.len() > 64);
        for x in kids { if self.is_hard(x) { h = true; } }
        self.hard[k] = if h { 2 } else { 1 };
        h
    }
    /// 1 sat, -1 unsat, 0 not decided; the model goes to `out`.
    fn try_int(&mut self, pc: &[E], cond: E, lim: usize, out: &mut Vec<u64>) -> c_int {
        self.int_ok = false;
        let mut base = Vec::with_capacity(pc.len() + 1);
        for &e in pc { match self.ibool(e) { Some(x) => base.push(x), None => return 0 } }
        match self.ibool(cond) { Some(x) => base.push(x), None => return 0 }
        self.int_queries += 1;
        let mut roots = pc.to_vec(); roots.push(cond);
        let (vars, abs) = self.atoms_in(&roots);
        for &i in &vars { let x = &pool().vars[i]; let (lo, hi) = (x.lo, x.hi); let v = self.ivar(i); unsafe { let (l, h) = (self.inum(lo as i128), self.inum(hi as i128)); base.push(k_le(self.ctx, l, v)); base.push(k_le(self.ctx, v, h)); } }
        for e in &abs { base.extend(&self.lia.abs[e].1); }
        if std::env::var("SYMEX_SLOW").is_ok() { self.trace.clear(); }
        for round in 0..if lim == 0 || lim == 3 { 80 } else { 160 } {
            let t0 = Instant::now();
            let r = self.int_round(base.clone(), lim, &vars, &abs, out);
            self.trace.push((lim, r, t0.elapsed().as_secs_f32()));
            if r <= 0 { if r < 0 { self.int_decided += 1; } return r; }
            if abs.is_empty() { self.int_decided += 1; return 1; }
            if self.real(pc, cond, out) { self.int_decided += 1; return 1; }
            if round == 0 { self.refined += 1; }
            let ep = pool().new_epoch();
            let mut any = false;
            for (e, got) in self.fvals.clone() {
                if got != pool().eval(e, out, ep) as u64 { if let Some(l) = self.refine(e, out, ep) { base.push(l); any = true; } }
            }
            if !any { return 0; }
        }
        0
    }
    /// Does the model satisfy the query as it stands, by evaluation?
    fn real(&self, pc: &[E], cond: E, m: &[u64]) -> bool {
        let ep = pool().new_epoch();
        pool().eval(cond, m, ep) == 1 && pc.iter().all(|&e| pool().eval(e, m, ep) == 1)
    }
    fn int_round(&mut self, v: Vec<P>, lim: usize, vars: &[usize], abs: &[E], out: &mut Vec<u64>) -> c_int {
        unsafe {
            let sol = if lim == 0 { self.iquick } else { self.isol };
            Z3_solver_reset(self.ctx, sol);
            Z3_solver_set_params(self.ctx, sol, self.params[lim]);
            for &x in &v { Z3_solver_assert(self.ctx, sol, x); }
            self.last = v;
            self.int_ok = true;
            let r = Z3_solver_check(self.ctx, sol);
            if r == 1 {
                let md = Z3_solver_get_model(self.ctx, sol);
                Z3_model_inc_ref(self.ctx, md);
                out.clear();
                for v in &pool().vars { out.push(v.lo); }
                for &i in vars {
                    let v = self.ivar(i);
                    let mut o: P = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(self.ctx, md, v, false, &mut o) && Z3_get_numeral_uint64_safe(self.ctx, o, &mut val, v) { out[i] = val; }
                }
                self.fvals.clear();
                for &e in abs {
                    let v = self.lia.abs[&e].0;
                    let mut o: P = std::ptr::null_mut(); let mut val = 0u64;
                    if Z3_model_eval(self.ctx, md, v, true, &mut o) && Z3_get_numeral_uint64_safe(self.ctx, o, &mut val, v) { self.fvals.push((e, val)); }
                }
                Z3_model_dec_ref(self.ctx, md);
            }
            r
        }
    }
    fn try_bv(&mut self, pc: &[E], cond: E, lim: usize, out: &mut Vec<u64>) -> c_int {
        self.sync(pc);
        let a = self.to_bool(cond);
        let r = unsafe { Z3_solver_set_params(self.ctx, self.sol, self.params[lim]); Z3_solver_push(self.ctx, self.sol); Z3_solver_assert(self.ctx, self.sol, a); Z3_solver_check(self.ctx, self.sol) };
        if r == 1 {
            let n = pool().vars.len();
            out.clear();
            unsafe {
                let md = Z3_solver_get_model(self.ctx, self.sol);
                Z3_model_inc_ref(self.ctx, md);
                for i in 0..n {
                    let v = self.var(i);
                    let mut o: P = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(self.ctx, md, v, false, &mut o) && Z3_get_numeral_uint64_safe(self.ctx, o, &mut val, v) { out.push(val); } else { out.push(pool().vars[i].lo); }
                }
                Z3_model_dec_ref(self.ctx, md);
            }
        }
        unsafe { Z3_solver_pop(self.ctx, self.sol, 1) };
        r
    }
    unsafe fn int_text(&mut self) -> String {
        Z3_solver_reset(self.ctx, self.psol);
        for &x in &self.last { Z3_solver_assert(self.ctx, self.psol, x); }
        std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.psol)).to_string_lossy().into_owned()
    }
    /// The integer encoding left in `isol` by try_int, given to cvc5.
    fn try_cvc5(&mut self, secs: u32, out: &mut Vec<u64>) -> c_int {
        use std::io::Write;
        if !self.int_ok { return 0; }
        let text = unsafe { self.int_text() };
        if !text.contains("(assert") { return 0; }
        let mut names = vec![];
        for (i, v) in pool().vars.iter().enumerate() { let n = format!("i{}_{}", i, v.name); if text.contains(&format!("(declare-fun {} ", n)) { names.push((i, n)); } }
        let mut q = format!("(set-logic QF_LIA)\n(set-option :produce-models true)\n{}\n(check-sat)\n", text);
        for (_, n) in &names { q.push_str(&format!("(get-value ({}))\n", n)); }
        let child = std::process::Command::new("cvc5").args(["--lang=smt2", &format!("--tlimit={}", secs * 1000), "-q"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn();
        let mut child = match child { Ok(c) => c, Err(_) => return 0 };
        let _ = child.stdin.take().unwrap().write_all(q.as_bytes());
        let o = match child.wait_with_output() { Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(), Err(_) => return 0 };
        self.cvc5 += 1;
        let mut lines = o.lines();
        match lines.next() {
            Some("unsat") => -1,
            Some("sat") => {
                out.clear();
                for v in &pool().vars { out.push(v.lo); }
                for ((i, n), l) in names.iter().zip(lines) {
                    let t = l.trim().trim_start_matches("((").trim_end_matches("))").trim();
                    match t.strip_prefix(n.as_str()).and_then(|x| x.trim().parse::<u64>().ok()) { Some(v) => out[*i] = v, None => return 0 }
                }
                1
            }
            _ => 0,
        }
    }
    /// Is pc /\ cond satisfiable?  Some(model) if so; a solver give-up ends the process with an error.
    fn slice(&mut self, pc: &[E], cond: E) -> Vec<E> {
        let (cv, _) = self.atoms_in(&[cond]);
        let mut on: std::collections::HashSet<usize> = cv.into_iter().collect();
        let mut deps: Vec<(E, Vec<usize>, bool)> = pc.iter().map(|&e| { let v = self.vars_of(e); (e, v, false) }).collect();
        loop {
            let mut more = false;
            for d in deps.iter_mut() { if !d.2 && d.1.iter().any(|v| on.contains(v)) { d.2 = true; on.extend(d.1.iter().copied()); more = true; } }
            if !more { break; }
        }
        deps.into_iter().filter(|d| d.2).map(|d| d.0).collect()
    }
    /// What the linear forms settle without a solver: the condition is constant, or the path states it or its opposite.
    fn at_once(&mut self, pc: &[E], cond: E) -> c_int {
        let c = match self.ibool(cond) { Some(c) => c, None => return 0 };
        unsafe { if c == k_false(self.ctx) { return -1; } }
        let n = self.inot(c);
        for &e in pc { if let Some(p) = self.ibool(e) { if p == n || self.inot(p) == c { return -1; } } }
        0
    }
    /// `base` satisfies `pc` alone.
    pub fn check(&mut self, pc: &[E], cond: E, base: &[u64]) -> Option<Vec<u64>> {
        if cond == FALSE { return None; }
        let t = Instant::now();
        // only what shares variables with the condition, directly or through others, can matter: pc alone has a model
        let part = self.slice(pc, cond);
        let key = (part.clone(), cond);
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return r.as_ref().map(|m| { let mut o = base.to_vec(); for j in o.len()..pool().vars.len() { o.push(pool().vars[j].lo); } for &(i, v) in m { o[i] = v; } o });
        }
        let mut model = Vec::new();
        let hard = self.is_hard(cond) || part.iter().any(|&e| self.is_hard(e));
        // (encoding, resource step): whichever decides first wins; the last steps carry the full limit
        const I: u8 = 0; const B: u8 = 1; const C: u8 = 2;
        let plan: &[(u8, u32)] = if hard { &[(I, 0), (C, 5), (B, 0), (I, 1), (C, 40), (B, 1), (I, 2), (B, 2), (C, 120)] } else { &[(B, 3), (I, 0), (C, 5), (B, 0), (I, 1), (C, 40), (B, 1), (I, 2), (B, 2), (C, 120)] };
        let mut r = self.at_once(&part, cond);
        if r != 0 { self.quick += 1; }
        for &(how, lim) in plan {
            if r != 0 { break; }
            r = match how { I => self.try_int(&part, cond, lim as usize, &mut model), B => self.try_bv(&part, cond, lim as usize, &mut model), _ => { let c = self.try_cvc5(lim, &mut model); if c == 1 && !self.real(&part, cond, &model) { 0 } else { c } } };
        }
        let (vars, _) = { let mut roots = part.clone(); roots.push(cond); self.atoms_in(&roots) };
        if r == 1 {
            let mut o = base.to_vec();
            o.resize(pool().vars.len(), 0);
            for i in base.len()..o.len() { o[i] = pool().vars[i].lo; }
            let mut keep = vec![];
            for &i in &vars { o[i] = model[i]; keep.push((i, model[i])); }
            model = o;
            self.cache.insert(key, Some(keep));
        } else if r == -1 { self.cache.insert(key, None); }
        self.queries += 1;
        if self.diff > 0 && self.queries % self.diff == 0 {
            // both encodings must agree
            let mut m2 = Vec::new();
            let (a, b) = (self.try_int(&part, cond, 1, &mut m2), self.try_bv(&part, cond, 1, &mut m2));
            if a != 0 && b != 0 && a != b { eprintln!("ENGINE-ERROR: the two solver encodings disagree"); std::process::exit(75); }
        }
        let res = match r {
            1 => { self.sat += 1; Some(model) }
            -1 => { self.unsat += 1; None }
            _ => None,
        };
        let d = t.elapsed().as_secs_f64();
        self.time += d;
        if d > self.max_time { self.max_time = d; }
        if d > 4.0 { if let Ok(dir) = std::env::var("SYMEX_DUMP") { unsafe {
            let f = format!("{}/q{}-{}", dir, std::process::id(), self.queries);
            let cx = self.ctx;
            let dump = move |n: &str, s: P| { let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(cx, s)).to_string_lossy().into_owned(); let _ = std::fs::write(n, format!("; {:.1}s r={}\n(set-logic ALL)\n{}(check-sat)\n", d, r, t)); };
            let it = self.int_text(); let _ = std::fs::write(format!("{}.int.smt2", f), format!("; {:.1}s r={}\n(set-logic ALL)\n{}(check-sat)\n", d, r, it));
            self.sync(&part); let a = self.to_bool(cond);
            Z3_solver_push(cx, self.sol); Z3_solver_assert(cx, self.sol, a);
            dump(&format!("{}.bv.smt2", f), self.sol);
            Z3_solver_pop(cx, self.sol, 1);
        } } }
        if d > 5.0 && std::env::var("SYMEX_SLOW").is_ok() { eprintln!("slow query {:.1}s r={} hard={} pc={} {:?}", d, r, hard, pc.len(), self.trace); }
        if r == 0 { eprintln!("ENGINE-ERROR: solver gave up (resource limit) on a query; nothing is concluded"); std::process::exit(72); }
        res
    }
}
pub fn kids(n: &Node) -> Vec<E> {
    match n.op { Op::Ite => vec![n.a, n.b, n.c], Op::Extract | Op::SExt | Op::Tab | Op::Bnd => vec![n.a], Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Concat => vec![n.a, n.b], _ => vec![] }
}
/// A variable the model leaves free evaluates to itself.
unsafe fn Z3_get_numeral_uint64_safe(c: P, a: P, v: *mut u64, var: P) -> bool {
    if a == var { return false; }
    Z3_get_numeral_uint64(c, a, v)
}
pub unsafe fn k_sum(c: P, v: &[P]) -> P { if v.len() == 1 { return v[0]; } let r = Z3_mk_add(c, v.len() as u32, v.as_ptr()); Z3_inc_ref(c, r); r }
