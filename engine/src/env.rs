//! Models of everything outside the program: LLVM intrinsics, the C library, the file system,
//! threads, and the harness's sx_* interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::state::*;
use std::rc::Rc;

pub fn classify(name: &'static str, defined: bool) -> FnKind {
    if name.contains("8hash_one") { return FnKind::Native(h_hash); }
    const PANICS: &[(&str, u8)] = &[("9panicking9panic_fmt", 0), ("9panicking11begin_panic", 0), ("9panicking14panic_nounwind", 1), ("18panic_nounwind_fmt", 1), ("16panic_in_cleanup", 1), ("19panic_cannot_unwind", 1), ("36panic_misaligned_pointer_dereference", 1), ("18handle_alloc_error", 1), ("20rust_panic_with_hook", 1), ("13panic_display", 0), ("17panic_display_str", 0)];
    for (p, k) in PANICS { if name.contains(p) { return FnKind::Panic(*k); } }
    if defined { return FnKind::Ir; }
    if let Some(h) = native(name) { return FnKind::Native(h); }
    FnKind::Native(h_undefined)
}
fn h_undefined(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let w = x.wher(st); die(&format!("call of unmodelled external function {} in {}", c.name, w)) }

fn native(n: &'static str) -> Option<Handler> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let f: Handler = if r.starts_with("lifetime") || r.starts_with("assume") || r.starts_with("experimental.noalias") || r.starts_with("x86.sse2.pause") || r.starts_with("dbg") { h_nop }
            else if r.starts_with("memcpy") || r.starts_with("memmove") { h_memcpy } else if r.starts_with("memset") { h_memset }
            else if r.contains(".with.overflow") { h_overflow } else if r.starts_with("uadd.sat") || r.starts_with("usub.sat") || r.starts_with("sadd.sat") || r.starts_with("ssub.sat") { h_sat }
            else if r.starts_with("umax") || r.starts_with("umin") || r.starts_with("smax") || r.starts_with("smin") { h_minmax }
            else if r.starts_with("bswap") || r.starts_with("bitreverse") { h_perm } else if r.starts_with("is.constant") { h_zero } else if r.starts_with("expect") { h_first }
            else if r.starts_with("threadlocal.address") { h_tls } else if r.starts_with("ctpop") || r.starts_with("ctlz") || r.starts_with("cttz") { h_count }
            else if r.starts_with("trap") { h_trap } else if r.starts_with("ucmp") || r.starts_with("scmp") { h_cmp3 } else if r.starts_with("fshl") || r.starts_with("fshr") { h_fsh }
            else if r.starts_with("abs") { h_abs } else if ["fabs.", "ceil.", "floor.", "round.", "trunc.", "rint.", "nearbyint.", "exp2.", "roundeven.", "sqrt."].iter().any(|p| r.starts_with(p)) { h_fun }
            else if r.starts_with("fptoui.sat") || r.starts_with("fptosi.sat") { h_fptoint } else if r.starts_with("vector.reduce") { h_reduce }
            else if r.starts_with("maxnum") || r.starts_with("minnum") || r.starts_with("maximumnum") || r.starts_with("minimumnum") { h_fminmax }
            else { return None };
        return Some(f);
    }
    Some(match n {
        "memcpy" | "memmove" => h_memcpy, "memset" => h_memset, "bcmp" => h_bcmp, "memcmp" => h_memcmp, "strlen" => h_strlen,
        "malloc" => h_malloc, "calloc" => h_calloc, "realloc" => h_realloc, "free" => h_free, "posix_memalign" => h_memalign, "aligned_alloc" => h_aligned,
        "abort" => h_abort, "__errno_location" => h_errno, "getenv" => h_zero, "isatty" => h_zero,
        "open64" | "open" => h_open, "close" => h_close, "read" => h_read, "write" => h_write, "writev" => h_writev, "lseek64" | "lseek" => h_lseek, "fstat64" | "fstat" => h_fstat, "stat64" | "stat" | "lstat64" => h_stat,
        "pread64" => h_pread, "pwrite64" => h_pwrite, "ftruncate64" | "ftruncate" => h_ftruncate, "fsync" | "fdatasync" | "fchmod" | "chmod" | "fcntl" | "flock" | "posix_fadvise64" | "posix_fadvise" => h_zero, "rename" => h_rename, "unlink" => h_unlink, "mkdir" => h_mkdir, "access" => h_access,
        "statx" => h_enosys, "copy_file_range" | "sendfile64" => h_enosys, "ioctl" => h_enotty, "getcwd" => h_getcwd, "clock_gettime" => h_clock, "getrandom" => h_getrandom, "syscall" => h_syscall, "gettid" => h_gettid, "getpid" => h_one,
        "sysconf" => h_sysconf, "sched_yield" | "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" | "pthread_detach" | "sigaltstack" | "signal" | "sigaction" | "poll" | "mprotect" | "munmap" | "__cxa_thread_atexit_impl" | "pthread_key_delete" => h_zero,
        "dlsym" => h_zero, "getauxval" => h_zero, "pthread_self" => h_self, "pthread_create" => h_thread_create, "pthread_join" => h_thread_join,
        "pthread_key_create" => h_key_create, "pthread_setspecific" => h_key_set, "pthread_getspecific" => h_key_get, "__xpg_strerror_r" => h_strerror, "realpath" => h_zero,
        "sx_var" => s_var, "sx_assume" => s_assume, "sx_check" => s_check, "sx_mark" => s_mark, "sx_conc" => s_conc, "sx_dir" => s_dir, "sx_observe" => s_observe, "sx_on_panic" => s_on_panic, "sx_panic_ok" => s_panic_ok,
        "sx_param" => s_param, "sx_fault" => s_fault, "sx_file_put" => s_file_put, "sx_file_get" => s_file_get, "sx_hash_mode" => s_hash_mode, "sx_exit" => s_exit,
        "sx_on_exit" => s_on_exit, "exit" | "_exit" => h_exit,
        _ => return None,
    })
}
fn retw(c: &CallInfo) -> u16 { c.ty.scalar_w().unwrap_or(64) }
fn h_nop(_: &mut Exec, _: &mut State, _: &CallInfo) -> R<V> { Ok(V::I(0)) }
fn h_zero(_: &mut Exec, _: &mut State, _: &CallInfo) -> R<V> { Ok(V::I(0)) }
fn h_one(_: &mut Exec, _: &mut State, _: &CallInfo) -> R<V> { Ok(V::I(1)) }
fn h_first(_: &mut Exec, _: &mut State, c: &CallInfo) -> R<V> { Ok(c.args[0].clone()) }
fn h_gettid(_: &mut Exec, st: &mut State, _: &CallInfo) -> R<V> { Ok(V::I(st.tid as u64 + 100)) }
fn h_trap(x: &mut Exec, st: &mut State, _: &CallInfo) -> R<V> { let w = x.wher(st); Err(Trap::End(End::Abort(format!("trap in {}", w)))) }
fn h_abort(x: &mut Exec, st: &mut State, _: &CallInfo) -> R<V> { let w = x.wher(st); Err(Trap::End(End::Abort(format!("abort in {}", w)))) }

fn h_memcpy(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let n = x.conc(st, &c.args[2])? as usize;
    if n == 0 { return Ok(c.args[0].clone()); }
    let d = x.conc(st, &c.args[0])?; let s = x.conc(st, &c.args[1])?;
    x.copy(st, d, s, n)?;
    Ok(c.args[0].clone())
}
fn h_memset(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let n = x.conc(st, &c.args[2])? as usize;
    if n == 0 { return Ok(c.args[0].clone()); }
    let d = x.conc(st, &c.args[0])?;
    let (id, off) = x.at(st, d, n)?;
    match &c.args[1] {
        V::S(e) => { let b = pool().trunc(*e, 8); let o = st.mem.get_mut(id).unwrap(); for i in 0..n { o.set_e(off + i, b); } }
        V::I(v) => { let o = st.mem.get_mut(id).unwrap(); for b in &mut o.data[off..off + n] { *b = *v as u8; } o.clear_sym(off, n); }
        _ => die("memset"),
    }
    Ok(c.args[0].clone())
}
fn h_bcmp(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let n = x.conc(st, &c.args[2])? as usize; if n == 0 { return Ok(V::I(0)); }
    let a = x.conc(st, &c.args[0])?; let b = x.conc(st, &c.args[1])?;
    let (p, q) = (x.bytes(st, a, n)?, x.bytes(st, b, n)?);
    let pl = pool(); let mut eq = TRUE;
    for i in 0..n { let e = pl.bin(Op::Eq, p[i], q[i]); eq = pl.and(eq, e); if eq == FALSE { break; } }
    let ne = pl.not(eq); let r = pl.zext(ne, 32);
    Ok(x.from_e(r))
}
fn h_memcmp(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let n = x.conc(st, &c.args[2])? as usize; if n == 0 { return Ok(V::I(0)); }
    let a = x.conc(st, &c.args[0])?; let b = x.conc(st, &c.args[1])?;
    let (p, q) = (x.bytes(st, a, n)?, x.bytes(st, b, n)?);
    let pl = pool(); let (z, one, m1) = (pl.konst(32, 0), pl.konst(32, 1), pl.konst(32, 0xffff_ffff));
    let mut r = z;
    for i in (0..n).rev() { let eq = pl.bin(Op::Eq, p[i], q[i]); if eq == TRUE { continue; } let lt = pl.bin(Op::Ult, p[i], q[i]); let d = pl.ite(lt, m1, one); r = pl.ite(eq, r, d); }
    Ok(x.from_e(r))
}
fn h_strlen(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[0])?; let s = x.cstr(st, a)?; Ok(V::I(s.len() as u64)) }
fn alloc(st: &mut State, n: u64) -> V { if n > 1 << 30 { die("huge allocation"); } V::I((st.mem.alloc(n as usize, Kind::Heap) as u64) << 32) }
fn h_malloc(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let n = x.conc(st, &c.args[0])?; Ok(alloc(st, n)) }
fn h_aligned(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let n = x.conc(st, &c.args[1])?; Ok(alloc(st, n)) }
fn h_calloc(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let n = x.conc(st, &c.args[0])?; let m = x.conc(st, &c.args[1])?; Ok(alloc(st, n * m)) }
fn h_realloc(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let p = x.conc(st, &c.args[0])?; let n = x.conc(st, &c.args[1])?;
    if p == 0 { return Ok(alloc(st, n)); }
    let (id, _) = x.at(st, p, 0)?;
    let old = st.mem.get(id).unwrap().data.len();
    let r = alloc(st, n);
    if let V::I(a) = r { x.copy(st, a, p, old.min(n as usize))?; }
    st.mem.kill(id);
    Ok(r)
}
fn h_free(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let p = x.conc(st, &c.args[0])?; if p != 0 { let (id, _) = x.at(st, p, 0)?; st.mem.kill(id); } Ok(V::I(0)) }
fn h_memalign(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let p = x.conc(st, &c.args[0])?; let n = x.conc(st, &c.args[2])?; let r = alloc(st, n); x.st_v(st, p, 8, &r)?; Ok(V::I(0)) }

fn h_overflow(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0]; let n = c.name;
    let signed = n.starts_with("llvm.s");
    let op = if n.contains("add.with") { Op::Add } else if n.contains("sub.with") { Op::Sub } else { Op::Mul };
    if let (V::I(a), V::I(b)) = (&c.args[0], &c.args[1]) {
        if signed { let (a, b) = (sext64(*a, w) as i128, sext64(*b, w) as i128); let r = match op { Op::Add => a + b, Op::Sub => a - b, _ => a * b }; let t = (r as u128 & mask(w)) as u64; let o = sext64(t, w) as i128 != r; return Ok(V::Agg(Rc::new(vec![V::I(t), V::I(o as u64)]))); }
        let (a, b) = (*a as i128, *b as i128); let r = match op { Op::Add => a + b, Op::Sub => a - b, _ => a.wrapping_mul(b) };
        let o = match op { Op::Mul => (a as u128).checked_mul(b as u128).map_or(true, |v| v > mask(w)), _ => r < 0 || r as u128 > mask(w) };
        return Ok(V::Agg(Rc::new(vec![V::I((r as u128 & mask(w)) as u64), V::I(o as u64)])));
    }
    let p = pool();
    let (a, b) = (x.to_e(&c.args[0], w), x.to_e(&c.args[1], w));
    let r = p.bin(op, a, b);
    let o = if !signed {
        match op {
            Op::Add => p.bin(Op::Ult, r, a),
            Op::Sub => p.bin(Op::Ult, a, b),
            _ => { let (ia, ib) = (p.interval(a), p.interval(b)); if w <= 64 && (ia.1 as u128) * (ib.1 as u128) <= mask(w) { FALSE } else {
                // constant factor: overflow iff other > max / k
                let (k, v) = if let Some(k) = p.is_const(b) { (Some(k), a) } else if let Some(k) = p.is_const(a) { (Some(k), b) } else { (None, a) };
                match k { Some(k) if k > 0 => { let lim = p.konst(w, mask(w) / k); p.bin(Op::Ult, lim, v) } Some(_) => FALSE,
                    None => { if 2 * w > 128 { die("wide overflow multiplication"); } let (x2, y2) = (p.zext(a, 2 * w), p.zext(b, 2 * w)); let m = p.bin(Op::Mul, x2, y2); let h = p.extract(m, w, w); let z = p.konst(w, 0); let e = p.bin(Op::Eq, h, z); p.not(e) } } } }
        }
    } else {
        let w2 = if op == Op::Mul { 2 * w } else { w + 1 }; if w2 > 128 { die("wide signed multiplication"); }
        let (x2, y2) = (p.sext(a, w2), p.sext(b, w2)); let m = p.bin(op, x2, y2); let back = p.sext(r, w2); let e = p.bin(Op::Eq, m, back); p.not(e)
    };
    // unsigned add: express via intervals when possible
    let o = if !signed && op == Op::Add { let (ia, ib) = (p.interval(a), p.interval(b)); if w <= 64 && ia.1 as u128 + ib.1 as u128 <= mask(w) { FALSE } else if let Some(k) = p.is_const(b) { if k == 0 { FALSE } else { let lim = p.konst(w, mask(w) - k); p.bin(Op::Ult, lim, a) } } else { o } } else { o };
    // settle the overflow question now: the result's range is known from here on
    if !signed && o != FALSE && w <= 64 && (op == Op::Sub || op == Op::Mul && (p.is_const(a).is_some() || p.is_const(b).is_some())) && !x.decide(st, o)? {
        let r = if op == Op::Sub { nb(r, a, b) } else {
            let (k, v) = match p.is_const(b) { Some(k) => (k, a), None => (p.is_const(a).unwrap(), b) };
            let v = p.bnd(v, 0, (mask(w) / k) as u64); let k = p.konst(w, k); p.bin(Op::Mul, v, k)
        };
        return Ok(V::Agg(Rc::new(vec![x.from_e(r), x.from_e(FALSE)])));
    }
    if !signed && o == FALSE && op == Op::Sub && w <= 64 { let r = nb(r, a, b); return Ok(V::Agg(Rc::new(vec![x.from_e(r), x.from_e(FALSE)]))); }
    Ok(V::Agg(Rc::new(vec![x.from_e(r), x.from_e(o)])))
}
/// a - b where a >= b is known
fn nb(s: E, a: E, b: E) -> E {
    let p = pool();
    if p.w(a) > 64 { return s; }
    let (ia, ib) = (p.interval(a), p.interval(b));
    p.bnd(s, ia.0.saturating_sub(ib.1), ia.1.saturating_sub(ib.0))
}
fn h_sat(x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0]; let n = c.name; let p = pool();
    let (a, b) = (x.to_e(&c.args[0], w), x.to_e(&c.args[1], w));
    let r = if n.contains("uadd") { let s = p.add(a, b); let o = p.bin(Op::Ult, s, a); let m = p.konst(w, mask(w)); p.ite(o, m, s) }
        else if n.contains("usub") { let o = p.bin(Op::Ult, a, b); let s = p.sub(a, b); let s = nb(s, a, b); let z = p.konst(w, 0); p.ite(o, z, s) }
        else { let (x2, y2) = (p.sext(a, w + 1), p.sext(b, w + 1)); let s = p.bin(if n.contains("sadd") { Op::Add } else { Op::Sub }, x2, y2);
            let hi = p.konst(w + 1, mask(w) >> 1); let lo = p.konst(w + 1, !(mask(w) >> 1)); let gt = p.bin(Op::Slt, hi, s); let lt = p.bin(Op::Slt, s, lo); let t = p.ite(gt, hi, s); let t = p.ite(lt, lo, t); p.trunc(t, w) };
    Ok(x.from_e(r))
}
fn h_minmax(x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0]; let p = pool(); let (a, b) = (x.to_e(&c.args[0], w), x.to_e(&c.args[1], w));
    let lt = if c.name.starts_with("llvm.u") { p.bin(Op::Ult, a, b) } else { p.bin(Op::Slt, a, b) };
    let r = if c.name.contains("max") { p.ite(lt, b, a) } else { p.ite(lt, a, b) };
    Ok(x.from_e(r))
}
fn h_perm(x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0]; let p = pool(); let a = x.to_e(&c.args[0], w); let unit = if c.name.contains("bswap") { 8 } else { 1 };
    let mut acc = p.extract(a, 0, unit); let mut i = unit;
    while i < w { let b = p.extract(a, i, unit); acc = p.concat(acc, b); i += unit; }
    Ok(x.from_e(acc))
}
fn h_count(x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0];
    if let V::I(v) = c.args[0] { return Ok(V::I(if c.name.contains("ctpop") { v.count_ones() as u64 } else if c.name.contains("ctlz") { (v.leading_zeros() - (64 - w as u32)) as u64 } else { v.trailing_zeros().min(w as u32) as u64 })); }
    let p = pool(); let a = x.to_e(&c.args[0], w);
    let r = if c.name.contains("ctpop") { let mut s = p.konst(w, 0); for i in 0..w { let b = p.extract(a, i, 1); let b = p.zext(b, w); s = p.add(s, b); } s }
    else { let mut r = p.konst(w, w as u128); let it: Vec<u16> = if c.name.contains("ctlz") { (0..w).collect() } else { (0..w).rev().collect() };
        for i in it { let b = p.extract(a, i, 1); let k = p.konst(w, if c.name.contains("ctlz") { (w - 1 - i) as u128 } else { i as u128 }); r = p.ite(b, k, r); } r };
    Ok(x.from_e(r))
}
fn h_cmp3(x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0]; let rw = retw(c); let p = pool(); let (a, b) = (x.to_e(&c.args[0], w), x.to_e(&c.args[1], w));
    let op = if c.name.starts_with("llvm.u") { Op::Ult } else { Op::Slt };
    let lt = p.bin(op, a, b); let eq = p.bin(Op::Eq, a, b);
    let (m1, z, one) = (p.konst(rw, mask(rw)), p.konst(rw, 0), p.konst(rw, 1));
    let t = p.ite(eq, z, one); let r = p.ite(lt, m1, t);
    Ok(x.from_e(r))
}
fn h_fsh(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0]; let s = (x.conc(st, &c.args[2])? % w as u64) as u16; let p = pool(); let (a, b) = (x.to_e(&c.args[0], w), x.to_e(&c.args[1], w));
    if w > 64 { die("fsh wide"); }
    let t = p.concat(a, b);
    let r = if c.name.contains("fshl") { p.extract(t, w - s, w) } else { p.extract(t, s, w) };
    Ok(x.from_e(r))
}
fn h_abs(x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> { let w = c.argw[0]; let p = pool(); let a = x.to_e(&c.args[0], w); let z = p.konst(w, 0); let n = p.bin(Op::Slt, a, z); let m = p.sub(z, a); let r = p.ite(n, m, a); Ok(x.from_e(r)) }
fn h_fun(x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0]; let a = x.to_e(&c.args[0], w); let n = &c.name[5..];
    let op = match n.split('.').next().unwrap() { "fabs" => Op::FAbs, "ceil" => Op::FCeil, "floor" => Op::FFloor, "round" => Op::FRound, "trunc" => Op::FTruncInt, "rint" | "nearbyint" | "roundeven" => Op::FRint, "sqrt" => Op::FSqrt, "exp2" => Op::FExp2, _ => die(n) };
    let r = pool().fun(op, a, w); Ok(x.from_e(r))
}
fn h_fminmax(x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> {
    let w = c.argw[0]; let (a, b) = (x.to_e(&c.args[0], w), x.to_e(&c.args[1], w));
    let r = pool().fbin(if c.name.contains("max") { Op::FMax } else { Op::FMin }, a, b); Ok(x.from_e(r))
}
fn h_fptoint(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let w = c.argw[0]; let a = x.to_e(&c.args[0], w); let rw = retw(c); let f = pool().fun(if c.name.contains("fptoui") { Op::FpToUiSat } else { Op::FpToSiSat }, a, rw); let r = x.fp_to_int(st, f)?; Ok(x.from_e(r)) }
fn h_reduce(_x: &mut Exec, _st: &mut State, c: &CallInfo) -> R<V> {
    let f = agg(&c.args[0]); let mut acc = match &f[0] { V::I(v) => *v, _ => die("symbolic vector reduction") };
    for v in &f[1..] { let v = match v { V::I(v) => *v, _ => die("symbolic vector reduction") }; acc = if c.name.contains(".or.") { acc | v } else if c.name.contains(".and.") { acc & v } else if c.name.contains(".add.") { acc.wrapping_add(v) & mask64(retw(c)) } else if c.name.contains(".xor.") { acc ^ v } else if c.name.contains("umax") { acc.max(v) } else if c.name.contains("umin") { acc.min(v) } else { die(c.name) }; }
    Ok(V::I(acc))
}
fn h_tls(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let a = x.conc(st, &c.args[0])?; let g = (a >> 32) as u32;
    if st.tid == 0 { return Ok(V::I(a)); }
    let k = (st.tid, g);
    if let Some(id) = st.tls.get(&k) { return Ok(V::I((*id as u64) << 32)); }
    let d = x.m.global_init(g - FIRST_GLOBAL_OBJ as u32);
    let id = st.mem.alloc(d.len(), Kind::Heap);
    st.mem.get_mut(id).unwrap().data = d;
    st.tls.insert(k, id);
    Ok(V::I((id as u64) << 32))
}
// ---- hashing ---------------------------------------------------------------------------------------
/// BuildHasher::hash_one is replaced by a constant (mode 0) or, in mode N, by an arbitrary value below N chosen
/// per first key byte: any such function is a possible behaviour of a randomly keyed hasher as far as callers can rely on it.
fn h_hash(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    if st.hash_mode == 0 { return Ok(V::I(0)); }
    let key = match &c.args[1] { V::I(a) if *a >> 32 >= FIRST_GLOBAL_OBJ && *a < FN_BASE => { let v = x.ld(st, *a, 1)?; x.conc(st, &v)? } v => x.conc(st, v)? };
    if let Some(h) = st.hashes.get(&key) { return Ok(V::I(*h)); }
    let v = mkvar(x, st, "hash", 0, st.hash_mode - 1);
    // the variable must not be created again when this instruction is re-executed after a fork
    let e = match &v { V::S(e) => *e, _ => { return Ok(v) } };
    match st.subst.get(&e) { Some(h) => { let h = *h; st.hashes.insert(key, h); Ok(V::I(h)) } None => { st.inputs.pop(); st.names.pop(); Err(Trap::Conc(e)) } }
}
// ---- errno, files ------------------------------------------------------------------------------------
fn errno_obj(st: &mut State) -> u32 { let t = st.tid; if let Some(o) = st.errno.get(&t) { return *o; } let id = st.mem.alloc(4, Kind::Heap); st.errno.insert(t, id); id }
fn h_errno(_x: &mut Exec, st: &mut State, _c: &CallInfo) -> R<V> { Ok(V::I((errno_obj(st) as u64) << 32)) }
fn fail(x: &mut Exec, st: &mut State, e: u64, w: u16) -> R<V> { let o = errno_obj(st); x.st_v(st, (o as u64) << 32, 4, &V::I(e))?; Ok(V::I(mask64(w))) }
fn h_enosys(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { fail(x, st, 38, retw(c)) }
fn h_enotty(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { fail(x, st, 25, retw(c)) }
const CWD: &str = "/cwd";
fn normpath(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", CWD, p) };
    let mut parts: Vec<&str> = vec![];
    for s in full.split('/') { match s { "" | "." => {} ".." => { parts.pop(); } s => parts.push(s) } }
    format!("/{}", parts.join("/"))
}
fn parent(p: &str) -> String { match p.rfind('/') { Some(0) | None => "/".into(), Some(i) => p[..i].into() } }
fn dir_exists(st: &State, d: &str) -> bool { d == "/" || d == CWD || st.dirs.contains(d) }
fn h_open(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let a = x.conc(st, &c.args[0])?; let fl = x.conc(st, &c.args[1])?;
    let p: Rc<str> = normpath(&x.cstr(st, a)?).into();
    let acc = fl & 3; let (creat, excl, trunc, append) = (fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0);
    if dir_exists(st, &p) { if acc != 0 { return fail(x, st, 21, 32); } return fail(x, st, 21, 32); }
    let exists = st.files.contains_key(&p);
    if !exists && !creat { return fail(x, st, 2, 32); }
    if exists && creat && excl { return fail(x, st, 17, 32); }
    if !exists && !dir_exists(st, &parent(&p)) { return fail(x, st, 2, 32); }
    if !exists || (trunc && acc != 0) { Rc::make_mut(&mut st.files).insert(p.clone(), Rc::new(Obj::new(0, Kind::Heap))); }
    let fd = FdKind::File(Fd { path: p, pos: 0, append, rd: acc != 1, wr: acc != 0 });
    for i in 3..st.fds.len() { if st.fds[i].is_none() { st.fds[i] = Some(fd); return Ok(V::I(i as u64)); } }
    st.fds.push(Some(fd));
    Ok(V::I(st.fds.len() as u64 - 1))
}
fn h_close(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let fd = x.conc(st, &c.args[0])? as usize; if fd >= st.fds.len() || st.fds[fd].is_none() { return fail(x, st, 9, 32); } st.fds[fd] = None; Ok(V::I(0)) }
fn getfd(st: &State, fd: u64) -> Option<FdKind> { st.fds.get(fd as usize).cloned().flatten() }
fn do_read(x: &mut Exec, st: &mut State, f: &Fd, pos: u64, buf: u64, n: usize) -> R<usize> {
    let o = match st.files.get(&f.path) { Some(o) => o.clone(), None => return Ok(0) };
    let len = o.data.len() as u64;
    if pos >= len || n == 0 { return Ok(0); }
    let k = n.min((len - pos) as usize);
    let (id, off) = x.at(st, buf, k)?;
    let d = st.mem.get_mut(id).unwrap();
    d.data[off..off + k].copy_from_slice(&o.data[pos as usize..pos as usize + k]);
    d.clear_sym(off, k);
    for (i, e) in o.sym.range(pos as u32..(pos as usize + k) as u32) { d.sym.insert(*i - pos as u32 + off as u32, *e); }
    Ok(k)
}
fn h_read(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let fd = x.conc(st, &c.args[0])?; let buf = x.conc(st, &c.args[1])?; let n = x.conc(st, &c.args[2])? as usize;
    match getfd(st, fd) { Some(FdKind::File(f)) if f.rd => { let k = do_read(x, st, &f, f.pos, buf, n)?; if let Some(Some(FdKind::File(g))) = st.fds.get_mut(fd as usize) { g.pos += k as u64; } Ok(V::I(k as u64)) } Some(FdKind::Sink) => Ok(V::I(0)), _ => fail(x, st, 9, 64) }
}
fn h_pread(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let fd = x.conc(st, &c.args[0])?; let buf = x.conc(st, &c.args[1])?; let n = x.conc(st, &c.args[2])? as usize; let pos = x.conc(st, &c.args[3])?;
    match getfd(st, fd) { Some(FdKind::File(f)) if f.rd => { let k = do_read(x, st, &f, pos, buf, n)?; Ok(V::I(k as u64)) } _ => fail(x, st, 9, 64) }
}
fn do_write(x: &mut Exec, st: &mut State, f: &Fd, pos: u64, buf: u64, n: usize) -> R<()> {
    if n == 0 { return Ok(()); }
    let (id, off) = x.at(st, buf, n)?;
    let src = st.mem.get(id).unwrap().clone();
    let files = Rc::make_mut(&mut st.files);
    if !files.contains_key(&f.path) { return Ok(()); } // unlinked
    let o = Rc::make_mut(files.get_mut(&f.path).unwrap());
    let end = pos as usize + n;
    if o.data.len() < end { o.data.resize(end, 0); }
    o.data[pos as usize..end].copy_from_slice(&src.data[off..off + n]);
    o.clear_sym(pos as usize, n);
    for (i, e) in src.sym.range(off as u32..(off + n) as u32) { o.sym.insert(*i - off as u32 + pos as u32, *e); }
    Ok(())
}
fn write_common(x: &mut Exec, st: &mut State, fd: u64, buf: u64, mut n: usize) -> R<V> {
    match getfd(st, fd) {
        Some(FdKind::Sink) => Ok(V::I(n as u64)),
        Some(FdKind::File(f)) if f.wr => {
            let k = st.nwrites; 
            if st.faults.mode != 0 {
                let fl = st.faults.clone();
                if fl.mode == 1 && k == fl.nth { n = n.min(fl.amount as usize); }
                if fl.mode == 2 && k >= fl.nth { st.nwrites += 1; return fail(x, st, 28, 64); }
                if fl.mode == 3 { if k == fl.nth { n = n.min(fl.amount as usize); } else if k > fl.nth { st.nwrites += 1; return fail(x, st, 28, 64); } }
                if fl.mode == 4 && k == fl.nth { st.nwrites += 1; return fail(x, st, 4, 64); }
                if fl.mode == 5 { n = n.min(fl.amount as usize); }
            }
            let pos = if f.append { st.files.get(&f.path).map_or(0, |o| o.data.len() as u64) } else { f.pos };
            do_write(x, st, &f, pos, buf, n)?;
            st.nwrites += 1;
            if let Some(Some(FdKind::File(g))) = st.fds.get_mut(fd as usize) { g.pos = pos + n as u64; }
            Ok(V::I(n as u64))
        }
        _ => fail(x, st, 9, 64),
    }
}
fn h_write(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let fd = x.conc(st, &c.args[0])?; let buf = x.conc(st, &c.args[1])?; let n = x.conc(st, &c.args[2])? as usize; write_common(x, st, fd, buf, n) }
fn h_pwrite(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let fd = x.conc(st, &c.args[0])?; let buf = x.conc(st, &c.args[1])?; let n = x.conc(st, &c.args[2])? as usize; let pos = x.conc(st, &c.args[3])?;
    match getfd(st, fd) { Some(FdKind::File(f)) if f.wr => { do_write(x, st, &f, pos, buf, n)?; st.nwrites += 1; Ok(V::I(n as u64)) } _ => fail(x, st, 9, 64) }
}
fn h_writev(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let fd = x.conc(st, &c.args[0])?; let iov = x.conc(st, &c.args[1])?; let n = x.conc(st, &c.args[2])?;
    // a short write of just the first non-empty part is permitted; sinks take everything
    let mut total = 0u64;
    for i in 0..n { let b = x.ld(st, iov + i * 16, 8)?; let l = x.ld(st, iov + i * 16 + 8, 8)?; let (b, l) = (x.conc(st, &b)?, x.conc(st, &l)?);
        if let Some(FdKind::Sink) = getfd(st, fd) { total += l; continue; }
        if l > 0 { return write_common(x, st, fd, b, l as usize); } }
    Ok(V::I(total))
}
fn h_lseek(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let fd = x.conc(st, &c.args[0])?; let off = x.conc(st, &c.args[1])? as i64; let wh = x.conc(st, &c.args[2])?;
    match getfd(st, fd) {
        Some(FdKind::File(f)) => { let len = st.files.get(&f.path).map_or(0, |o| o.data.len()) as i64; let p = match wh { 0 => off, 1 => f.pos as i64 + off, 2 => len + off, _ => -1 }; if p < 0 { return fail(x, st, 22, 64); } if let Some(Some(FdKind::File(g))) = st.fds.get_mut(fd as usize) { g.pos = p as u64; } Ok(V::I(p as u64)) }
        Some(_) => fail(x, st, 29, 64), None => fail(x, st, 9, 64),
    }
}
fn fill_stat(x: &mut Exec, st: &mut State, buf: u64, size: u64, dir: bool) -> R<V> {
    x.st_bytes(st, buf, &[0u8; 144])?;
    x.st_v(st, buf + 48, 8, &V::I(size))?; x.st_v(st, buf + 24, 4, &V::I(if dir { 0o040755 } else { 0o100644 }))?; x.st_v(st, buf + 56, 8, &V::I(4096))?;
    Ok(V::I(0))
}
fn h_fstat(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let fd = x.conc(st, &c.args[0])?; let buf = x.conc(st, &c.args[1])?;
    match getfd(st, fd) { Some(FdKind::File(f)) => { let n = st.files.get(&f.path).map_or(0, |o| o.data.len() as u64); fill_stat(x, st, buf, n, false) } Some(_) => fill_stat(x, st, buf, 0, false), None => fail(x, st, 9, 32) }
}
fn h_stat(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let a = x.conc(st, &c.args[0])?; let buf = x.conc(st, &c.args[1])?; let p: Rc<str> = normpath(&x.cstr(st, a)?).into();
    if let Some(o) = st.files.get(&p) { let n = o.data.len() as u64; return fill_stat(x, st, buf, n, false); }
    if dir_exists(st, &p) { return fill_stat(x, st, buf, 4096, true); }
    fail(x, st, 2, 32)
}
fn h_access(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[0])?; let p: Rc<str> = normpath(&x.cstr(st, a)?).into(); if st.files.contains_key(&p) || dir_exists(st, &p) { Ok(V::I(0)) } else { fail(x, st, 2, 32) } }
fn h_ftruncate(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let fd = x.conc(st, &c.args[0])?; let n = x.conc(st, &c.args[1])? as usize;
    match getfd(st, fd) { Some(FdKind::File(f)) if f.wr => { let o = Rc::make_mut(Rc::make_mut(&mut st.files).get_mut(&f.path).unwrap()); let old = o.data.len(); if n < old { o.clear_sym(n, old - n); } o.data.resize(n, 0); Ok(V::I(0)) } _ => fail(x, st, 9, 32) }
}
fn h_rename(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let a = x.conc(st, &c.args[0])?; let b = x.conc(st, &c.args[1])?; let p: Rc<str> = normpath(&x.cstr(st, a)?).into(); let q: Rc<str> = normpath(&x.cstr(st, b)?).into();
    if !st.files.contains_key(&p) || !dir_exists(st, &parent(&q)) { return fail(x, st, 2, 32); }
    let f = Rc::make_mut(&mut st.files); let o = f.remove(&p).unwrap(); f.insert(q, o); Ok(V::I(0))
}
fn h_unlink(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[0])?; let p: Rc<str> = normpath(&x.cstr(st, a)?).into(); if Rc::make_mut(&mut st.files).remove(&p).is_none() { return fail(x, st, 2, 32); } Ok(V::I(0)) }
fn h_mkdir(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[0])?; let p = normpath(&x.cstr(st, a)?); if dir_exists(st, &p) { return fail(x, st, 17, 32); } Rc::make_mut(&mut st.dirs).insert(p); Ok(V::I(0)) }
fn h_getcwd(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[0])?; let mut b = CWD.as_bytes().to_vec(); b.push(0); x.st_bytes(st, a, &b)?; Ok(V::I(a)) }
fn h_clock(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[1])?; x.st_v(st, a, 8, &V::I(1_000_000))?; x.st_v(st, a + 8, 8, &V::I(0))?; Ok(V::I(0)) }
fn h_getrandom(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[0])?; let n = x.conc(st, &c.args[1])?; let b: Vec<u8> = (0..n).map(|i| i as u8).collect(); x.st_bytes(st, a, &b)?; Ok(V::I(n)) }
fn h_sysconf(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let k = x.conc(st, &c.args[0])?; Ok(V::I(match k { 30 => 4096, 83 | 84 => 4, 70 => 1024, _ => 16384 })) }
fn h_strerror(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[1])?; x.st_bytes(st, a, b"error\0")?; Ok(V::I(0)) }
// ---- threads -----------------------------------------------------------------------------------------
fn h_self(_x: &mut Exec, st: &mut State, _c: &CallInfo) -> R<V> { Ok(V::I(st.tid as u64 + 1)) }
fn h_thread_create(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let out = x.conc(st, &c.args[0])?; let f = x.conc(st, &c.args[2])?; let a = x.conc(st, &c.args[3])?;
    st.threads.push((f, a, false));
    let id = st.threads.len() as u64; // tid + 1
    x.st_v(st, out, 8, &V::I(id))?;
    Ok(V::I(0))
}
/// Run a not yet started thread to its end, inside the waiting call of the current one.
fn run_thread(x: &mut Exec, st: &mut State, t: usize, dst: Option<u32>, advance: bool) {
    let (f, a, _) = st.threads[t];
    let prev = st.tid; st.tid = t as u32; st.threads[t].2 = true;
    if advance { st.frames.last_mut().unwrap().ip += 1; }
    x.push_frame(st, ((f - FN_BASE) / 16) as u32, &[V::I(a)], dst, RetAct::ThreadEnd(prev));
}
fn h_thread_join(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let t = x.conc(st, &c.args[0])? as usize - 1;
    if t >= st.threads.len() { die("pthread_join"); }
    if !st.threads[t].2 { run_thread(x, st, t, c.dst, true); }
    Ok(V::I(0))
}
fn h_syscall(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    match x.conc(st, &c.args[0])? {
        202 => {
            let op = x.conc(st, &c.args[2])? & 127;
            match op {
                0 | 9 => {
                    let a = x.conc(st, &c.args[1])?; let v = x.conc(st, &c.args[3])? & 0xffff_ffff;
                    let cur = x.ld(st, a, 4)?; let cur = x.conc(st, &cur)?;
                    if cur != v { return fail(x, st, 11, 64); }
                    if let Some(t) = (1..st.threads.len()).find(|t| !st.threads[*t].2) { run_thread(x, st, t, None, false); return Ok(V::I(0)); }
                    let w = x.wher(st);
                    Err(Trap::End(End::Deadlock(format!("thread {} waits forever in {}", st.tid, w))))
                }
                _ => Ok(V::I(0)),
            }
        }
        318 => { let a = x.conc(st, &c.args[1])?; let n = x.conc(st, &c.args[2])?; let b: Vec<u8> = (0..n).map(|i| i as u8).collect(); x.st_bytes(st, a, &b)?; Ok(V::I(n)) }
        186 => Ok(V::I(st.tid as u64 + 100)),
        _ => fail(x, st, 38, 64),
    }
}
fn h_key_create(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let a = x.conc(st, &c.args[0])?; st.keys.push(0); let k = st.keys.len() as u64; x.st_v(st, a, 4, &V::I(k))?; Ok(V::I(0)) }
fn h_key_set(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let k = x.conc(st, &c.args[0])? as u32; let v = x.conc(st, &c.args[1])?; st.keyvals.insert((st.tid, k), v); Ok(V::I(0)) }
fn h_key_get(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let k = x.conc(st, &c.args[0])? as u32; Ok(V::I(*st.keyvals.get(&(st.tid, k)).unwrap_or(&0))) }
// ---- harness interface -------------------------------------------------------------------------------
fn arg_str(x: &mut Exec, st: &mut State, p: &V, n: &V) -> R<String> { let a = x.conc(st, p)?; let n = x.conc(st, n)? as usize; let b = x.cbytes(st, a, n)?; Ok(String::from_utf8_lossy(&b).into_owned()) }
fn mkvar(x: &mut Exec, st: &mut State, name: &str, lo: u64, hi: u64) -> V {
    if lo > hi { die("empty variable range"); }
    let w = (64 - hi.leading_zeros()).max(1) as u16;
    let p = pool();
    let key = (st.inputs.len(), name.to_string(), lo, hi);
    let v = match x.varmap.get(&key) { Some(v) => *v, None => { let v = p.var(name, w, lo, hi); x.varmap.insert(key, v); v } };
    if lo == hi { let k = p.konst(64, lo as u128); st.inputs.push(k); st.names.push((name.into(), lo, hi)); return V::I(lo); }
    st.inputs.push(v); st.names.push((name.into(), lo, hi));
    if let Some(r) = p.raw_range(v, lo, hi) { if !st.pc.contains(&r) {
        st.pc.push(r);
        // the current model may carry a value of this variable from another path
        let cur = p.eval(v, &st.model, st.epoch) as u64;
        if cur < lo || cur > hi { let mut m = (*st.model).clone(); let id = p.node(v).k as usize; while m.len() <= id { let l = p.vars[m.len()].lo; m.push(l); } m[id] = lo; st.model = Rc::new(m); st.epoch = p.new_epoch(); }
    } }
    V::S(v)
}
fn s_var(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let n = arg_str(x, st, &c.args[0], &c.args[1])?; let lo = x.conc(st, &c.args[2])?; let hi = x.conc(st, &c.args[3])?;
    match mkvar(x, st, &n, lo, hi) { V::S(e) => { let z = pool().zext(e, 64); Ok(x.from_e(z)) } v => Ok(v) }
}
fn s_assume(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    match &c.args[0] { V::I(v) => if *v & 1 == 0 { return Err(Trap::End(End::Assume)); }, V::S(e) => {
        let e = *e;
        // no sibling is wanted for the excluded side
        if let Some(b) = st.known.get(&e) { if !*b { return Err(Trap::End(End::Assume)); } return Ok(V::I(0)); }
        if x.eval(st, e) == 0 { match x.query(st, e) { None => return Err(Trap::End(End::Assume)), Some(m) => { st.model = Rc::new(m); st.epoch = pool().new_epoch(); } } }
        st.pc.push(e); x.assume(st, e, true);
    } _ => die("assume") }
    Ok(V::I(0))
}
fn s_check(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let id = arg_str(x, st, &c.args[1], &c.args[2])?;
    // assertions of properties that were not asked for are left out (they are not assumed either)
    if !x.cfg.only.is_empty() && !x.cfg.only.iter().any(|p| id.starts_with(p.as_str())) { return Ok(V::I(0)); }
    x.stats.checks += 1;
    *x.stats.check_ids.entry(id.clone()).or_insert(0) += 1;
    match &c.args[0] {
        V::I(v) => { if *v & 1 == 1 { x.stats.trivially += 1; } else { let m = st.model.clone(); x.violate(st, id, "assertion is false on this path".into(), &m); return Err(Trap::End(End::Assume)); } }
        V::S(e) => {
            let e = *e; let ne = pool().not(e);
            let bad = if x.eval(st, e) == 0 { Some((*st.model).clone()) } else if st.known.get(&e) == Some(&true) { None } else { x.query(st, ne) };
            match bad {
                None => { x.stats.discharged += 1; x.assume(st, e, true); }
                Some(m) => {
                    x.violate(st, id, "the solver found values that falsify the assertion".into(), &m);
                    match x.query(st, e) { None => return Err(Trap::End(End::Assume)), Some(m) => { st.model = Rc::new(m); st.epoch = pool().new_epoch(); st.pc.push(e); x.assume(st, e, true); } }
                }
            }
        }
        _ => die("check"),
    }
    Ok(V::I(0))
}
fn s_mark(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let n = arg_str(x, st, &c.args[0], &c.args[1])?; if !st.marks.iter().any(|m| **m == *n) { st.marks.push(n.into()); } Ok(V::I(0)) }
fn s_conc(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let v = x.conc(st, &c.args[0])?; Ok(V::I(v)) }
fn s_dir(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let n = arg_str(x, st, &c.args[0], &c.args[1])?; Rc::make_mut(&mut st.dirs).insert(normpath(&n)); Ok(V::I(0)) }
fn s_observe(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let n = arg_str(x, st, &c.args[0], &c.args[1])?; let a = x.conc(st, &c.args[2])?; let l = x.conc(st, &c.args[3])? as usize; let b = x.bytes(st, a, l)?; st.observed.push((n.into(), b)); Ok(V::I(0)) }
fn s_on_panic(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let f = x.conc(st, &c.args[0])?; st.on_panic = Some(f); Ok(V::I(0)) }
fn s_panic_ok(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { st.panic_ok = x.conc(st, &c.args[0])? & 1 == 1; Ok(V::I(0)) }
fn s_param(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let n = arg_str(x, st, &c.args[0], &c.args[1])?; let d = x.conc(st, &c.args[2])?; Ok(V::I(*x.cfg.params.get(&n).unwrap_or(&d))) }
fn s_fault(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let m = x.conc(st, &c.args[0])?; let n = x.conc(st, &c.args[1])?; let a = x.conc(st, &c.args[2])?; st.faults = Faults { mode: m, nth: n, amount: a }; st.nwrites = 0; Ok(V::I(0)) }
fn s_hash_mode(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { st.hash_mode = x.conc(st, &c.args[0])?; st.hashes.clear(); Ok(V::I(0)) }
fn s_on_exit(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let f = x.conc(st, &c.args[0])?; st.on_exit = Some(f); Ok(V::I(0)) }
fn h_exit(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> { let e = x.conc(st, &c.args[0])?; Err(Trap::End(End::Exit(e))) }
fn s_exit(_x: &mut Exec, _st: &mut State, _c: &CallInfo) -> R<V> { Err(Trap::End(End::Done)) }
fn s_file_put(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let n = arg_str(x, st, &c.args[0], &c.args[1])?; let a = x.conc(st, &c.args[2])?; let l = x.conc(st, &c.args[3])? as usize;
    let b = x.bytes(st, a, l)?;
    let mut o = Obj::new(l, Kind::Heap);
    for (i, e) in b.into_iter().enumerate() { o.set_e(i, e); }
    Rc::make_mut(&mut st.files).insert(normpath(&n).into(), Rc::new(o));
    Ok(V::I(0))
}
fn s_file_get(x: &mut Exec, st: &mut State, c: &CallInfo) -> R<V> {
    let n = arg_str(x, st, &c.args[0], &c.args[1])?; let a = x.conc(st, &c.args[2])?; let cap = x.conc(st, &c.args[3])? as usize;
    let p: Rc<str> = normpath(&n).into();
    let o = match st.files.get(&p) { Some(o) => o.clone(), None => return Ok(V::I(u64::MAX)) };
    let k = cap.min(o.data.len());
    if k > 0 { let (id, off) = x.at(st, a, k)?; let d = st.mem.get_mut(id).unwrap(); for i in 0..k { d.set_e(off + i, o.byte_e(i)); } }
    Ok(V::I(o.data.len() as u64))
}
