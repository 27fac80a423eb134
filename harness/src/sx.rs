//! The harness's interface to the symbolic executor (and, with feature "native", its concrete replay twin).
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn sx_var(n: *const u8, l: usize, lo: u64, hi: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, n: *const u8, l: usize);
        pub fn sx_mark(n: *const u8, l: usize);
        pub fn sx_conc(v: u64) -> u64;
        pub fn sx_dir(n: *const u8, l: usize);
        pub fn sx_observe(n: *const u8, l: usize, b: *const u8, m: usize);
        pub fn sx_on_panic(f: extern "C" fn());
        pub fn sx_panic_ok(b: bool);
        pub fn sx_param(n: *const u8, l: usize, d: u64) -> u64;
        pub fn sx_fault(mode: u64, nth: u64, amount: u64);
        pub fn sx_file_put(n: *const u8, l: usize, b: *const u8, m: usize);
        pub fn sx_file_get(n: *const u8, l: usize, b: *mut u8, m: usize) -> u64;
        pub fn sx_hash_mode(m: u64);
        pub fn sx_exit() -> !;
        pub fn sx_args(argc: i32, argv: *const *const u8, env: *const *const u8);
        pub fn sx_on_exit(f: extern "C" fn(i32));
    }
}

#[cfg(feature = "native")]
mod raw {
    //! Concrete twin: values come from a replay file, checks print their verdict.
    use std::io::Write;
    use std::sync::Mutex;
    pub struct Rt { pub inputs: Vec<(String, u64)>, pub next: usize, pub params: Vec<(String, u64)>, pub on_panic: Option<extern "C" fn()>, pub panic_ok: bool, pub fault: (u64, u64, u64), pub writes: u64, pub log: Vec<String> }
    pub static RT: Mutex<Rt> = Mutex::new(Rt { inputs: Vec::new(), next: 0, params: Vec::new(), on_panic: None, panic_ok: false, fault: (0, 0, 0), writes: 0, log: Vec::new() });
    static LOG: Mutex<String> = Mutex::new(String::new());
    pub fn set_log(p: &str) { *LOG.lock().unwrap() = p.to_string(); }
    pub fn emit(s: &str) {
        // straight to the log, so that nothing is lost if the process ends abruptly
        let p = LOG.lock().unwrap().clone();
        let saved = { let mut r = RT.lock().unwrap(); let s = (r.fault, r.writes); r.fault = (0, 0, 0); s };
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&p).unwrap();
        f.write_all(s.as_bytes()).unwrap(); f.write_all(b"\n").unwrap();
        let mut r = RT.lock().unwrap(); r.fault = saved.0; r.writes = saved.1;
    }
    fn s(n: *const u8, l: usize) -> String { String::from_utf8(unsafe { std::slice::from_raw_parts(n, l) }.to_vec()).unwrap() }
    pub unsafe fn sx_var(n: *const u8, l: usize, lo: u64, hi: u64) -> u64 {
        let mut r = RT.lock().unwrap();
        // values of engine-internal choices carry names the harness never asks for
        while r.next < r.inputs.len() && r.inputs[r.next].0 == "hash" { r.next += 1; }
        let k = r.next; r.next += 1;
        let name = s(n, l);
        if k >= r.inputs.len() { drop(r); emit(&format!("MISMATCH ran out of inputs at {}", name)); std::process::exit(4); }
        let v = r.inputs[k].clone();
        if v.0 != name || v.1 < lo || v.1 > hi { drop(r); emit(&format!("MISMATCH input {} wanted {}", v.0, name)); std::process::exit(4); }
        v.1
    }
    pub unsafe fn sx_assume(c: bool) { if !c { emit("END assume"); std::process::exit(0); } }
    pub unsafe fn sx_check(c: bool, n: *const u8, l: usize) { if !c { emit(&format!("FAILED {}", s(n, l))); } }
    pub unsafe fn sx_mark(_n: *const u8, _l: usize) {}
    pub unsafe fn sx_conc(v: u64) -> u64 { v }
    pub unsafe fn sx_dir(n: *const u8, l: usize) { let _ = std::fs::create_dir_all(s(n, l)); }
    pub unsafe fn sx_observe(n: *const u8, l: usize, b: *const u8, m: usize) {
        let b = std::slice::from_raw_parts(b, m);
        let mut h = String::new(); for x in b { h.push_str(&format!("{:02x}", x)); }
        emit(&format!("OBS {} {}", s(n, l), h));
    }
    pub unsafe fn sx_on_panic(f: extern "C" fn()) { RT.lock().unwrap().on_panic = Some(f); }
    pub unsafe fn sx_panic_ok(b: bool) { RT.lock().unwrap().panic_ok = b; }
    pub unsafe fn sx_param(n: *const u8, l: usize, d: u64) -> u64 { let n = s(n, l); RT.lock().unwrap().params.iter().find(|p| p.0 == n).map_or(d, |p| p.1) }
    pub unsafe fn sx_fault(mode: u64, nth: u64, amount: u64) { let mut r = RT.lock().unwrap(); r.fault = (mode, nth, amount); r.writes = 0; }
    pub unsafe fn sx_file_put(n: *const u8, l: usize, b: *const u8, m: usize) { std::fs::write(s(n, l), std::slice::from_raw_parts(b, m)).unwrap(); }
    pub unsafe fn sx_file_get(n: *const u8, l: usize, b: *mut u8, m: usize) -> u64 {
        match std::fs::read(s(n, l)) { Ok(d) => { let k = d.len().min(m); std::ptr::copy_nonoverlapping(d.as_ptr(), b, k); d.len() as u64 } Err(_) => u64::MAX }
    }
    pub unsafe fn sx_hash_mode(_m: u64) {}
    pub unsafe fn sx_exit() -> ! { emit("END done"); std::process::exit(0) }

    extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
    fn is_regular(fd: i32) -> bool { let p = format!("/proc/self/fd/{}", fd); std::fs::metadata(&p).map_or(false, |m| m.is_file()) }
    /// Replaces libc's write so that the same faults the engine explores can be injected into the real program.
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, b: *const u8, mut n: usize) -> isize {
        if fd > 2 {
            let (mode, nth, amount, armed) = match RT.try_lock() { Ok(r) => (r.fault.0, r.fault.1, r.fault.2, r.fault.0 != 0), Err(_) => (0, 0, 0, false) };
            if armed && is_regular(fd) {
                let k = { let mut r = RT.lock().unwrap(); r.writes += 1; r.writes - 1 };
                let err = match mode { 1 => { if k == nth { n = n.min(amount as usize); } 0 } 2 => if k >= nth { 28 } else { 0 }, 3 => { if k == nth { n = n.min(amount as usize); 0 } else if k > nth { 28 } else { 0 } } 4 => if k == nth { 4 } else { 0 }, 5 => { n = n.min(amount as usize); 0 } _ => 0 };
                if err != 0 { *__errno_location() = err; return -1; }
            }
        }
        syscall(1, fd as i64, b, n) as isize
    }
    pub fn install_hook() {
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            let (ok, f) = { let mut r = RT.lock().unwrap(); let x = (r.panic_ok, r.on_panic.take()); r.panic_ok = false; x };
            if ok {
                if let Some(f) = f { f(); }
                emit("END done"); std::process::exit(0);
            }
            emit(&format!("PANIC {}", loc));
            std::process::exit(101);
        }));
    }
}
#[cfg(feature = "native")]
pub use raw::{emit, install_hook, set_log, RT};

pub fn var(n: &str, lo: u64, hi: u64) -> u64 { unsafe { raw::sx_var(n.as_ptr(), n.len(), lo, hi) } }
pub fn var8(n: &str, lo: u8, hi: u8) -> u8 { var(n, lo as u64, hi as u64) as u8 }
pub fn flag(n: &str) -> bool { var(n, 0, 1) == 1 }
pub fn assume(c: bool) { unsafe { raw::sx_assume(c) } }
pub fn check(c: bool, id: &str) { unsafe { raw::sx_check(c, id.as_ptr(), id.len()) } }
pub fn mark(n: &str) { unsafe { raw::sx_mark(n.as_ptr(), n.len()) } }
/// Make a value concrete (the executor forks over every feasible one).
pub fn conc(v: u64) -> u64 { unsafe { raw::sx_conc(v) } }
/// A choice made concrete at once: one path per value.
pub fn choose(n: &str, lo: u64, hi: u64) -> u64 { conc(var(n, lo, hi)) }
/// As `flag`, one path per value.
pub fn flag_c(n: &str) -> bool { conc(var(n, 0, 1)) == 1 }
pub fn dir(n: &str) { unsafe { raw::sx_dir(n.as_ptr(), n.len()) } }
pub fn observe(n: &str, b: &[u8]) { unsafe { raw::sx_observe(n.as_ptr(), n.len(), b.as_ptr(), b.len()) } }
pub fn on_panic(f: extern "C" fn()) { unsafe { raw::sx_on_panic(f) } }
pub fn panic_ok(b: bool) { unsafe { raw::sx_panic_ok(b) } }
pub fn param(n: &str, d: u64) -> u64 { unsafe { raw::sx_param(n.as_ptr(), n.len(), d) } }
pub fn fault(mode: u64, nth: u64, amount: u64) { unsafe { raw::sx_fault(mode, nth, amount) } }
pub fn put(n: &str, b: &[u8]) { unsafe { raw::sx_file_put(n.as_ptr(), n.len(), b.as_ptr(), b.len()) } }
pub fn get(n: &str) -> Option<Vec<u8>> {
    let mut b = vec![0u8; 1 << 13];
    let l = unsafe { raw::sx_file_get(n.as_ptr(), n.len(), b.as_mut_ptr(), b.len()) };
    if l == u64::MAX { return None; }
    if l as usize > b.len() { b.resize(l as usize, 0); unsafe { raw::sx_file_get(n.as_ptr(), n.len(), b.as_mut_ptr(), b.len()); } }
    b.truncate(l as usize);
    Some(b)
}
pub fn hash_mode(m: u64) { unsafe { raw::sx_hash_mode(m) } }
pub fn exit() -> ! { unsafe { raw::sx_exit() } }

/// Runs the program with the given arguments; `done` is called with its exit code.
#[cfg(not(feature = "native"))]
pub fn cli(args: &[Vec<u8>], done: extern "C" fn(i32)) {
    let mut all: Vec<Vec<u8>> = vec![b"midi2spc\0".to_vec()];
    for a in args { let mut a = a.clone(); a.push(0); all.push(a); }
    let mut ptrs: Vec<*const u8> = all.iter().map(|a| a.as_ptr()).collect();
    ptrs.push(std::ptr::null());
    unsafe { raw::sx_args(all.len() as i32, ptrs.as_ptr(), ptrs[all.len()..].as_ptr()); raw::sx_on_exit(done); }
    let code: u8 = unsafe { std::mem::transmute(::cli::cli()) };
    done(code as i32);
}
#[cfg(feature = "native")]
pub fn cli(args: &[Vec<u8>], done: extern "C" fn(i32)) {
    use std::os::unix::ffi::OsStrExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.env("SX_CLI", "1").env_remove("RUST_BACKTRACE").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    for a in args { c.arg(std::ffi::OsStr::from_bytes(a)); }
    let s = c.status().unwrap();
    match s.code() { Some(101) | None => panic!("the program panicked"), Some(n) => done(n) }
}
