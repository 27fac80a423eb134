//! Work splitting over processes: an explorer that has spare pending states forks a copy of itself and
//! hands it half of them.
use crate::ir::die;
use std::ffi::c_void;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Instant;

extern "C" {
    fn mmap(a: *mut c_void, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}
pub enum Split { Child, Parent, None }
pub struct Par { idle: &'static AtomicI64, stop: &'static AtomicI64, pub root: bool, last: Instant, pub on: bool, end: Instant }
impl Par {
    /// Every process ends itself soon after the deadline, whatever it is doing.
    fn watchdog(&self) { if Instant::now() >= self.end { unsafe { _exit(74) } } unsafe { alarm(self.end.saturating_duration_since(Instant::now()).as_secs() as u32 + 1); } }
    pub fn new(workers: i64, deadline: f64) -> Par {
        unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicI64;
            if p as isize == -1 { die("mmap"); }
            (*p).store(workers - 1, Ordering::SeqCst); (*p.add(1)).store(0, Ordering::SeqCst);
            prctl(36, 1, 0, 0, 0); // orphaned workers are re-parented to the root, which waits for all of them
            let r = Par { idle: &*p, stop: &*p.add(1), root: true, last: Instant::now(), on: workers > 1, end: Instant::now() + std::time::Duration::from_secs_f64(deadline + 15.0) };
            r.watchdog();
            r
        }
    }
    pub fn want_split(&self) -> bool { self.on && Instant::now() < self.end && self.idle.load(Ordering::Relaxed) > 0 && self.last.elapsed().as_millis() > 25 }
    pub fn fork(&mut self) -> Split {
        self.last = Instant::now();
        if self.idle.fetch_sub(1, Ordering::SeqCst) <= 0 { self.idle.fetch_add(1, Ordering::SeqCst); return Split::None; }
        let p = unsafe { fork() };
        if p < 0 { die("fork failed"); }
        if p == 0 { self.root = false; self.last = Instant::now(); self.watchdog(); Split::Child } else { Split::Parent }
    }
    pub fn stop(&self) { self.stop.store(1, Ordering::SeqCst); }
    pub fn stopped(&self) -> bool { self.stop.load(Ordering::Relaxed) != 0 }
    pub fn leave(&self) -> ! { self.idle.fetch_add(1, Ordering::SeqCst); unsafe { _exit(0) } }
    /// Root only: wait for every worker; false if one of them failed.
    pub fn wait_all(&self) -> bool {
        self.idle.fetch_add(1, Ordering::SeqCst);
        let mut ok = true;
        loop {
            let mut st = 0i32;
            let r = unsafe { waitpid(-1, &mut st, 0) };
            if r < 0 { break; }
            if st != 0 { ok = false; self.stop(); }
        }
        ok
    }
}
