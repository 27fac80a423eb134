//! Building Standard MIDI Files whose structure is concrete and whose times and data bytes may be symbolic.
use crate::sx;

/// A symbolic number of ticks in 0..=hi, given as u * steps + rest so that the solver sees the grid the
/// converter rounds to.  Splits by the size of its variable-length form, so that each path knows it.
pub fn ticks(name: &str, lo: u32, hi: u32, u: u32) -> u32 {
    // cells of (first step, last step, first rest, last rest) that no size boundary runs through
    let cls = [0u32, 1 << 7, 1 << 14, 1 << 21, 1 << 28];
    let mut cells: Vec<(u32, u32, u32, u32)> = Vec::new();
    for i in 0..4 {
        let (mut a, b) = (lo.max(cls[i]), hi.min(cls[i + 1] - 1));
        if a > b { continue; }
        if a == 1 { a = 0; }
        let (mut qa, qb) = (a / u, b / u);
        if a % u != 0 { let e = if qa == qb { b % u } else { u - 1 }; cells.push((qa, qa, a % u, e)); qa += 1; if qa > qb { continue; } }
        if b % u == u - 1 { cells.push((qa, qb, 0, u - 1)); } else { if qa < qb { cells.push((qa, qb - 1, 0, u - 1)); } cells.push((qb, qb, 0, b % u)); }
    }
    let k = if cells.len() > 1 { sx::choose("cell", 0, cells.len() as u64 - 1) as usize } else { 0 };
    let c = cells[k];
    let q = sx::var(name, c.0 as u64, c.1 as u64) as u32;
    let r = sx::var("rest", c.2 as u64, c.3 as u64) as u32;
    let t = q * u + r;
    if lo == 1 && c.0 == 0 && c.2 == 0 { sx::assume(t > 0); }
    t
}

/// As `ticks`, or only whole steps if parameter "grid" says so.
pub fn span(name: &str, lo: u32, hi: u32, u: u32) -> u32 {
    if sx::param("grid", 0) == 1 { sx::var(name, lo.min(1) as u64, (hi / u) as u64) as u32 * u } else { ticks(name, lo, hi, u) }
}

pub struct Track { pub b: Vec<u8>, pub at: u32, pub ev: Vec<(u32, Vec<u8>)> }

impl Track {
    pub fn new() -> Track { Track { b: Vec::new(), at: 0, ev: Vec::new() } }
    /// Delta time as a minimal variable-length quantity (the only form the MIDI reader library accepts);
    /// `at` is absolute and not earlier than the last.
    fn delta(&mut self, at: u32) {
        let d = at.wrapping_sub(self.at);
        self.at = at;
        if d >= 1 << 7 {
            if d >= 1 << 14 {
                if d >= 1 << 21 { self.b.push(0x80 | ((d >> 21) & 0x7f) as u8); }
                self.b.push(0x80 | ((d >> 14) & 0x7f) as u8);
            }
            self.b.push(0x80 | ((d >> 7) & 0x7f) as u8);
        }
        self.b.push((d & 0x7f) as u8);
    }
    pub fn delta_of(&mut self, d: u32) { let a = self.at.wrapping_add(d); self.delta(a); }
    pub fn raw(&mut self, at: u32, bytes: &[u8]) { self.delta(at); self.b.extend_from_slice(bytes); self.ev.push((at, bytes.to_vec())); }
    pub fn on(&mut self, at: u32, ch: u8, note: u8, vel: u8) { self.raw(at, &[0x90 | ch, note, vel]); }
    pub fn off(&mut self, at: u32, ch: u8, note: u8) { self.raw(at, &[0x80 | ch, note, 0x40]); }
    pub fn cc(&mut self, at: u32, ch: u8, c: u8, v: u8) { self.raw(at, &[0xb0 | ch, c, v]); }
    pub fn prog(&mut self, at: u32, ch: u8, p: u8) { self.raw(at, &[0xc0 | ch, p]); }
    pub fn tempo(&mut self, at: u32, usec: u32) { self.raw(at, &[0xff, 0x51, 3, (usec >> 16) as u8, (usec >> 8) as u8, usec as u8]); }
    pub fn text(&mut self, at: u32) { self.raw(at, &[0xff, 0x01, 1, b'x']); }
}

/// The events of several tracks in one, in order of time.
pub fn merged(ts: &[Track]) -> Track {
    let mut next = vec![0; ts.len()];
    let mut r = Track::new();
    loop {
        let mut best: Option<(u32, usize)> = None;
        for (i, t) in ts.iter().enumerate() {
            if next[i] == t.ev.len() { continue; }
            let at = t.ev[next[i]].0;
            if best.map_or(true, |b| at < b.0) { best = Some((at, i)); }
        }
        match best {
            None => return r,
            Some((at, i)) => { r.raw(at, &ts[i].ev[next[i]].1); next[i] += 1; }
        }
    }
}

pub fn file(tpb: u16, tracks: Vec<Track>) -> Vec<u8> { file_fmt(1, tpb, tracks) }

pub fn file_fmt(fmt: u16, tpb: u16, tracks: Vec<Track>) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(b"MThd");
    b.extend_from_slice(&[0, 0, 0, 6, (fmt >> 8) as u8, fmt as u8, 0, tracks.len() as u8, (tpb >> 8) as u8, tpb as u8]);
    for mut t in tracks {
        t.b.extend_from_slice(&[0, 0xff, 0x2f, 0]);
        let l = t.b.len() as u32;
        b.extend_from_slice(b"MTrk");
        b.extend_from_slice(&[(l >> 24) as u8, (l >> 16) as u8, (l >> 8) as u8, l as u8]);
        b.extend_from_slice(&t.b);
    }
    b
}
