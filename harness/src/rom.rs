//! ROM images, and an independent reader of what was written into them.
use crate::spc::{self, Bad, Kind, Step};
use crate::val::{self, Val};
use crate::sx;
use midi2spc::nspc::Song;

/// Where a bank's song data lies: the file offset of its first chunk, chunks before the one for D000, that one's length, the next one's address and length.
#[derive(Clone)]
pub struct Bank { pub at: usize, pub pre: Vec<(u16, usize)>, pub l1: usize, pub over: u16, pub l2: usize }
pub const FIRST: [usize; 3] = [0x36, 0x46, 0x46];

impl Bank {
    pub fn new(at: usize, l1: usize, over: u16, l2: usize) -> Bank { Bank { at, pre: Vec::new(), l1, over, l2 } }
    pub fn base(&self) -> usize { self.at + self.pre.iter().map(|p| 4 + p.1).sum::<usize>() + 4 }
    pub fn overflow(&self) -> usize { self.base() + self.l1 + 4 }
    /// with the terminating empty chunk
    pub fn end(&self) -> usize { self.overflow() + self.l2 + 4 }
    pub fn resolve(&self, addr: u16) -> Option<usize> {
        let a = addr.wrapping_sub(0xd000) as usize;
        if a < self.l1 { return Some(self.base() + sx::conc(a as u64) as usize); }
        let a = addr.wrapping_sub(self.over) as usize;
        if a < self.l2 { return Some(self.overflow() + sx::conc(a as u64) as usize); }
        None
    }
    /// bytes from there to the end of their chunk
    pub fn room(&self, at: usize) -> usize { if at < self.base() + self.l1 { self.base() + self.l1 - at } else { self.overflow() + self.l2 - at } }
}

pub fn pc(snes: u32) -> usize { ((snes & 0x7fff) | (snes >> 16 & 0xff) << 15) as usize }
/// some SNES address of a file offset; bit 15 carries no information
pub fn snes(pc: usize, bit15: bool) -> u32 { (pc as u32 & 0x7fff) | (pc as u32 >> 15) << 16 | if bit15 { 0x8000 } else { 0 } }

fn put2(r: &mut [u8], at: usize, v: usize) { r[at] = v as u8; r[at + 1] = (v >> 8) as u8; }

/// Writes pointers and chunk headers into a ROM of filler bytes.
pub fn structure(r: &mut Vec<u8>, bases: &[u32; 3], banks: &[Bank], bit15: &[bool]) {
    for (k, b) in banks.iter().enumerate() {
        let p = snes(b.at, bit15[k]);
        r[pc(bases[k])] = p as u8; r[pc(bases[k] + 4)] = (p >> 8) as u8; r[pc(bases[k] + 8)] = (p >> 16) as u8;
        let mut at = b.at;
        for (aram, len) in &b.pre { put2(r, at, *len); put2(r, at + 2, *aram as usize); at += 4 + len; }
        put2(r, at, b.l1); put2(r, at + 2, 0xd000);
        at += 4 + b.l1;
        put2(r, at, b.l2); put2(r, at + 2, b.over as usize);
        at += 4 + b.l2;
        put2(r, at, 0);
        // where the sound program goes on: not the song table
        sx::assume((r[at + 2] as u16 | (r[at + 3] as u16) << 8) != 0xd000);
    }
}

pub fn filler(n: usize) -> Vec<u8> {
    if sx::param("fill", 1) == 1 { (0..n).map(|_| sx::var8("rom", 0, 255)).collect() } else { (0..n).map(|i| (i * 37 + 11) as u8).collect() }
}

/// A song: its commands, and what each of its part's voices has to play.
#[derive(Clone)]
pub struct Want { pub val: Val, pub part: Vec<usize>, pub steps: Vec<Vec<Step>>, pub sizes: Vec<usize>, pub looping: bool, pub path: Option<String> }

impl Want {
    pub fn song(&self) -> Song { match val::build::<Song>(self.val.clone()) { Some(s) => s, None => { sx::check(false, "C21:buildable"); sx::assume(false); unreachable!() } } }
}

fn step(op: u8, len: u8, gv: u8) -> Step { Step { kind: if op == 0xc9 { Kind::Rest } else { Kind::Note }, op, a: [0; 3], len, gv } }

/// `notes[i]` notes in voice i (0: no commands at all); calls of a loop of `body` notes in voice `caller`.
pub fn want(notes: &[usize], body: usize, caller: usize, looping: bool, path: Option<&str>) -> Want {
    let mut tracks = Vec::new();
    let mut steps = Vec::new();
    let lp = notes.len();
    let note = |i: usize, k: usize| -> (Val, Step) {
        let n = if k == 0 { sx::var8("note", 0x80, 0xc7) } else { 0x90 + i as u8 * 8 + k as u8 };
        let d = 6 + i as u8 + k as u8 * 2;
        (val::cmd(Some(d), Some(9), Some(6), val::one("Note", n as u64)), step(n, d, 0x69))
    };
    let inner: Vec<(Val, Step)> = (0..body).map(|k| note(lp, k)).collect();
    for (i, n) in notes.iter().enumerate() {
        let mut cs = Vec::new();
        let mut st = Vec::new();
        for k in 0..*n {
            let (c, s) = note(i, k);
            cs.push(c); st.push(s);
            if body > 0 && caller == i && k == 0 {
                cs.push(val::cmd(Some(0), Some(0), Some(0), val::tup("CallLoop", &[lp as u64, 2])));
                for _ in 0..2 { st.extend(inner.iter().map(|x| x.1)); }
            }
        }
        tracks.push(cs); steps.push(st);
    }
    if body > 0 { tracks.push(inner.into_iter().map(|x| x.0).collect()); }
    let part: Vec<usize> = (0..notes.len()).collect();
    let n = tracks.len();
    let val = val::song(&part.iter().map(|x| *x as u64).collect::<Vec<_>>(), tracks);
    let mut w = Want { val, part, steps, sizes: Vec::new(), looping, path: path.map(|s| s.to_string()) };
    let s = w.song();
    w.sizes = (0..n).map(|i| spc::song_track(&s, i).0.len()).collect();
    w
}

/// A song of `n` tracks, some of which its part plays, in any order; the part's last voice calls each of the others as a loop.
pub fn arranged(n: usize, part: &[usize], looping: bool, path: Option<&str>) -> Want {
    let note = |i: usize, k: usize| -> (Val, Step) {
        let v = if k == 0 { sx::var8("note", 0x80, 0xc7) } else { 0x90 + i as u8 * 8 + k as u8 };
        let d = 6 + i as u8 + k as u8 * 2;
        (val::cmd(Some(d), Some(9), Some(6), val::one("Note", v as u64)), step(v, d, 0x69))
    };
    let ns: Vec<Vec<(Val, Step)>> = (0..n).map(|i| (0..2).map(|k| note(i, k)).collect()).collect();
    let mut tracks = Vec::new();
    let mut steps = Vec::new();
    for i in 0..n {
        let mut cs = vec![ns[i][0].0.clone()];
        let mut st = vec![ns[i][0].1];
        if part.last() == Some(&i) {
            for t in 0..n {
                if part.contains(&t) { continue; }
                cs.push(val::cmd(Some(0), Some(0), Some(0), val::tup("CallLoop", &[t as u64, 2])));
                for _ in 0..2 { st.extend(ns[t].iter().map(|x| x.1)); }
            }
        }
        cs.push(ns[i][1].0.clone());
        st.push(ns[i][1].1);
        tracks.push(cs); steps.push(st);
    }
    let val = val::song(&part.iter().map(|x| *x as u64).collect::<Vec<_>>(), tracks);
    let mut w = Want { val, part: part.to_vec(), steps, sizes: Vec::new(), looping, path: path.map(|s| s.to_string()) };
    let s = w.song();
    w.sizes = (0..n).map(|i| spc::song_track(&s, i).0.len()).collect();
    w
}

/// An empty song: one silent voice.
pub fn silent() -> Want { Want { val: Val::None, part: vec![0], steps: vec![Vec::new()], sizes: vec![0], looping: false, path: None } }

/// Does a bank's music fit: song by song, first into the D000 chunk, then into the one after it?
pub fn fits(b: &Bank, first: usize, songs: &[Want]) -> bool {
    let (mut at, mut len, mut over) = (first, b.l1, false);
    for s in songs {
        let head = if s.looping { 24 } else { 20 };
        if at + head > len { if over { return false; } over = true; at = 0; len = b.l2; if head > len { return false; } }
        at += head;
        for t in &s.sizes {
            if at + t > len { if over { return false; } over = true; at = 0; len = b.l2; if *t > len { return false; } }
            at += t;
        }
    }
    true
}

fn word(r: &[u8], at: usize) -> u16 { r[at] as u16 | (r[at + 1] as u16) << 8 }

/// Reads bank `k` of the ROM and compares it with the songs it should hold.
pub fn bank_holds(r: &[u8], b: &Bank, k: usize, first_song: usize, songs: &[Want]) {
    let mut used: Vec<(usize, usize)> = Vec::new();
    let table = b.base() + first_song * 2;
    for (i, s) in songs.iter().enumerate() {
        let addr = word(r, table + i * 2);
        let need = |a: u16, n: usize, id: &str| -> usize {
            let at = b.resolve(a);
            sx::check(at.map_or(false, |x| b.room(x) >= n), id);
            sx::assume(at.map_or(false, |x| b.room(x) >= n));
            at.unwrap()
        };
        let head = if s.looping { 8 } else { 4 };
        let h = need(addr, head, "C15:song-address");
        used.push((h, h + head));
        let part = word(r, h);
        if s.looping { sx::check((word(r, h + 2) == 0xff) & (word(r, h + 4) == addr) & (word(r, h + 6) == 0), "C15:repeats-from-start"); }
        else { sx::check(word(r, h + 2) == 0, "C15:stops"); }
        let p = need(part, 16, "C15:part-address");
        used.push((p, p + 16));
        for v in 0..8 {
            let a = word(r, p + v * 2);
            let steps = if v < s.part.len() { Some(&s.steps[s.part[v]]) } else { None };
            match steps {
                None => sx::check(a == 0, "C15:spare-voice"),
                Some(st) if st.is_empty() => sx::check(a == 0, "C15:spare-voice"),
                Some(st) => {
                    let t = need(a, 1, "C15:voice-address");
                    let data = &r[t..t + b.room(t)];
                    let pre: &[u8] = if v == 0 { &[0xfa, 0x19, 0xe5, 0xc8, 0xed, 0xc8] } else { &[0xed, 0xc8] };
                    sx::check(data.len() > pre.len() && &data[..pre.len()] == pre, "C15:preamble");
                    sx::assume(data.len() > pre.len());
                    let mut out = spc::Out { steps: Vec::new(), bad: Bad::None, loops: 0, bytes: 0 };
                    let sub = |_: usize, a: u16| -> Option<(usize, Vec<u8>)> { b.resolve(a).map(|x| (x, r[x..x + b.room(x)].to_vec())) };
                    spc::decode(&data[pre.len()..], &mut spc::St::new(), 0, &mut out, &sub);
                    sx::check(out.bad == Bad::None, "C15:voice-readable");
                    sx::assume(out.bad == Bad::None);
                    used.push((t, t + pre.len() + out.bytes));
                    crate::e_song::same_steps(&out.steps, st, "C15:plays");
                }
            }
        }
    }
    for i in 0..used.len() { for j in 0..i { sx::check(used[i].1 <= used[j].0 || used[j].1 <= used[i].0, "C15:no-overlap"); } }
    for u in &used { sx::check(u.0 >= b.base() + FIRST[k], "C15:not-in-table"); }
    for i in (table + songs.len() * 2)..(b.base() + FIRST[k]) { sx::check(r[i] == 0, "C15:rest-of-table"); }
}

/// Nothing but the banks' song data has changed.
pub fn rest_unchanged(before: &[u8], after: &[u8], banks: &[(&Bank, usize, usize)]) {
    sx::check(before.len() == after.len(), "C16:length");
    sx::assume(before.len() == after.len());
    for i in 0..before.len() {
        // (bank, first song)
        let own = banks.iter().any(|(b, first, _)| i >= b.base() + first * 2 && i < b.base() + b.l1 || i >= b.overflow() && i < b.overflow() + b.l2);
        if !own { sx::check(before[i] == after[i], "C16:untouched"); }
    }
}

pub fn same_bytes(a: &[u8], b: &[u8], id: &str) {
    sx::check(a.len() == b.len(), id);
    sx::assume(a.len() == b.len());
    for i in 0..a.len() { sx::check(a[i] == b[i], id); }
}
