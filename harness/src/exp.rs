//! What a MIDI file asks for, and the comparison of a converted song with it.
use crate::{spc, sx};
use midi2spc::midi::MidiHandler;
use midi2spc::nspc::Song;
use std::path::Path;

pub fn convert(bytes: &[u8], factor: f32, opt: bool) -> Result<Song, failure::Error> { convert_as(bytes, factor, opt, sx::param("verbose", 0) == 1) }

pub fn convert_as(bytes: &[u8], factor: f32, opt: bool, verbose: bool) -> Result<Song, failure::Error> {
    sx::dir("w");
    sx::put("w/a.mid", bytes);
    let mut m = MidiHandler::new();
    m.read(Path::new("w/a.mid"), verbose)?;
    Song::from_midi(&m, factor, opt, verbose)
}

/// Converts a file that has to be accepted.
pub fn accept(bytes: &[u8], factor: f32, opt: bool) -> Song {
    match convert(bytes, factor, opt) {
        Ok(s) => s,
        Err(e) => { sx::observe("err", format!("{}", e).as_bytes()); sx::check(false, "C02:accepted"); sx::assume(false); unreachable!() }
    }
}

pub struct V { pub line: spc::Line, pub steps: Vec<spc::Step>, pub loops: u32, pub bytes: usize }

/// Every voice of the song, decoded and played.
pub fn voices(song: &Song) -> Vec<V> {
    let mut r = Vec::new();
    let ts = song.get_part_tracks(0);
    sx::check(ts.len() <= 8, "C01:eight-voices");
    for (k, &i) in ts.iter().enumerate() {
        let v = spc::song_voice(song, i, k == 0);
        bad(v.bad);
        r.push(V { line: spc::play(&v.steps), steps: v.steps, loops: v.loops, bytes: v.bytes });
    }
    r
}

pub fn bad(b: spc::Bad) {
    use spc::Bad::*;
    let id = match b { None => return, Nested => "C13:nested", Target => "C13:target", Count => "C13:count", Preamble => "C01:preamble", _ => "C01:well-formed" };
    sx::check(false, id);
    // nothing more can be said about a stream that can't be read
    sx::check(false, "C02:readable");
    sx::check(false, "C12:readable");
    sx::assume(false);
}

#[derive(Clone, Copy)]
pub struct Note { pub on: u32, pub off: u32, pub op: u8, pub vel: u8, pub ch: u8, pub instr: u8, pub vol: [u8; 2] }
impl Note { pub fn new(on: u32, off: u32, ch: u8, pitch: u8, vel: u8) -> Note { Note { on, off, op: pitch.wrapping_add(0x68), vel, ch, instr: ANY, vol: [0xc8, 0xc8] } } }
/// any instrument will do
pub const ANY: u8 = 0xff;
/// the driver's default: none set at all, or the one program 0 maps to
pub const UNSET: u8 = 0xfe;

pub fn ceil(t: u32, u: u32) -> u32 { (t + u - 1) / u }

/// Gate and length of a note of `d` steps: shown as it is, or together with the silence after it.
pub fn gate(s: &spc::Snd, d: u32, next: u32) {
    let g = (s.gv >> 4) as u32;
    if s.len == d {
        sx::check(g == 7, "C04:full-gate");
    } else {
        let t = s.len;
        sx::check((s.ties == 0) & (t <= 0x7f), "C04:one-step");
        sx::check((t > d) & (s.at + t <= next), "C04:only-silence");
        // t divides 8d, with 1 to 7 as the result (the note is shorter than t), or 8d/t is above 7.5
        let exact = |q: u32| 8 * d == q * t;
        let divides = exact(1) | exact(2) | exact(3) | exact(4) | exact(5) | exact(6) | exact(7);
        let most = d > 16 * (t - d);
        sx::check(divides | most, "C04:gate-exact");
        sx::check((g >= 1) & (g <= 7) & (((g == 7) & most) | (8 * d == g * t)), "C04:gate-value");
    }
}

fn gated(s: &spc::Snd, d: u32) -> bool {
    if s.len == d { return true; }
    let t = s.len;
    (t > 0) && (s.ties == 0) & (t <= 0x7f) & (t > d) & ((8 * d == t) | (8 * d == 2 * t) | (8 * d == 3 * t) | (8 * d == 4 * t) | (8 * d == 5 * t) | (8 * d == 6 * t) | (8 * d == 7 * t) | (d + 16 * d > 16 * t))
}

pub fn dynamics(s: &spc::Snd, vel: u8) {
    let v = vel / 8;
    sx::check(s.gv & 15 == if v < 1 { 1 } else { v }, "C11:velocity");
    sx::check(s.gv < 0x80 && s.gv & 0x70 != 0, "C11:gate-range");
}

pub fn instr_ok(s: &spc::Snd, want: u8) -> bool {
    (want == ANY) | ((want == UNSET) & (!s.has_instr | (s.instr == midi2spc::nspc::instruments::INSTRUMENT_MAP[0]))) | (s.has_instr & (s.instr == want))
}

/// One voice must play exactly these notes, in this order; u ticks make a step, max is the time of the last event.
pub fn voice_is(l: &spc::Line, notes: &[Note], u: u32, max: u32) {
    sx::check(l.snd.len() == notes.len(), "C02:note-count");
    sx::assume(l.snd.len() == notes.len());
    let mut pos = 0u32;
    for (i, e) in notes.iter().enumerate() {
        let s = &l.snd[i];
        let f = e.on / u;
        let start = if f > pos { f } else { pos };
        let c = ceil(e.off, u);
        let end = if c > start { c } else { start + 1 };
        sx::check(s.at == start, "C02:onset");
        sx::check(s.note == e.op, "C02:pitch");
        sx::check(s.len >= end - start, "C02:length");
        let next = if i + 1 < notes.len() { l.snd[i + 1].at } else { l.total };
        gate(s, end - start, next);
        dynamics(s, e.vel);
        sx::check(instr_ok(s, e.instr), "C06:instrument");
        sx::check((s.vol == e.vol[0]) | (s.vol == e.vol[1]), "C07:volume");
        pos = end;
    }
    ends(l, pos, u, max);
}

/// A voice ends with its last note or with the last event, whichever is later.
pub fn ends(l: &spc::Line, pos: u32, u: u32, max: u32) {
    let m = max / u;
    sx::check(l.total == if m > pos { m } else { pos }, "C14:ends-with-song");
}

#[inline(never)]
fn pick(s: &spc::Snd, next: u32, pos: u32, notes: &[Note], found: &[bool], u: u32) -> usize {
    for strict in &[true, false] {
        for (k, e) in notes.iter().enumerate() {
            if found[k] { continue; }
            let f = e.on / u;
            let start = if f > pos { f } else { pos };
            let c = ceil(e.off, u);
            let end = if c > start { c } else { start + 1 };
            if (s.note == e.op) & (s.at == start) & (s.len >= end - start) & (s.at + s.len <= next) & (s.gv & 15 == (e.vel / 8).max(1)) {
                // where more than one note would do, one whose sounded length fits as well comes first
                if !*strict || !(0..notes.len()).any(|j| j != k && !found[j] && notes[j].op == e.op) || gated(s, end - start) { return k; }
            }
        }
    }
    notes.len()
}

/// The voices together must play exactly these notes, each on one voice; no two may collide.
pub fn voices_are(vs: &[V], notes: &[Note], u: u32, max: u32) {
    let total: usize = vs.iter().map(|v| v.line.snd.len()).sum();
    sx::check(total == notes.len(), "C05:note-count");
    let mut found = vec![false; notes.len()];
    for v in vs {
        let mut pos = 0u32;
        for (i, s) in v.line.snd.iter().enumerate() {
            let next = if i + 1 < v.line.snd.len() { v.line.snd[i + 1].at } else { v.line.total };
            // among the notes not yet found, one has to be this one
            let which = pick(s, next, pos, notes, &found, u);
            sx::check(which < notes.len(), "C05:each-note-once");
            sx::assume(which < notes.len());
            found[which] = true;
            let e = &notes[which];
            let f = e.on / u;
            let start = if f > pos { f } else { pos };
            let c = ceil(e.off, u);
            let end = if c > start { c } else { start + 1 };
            gate(s, end - start, next);
            sx::check(instr_ok(s, e.instr), "C06:instrument");
            sx::check((s.vol == e.vol[0]) | (s.vol == e.vol[1]), "C07:volume");
            pos = end;
        }
        ends(&v.line, pos, u, max);
    }
}
