//! Songs as command lists: encoding, loops, JSON.
use crate::exp::*;
use crate::spc::{self, Kind, Step};
use crate::val::{self, Val};
use crate::{mid, sx};
use midi2spc::nspc::Song;
use std::path::Path;

/// What the sound driver has to be told, command by command.
struct Want { steps: Vec<Step>, len: u8, gv: u8 }

/// (name, opcode, number of arguments) of every command that isn't a note, a rest, a tie or a loop.
pub const CMDS: [(&str, u8, usize); 26] = [
    ("SetInstrument", 0xe0, 1), ("Pan", 0xe1, 1), ("PanFade", 0xe2, 2), ("Vibrato", 0xe3, 3), ("VibratoOff", 0xe4, 0), ("MasterVolume", 0xe5, 1),
    ("MasterVolumeFade", 0xe6, 2), ("Tempo", 0xe7, 1), ("TempoFade", 0xe8, 2), ("GlobalTranspose", 0xe9, 1), ("ChannelTranspose", 0xea, 1), ("Tremolo", 0xeb, 3),
    ("TremoloOff", 0xec, 0), ("ChannelVolume", 0xed, 1), ("ChannelVolumeFade", 0xee, 1), ("VibratoFade", 0xf0, 1), ("PitchEnvelopeTo", 0xf1, 3), ("PitchEnvelopeFrom", 0xf2, 3),
    ("PitchEnvelopeOff", 0xf3, 0), ("Tuning", 0xf4, 1), ("EchoVolume", 0xf5, 3), ("EchoOff", 0xf6, 0), ("EchoParams", 0xf7, 3), ("EchoVolumeFade", 0xf8, 3),
    ("PitchSlide", 0xf9, 3), ("PercussionPatchBase", 0xfa, 1),
];

impl Want {
    /// A command with arbitrary arguments, and what it means.  kind 0: note, 1: rest, 2: tie, 3: loop of track 1, 4..: CMDS
    fn push(&mut self, kind: usize, free: bool, body: &[(u8, u8, u8, u8)]) -> Val {
        let timed = kind < 3;
        let full = kind == 0;
        let d = if timed && (!free || sx::flag_c("length")) { Some(sx::var8("len", 1, 0x7f)) } else { None };
        let v = if full || (kind != 3 && free && sx::flag_c("velocity")) { Some(sx::var8("vel", 1, 15)) } else { None };
        let s = if full || (kind != 3 && free && sx::flag_c("gate")) { Some(sx::var8("gate", 1, 7)) } else { None };
        if let Some(d) = d { self.len = d; }
        if let Some(v) = v { self.gv = self.gv & 0x70 | v; }
        if let Some(s) = s { self.gv = self.gv & 0x0f | s << 4; }
        match kind {
            0 => { let n = sx::var8("note", 0x80, 0xc7); self.steps.push(Step { kind: Kind::Note, op: n, a: [0; 3], len: self.len, gv: self.gv }); val::cmd(d, v, s, val::one("Note", n as u64)) }
            1 => { self.steps.push(Step { kind: Kind::Rest, op: 0xc9, a: [0; 3], len: self.len, gv: self.gv }); val::cmd(d, v, s, Val::Unit("Rest")) }
            2 => { self.steps.push(Step { kind: Kind::Tie, op: 0xc8, a: [0; 3], len: self.len, gv: self.gv }); val::cmd(d, v, s, Val::Unit("Tie")) }
            3 => {
                let c = sx::choose("times", 1, 3);
                for _ in 0..c { for b in body { self.len = b.2; self.gv = b.3; self.steps.push(Step { kind: if b.0 == 0 { Kind::Note } else { Kind::Rest }, op: b.1, a: [0; 3], len: b.2, gv: b.3 }); } }
                val::cmd(Some(0), Some(0), Some(0), val::tup("CallLoop", &[1, c]))
            }
            k => {
                let c = CMDS[k - 4];
                let mut a = [0u8; 3];
                for i in 0..c.2 { a[i] = sx::var8("arg", 0, 255); }
                self.steps.push(Step { kind: Kind::Cmd, op: c.1, a, len: 0, gv: 0 });
                let w: Vec<u64> = a[..c.2].iter().map(|x| *x as u64).collect();
                val::cmd(d, v, s, match c.2 { 0 => Val::Unit(c.0), 1 => val::one(c.0, w[0]), _ => val::tup(c.0, &w) })
            }
        }
    }
}

/// A song of arbitrary commands: first a note, then `n` commands, the last of every kind there is.
fn any_song(n: usize) -> (Song, Want) {
    let mut w = Want { steps: Vec::new(), len: 0, gv: 0x7d };
    let few = sx::param("few", 5);
    // the loop's body: a note and a rest
    let body = [(0u8, sx::var8("note", 0x80, 0xc7), sx::var8("len", 1, 0x7f), sx::var8("gate", 1, 7) << 4 | sx::var8("vel", 1, 15))];
    let loops = vec![val::cmd(Some(body[0].2), Some(body[0].3 & 15), Some(body[0].3 >> 4), val::one("Note", body[0].1 as u64))];
    let mut cs = vec![w.push(0, false, &body)];
    let mut after = false;
    for i in 0..n {
        let k = if i + 1 < n { sx::choose("kind", 0, few - 1) as usize } else { sx::choose("kind", 0, 29) as usize };
        cs.push(w.push(k, sx::param("free", 1) == 1 && !after, &body));
        after = k == 3;
    }
    // a note at the end shows the state everything has left
    cs.push(w.push(0, false, &body));
    let song = val::build::<Song>(val::song(&[0], vec![cs, loops]));
    sx::check(song.is_some(), "C21:buildable");
    sx::assume(song.is_some());
    (song.unwrap(), w)
}

pub fn same_steps(a: &[Step], b: &[Step], id: &str) {
    sx::check(a.len() == b.len(), id);
    sx::assume(a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) {
        sx::check(x.kind == y.kind, id);
        sx::assume(x.kind == y.kind);
        let timed = x.kind != Kind::Cmd;
        sx::check((x.op == y.op) & (x.a[0] == y.a[0]) & (x.a[1] == y.a[1]) & (x.a[2] == y.a[2]) & (!timed | (x.len == y.len)) & ((x.kind != Kind::Note) | (x.gv == y.gv)), id);
    }
}

/// Any list of commands is encoded so that the driver reads back just these commands.
#[no_mangle]
pub extern "C" fn e_stream() {
    let (song, w) = any_song(sx::param("commands", 2) as usize);
    let v = spc::song_voice(&song, 0, true);
    bad(v.bad);
    same_steps(&v.steps, &w.steps, "C01:reads-back");
    sx::mark("end");
}

/// Writing a song to JSON and reading it back gives a song that is encoded the same.
#[no_mangle]
pub extern "C" fn e_json() {
    // one command of every kind, its arguments, length, velocity and gate arbitrary, among fixed ones
    let k = sx::choose("kind", sx::param("klo", 0), sx::param("khi", 29)) as usize;
    let note = |n: u64| val::cmd(Some(7), Some(5), Some(7), val::one("Note", n));
    let (d, v, s) = if sx::flag_c("parameters") { (Some(sx::var8("len", 1, 0x7f)), Some(sx::var8("vel", 1, 15)), Some(sx::var8("gate", 1, 7))) } else { (None, None, None) };
    let c = match k {
        0 => val::cmd(Some(9), v, s, val::one("Note", sx::var("note", 0x80, 0xc7))),
        1 => val::cmd(d, v, s, Val::Unit("Rest")),
        2 => val::cmd(d, v, s, Val::Unit("Tie")),
        3 => val::cmd(Some(0), Some(0), Some(0), val::tup("CallLoop", &[1, sx::var("times", 1, 255)])),
        k => {
            let c = CMDS[(k - 4).min(25)];
            let w: Vec<u64> = (0..c.2).map(|_| sx::var("arg", 0, 255)).collect();
            val::cmd(d, v, s, match c.2 { 0 => Val::Unit(c.0), 1 => val::one(c.0, w[0]), _ => val::tup(c.0, &w) })
        }
    };
    let song = match val::build::<Song>(val::song(&[0], vec![vec![note(0x90), c, note(0x91)], vec![note(0x92)]])) { Some(s) => s, None => { sx::check(false, "C21:buildable"); return; } };
    sx::dir("w");
    let r = song.write_to_json(Path::new("w/s.json"));
    sx::check(r.is_ok(), "C21:writes");
    let back = match Song::from_json(Path::new("w/s.json")) { Ok(s) => s, Err(_) => { sx::check(false, "C21:reads"); return; } };
    same_song(&song, &back, "C21:same");
    sx::mark("end");
}

pub fn same_song(a: &Song, b: &Song, id: &str) {
    sx::check(a.get_num_tracks() == b.get_num_tracks(), id);
    sx::check(a.get_part_tracks(0) == b.get_part_tracks(0), id);
    sx::assume(a.get_num_tracks() == b.get_num_tracks());
    for i in 0..a.get_num_tracks() {
        let (x, l) = spc::song_track(a, i);
        let (y, m) = spc::song_track(b, i);
        sx::check(x.len() == y.len() && l.len() == m.len(), id);
        sx::assume(x.len() == y.len() && l.len() == m.len());
        for k in 0..x.len() { sx::check(x[k] == y[k], id); }
        for k in 0..l.len() { sx::check(l[k].target_track == m[k].target_track && l[k].ref_pos == m[k].ref_pos, id); }
    }
}

/// Loops: a song made of repeated fragments plays the same with and without them.
#[no_mangle]
pub extern "C" fn e_loops() {
    let n = sx::param("notes", 8) as usize;
    let chs = sx::param("channels", 1) as usize;
    let pitches = sx::param("pitches", 2);
    let style = sx::param("style", 0);
    let mut ts = Vec::new();
    let u = 4u32;
    // the fragments' pitches and lengths are arbitrary, which fragment comes when is chosen
    let base: Vec<u8> = (0..pitches).map(|k| sx::var8("pitch", 24 + 10 * k as u8, 33 + 10 * k as u8)).collect();
    let len = if sx::param("symlen", 1) == 1 { sx::var("len", 1, 40) as u32 * u } else { 8 * u };
    // a period of 0: every fragment is chosen; else they repeat, but for one
    let period = sx::param("period", 0) as usize;
    let odd = if period > 0 && pitches > 1 { sx::choose("odd", 0, n as u64) as usize } else { n };
    for c in 0..chs {
        let mut t = mid::Track::new();
        let mut at = 0;
        let ch = c as u8;
        let mut chosen: Vec<u64> = Vec::new();
        if style == 3 { t.cc(0, ch, 65, 127); t.cc(0, ch, 5, 0); t.cc(0, ch, 37, 9); }
        for i in 0..n {
            let which = if pitches == 1 { 0 } else if period == 0 { sx::choose("which", 0, pitches - 1) } else {
                if i < period { chosen.push(sx::choose("which", 0, pitches - 1)); }
                if i == odd && c == 0 { (chosen[i % period] + 1) % pitches } else { chosen[i % period] }
            };
            let p = base[which as usize] + c as u8 * 40;
            match style {
                // every note its own rest, volume changes, programs, long notes with ties
                1 => at += 3 * u,
                2 => if which == 1 { t.cc(at, ch, 7, 80); at += 3 * u; },
                4 => if which == 1 { t.prog(at, ch, 40); },
                7 => { t.cc(at, ch, 37, 9); t.cc(at, ch, 65, if which == 1 { 127 } else { 0 }); }
                _ => (),
            }
            let d = if style == 5 && which == 1 { 300 * u } else { len };
            t.on(at, ch, p, 100);
            t.off(at + d, ch, p);
            at += d;
            if style == 6 && i % 4 == 3 { at += 200 * u; }
        }
        ts.push(t.b.clone());
    }
    let tracks = |ts: &Vec<Vec<u8>>| ts.iter().map(|b| mid::Track { b: b.clone(), at: 0, ev: Vec::new() }).collect::<Vec<_>>();
    let plain = accept(&mid::file(96, tracks(&ts)), 0.25, false);
    let short = accept(&mid::file(96, tracks(&ts)), 0.25, true);
    let (a, b) = (voices(&plain), voices(&short));
    sx::check(a.len() == b.len(), "C12:voices");
    sx::assume(a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) {
        if y.loops > 0 { sx::mark("loops"); }
        if y.loops > 1 { sx::mark("more-loops"); }
        same_steps(&x.steps, &y.steps, "C12:plays-the-same");
        sx::check(x.loops == 0, "C12:none-if-skipped");
    }
    sx::mark("end");
}
