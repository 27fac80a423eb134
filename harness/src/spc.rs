//! Reference reader of N-SPC track data: decodes a byte stream and plays it.
use crate::sx;
use midi2spc::nspc::{CallLoopRef, Song};
use std::io::Cursor;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind { Note, Tie, Rest, Perc, Cmd }

/// One decoded step: a sounding/silent step with its length and gate/velocity in force, or a command with its arguments.
#[derive(Clone, Copy)]
pub struct Step { pub kind: Kind, pub op: u8, pub a: [u8; 3], pub len: u8, pub gv: u8 }

pub fn args(op: u8) -> usize {
    match op {
        0xe0 | 0xe1 | 0xe5 | 0xe7 | 0xe9 | 0xea | 0xed | 0xee | 0xf0 | 0xf4 | 0xfa => 1,
        0xe2 | 0xe6 | 0xe8 => 2,
        0xe3 | 0xeb | 0xef | 0xf1 | 0xf2 | 0xf5 | 0xf7 | 0xf8 | 0xf9 => 3,
        _ => 0,
    }
}

/// What the sound driver carries from step to step of one voice.
#[derive(Clone, Copy)]
pub struct St { pub len: u8, pub gv: u8, pub has_len: bool, pub has_gv: bool }
impl St { pub fn new() -> St { St { len: 0, gv: 0, has_len: false, has_gv: false } } }

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Bad { None, NoEnd, ZeroAfterEnd, BadOp, ShortArgs, NoLength, NoGate, Nested, Target, Count, Preamble }

pub struct Out { pub steps: Vec<Step>, pub bad: Bad, pub loops: u32, pub bytes: usize }

/// `sub(pos, addr)` names the target track of the loop call whose address bytes start at `pos`.
pub fn decode(b: &[u8], st: &mut St, depth: u32, out: &mut Out, sub: &dyn Fn(usize, u16) -> Option<(usize, Vec<u8>)>) {
    let mut i = 0;
    loop {
        if out.bad != Bad::None { return; }
        if i >= b.len() { out.bad = Bad::NoEnd; return; }
        let c = b[i];
        i += 1;
        if c == 0 { out.bytes = i; return; }
        if c < 0x80 {
            st.len = c; st.has_len = true;
            if i >= b.len() { out.bad = Bad::NoEnd; return; }
            let d = b[i];
            if d > 0 && d < 0x80 { st.gv = d; st.has_gv = true; i += 1; }
            else if d == 0 { // 00 after a length would end the track with a dangling length
                out.bad = Bad::NoEnd; return;
            }
            if i >= b.len() { out.bad = Bad::NoEnd; return; }
            if b[i] < 0x80 { out.bad = Bad::BadOp; return; }
            continue;
        }
        if c < 0xe0 {
            let kind = if c < 0xc8 { Kind::Note } else if c == 0xc8 { Kind::Tie } else if c == 0xc9 { Kind::Rest } else { Kind::Perc };
            if !st.has_len { out.bad = Bad::NoLength; return; }
            if kind == Kind::Note && !st.has_gv { out.bad = Bad::NoGate; return; }
            out.steps.push(Step { kind, op: c, a: [0; 3], len: st.len, gv: st.gv });
            continue;
        }
        if c > 0xfa { out.bad = Bad::BadOp; return; }
        let n = args(c);
        if i + n > b.len() { out.bad = Bad::ShortArgs; return; }
        let mut a = [0u8; 3];
        for k in 0..n { a[k] = b[i + k]; }
        if c == 0xef {
            if depth > 0 { out.bad = Bad::Nested; return; }
            if a[2] == 0 { out.bad = Bad::Count; return; }
            let t = match sub(i, a[0] as u16 | (a[1] as u16) << 8) { Some(t) => t, None => { out.bad = Bad::Target; return; } };
            out.loops += 1;
            let n = sx::conc(a[2] as u64);
            for _ in 0..n { decode(&t.1, st, depth + 1, out, &|_, _| None); }
        } else {
            out.steps.push(Step { kind: Kind::Cmd, op: c, a, len: 0, gv: 0 });
        }
        i += n;
    }
}

pub fn song_track(song: &Song, i: usize) -> (Vec<u8>, Vec<CallLoopRef>) {
    let mut c = Cursor::new(Vec::new());
    let mut l = Vec::new();
    match song.write_track(&mut c, i, &mut l) { Ok(()) => (), Err(_) => sx::check(false, "C01:write-error") }
    (c.into_inner(), l)
}

pub struct Voice { pub steps: Vec<Step>, pub bad: Bad, pub loops: u32, pub bytes: usize }

/// Decode one of the song's part tracks, following its loop calls.
pub fn song_voice(song: &Song, i: usize, first: bool) -> Voice {
    let (mut b, mut l) = song_track(song, i);
    // a part's first voice sets the percussion base and the global volume, every voice its own volume
    let pre: &[u8] = if b.is_empty() { &[] } else if first { &[0xfa, 0x19, 0xe5, 0xc8, 0xed, 0xc8] } else { &[0xed, 0xc8] };
    if b.len() < pre.len() || &b[..pre.len()] != pre { return Voice { steps: Vec::new(), bad: Bad::Preamble, loops: 0, bytes: b.len() }; }
    if b.is_empty() { return Voice { steps: Vec::new(), bad: Bad::None, loops: 0, bytes: 0 }; }
    b.drain(..pre.len());
    for r in l.iter_mut() { r.ref_pos -= pre.len() as u64; }
    let mut out = Out { steps: Vec::new(), bad: Bad::None, loops: 0, bytes: 0 };
    let n = song.get_num_tracks();
    let sub = |pos: usize, _addr: u16| -> Option<(usize, Vec<u8>)> {
        let r = l.iter().find(|r| r.ref_pos == pos as u64)?;
        if r.target_track >= n || song.get_part_tracks(0).contains(&r.target_track) { return None; }
        Some((r.target_track, song_track(song, r.target_track).0))
    };
    let mut st = St::new();
    decode(&b, &mut st, 0, &mut out, &sub);
    if out.bad == Bad::None && out.bytes != b.len() { out.bad = Bad::ZeroAfterEnd; }
    Voice { steps: out.steps, bad: out.bad, loops: out.loops, bytes: b.len() }
}

/// A sounding note: when it starts and how long it lasts (with its ties) in 1/24 beats.
#[derive(Clone, Copy)]
pub struct Snd { pub at: u32, pub len: u32, pub first_len: u32, pub ties: u32, pub gv: u8, pub note: u8, pub instr: u8, pub has_instr: bool, pub vol: u8, pub slide: u8, pub slide_delay: u8, pub slide_time: u8, pub nslides: u32 }
#[derive(Clone, Copy)]
pub struct Ctl { pub at: u32, pub op: u8, pub a: [u8; 3] }
pub struct Line { pub snd: Vec<Snd>, pub ctl: Vec<Ctl>, pub total: u32 }

pub fn play(steps: &[Step]) -> Line {
    let mut r = Line { snd: Vec::new(), ctl: Vec::new(), total: 0 };
    let (mut at, mut instr, mut has, mut vol) = (0u32, 0u8, false, 0xc8u8);
    let mut sounding = false;
    for s in steps {
        match s.kind {
            Kind::Note | Kind::Perc => {
                r.snd.push(Snd { at, len: s.len as u32, first_len: s.len as u32, ties: 0, gv: s.gv, note: s.op, instr, has_instr: has, vol, slide: 0, slide_delay: 0, slide_time: 0, nslides: 0 });
                sounding = true; at += s.len as u32;
            }
            Kind::Tie => { if sounding { let l = r.snd.last_mut().unwrap(); l.len += s.len as u32; l.ties += 1; } at += s.len as u32; }
            Kind::Rest => { sounding = false; at += s.len as u32; }
            Kind::Cmd => {
                match s.op {
                    0xe0 => { instr = s.a[0]; has = true; }
                    0xed => vol = s.a[0],
                    0xf9 => if let Some(l) = r.snd.last_mut() { l.nslides += 1; l.slide_delay = s.a[0]; l.slide_time = s.a[1]; l.slide = s.a[2]; },
                    _ => (),
                }
                r.ctl.push(Ctl { at, op: s.op, a: s.a });
            }
        }
    }
    r.total = at;
    r
}
