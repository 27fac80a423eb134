//! Percussion, tempo, portamento.
use crate::exp::*;
use crate::{mid, sx};
use midi2spc::nspc::instruments::INSTRUMENT_MAP;

/// The octave-shifted pitch the driver plays for a MIDI note outside its range.
pub fn fold(p: u8) -> u8 {
    if p < 24 { let r = 24 - p; p + (r + 11) / 12 * 12 } else if p > 95 { let r = p - 95; p - (r + 11) / 12 * 12 } else { p }
}

/// Percussion and melodic notes one after the other (or together), so that they may share voices.
#[no_mangle]
pub extern "C" fn e_perc() {
    let u = 4u32;
    let n = sx::param("notes", 3) as usize;
    let maxt = sx::param("maxt", 7) as u32;
    let overlap = sx::param("overlap", 0) == 1;
    let mut tp = mid::Track::new();
    let mut tm = mid::Track::new();
    let mut exp = Vec::new();
    let (mut at, mut max) = (0u32, 0u32);
    let mut instr = UNSET;
    let mut snare_until = 0u32;
    // releases may be starts with velocity 0
    let zero = sx::param("zero", 0) == 1;
    let rel = |t: &mut mid::Track, at: u32, ch: u8, p: u8| if zero { t.on(at, ch, p, 0) } else { t.off(at, ch, p) };
    if sx::param("prog", 1) == 1 {
        // the percussion channel's own program means nothing
        let p = sx::var8("drumprog", 0, 127);
        tp.prog(0, 9, p);
        if sx::flag("melodicprog") { let p = sx::var8("prog", 0, 127); tm.prog(0, 0, p); instr = INSTRUMENT_MAP[p as usize]; }
    }
    for i in 0..n {
        let on = at + mid::span("gap", 0, maxt, u);
        let off = on + u * (1 + i as u32);
        let perc = sx::choose("perc", 0, 1) == 1;
        let mut e;
        if perc {
            let p = sx::var8("drum", sx::param("dlo", 0) as u8, sx::param("dhi", 127) as u8);
            let snare = (p == 38) | (p == 40);
            let q = if snare { 68 } else { fold(p) };
            if overlap { sx::assume(!snare || on >= snare_until); if snare { snare_until = off; } }
            e = Note::new(on, off, 9, q, 90);
            e.instr = if snare { 19 } else { 12 };
            tp.on(on, 9, p, 90);
            rel(&mut tp, off, 9, p);
        } else {
            let p = 50 + i as u8;
            e = Note::new(on, off, 0, p, 90);
            e.instr = instr;
            tm.on(on, 0, p, 90);
            rel(&mut tm, off, 0, p);
        }
        exp.push(e);
        at = off;
        if off > max { max = off; }
    }
    let song = accept(&mid::file((u * 24) as u16, vec![tm, tp]), 0.25, false);
    voices_are(&voices(&song), &exp, u, max);
    sx::mark("end");
}

/// Tempo changes at arbitrary times, before, inside and after notes.
#[no_mangle]
pub extern "C" fn e_tempo() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let maxt = sx::param("maxt", 31) as u32;
    let notes = sx::param("notes", 1) as usize;
    let n = sx::param("tempos", 1) as usize;
    let other = sx::param("othervoice", 1) == 1;
    let mut tt = mid::Track::new();
    let mut tn = mid::Track::new();
    let mut to = mid::Track::new();
    let mut tempos = Vec::new();
    let mut at = 0;
    for _ in 0..n {
        at += mid::span("when", 0, maxt, u);
        // one of the three bytes is arbitrary, or all of a short range
        let us = match sx::param("us", 0) {
            0 => (sx::var8("high", 0, 0xff) as u32) << 16 | 0x1234,
            1 => 0x070000 | (sx::var8("mid", 0, 0xff) as u32) << 8,
            2 => sx::var8("low", 0, 0xff) as u32,
            _ => 0x07a100 | sx::var8("low", 0, 0xff) as u32,
        };
        tt.tempo(at, us);
        tempos.push((at, us));
    }
    let mut exp = Vec::new();
    let mut at = 0;
    for k in 0..notes {
        let on = at + mid::span("gap", 0, maxt, u);
        let off = on + mid::span("dur", 1, maxt, u);
        at = off;
        let p = 50 + k as u8;
        tn.on(on, 0, p, 100);
        tn.off(off, 0, p);
        exp.push(Note::new(on, off, 0, p, 100));
    }
    let mut all = exp.clone();
    let mut max = at;
    if other {
        to.on(0, 1, 70, 100);
        to.off(30, 1, 70);
        if 30 > max { max = 30; }
        all.push(Note::new(0, 30, 1, 70, 100));
    }
    let mut ts = vec![tt, tn];
    if other { ts.push(to); }
    let f = sx::param("factor", 0);
    let factor = match f { 0 => 0.2f32, 1 => 0.25, 2 => 1.0, _ => 0.001 };
    let song = accept(&mid::file((u * 24) as u16, ts), factor, false);
    let vs = voices(&song);
    voices_are(&vs, &all, u, max);
    let l = &vs[0].line;
    let ctl: Vec<_> = l.ctl.iter().filter(|c| c.op == 0xe7).collect();
    sx::check(ctl.len() == n, "C09:every-change");
    sx::assume(ctl.len() == n);
    for v in vs.iter().skip(1) { sx::check(v.line.ctl.iter().all(|c| c.op != 0xe7), "C09:first-voice-only"); }
    for (c, t) in ctl.iter().zip(tempos.iter()) {
        // never before its time by more than a step; a note that has rounded up past it may hold it up
        let m = max / u;
        let want = if t.0 / u > m { m } else { t.0 / u };
        let mut held = want;
        for s in l.snd.iter() { let e = s.at + s.len; if s.at < want { held = if (e > want) & (e * u < t.0 + u) & (e > held) { e } else { held }; } }
        sx::check((c.at == want) | (c.at == held) | ((c.at > want) & (c.at <= l.total) & behind(l, c.at, &all, t.0)), "C09:on-time");
        // within rounding of 60e6 / usec * factor, kept in 1..=255
        if t.1 == 0 { sx::check(c.a[0] == 255, "C09:fastest"); continue; }
        let b = 60_000_000 / t.1;
        let sc = |b: u32| -> u32 { let v = match f { 0 => b / 5, 1 => b / 4, 2 => b, _ => b / 1000 }; if v < 1 { 1 } else if v > 255 { 255 } else { v } };
        sx::check((c.a[0] as u32 == sc(b)) | (c.a[0] as u32 == sc(b + 1)), "C09:value");
    }
    sx::mark("end");
}

/// The voice has fallen behind: a note that ended by then was rounded up to end at this very step.
fn behind(l: &crate::spc::Line, at: u32, notes: &[Note], t: u32) -> bool {
    let mut r = false;
    for (k, s) in l.snd.iter().enumerate() {
        let next = if k + 1 < l.snd.len() { l.snd[k + 1].at } else { l.total };
        for e in notes { r |= (e.op == s.note) & (e.off <= t) & (at >= s.at) & (at <= next); }
    }
    r
}

/// Portamento: which notes slide, to where, how long, and that nothing else does.
#[no_mangle]
pub extern "C" fn e_porta() {
    let u = 4u32;
    let maxt = sx::param("maxt", 31) as u32;
    let mut tn = mid::Track::new();
    let mut to = mid::Track::new();
    let on = sx::var8("switch", 0, 127);
    let sw = on >= 64;
    let hi = if sx::param("hi", 0) == 1 { sx::var8("high", 0, 127) } else { 0 };
    let lo = sx::var8("low", 0, 127);
    let owner = match sx::param("owner", 0) { 16 => { let c = sx::choose("channel", 1, 14) as u8; if c < 9 { c } else { c + 1 } } c => c as u8 };
    // the settings belong to channel `owner`; the notes are channel 0's
    let t = if owner == 0 { &mut tn } else { &mut to };
    if sx::param("again", 0) == 1 {
        // settings made before are replaced, in whatever order they come
        t.cc(0, owner, 65, sx::var8("switch", 0, 127));
        t.cc(0, owner, 37, sx::var8("low", 0, 127));
        t.cc(0, owner, 5, sx::var8("high", 0, 127));
    }
    t.cc(0, owner, 65, on);
    if sx::param("again", 0) == 1 && sx::flag_c("order") {
        t.cc(0, owner, 37, lo);
        t.cc(0, owner, 5, hi);
    } else {
        t.cc(0, owner, 5, hi);
        t.cc(0, owner, 37, lo);
    }
    let g0 = mid::span("gap", 0, maxt, u);
    let d0 = mid::span("dur", 1, maxt, u);
    let g1 = mid::span("gap", 0, maxt, u);
    let d1 = mid::span("dur", 1, maxt, u);
    let p0 = sx::var8("pitch", 24, 95);
    let p1 = sx::var8("pitch", 24, 95);
    tn.on(g0, 0, p0, 100);
    tn.off(g0 + d0, 0, p0);
    // a second switch between the notes, in force from the second on
    let mut sw2 = sw;
    if sx::param("second", 0) == 1 { let v = sx::var8("switch", 0, 127); tn.cc(g0 + d0, 0, 65, v); sw2 = v >= 64; }
    let on1 = g0 + d0 + g1;
    tn.on(on1, 0, p1, 100);
    tn.off(on1 + d1, 0, p1);
    // a third note, for which the switch is set once more
    let third = sx::param("third", 0) == 1;
    if third {
        let v = sx::var8("switch", 0, 127);
        sx::assume(v < 64);
        tn.cc(on1 + d1, 0, 65, v);
        tn.on(on1 + d1, 0, 64, 100);
        tn.off(on1 + d1 + 5 * u, 0, 64);
    }
    let ts = if owner == 0 { vec![tn] } else { vec![tn, to] };
    let song = accept(&mid::file((u * 24) as u16, ts), 0.25, false);
    let mut vs = voices(&song);
    sx::assume(vs.len() > 0);
    if third {
        let l = vs[0].line.snd.pop();
        sx::check(match &l { Some(s) => (s.note == 64 + 0x68) & (s.nslides == 0) & (s.at == ceil(on1 + d1, u)) & (s.len == 5), None => false }, "C10:third-plain");
    }
    let l = &vs[0].line;
    let (s0, e0) = (g0 / u, ceil(g0 + d0, u));
    let f1 = on1 / u;
    let s1 = if f1 > e0 { f1 } else { e0 };
    let e1 = { let c = ceil(on1 + d1, u); if c > s1 { c } else { s1 + 1 } };
    let slides = sw2 && owner == 0 && s1 == e0;
    let mine = l.snd.len();
    if slides {
        sx::mark("slides");
        sx::check(mine == 1, "C10:slid-note-is-tied");
        sx::assume(l.snd.len() == 1);
        let s = &l.snd[0];
        sx::check(s.nslides == 1, "C10:one-slide");
        sx::check((s.at == s0) & (s.note == p0 + 0x68) & (s.slide == p1 + 0x68), "C10:pitches");
        sx::check(s.len >= e1 - s0, "C10:length");
        let ticks = (hi as u32) << 8 | lo as u32;
        let t = { let c = ceil(ticks, u); if c < 1 { 1 } else if c > 0x7f { 0x7f } else { c } };
        sx::check(s.slide_time as u32 == t, "C10:time");
        // it ends with the first note, or starts with it if it is longer than that
        let d = e0 - s0;
        sx::check(s.slide_delay as u32 == if d > t { d - t } else { 0 }, "C10:delay");
    } else {
        sx::mark("plain");
        sx::check(mine == 2, "C10:plain-notes");
        sx::assume(l.snd.len() >= 2);
        for s in &l.snd { sx::check(s.nslides == 0, "C10:no-slide"); }
        sx::check((l.snd[0].at == s0) & (l.snd[1].at == s1) & (l.snd[0].note == p0 + 0x68) & (l.snd[1].note == p1 + 0x68), "C10:plain-pitches");
    }
    sx::mark("end");
}
