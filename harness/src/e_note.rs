//! Notes: times, lengths, pitches, dynamics, on one voice.
use crate::exp::*;
use crate::e_ctl::fold;
use crate::{mid, sx};

/// A monophonic melody on one channel: arbitrary gaps, lengths, pitches and velocities.
#[no_mangle]
pub extern "C" fn e_melody() {
    let n = sx::param("notes", 2) as usize;
    let tpb = sx::param("tpb", 96) as u32;
    let maxt = sx::param("maxt", 127) as u32;
    let (lo, hi) = (sx::param("plo", 24) as u8, sx::param("phi", 95) as u8);
    let u = tpb / 24;
    let mut t = mid::Track::new();
    let mut at = 0u32;
    let mut exp = Vec::new();
    let ch = sx::param("ch", 0) as u8;
    for i in 0..n {
        let on = at + mid::ticks("gap", if i == 0 { sx::param("first", 0) as u32 } else { 0 }, if i == 0 && sx::param("first", 0) > 0 { sx::param("first", 0) as u32 } else { maxt }, u);
        let off = on + mid::ticks("dur", 1, maxt, u);
        let p = sx::var8("pitch", lo, hi);
        let v = sx::var8("vel", sx::param("vlo", 8) as u8, 127);
        t.on(on, ch, p, v);
        t.off(off, ch, p);
        at = off;
        exp.push(Note::new(on, off, ch, fold(p), v));
    }
    // events after the last note that lengthen the song
    if sx::param("tail", 0) > 0 { at += mid::ticks("tail", 1, maxt, u); t.cc(at, ch, 91, 0); }
    let song = accept(&mid::file(tpb as u16, vec![t]), 0.25, false);
    let vs = voices(&song);
    sx::check(vs.len() == 1, "C02:one-voice");
    if vs.len() == 1 { voice_is(&vs[0].line, &exp, u, at); }
    sx::mark("end");
}


/// One long silence and one long note, of lengths far beyond what one step can hold.
#[no_mangle]
pub extern "C" fn e_long() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let g = sx::param("gap", 0) as u32 * u;
    let d = sx::param("dur", 0) as u32 * u;
    let wg = sx::param("wgap", 0) as u32 * u;
    let wd = sx::param("wdur", 300) as u32 * u;
    let on = if wg == 0 { g } else { mid::ticks("gap", g, g + wg - 1, u) };
    let dur = if wd == 0 { d } else { mid::ticks("dur", d.max(1), d + wd - 1, u) };
    let off = on + dur;
    let mut t = mid::Track::new();
    t.on(on, 0, 60, 100);
    t.off(off, 0, 60);
    // a short note after it shows that nothing has shifted
    t.on(off + u, 0, 64, 80);
    t.off(off + 3 * u, 0, 64);
    let song = accept(&mid::file((u * 24) as u16, vec![t]), 0.25, false);
    let vs = voices(&song);
    sx::check(vs.len() == 1, "C03:one-voice");
    sx::assume(vs.len() == 1);
    let l = &vs[0].line;
    sx::check(l.snd.len() == 2, "C03:note-count");
    sx::assume(l.snd.len() == 2);
    let (start, end) = (on / u, ceil(off, u));
    let s = &l.snd[0];
    sx::check(s.at == start, "C03:silence-before");
    sx::check((s.len >= end - start) & (s.len <= end - start + 1), "C03:length");
    sx::check(s.note == 60 + 0x68, "C03:pitch");
    let f = (off + u) / u;
    let second = if f > end { f } else { end };
    sx::check(l.snd[1].at == second, "C03:after");
    gate(s, end - start, l.snd[1].at);
    // every part of a long note but its first is a tie, and no step is longer than 0x7f
    for st in &vs[0].steps { sx::check(st.len <= 0x7f, "C03:step-length"); }
    sx::mark("end");
}

/// Every sequence of note events on two pitches: starts, releases, releases by velocity 0, in any order, with any gaps.
#[no_mangle]
pub extern "C" fn e_edges() {
    let n = sx::param("events", 3) as usize;
    let u = sx::param("tpb", 96) as u32 / 24;
    let maxt = sx::param("maxt", 127) as u32;
    let ch = sx::param("ch", 0) as u8;
    let mut t = mid::Track::new();
    let mut at = 0u32;
    // per pitch: what sounds now (start, velocity, whether it cut off an earlier note at its start)
    let mut act: [Option<(u32, u8, bool)>; 2] = [None, None];
    let mut exp = Vec::new();
    let pitch = [60u8, 64];
    let kinds = sx::param("kinds", 3);
    for i in 0..n {
        let gap = mid::ticks("gap", 0, maxt, u);
        at += gap;
        let kind = if i == 0 { 0 } else { sx::choose("kind", 0, kinds - 1) };
        let k = if i == 0 { 0 } else { sx::choose("pitch", 0, 1) as usize };
        let p = pitch[k];
        if kind == 0 {
            let v = sx::var8("vel", 8, 127);
            t.on(at, ch, p, v);
            let cut = if let Some((s, w, _)) = act[k] {
                // starting it again at once replaces it; later, it ends there
                if at > s { exp.push(Note::new(s, at, ch, p, w)); true } else { sx::mark("restart-at-once"); sx::assume(false); false }
            } else { false };
            act[k] = Some((at, v, cut));
        } else {
            if kind == 1 { t.off(at, ch, p); } else { t.on(at, ch, p, 0); }
            if let Some((s, w, cut)) = act[k] {
                if at > s { exp.push(Note::new(s, at, ch, p, w)); act[k] = None; }
                else if !cut { act[k] = None; sx::mark("empty"); }
            }
        }
    }
    // something that isn't a note ends the song
    at += 5 * u;
    t.cc(at, ch, 91, 0);
    for k in 0..2 { if let Some((s, w, _)) = act[k] { sx::mark("held"); exp.push(Note::new(s, at, ch, pitch[k], w)); } }
    let song = accept(&mid::file((u * 24) as u16, vec![t]), 0.25, false);
    voices_are(&voices(&song), &exp, u, at);
    sx::mark("end");
}

/// A long row of equal notes at any tick resolution: each starts within a step or so of its time, however many come before it.
#[no_mangle]
pub extern "C" fn e_drift() {
    let n = sx::param("notes", 60) as u32;
    let tpb = sx::param("tpb", 100) as u32;
    let period = tpb / 2;
    let d = sx::choose("dur", sx::param("lo", 1), sx::param("hi", period as u64 - tpb as u64 / 24 - 1)) as u32;
    let shift = sx::choose("shift", 0, sx::param("shift", 0)) as u32;
    let mut t = mid::Track::new();
    for k in 0..n {
        let on = shift + k * period;
        t.on(on, 0, 60, 100);
        t.off(on + d, 0, 60);
    }
    let song = accept(&mid::file(tpb as u16, vec![t]), 0.25, false);
    let vs = voices(&song);
    sx::check(vs.len() == 1 && vs[0].line.snd.len() == n as usize, "C02:note-count");
    sx::assume(vs.len() == 1 && vs[0].line.snd.len() == n as usize);
    for k in 0..n {
        // in hundredths of ticks: `at` steps of tpb/24 ticks
        let (at, on) = (vs[0].line.snd[k as usize].at * tpb, (shift + k * period) * 24);
        sx::check(at <= on + 2 * tpb && on <= at + 2 * tpb, "C02:no-drift");
    }
    sx::mark("end");
}
