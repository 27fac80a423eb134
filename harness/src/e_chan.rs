//! Several channels: voices, instruments, volumes.
use crate::exp::*;
use crate::{mid, sx};
use midi2spc::nspc::instruments::INSTRUMENT_MAP;

/// Melodies on several channels with arbitrary times, each with its own instrument and volume changes at arbitrary times.
#[no_mangle]
pub extern "C" fn e_channels() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let maxt = sx::param("maxt", 15) as u32;
    let chs = sx::param("channels", 2) as usize;
    let notes = sx::param("notes", 1) as usize;
    // digits give each channel's number of notes, program changes, volume changes
    let dig = |v: u64, i: usize| (v / 10u64.pow(i as u32) % 10) as usize;
    let (nn, np, nv) = (sx::param("nn", 0), sx::param("np", 0), sx::param("nv", 0));
    let mut tracks = Vec::new();
    let mut exp = Vec::new();
    let mut max = 0u32;
    for c in 0..chs {
        let ch = c as u8;
        let cnt = if nn > 0 { dig(nn, c) } else { notes };
        // control changes go to a track of their own, so that they fall anywhere
        let mut ctl = mid::Track::new();
        let mut progs: Vec<(u32, u8)> = Vec::new();
        let mut vols: Vec<(u32, u8)> = Vec::new();
        let mut at = 0;
        for _ in 0..dig(np, c) {
            at += mid::span("pgap", 0, maxt, u);
            let p = sx::var8("prog", 0, 127);
            ctl.prog(at, ch, p);
            progs.push((at, INSTRUMENT_MAP[p as usize]));
        }
        for _ in 0..dig(nv, c) {
            at += mid::span("vgap", 0, maxt, u);
            let v = sx::var8("vol", 0, 127);
            ctl.cc(at, ch, 7, v);
            vols.push((at, v * 2));
        }
        if at > max { max = at; }
        let used = !ctl.b.is_empty();
        let mut t = mid::Track::new();
        let mut at = 0;
        for k in 0..cnt {
            let on = at + mid::span("gap", 0, maxt, u);
            let off = on + mid::span("dur", 1, maxt, u);
            at = off;
            // every note has a pitch of its own, so that it can be told apart
            let p = 40 + (c * 10 + k) as u8;
            t.on(on, ch, p, 100);
            t.off(off, ch, p);
            let mut e = Note::new(on, off, ch, p, 100);
            e.instr = UNSET;
            for p in &progs { e.instr = if p.0 <= on { p.1 } else { e.instr }; }
            for v in &vols { e.vol[0] = if v.0 <= on { v.1 } else { e.vol[0] }; e.vol[1] = if v.0 < off { v.1 } else { e.vol[1] }; }
            exp.push(e);
        }
        if at > max { max = at; }
        tracks.push(t);
        if used { tracks.push(ctl); }
    }
    let song = accept(&mid::file((u * 24) as u16, tracks), 0.25, false);
    voices_are(&voices(&song), &exp, u, max);
    sx::mark("end");
}

/// More than twenty events on a channel, several of them at one time: the last program and the last volume hold.
#[no_mangle]
pub extern "C" fn e_many() {
    let u = 4;
    let n = sx::param("notes", 12) as u32;
    let at = sx::choose("step", 0, n as u64) as u32 * 2 * u;
    let mut ctl = mid::Track::new();
    let (mut p, mut v) = (0, 0);
    for k in 0..sx::param("times", 3) {
        p = if k == 1 { 60 } else { sx::var8("prog", 0, 127) };
        v = if k == 1 { 33 } else { sx::var8("vol", 0, 127) };
        ctl.prog(at, 2, p);
        ctl.cc(at, 2, 7, v);
    }
    let mut t = mid::Track::new();
    let mut exp = Vec::new();
    for k in 0..n {
        let (on, off, q) = (k * 2 * u, (k * 2 + 2) * u, 40 + k as u8);
        t.on(on, 2, q, 100);
        t.off(off, 2, q);
        let mut e = Note::new(on, off, 2, q, 100);
        e.instr = UNSET;
        if at <= on { e.instr = INSTRUMENT_MAP[p as usize]; e.vol = [v * 2, v * 2]; }
        exp.push(e);
    }
    let tracks = if sx::flag_c("before") { vec![ctl, t] } else { vec![t, ctl] };
    let song = accept(&mid::file((u * 24) as u16, tracks), 0.25, false);
    voices_are(&voices(&song), &exp, u, n * 2 * u);
    sx::mark("end");
}

/// A chord on each of several channels; notes start together and end at arbitrary times.
#[no_mangle]
pub extern "C" fn e_chord() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let maxt = sx::param("maxt", 15) as u32;
    let chs = sx::param("channels", 1) as usize;
    let k = sx::param("notes", 8) as usize;
    let sym = sx::param("symbolic", 2) as usize;
    let stagger = sx::param("stagger", 0) as u32;
    let mut tracks = Vec::new();
    let mut exp = Vec::new();
    let mut max = 0;
    // first a note on the channel before and one on the (last) channel itself, at the same time
    let t0 = if sx::param("lead", 0) == 1 {
        let ch = sx::param("firstch", 0) as u8;
        for (ch, p) in [(ch - 1, 80), (ch, 81)].iter().cloned() {
            let off = if p == 80 { mid::span("lead", 1, maxt, u) } else { 12 * u };
            let mut t = mid::Track::new();
            t.on(0, ch, p, 100);
            t.off(off, ch, p);
            exp.push(Note::new(0, off, ch, p, 100));
            tracks.push(t);
        }
        16 * u
    } else { 0 };
    for c in 0..chs {
        let ch = (c + sx::param("firstch", 0) as usize) as u8;
        for i in 0..k {
            let mut t = mid::Track::new();
            let p = 30 + (c * 9 + i) as u8;
            let on = t0 + i as u32 * stagger;
            let off = on + if i < sym { mid::span("dur", 1, maxt, u) } else { 10 * u };
            t.on(on, ch, p, 100);
            t.off(off, ch, p);
            if off > max { max = off; }
            exp.push(Note::new(on, off, ch, p, 100));
            tracks.push(t);
        }
    }
    if sx::param("tail", 0) == 1 {
        max += mid::span("rest", 0, maxt, u);
        let mut t = mid::Track::new();
        t.cc(max, sx::param("firstch", 0) as u8, 91, 0);
        tracks.push(t);
    }
    if sx::param("refused", 0) == 1 {
        match convert(&mid::file((u * 24) as u16, tracks), 0.25, false) { Ok(_) => sx::check(false, "C05:too-many-refused"), Err(e) => { let m = format!("{}", e); sx::check(m.contains("fit"), "C05:says-why"); } }
        sx::mark("end");
        return;
    }
    let song = accept(&mid::file((u * 24) as u16, tracks), 0.25, false);
    voices_are(&voices(&song), &exp, u, max);
    sx::mark("end");
}

/// All eight voices in use: another note fits if voices have been released by its start, on whatever channel, and is refused otherwise.
/// Every channel keeps a voice for itself, so two of another channel's notes have to be released for one to be free for sure.
#[no_mangle]
pub extern "C" fn e_handover() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let maxt = sx::param("maxt", 15) as u32;
    let third = sx::param("third", 0) == 1;
    let (a, b, c) = (sx::param("full", 1) as u8, sx::param("other", 0) as u8, sx::param("ch3", 4) as u8);
    let mut exp = Vec::new();
    let chord = if third { 6 } else { 7 };
    // a chord, one of whose notes is released early; and a note of another channel
    let t = mid::span("dur", 1, maxt, u);
    let e = mid::span("own", 1, maxt, u);
    let which = sx::choose("which", 0, chord as u64 - 1) as u8;
    let gone = |i: u8| i == which || i == (which + 1) % chord;
    let l = 20 * u;
    let mut t1 = mid::Track::new();
    for i in 0..chord { t1.on(0, a, 30 + i, 100); exp.push(Note::new(0, if gone(i) { t } else { l }, a, 30 + i, 100)); }
    t1.off(t, a, 30 + which);
    t1.off(t, a, 30 + (which + 1) % chord);
    for i in 0..chord { if !gone(i) { t1.off(l, a, 30 + i); } }
    let mut t2 = mid::Track::new();
    t2.on(0, b, 60, 100);
    t2.off(e, b, 60);
    exp.push(Note::new(0, e, b, 60, 100));
    // the note that needs a voice
    let s = mid::span("start", 1, maxt, u);
    let mut t3 = mid::Track::new();
    t3.on(s, b, 64, 100);
    t3.off(s + l, b, 64);
    exp.push(Note::new(s, s + l, b, 64, 100));
    let mut tracks = if sx::param("before", 0) == 1 { vec![t3, t2, t1] } else { vec![t1, t2, t3] };
    if third {
        let mut t4 = mid::Track::new();
        t4.on(0, c, 70, 100);
        t4.off(l, c, 70);
        exp.push(Note::new(0, l, c, 70, 100));
        tracks.push(t4);
    }
    let fits = (t <= s) | (e <= s) | (l <= s);
    match convert(&mid::file((u * 24) as u16, tracks), 0.25, false) {
        Ok(song) => {
            sx::check(fits, "C05:too-many-refused");
            sx::assume(fits);
            voices_are(&voices(&song), &exp, u, s + l);
            sx::mark("fits");
        }
        Err(_) => { sx::check(!fits, "C05:fitting-accepted"); sx::mark("refused"); }
    }
    sx::mark("end");
}

/// Eight channels that each hold a note, two of which end; one or two further channels then start a note.
#[no_mangle]
pub extern "C" fn e_relay() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let maxt = sx::param("maxt", 15) as u32;
    let late = sx::param("late", 1) as usize;
    let which = if late == 1 { sx::choose("which", 0, sx::param("anyof", 7)) } else { sx::param("first", 0) as u64 } as u32;
    let l = 20 * u;
    // releases may be starts with velocity 0
    let zero = sx::flag_c("zero");
    let rel = |t: &mut mid::Track, at: u32, ch: u8, p: u8| if zero { t.on(at, ch, p, 0) } else { t.off(at, ch, p) };
    let ends = [mid::span("end1", 1, maxt, u), if late > 1 { mid::span("end2", 1, maxt, u) } else { l }];
    let starts = [mid::span("start1", 1, maxt, u), if late > 1 { mid::span("start2", 1, maxt, u) } else { 0 }];
    let mut tracks = Vec::new();
    let mut exp = Vec::new();
    // before all that, channels that play in turn
    let turns = sx::param("turns", 0) as u32;
    let t0 = turns * 8 * u;
    let real = |c: u32| if c < 9 { c as u8 } else { c as u8 + 1 };
    for c in 0..turns {
        let mut t = mid::Track::new();
        for k in 0..2 {
            let (on, p) = ((c * 8 + k * 4) * u, 24 + (c % 3 * 4 + k) as u8);
            t.on(on, real(c), p, 100);
            rel(&mut t, on + u, real(c), p);
            exp.push(Note::new(on, on + u, real(c), p, 100));
        }
        tracks.push(t);
    }
    let real = |c: u32| if turns + c < 9 { (turns + c) as u8 } else { (turns + c) as u8 + 1 };
    let other = (which + sx::param("apart", 1) as u32) % 8;
    // the late channels come before or after the others
    let base = if sx::param("before", 0) == 1 { late as u32 } else { 0 };
    for c in 0..8 {
        let ch = real(base + c);
        let end = if c == which { ends[0] } else if c == other { ends[1] } else { l };
        let mut t = mid::Track::new();
        t.on(t0, ch, 40 + c as u8, 100);
        rel(&mut t, t0 + end, ch, 40 + c as u8);
        exp.push(Note::new(t0, t0 + end, ch, 40 + c as u8, 100));
        tracks.push(t);
    }
    for i in 0..late {
        let ch = real(if base > 0 { i as u32 } else { 8 + i as u32 });
        let mut t = mid::Track::new();
        t.on(t0 + starts[i], ch, 70 + i as u8, 100);
        t.off(t0 + starts[i] + l, ch, 70 + i as u8);
        exp.push(Note::new(t0 + starts[i], t0 + starts[i] + l, ch, 70 + i as u8, 100));
        tracks.push(t);
    }
    let (fits, max) = if late == 1 {
        ((ends[0] <= starts[0]) | (l <= starts[0]), starts[0] + l)
    } else {
        let (s0, s1) = if starts[0] < starts[1] { (starts[0], starts[1]) } else { (starts[1], starts[0]) };
        let (t0, t1) = if ends[0] < ends[1] { (ends[0], ends[1]) } else { (ends[1], ends[0]) };
        ((t0 <= s0) & (t1 <= s1), s1 + l)
    };
    match convert(&mid::file((u * 24) as u16, tracks), 0.25, false) {
        Ok(song) => {
            sx::check(fits, "C05:too-many-refused");
            sx::assume(fits);
            voices_are(&voices(&song), &exp, u, t0 + max);
            sx::mark("fits");
        }
        Err(_) => { sx::check(!fits, "C05:fitting-accepted"); sx::mark("refused"); }
    }
    sx::mark("end");
}

/// More channels than voices, one after the other; notes are started again, released twice or released without having been started.
#[no_mangle]
pub extern "C" fn e_turns() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let chs = sx::param("channels", 10) as usize;
    let some = sx::choose("which", 0, if sx::param("all", 0) == 1 { 0 } else { chs as u64 - 1 }) as usize;
    let kind = sx::choose("kind", 0, 2);
    let x = if sx::param("all", 0) == 1 { sx::choose("when", 1, 9 * u as u64) as u32 } else { mid::span("when", 1, sx::param("maxt", 31) as u32, u) };
    let mut tracks = Vec::new();
    let mut exp = Vec::new();
    let mut max = 0;
    for c in 0..chs {
        let ch = if c < 9 { c } else { c + 1 } as u8;
        let p = 40 + c as u8;
        let on = c as u32 * 12 * u;
        let off = on + 8 * u;
        let mut t = mid::Track::new();
        // all of them, or one only, are odd
        let odd = sx::param("all", 0) == 1 || c == some;
        t.on(on, ch, p, 100);
        if odd && kind == 0 {
            sx::assume(x < 8 * u);
            t.on(on + x, ch, p, 100);
            exp.push(Note::new(on, on + x, ch, p, 100));
            exp.push(Note::new(on + x, off, ch, p, 100));
        } else { exp.push(Note::new(on, off, ch, p, 100)); }
        if odd && kind == 1 { sx::assume(x < 8 * u); t.off(on + x, ch, p + 12); }
        t.off(off, ch, p);
        if odd && kind == 2 { t.off(off + x, ch, p); if off + x > max { max = off + x; } }
        if off > max { max = off; }
        tracks.push(t);
    }
    let song = accept(&mid::file((u * 24) as u16, tracks), 0.25, false);
    voices_are(&voices(&song), &exp, u, max);
    sx::mark("end");
}
