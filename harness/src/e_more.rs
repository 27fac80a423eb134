//! What must make no difference: events without a meaning, how a file's events are spread over tracks, verbose output.
use crate::exp::*;
use crate::{mid, spc, sx};

/// A melody on each of two channels, with a program and a volume change.
fn base(u: u32, maxt: u32) -> (Vec<mid::Track>, u32) {
    let mut ts = Vec::new();
    let mut max = 0;
    for c in 0..2u8 {
        let mut t = mid::Track::new();
        let fixed = c > 0 && sx::param("fixed", 0) == 1;
        let mut at = if fixed { 2 * u + 1 } else { mid::span("gap", 0, maxt, u) };
        if c == 0 { t.prog(at, c, 7); } else { t.cc(at, c, 7, 99); }
        t.on(at, c, 60 + c, 100);
        at += if fixed { 5 * u } else { mid::span("dur", 1, maxt, u) };
        t.off(at, c, 60 + c);
        if at > max { max = at; }
        ts.push(t);
    }
    (ts, max)
}

/// The same music: the steps are the same, but for the order of commands that come together.
fn same_music(a: &midi2spc::nspc::Song, b: &midi2spc::nspc::Song, n: &str, id: &str) {
    let (va, vb) = (voices(a), voices(b));
    sx::check(va.len() == vb.len(), n);
    sx::assume(va.len() == vb.len());
    for (x, y) in va.iter().zip(vb.iter()) { crate::e_song::same_steps(&ordered(&x.steps), &ordered(&y.steps), id); }
}
fn ordered(s: &[spc::Step]) -> Vec<spc::Step> {
    let mut s = s.to_vec();
    let mut i = 0;
    while i < s.len() {
        let mut j = i;
        while j < s.len() && s[j].kind == spc::Kind::Cmd { j += 1; }
        // tempo, instrument and volume commands don't depend on one another
        for a in i..j { for b in (i + 1..j).rev() { if b > a && s[b].op < s[b - 1].op { s.swap(b, b - 1); } } }
        i = j + 1;
    }
    s
}

/// Events the driver has no use for change nothing.
#[no_mangle]
pub extern "C" fn e_noise() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let (mut ts, mut max) = base(u, sx::param("maxt", 15) as u32);
    if sx::param("legato", 0) == 1 {
        // another channel's notes follow one another without a gap; a portamento time is set, and the switch maybe
        let mut t = mid::Track::new();
        t.cc(0, 2, 65, if sx::flag_c("slides") { 127 } else { 0 });
        t.cc(0, 2, 5, 0);
        t.cc(0, 2, 37, 12);
        for i in 0..3u32 { t.on(i * 6 * u, 2, 50 + i as u8, 100); t.off(i * 6 * u + 6 * u, 2, 50 + i as u8); }
        ts.push(t);
        if 18 * u > max { max = 18 * u; }
    }
    let bytes = |extra: Option<mid::Track>| {
        let mut v: Vec<mid::Track> = ts.iter().map(|t| mid::Track { b: t.b.clone(), at: t.at, ev: t.ev.clone() }).collect();
        if let Some(t) = extra { v.insert(sx::param("first", 0) as usize * 2, t); }
        mid::file((u * 24) as u16, v)
    };
    let mut t = mid::Track::new();
    let at = mid::span("when", 0, sx::param("maxt", 15) as u32 * 2, u);
    sx::assume(at <= max);
    let ch = [0u8, 1, 9, 2, 15, 10][sx::choose("channel", sx::param("chlo", 0), sx::param("channels", 4) - 1) as usize];
    let d = |n: &str| sx::var8(n, 0, 127);
    match sx::choose("kind", sx::param("klo", 0), sx::param("khi", 10)) {
        0 => t.raw(at, &[0xa0 | ch, d("note"), d("value")]),
        1 => { let c = d("controller"); sx::assume((c != 5) & (c != 7) & (c != 37) & (c != 65)); t.cc(at, ch, c, d("value")) }
        2 => t.raw(at, &[0xd0 | ch, d("value")]),
        3 => t.raw(at, &[0xe0 | ch, d("fine"), d("value")]),
        4 => t.raw(at, &[0xf0, 3, d("data"), d("data"), 0xf7]),
        5 => t.raw(at, &[0xff, 1 + ch % 8, 2, d("data"), d("data")]),
        6 => t.raw(at, &[0xff, 0x59, 2, d("data"), d("data")]),
        7 => t.raw(at, &[0xff, 0x58, 4, d("data"), d("data"), d("data"), d("data")]),
        8 => t.raw(at, &[0xff, 0x20, 1, ch]),
        // a release of a note that isn't sounding
        9 => { let n = d("note"); sx::assume((n != 60) & (n != 61) & ((n < 50) | (n > 52))); t.raw(at, &[0x80 | ch, n, d("value")]) }
        // percussion instruments depend on the notes alone
        _ => t.prog(at, 9, d("value")),
    }
    let a = accept(&bytes(None), 0.25, false);
    let b = accept(&bytes(Some(t)), 0.25, false);
    same_music(&a, &b, "C29:same-voices", "C29:same");
    sx::mark("end");
}

/// The same events in one track, in a track each, or in another order of tracks.
#[no_mangle]
pub extern "C" fn e_layout() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let (mut ts, _) = base(u, sx::param("maxt", 15) as u32);
    let mut ctl = mid::Track::new();
    let tm = mid::span("tempo", 0, sx::param("maxt", 15) as u32, u);
    ctl.tempo(tm, 500000);
    ts.push(ctl);
    let copy = |k: usize| mid::Track { b: ts[k].b.clone(), at: ts[k].at, ev: ts[k].ev.clone() };
    let one = accept(&mid::file((u * 24) as u16, vec![copy(0), copy(1), copy(2)]), 0.25, false);
    let other = match sx::choose("layout", 0, 4) {
        0 => vec![mid::merged(&[copy(0), copy(1), copy(2)])],
        1 => vec![copy(2), copy(1), copy(0)],
        2 => vec![mid::merged(&[copy(2), copy(0)]), copy(1)],
        3 => vec![copy(1), mid::Track::new(), mid::merged(&[copy(0), copy(2)])],
        _ => vec![mid::merged(&[copy(1), copy(2)]), copy(0)],
    };
    let two = accept(&mid::file((u * 24) as u16, other), 0.25, false);
    same_music(&one, &two, "C30:same-voices", "C30:same");
    sx::mark("end");
}

/// Verbose output makes no difference to the song.
#[no_mangle]
pub extern "C" fn e_verbose() {
    let u = sx::param("tpb", 96) as u32 / 24;
    let (mut ts, _) = base(u, sx::param("maxt", 7) as u32);
    // a repeating melody, so that loops are found, and a chord, so that a voice is occupied
    let mut t = mid::Track::new();
    for i in 0..6 { let p = if i % 2 == 0 { 50 } else { sx::var8("pitch", 51, 52) }; t.on(i * 4 * u, 3, p, 100); t.off(i * 4 * u + 3 * u, 3, p); }
    ts.push(t);
    let mut t = mid::Track::new();
    for i in 0..sx::param("chord", 2) as u8 { t.on(u, 4, 70 + i, 90); }
    for i in 0..sx::param("chord", 2) as u8 { t.off(3 * u, 4, 70 + i); }
    ts.push(t);
    let f = mid::file((u * 24) as u16, ts);
    let opt = sx::flag_c("optimize");
    let quiet = convert_as(&f, 0.25, opt, false);
    let loud = convert_as(&f, 0.25, opt, true);
    match (quiet, loud) {
        (Ok(a), Ok(b)) => { crate::e_song::same_song(&a, &b, "C31:same"); sx::mark("ok"); }
        (Err(_), Err(_)) => sx::mark("refused"),
        _ => sx::check(false, "C31:same-outcome"),
    }
    sx::mark("end");
}
