//! The commands as a whole: manifests, ROM building, malformed input, determinism.
use crate::exp::*;
use crate::rom::{self, *};
use crate::spc::{self, Step};
use crate::{mid, sx};
use midi2spc::manifest::Manifest;
use midi2spc::midi::MidiHandler;
use midi2spc::nspc::Song;
use std::path::{Path, PathBuf};

pub const NAMES: [&[&str]; 3] = [
    &["Title", "World Map", "Beginning", "Rabbit", "Forest", "Intro", "Town", "Warp", "Dark World", "Master Sword", "File Select", "Soldier", "Mountain", "Shop", "Fanfare"],
    &["Castle", "Palace", "Cave", "Clear", "Church", "Boss", "Dungeon", "Psychic", "Secret Way", "Rescue", "Crystal", "Fountain", "Pyramid", "Kill Agahnim", "Ganon Room", "Last Boss"],
    &["Triforce", "Ending", "Staff"],
];
const BANKS: [&str; 3] = ["overworld", "indoor", "ending"];

/// A manifest; `entry(bank, song)` is the text after the song's name, None leaves it out.
fn manifest_text(entry: &dyn Fn(usize, usize) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut t = b"{".to_vec();
    for b in 0..3 {
        if b > 0 { t.push(b','); }
        t.extend_from_slice(format!("\"{}\":{{", BANKS[b]).as_bytes());
        let mut first = true;
        // the order in the file means nothing
        for s in (0..NAMES[b].len()).rev() {
            if let Some(e) = entry(b, s) {
                if !first { t.push(b','); }
                first = false;
                t.extend_from_slice(format!("\"{}\":", NAMES[b][s]).as_bytes());
                t.extend_from_slice(&e);
            }
        }
        t.push(b'}');
    }
    t.push(b'}');
    t
}

fn nth(k: usize) -> (usize, usize) { if k < 15 { (0, k) } else if k < 31 { (1, k - 15) } else { (2, k - 31) } }

/// Every song of the manifest in its slot, with its input, tempo and loop flag.
#[no_mangle]
pub extern "C" fn e_manifest() {
    let which = nth(sx::choose("song", sx::param("lo", 0), sx::param("hi", 33)) as usize);
    let few = sx::param("few", 0) == 1;
    let (pick, input) = if few { (2, "{\"input\":\"songs/a.mid\"") } else { let c = sx::choose("input", 0, 3); (c, ["{\"input\":\"a.mid\"", "{\"input\":\"/music/a.mid\"", "{\"input\":\"songs/a.mid\"", "{\"loop\":null,\"input\":\"../a.mid\""][c as usize]) };
    let path = ["w/a.mid", "/music/a.mid", "w/songs/a.mid", "w/../a.mid"][pick as usize];
    let mut e = input.as_bytes().to_vec();
    let mut tempo = (0u64, 2u64, 10u64); // none: 0.2
    match if few { 2 } else { sx::choose("tempo", 0, 4) } {
        0 => (),
        1 => { e.extend_from_slice(b",\"tempoAdjust\":"); let d = sx::var8("digit", b'1', b'9'); e.push(d); tempo = (1, (d - b'0') as u64, 1); }
        2 => { e.extend_from_slice(b",\"tempoAdjust\":0."); let d = sx::var8("digit", b'0', b'9'); e.push(d); tempo = (1, (d - b'0') as u64, 10); }
        3 => { e.extend_from_slice(b",\"tempoAdjust\":1.2"); let d = sx::var8("digit", b'1', b'9'); e.push(d); tempo = (1, 120 + (d - b'0') as u64, 100); }
        _ => e.extend_from_slice(b",\"tempoAdjust\":\"fast\""),
    }
    let looping = match sx::choose("loop", 0, 3) { 0 => true, 1 => { e.extend_from_slice(b",\"loop\":true"); true } 2 => { e.extend_from_slice(b",\"loop\":false"); false } _ => { e.extend_from_slice(b",\"loop\":\"no\""); true } };
    e.push(b'}');
    let text = manifest_text(&|b, s| Some(if (b, s) == which { e.clone() } else { format!("{{\"input\":\"{}-{}\"}}", b, s).into_bytes() }));
    sx::dir("w");
    sx::put("w/m.json", &text);
    let m = match Manifest::new(Path::new("w/m.json")) { Ok(m) => m, Err(_) => { sx::check(false, "C20:accepted"); return; } };
    for b in 0..3 {
        sx::check(m.banks[b].songs.len() == NAMES[b].len(), "C20:number-of-songs");
        sx::assume(m.banks[b].songs.len() == NAMES[b].len());
        for (s, song) in m.banks[b].songs.iter().enumerate() {
            let mine = (b, s) == which;
            let want = if mine { PathBuf::from(path) } else { PathBuf::from(format!("w/{}-{}", b, s)) };
            sx::check(song.input.as_ref().map_or(false, |p| *p == want), "C20:input");
            sx::check(song.loops == (!mine || looping), "C20:loop");
            if !mine || tempo.0 == 0 { sx::check(song.tempo_factor == 0.2, "C20:default-tempo"); }
            else {
                // within the precision of its type
                let w = sx::conc(tempo.1) as f32 / tempo.2 as f32;
                sx::check((song.tempo_factor - w).abs() < 0.0001, "C20:tempo");
            }
        }
    }
    sx::mark("end");
}

/// A manifest with a song or an input left out, or of the wrong kind.
#[no_mangle]
pub extern "C" fn e_incomplete() {
    let which = nth(sx::choose("song", sx::param("lo", 0), sx::param("hi", 33)) as usize);
    let how = sx::choose("how", 0, 6);
    let text = manifest_text(&|b, s| if (b, s) != which { Some(b"{\"input\":\"x\"}".to_vec()) } else {
        match how { 0 => None, 1 => Some(b"{}".to_vec()), 2 => Some(b"null".to_vec()), 3 => Some(b"{\"input\":7}".to_vec()), 4 => Some(b"\"x\"".to_vec()), 5 => Some(b"{\"Input\":\"x\"}".to_vec()), _ => Some(b"{\"input\":\"x\"".to_vec()) }
    });
    sx::dir("w");
    sx::put("w/m.json", &text);
    sx::put("w/rom.smc", b"rom");
    sx::check(midi2spc::build_rom("w/m.json", "w/rom.smc", [0, 1, 2], true, false).is_err(), "C27:incomplete-manifest");
    same_bytes(&sx::get("w/rom.smc").unwrap_or_default(), b"rom", "C18:untouched");
    sx::mark("end");
}

/// Commands of one JSON song file, as bytes.
fn json_song(note: u8) -> Vec<u8> {
    let mut t = b"{\"parts\":[{\"tracks\":[0]}],\"tracks\":[{\"commands\":[{\"duration\":24,\"velocity\":9,\"sustain\":7,\"command\":{\"Note\":1".to_vec();
    t.push(note);
    t.extend_from_slice(b"0}}]}]}");
    t
}
const EMPTY_SONG: &[u8] = b"{\"parts\":[{\"tracks\":[0]}],\"tracks\":[{\"commands\":[]}]}";

fn song_want(song: &Song, looping: bool, path: Option<&str>) -> Want {
    let n = song.get_num_tracks();
    let part: Vec<usize> = song.get_part_tracks(0).to_vec();
    let mut steps: Vec<Vec<Step>> = vec![Vec::new(); n];
    for (k, &i) in part.iter().enumerate() { let v = spc::song_voice(song, i, k == 0); bad(v.bad); steps[i] = v.steps; }
    let sizes = (0..n).map(|i| spc::song_track(song, i).0.len()).collect();
    Want { val: crate::val::Val::None, part, steps, sizes, looping, path: path.map(|s| s.to_string()) }
}

fn wide(bases: &[u32; 3], l1: usize, l2: usize) -> (Vec<u8>, [Bank; 3]) {
    let b0 = Bank::new(0x60, FIRST[0] + l1, 0x2000, l2);
    let b1 = Bank::new(b0.end() + 3, FIRST[1] + l1, 0x2100, l2);
    let b2 = Bank::new(b1.end() + 3, FIRST[2] + l1, 0x2200, l2);
    let n = b2.end() + 3;
    let mut rom: Vec<u8> = (0..n).map(|i| if i < 0x60 || i >= n - 3 { sx::var8("rom", 0, 255) } else { (i * 37 + 11) as u8 }).collect();
    let b = [b0, b1, b2];
    structure(&mut rom, bases, &b, &[false, true, false]);
    (rom, b)
}

fn midi(p: u8, us: u32) -> Vec<u8> {
    let mut a = mid::Track::new();
    a.tempo(0, us);
    let mut t = mid::Track::new();
    t.on(0, 0, p, 100);
    t.off(96, 0, p);
    t.on(96, 0, 60, 80);
    t.off(120, 0, 60);
    t.on(120, 0, p, 100);
    t.off(180, 0, p);
    mid::file(96, vec![a, t])
}

fn written(rom: &[u8], b: &[Bank; 3], songs: &[Vec<Want>], path: &str) {
    let after = sx::get(path).unwrap_or_default();
    sx::assume(after.len() == rom.len());
    let mut first = 0;
    let mut own = Vec::new();
    for k in 0..3 { own.push((&b[k], first, 0)); bank_holds(&after, &b[k], k, first, &songs[k]); first += songs[k].len(); }
    rest_unchanged(rom, &after, &own);
}

/// build_rom from files: MIDI and JSON songs, each in its slot, at its tempo.
#[no_mangle]
pub extern "C" fn e_build() {
    let bases = [0x10, 0x11, 0x12];
    let (rom, b) = wide(&bases, 240, 330);
    let p = sx::var8("pitch", 24, 95);
    let us = 0x0a0000 | (sx::var("usec", 0, 255) as u32) << 8;
    let m = midi(p, us);
    let d = sx::var8("digit", b'3', b'9');
    let j = json_song(d);
    // songs come in every slot and are MIDI files if their name says so
    let at = sx::choose("slot", sx::param("lo", 0), sx::param("hi", 33)) as usize;
    let other = (at + 7) % 34;
    let tempo = ["0.2", "0.1", "1"];
    let factors = [0.2f32, 0.1, 1.0];
    let c = sx::choose("tempo", 0, 2) as usize;
    let name = ["a.json", "mid", "a.mid.txt", "a.MID", "w/a.json"][sx::choose("name", 0, 4) as usize];
    let text = manifest_text(&|bk, s| {
        let k = [0, 15, 31][bk] + s;
        Some(if k == at { format!("{{\"input\":\"a.mid\",\"tempoAdjust\":{},\"loop\":false}}", tempo[c]).into_bytes() } else if k == other { format!("{{\"input\":\"{}\"}}", name).into_bytes() } else { b"{\"input\":\"e\",\"loop\":false}".to_vec() })
    });
    sx::dir("w");
    for (f, t) in &[("w/m.json", &text[..]), ("w/a.mid", &m), ("w/e", EMPTY_SONG), ("w/rom.smc", &rom)] { sx::put(f, t); }
    if name.contains('/') {
        // relative to the manifest, although there's such a file where the program runs, too
        sx::dir("w/w");
        sx::put("w/a.json", EMPTY_SONG);
    }
    sx::put(&format!("w/{}", name), &j);
    let r = midi2spc::build_rom("w/m.json", "w/rom.smc", bases, sx::flag_c("optimize"), sx::param("verbose", 0) == 1);
    if let Err(e) = &r { sx::observe("err", format!("{}", e).as_bytes()); }
    sx::check(r.is_ok(), "C20:built");
    sx::assume(r.is_ok());
    let mut h = MidiHandler::new();
    sx::assume(h.read(Path::new("w/a.mid"), false).is_ok());
    let am = match Song::from_midi(&h, factors[c], false, false) { Ok(s) => s, Err(_) => return };
    let aj = match Song::from_json(Path::new(&format!("w/{}", name))) { Ok(s) => s, Err(_) => { sx::check(false, "C21:reads"); return; } };
    let songs: Vec<Vec<Want>> = (0..3).map(|bk| (0..NAMES[bk].len()).map(|s| {
        let k = [0, 15, 31][bk] + s;
        if k == at { song_want(&am, false, None) } else if k == other { song_want(&aj, true, None) } else { silent() }
    }).collect()).collect();
    written(&rom, &b, &songs, "w/rom.smc");
    same_bytes(&sx::get("w/a.mid").unwrap_or_default(), &m, "C16:inputs-untouched");
    sx::mark("end");
}

/// One song for all slots, or for the file selection screen only.
#[no_mangle]
pub extern "C" fn e_single() {
    let bases = [0x10, 0x11, 0x12];
    let all = sx::param("all", 1) == 1;
    let (rom, b) = wide(&bases, 420, 960);
    let p = sx::var8("pitch", 24, 95);
    let json = sx::flag_c("json");
    let m = if json { json_song(sx::var8("digit", b'3', b'9')) } else { midi(p, 0x0a0000 | (sx::var("usec", 0, 255) as u32) << 8) };
    let f = if json { "w/a.json" } else { "w/a.mid" };
    sx::dir("w");
    sx::put(f, &m);
    sx::put("w/rom.smc", &rom);
    let r = if all { midi2spc::write_all_overworld(f, "w/rom.smc", bases, sx::flag_c("optimize"), sx::param("verbose", 0) == 1) } else { midi2spc::write_file_select(f, "w/rom.smc", bases, sx::flag_c("optimize"), sx::param("verbose", 0) == 1) };
    if let Err(e) = &r { sx::observe("err", format!("{}", e).as_bytes()); }
    sx::check(r.is_ok(), "C22:accepted");
    sx::assume(r.is_ok());
    let song = if json { Song::from_json(Path::new(f)) } else { let mut h = MidiHandler::new(); sx::assume(h.read(Path::new(f), false).is_ok()); Song::from_midi(&h, 0.2, false, false) };
    let song = match song { Ok(s) => s, Err(_) => { sx::check(false, "C22:readable"); return; } };
    let w = song_want(&song, true, None);
    let songs: Vec<Vec<Want>> = (0..3).map(|bk| (0..NAMES[bk].len()).map(|s| if all || (bk, s) == (0, 10) { w.clone() } else { silent() }).collect()).collect();
    written(&rom, &b, &songs, "w/rom.smc");
    sx::mark("end");
}

/// The result doesn't depend on the order hash maps happen to have.
#[no_mangle]
pub extern "C" fn e_order() {
    let u = 4u32;
    let notes = sx::param("notes", 3) as usize;
    let mut t = mid::Track::new();
    let ch = sx::param("ch", 0) as u8;
    // a chord, changes while it sounds, released in some order or never
    for k in 0..notes { t.on(u * k as u32, ch, 60 + k as u8, 100); }
    let v = sx::var8("volume", 0, 127);
    t.cc(u * 4, ch, 7, v);
    t.prog(u * 5, ch, sx::var8("prog", 0, 127));
    t.cc(u * 6, ch, 65, 127);
    let keep = sx::choose("held", 0, notes as u64) as usize;
    for k in 0..notes { if k + 1 != keep { t.off(u * 8, ch, 60 + k as u8); } }
    t.on(u * 9, ch, 70, 100);
    t.off(u * 12, ch, 70);
    let f = mid::file(96, vec![t]);
    sx::hash_mode(0);
    let a = accept(&f, 0.25, true);
    // the executor tries every order at once, a native run many
    let runs = if cfg!(feature = "native") { 200 } else { 1 };
    for _ in 0..runs {
        sx::hash_mode(sx::param("mode", 3));
        let b = accept(&f, 0.25, true);
        sx::hash_mode(0);
        crate::e_song::same_song(&a, &b, "C26:same");
    }
    sx::mark("end");
}

/// MIDI files that aren't quite right: an error or a song, never a crash.
#[no_mangle]
pub extern "C" fn e_badmidi() {
    let n = sx::param("n", 3) as usize;
    let mut f = { let mut t = mid::Track::new(); t.on(0, 0, 60, 100); t.off(48, 0, 60); t.prog(50, 0, 3); t.tempo(50, 500000); t.text(52); mid::file(96, vec![t]) };
    let mut refuse = false;
    match sx::param("what", 0) {
        // arbitrary header: length, format, number of tracks, division
        0 => { let at = [4, 8, 10, 12][sx::param("field", 0) as usize]; for i in 0..if at == 4 { 4 } else { 2 } { f[at + i] = sx::var8("header", 0, 255); } let d = (f[12] as u16) << 8 | f[13] as u16; refuse = (f[8] != 0) | (f[9] != 1) | (d == 0) | (d >= 0x8000) | (f[4] != 0) | (f[5] != 0) | (f[6] != 0) | (f[7] != 6); }
        // the file ends anywhere
        1 => { let k = sx::choose("size", 0, f.len() as u64 - 1) as usize; f.truncate(k); }
        // arbitrary events in the only track
        2 => { let mut t = mid::Track::new(); for i in 0..n { t.b.push(if i == 0 && n > 3 { 0 } else { sx::var8("data", 0, 255) }); } f = bare(96, &t.b); }
        // a note, then arbitrary events
        3 => { let mut t = mid::Track::new(); t.on(0, 0, 60, 100); for i in 0..n { t.b.push(if i == 0 && n > 3 { 0 } else { sx::var8("data", 0, 255) }); } f = bare(96, &t.b); }
        // arbitrary magic numbers
        4 => { let at = sx::choose("at", 0, 1) as usize * 14; for i in 0..4 { f[at + i] = sx::var8("magic", 0, 255); } }
        // arbitrary meta and system exclusive events of the right size
        5 => {
            let mut t = mid::Track::new();
            let l = sx::choose("len", 0, n as u64) as usize;
            if sx::flag_c("meta") { t.raw(0, &[0xff, sx::var8("kind", 0, 255), l as u8]); } else { t.raw(0, &[0xf0, l as u8]); }
            for _ in 0..l { t.b.push(sx::var8("data", 0, 255)); }
            t.on(24, 0, 60, 100); t.off(48, 0, 60);
            f = mid::file(96, vec![t]);
        }
        // more time than can be counted
        6 => {
            // around and beyond the most ticks that can be counted
            let mut t = mid::Track::new();
            let many = if sx::flag_c("many") { 17 } else { 0 };
            for k in 0..many { t.delta_of(0x0fff_ffff); t.b.extend_from_slice(&[0xb0, 91, k as u8]); }
            t.delta_of(0x0aa0_0000 + sx::choose("gap", 0, 16) as u32 * 0x1_0000); t.b.extend_from_slice(&[0xb0, 91, 0]);
            f = mid::file(0x7fff, vec![t]);
        }
        // declared track length differs from what is there
        _ => { f[21] = sx::var8("size", 0, 255); }
    }
    match convert(&f, 0.25, true) {
        Ok(s) => { sx::mark("ok"); sx::check(!refuse, "C25:refused"); for v in voices(&s) { sx::check(v.bytes > 0, "C01:well-formed"); } }
        Err(_) => { sx::mark("refused"); }
    }
    // nothing is left behind by a command that failed
    if sx::param("json", 0) == 1 { sx::check(true, "C25:done"); }
    sx::mark("end");
}

fn bare(tpb: u16, b: &[u8]) -> Vec<u8> {
    let mut f = b"MThd".to_vec();
    f.extend_from_slice(&[0, 0, 0, 6, 0, 1, 0, 1, (tpb >> 8) as u8, tpb as u8]);
    f.extend_from_slice(b"MTrk");
    f.extend_from_slice(&[0, 0, 0, b.len() as u8]);
    f.extend_from_slice(b);
    f
}

/// JSON songs with any number of voices: at most eight, of tracks that exist.
#[no_mangle]
pub extern "C" fn e_parts() {
    let (n, k) = (sx::choose("voices", 0, 11) as usize, sx::choose("tracks", 0, 3));
    let at = sx::choose("at", 0, 11) as usize;
    let x = sx::choose("track", 0, 4);
    let target = sx::choose("target", 0, 4);
    let second = sx::flag_c("second");
    let part = |list: &str| format!("{{\"tracks\":[{}]}}", list);
    let list = (0..n).map(|i| if i == at { x.to_string() } else { "0".to_string() }).collect::<Vec<_>>().join(",");
    let parts = if second { format!("{},{}", part("0"), part(&list)) } else { part(&list) };
    let tracks = (0..k).map(|i| if i == 0 { format!("{{\"commands\":[{{\"duration\":6,\"velocity\":9,\"sustain\":7,\"command\":{{\"CallLoop\":[{},2]}}}}]}}", target) } else { "{\"commands\":[]}".to_string() }).collect::<Vec<_>>().join(",");
    sx::dir("w");
    sx::put("w/a.json", format!("{{\"parts\":[{}],\"tracks\":[{}]}}", parts, tracks).as_bytes());
    let exists = |i: u64| i < k;
    let good = n <= 8 && (n == 0 || (n == 1 && at == 0) || exists(0)) && (at >= n || exists(x)) && (!second || exists(0)) && (k == 0 || exists(target));
    match Song::from_json(Path::new("w/a.json")) {
        Ok(s) => { sx::check(good, "C27:valid"); sx::check(s.get_num_tracks() as u64 == k, "C27:tracks"); sx::mark("ok"); }
        Err(_) => { sx::check(!good, "C27:good-accepted"); sx::mark("refused"); }
    }
    sx::mark("end");
}

/// JSON songs with bytes gone wrong: an error or a song that can be written, never a crash.
#[no_mangle]
pub extern "C" fn e_badjson() {
    let mut t: Vec<u8> = match sx::param("text", 0) {
        0 => b"{\"parts\":[{\"tracks\":[0]}],\"tracks\":[{\"commands\":[{\"duration\":24,\"velocity\":9,\"sustain\":7,\"command\":{\"Note\":145}},{\"duration\":null,\"velocity\":null,\"sustain\":null,\"command\":\"Rest\"}]}]}".to_vec(),
        1 => b"{\"parts\":[{\"tracks\":[0]}],\"tracks\":[{\"commands\":[{\"duration\":1,\"velocity\":1,\"sustain\":1,\"command\":{\"CallLoop\":[1,2]}}]},{\"commands\":[]}]}".to_vec(),
        _ => b"{\"parts\":[{\"tracks\":[0,1]}],\"tracks\":[{\"commands\":[]},{\"commands\":[]}]}".to_vec(),
    };
    let n = t.len() as u64;
    let (lo, hi) = (sx::param("lo", 0).min(n - 1), sx::param("hi", 1000).min(n - 1));
    match sx::param("what", 0) {
        0 => { let at = sx::choose("at", lo, hi) as usize; t[at] = sx::var8("byte", 0, 255); }
        _ => { let k = sx::choose("size", 0, n - 1) as usize; t.truncate(k); }
    }
    sx::dir("w");
    sx::put("w/a.json", &t);
    match Song::from_json(Path::new("w/a.json")) {
        Ok(s) => {
            sx::mark("ok");
            let ts = s.get_part_tracks(0).to_vec();
            sx::check(ts.len() <= 8 && ts.iter().all(|i| *i < s.get_num_tracks()), "C27:valid");
            for i in 0..s.get_num_tracks() {
                let (_, l) = spc::song_track(&s, i);
                for r in l { sx::check(r.target_track < s.get_num_tracks(), "C27:valid"); }
            }
        }
        Err(_) => sx::mark("refused"),
    }
    sx::check(sx::param("what", 0) == 0 || Song::from_json(Path::new("w/a.json")).is_err(), "C27:cut-short");
    sx::mark("end");
}
