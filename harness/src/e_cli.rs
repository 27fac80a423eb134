//! The program's command line: the real main function is run with arguments, its effect compared with that of the command it should run.
use crate::exp::*;
use crate::rom::*;
use crate::{mid, sx};
use midi2spc::midi::MidiHandler;
use midi2spc::nspc::Song;
use std::path::Path;
use std::sync::Mutex;

/// What has to be there after the run: file, contents; and whether the program has to fail.
struct Want { files: Vec<(&'static str, Option<Vec<u8>>)>, fail: bool }
static WANT: Mutex<Want> = Mutex::new(Want { files: Vec::new(), fail: false });

extern "C" fn done(code: i32) {
    let w = WANT.lock().unwrap();
    sx::check((code != 0) == w.fail, if w.fail { "C32:error-exit-code" } else { "C32:accepted" });
    for (f, t) in &w.files {
        match (t, sx::get(f)) {
            (Some(t), Some(g)) => same_bytes(&g, t, if w.fail { "C32:untouched" } else { "C32:same-effect" }),
            (None, None) => (),
            _ => sx::check(false, "C32:files"),
        }
    }
    sx::mark(if w.fail { "refused" } else { "ok" });
    sx::mark("end");
}

fn arg(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }

#[no_mangle]
pub extern "C" fn e_cli() {
    let cmd = sx::choose("command", sx::param("lo", 0), sx::param("hi", 5)) as usize;
    let rom_cmd = cmd < 3 || cmd == 4;
    let names = ["build_rom", "all_overworld", "file_select", "midi2json", "gen_fake_rom", "dump_midi"];
    // options of the program itself
    let (skip, verbose) = (sx::choose("skip", 0, sx::param("skip", 2)), sx::choose("verbose", 0, sx::param("verbose", 2)));
    let mut args = Vec::new();
    match skip { 0 => (), 1 => args.push(arg("-s")), _ => args.push(arg("--skip_optimization")) }
    match verbose { 0 => (), 1 => args.push(arg("-v")), _ => args.push(arg("--verbose")) }
    args.push(arg(names[cmd]));
    // bank addresses: the default ones, or given ones with a digit of any kind
    let mut bases = [0x914u32, 0x926, 0x932];
    let mut fail = false;
    let mut addrs = None;
    if (cmd < 3) && sx::choose("addresses", sx::param("given", 0), sx::param("addresses", 1)) == 1 {
        let bank = sx::choose("bank", 0, sx::param("banks", 2)) as usize;
        let digit = sx::choose("digit", 0, sx::param("digits", 2)) as u32;
        // every hexadecimal digit, or any other character but a separator or a sign
        let n = sx::choose("char", 0, sx::param("chars", 22)) as usize;
        let v = if n < 22 { (b"0123456789abcdefABCDEF"[n] as char).to_digit(16) } else { None };
        let c = if n < 22 { b"0123456789abcdefABCDEF"[n] } else { sx::var8("other", 0x21, 0x7e) };
        if n == 22 { sx::assume((c != b',') & (c != b'+') & (c != b'-') & !((c >= b'0') & (c <= b'9')) & !((c | 32 >= b'a') & (c | 32 <= b'f'))); }
        let order = [[0, 1, 2], [2, 1, 0], [1, 2, 0], [0, 2, 1], [1, 0, 2], [2, 0, 1]][sx::choose("order", 0, sx::param("order", 0)) as usize];
        let mut text = String::new();
        for k in 0..3 {
            let base = [0x110u32, 0x320, 0xa30][order[k]];
            let mut s = format!("{:03x}", base).into_bytes();
            bases[k] = base;
            if k == bank {
                s[2 - digit as usize] = c;
                match v { Some(v) => bases[k] = base & !(15 << (4 * digit)) | v << (4 * digit), None => fail = true }
            }
            if k > 0 { text.push(','); }
            text.push_str(std::str::from_utf8(&s).unwrap());
        }
        addrs = Some(text);
    }
    if !fail { for a in 0..3 { for b in 0..a { sx::assume(if bases[a] > bases[b] { bases[a] - bases[b] } else { bases[b] - bases[a] } > 8); } } }
    let how = if addrs.is_some() { sx::choose("how", 0, sx::param("how", 1)) } else { 0 };
    if let Some(t) = &addrs {
        let f = if fail || how == 0 { vec![arg("--bank_addrs"), arg(t)] } else { vec![arg(&format!("--bank_addrs={}", t))] };
        args.extend(f);
    }
    // the files
    let mut t = mid::Track::new();
    let pitch = if sx::param("pitch", 1) == 1 { sx::var8("pitch", 24, 95) } else { 61 };
    sx::assume(pitch != 60);
    // enough notes to be worth a loop; the first track sets the tempo, so that its factor shows
    for i in 0..12u32 { let p = if i % 2 == 0 { pitch } else { 60 }; t.on(i * 48, 0, p, 100); t.off(i * 48 + 24, 0, p); }
    let mut c = mid::Track::new();
    c.tempo(0, 500_000);
    let midi = mid::file(96, vec![c, t]);
    let json = b"{\"parts\":[{\"tracks\":[0]}],\"tracks\":[{\"commands\":[{\"duration\":24,\"velocity\":9,\"sustain\":7,\"command\":{\"Note\":17}}]}]}";
    let manifest = {
        let mut m = String::from("{");
        let mut n = 0;
        for (i, b) in ["overworld", "indoor", "ending"].iter().enumerate() {
            if i > 0 { m.push(','); }
            m.push_str(&format!("\"{}\":{{", b));
            for (j, s) in crate::e_app::NAMES[i].iter().enumerate() {
                if j > 0 { m.push(','); }
                m.push_str(&format!("\"{}\":{{\"input\":\"{}\"}}", s, if n % 11 == 3 { "a.mid" } else { "a.json" }));
                n += 1;
            }
            m.push('}');
        }
        m.push('}');
        m.into_bytes()
    };
    let input = match cmd { 0 => "w/m.json", 1 | 2 => if sx::choose("json", 0, sx::param("json", 1)) == 1 { "w/a.json" } else { "w/a.mid" }, 4 => "w/rom.smc", _ => "w/a.mid" };
    let missing = sx::choose("missing", 0, if cmd == 5 || fail { 0 } else { sx::param("missing", 1) }) == 1;
    fail |= missing;
    let rom = if rom_cmd {
        let b0 = Bank::new(0xf80, FIRST[0] + 480, 0x2000, 960);
        let b1 = Bank::new(b0.end() + 3, FIRST[1] + 480, 0x2100, 960);
        let b2 = Bank::new(b1.end() + 3, FIRST[2] + 480, 0x2200, 960);
        let mut rom: Vec<u8> = (0..b2.end() + 3).map(|i| (i * 37 + 11) as u8).collect();
        structure(&mut rom, &bases, &[b0, b1, b2], &[false, true, false]);
        rom
    } else { Vec::new() };
    sx::dir("w");
    sx::dir("x");
    for (f, t) in &[("m.json", &manifest[..]), ("a.mid", &midi), ("a.json", json), ("rom.smc", &rom), ("out", b"old contents, longer than what replaces it")] {
        if *f == "rom.smc" && !rom_cmd { continue; }
        for d in &["w", "x"] { sx::put(&format!("{}/{}", d, f), t); }
    }
    let output = if cmd < 3 { "w/rom.smc" } else { "w/out" };
    args.push(arg(if missing { "w/none.mid" } else { input }));
    if cmd != 5 { args.push(arg(output)); }
    // the same by hand, in the other directory
    let optimize = skip == 0;
    let other = input.replace("w/", "x/");
    let r = if fail { Ok(()) } else {
        match cmd {
            0 => midi2spc::build_rom(&other, "x/rom.smc", bases, optimize, false),
            1 => midi2spc::write_all_overworld(&other, "x/rom.smc", bases, optimize, false),
            2 => midi2spc::write_file_select(&other, "x/rom.smc", bases, optimize, false),
            3 => { let mut m = MidiHandler::new(); m.read(Path::new(&other), false).and_then(|_| Song::from_midi(&m, 0.2, optimize, false)).and_then(|s| s.write_to_json(Path::new("x/out"))) }
            4 => midi2spc::rom::gen_fake_rom(Path::new(&other), Path::new("x/out"), bases),
            _ => Ok(()),
        }
    };
    sx::check(r.is_ok(), "C32:command-works");
    sx::assume(r.is_ok());
    {
        let mut w = WANT.lock().unwrap();
        w.fail = fail;
        w.files = vec![("w/m.json", Some(manifest)), ("w/a.mid", Some(midi)), ("w/a.json", Some(json.to_vec())), ("w/out", sx::get("x/out")), ("w/rom.smc", sx::get("x/rom.smc")), ("w/none.mid", None)];
        if cmd < 3 && !fail { sx::check(w.files[4].1.as_ref().map_or(false, |r| *r != rom), "C32:command-works"); }
    }
    sx::cli(&args, done);
}
