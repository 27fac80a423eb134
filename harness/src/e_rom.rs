//! Writing songs into ROMs.
use crate::rom::{self, *};
use crate::sx;
use midi2spc::manifest::{self, Manifest};
use midi2spc::nspc::Song;
use std::cell::RefCell;
use std::path::Path;

pub fn manifest(banks: &[Vec<Want>]) -> Manifest {
    let b = |k: usize, name| manifest::Bank { name, songs: banks[k].iter().map(|w| manifest::Song { input: w.path.as_ref().map(|p| Path::new(p).to_path_buf()), tempo_factor: 0.25, loops: w.looping }).collect() };
    Manifest { banks: [b(0, "overworld"), b(1, "indoor"), b(2, "ending")] }
}

/// Writes the songs; Ok if the command said so.
pub fn write(rom: &[u8], bases: [u32; 3], banks: &[Vec<Want>]) -> bool {
    sx::dir("w");
    sx::put("w/rom.smc", rom);
    let made: RefCell<Vec<(String, Option<Song>)>> = RefCell::new(banks.iter().flat_map(|b| b.iter()).filter(|w| w.path.is_some()).map(|w| (w.path.clone().unwrap(), Some(w.song()))).collect());
    let conv = |p: &Path, _f: f32| -> Result<Song, failure::Error> {
        let p = p.to_str().unwrap();
        let mut m = made.borrow_mut();
        let e = m.iter_mut().find(|x| x.0 == p && x.1.is_some());
        sx::check(e.is_some(), "C15:known-song");
        Ok(e.unwrap().1.take().unwrap())
    };
    midi2spc::rom::write(&manifest(banks), Path::new("w/rom.smc"), bases, &conv, sx::param("verbose", 0) == 1).is_ok()
}

pub fn verdict(rom: &[u8], ok: bool, banks: &[Bank; 3], songs: &[Vec<Want>]) {
    let after = match sx::get("w/rom.smc") { Some(a) => a, None => { sx::check(false, "C16:length"); return; } };
    let mut fit = true;
    let mut first = 0;
    for k in 0..3 { fit &= rom::fits(&banks[k], FIRST[k], &songs[k]); }
    if ok {
        sx::mark("written");
        sx::check(fit, "C17:too-big-rejected");
        sx::assume(fit);
        let mut own = Vec::new();
        for k in 0..3 { own.push((&banks[k], first, 0)); bank_holds(&after, &banks[k], k, first, &songs[k]); first += songs[k].len(); }
        rest_unchanged(rom, &after, &own);
    } else {
        sx::mark("rejected");
        sx::check(!fit, "C17:fitting-accepted");
        same_bytes(&after, rom, "C18:untouched");
    }
    sx::mark("end");
}

fn roomy(at: usize, k: usize) -> Bank { Bank::new(at, FIRST[k] + 60, 0x2000 + 0x100 * k as u16, 40) }

/// Songs of several shapes into one bank whose chunks are of every size around what is needed; the other banks have room.
#[no_mangle]
pub extern "C" fn e_rom() {
    let vb = sx::param("bank", 0) as usize;
    let (lo, hi) = (sx::param("lo", 0), sx::param("hi", 100));
    let (olo, ohi) = (sx::param("olo", 0), sx::param("ohi", 60));
    let l1 = FIRST[vb] + sx::choose("length", lo, hi) as usize;
    let l2 = sx::choose("overflow", olo, ohi) as usize;
    let mut at = 0x60;
    let mut banks: Vec<Bank> = Vec::new();
    for k in 0..3 {
        let mut b = roomy(at, k);
        if k == vb { b.l1 = l1; b.l2 = l2; b.over = sx::var("over", 0, 0xffff) as u16; sx::assume(b.over as usize + l2 <= 0x10000 && (b.over as usize + l2 <= 0xd000 || b.over as usize >= 0xd000 + l1)); }
        at = b.end() + 3;
        banks.push(b);
    }
    let bases = [0x10, 0x11, 0x12];
    let size = at + 5;
    let mut rom = filler(size);
    structure(&mut rom, &bases, &banks, &[false, true, sx::flag("mirror")]);
    let looping = |i: usize| if sx::param("flags", 0) == 1 { sx::flag_c("loop") } else { i % 2 == 0 };
    let mut songs = vec![Vec::new(), Vec::new(), Vec::new()];
    for k in 0..3 {
        let n = if k == vb { sx::param("songs", 2) as usize } else { sx::param("others", 1) as usize };
        for i in 0..n {
            let p = format!("s{}{}", k, i);
            let w = if k != vb { want(&[1], 0, 0, looping(i), Some(&p)) } else {
                match (sx::param("shape", 0) + i as u64) % 5 {
                    0 => want(&[2, 1], 2, 0, looping(i), Some(&p)),
                    1 => want(&[1, 0, 2], 0, 0, looping(i), Some(&p)),
                    2 => silent(),
                    3 => want(&[1, 1, 1, 1, 1, 1, 1, 1], 1, 7, looping(i), Some(&p)),
                    _ => want(&[0], 0, 0, looping(i), Some(&p)),
                }
            };
            songs[k].push(w);
        }
    }
    let b3 = [banks[0].clone(), banks[1].clone(), banks[2].clone()];
    let again = sx::param("again", 0);
    if again == 0 {
        let ok = write(&rom, bases, &songs);
        verdict(&rom, ok, &b3, &songs);
        return;
    }
    // a dummy of the ROM takes the same songs
    let fake = if again == 2 {
        sx::dir("w");
        sx::put("w/real.smc", &rom);
        sx::assume(midi2spc::rom::gen_fake_rom(Path::new("w/real.smc"), Path::new("w/fake.smc"), bases).is_ok());
        sx::get("w/fake.smc").unwrap_or_default()
    } else { Vec::new() };
    let ok = write(&rom, bases, &songs);
    let built = sx::get("w/rom.smc").unwrap_or_default();
    sx::mark(if ok { "written" } else { "rejected" });
    if again == 1 {
        if ok {
            sx::check(write(&built, bases, &songs), "C33:accepted");
            same_bytes(&sx::get("w/rom.smc").unwrap_or_default(), &built, "C33:same");
        }
    } else {
        let okf = write(&fake, bases, &songs);
        sx::check(ok == okf, "C34:same-verdict");
        let f = sx::get("w/rom.smc").unwrap_or_default();
        sx::check(f.len() == built.len(), "C34:length");
        sx::assume(ok == okf && f.len() == built.len());
        // what was written to the ROM was written to the dummy, too
        for i in 0..f.len() {
            let kept = (built[i] == rom[i]) & (f[i] == fake[i]);
            if ok { sx::check(kept | (built[i] == f[i]), "C34:same-data"); } else { sx::check(f[i] == fake[i], "C34:untouched"); }
        }
    }
    sx::mark("end");
}

/// Songs whose part plays any of their tracks, in any order, the others being loops: as a song, and in the ROM.
#[no_mangle]
pub extern "C" fn e_arranged() {
    let n = sx::param("tracks", 3) as usize;
    let m = sx::choose("voices", 1, sx::param("voices", 3)) as usize;
    let mut part = Vec::new();
    for _ in 0..m {
        let t = sx::choose("track", 0, n as u64 - 1) as usize;
        sx::assume(!part.contains(&t));
        part.push(t);
    }
    let w = arranged(n, &part, sx::flag_c("loop"), Some("a"));
    if sx::param("rom", 0) == 0 {
        let s = w.song();
        for (k, t) in part.iter().enumerate() {
            let v = crate::spc::song_voice(&s, *t, k == 0);
            sx::check(v.bad != crate::spc::Bad::Preamble, "C13:preamble");
            sx::check(v.bad == crate::spc::Bad::None || v.bad == crate::spc::Bad::Preamble, "C13:readable");
            sx::assume(v.bad == crate::spc::Bad::None);
            crate::e_song::same_steps(&v.steps, &w.steps[*t], "C13:plays");
        }
        sx::mark("end");
        return;
    }
    let bases = [0x10, 0x11, 0x12];
    let mut at = 0x60;
    let mut banks: Vec<Bank> = Vec::new();
    for k in 0..3 {
        let mut b = roomy(at, k);
        if k == 0 { b.l1 = FIRST[0] + sx::choose("length", sx::param("lo", 0), sx::param("hi", 80)) as usize; b.l2 = 64; }
        at = b.end() + 3;
        banks.push(b);
    }
    let mut rom = filler(at + 5);
    structure(&mut rom, &bases, &banks, &[false, true, false]);
    let songs = vec![vec![w], vec![want(&[1], 0, 0, true, Some("b"))], vec![silent()]];
    let ok = write(&rom, bases, &songs);
    verdict(&rom, ok, &[banks[0].clone(), banks[1].clone(), banks[2].clone()], &songs);
}

/// Where the banks are found: chunks of other data first, banks beyond the first 32 KB, pointer tables anywhere.
#[no_mangle]
pub extern "C" fn e_place() {
    let far = sx::param("far", 0) == 1;
    let npre = sx::param("pre", 1) as usize;
    let mut at = if far { 0x7f80 } else { 0x80 };
    let mut banks: Vec<Bank> = Vec::new();
    for k in 0..3 {
        let mut b = roomy(at, k);
        b.over = 0x3000 + k as u16;
        if k == sx::param("bank", 0) as usize {
            for _ in 0..npre {
                let a = sx::var("aram", 0, 0xffff) as u16;
                sx::assume(a != 0xd000);
                b.pre.push((a, sx::choose("before", 1, sx::param("maxpre", 4)) as usize));
            }
            b.over = sx::var("over", 0, 0x8000) as u16;
        }
        at = b.end() + 1;
        banks.push(b);
    }
    let size = at + 40;
    // pointers in the ROM's first bytes or at its very end, as mirrors or not
    let end = sx::flag_c("atend");
    let b0 = if end { size - 9 } else { 0 };
    let (m0, m1) = (sx::flag_c("mirror"), sx::flag_c("mirror"));
    let bases = [snes(b0, m0), snes(0x21, m1), snes(if far { 0x7f42 } else { 0x42 }, false)];
    let mut rom = if far { let mut r: Vec<u8> = (0..size).map(|i| (i * 37 + 11) as u8).collect(); for i in 0..40 { r[size - 1 - i] = sx::var8("rom", 0, 255); } r } else { filler(size) };
    structure(&mut rom, &bases, &banks, &[m1, sx::flag("mirror"), true]);
    let songs: Vec<Vec<Want>> = (0..3).map(|k| vec![want(&[1, 1], if k == 1 { 1 } else { 0 }, 0, k == 0, Some(["a", "b", "c"][k]))]).collect();
    let ok = write(&rom, bases, &songs);
    sx::check(ok, "C24:accepted");
    sx::assume(ok);
    verdict(&rom, ok, &[banks[0].clone(), banks[1].clone(), banks[2].clone()], &songs);
}

fn small(bases: &[u32; 3], pad: usize) -> (Vec<u8>, [Bank; 3]) {
    let b0 = roomy(0x60, 0);
    let b1 = roomy(b0.end() + pad, 1);
    let b2 = roomy(b1.end() + pad, 2);
    let size = b2.end() + pad;
    let mut rom = filler(size);
    let b = [b0, b1, b2];
    structure(&mut rom, bases, &b, &[false, false, false]);
    (rom, b)
}

/// A bank address that points outside the ROM.
#[no_mangle]
pub extern "C" fn e_outside() {
    let bases = [0x10, 0x11, 0x12];
    let (rom, _) = small(&bases, 3);
    let k = sx::choose("which", 0, 2) as usize;
    let mut bases = bases;
    // any 32-bit number whose pointer bytes aren't all inside
    let a = sx::var("address", 0, 0xffff_ffff) as u32;
    let inside = (a <= 0x00ff_fff7) && pc(a) < rom.len() && pc(a + 4) < rom.len() && pc(a + 8) < rom.len();
    sx::assume(!inside);
    bases[k] = a;
    let songs: Vec<Vec<Want>> = (0..3).map(|k| vec![want(&[1], 0, 0, true, Some(["a", "b", "c"][k]))]).collect();
    if sx::param("fake", 0) == 1 {
        sx::dir("w");
        sx::put("w/rom.smc", &rom);
        sx::check(midi2spc::rom::gen_fake_rom(Path::new("w/rom.smc"), Path::new("w/fake.smc"), bases).is_err(), "C24:outside-refused");
    } else {
        sx::check(!write(&rom, bases, &songs), "C24:outside-refused");
    }
    same_bytes(&sx::get("w/rom.smc").unwrap_or_default(), &rom, "C18:untouched");
    sx::mark("end");
}

/// A song that can't be converted, anywhere in the manifest.
#[no_mangle]
pub extern "C" fn e_fails() {
    let bases = [0x10, 0x11, 0x12];
    let (rom, _) = small(&bases, 3);
    let n = sx::param("songs", 2) as usize;
    let songs: Vec<Vec<Want>> = (0..3).map(|k| (0..n).map(|i| want(&[1], 0, 0, true, Some(&format!("{}{}", k, i)))).collect()).collect();
    let bad = sx::choose("bad", 0, (3 * n - 1) as u64) as usize;
    let bad = format!("{}{}", bad / n, bad % n);
    sx::dir("w");
    sx::put("w/rom.smc", &rom);
    let conv = |p: &Path, _f: f32| -> Result<Song, failure::Error> {
        if p.to_str() == Some(&bad) { return Err(failure::err_msg("no such song")); }
        Ok(want(&[1], 0, 0, true, None).song())
    };
    let r = midi2spc::rom::write(&manifest(&songs), Path::new("w/rom.smc"), bases, &conv, sx::flag_c("verbose"));
    sx::check(r.is_err(), "C18:reported");
    same_bytes(&sx::get("w/rom.smc").unwrap_or_default(), &rom, "C18:untouched");
    sx::mark("end");
}

/// An arbitrary small ROM: pointers, chunk headers and all.
#[no_mangle]
pub extern "C" fn e_anyrom() {
    let n = sx::choose("size", sx::param("lo", 0), sx::param("hi", 24)) as usize;
    let rom = filler(n);
    let songs: Vec<Vec<Want>> = (0..3).map(|k| vec![want(&[1], 0, 0, true, Some(["a", "b", "c"][k]))]).collect();
    let fake = sx::param("fake", 0) == 1;
    let bases = [0u32, 1, 2];
    let ok = if fake {
        sx::dir("w");
        sx::put("w/rom.smc", &rom);
        midi2spc::rom::gen_fake_rom(Path::new("w/rom.smc"), Path::new("w/fake.smc"), bases).is_ok()
    } else { write(&rom, bases, &songs) };
    if ok { sx::mark("ok"); } else { sx::mark("refused"); }
    if !fake { sx::check(!ok, "C28:refused"); }
    if fake || !ok { same_bytes(&sx::get("w/rom.smc").unwrap_or_default(), &rom, "C28:untouched"); }
    if fake && ok {
        let f = sx::get("w/fake.smc").unwrap_or_default();
        sx::check(f.len() == n, "C23:length");
    }
    sx::mark("end");
}

/// Any number up to `hi`; on a path of its own if it is below `size`.
fn whole(name: &str, size: usize, hi: u64) -> u64 {
    let v = sx::var(name, 0, hi);
    let part = sx::param("part", 0) as usize;
    let parts = sx::param("parts", 1) as usize;
    if parts > 1 { sx::assume((v as usize) >= size * part / parts && ((v as usize) < size * (part + 1) / parts || part + 1 == parts)); }
    if (v as usize) < size { sx::conc(v) } else { v }
}

/// A well-formed ROM with one chunk header, pointer or length gone wrong.
#[no_mangle]
pub extern "C" fn e_badrom() {
    let bases = [0x10, 0x11, 0x12];
    let (mut rom, b) = small(&bases, 3);
    let k = sx::choose("bank", 0, 2) as usize;
    match sx::param("what", 0) {
        // the pointer: anywhere in the ROM, or out of it
        0 => { let p = whole("pointer", rom.len(), 0x7fff); rom[pc(bases[k])] = p as u8; rom[pc(bases[k] + 4)] = (p >> 8) as u8 | (sx::var8("mirror", 0, 1) << 7); }
        1 => rom[pc(bases[k] + 8)] = sx::var8("bank", 1, 255),
        // chunk lengths
        2 => { let n = whole("length", rom.len(), 0xffff); let at = b[k].base() - 4; rom[at] = n as u8; rom[at + 1] = (n >> 8) as u8; }
        3 => { let n = whole("length", rom.len(), 0xffff); let at = b[k].overflow() - 4; rom[at] = n as u8; rom[at + 1] = (n >> 8) as u8; }
        // no chunk for D000
        4 => { let a = sx::var("aram", 0, 0xffff) as u16; sx::assume(a != 0xd000); rom[b[k].base() - 2] = a as u8; rom[b[k].base() - 1] = (a >> 8) as u8; }
        // the ROM ends early
        _ => { let n = sx::choose("size", 0, b[2].end() as u64 - 1) as usize; rom.truncate(n); }
    }
    let songs: Vec<Vec<Want>> = (0..3).map(|k| vec![want(&[1], 0, 0, true, Some(["a", "b", "c"][k]))]).collect();
    let ok = if sx::param("fake", 0) == 1 {
        sx::dir("w");
        sx::put("w/rom.smc", &rom);
        midi2spc::rom::gen_fake_rom(Path::new("w/rom.smc"), Path::new("w/fake.smc"), bases).is_ok()
    } else { write(&rom, bases, &songs) };
    let after = sx::get("w/rom.smc").unwrap_or_default();
    sx::check(after.len() == rom.len(), "C28:length");
    if ok { sx::mark("ok"); } else { sx::mark("refused"); same_bytes(&after, &rom, "C28:untouched"); }
    if sx::param("what", 0) == 4 && sx::param("fake", 0) == 0 || sx::param("what", 0) == 5 && sx::param("fake", 0) == 0 { sx::check(!ok, "C28:refused"); }
    sx::mark("end");
}

/// The dummy ROM keeps the structure and nothing else.
#[no_mangle]
pub extern "C" fn e_fake() {
    let bases = [snes(0x10, sx::flag_c("mirror")), 0x11, 0x2e];
    let pad = sx::choose("pad", 0, 3) as usize;
    let mut b0 = roomy(0x60, 0);
    for _ in 0..sx::param("pre", 1) { b0.pre.push((sx::var("aram", 0, 0xffff) as u16, sx::choose("before", 1, 5) as usize)); }
    b0.l2 = sx::choose("overflow", 0, 3) as usize;
    b0.over = sx::var("over", 0, 0xffff) as u16;
    let b1 = roomy(b0.end() + pad, 1);
    let b2 = roomy(b1.end() + pad, 2);
    let size = b2.end() + pad;
    let mut rom = filler(size);
    let b = [b0, b1, b2];
    structure(&mut rom, &bases, &b, &[false, true, false]);
    sx::dir("w");
    sx::put("w/rom.smc", &rom);
    // the output may exist and be longer
    if sx::flag_c("exists") { sx::put("w/fake.smc", &vec![0x55; size + 7]); }
    let r = midi2spc::rom::gen_fake_rom(Path::new("w/rom.smc"), Path::new("w/fake.smc"), bases);
    sx::check(r.is_ok(), "C23:accepted");
    let f = sx::get("w/fake.smc").unwrap_or_default();
    sx::check(f.len() == size, "C23:length");
    sx::assume(f.len() == size);
    let mut keep = vec![false; size];
    for k in 0..3 {
        for o in [0, 4, 8].iter() { keep[pc(bases[k] + o)] = true; }
        let mut at = b[k].at;
        for (_, l) in &b[k].pre { for i in 0..4 { keep[at + i] = true; } at += 4 + l; }
        for i in 0..4 { keep[at + i] = true; }
        for i in 0..4 { keep[b[k].overflow() - 4 + i] = true; keep[b[k].end() - 4 + i] = b[k].l2 > 0 || keep[b[k].end() - 4 + i]; }
    }
    for i in 0..size {
        if keep[i] { sx::check(f[i] == rom[i], "C23:structure-kept"); } else { sx::check(f[i] == 0, "C23:content-gone"); }
    }
    same_bytes(&sx::get("w/rom.smc").unwrap_or_default(), &rom, "C23:input-untouched");
    sx::mark("end");
}

/// Writes that fail, are cut short or interrupted: the whole output or an error.
#[no_mangle]
pub extern "C" fn e_faults() {
    let bases = [0x10, 0x11, 0x12];
    let (rom, _) = small(&bases, 3);
    let what = sx::param("what", 0);
    let song = want(&[2, 1], 1, 0, true, Some("a"));
    let songs: Vec<Vec<Want>> = (0..3).map(|k| vec![want(&[1], 0, 0, true, Some(["a", "b", "c"][k]))]).collect();
    let run = |out: &str| -> bool {
        match what {
            0 => write(&rom, bases, &songs),
            1 => { sx::dir("w"); song.song().write_to_json(Path::new(out)).is_ok() }
            _ => { sx::dir("w"); sx::put("w/rom.smc", &rom); midi2spc::rom::gen_fake_rom(Path::new("w/rom.smc"), Path::new(out), bases).is_ok() }
        }
    };
    let f = if what == 0 { "w/rom.smc" } else { "w/good" };
    sx::check(run("w/good"), "C19:works-without-faults");
    let good = sx::get(f).unwrap_or_default();
    let mode = sx::choose("mode", 1, 5);
    let nth = sx::choose("nth", 0, sx::param("nth", 3));
    let amount = if mode == 2 || mode == 4 { 0 } else { sx::choose("amount", if mode == 5 { 1 } else { 0 }, sx::param("amount", 9)) };
    let f = if what == 0 { "w/rom.smc" } else { "w/out" };
    FAULT.with(|x| x.set((mode, nth, amount)));
    if what > 0 { sx::fault(mode, nth, amount); }
    let ok = if what == 0 { write_faulty(&rom, bases, &songs) } else { run("w/out") };
    sx::fault(0, 0, 0);
    if ok { sx::mark("ok"); same_bytes(&sx::get(f).unwrap_or_default(), &good, "C19:complete"); } else { sx::mark("reported"); }
    sx::mark("end");
}

thread_local! { static FAULT: std::cell::Cell<(u64, u64, u64)> = std::cell::Cell::new((0, 0, 0)); }

fn write_faulty(rom: &[u8], bases: [u32; 3], songs: &[Vec<Want>]) -> bool {
    sx::put("w/rom.smc", rom);
    let conv = |p: &Path, _f: f32| -> Result<Song, failure::Error> { Ok(songs.iter().flat_map(|b| b.iter()).find(|w| w.path.as_ref().map(|s| s.as_str()) == p.to_str()).unwrap().song()) };
    let f = FAULT.with(|x| x.get());
    sx::fault(f.0, f.1, f.2);
    midi2spc::rom::write(&manifest(songs), Path::new("w/rom.smc"), bases, &conv, sx::param("verbose", 0) == 1).is_ok()
}
