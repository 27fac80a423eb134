#![allow(dead_code)]
mod exp;
mod mid;
mod spc;
mod sx;
mod val;
mod e_note;
mod e_song;
mod e_ctl;
mod e_chan;
mod rom;
mod e_rom;
mod e_app;
mod e_more;
mod e_cli;

type Entry = (&'static str, extern "C" fn());
static ENTRIES: &[Entry] = &[
    ("e_melody", e_note::e_melody), ("e_long", e_note::e_long), ("e_edges", e_note::e_edges), ("e_drift", e_note::e_drift),
    ("e_perc", e_ctl::e_perc), ("e_tempo", e_ctl::e_tempo), ("e_porta", e_ctl::e_porta),
    ("e_stream", e_song::e_stream), ("e_json", e_song::e_json), ("e_loops", e_song::e_loops),
    ("e_rom", e_rom::e_rom), ("e_place", e_rom::e_place), ("e_arranged", e_rom::e_arranged), ("e_outside", e_rom::e_outside), ("e_fails", e_rom::e_fails), ("e_anyrom", e_rom::e_anyrom), ("e_badrom", e_rom::e_badrom), ("e_fake", e_rom::e_fake), ("e_faults", e_rom::e_faults),
    ("e_manifest", e_app::e_manifest), ("e_incomplete", e_app::e_incomplete), ("e_build", e_app::e_build), ("e_single", e_app::e_single), ("e_order", e_app::e_order), ("e_badmidi", e_app::e_badmidi), ("e_parts", e_app::e_parts), ("e_badjson", e_app::e_badjson),
    ("e_cli", e_cli::e_cli), ("e_verbose", e_more::e_verbose), ("e_noise", e_more::e_noise), ("e_layout", e_more::e_layout),
    ("e_channels", e_chan::e_channels), ("e_chord", e_chan::e_chord), ("e_turns", e_chan::e_turns), ("e_handover", e_chan::e_handover), ("e_relay", e_chan::e_relay), ("e_many", e_chan::e_many),
];

#[cfg(not(feature = "native"))]
fn main() {
    let n = std::env::args().nth(1).unwrap_or_default();
    for e in ENTRIES { if e.0 == n { (e.1)(); } }
}

/// harness ENTRY REPLAY LOG: the replay file has lines "P name value" (parameters) and "I name value" (inputs, in order)
#[cfg(feature = "native")]
fn main() -> std::process::ExitCode {
    if std::env::var_os("SX_CLI").is_some() { return cli::cli(); }
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[2]).expect("replay file");
    {
        let mut r = sx::RT.lock().unwrap();
        for l in t.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] { "P" => r.params.push((f[1].to_string(), f[2].parse().unwrap())), "I" => r.inputs.push((f[1].to_string(), f[2].parse().unwrap())), _ => () }
        }
    }
    sx::set_log(&a[3]);
    sx::install_hook();
    let e = ENTRIES.iter().find(|e| e.0 == a[1]).expect("entry");
    (e.1)();
    sx::emit("END done");
    std::process::ExitCode::SUCCESS
}
