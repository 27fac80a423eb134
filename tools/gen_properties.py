#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})
S = "src/"
ROMOBS = ["bytes of the ROM file after the command returns"]
MIDIOBS = ROMOBS + ["JSON written by midi2json"]

prop("C01", "Every emitted track is a well-formed N-SPC byte stream",
 "For every accepted MIDI file, each track written to the ROM decodes unambiguously as N-SPC sequence data: note lengths are 0x01-0x7F, velocity/gate bytes are below 0x80 and directly follow a length, notes are 0x80-0xC7, every command has its full argument list, and the stream ends with exactly one terminator inside its allotted space.  No MIDI value (pitch, velocity, timing, controller) may leak into the stream as a different kind of byte.",
 ["inputs"], "all note numbers, velocities, controller values and event timings",
 "the tests only build ROMs from well-behaved sample songs and never decode what was written",
 [S+"nspc/command.rs", S+"nspc/track.rs", S+"nspc/mod.rs"],
 [("command encoding", S+"nspc/command.rs Command::write"), ("length/velocity prefix", S+"nspc/command.rs ParameterizedCommand::write"), ("preamble and terminator", S+"nspc/mod.rs Song::write_track")], ROMOBS)

prop("C02", "Notes keep pitch, order, onset and length on the 24-per-beat grid",
 "For every accepted MIDI file, playing the converted song sounds exactly the notes of the MIDI file that have positive length, each at its own pitch, starting within one grid step (1/24 beat) of its MIDI onset whenever its predecessor on the same voice has ended by then and lasting its length rounded up to the grid; timing errors never accumulate along a voice.",
 ["inputs"], "all event times, lengths, pitches and tick resolutions divisible by 24",
 "the tests assert nothing about the notes of a converted song",
 [S+"nspc/track.rs", S+"midi/mod.rs"],
 [("grid quantisation", S+"nspc/track.rs Track::get_duration"), ("rest insertion", S+"nspc/track.rs Track::insert_rest"), ("note emission", S+"nspc/track.rs Track::new")], MIDIOBS)

def q(id, title, statement, text, why, files, mech, over=("inputs",), observe=ROMOBS):
    prop(id, title, statement, list(over), text, why, [S+f for f in files], [(n, S+w) for n, w in mech], observe)

q("C03", "Long notes and long silences keep their exact total length",
 "A note or silence longer than one N-SPC length byte can hold (more than 127 steps, including more than 255 times 127 steps) is emitted as a note or rest followed by ties or rests whose lengths add up to exactly the quantised length, no single step being 0 or above 0x7F; what follows it starts where it should.",
 "all note and rest lengths up to 38200 steps", "the tests contain no such lengths and never add the emitted lengths up",
 ["nspc/track.rs", "nspc/command.rs"], [("overflow splitting", "nspc/track.rs Track::get_duration, overflow commands"), ("rests", "nspc/track.rs Track::insert_rest")], observe=MIDIOBS)
q("C04", "Merging a note with the rest after it keeps time and sounding length",
 "When the converter shows a note of D steps followed by R steps of silence as one note of D+R steps with a gate, the total is at most 0x7F, the gate is min(7, 8D/(D+R)) and either that division is exact or D > 16R; every note that is not merged sounds for its full length (gate 7). Merging never moves or removes a later event, and a note that spans several steps is never merged.",
 "all note lengths and silences after them", "tests cover two fixed pairs of set_sustain",
 ["nspc/command.rs", "nspc/track.rs"], [("merging", "nspc/command.rs ParameterizedCommand::set_sustain"), ("decision", "nspc/track.rs Track::new")], observe=MIDIOBS)
q("C05", "Every note sounds exactly once, on some voice that is free",
 "For every accepted MIDI file with any arrangement of channels, chords and overlaps that needs at most eight voices, every note of positive length is played on exactly one of the eight voices with its pitch, start, length and velocity, no voice plays two notes at once, and the voices play nothing else; notes that are retriggered, released by velocity 0, released without having been started or never released are handled as MIDI says (a never released note lasts to the song's end). A file that needs more than eight voices at a time is refused, without a long search, with an error saying that it does not fit, not shortened or mixed up. Each channel keeps a voice for itself; the voices left are free for any channel's further notes from the very time they are released, and a file is refused for want of a voice only.",
 "all arrangements of note events in time over channels within the bounds", "the number of interleavings of note starts and ends over channels is beyond sampling, and the tests only convert well-behaved songs",
 ["midi/mod.rs"], [("intervals", "midi/mod.rs MidiHandler::read"), ("base voices", "midi/mod.rs MidiHandler::find_base_voices"), ("allocation", "midi/mod.rs MidiHandler::channels_to_voices")], ("inputs", "schedules"), MIDIOBS)
q("C06", "Each note plays with its own channel's instrument at the time it starts",
 "Every note is heard with the instrument its MIDI channel's latest program change at or before the note's start selects (through the instrument map), whatever other channels or earlier notes used the same voice; a program change while a note sounds takes effect for later notes and does not disturb the sounding one or another channel.",
 "all interleavings of notes and program changes, and all programs", "needs specific interleavings of two channels on one voice",
 ["midi/mod.rs", "nspc/track.rs", "nspc/instruments.rs"], [("re-sending programs", "midi/mod.rs MidiHandler::channels_to_voices"), ("SetInstrument", "nspc/track.rs Track::new"), ("instrument map", "nspc/instruments.rs INSTRUMENT_MAP")], ("inputs", "schedules"), MIDIOBS)
q("C07", "Each note plays at its own channel's volume",
 "Every note is heard at twice the MIDI volume (controller 7) that its own channel has at some time between the note's start and its end (0xC8 if the channel's volume was never set), whatever other channels or earlier notes used the same voice; the volume in force at a note's start is never that of another channel.",
 "all interleavings of notes and volume changes, and all volumes", "needs specific interleavings of two channels on one voice",
 ["midi/mod.rs", "nspc/track.rs"], [("re-sending volumes", "midi/mod.rs MidiHandler::channels_to_voices"), ("ChannelVolume", "nspc/track.rs Track::new")], ("inputs", "schedules"), MIDIOBS)
q("C08", "Percussion notes use the percussion instruments and disturb no melodic note",
 "Notes on MIDI channel 10 (index 9) with note number 38 or 40 play the snare instrument (19) at the snare pitch (MIDI note 68), all others the cymbal instrument (12) at their own pitch, whatever the channel's program; each starts and ends at its time, and melodic notes that follow on the same voice get their own instrument back.",
 "all drum notes, programs and interleavings with a melodic channel", "the tests assert nothing about percussion",
 ["midi/mod.rs", "nspc/track.rs", "nspc/instruments.rs"], [("percussion mapping", "midi/mod.rs MidiHandler::channels_to_voices"), ("instruments", "nspc/track.rs Track::new")], ("inputs", "schedules"), MIDIOBS)
q("C09", "Every tempo change is emitted once, on time, with the right value",
 "Each MIDI tempo change becomes exactly one Tempo command, on the first voice only, in order, at the grid step of its time (later only as far as a note that was rounded up holds the voice up), with the value beats-per-minute times the song's tempo factor, rounded, and kept within 1 to 255; it changes no note's time.",
 "all microseconds-per-beat values by byte, change times and factors 0.2, 0.25, 1 and 0.001", "the tests assert nothing about tempo",
 ["nspc/track.rs", "midi/mod.rs"], [("tempo conversion", "nspc/track.rs Track::new SetTempo")], observe=MIDIOBS)
q("C10", "Portamento slides exactly the notes it should",
 "A note slides if and only if its own channel's portamento switch (controller 65, 64 or more is on) is on when it starts and it directly follows another note on its voice: the earlier note is then tied through the later one's length, with one pitch slide to the later note's pitch that ends where the earlier note's own length ends, its time being controller 5 and 37's value converted to steps and kept in 1 to 0x7F. Other notes start anew with no slide.",
 "all pitches, times, switch and portamento time values", "the tests assert nothing about portamento",
 ["nspc/track.rs", "nspc/command.rs"], [("portamento state", "nspc/track.rs Track::new ControlChange"), ("slide", "nspc/command.rs ParameterizedCommand::create_pitch_slide")], observe=MIDIOBS)
q("C11", "Note dynamics follow MIDI velocity",
 "Every note is played at velocity level max(1, velocity/8), for its own MIDI velocity, with a gate of 1 to 7; no velocity makes a note silent or is taken from another note.",
 "all velocities 1-127 of consecutive notes", "the tests assert nothing about velocities",
 ["nspc/track.rs", "nspc/command.rs"], [("velocity", "nspc/track.rs Track::new"), ("encoding", "nspc/command.rs ParameterizedCommand::write")], observe=MIDIOBS)
q("C12", "Loop optimisation does not change what is played",
 "For every song, the sequence of notes, rests, ties and commands the driver executes, with the length, velocity and gate in force at each, is the same whether loops were optimised or not (--skip_optimization); without optimisation there are no loops. This holds for songs on several voices, for repeats of more than 255 times, and for fragments of notes, rests, slides, instrument and volume changes.",
 "all sequences of fragments within the bounds, all pitches and lengths of the fragments", "the suffix-tree search's behaviour depends on the combinatorics of repeated fragments; tests check a few fixed sequences",
 ["nspc/seqtree.rs", "nspc/track.rs", "nspc/mod.rs"], [("repeat search", "nspc/seqtree.rs SeqTree"), ("replacement", "nspc/mod.rs Song::optimize_call_loops, extract_sequence"), ("state after loops", "nspc/track.rs Track::write")], observe=MIDIOBS)
q("C13", "Loop calls are structurally valid",
 "Every loop call refers to an existing track of the same song, is repeated 1 to 255 times, and calls a track that contains no loop call itself and ends with a terminator of its own without a preamble.",
 "all songs within the bounds", "tests check the search on fixed sequences, not the songs it leads to",
 ["nspc/seqtree.rs", "nspc/mod.rs", "nspc/command.rs"], [("loop targets", "nspc/mod.rs Song::optimize_call_loops, extract_sequence"), ("encoding", "nspc/command.rs Command::write CallLoop")], observe=MIDIOBS)
q("C14", "All voices last as long as the song",
 "Every voice of a converted song lasts until its own last note's end or the time of the song's last MIDI event, whichever is later (rounded to the grid), so that a looping song restarts with all its voices together.",
 "all event times within the bounds", "the tests assert nothing about lengths",
 ["midi/mod.rs", "nspc/track.rs"], [("song length", "midi/mod.rs MidiHandler::read max_time"), ("final rest", "nspc/track.rs Track::new")], observe=MIDIOBS)
q("C15", "Every pointer written to the ROM leads to what it should",
 "After a successful write, each song's entry in its bank's song table points to the song's header, which lists its part and then loops back to it or stops as the song's loop flag says; the part's eight voice addresses point to the voices' data (0 for unused voices), loop calls to their tracks, wherever they were placed (the base chunk or the overflow chunk); all data decodes to what was to be written, no two pieces overlap, none lies in a table or outside its chunk, and entries that are not written keep their values.",
 "all song counts, shapes, chunk sizes and chunk addresses within the bounds, all ROM contents", "the tests write full ROMs and check only that it succeeds",
 ["rom/mod.rs", "nspc/mod.rs"], [("song tables", "rom/mod.rs write_bank"), ("data placement", "rom/mod.rs write_bank and nspc/mod.rs Song::write_*")])
q("C16", "Nothing outside the song data changes",
 "Writing songs changes no byte of the ROM outside the song tables, the D000 chunk's song data and the overflow chunk of the three banks; chunk headers, other chunks, pointers and the ROM's length stay as they were, and other input files are never written.",
 "all ROM contents, chunk sizes and placements within the bounds", "the tests compare nothing",
 ["rom/mod.rs"], [("bounds of chunks", "rom/mod.rs write")])
q("C17", "Song data fills both chunks exactly to their ends, or is rejected",
 "Song data that fits into the base chunk and, track by track, into the overflow chunk is accepted and written, up to the last byte of each chunk; data for which there is no room is rejected with an error. It is never cut off, written past a chunk's end or rejected although it fits.",
 "all base and overflow chunk sizes around what is needed", "off-by-one sizes of two chunks need exact placement",
 ["rom/mod.rs"], [("room checks", "rom/mod.rs base and overflow chunk bounds")])
q("C18", "A command that fails leaves the ROM as it was",
 "If any song cannot be converted or does not fit, a bank address is wrong or the manifest is incomplete, the command reports an error and the ROM file is unchanged, byte for byte; it is written only after everything has succeeded.",
 "all positions of the failing song, all sizes for which data does not fit, all ROM contents", "tests never look at the file after an error",
 ["rom/mod.rs", "lib.rs"], [("write at the end", "rom/mod.rs write"), ("error propagation", "lib.rs build_rom")], ("inputs", "fault_sequences"))
q("C19", "A failing or short write is reported or completed, never silently lost",
 "When writing the output (ROM, JSON song or dummy ROM) fails, is interrupted, accepts only part of the data or finds no space, at any write, the command either still leaves the complete correct output or returns an error; it never reports success with an incomplete file.",
 "every fault (error, short write, interruption, no space) at every one of the first writes", "tests run without faults",
 ["rom/mod.rs", "nspc/mod.rs"], [("ROM output", "rom/mod.rs write"), ("JSON output", "nspc/mod.rs Song::write_to_json"), ("dummy ROM", "rom/mod.rs gen_fake_rom")], ("fault_sequences", "inputs"))
q("C20", "The manifest puts each song in its slot with its tempo and loop flag",
 "Each of the manifest's 34 named songs is written to its own slot of its own bank, whatever the order in the file; inputs are taken relative to the manifest's directory unless absolute; tempoAdjust (default 0.2) scales the song's tempo and loop (default true) decides whether it repeats; inputs whose extension is mid are read as MIDI, all others as JSON songs; a missing song or input is an error.",
 "all slots, loop flags, tempo adjustments by digit, kinds of path", "tests build a few manifests and check that it succeeds",
 ["manifest/mod.rs", "lib.rs"], [("manifest", "manifest/mod.rs Manifest::new"), ("conversion", "lib.rs converter")])
q("C21", "A song survives the round trip through JSON",
 "Writing any song to JSON and reading it back gives a song that encodes to the same bytes, for every kind of command, with every argument, length, velocity and gate, and for loops.",
 "all 30 kinds of command with all argument values", "the tests round-trip no song",
 ["nspc/mod.rs", "nspc/command.rs"], [("writing", "nspc/mod.rs Song::write_to_json"), ("reading", "nspc/mod.rs Song::from_json"), ("derives", "nspc/command.rs Command")], observe=["JSON written by midi2json"])
q("C22", "all_overworld and file_select write the song to just the slots they should",
 "all_overworld writes the given song, looping, to every slot of all three banks; file_select writes it, looping, to the file selection screen's slot and leaves all other slots with a silent song; both read MIDI and JSON inputs and use the default tempo adjustment.",
 "all pitches and tempos of the input", "tests check that it succeeds",
 ["rom/mod.rs", "lib.rs"], [("manifests", "rom/mod.rs write_all_overworld, write_file_select")])
q("C23", "gen_fake_rom keeps the structure and drops all content",
 "The dummy ROM has the size of the real one, the bank pointers and the headers of the chunks up to the song data and its overflow chunk at their places, and zero everywhere else; the real ROM is not changed, and an output file that existed is replaced completely.",
 "all ROM contents, chunk sizes and placements within the bounds", "tests do not compare the output",
 ["rom/mod.rs"], [("copying structure", "rom/mod.rs gen_fake_rom")])
q("C24", "Bank addresses are read and mapped right, and wrong ones refused",
 "A bank address's three pointer bytes (at +0, +4 and +8) are found at the ROM offsets its LoROM address maps to, mirrored or not, in any 32 KB bank; the SNES address in them is mapped the same way and the chain of chunks there followed past chunks for other audio RAM addresses; an address whose bytes lie outside the ROM is refused with an error.",
 "all bank addresses, placements of banks across 32 KB boundaries, foreign chunks", "tests use the three default addresses only",
 ["rom/mod.rs"], [("LoROM mapping", "rom/mod.rs snes_to_pc_addr, read_bank_addr"), ("chunk search", "rom/mod.rs Chunk::load, write_bank")])
q("C25", "A malformed or unsupported MIDI file gives an error or a song, never a crash",
 "A MIDI file of a format other than 1, with an unsupported division, with data bytes above 0x7F, a tempo event of the wrong size, too much time to count, cut short anywhere or with arbitrary bytes in place of events never makes a command panic or hang: an unsupported header, a data byte above 0x7F, a wrong tempo event or too much time is an error, and whatever is accepted is converted to a well-formed song.",
 "all header fields, truncations, short arbitrary event data", "tests read only valid files",
 ["midi/mod.rs"], [("validation", "midi/mod.rs MidiHandler::read")])
q("C26", "The output does not depend on hash map iteration order",
 "Converting the same MIDI file gives the same bytes every time, whatever order the hash maps used during conversion iterate in.",
 "all iteration orders of the hash maps", "each test run sees one order",
 ["midi/mod.rs", "nspc/mod.rs"], [("active notes", "midi/mod.rs MidiHandler::channels_to_voices")], ("schedules", "inputs"), MIDIOBS)
q("C27", "Malformed JSON songs and manifests give an error, never a crash or a broken song",
 "A JSON song or manifest that is cut short, has any byte replaced, refers to tracks that do not exist or lacks a song or input either gives an error or a song that can be written (at most eight voices, existing tracks, valid loop targets); it never panics.",
 "every byte of three songs replaced by every other, every truncation, every song of the manifest", "tests read only valid files",
 ["nspc/mod.rs", "manifest/mod.rs"], [("song validation", "nspc/mod.rs Song::from_json"), ("manifest", "manifest/mod.rs Manifest::new")])
q("C28", "A malformed ROM gives an error or is handled, never a crash",
 "A ROM that is too short, has pointers, chunk lengths or chunk addresses of any value, or lacks song data makes the command return an error, or be written within its bounds; it never panics, hangs or changes length, and is unchanged after an error.",
 "all small ROMs, all values of every pointer and length, all truncations", "tests use two ROMs",
 ["rom/mod.rs"], [("bounds checks", "rom/mod.rs Chunk::load, read_bank_addr, write_bank")])
q("C29", "MIDI events the driver has no use for change nothing",
 "Polyphonic and channel pressure, pitch bends, controllers other than 5, 7, 37 and 65, system exclusive events, texts, markers, key and time signatures and other meta events than tempo, releases of notes that aren't sounding, and program changes of the percussion channel, wherever they stand before the song's end and whatever their data and channel, neither change what the song plays nor the number of its voices.",
 "all data bytes and times of one such event of any kind", "the test files contain few such events and their output is not looked at",
 ["midi/mod.rs", "nspc/track.rs"], [("events read", "midi/mod.rs MidiHandler, MidiReader handlers"), ("events used", "nspc/track.rs Track::new")], observe=MIDIOBS)
q("C30", "How events are spread over tracks makes no difference",
 "What the song plays on each voice is the same whether a MIDI file has each channel in a track of its own, all channels and tempo changes in one track, or any other arrangement, order or number of tracks, also empty ones.",
 "all times of the notes, five arrangements of tracks", "each test file has one arrangement",
 ["midi/mod.rs"], [("merging of tracks", "midi/mod.rs MidiHandler::read, channels_to_voices")], observe=MIDIOBS)
q("C31", "Verbose output changes nothing but the output",
 "With verbose output (-v) songs, ROMs and refusals are byte for byte what they are without it, and no input that is accepted without it makes the program crash with it.",
 "all scenarios' inputs within the bounds", "no test looks at output files with and without",
 ["midi/mod.rs", "nspc/mod.rs", "rom/mod.rs"], [("verbose", "midi/mod.rs MidiHandler::read, nspc/mod.rs Song::from_midi, rom/mod.rs write_bank")])
q("C32", "The command line runs the command it names, with its options, on its files",
 "Run as a program, midi2spc executes the subcommand given (build_rom, all_overworld, file_select, midi2json, gen_fake_rom, dump_midi) with the input and output given, at the default bank addresses or at the three hexadecimal ones after --bank_addrs, with loop optimisation unless -s or --skip_optimization is there; midi2json uses the default tempo adjustment. It exits with 0 after success; an input that doesn't exist (for all but dump_midi) or an address that isn't hexadecimal gives an exit code other than 0 and changes no file.",
 "all forms of the options, every character as a digit of an address, all commands", "the tests call the library and never run the program",
 ["main.rs", "lib.rs"], [("arguments", "main.rs main"), ("dispatch", "lib.rs run"), ("addresses", "lib.rs read_bank_addrs")])
q("C33", "Building the same songs again changes nothing",
 "A ROM that build_rom, all_overworld or file_select has written is a ROM they accept: building the same songs into it once more succeeds and leaves it byte for byte as it is.",
 "all sizes of the chunks within the bounds, all contents of the ROM", "the tests build into a fresh ROM once",
 ["rom/mod.rs"], [("reading the structure", "rom/mod.rs"), ("writing", "rom/mod.rs write_bank")])
q("C34", "A dummy ROM takes the same songs in the same way as the real one",
 "Building songs into the dummy that gen_fake_rom makes of a ROM succeeds if and only if building them into the ROM itself does, and writes the same bytes to the same places.",
 "all sizes of the chunks within the bounds, all contents of the ROM", "the tests use a dummy, and never the ROM it stands for",
 ["rom/mod.rs"], [("dummy", "rom/mod.rs gen_fake_rom"), ("writing", "rom/mod.rs write_bank")])
json_out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
if __name__ == "__main__":
    with open(json_out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
