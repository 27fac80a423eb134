"""Which symbolic scenarios decide which property, with their bounds."""
ASSUMPTIONS = [
 "the LLVM IR rustc emits for the harness build (debug assertions and overflow checks on) means what rustc's native code does; sampled paths and every counterexample are re-run on the native build",
 "the operating system's file calls behave as the executor's in-memory file system does",
 "a HashMap's hasher may return any value (modelled as constant, or as arbitrary where a scenario says so)",
]
Q, T = "quick", "thorough"
ALL = {}
USE = {}
def sc(name, entry, bounds, props, params=None, tier=Q, reach=("end",), **kw):
    """props: {property: [assertion id prefixes]} (an empty list: every assertion)"""
    assert name not in ALL, name
    ALL[name] = dict(name=name, entry=entry, bounds=bounds, params=params or {}, reach=list(reach), tier=tier, **kw)
    for p, o in props.items(): USE.setdefault(p, []).append((name, o))

def for_property(prop, tier):
    r = []
    for n, only in USE[prop]:
        s = dict(ALL[n])
        if tier == Q and s["tier"] == T: continue
        s["only"] = list(only)
        r.append(s)
    return r


NOTES = {"C01": ["C01", "C02:readable"], "C02": ["C01", "C02", "C05:note", "C05:each"], "C04": ["C04", "C02"], "C11": ["C11", "C02:note-count", "C02:accepted", "C01"], "C14": ["C14", "C02"]}
def notes(*ps): return {p: NOTES[p] for p in ps}

# --- notes on one voice -------------------------------------------------------------------------------------------
sc("melody2", "e_melody", "2 notes on one channel, 96 ticks per beat, every gap 0-127 and length 1-127 ticks, every pitch 24-95 and velocity 8-127",
   notes("C01", "C02", "C04", "C11", "C14"), dict(notes=2, maxt=127, tpb=96), cost=8)
sc("melody2-wide", "e_melody", "2 notes, 96 ticks per beat, every gap 0-900 and length 1-900 ticks: notes and rests of one step and of two, every pitch and velocity",
   {**notes("C02", "C04"), "C03": ["C02", "C04"]}, dict(notes=2, maxt=900, tpb=96, vlo=8), cost=40, tier=T)
sc("melody3", "e_melody", "3 notes, 24 ticks per beat, every gap 0-47 and length 1-47", notes("C02", "C14"), dict(notes=3, maxt=47, tpb=24), cost=30)
sc("melody3-gates", "e_melody", "3 notes of one pitch and velocity, every gap 0-19 and length 1-19 steps", notes("C04"), dict(notes=3, maxt=19, tpb=24, vlo=127, plo=60, phi=60), cost=15)
sc("melody3-velocities", "e_melody", "3 notes of any pitch and velocity, every gap 0-47 and length 1-47 steps", notes("C04"), dict(notes=3, maxt=47, tpb=24), cost=30, tier=T)
sc("melody3-fine", "e_melody", "3 notes, 96 ticks per beat, every gap 0-63 and length 1-63 ticks", notes("C02", "C04", "C14"), dict(notes=3, maxt=63, tpb=96), cost=60, tier=T)
sc("melody4", "e_melody", "4 notes, 24 ticks per beat, every gap 0-15 and length 1-15", notes("C02", "C04", "C14"), dict(notes=4, maxt=15, tpb=24), cost=60, tier=T)
sc("melody-480", "e_melody", "1 note at 480 ticks per beat, every gap and length of up to 1023 ticks, song longer than its note", notes("C02", "C14"), dict(notes=1, maxt=1023, tpb=480, tail=1), cost=10)
sc("melody-dense", "e_melody", "3 notes at 480 ticks per beat, every gap 0-18 and length 1-18 ticks: several notes in one grid step", notes("C02"), dict(notes=3, maxt=18, tpb=480), cost=10)
sc("melody-anypitch", "e_melody", "2 notes of every pitch 0-127 and velocity 1-127, 48 ticks per beat, every gap and length of up to 7 ticks",
   notes("C01", "C02", "C11"), dict(notes=2, maxt=7, tpb=48, plo=0, phi=127, vlo=1), cost=3)
sc("melody-ch15", "e_melody", "2 notes on channel 15", notes("C02", "C11"), dict(notes=2, maxt=15, tpb=48, ch=15), cost=3)
sc("melody-tail", "e_melody", "2 notes, then an event, every gap and length of up to 31 ticks at 48 per beat", notes("C14"), dict(notes=2, maxt=31, tpb=48, tail=1), cost=8)
sc("melody-tail-gates", "e_melody", "the same for gates", notes("C04"), dict(notes=2, maxt=31, tpb=48, tail=1), cost=30, tier=T)
sc("melody-tail1", "e_melody", "1 note, then an event, every gap and length of up to 200 ticks at 96 per beat", notes("C14", "C04"), dict(notes=1, maxt=200, tpb=96, tail=1, vlo=8), cost=5)
sc("melody-tail24", "e_melody", "2 notes, then an event, every gap and length of up to 23 steps", notes("C04"), dict(notes=2, maxt=23, tpb=24, tail=1, vlo=8), cost=9)

LONG = {"C02": ["C03"], "C03": ["C03", "C04", "C01"], "C04": ["C04"], "C01": ["C01"]}
sc("long-note", "e_long", "one note of every length of 100 to 700 steps (96 ticks per beat), then another", LONG, dict(dur=100, wdur=600), cost=2)
sc("long-rest", "e_long", "one silence of every length of 100 to 700 steps", LONG, dict(gap=100, wgap=600, wdur=0, dur=3), cost=2)
sc("longest-note", "e_long", "one note of every length of 32300 to 32500 and of 38000 to 38200 steps, longer than 255 times 127", {"C03": LONG["C03"]}, dict(dur=32300, wdur=200), cost=4)
sc("longest-note2", "e_long", "one note of 38000 to 38200 steps", {"C03": LONG["C03"]}, dict(dur=38000, wdur=200), cost=4)
sc("longest-rest", "e_long", "one silence of 32300 to 32500 steps", {"C03": LONG["C03"]}, dict(gap=32300, wgap=200, wdur=0, dur=3), cost=4)
sc("long-both", "e_long", "a silence of 100 to 300 and a note of 240 to 400 steps", {"C03": LONG["C03"], "C04": LONG["C04"]}, dict(gap=100, wgap=200, dur=240, wdur=160), cost=10)
sc("long-24", "e_long", "one note of every length of 1 to 520 steps at 24 ticks per beat", LONG, dict(tpb=24, dur=1, wdur=520), cost=2)

EDGE = {"C02": ["C02", "C05"], "C05": ["C05", "C02"], "C04": ["C04"], "C14": ["C14", "C05:note-count"], "C11": ["C05", "C02"]}
sc("edges3", "e_edges", "3 note events on two pitches of a channel: starts, releases, velocity-0 releases in any order, every gap 0-23 ticks at 96 per beat, notes never released", {k: EDGE[k] for k in ("C02", "C05", "C14")}, dict(events=3, maxt=23), cost=30, reach=("end", "held", "empty"))
sc("edges3-wide", "e_edges", "3 note events as above, every gap 0-127 ticks", EDGE, dict(events=3, maxt=127), cost=40, tier=T)
sc("edges4", "e_edges", "4 note events (starts and releases), every gap 0-7 ticks", EDGE, dict(events=4, maxt=7, kinds=2), cost=200, tier=T)

DR = {"C02": ["C02"]}
for t in (96, 120, 384, 480):
    sc("drift-%d" % t, "e_drift", "60 equal notes an eighth apart at %d ticks per beat, of every length up to a third of a beat" % t, DR, dict(tpb=t, notes=60, hi=t // 3), cost=2 if t < 300 else 10, tier=Q if t < 300 else T)
for t in (100, 256):
    sc("drift-%d" % t, "e_drift", "60 equal notes an eighth apart at %d ticks per beat" % t, DR, dict(tpb=t, notes=60, hi=30), cost=1)

# --- several channels ---------------------------------------------------------------------------------------------
CH = {"C05": ["C05", "C01", "C02:accepted"], "C06": ["C06", "C05"], "C07": ["C07", "C05"], "C14": ["C14", "C05:note-count"]}
sc("channels2", "e_channels", "2 channels, 1 note each, every gap and length of up to 15 ticks at 96 per beat", CH, dict(), cost=6)
sc("channels3", "e_channels", "3 channels, 1 note each, on the grid, up to 7 steps", {"C05": CH["C05"], "C14": CH["C14"]}, dict(channels=3, grid=1, maxt=7), cost=10)
sc("channels21", "e_channels", "2 notes on one channel and 1 on another, on the grid, up to 7 steps", CH, dict(nn=12, grid=1, maxt=7), cost=12)
sc("prog1", "e_channels", "a note on each of 2 channels, one program change on the first: every program, every time on the grid up to 11 steps", {"C06": CH["C06"]}, dict(nn=11, np=1, grid=1, maxt=11), cost=4)
sc("prog11", "e_channels", "a note and a program change on each of 2 channels, on the grid up to 11 steps", {"C06": CH["C06"]}, dict(nn=11, np=11, grid=1, maxt=11), cost=8)
sc("prog2", "e_channels", "2 notes and 2 program changes on a channel", {"C06": CH["C06"]}, dict(nn=2, channels=1, np=2, grid=1, maxt=11), cost=6)
sc("prog3", "e_channels", "3 notes and 2 program changes on a channel, times of up to 5 steps", {"C06": CH["C06"]}, dict(nn=3, channels=1, np=2, grid=1, maxt=5), cost=2)
sc("vol3", "e_channels", "3 notes and 2 volume changes on a channel, times of up to 5 steps", {"C07": CH["C07"]}, dict(nn=3, channels=1, nv=2, grid=1, maxt=5), cost=2)
sc("many", "e_many", "12 notes on a channel, three program and three volume changes at one time, any of those times, any values", {"C06": CH["C06"], "C07": CH["C07"]}, dict(notes=30, times=3), cost=3)
sc("vol1", "e_channels", "a note on each of 2 channels, one volume change on the first: every value, every time on the grid up to 11 steps", {"C07": CH["C07"]}, dict(nn=11, nv=1, grid=1, maxt=11), cost=4)
sc("vol11", "e_channels", "a note and a volume change on each of 2 channels", {"C07": CH["C07"]}, dict(nn=11, nv=11, grid=1, maxt=11), cost=8)
sc("vol2", "e_channels", "2 notes and 2 volume changes on a channel", {"C07": CH["C07"]}, dict(nn=2, channels=1, nv=2, grid=1, maxt=11), cost=6)
sc("progvol", "e_channels", "2 channels, 2 notes and 1, a program change on one and a volume change on the other", {"C06": CH["C06"], "C07": CH["C07"]}, dict(nn=12, np=1, nv=10, grid=1, maxt=7), cost=60, tier=T)
sc("prog21", "e_channels", "2 notes on each of 2 channels and a program change on each", {"C06": CH["C06"]}, dict(nn=22, np=11, grid=1, maxt=4), cost=100, tier=T)
sc("vol21", "e_channels", "2 notes on each of 2 channels and a volume change on each", {"C07": CH["C07"]}, dict(nn=22, nv=11, grid=1, maxt=4), cost=100, tier=T)
sc("chord8", "e_chord", "a chord of 8 notes on a channel, two of any length of up to 15 ticks", {"C05": CH["C05"], "C14": CH["C14"]}, dict(), cost=1)
sc("chord8-tail", "e_chord", "a chord of 8 notes, then an event, any such times", {"C14": CH["C14"]}, dict(tail=1), cost=1)
sc("chord7-lead", "e_chord", "a chord of 7 notes on a channel whose first note overlapped with another channel's, of any length", {"C05": CH["C05"]}, dict(lead=1, firstch=1, symbolic=1, notes=7), cost=1)
sc("chord9", "e_chord", "a chord of 9 notes on one channel is refused", {"C05": ["C05"]}, dict(notes=9, refused=1), cost=1)
sc("chord3x3", "e_chord", "chords of 3 notes on 3 channels at once are refused", {"C05": ["C05"]}, dict(channels=3, notes=3, refused=1), cost=1)
sc("chord2x4", "e_chord", "chords of 4 notes on 2 channels, two of each of any length", {"C05": CH["C05"]}, dict(channels=2, notes=4), cost=4)
sc("chord-stagger", "e_chord", "4 notes of a channel starting one after the other, two of any length", {"C05": CH["C05"]}, dict(notes=4, stagger=3), cost=2)
FR = ("end", "fits", "refused")
sc("handover", "e_handover", "a chord of 7 on a channel, 2 of its notes released at any time of up to 15 ticks; a note of another channel of any such length, and one that needs a voice, starting at any such time", {"C05": CH["C05"]}, dict(), cost=9, reach=FR)
sc("handover3", "e_handover", "the same on the grid with a chord of 6 and a third channel", {"C05": CH["C05"]}, dict(grid=1, third=1), cost=2, reach=FR)
sc("handover-other", "e_handover", "the same on the grid, the channels the other way round", {"C05": CH["C05"]}, dict(grid=1, full=0, other=1, before=1), cost=2, reach=FR)
for n, p, c, t in (("9", dict(all=1, channels=9), 1, Q), ("15", dict(all=1, channels=15), 2, Q), ("any9", dict(grid=1, channels=9), 13, Q), ("any12", dict(grid=1, channels=12), 30, T)):
    sc("turns-" + n, "e_turns", "%d channels, each a note of its own in turn; %s again, is released twice, or another pitch is released, at any time" % (p["channels"], "every one of them sounds" if "all" in p else "any one of them sounds"), {"C05": CH["C05"]}, p, cost=c, tier=t)
sc("relay", "e_relay", "8 channels holding a note, any one of which ends at any time of up to 15 ticks; a ninth channel's note that starts at any such time: played, or refused if there is no voice", {"C05": CH["C05"]}, dict(), cost=4, reach=FR)
sc("relay-before", "e_relay", "the same with the late channel before the others", {"C05": CH["C05"]}, dict(before=1), cost=4, reach=FR)
sc("crowd", "e_relay", "the same after 6 further channels that played in turn, 15 in all: refusing them takes no more than a moment", {"C05": CH["C05"]}, dict(turns=6, maxt=7, tpb=24, anyof=0), cost=3, reach=FR, budget=60_000_000, patience=10)
sc("relay2", "e_relay", "the same with two channels that end and two that start, at any time of up to 7 steps: 10 channels, of which some assignments to voices only work out if earlier ones are revised", {"C05": CH["C05"]}, dict(late=2, tpb=24, maxt=7), cost=9, reach=FR)
sc("relay2-before", "e_relay", "the same with the late channels before the others and two that aren't neighbours", {"C05": CH["C05"]}, dict(late=2, tpb=24, maxt=7, before=1, first=2, apart=3), cost=30, reach=FR, tier=T)
PERC = {"C08": ["C08", "C05", "C06", "C02", "C01"], "C06": ["C06", "C05"]}
sc("perc2", "e_perc", "2 notes, each percussion (any note number, a drum program or none) or melodic (any program), gaps of up to 7 steps", PERC, dict(grid=1, notes=2), cost=6)
sc("perc-zero", "e_perc", "2 notes, percussion (36-41) or melodic, released by starts of velocity 0", {"C08": PERC["C08"]}, dict(grid=1, notes=2, prog=0, dlo=36, dhi=41, zero=1), cost=3)
sc("perc3", "e_perc", "3 notes, percussion (37-41) or melodic", PERC, dict(grid=1, notes=3, dlo=37, dhi=41, prog=0), cost=10)
sc("perc-overlap", "e_perc", "2 notes, percussion or melodic, of different lengths, at times off the grid", {"C08": PERC["C08"]}, dict(notes=2, maxt=7, dlo=36, dhi=42, prog=0), cost=10)
sc("perc4", "e_perc", "4 notes, percussion (37-41) or melodic", PERC, dict(grid=1, notes=4, maxt=3, dlo=37, dhi=41, prog=0), cost=100, tier=T)

# --- tempo, portamento --------------------------------------------------------------------------------------------
TE = {"C09": ["C09", "C02:accepted", "C05", "C01"]}
for us, d in ((0, "most significant byte"), (1, "middle byte"), (2, "low byte, the others 0"), (3, "low byte")):
    sc("tempo-%s" % "hmlx"[us], "e_tempo", "one tempo change, its %s arbitrary, at any time of up to 31 ticks, with 2 voices" % d, TE, dict(us=us), cost=6)
sc("tempo-f1", "e_tempo", "one tempo change, factor 0.25", TE, dict(us=1, factor=1, grid=1), cost=2)
sc("tempo-f2", "e_tempo", "one tempo change, factor 1", TE, dict(us=1, factor=2, grid=1), cost=2)
sc("tempo-f3", "e_tempo", "one tempo change, factor 0.001", TE, dict(us=1, factor=3, grid=1), cost=2)
sc("tempo2", "e_tempo", "two tempo changes, on the grid", TE, dict(tempos=2, us=3, grid=1, maxt=15, othervoice=0), cost=3)
sc("tempo2n", "e_tempo", "a tempo change and two notes, at any times of up to 11 ticks", TE, dict(notes=2, us=3, maxt=11, othervoice=0), cost=30)
sc("tempo22", "e_tempo", "two tempo changes and two notes on the grid", TE, dict(tempos=2, notes=2, us=3, grid=1, maxt=15, othervoice=0), cost=60, tier=T)
PO = {"C10": ["C10", "C02:accepted", "C01"]}
sc("porta", "e_porta", "two notes of every pitch, portamento switch and time of every value, times of up to 31 ticks", PO, dict(), cost=6, reach=("end", "slides", "plain"))
sc("porta-hi", "e_porta", "as above, both bytes of the portamento time arbitrary, on the grid", PO, dict(hi=1, grid=1), cost=6, reach=("end", "slides", "plain"))
sc("porta-second", "e_porta", "the switch is set again between the notes", PO, dict(second=1, grid=1), cost=6, reach=("end", "slides", "plain"))
sc("porta-other", "e_porta", "the settings are another channel's, any but the percussion channel", PO, dict(owner=16, grid=1, maxt=7), cost=4, reach=("end", "plain"))
sc("porta-again", "e_porta", "switch and both bytes of the time are set twice, in either order, to anything", PO, dict(hi=1, grid=1, again=1, maxt=7), cost=6, reach=("end", "slides", "plain"))
sc("porta-third", "e_porta", "the switch is set before the second note, and is off for a third one that follows directly", PO, dict(second=1, third=1, grid=1, maxt=15), cost=6, reach=("end", "slides", "plain"))

# --- command streams, JSON, loops ---------------------------------------------------------------------------------
sc("stream1", "e_stream", "note, one command of any kind with arbitrary arguments, length, velocity and gate, note", {"C01": ["C01", "C21:buildable"], "C13": ["C13", "C01"]}, dict(commands=1), cost=2)
sc("stream2", "e_stream", "note, a note, rest, tie, loop call or instrument change, then a command of any kind, note; everything arbitrary", {"C01": ["C01", "C21:buildable"], "C13": ["C13", "C01"]}, dict(commands=2), cost=40)
sc("json", "e_json", "a song with a command of any of the 30 kinds, every argument arbitrary, with or without parameters", {"C21": ["C21"]}, dict(), cost=20)
LO = {"C12": ["C12", "C13", "C01", "C02:accepted"], "C13": ["C13", "C01", "C12"]}
LD = ["", ", rests between them", ", volume changes and rests", ", with portamento", ", program changes", ", long ones among them", ", long rests", ", some with portamento"]
for st, n, kw, q, c in ((0, 8, {}, Q, 8), (1, 6, dict(symlen=0), Q, 6), (1, 8, {}, T, 60), (2, 6, dict(symlen=0), Q, 8), (2, 7, dict(symlen=0), T, 60), (3, 6, {}, Q, 6), (4, 7, {}, Q, 8), (5, 5, dict(symlen=0), Q, 8), (5, 8, dict(symlen=0), T, 200), (6, 8, {}, Q, 8)):
    sc("loops-%d-%d%s" % (st, n, "" if kw else "s"), "e_loops", "%d notes, each one of two of arbitrary pitch%s%s" % (n, "" if kw else " and length", LD[st]), LO, dict(kw, style=st, notes=n), tier=q, cost=c, reach=("end",) if st == 3 else ("end", "loops"))
for st, n, pe, q, c in ((0, 24, 4, Q, 20), (0, 40, 5, T, 200), (1, 16, 3, Q, 10), (4, 16, 3, Q, 10), (7, 16, 3, Q, 10), (7, 24, 4, T, 60), (1, 24, 4, T, 60), (6, 24, 4, T, 60), (5, 12, 2, T, 60)):
    sc("period-%d-%d" % (st, n), "e_loops", "%d notes of two arbitrary pitches, repeating with period %d, any one of them changed%s" % (n, pe, LD[st]), LO, dict(style=st, notes=n, period=pe, symlen=0), tier=q, cost=c, reach=("end", "loops", "more-loops"))
sc("loops-2ch", "e_loops", "8 notes on each of 2 channels, repeating with period 2, one of them changed", LO, dict(channels=2, notes=8, period=2, symlen=0), cost=10, reach=("end", "loops"))
sc("loops-2ch-3", "e_loops", "12 notes on each of 2 channels, repeating with period 3, one of them changed", LO, dict(channels=2, notes=12, period=3, symlen=0), cost=60, tier=T, reach=("end", "loops", "more-loops"))
sc("loops-12", "e_loops", "12 notes, each one of two", LO, dict(notes=12, symlen=0), cost=200, tier=T, reach=("end", "loops", "more-loops"))
sc("loops-many", "e_loops", "300 times the same note of arbitrary pitch: more repeats than a loop can count", LO, dict(notes=300, pitches=1, symlen=0), cost=8, reach=("end", "loops"))

sc("arranged", "e_arranged", "songs of 3 tracks, any of which in any order make up the part, the others being loops of its last voice", {"C13": ["C13"], "C01": ["C13"]}, dict(), cost=1)
sc("arranged4", "e_arranged", "the same with 4 tracks", {"C13": ["C13"]}, dict(tracks=4, voices=4), cost=1)

# --- ROM ----------------------------------------------------------------------------------------------------------
RO = {"C15": ["C15", "C16:length"], "C16": ["C16", "C18:untouched", "C15"], "C17": ["C17", "C15", "C16", "C18"], "C18": ["C18", "C17:too-big-rejected", "C16"]}
def ro(*ps): return {p: RO[p] for p in ps}
WR = ("end", "written", "rejected")
sc("rom-base", "e_rom", "bank 0: two songs, its chunk 0 to 90 bytes longer than its tables need, overflow chunk of 60 bytes anywhere in the audio RAM; ROM bytes arbitrary", ro("C15", "C16", "C17", "C18"), dict(lo=0, hi=90, olo=60, ohi=60), cost=12, reach=WR)
sc("rom-over", "e_rom", "bank 0: two songs, tight chunk, overflow chunk of every length 0-110", ro("C15", "C16", "C17", "C18"), dict(lo=10, hi=10, olo=0, ohi=110), cost=10, reach=WR)
sc("rom-tight", "e_rom", "bank 0: two songs, chunk 64 to 80 bytes longer than its tables need, overflow chunk of 0 to 40 bytes: every way in which the second song just fits", ro("C17"), dict(lo=64, hi=80, olo=0, ohi=40), cost=8, reach=WR)
sc("again", "e_rom", "rom-base, and the same songs again into the ROM that was built", {"C33": ["C33"]}, dict(lo=0, hi=90, olo=60, ohi=60, again=1), cost=10, reach=WR)
sc("again-8voices", "e_rom", "the same with songs of eight voices, and an empty song", {"C33": ["C33"]}, dict(bank=1, shape=3, songs=2, lo=0, hi=100, olo=90, ohi=90, again=1), cost=8, reach=WR)
sc("dummy", "e_rom", "rom-base, for a ROM and the dummy made of it", {"C34": ["C34"]}, dict(lo=0, hi=90, olo=60, ohi=60, again=2), cost=10, reach=WR)
sc("dummy-over", "e_rom", "rom-over, for a ROM and the dummy made of it", {"C34": ["C34"]}, dict(lo=10, hi=10, olo=0, ohi=110, again=2), cost=10, reach=WR)
sc("rom-flags", "e_rom", "bank 1: songs looping or not, chunk 0 to 110 bytes longer than its tables need, overflow chunk of 30 bytes", ro("C15", "C16", "C17"), dict(bank=1, flags=1, lo=0, hi=110, olo=30, ohi=30), cost=60, tier=T, reach=WR)
sc("rom-3songs", "e_rom", "bank 2: three songs with a loop, a missing song, eight voices; chunk 0 to 100 bytes longer than needed", ro("C15", "C16", "C17"), dict(bank=2, shape=2, songs=3, olo=50, ohi=50), cost=14, reach=WR)
sc("rom-8voices", "e_rom", "bank 1: songs of eight voices, and an empty song; chunk 0 to 100 bytes longer than needed, overflow chunk of 0 to 20 or 90 bytes", ro("C15", "C17"), dict(bank=1, shape=3, songs=2, lo=0, hi=100, olo=90, ohi=90), cost=14, reach=WR)
sc("arranged-rom", "e_arranged", "such a song in a chunk of 0 to 80 bytes more than its tables need, with room in the next chunk", {"C15": RO["C15"]}, dict(rom=1), cost=18, reach=("end", "written"))
sc("rom-1", "e_rom", "bank 2: one song without loops", ro("C15", "C17"), dict(bank=2, shape=4, songs=1, lo=0, hi=60, olo=0, ohi=40), cost=30, tier=T, reach=WR)
sc("rom-both", "e_rom", "bank 0: two songs, chunk 0-60 bytes longer than needed, overflow chunk of 20-60 bytes", ro("C15", "C16", "C17", "C18"), dict(lo=0, hi=60, olo=20, ohi=60), cost=200, tier=T, reach=WR)
PL = {"C24": ["C24", "C15", "C16"], "C15": ["C15", "C24:accepted"], "C16": ["C16"]}
sc("place", "e_place", "three banks anywhere, one foreign chunk before the first bank's, pointer tables at the ROM's start or end, mirrored or not", PL, dict(pre=1, bank=0), cost=6)
sc("place2", "e_place", "two foreign chunks before the third bank's", PL, dict(pre=2, bank=2), cost=8)
sc("place-far", "e_place", "banks across the ROM's first 32 KB boundary", {"C24": PL["C24"], "C15": PL["C15"]}, dict(pre=1, far=1, maxpre=2), cost=30)
sc("outside", "e_outside", "any 32-bit bank address whose pointer isn't inside the ROM, for any of the banks", {"C24": ["C24", "C18"], "C18": ["C18"]}, dict(), cost=1)
sc("outside-fake", "e_outside", "the same for gen_fake_rom", {"C24": ["C24", "C18"]}, dict(fake=1), cost=1)
sc("fails", "e_fails", "six songs, any of which can't be converted", {"C18": ["C18"]}, dict(), cost=1)
sc("fails3", "e_fails", "nine songs, any of which can't be converted", {"C18": ["C18"]}, dict(songs=3), cost=2)
sc("anyrom", "e_anyrom", "every ROM of up to 12 arbitrary bytes", {"C28": ["C28"]}, dict(hi=12), cost=2, reach=("end", "refused"))
sc("anyrom-fake", "e_anyrom", "every ROM of up to 12 arbitrary bytes, gen_fake_rom", {"C28": ["C28", "C23:length"]}, dict(hi=12, fake=1), cost=4, reach=("end", "refused"))
sc("anyrom-16", "e_anyrom", "every ROM of 13 to 16 arbitrary bytes", {"C28": ["C28"]}, dict(lo=13, hi=16), cost=60, tier=T, reach=("end", "refused"))
for w, d, rc in ((0, "any pointer", ("end", "ok", "refused")), (1, "any pointer bank", ("end", "refused")), (2, "any chunk length", ("end", "refused")), (3, "any overflow chunk length", ("end", "ok", "refused")), (4, "no song data chunk", ("end", "refused")), (5, "a ROM of any smaller size", ("end", "refused"))):
    for f in (0, 1):
        if f and w in (1, 4): continue
        p = dict(what=w, fake=f)
        if w in (0, 2, 3, 5): p["fill"] = 0
        sc("badrom-%d%s" % (w, "-fake" if f else ""), "e_badrom", "a well-formed ROM but for %s%s" % (d, ", gen_fake_rom" if f else ""), {"C28": ["C28", "C23:length"]}, p, cost=16, tier=Q if not f or w in (2, 5) else T, reach=rc if not f else ("end",))
sc("fake", "e_fake", "gen_fake_rom: three banks, one with a foreign chunk, overflow chunk of 0-3 bytes, every ROM byte arbitrary, output file existing or not", {"C23": ["C23", "C24"]}, dict(), cost=2)
sc("fake2", "e_fake", "gen_fake_rom with two foreign chunks", {"C23": ["C23", "C24"]}, dict(pre=2), cost=8)
for w, d in enumerate(("the ROM", "a JSON song", "the dummy ROM")):
    sc("faults-%d" % w, "e_faults", "writing %s: any of its first writes fails, is short, is interrupted or finds no room" % d, {"C19": ["C19"]}, dict(what=w), cost=2, reach=("end", "ok", "reported"))

# --- commands -----------------------------------------------------------------------------------------------------
sc("manifest-few", "e_manifest", "each of the 34 songs with a tempo adjustment of 0.0-0.9 and loop true, false, missing or not a boolean", {"C20": ["C20"]}, dict(few=1), cost=6)
sc("manifest", "e_manifest", "songs 3 and 16 with any of four kinds of path, five kinds of tempo adjustment with an arbitrary digit, and loop flag", {"C20": ["C20"]}, dict(lo=3, hi=3), cost=3)
sc("manifest-all", "e_manifest", "every song with any of four kinds of path, five kinds of tempo adjustment with an arbitrary digit, and loop flag", {"C20": ["C20"]}, dict(), cost=60, tier=T)
sc("incomplete", "e_incomplete", "each of the 34 songs left out, without input, or of the wrong kind", {"C27": ["C27", "C18"], "C18": ["C18", "C27:incomplete"], "C20": ["C27:incomplete"]}, dict(), cost=4)
BU = {"C20": ["C20", "C15", "C16", "C21:reads"]}
for k, n in ((0, "the first"), (14, "the last of the first bank"), (33, "the last")):
    sc("build-%d" % k, "e_build", "build_rom with a MIDI file in %s slot, a JSON song in another, any pitch and tempo byte, three tempo adjustments, four file names" % n, dict(BU, C15=["C15"]) if k == 14 else BU, dict(lo=k, hi=k), cost=6)
sc("build-all", "e_build", "build_rom with a MIDI file in every slot", BU, dict(), cost=100, tier=T)
for a, n in ((1, "all_overworld"), (0, "file_select")):
    sc(n, "e_single", n + " with a MIDI or JSON song of arbitrary pitch and tempo", {"C22": ["C22", "C15", "C16"]}, dict(all=a), cost=4)
for m in (0, 2):
    sc("order%d" % m, "e_order", "a chord of 3, program, volume and portamento changes while it sounds, one of its notes held: any iteration order of hash maps", {"C26": ["C26"]}, dict(mode=3, notes=3, ch=m), cost=3)
sc("order-4", "e_order", "a chord of 4", {"C26": ["C26"]}, dict(mode=3, notes=4), cost=20, tier=T)
BM = {"C25": ["C25", "C01"]}
OKR = ("end", "ok", "refused")
for f, d in enumerate(("length", "format", "number of tracks", "division")):
    sc("badmidi-%s" % d.split()[0], "e_badmidi", "a MIDI file with any %s in its header" % d, BM, dict(what=0, field=f), cost=30 if f == 3 else 1, reach=("end", "ok") if f == 2 else OKR)
sc("badmidi-short", "e_badmidi", "a MIDI file that ends anywhere", BM, dict(what=1), cost=1, reach=OKR)
sc("badmidi-data", "e_badmidi", "a track of 3 arbitrary bytes", BM, dict(what=2, n=3), cost=1, reach=OKR)
sc("badmidi-data-note", "e_badmidi", "a note, then 3 arbitrary bytes", BM, dict(what=3, n=3), cost=2, reach=OKR)
sc("badmidi-magic", "e_badmidi", "any four bytes in place of a chunk's name", BM, dict(what=4), cost=1, reach=OKR)
sc("badmidi-meta", "e_badmidi", "any meta or system exclusive event of up to 3 bytes", BM, dict(what=5), cost=2, reach=OKR)
sc("badmidi-time", "e_badmidi", "times around and beyond what can be counted", BM, dict(what=6), cost=1, reach=OKR)
sc("badmidi-size", "e_badmidi", "any track length that differs from what is there", BM, dict(what=7), cost=1, reach=OKR)
for t in range(3):
    if t == 0: sc("parts", "e_parts", "JSON songs with 0 to 11 voices in their first or second part, 0 to 3 tracks, any one voice of any track and a loop of any: at most eight voices of existing tracks are accepted", {"C27": ["C27"]}, dict(), cost=4, reach=("end", "ok", "refused"))
    sc("badjson-%d" % t, "e_badjson", "JSON song %d with any byte replaced by any other" % t, {"C27": ["C27"]}, dict(text=t, what=0), cost=5, reach=OKR)
    sc("cutjson-%d" % t, "e_badjson", "JSON song %d cut short anywhere" % t, {"C27": ["C27"]}, dict(text=t, what=1), cost=1, reach=("end", "refused"))

for n, d, p, c, t in (("noise", "on the grid, up to 11 ticks", dict(grid=1, fixed=1, maxt=11), 11, Q), ("noise-wide", "up to 15 ticks", dict(fixed=1, maxt=15, channels=6), 100, T)):
    sc(n, "e_noise", "two channels with a note each, and one event without meaning of any of 11 kinds, with any data, at any time; times %s" % d, {"C29": ["C29", "C02:accepted"]}, p, cost=c, tier=t)
sc("noise-legato", "e_noise", "the same between notes that touch or overlap, times of up to 5 steps", {"C29": ["C29", "C02:accepted"]}, dict(legato=1, grid=1, maxt=5, klo=1, khi=1, fixed=1), cost=2)
sc("noise-legato-all", "e_noise", "the same with the event on either channel, times of up to 9 steps", {"C29": ["C29", "C02:accepted"]}, dict(legato=1, grid=1, maxt=9, fixed=1, chlo=3), cost=9)
for n, d, p, c, t in (("layout", "on the grid, up to 7 ticks", dict(grid=1, fixed=1, maxt=7), 2, Q), ("layout-fine", "up to 7 ticks", dict(maxt=7, fixed=1), 13, Q), ("layout-wide", "on the grid, all of them arbitrary", dict(grid=1), 60, T)):
    sc(n, "e_layout", "two channels with a note each and a tempo change, in five arrangements of tracks; times %s" % d, {"C30": ["C30", "C02:accepted"]}, p, cost=c, tier=t)
VB = ("end", "ok")
for n, d, p in (("verbose", "on the grid", dict(grid=1, fixed=1)), ("verbose-fine", "at any time of up to 7 ticks", dict(fixed=1))):
    sc(n, "e_verbose", "four channels with a melody that repeats and a chord, a note %s, optimised or not, with and without verbose output" % d, {"C31": ["C31"]}, p, cost=5, reach=VB)
sc("verbose-full", "e_verbose", "the same with a chord for which there is no room at some times", {"C31": ["C31"]}, dict(fixed=1, grid=1, chord=6, maxt=15), cost=6, reach=("end", "ok", "refused"))
sc("verbose-rom", "e_rom", "rom-base with verbose output", {"C31": ["C15", "C16", "C17", "C18"]}, dict(lo=0, hi=90, olo=60, ohi=60, verbose=1), cost=9, reach=WR)
sc("verbose-single", "e_single", "file_select with verbose output", {"C31": ["C22", "C15", "C16"]}, dict(all=0, verbose=1), cost=2)
sc("verbose-build", "e_build", "build_rom with verbose output", {"C31": ["C20", "C15", "C16"]}, dict(lo=14, hi=14, verbose=1), cost=8)
sc("verbose-badrom", "e_badrom", "a ROM with any chunk length, with verbose output", {"C31": ["C28"]}, dict(what=2, fill=0, verbose=1), cost=18, reach=("end", "refused"))

CLI = {"C32": ["C32"]}
OKF = ("end", "ok", "refused")
sc("cli-options", "e_cli", "the program run with each of its six commands, each option in each of its forms or not, input there or missing, arbitrary pitch", CLI, dict(addresses=0), cost=18, reach=OKF)
sc("cli-order", "e_cli", "the commands that change a ROM with bank addresses in every order", CLI, dict(lo=0, hi=2, given=1, verbose=0, skip=0, json=0, missing=0, digits=0, how=0, chars=0, banks=0, order=5), cost=3, reach=("end", "ok"))
for k, n in enumerate(("build_rom", "all_overworld", "file_select")):
    sc("cli-addresses-%d" % k, "e_cli", n + " with bank addresses, any of which has any character as its last digit", {"C32": ["C32"], "C24": ["C32"]} if k == 2 else CLI, dict(lo=k, hi=k, given=1, verbose=0, skip=0, json=0, missing=0, digits=0, how=0), cost=(8, 16, 6)[k], reach=OKF)
    sc("cli-digits-%d" % k, "e_cli", n + " with bank addresses in either form, any of which has any character as any digit", {"C32": ["C32"], "C24": ["C32"]} if k == 2 else CLI, dict(lo=k, hi=k, given=1, verbose=0, skip=0, json=0, missing=0), cost=(40, 100, 31)[k], tier=T, reach=OKF)
