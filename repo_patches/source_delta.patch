From adeb80fa34f96511a623213849bf6b4dc16dd258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 01/35] fix: keep the whole length of notes and rests longer
 than 255 * 127 steps

---
 src/nspc/track.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 84e9434..37aa25e 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -15,7 +15,7 @@ pub struct Track {
 struct Duration {
     length: u8,
     quantized_ticks: u32,
-    overflow_count: u8,
+    overflow_count: u32,
 }
 
 impl Track {
@@ -35,13 +35,13 @@ impl Track {
                 Duration {
                     length: 0x7f,
                     quantized_ticks,
-                    overflow_count: (overflow_count - 1) as u8,
+                    overflow_count: overflow_count - 1,
                 }
             } else {
                 Duration {
                     length: overflow_amount as u8,
                     quantized_ticks,
-                    overflow_count: overflow_count as u8,
+                    overflow_count,
                 }
             }
         } else {
-- 
2.43.0


From dd05ac8a8068b65eac5f9907c766eb0636ac4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 02/35] fix: give a note that ends within a step of the
 previous one its own step instead of underflowing

---
 src/nspc/track.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 37aa25e..ab3c703 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -23,7 +23,8 @@ impl Track {
         let length_beats = (ticks as f32) / (ticks_per_beat as f32);
         let length = length_beats * 24.0;
         let quantized_length = if ceil {
-            length.ceil() as u32
+            // a note is never shorter than a single step
+            (length.ceil() as u32).max(1)
         } else {
             length.floor() as u32
         };
@@ -121,7 +122,7 @@ impl Track {
                         MidiEvent::NoteOff { note, .. } => {
                             if let Some(start) = note_start {
                                 let duration =
-                                    Track::get_duration(abs_time - start, ticks_per_beat, true);
+                                    Track::get_duration(abs_time.saturating_sub(start), ticks_per_beat, true);
                                 let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
-- 
2.43.0


From 1ca561943179b447713c4e5dde98d51567eaba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 03/35] fix: never emit tempo 0, which would halt the song

---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index ab3c703..10df34f 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -113,7 +113,7 @@ impl Track {
                             None,
                             None,
                             None,
-                            Command::Tempo((bpm * tempo_factor) as u8),
+                            Command::Tempo(((bpm * tempo_factor) as u8).max(1)),
                         ))
                     }
                 }
-- 
2.43.0


From cd9a2d5eebbfd3d8db5f553ab8a59112dd3d04f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 04/35] fix: move notes outside the driver's range by octaves
 instead of emitting other commands' bytes

---
 src/nspc/track.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 10df34f..b25a986 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -19,6 +19,18 @@ struct Duration {
 }
 
 impl Track {
+    /// The driver has notes for MIDI 24 to 95 only: others move by octaves into that range.
+    fn note_value(note: u8) -> u8 {
+        let mut note = note;
+        while note < 24 {
+            note += 12;
+        }
+        while note > 95 {
+            note -= 12;
+        }
+        note + 0x68
+    }
+
     fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
         let length_beats = (ticks as f32) / (ticks_per_beat as f32);
         let length = length_beats * 24.0;
@@ -135,7 +147,7 @@ impl Track {
                                     if push_as_tie {
                                         Command::Tie
                                     } else {
-                                        Command::Note(note + 0x68)
+                                        Command::Note(Track::note_value(note))
                                     },
                                 ));
                                 for i in 0..duration.overflow_count {
@@ -173,7 +185,7 @@ impl Track {
                                                 true,
                                             )
                                                 .length,
-                                            note + 0x68,
+                                            Track::note_value(note),
                                         )
                                     });
                                 }
-- 
2.43.0


From 825e02862cdc544fd97a842d6f3e552df601bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 05/35] fix: play notes of velocity below 8 softly instead of
 with the previous note's velocity

---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index b25a986..c1f92c6 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -142,7 +142,7 @@ impl Track {
                                     } else {
                                         duration.length
                                     }),
-                                    Some(note_velocity / 8),
+                                    Some((note_velocity / 8).max(1)),
                                     Some(7),
                                     if push_as_tie {
                                         Command::Tie
-- 
2.43.0


From 74a0e6342652424bd74c95afec87fbc72c998a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 06/35] fix: don't delay a voice when the program changes
 during a note

---
 src/nspc/track.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index c1f92c6..42adaf5 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -109,6 +109,7 @@ impl Track {
         let mut last_note_end = 0u32;
         let mut portamento = false;
         let mut port_time = 0u16;
+        let mut next_instrument: Option<u8> = None;
         for &(ref message, abs_time) in events {
             match *message {
                 Message::MetaEvent {
@@ -164,6 +165,14 @@ impl Track {
                                 }
                                 last_note_end = start + duration.quantized_ticks;
                                 note_start = None;
+                                if let Some(instrument) = next_instrument.take() {
+                                    commands.push(ParameterizedCommand::new(
+                                        None,
+                                        None,
+                                        None,
+                                        Command::SetInstrument(instrument),
+                                    ));
+                                }
                             }
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
@@ -228,19 +237,24 @@ impl Track {
                             // TODO
                         }
                         MidiEvent::ProgramChange { ch, program, .. } => {
-                            last_note_end = Track::insert_rest(
-                                &mut commands,
-                                last_note_end,
-                                abs_time,
-                                ticks_per_beat,
-                            );
                             let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
-                            commands.push(ParameterizedCommand::new(
-                                None,
-                                None,
-                                None,
-                                Command::SetInstrument(instrument),
-                            ));
+                            if note_start.is_some() {
+                                // takes effect after the note that is sounding
+                                next_instrument = Some(instrument);
+                            } else {
+                                last_note_end = Track::insert_rest(
+                                    &mut commands,
+                                    last_note_end,
+                                    abs_time,
+                                    ticks_per_beat,
+                                );
+                                commands.push(ParameterizedCommand::new(
+                                    None,
+                                    None,
+                                    None,
+                                    Command::SetInstrument(instrument),
+                                ));
+                            }
                         }
                         MidiEvent::ChannelPressure { .. } => {
                             // TODO
-- 
2.43.0


From d9fd98f4e64d291e07844f40f25d653f48ab21b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 07/35] fix: limit long portamento times instead of wrapping
 them

---
 src/nspc/track.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 42adaf5..a07b6b7 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -188,12 +188,14 @@ impl Track {
                                     let last_command = commands.last();
                                     pitch_slide = last_command.and_then(|cmd| {
                                         cmd.create_pitch_slide(
-                                            Track::get_duration(
-                                                port_time as u32,
-                                                ticks_per_beat,
-                                                true,
-                                            )
-                                                .length,
+                                            {
+                                                let slide = Track::get_duration(
+                                                    port_time as u32,
+                                                    ticks_per_beat,
+                                                    true,
+                                                );
+                                                if slide.overflow_count > 0 { 0x7f } else { slide.length }
+                                            },
                                             Track::note_value(note),
                                         )
                                     });
-- 
2.43.0


From dce982f15aba6e9a922c53e20704e695c81f2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 08/35] fix: keep each channel's portamento settings to itself
 on a shared voice

---
 src/nspc/track.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index a07b6b7..16183e2 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -107,8 +107,8 @@ impl Track {
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
         let mut last_note_end = 0u32;
-        let mut portamento = false;
-        let mut port_time = 0u16;
+        let mut portamento = [false; 16];
+        let mut port_time = [0u16; 16];
         let mut next_instrument: Option<u8> = None;
         for &(ref message, abs_time) in events {
             match *message {
@@ -175,14 +175,15 @@ impl Track {
                                 }
                             }
                         }
-                        MidiEvent::NoteOn { velocity, note, .. } => {
+                        MidiEvent::NoteOn { ch, velocity, note } => {
+                            let ch = ch as usize;
                             last_note_end = Track::insert_rest(
                                 &mut commands,
                                 last_note_end,
                                 abs_time,
                                 ticks_per_beat,
                             );
-                            if portamento && !commands.is_empty() {
+                            if portamento[ch] && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
                                 {
                                     let last_command = commands.last();
@@ -190,7 +191,7 @@ impl Track {
                                         cmd.create_pitch_slide(
                                             {
                                                 let slide = Track::get_duration(
-                                                    port_time as u32,
+                                                    port_time[ch] as u32,
                                                     ticks_per_beat,
                                                     true,
                                                 );
@@ -211,11 +212,12 @@ impl Track {
                         MidiEvent::PolyphonicKeyPressure { .. } => {
                             // TODO
                         }
-                        MidiEvent::ControlChange { control, data, .. } => {
+                        MidiEvent::ControlChange { ch, control, data } => {
+                            let ch = ch as usize;
                             match control {
                                 5 => {
                                     // portamento time high byte
-                                    port_time = ((data as u16) << 8) | (port_time & 0xFF);
+                                    port_time[ch] = ((data as u16) << 8) | (port_time[ch] & 0xFF);
                                 }
                                 7 => {
                                     // channel volume
@@ -228,11 +230,11 @@ impl Track {
                                 }
                                 37 => {
                                     // portamento time low byte
-                                    port_time = (port_time & 0xFF00) | (data as u16);
+                                    port_time[ch] = (port_time[ch] & 0xFF00) | (data as u16);
                                 }
                                 65 => {
                                     // portamento on/off
-                                    portamento = data >= 64;
+                                    portamento[ch] = data >= 64;
                                 }
                                 _ => {}
                             }
-- 
2.43.0


From c3f001fa52c403fb5c46576d7a14a53b30219dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 09/35] fix: tie a slid note to the previous one even if a
 control change comes during it

---
 src/nspc/command.rs |  7 -------
 src/nspc/track.rs   | 10 +++++++---
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3aecdb0..b4e36bc 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -401,13 +401,6 @@ impl ParameterizedCommand {
         }
     }
 
-    pub fn is_slide(&self) -> bool {
-        match self.command {
-            Command::PitchSlide(..) => true,
-            _ => false,
-        }
-    }
-
     pub fn can_be_first_in_call_loop(&self) -> bool {
         match self.command {
             Command::Tie => false,
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 16183e2..e8daf5b 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -106,6 +106,7 @@ impl Track {
         let mut commands = Vec::new();
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
+        let mut note_tied = false;
         let mut last_note_end = 0u32;
         let mut portamento = [false; 16];
         let mut port_time = [0u16; 16];
@@ -136,7 +137,6 @@ impl Track {
                             if let Some(start) = note_start {
                                 let duration =
                                     Track::get_duration(abs_time.saturating_sub(start), ticks_per_beat, true);
-                                let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
                                         0x7f
@@ -145,7 +145,7 @@ impl Track {
                                     }),
                                     Some((note_velocity / 8).max(1)),
                                     Some(7),
-                                    if push_as_tie {
+                                    if note_tied {
                                         Command::Tie
                                     } else {
                                         Command::Note(Track::note_value(note))
@@ -183,6 +183,7 @@ impl Track {
                                 abs_time,
                                 ticks_per_beat,
                             );
+                            note_tied = false;
                             if portamento[ch] && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
                                 {
@@ -201,7 +202,10 @@ impl Track {
                                         )
                                     });
                                 }
-                                pitch_slide.map(|slide| commands.push(slide));
+                                if let Some(slide) = pitch_slide {
+                                    commands.push(slide);
+                                    note_tied = true;
+                                }
                             }
                             if note_start.is_some() {
                                 bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, note_start.unwrap(), abs_time);
-- 
2.43.0


From ed786100680bd7648de5f3e3236f80eeb54c06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 10/35] fix: change the tempo when it changes, not at the start
 of the surrounding note or rest

---
 src/nspc/track.rs | 87 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 21 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index e8daf5b..38ecc56 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -96,6 +96,36 @@ impl Track {
         }
     }
 
+    fn push_note(
+        commands: &mut Vec<ParameterizedCommand>,
+        duration: &Duration,
+        note_velocity: u8,
+        first_command: Command,
+    ) {
+        commands.push(ParameterizedCommand::new(
+            Some(if duration.overflow_count > 0 {
+                0x7f
+            } else {
+                duration.length
+            }),
+            Some((note_velocity / 8).max(1)),
+            Some(7),
+            first_command,
+        ));
+        for i in 0..duration.overflow_count {
+            commands.push(ParameterizedCommand::new(
+                Some(if i < duration.overflow_count - 1 {
+                    0x7f
+                } else {
+                    duration.length
+                }),
+                None,
+                None,
+                Command::Tie,
+            ));
+        }
+    }
+
     pub fn new(
         events: &Vec<(Message, u32)>,
         ticks_per_beat: u16,
@@ -107,6 +137,7 @@ impl Track {
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
         let mut note_tied = false;
+        let mut sounding_note = 0;
         let mut last_note_end = 0u32;
         let mut portamento = [false; 16];
         let mut port_time = [0u16; 16];
@@ -123,6 +154,35 @@ impl Track {
                             + (data[1] as u32) * 0x100
                             + (data[2] as u32);
                         let bpm = (6e7 / (usec_per_beat as f32)).ceil();
+                        if let Some(start) = note_start {
+                            // split the note that is sounding, so that the tempo changes on time
+                            let duration = Track::get_duration(
+                                abs_time.saturating_sub(start),
+                                ticks_per_beat,
+                                false,
+                            );
+                            if duration.length > 0 {
+                                Track::push_note(
+                                    &mut commands,
+                                    &duration,
+                                    note_velocity,
+                                    if note_tied {
+                                        Command::Tie
+                                    } else {
+                                        Command::Note(Track::note_value(sounding_note))
+                                    },
+                                );
+                                note_start = Some(start + duration.quantized_ticks);
+                                note_tied = true;
+                            }
+                        } else {
+                            last_note_end = Track::insert_rest(
+                                &mut commands,
+                                last_note_end,
+                                abs_time.min(max_time),
+                                ticks_per_beat,
+                            );
+                        }
                         commands.push(ParameterizedCommand::new(
                             None,
                             None,
@@ -137,32 +197,16 @@ impl Track {
                             if let Some(start) = note_start {
                                 let duration =
                                     Track::get_duration(abs_time.saturating_sub(start), ticks_per_beat, true);
-                                commands.push(ParameterizedCommand::new(
-                                    Some(if duration.overflow_count > 0 {
-                                        0x7f
-                                    } else {
-                                        duration.length
-                                    }),
-                                    Some((note_velocity / 8).max(1)),
-                                    Some(7),
+                                Track::push_note(
+                                    &mut commands,
+                                    &duration,
+                                    note_velocity,
                                     if note_tied {
                                         Command::Tie
                                     } else {
                                         Command::Note(Track::note_value(note))
                                     },
-                                ));
-                                for i in 0..duration.overflow_count {
-                                    commands.push(ParameterizedCommand::new(
-                                        Some(if i < duration.overflow_count - 1 {
-                                            0x7f
-                                        } else {
-                                            duration.length
-                                        }),
-                                        None,
-                                        None,
-                                        Command::Tie,
-                                    ));
-                                }
+                                );
                                 last_note_end = start + duration.quantized_ticks;
                                 note_start = None;
                                 if let Some(instrument) = next_instrument.take() {
@@ -212,6 +256,7 @@ impl Track {
                             }
                             note_start = Some(last_note_end);
                             note_velocity = velocity;
+                            sounding_note = note;
                         }
                         MidiEvent::PolyphonicKeyPressure { .. } => {
                             // TODO
-- 
2.43.0


From f9abb5a8160bb36113924f4fc254f71b781a26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 11/35] fix: don't merge a note and a rest into a length that
 doesn't fit a length byte

---
 src/nspc/command.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index b4e36bc..a55e2d8 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -374,7 +374,9 @@ impl ParameterizedCommand {
                 let note_duration = self.duration.unwrap() as u16;
                 let rest_duration = next_command.duration.unwrap() as u16;
                 let total_duration = note_duration + rest_duration;
-                if (note_duration * 8) % total_duration == 0 || note_duration > rest_duration * 16 {
+                if total_duration <= 0x7f
+                    && ((note_duration * 8) % total_duration == 0 || note_duration > rest_duration * 16)
+                {
                     let sustain = ((note_duration * 8) / total_duration) as u8;
                     self.sustain = Some(sustain.min(7));
                     self.duration = Some(total_duration as u8);
-- 
2.43.0


From 7b962dce3978811b9bdb10f1b10490a8c83bb205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 12/35] fix: restate length and velocity after a loop call

---
 src/nspc/command.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index a55e2d8..0bc52cf 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -357,6 +357,10 @@ impl ParameterizedCommand {
             out.write_u8(velocity_sustain)?;
         }
         self.command.write(out, call_loops)?;
+        if let Command::CallLoop(..) = self.command {
+            // the loop leaves its own length and velocity behind
+            return Ok((0, None));
+        }
         Ok((duration_out, velocity_sustain_out))
     }
 
-- 
2.43.0


From b4a93e1e860932731f6bcf0ac1f2d29b8209f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 13/35] fix: count more than 255 occurrences of a sequence
 without overflowing

---
 src/nspc/seqtree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 7539ff6..49c9eaa 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -563,7 +563,7 @@ impl SeqTree {
                 && seq
                     .locations
                     .iter()
-                    .fold(0, |acc, &loc| acc + loc.repeat_count)
+                    .fold(0, |acc, &loc| acc + loc.repeat_count as usize)
                     > 1
         })
         .max_by_key(score)
-- 
2.43.0


From 24f2d44c59f863de54d08a1cd1e7ecf92a1bc42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 14/35] fix: ignore note-off events for notes that aren't
 playing instead of underflowing

---
 src/midi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 509e5b2..50979a0 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -170,7 +170,7 @@ impl MidiHandler {
                                         voices: active_voices,
                                     });
                                 }
-                                active_voices -= 1;
+                                active_voices = active_voices.saturating_sub(1);
                                 last_interval_end = abs_time;
                             }
                             MidiEvent::NoteOn { velocity, .. } => {
@@ -183,7 +183,7 @@ impl MidiHandler {
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices -= 1;
+                                    active_voices = active_voices.saturating_sub(1);
                                 } else {
                                     active_voices += 1;
                                 }
-- 
2.43.0


From d7f6f31088c136d8adb65e08f082451d60194422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 15/35] fix: play a snare hit that is struck again before its
 end at the snare's pitch

---
 src/midi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 50979a0..ed04c92 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -422,7 +422,7 @@ impl MidiHandler {
                                     delta_time,
                                     event: MidiEvent::NoteOff {
                                         ch: ch as u8,
-                                        note,
+                                        note: if ch == 9 && (note == 38 || note == 40) { SNARE_NOTE } else { note },
                                         velocity,
                                     },
                                 },
-- 
2.43.0


From 6362d84c6d267a68db7b8f9faa3f92e3dfb6514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 16/35] fix: play every note with the instrument and volume of
 its own channel

---
 src/midi/mod.rs | 113 ++++++++++++++++++++++++++++++------------------
 1 file changed, 70 insertions(+), 43 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index ed04c92..b7cd00b 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -7,6 +7,8 @@ use std::path::Path;
 use super::nspc::instruments::*;
 
 const SNARE_NOTE: u8 = 68;
+const DEFAULT_VOLUME: u8 = 100;
+const DEFAULT_PROGRAM: u8 = 0;
 
 #[derive(Debug, Fail)]
 enum MidiError {
@@ -331,27 +333,25 @@ impl MidiHandler {
         let channels = &self.channels;
         let mut last_abs_time: Vec<u32> = Vec::new();
         let mut curr_event_idx: Vec<usize> = Vec::new();
-        let mut last_ctrl_change_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_channel: Vec<Option<Message>> = Vec::new();
+        let mut volume_per_channel: Vec<u8> = Vec::new();
+        let mut last_prog_change_per_channel: Vec<Option<u8>> = Vec::new();
         let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_ctrl_change_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
+        let mut volume_per_voice: Vec<u8> = Vec::new();
+        // program and whether it is a percussion instrument
+        let mut last_prog_change_per_voice: Vec<Option<(u8, bool)>> = Vec::new();
         let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
-        let mut last_percussion_instr = 0;
         for _ in 0..self.channels.len() {
             last_abs_time.push(0);
             curr_event_idx.push(0);
-            last_ctrl_change_per_channel.push(None);
+            volume_per_channel.push(DEFAULT_VOLUME);
             last_prog_change_per_channel.push(None);
             last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
         }
         for voice in 0..self.voices.len() {
-            last_ctrl_change_per_voice.push(None);
+            volume_per_voice.push(DEFAULT_VOLUME);
             last_prog_change_per_voice.push(None);
-            last_pitch_bend_per_voice.push(None);
             last_channel_per_voice.push(
                 self.channels
                     .iter()
@@ -471,32 +471,48 @@ impl MidiHandler {
 
                             active_notes[ch].insert(note, next_voice);
                             let messages = &mut self.voices[next_voice].messages;
-                            if ch != last_channel_per_voice[next_voice].unwrap_or(0xff) {
-                                last_ctrl_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_prog_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_channel_per_voice[next_voice] = Some(ch);
+                            if volume_per_voice[next_voice] != volume_per_channel[ch] {
+                                messages.push((
+                                    Message::MidiEvent {
+                                        delta_time,
+                                        event: MidiEvent::ControlChange {
+                                            ch: ch as u8,
+                                            control: 7,
+                                            data: volume_per_channel[ch],
+                                        }
+                                    },
+                                    abs_time
+                                ));
+                                volume_per_voice[next_voice] = volume_per_channel[ch];
+                            }
+                            let program = if ch == 9 {
+                                Some((if note == 38 || note == 40 { SNARE } else { CYMBAL }, true))
+                            } else {
+                                last_prog_change_per_channel[ch]
+                                    .or(last_prog_change_per_voice[next_voice].map(|_| DEFAULT_PROGRAM))
+                                    .map(|program| (program, false))
                             };
-                            if ch == 9 {
-                                let instr = if note == 38 || note == 40 { SNARE } else { CYMBAL };
-                                if last_percussion_instr != instr {
-                                    let prog_change = (
+                            if last_prog_change_per_voice[next_voice] != program {
+                                if let Some((program, _)) = program {
+                                    messages.push((
                                         Message::MidiEvent {
                                             delta_time,
                                             event: MidiEvent::ProgramChange {
                                                 ch: ch as u8,
-                                                program: instr,
+                                                program,
                                             }
                                         },
                                         abs_time
-                                    );
-                                    last_prog_change_per_channel[ch] = Some(prog_change.0.clone());
-                                    messages.push(prog_change);
-                                    last_percussion_instr = instr;
+                                    ));
                                 }
+                                last_prog_change_per_voice[next_voice] = program;
+                            }
+                            if ch != last_channel_per_voice[next_voice].unwrap_or(0xff) {
+                                last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
+                                    .map(|event| messages.push((event.clone(), abs_time)));
+                                last_channel_per_voice[next_voice] = Some(ch);
+                            };
+                            if ch == 9 {
                                 messages.push((Message::MidiEvent {
                                     delta_time,
                                     event: MidiEvent::NoteOn {
@@ -517,43 +533,55 @@ impl MidiHandler {
                             None => (),
                         }
                     }
-                    MidiEvent::ControlChange { ch, control, .. } => {
+                    MidiEvent::ControlChange { ch, control, data } => {
                         let ch = ch as usize;
-                        let mut pushed_to_base = false;
+                        let base_voice = self.channels[ch].base_voice;
+                        // volume set for an idle channel reaches the voice with its next note
+                        let mut pushed_to_base = control == 7
+                            && active_notes
+                                .iter()
+                                .flat_map(|active_note| active_note.values())
+                                .any(|&voice| voice == base_voice);
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
                             if control == 7 {
-                                last_ctrl_change_per_voice[voice] = Some(next_event.0.clone());
+                                volume_per_voice[voice] = data;
                             }
-                            if voice == self.channels[ch].base_voice {
+                            if voice == base_voice {
                                 pushed_to_base = true;
                             }
                         }
                         if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
+                            self.voices[base_voice].messages.push(next_event.clone());
+                            if control == 7 {
+                                volume_per_voice[base_voice] = data;
+                            }
                         }
                         if control == 7 {
-                            last_ctrl_change_per_channel[ch] = Some(next_event.0.clone());
+                            volume_per_channel[ch] = data;
                         }
                     }
-                    MidiEvent::ProgramChange { ch, .. } => {
+                    // the percussion channel's instruments depend on its notes alone
+                    MidiEvent::ProgramChange { ch: 9, .. } => {}
+                    MidiEvent::ProgramChange { ch, program } => {
                         let ch = ch as usize;
-                        let mut pushed_to_base = false;
+                        let base_voice = self.channels[ch].base_voice;
+                        let mut pushed_to_base = active_notes
+                            .iter()
+                            .flat_map(|active_note| active_note.values())
+                            .any(|&voice| voice == base_voice);
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
-                            last_prog_change_per_voice[voice] = Some(next_event.0.clone());
-                            if voice == self.channels[ch].base_voice {
+                            last_prog_change_per_voice[voice] = Some((program, false));
+                            if voice == base_voice {
                                 pushed_to_base = true;
                             }
                         }
                         if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
+                            self.voices[base_voice].messages.push(next_event.clone());
+                            last_prog_change_per_voice[base_voice] = Some((program, false));
                         }
-                        last_prog_change_per_channel[ch] = Some(next_event.0.clone());
+                        last_prog_change_per_channel[ch] = Some(program);
                     }
                     MidiEvent::ChannelPressure { ch, .. } => {
                         let ch = ch as usize;
@@ -575,7 +603,6 @@ impl MidiHandler {
                         let mut pushed_to_base = false;
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
-                            last_pitch_bend_per_voice[voice] = Some(next_event.0.clone());
                             if voice == self.channels[ch].base_voice {
                                 pushed_to_base = true;
                             }
-- 
2.43.0


From 8becdab4a54b884b498ea4ec44a309d1365f4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 17/35] fix: leave out notes of no length, which were never
 ended

---
 src/midi/mod.rs | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index b7cd00b..aeba79f 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -46,6 +46,41 @@ fn priority(message: &Message) -> u8 {
     }
 }
 
+/// The note an event starts (true) or ends (false).
+fn note_change(event: &MidiEvent) -> Option<(u8, bool)> {
+    match *event {
+        MidiEvent::NoteOff { note, .. } => Some((note, false)),
+        MidiEvent::NoteOn { note, velocity, .. } => Some((note, velocity > 0)),
+        _ => None,
+    }
+}
+
+/// If `event` ends a note at the time it started, takes that note out of `messages`: the end
+/// would be sorted before the start, and the note would never end.
+fn remove_empty_note(messages: &mut Vec<(Message, u32)>, event: &MidiEvent, time: u32) -> bool {
+    let note = match note_change(event) {
+        Some((note, false)) => note,
+        _ => return false,
+    };
+    let start = {
+        let mut changes = messages.iter().enumerate().rev().filter_map(|(i, message)| {
+            match message.0 {
+                Message::MidiEvent { ref event, .. } => note_change(event)
+                    .filter(|change| change.0 == note)
+                    .map(|change| (i, change.1, message.1)),
+                _ => None,
+            }
+        });
+        match (changes.next(), changes.next()) {
+            // a note that was sounding before is the one that ends
+            (_, Some((_, true, _))) => None,
+            (Some((i, true, start)), _) if start == time => Some(i),
+            _ => None,
+        }
+    };
+    start.map(|i| messages.remove(i)).is_some()
+}
+
 #[derive(Debug, Copy, Clone)]
 struct VoiceInterval {
     start: u32,
@@ -233,9 +268,10 @@ impl MidiHandler {
                         ref event,
                     } => {
                         abs_time += delta_time;
-                        self.channels[channel(event)]
-                            .messages
-                            .push((message.clone(), abs_time));
+                        let messages = &mut self.channels[channel(event)].messages;
+                        if !remove_empty_note(messages, event, abs_time) {
+                            messages.push((message.clone(), abs_time));
+                        }
                     }
                     Message::SysExEvent { delta_time, .. } => {
                         abs_time += delta_time;
-- 
2.43.0


From 0e8e5daab580689c2f298a1bfa31d0d8e0fcbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 18/35] fix: let notes that are never released last until the
 end instead of dropping them

---
 src/midi/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index aeba79f..1220c99 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -235,6 +235,14 @@ impl MidiHandler {
                     _ => {}
                 }
             }
+            if active_voices > 0 {
+                intervals.push(VoiceInterval {
+                    start: last_interval_end,
+                    end: u32::max_value(),
+                    channel: i,
+                    voices: active_voices,
+                });
+            }
         }
         let active_base_intervals = vec![
             vec![],
@@ -658,6 +666,22 @@ impl MidiHandler {
                 _ => {}
             }
         }
+        // notes that are never released last until the end
+        for (ch, notes) in active_notes.iter().enumerate() {
+            for (&note, &voice) in notes {
+                self.voices[voice].messages.push((
+                    Message::MidiEvent {
+                        delta_time: 0,
+                        event: MidiEvent::NoteOff {
+                            ch: ch as u8,
+                            note: if ch == 9 && (note == 38 || note == 40) { SNARE_NOTE } else { note },
+                            velocity: 0,
+                        },
+                    },
+                    self.max_time,
+                ));
+            }
+        }
         Ok(())
     }
 
-- 
2.43.0


From b0bda7afcfb8372168ac96402c09b48805916aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 19/35] fix: report MIDI files that can't be converted instead
 of panicking

---
 src/midi/mod.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 1220c99..ef929e3 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -46,6 +46,24 @@ fn priority(message: &Message) -> u8 {
     }
 }
 
+fn is_valid(message: &Message) -> bool {
+    match *message {
+        Message::MetaEvent {
+            event: MetaEvent::SetTempo,
+            ref data,
+            ..
+        } => data.len() == 3,
+        Message::MidiEvent { ref event, .. } => match *event {
+            MidiEvent::NoteOff { note, velocity, .. } => note < 0x80 && velocity < 0x80,
+            MidiEvent::NoteOn { note, velocity, .. } => note < 0x80 && velocity < 0x80,
+            MidiEvent::ControlChange { control, data, .. } => control < 0x80 && data < 0x80,
+            MidiEvent::ProgramChange { program, .. } => program < 0x80,
+            _ => true,
+        },
+        _ => true,
+    }
+}
+
 /// The note an event starts (true) or ends (false).
 fn note_change(event: &MidiEvent) -> Option<(u8, bool)> {
     match *event {
@@ -139,6 +157,7 @@ pub struct MidiHandler {
     voices: [MidiVoice; 8],
     pub ticks_per_beat: u16,
     pub max_time: u32,
+    format: u16,
 }
 
 impl MidiHandler {
@@ -175,6 +194,7 @@ impl MidiHandler {
             ],
             ticks_per_beat: 0,
             max_time: 0,
+            format: 1,
         }
     }
 
@@ -189,6 +209,16 @@ impl MidiHandler {
                 .read()
                 .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
         }
+        ensure!(self.format == 1, "MIDI format {} isn't supported", self.format);
+        ensure!(
+            self.ticks_per_beat > 0 && self.ticks_per_beat < 0x8000,
+            "MIDI time division {} isn't supported",
+            self.ticks_per_beat
+        );
+        ensure!(
+            self.tracks.iter().all(|track| track.messages.iter().all(is_valid)),
+            "MIDI read error: invalid event data"
+        );
         self.tracks_to_channels(verbose);
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
@@ -692,9 +722,7 @@ impl MidiHandler {
 
 impl Handler for MidiHandler {
     fn header(&mut self, format: u16, _track: u16, time_base: u16) {
-        if format != 1 {
-            unimplemented!("MIDI format {}", format)
-        }
+        self.format = format;
         self.ticks_per_beat = time_base;
     }
 
-- 
2.43.0


From 072eb0501c6d9bc36351115b7abb7942ab232d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 20/35] fix: report JSON songs that can't be read or written
 instead of panicking

---
 src/lib.rs          |  4 ++--
 src/nspc/command.rs |  7 +++++++
 src/nspc/mod.rs     | 34 ++++++++++++++++++++++++++++------
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bd83df..d8b3976 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,7 +52,7 @@ pub fn run(matches: clap::ArgMatches) -> Result<(), Error> {
         let mut midi = midi::MidiHandler::new();
         midi.read(Path::new(input_path.unwrap()), verbose)?;
         let song = nspc::Song::from_midi(&midi, manifest::DEFAULT_TEMPO_ADJUST, optimize, verbose)?;
-        song.write_to_json(Path::new(output_path.unwrap()));
+        song.write_to_json(Path::new(output_path.unwrap()))?;
     } else if let Some(matches) = matches.subcommand_matches("gen_fake_rom") {
         let input_path = matches.value_of("INPUT");
         let output_path = matches.value_of("OUTPUT");
@@ -122,7 +122,7 @@ fn converter(optimize: bool, verbose: bool) -> Box<Fn(&Path, f32) -> Result<nspc
         if path.extension().map_or(false, |ext| ext.eq("mid")) {
             song_from_midi(path, tempo_factor, optimize, verbose)
         } else {
-            Ok(nspc::Song::from_json(path))
+            nspc::Song::from_json(path)
         }
     };
     Box::new(converter)
diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 0bc52cf..5efc251 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -407,6 +407,13 @@ impl ParameterizedCommand {
         }
     }
 
+    pub fn loop_target(&self) -> Option<usize> {
+        match self.command {
+            Command::CallLoop(target_track, _) => Some(target_track),
+            _ => None,
+        }
+    }
+
     pub fn can_be_first_in_call_loop(&self) -> bool {
         match self.command {
             Command::Tie => false,
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 63c0ad5..a6dad95 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -156,14 +156,36 @@ impl Song {
         new_tracks
     }
 
-    pub fn from_json(path: &Path) -> Song {
-        let file = File::open(path).unwrap();
-        serde_json::from_reader(file).unwrap()
+    pub fn from_json(path: &Path) -> Result<Song, Error> {
+        let file = File::open(path)?;
+        let song: Song = serde_json::from_reader(file)?;
+        let num_tracks = song.tracks.len();
+        ensure!(
+            !song.parts.is_empty()
+                && song.parts.iter().all(|part| {
+                    !part.tracks.is_empty()
+                        && part.tracks.len() <= 8
+                        && part.tracks.iter().all(|&track| track < num_tracks)
+                }),
+            "{}: every part needs between 1 and 8 of the song's tracks",
+            path.display()
+        );
+        ensure!(
+            song.tracks
+                .iter()
+                .flat_map(|track| track.commands.iter())
+                .filter_map(|command| command.loop_target())
+                .all(|target| target < num_tracks),
+            "{}: loop of a track that doesn't exist",
+            path.display()
+        );
+        Ok(song)
     }
 
-    pub fn write_to_json(&self, path: &Path) {
-        let out = File::create(path).unwrap();
-        serde_json::to_writer_pretty(out, self).unwrap()
+    pub fn write_to_json(&self, path: &Path) -> Result<(), Error> {
+        let out = File::create(path)?;
+        serde_json::to_writer_pretty(out, self)?;
+        Ok(())
     }
 
     pub fn empty() -> Result<Song, Error> {
-- 
2.43.0


From b1a213945a279c2fc866f550e6795a4a357b8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 21/35] fix: report a manifest that lacks a song instead of
 panicking

---
 src/manifest/mod.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/manifest/mod.rs b/src/manifest/mod.rs
index 42b5853..fe799fe 100644
--- a/src/manifest/mod.rs
+++ b/src/manifest/mod.rs
@@ -1,4 +1,4 @@
-use failure::Error;
+use failure::{err_msg, Error};
 use serde_json;
 use serde_json::Value;
 use std::fs::File;
@@ -51,21 +51,25 @@ pub struct Song {
 }
 
 impl Song {
-    pub fn new(input: &Value, base_path: &Path) -> Song {
-        let path = Path::new(input["input"].as_str().unwrap());
+    pub fn new(input: &Value, base_path: &Path) -> Result<Song, Error> {
+        let path = Path::new(
+            input["input"]
+                .as_str()
+                .ok_or_else(|| err_msg("song without input in manifest"))?,
+        );
         let path_buf;
         if path.is_absolute() {
             path_buf = path.to_path_buf();
         } else {
             path_buf = base_path.join(path).to_path_buf();
         }
-        Song {
+        Ok(Song {
             input: Some(path_buf),
             tempo_factor: input["tempoAdjust"]
                 .as_f64()
                 .unwrap_or(DEFAULT_TEMPO_ADJUST as f64) as f32,
             loops: input["loop"].as_bool().unwrap_or(true),
-        }
+        })
     }
 
     pub fn default(path: &Path) -> Song {
@@ -92,14 +96,19 @@ pub struct Bank {
 }
 
 impl Bank {
-    pub fn new(input: &Value, name: &'static str, song_names: &[&str], base_path: &Path) -> Bank {
-        Bank {
+    pub fn new(
+        input: &Value,
+        name: &'static str,
+        song_names: &[&str],
+        base_path: &Path,
+    ) -> Result<Bank, Error> {
+        Ok(Bank {
             name,
             songs: song_names
                 .iter()
                 .map(|&song_name| Song::new(&input[song_name], base_path))
-                .collect(),
-        }
+                .collect::<Result<Vec<Song>, Error>>()?,
+        })
     }
 }
 
@@ -115,9 +124,9 @@ impl Manifest {
         let parent = path.parent().unwrap();
         Ok(Manifest {
             banks: [
-                Bank::new(&json["overworld"], "overworld", &OVERWORLD_SONGS, parent),
-                Bank::new(&json["indoor"], "indoor", &INDOOR_SONGS, parent),
-                Bank::new(&json["ending"], "ending", &ENDING_SONGS, parent),
+                Bank::new(&json["overworld"], "overworld", &OVERWORLD_SONGS, parent)?,
+                Bank::new(&json["indoor"], "indoor", &INDOOR_SONGS, parent)?,
+                Bank::new(&json["ending"], "ending", &ENDING_SONGS, parent)?,
             ],
         })
     }
-- 
2.43.0


From 2c1a45fc7feaf6d34a93aa0140e2f70100dd0599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 22/35] fix: accept JSON songs of silence, which midi2json
 writes

---
 src/nspc/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index a6dad95..b26bf24 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -163,11 +163,10 @@ impl Song {
         ensure!(
             !song.parts.is_empty()
                 && song.parts.iter().all(|part| {
-                    !part.tracks.is_empty()
-                        && part.tracks.len() <= 8
+                    part.tracks.len() <= 8
                         && part.tracks.iter().all(|&track| track < num_tracks)
                 }),
-            "{}: every part needs between 1 and 8 of the song's tracks",
+            "{}: every part needs up to 8 of the song's tracks",
             path.display()
         );
         ensure!(
@@ -211,7 +210,7 @@ impl Song {
     ) -> Result<(), Error> {
         let track = &self.tracks[track_idx];
         if !track.commands.is_empty() {
-            if self.parts.iter().any(|part| part.tracks[0] == track_idx) {
+            if self.parts.iter().any(|part| part.tracks.first() == Some(&track_idx)) {
                 out.write(&PREAMBLE_TRACK_0)?;
             } else if self
                 .parts
-- 
2.43.0


From 635bee2389300cd7d8fb4fcb7d3d8ad97f795035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 23/35] fix: write the whole ROM or report an error

---
 src/rom/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 5d034b2..afd686d 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -119,7 +119,7 @@ pub fn write(
     )?;
 
     file.seek(SeekFrom::Start(0))?;
-    file.write(&romdata)?;
+    file.write_all(&romdata)?;
     songs_pb.finish_print("All songs written.");
     mb_thread.join().unwrap();
     Ok(())
@@ -465,6 +465,6 @@ pub fn gen_fake_rom(
         .create(true)
         .write(true)
         .open(output_path)?;
-    out_file.write(&out_romdata)?;
+    out_file.write_all(&out_romdata)?;
     Ok(())
 }
-- 
2.43.0


From 7d96190a8a3275a9cba87ccd62556abc5bbde0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 24/35] fix: don't keep the tail of a longer file that the
 dummy ROM replaces

---
 src/rom/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index afd686d..f24736c 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -463,6 +463,7 @@ pub fn gen_fake_rom(
 
     let mut out_file = OpenOptions::new()
         .create(true)
+        .truncate(true)
         .write(true)
         .open(output_path)?;
     out_file.write_all(&out_romdata)?;
-- 
2.43.0


From 60b6b29fdbf716309bdde023d12206cf09c256a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 25/35] fix: set the loop addresses of a track that moves to
 the overflow chunk where the track is

---
 src/rom/mod.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index f24736c..54de1c9 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -276,8 +276,6 @@ fn write_bank(
         for i in 0..song_data.get_num_tracks() {
             let track_data = Vec::<u8>::new();
             let mut track_call_loops = Vec::<CallLoopRef>::new();
-            let mut pre_chunk_switch_track_call_loops = Vec::<CallLoopRef>::new();
-            let track_start_offset = track_data_offset;
             let mut cursor = Cursor::new(track_data);
             song_data.write_track(&mut cursor, i, &mut track_call_loops)?;
             let track_data = cursor.into_inner();
@@ -299,8 +297,6 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
-                pre_chunk_switch_track_call_loops.extend_from_slice(track_call_loops.as_slice());
-                track_call_loops.clear();
             };
 
             if verbose {
@@ -317,15 +313,6 @@ fn write_bank(
                     track_data.iter().cloned(),
                 );
                 track_addrs.push(aram_base_addr + track_data_offset);
-                pre_chunk_switch_track_call_loops
-                    .iter()
-                    .for_each(|call_loop| {
-                        call_loops.push(RomCallLoopRef {
-                            target_track: call_loop.target_track,
-                            chunk_base: base_chunk_addr + track_start_offset,
-                            ref_pos: call_loop.ref_pos,
-                        })
-                    });
                 track_call_loops.iter().for_each(|call_loop| {
                     call_loops.push(RomCallLoopRef {
                         target_track: call_loop.target_track,
-- 
2.43.0


From ec6a2e79541b2c431b0e8ed17d42555a01cb6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 26/35] fix: reject data that is larger than the overflow chunk
 instead of writing past it

---
 src/rom/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 54de1c9..ab868c4 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -225,6 +225,11 @@ fn write_bank(
             rom_addr = overflow_chunk_addr;
             chunk_length = overflow_chunk_len;
             aram_base_addr = aram_overflow_base;
+            ensure!(
+                (if song_def.loops { 8 } else { 4 }) + 16 <= chunk_length,
+                "{} bank does not fit in available chunks",
+                bank.name
+            );
         };
 
         // write song address to song table
@@ -297,6 +302,11 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
+                ensure!(
+                    track_data.len() <= chunk_length,
+                    "{} bank does not fit in available chunks",
+                    bank.name
+                );
             };
 
             if verbose {
-- 
2.43.0


From 42caa9cd9b479f113aea1d9bf8b930ad8a552168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 27/35] fix: report a ROM without song data instead of
 panicking

---
 src/rom/mod.rs | 60 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index ab868c4..f36b909 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -27,6 +27,22 @@ fn addr_to_bytes(addr: usize) -> (u8, u8) {
     ((addr >> 8 & 0xFF) as u8, (addr & 0xFF) as u8)
 }
 
+fn read_bank_addr(romdata: &Vec<u8>, base_addr: u32) -> Result<usize, Error> {
+    ensure!(
+        base_addr <= 0xffffff - 8
+            && [base_addr, base_addr + 4, base_addr + 8]
+                .iter()
+                .all(|&addr| snes_to_pc_addr(addr) < romdata.len()),
+        "Bank address 0x{:X} is outside the ROM",
+        base_addr
+    );
+    Ok(snes_bytes_to_pc_addr(
+        romdata[snes_to_pc_addr(base_addr + 8)],
+        romdata[snes_to_pc_addr(base_addr + 4)],
+        romdata[snes_to_pc_addr(base_addr)],
+    ))
+}
+
 struct RomCallLoopRef {
     pub target_track: usize,
     pub chunk_base: usize,
@@ -40,16 +56,24 @@ struct Chunk {
 }
 
 impl Chunk {
-    fn load(romdata: &Vec<u8>, start_addr: usize) -> Chunk {
+    fn load(romdata: &Vec<u8>, start_addr: usize) -> Result<Chunk, Error> {
+        ensure!(
+            start_addr + 4 <= romdata.len(),
+            "Song data not found in ROM"
+        );
         let length = ((romdata[start_addr + 1] as usize) << 8) + (romdata[start_addr] as usize);
         let aram_addr =
             ((romdata[start_addr + 3] as usize) << 8) + (romdata[start_addr + 2] as usize);
         let offset_addr = start_addr + 4;
-        Chunk {
+        ensure!(
+            offset_addr + length <= romdata.len(),
+            "Song data not found in ROM"
+        );
+        Ok(Chunk {
             offset_addr,
             length,
             aram_addr,
-        }
+        })
     }
 
     fn write_header(&self, romdata: &mut Vec<u8>, start_addr: usize) {
@@ -137,10 +161,7 @@ fn write_bank(
     verbose: bool,
 ) -> Result<(), Error> {
     // find chunk going to ARAM D000
-    let bank_addr = romdata[snes_to_pc_addr(base_addr + 8)];
-    let high_addr = romdata[snes_to_pc_addr(base_addr + 4)];
-    let low_addr = romdata[snes_to_pc_addr(base_addr)];
-    let mut addr = snes_bytes_to_pc_addr(bank_addr, high_addr, low_addr);
+    let mut addr = read_bank_addr(romdata, base_addr)?;
     let mut last_chunk_length = 0xffffusize;
     let mut base_chunk_addr = 0;
     let mut base_chunk_len = 0;
@@ -148,13 +169,13 @@ fn write_bank(
     let mut overflow_chunk_len = 0;
     let mut aram_overflow_base = 0;
     while last_chunk_length != 0 {
-        let chunk = Chunk::load(&romdata, addr);
+        let chunk = Chunk::load(&romdata, addr)?;
         last_chunk_length = chunk.length;
         if chunk.aram_addr == ARAM_BASE {
             base_chunk_addr = chunk.offset_addr;
             base_chunk_len = chunk.length;
             addr = chunk.offset_addr + chunk.length;
-            let chunk = Chunk::load(&romdata, addr);
+            let chunk = Chunk::load(&romdata, addr)?;
             last_chunk_length = chunk.length;
             overflow_chunk_addr = chunk.offset_addr;
             overflow_chunk_len = chunk.length;
@@ -172,6 +193,11 @@ fn write_bank(
         "Couldn't find overflow chunk for {} bank",
         bank.name
     );
+    ensure!(
+        base_chunk_len >= first_song_addr - ARAM_BASE,
+        "Base chunk for {} bank has no room for the song table",
+        bank.name
+    );
     let mut rom_addr = base_chunk_addr;
     let mut chunk_length = base_chunk_len;
     let mut aram_base_addr = ARAM_BASE;
@@ -441,17 +467,15 @@ pub fn gen_fake_rom(
     let mut out_romdata = vec![0u8; romdata.len()];
 
     for &base_addr in bank_base_addrs.iter() {
-        let bank_addr = romdata[snes_to_pc_addr(base_addr + 8)];
-        let high_addr = romdata[snes_to_pc_addr(base_addr + 4)];
-        let low_addr = romdata[snes_to_pc_addr(base_addr)];
-        out_romdata[snes_to_pc_addr(base_addr + 8)] = bank_addr;
-        out_romdata[snes_to_pc_addr(base_addr + 4)] = high_addr;
-        out_romdata[snes_to_pc_addr(base_addr)] = low_addr;
-
-        let mut addr = snes_bytes_to_pc_addr(bank_addr, high_addr, low_addr);
+        let mut addr = read_bank_addr(&romdata, base_addr)?;
+        for &addr_byte in [base_addr + 8, base_addr + 4, base_addr].iter() {
+            let addr_byte = snes_to_pc_addr(addr_byte);
+            out_romdata[addr_byte] = romdata[addr_byte];
+        }
+
         let mut last_chunk_length = 0xffffusize;
         while last_chunk_length != 0 {
-            let chunk = Chunk::load(&romdata, addr);
+            let chunk = Chunk::load(&romdata, addr)?;
             chunk.write_header(&mut out_romdata, addr);
             last_chunk_length = chunk.length;
             addr = chunk.offset_addr + chunk.length;
-- 
2.43.0


From ef1659e399af33c72ba129eedc2c93713a6107a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 28/35] fix: reject more songs than the song table holds
 instead of writing over the first song

---
 src/rom/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index f36b909..c462dea 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -198,6 +198,11 @@ fn write_bank(
         "Base chunk for {} bank has no room for the song table",
         bank.name
     );
+    ensure!(
+        (first_song + bank.songs.len()) * 2 <= first_song_addr - ARAM_BASE,
+        "Too many songs in {} bank",
+        bank.name
+    );
     let mut rom_addr = base_chunk_addr;
     let mut chunk_length = base_chunk_len;
     let mut aram_base_addr = ARAM_BASE;
-- 
2.43.0


From 8137fbc125d01b5515e6a5c85f772e0c4a7bc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 29/35] fix: report input paths without a readable file name
 instead of panicking

---
 src/rom/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index c462dea..7c498da 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -27,6 +27,13 @@ fn addr_to_bytes(addr: usize) -> (u8, u8) {
     ((addr >> 8 & 0xFF) as u8, (addr & 0xFF) as u8)
 }
 
+fn display_name(path: &Path) -> String {
+    path.file_name()
+        .unwrap_or(path.as_os_str())
+        .to_string_lossy()
+        .into_owned()
+}
+
 fn read_bank_addr(romdata: &Vec<u8>, base_addr: u32) -> Result<usize, Error> {
     ensure!(
         base_addr <= 0xffffff - 8
@@ -222,7 +229,7 @@ fn write_bank(
 
     for song_def in &bank.songs {
         bank_pb.message(&match &song_def.input {
-            Some(path) => format!("{} ", path.file_name().unwrap().to_str().unwrap()),
+            Some(path) => format!("{} ", display_name(path)),
             None => "[empty song] ".to_string(),
         });
         bank_pb.set(
@@ -408,8 +415,8 @@ fn write_bank(
             println!(
                 "{} - total track size in current bank 0x{:X}",
                 match &song_def.input {
-                    Some(path) => path.file_name().unwrap().to_str().unwrap(),
-                    None => "[empty song]",
+                    Some(path) => display_name(path),
+                    None => "[empty song]".to_string(),
                 },
                 if track_data_offset > song_offset {
                     track_data_offset - song_offset
-- 
2.43.0


From 793e650b3bd962ed4ceabdea37324688e6f44fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 30/35] fix: don't write a length that isn't known before a
 velocity

---
 src/nspc/command.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 5efc251..01fb11a 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -350,6 +350,10 @@ impl ParameterizedCommand {
         }
         if let Some(duration) = duration_to_write {
             out.write_u8(duration)?;
+        } else if prev_duration == 0 || prev_duration > 0x7f {
+            // velocity can only be written after a length, and there isn't one yet
+            velocity_sustain_out = prev_velocity_sustain;
+            velocity_sustain_to_write = None;
         } else if velocity_sustain_to_write.is_some() {
             out.write_u8(prev_duration)?;
         }
-- 
2.43.0


From 26cf451a7b244aa10b47327d447e70c22fbb32aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 31/35] fix: after a loop call, go on from the length and
 velocity the loop leaves

---
 src/nspc/mod.rs   |  2 +-
 src/nspc/track.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index b26bf24..4481912 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -219,7 +219,7 @@ impl Song {
             {
                 out.write(&PREAMBLE_OTHER_TRACK)?;
             }
-            track.write(out, call_loops)?;
+            track.write(out, call_loops, &self.tracks)?;
             out.write_u8(0x00)?;
         }
         Ok(())
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 38ecc56..e9b7665 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -349,18 +349,26 @@ impl Track {
         })
     }
 
+    // returns the length and velocity in effect at the end
     pub fn write(
         &self,
         out: &mut Cursor<Vec<u8>>,
         call_loops: &mut Vec<CallLoopRef>,
-    ) -> Result<(), Error> {
+        tracks: &[Track],
+    ) -> Result<(u8, Option<u8>), Error> {
         let mut duration = 0xff;
         let mut velocity = None;
         for cmd in &self.commands {
             let (duration_out, velocity_out) = cmd.write(out, duration, velocity, call_loops)?;
             duration = duration_out;
             velocity = velocity_out;
+            if let Some(track) = cmd.loop_target().and_then(|target| tracks.get(target)) {
+                let (duration_out, velocity_out) =
+                    track.write(&mut Cursor::new(Vec::new()), &mut Vec::new(), &[])?;
+                duration = duration_out;
+                velocity = velocity_out;
+            }
         }
-        Ok(())
+        Ok((duration, velocity))
     }
 }
-- 
2.43.0


From 83ca75869cc669f97d62701fc9cee21a4831ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 32/35] fix: count every repeat of a loop once, so that no
 command after it is lost

---
 src/nspc/seqtree.rs | 61 ++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 49c9eaa..fe60059 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -370,6 +370,17 @@ fn add_location(locations: &mut Vec<Location>, track_idx: usize, cmd_idx: usize,
     }
 }
 
+// the track and command index of every single repeat
+fn expand_locations(locations: &[Location], seq_len: usize) -> Vec<(usize, usize)> {
+    locations
+        .iter()
+        .flat_map(|loc| {
+            (0..loc.repeat_count as usize)
+                .map(move |i| (loc.track_idx, loc.cmd_idx + i * seq_len))
+        })
+        .collect()
+}
+
 impl SeqTree {
     pub fn new() -> SeqTree {
         SeqTree {
@@ -423,21 +434,14 @@ impl SeqTree {
                     if !shared_prefix.is_empty() && shared_prefix[0].can_be_first_in_call_loop() {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
+                        let old_seq_len = seq_len + edge.commands.len();
                         if shared_prefix.len() == edge.commands.len() {
-                            add_location(
-                                &mut edge.target.as_mut().unwrap().locations,
+                            edge.target.as_mut().unwrap().add_commands(
+                                &commands[shared_prefix.len()..],
                                 track_idx,
                                 seq_start,
                                 shared_seq_len,
                             );
-                            if shared_prefix.len() < commands.len() {
-                                edge.target.as_mut().unwrap().add_commands(
-                                    &commands[shared_prefix.len()..],
-                                    track_idx,
-                                    seq_start,
-                                    shared_seq_len,
-                                );
-                            }
                         } else {
                             let mut new_target = SeqTree {
                                 edges: Vec::new(),
@@ -445,11 +449,13 @@ impl SeqTree {
                             };
                             let old_target = edge.target.take();
                             if let Some(old_target) = old_target {
-                                for loc in &old_target.locations {
+                                for (track_idx, cmd_idx) in
+                                    expand_locations(&old_target.locations, old_seq_len)
+                                {
                                     add_location(
                                         &mut new_target.locations,
-                                        loc.track_idx,
-                                        loc.cmd_idx,
+                                        track_idx,
+                                        cmd_idx,
                                         shared_seq_len,
                                     );
                                 }
@@ -570,20 +576,29 @@ impl SeqTree {
     }
 
     fn consolidate_locations(locations: &Vec<Location>, seq_length: usize) -> Vec<Location> {
+        let mut starts = expand_locations(locations, seq_length);
+        starts.sort();
         let mut consolidated = Vec::new();
-        for location in locations {
-            if consolidated.last().map_or(false, |loc: &Location| {
-                loc.track_idx == location.track_idx
-                    && loc.cmd_idx + seq_length * loc.repeat_count as usize > location.cmd_idx
-            }) {
+        for (track_idx, cmd_idx) in starts {
+            let last_end = consolidated.last().and_then(|loc: &Location| {
+                if loc.track_idx == track_idx {
+                    Some(loc.cmd_idx + seq_length * loc.repeat_count as usize)
+                } else {
+                    None
+                }
+            });
+            if last_end.map_or(false, |end| end > cmd_idx) {
                 // too close, skip
-            } else if consolidated.last().map_or(false, |loc: &Location| {
-                loc.track_idx == location.track_idx
-                    && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
-            }) {
+            } else if last_end == Some(cmd_idx)
+                && consolidated.last().unwrap().repeat_count < u8::max_value()
+            {
                 consolidated.last_mut().unwrap().repeat_count += 1;
             } else {
-                consolidated.push(location.clone());
+                consolidated.push(Location {
+                    track_idx,
+                    cmd_idx,
+                    repeat_count: 1,
+                });
             }
         }
         consolidated
-- 
2.43.0


From a251406aa05e54015646c40d16e5b0fbb030b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 33/35] fix: reject MIDI files too long to count their ticks
 instead of overflowing

---
 src/midi/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index ef929e3..7eff9de 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -46,6 +46,22 @@ fn priority(message: &Message) -> u8 {
     }
 }
 
+// tick counts are multiplied by 24 when they are converted
+const MAX_TIME: u64 = (u32::max_value() / 24) as u64;
+
+fn total_time(track: &MidiTrack) -> u64 {
+    track
+        .messages
+        .iter()
+        .map(|message| match *message {
+            Message::MetaEvent { delta_time, .. }
+            | Message::MidiEvent { delta_time, .. }
+            | Message::SysExEvent { delta_time, .. } => u64::from(delta_time),
+            _ => 0,
+        })
+        .sum()
+}
+
 fn is_valid(message: &Message) -> bool {
     match *message {
         Message::MetaEvent {
@@ -219,6 +235,10 @@ impl MidiHandler {
             self.tracks.iter().all(|track| track.messages.iter().all(is_valid)),
             "MIDI read error: invalid event data"
         );
+        ensure!(
+            self.tracks.iter().all(|track| total_time(track) <= MAX_TIME),
+            "MIDI file is too long"
+        );
         self.tracks_to_channels(verbose);
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
-- 
2.43.0


From 3c83a17aed0833bbd75ca5996e990874ba949f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 34/35] fix: retriggered and stray releases don't change how
 long a channel needs its voice

---
 src/midi/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 7eff9de..72082e1 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -2,7 +2,7 @@ use failure::Error;
 use ghakuf::messages::*;
 use ghakuf::reader::*;
 use itertools::*;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use super::nspc::instruments::*;
 
@@ -243,36 +243,36 @@ impl MidiHandler {
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
-            let mut active_voices = 0usize;
+            let mut active_notes = HashSet::new();
             for message in &channel.messages {
                 match *message {
                     (Message::MidiEvent { ref event, .. }, abs_time) => {
                         match *event {
-                            MidiEvent::NoteOff { .. } => {
+                            MidiEvent::NoteOff { note, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_notes.len(),
                                     });
                                 }
-                                active_voices = active_voices.saturating_sub(1);
+                                active_notes.remove(&note);
                                 last_interval_end = abs_time;
                             }
-                            MidiEvent::NoteOn { velocity, .. } => {
+                            MidiEvent::NoteOn { note, velocity, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_notes.len(),
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices = active_voices.saturating_sub(1);
+                                    active_notes.remove(&note);
                                 } else {
-                                    active_voices += 1;
+                                    active_notes.insert(note);
                                 }
                                 last_interval_end = abs_time;
                             }
@@ -285,12 +285,12 @@ impl MidiHandler {
                     _ => {}
                 }
             }
-            if active_voices > 0 {
+            if !active_notes.is_empty() {
                 intervals.push(VoiceInterval {
                     start: last_interval_end,
                     end: u32::max_value(),
                     channel: i,
-                    voices: active_voices,
+                    voices: active_notes.len(),
                 });
             }
         }
-- 
2.43.0


From b12c9b40063f1fe0e4179a5178ed1af0ef1e783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:18 +0000
Subject: [PATCH 35/35] fix: refuse songs with more than eight channels at once
 without trying every assignment to voices

---
 src/midi/mod.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 72082e1..3735706 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -304,6 +304,11 @@ impl MidiHandler {
             vec![],
             vec![],
         ];
+        if self.most_channels_at_once() > 8 {
+            return Err(Error::from(MidiError::CouldntFit {
+                path: path.to_string_lossy().into_owned(),
+            }));
+        }
         self.find_base_voices(0, &active_base_intervals, path, verbose)?;
         self.channels_to_voices(path, verbose)?;
         Ok(())
@@ -346,6 +351,37 @@ impl MidiHandler {
         }
     }
 
+    /// The largest number of channels that sound at the same time. If there are
+    /// not enough voices for these, trying every assignment of channels to voices
+    /// can take minutes and never finds one.
+    fn most_channels_at_once(&self) -> i32 {
+        let mut changes: Vec<(u32, i32)> = Vec::new();
+        let mut sounding = 0;
+        for channel in &self.channels {
+            let changes_before = changes.len();
+            for interval in &channel.intervals {
+                if interval.voices > 0 {
+                    changes.push((interval.start, 1));
+                    changes.push((interval.end, -1));
+                }
+            }
+            if changes.len() > changes_before {
+                sounding += 1;
+            }
+        }
+        if sounding <= 8 {
+            return sounding;
+        }
+        changes.sort();
+        let mut most = 0;
+        let mut current = 0;
+        for (_, change) in changes {
+            current += change;
+            most = most.max(current);
+        }
+        most
+    }
+
     fn find_base_voices(
         &mut self,
         channel_idx: usize,
-- 
2.43.0

