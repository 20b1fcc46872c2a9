From 254a0aacefcc697cc3edf74077524cfe77b0b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 01/30] fix: return an error for non-integer
 BeatmapID/BeatmapSetID instead of panicking

---
 src/osu_file/metadata/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 1078531..92ffea7 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -1,5 +1,7 @@
 pub mod error;
 
+use std::num::ParseIntError;
+
 use nom::{
     bytes::complete::{tag, take_till},
     multi::separated_list0,
@@ -30,8 +32,8 @@ versioned_field!(Tags, Vec<String>, no_versions,
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-versioned_field!(BeatmapID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
-versioned_field!(BeatmapSetID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
+versioned_field!(BeatmapID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
+versioned_field!(BeatmapSetID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
 
 general_section!(
     /// A struct representing the metadata section of an osu file.
-- 
2.43.0


From 389008afc374e23c15e9064b9d3989a303ce807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 02/30] fix: parse an empty Tags field as no tags instead of
 one empty tag

---
 src/osu_file/metadata/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 92ffea7..b046a94 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -28,7 +28,11 @@ versioned_field!(Tags, Vec<String>, no_versions,
         )
         .map(|tags: Vec<&str>| tags.iter().map(|tag| tag.to_string()).collect());
 
-        Ok(space_separated_list.parse(s).unwrap().1)
+        if s.is_empty() {
+            Ok(Vec::new())
+        } else {
+            Ok(space_separated_list.parse(s).unwrap().1)
+        }
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-- 
2.43.0


From 8d6575d384aef41a822706da2e1a7018f02a8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 03/30] fix: report an unknown event type instead of panicking
 when a known header is a prefix of it

---
 src/osu_file/events/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 140fc56..9202940 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -4,7 +4,7 @@ pub mod normal_event;
 pub mod storyboard;
 
 use nom::branch::alt;
-use nom::combinator::{cut, eof, peek, success};
+use nom::combinator::{eof, peek, success};
 use nom::sequence::tuple;
 use nom::Parser;
 use nom::{bytes::complete::tag, combinator::rest, sequence::preceded};
@@ -62,7 +62,7 @@ impl Events {
         let background = || {
             peek(tuple((
                 tag::<_, _, nom::error::Error<_>>(normal_event::BACKGROUND_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Background)
         };
@@ -72,7 +72,7 @@ impl Events {
                     tag(normal_event::VIDEO_HEADER),
                     tag(normal_event::VIDEO_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Video)
         };
@@ -82,35 +82,35 @@ impl Events {
                     tag(normal_event::BREAK_HEADER),
                     tag(normal_event::BREAK_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Break)
         };
         let colour_transformation = || {
             peek(tuple((
                 tag(normal_event::COLOUR_TRANSFORMATION_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::ColourTransformation)
         };
         let sprite_legacy = || {
             peek(tuple((
                 tag(normal_event::SPRITE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SpriteLegacy)
         };
         let animation_legacy = || {
             peek(tuple((
                 tag(normal_event::ANIMATION_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::AnimationLegacy)
         };
         let sample_legacy = || {
             peek(tuple((
                 tag(normal_event::SAMPLE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SampleLegacy)
         };
-- 
2.43.0


From 08cac590d4e28431cba5d122a3ec94143ba43c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 04/30] fix: find the command header by byte offset so
 multibyte text cannot panic

---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 9202940..81cb969 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,7 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.chars().position(|c| c == ',') {
+                    let line_without_header = match line.find(',') {
                         Some(i) => &line[i + 1..],
                         None => line,
                     };
-- 
2.43.0


From 01ce700f34b8c0f3d1fac19597fdd3f28e5fe30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 05/30] fix: report an invalid animation loop type instead of
 panicking

---
 src/osu_file/events/storyboard/sprites.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index b287a1a..085033b 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -177,6 +177,7 @@ impl VersionedFromStr for Object {
             ),
         );
         let loop_type = alt((
+            nothing().map(|_| LoopType::default(version).unwrap()),
             preceded(
                 context(ParseObjectError::MissingLoopType.into(), comma()),
                 context(
@@ -184,7 +185,6 @@ impl VersionedFromStr for Object {
                     consume_rest_versioned_type(version),
                 ),
             ),
-            nothing().map(|_| LoopType::default(version).unwrap()),
         ));
 
         let (_, object) = alt((
-- 
2.43.0


From cae111b39fff713b1c7d53295762978304f1947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 06/30] fix: parse multi digit custom sample sets in HitSound
 triggers and reject misplaced fields instead of panicking

---
 src/osu_file/events/storyboard/types.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 8596fd0..490ac8f 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -41,7 +41,11 @@ impl VersionedFromStr for TriggerType {
                             let mut builder = String::with_capacity(256);
 
                             for (i, ch) in s.chars().enumerate() {
-                                if i != 0 && (ch.is_uppercase() || ch.is_numeric()) {
+                                // a custom sample set can have multiple digits
+                                let number_start = ch.is_numeric()
+                                    && !builder.ends_with(|c: char| c.is_numeric());
+
+                                if i != 0 && (ch.is_uppercase() || number_start) {
                                     fields.push(builder.to_owned());
                                     builder.clear();
                                 }
@@ -89,7 +93,8 @@ impl VersionedFromStr for TriggerType {
                                         } else {
                                             return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                         }
-                                        _ => unreachable!("The check for field size is already done so this is impossible to reach")
+                                        // a field is after the custom sample set
+                                        _ => return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                     }
                                 field_parse_attempt_index += 1;
                             }
-- 
2.43.0


From 51ef9bbe7eaa480675811c12a7ec34e63817b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 07/30] fix: handle sections without content instead of
 panicking or reading the next section as content

---
 src/osu_file/mod.rs |  2 +-
 src/parsers.rs      | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6999749..56d52c3 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -301,7 +301,7 @@ impl FromStr for OsuFile {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count() - 1;
+            line_number += section.lines().count().saturating_sub(1);
         }
 
         Ok(OsuFile {
diff --git a/src/parsers.rs b/src/parsers.rs
index 055d853..7b66d23 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,11 +5,11 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map_res, rest},
+    combinator::{cond, eof, flat_map, map_res, peek, rest, verify},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
     sequence::{delimited, preceded, terminated, tuple},
-    IResult,
+    IResult, Parser,
 };
 
 use crate::osu_file::{Version, VersionedFromStr};
@@ -139,7 +139,15 @@ pub fn square_section<'a>(
     let section_close = tag("]");
     let section_name_inner = take_till(|c: char| c == ']' || c == '\n');
     let section_name = delimited(section_open, section_name_inner, section_close);
-    let section_until = alt((take_until("\n["), rest));
 
-    tuple((multispace0, section_name, multispace0, section_until))
+    let header = tuple((multispace0, section_name, multispace0));
+
+    // a section that's directly followed by the next section has no content
+    flat_map(header, |(ws, section_name, ws2): (&str, &str, &str)| {
+        let next_section = cond(ws2.ends_with('\n'), peek(tag("[")));
+        let section_empty = verify(next_section, |next| next.is_some()).map(|_| "");
+
+        alt((section_empty, take_until("\n["), rest))
+            .map(move |section| (ws, section_name, ws2, section))
+    })
 }
-- 
2.43.0


From 0d90df1dd35d9d8815f9cacd3e18f34786ef58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 08/30] fix: report section names without an opening or closing
 bracket instead of dropping the rest of the file

---
 src/osu_file/mod.rs       | 16 +++++++++++++++-
 src/osu_file/osb/error.rs |  8 ++++++++
 src/osu_file/osb/mod.rs   | 16 +++++++++++++++-
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 56d52c3..cdb02dd 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -231,7 +231,7 @@ impl FromStr for OsuFile {
             .collect::<Vec<_>>()
             .join("\n");
 
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (remaining, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(8);
 
@@ -304,6 +304,20 @@ impl FromStr for OsuFile {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // everything is a section unless a section name isn't properly enclosed with brackets
+        let remaining_trimmed = remaining.trim_start();
+        if let Some(line) = remaining_trimmed.lines().next() {
+            let leading_ws = &remaining[..remaining.len() - remaining_trimmed.len()];
+            let line = line.trim_end();
+
+            let err = match line.strip_prefix('[') {
+                Some(name) => ParseError::SectionNameNoCloseBracket(name.to_string()),
+                None => ParseError::SectionNameNoOpenBracket(line.to_string()),
+            };
+
+            return Err(Error::new(err, line_number + leading_ws.lines().count()));
+        }
+
         Ok(OsuFile {
             version,
             general,
diff --git a/src/osu_file/osb/error.rs b/src/osu_file/osb/error.rs
index 7d08d20..d69b2ae 100644
--- a/src/osu_file/osb/error.rs
+++ b/src/osu_file/osb/error.rs
@@ -15,6 +15,14 @@ pub enum ParseError {
     /// Unknown section name defined.
     #[error("There is an unknown section")]
     UnknownSection,
+    /// Error used when the opening bracket for the section is missing.
+    #[error("The opening bracket of the section is missing, expected `[` before {0}")]
+    #[strum(disabled)]
+    SectionNameNoOpenBracket(String),
+    /// Error used when the closing bracket for the section is missing.
+    #[error("The closing bracket of the section is missing, expected `]` after {0}")]
+    #[strum(disabled)]
+    SectionNameNoCloseBracket(String),
     #[error(transparent)]
     #[strum(disabled)]
     ParseVariableError(#[from] ParseVariableError),
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index b483a34..1b17fd6 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -54,7 +54,7 @@ impl VersionedFromStr for Osb {
 
         // we get sections
         // only valid sections currently are [Variables] [Events]
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (remaining, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(2);
         let mut line_number = pre_section_count;
@@ -105,6 +105,20 @@ impl VersionedFromStr for Osb {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // everything is a section unless a section name isn't properly enclosed with brackets
+        let remaining_trimmed = remaining.trim_start();
+        if let Some(line) = remaining_trimmed.lines().next() {
+            let leading_ws = &remaining[..remaining.len() - remaining_trimmed.len()];
+            let line = line.trim_end();
+
+            let err = match line.strip_prefix('[') {
+                Some(name) => ParseError::SectionNameNoCloseBracket(name.to_string()),
+                None => ParseError::SectionNameNoOpenBracket(line.to_string()),
+            };
+
+            return Err(Error::new(err, line_number + leading_ws.lines().count()));
+        }
+
         Ok(Some(Osb { events, variables }))
     }
 }
-- 
2.43.0


From fba1232693dc9bb2048d1e41e4725c98e86cf34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 09/30] fix: ignore the byte order mark of .osb files instead
 of dropping the whole storyboard

---
 src/osu_file/osb/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 1b17fd6..0e919bd 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -24,6 +24,8 @@ impl VersionedFromStr for Osb {
             return Ok(None);
         }
 
+        let s = s.strip_prefix('\u{feff}').unwrap_or(s);
+
         let pre_section_count = s
             .lines()
             .take_while(|s| {
-- 
2.43.0


From 09176c7b129a8e09c1c3ce7b293e4757df9666e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 10/30] fix: count ended lines for the error line index of
 indented lines, leading blank lines and .osb sections

---
 src/helper/macros.rs    |  4 ++--
 src/helper/mod.rs       |  5 +++++
 src/osu_file/mod.rs     | 13 ++++++++-----
 src/osu_file/osb/mod.rs |  9 +++++----
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 5293015..894cd70 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -126,7 +126,7 @@ macro_rules! general_section_inner {
 
                 if !s.trim().is_empty() {
                     // line count from fields
-                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.lines().count()).sum() };
+                    let line_count = { fields.iter().map(|(_, _, _, ws)| crate::helper::line_end_count(ws)).sum() };
 
                     return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
                 }
@@ -148,7 +148,7 @@ macro_rules! general_section_inner {
                         _ => return Err(crate::osu_file::types::Error::new(ParseError::InvalidKey, line_count)),
                     }
 
-                    line_count += ws_2.lines().count();
+                    line_count += crate::helper::line_end_count(ws_2);
                     parsed_fields.push(name);
                 }
 
diff --git a/src/helper/mod.rs b/src/helper/mod.rs
index c83983f..9cfd9ae 100644
--- a/src/helper/mod.rs
+++ b/src/helper/mod.rs
@@ -17,6 +17,11 @@ where
         .join("|")
 }
 
+/// Amount of lines that are ended in the string.
+pub fn line_end_count(s: &str) -> usize {
+    s.matches('\n').count()
+}
+
 pub fn nth_bit_state_i64(value: i64, nth_bit: u8) -> bool {
     value >> nth_bit & 1 == 1
 }
diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index cdb02dd..a284e9f 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -21,6 +21,7 @@ use nom::multi::many0;
 use nom::sequence::{preceded, tuple};
 use thiserror::Error;
 
+use crate::helper::line_end_count;
 use crate::parsers::square_section;
 
 pub use colours::Colours;
@@ -203,6 +204,8 @@ impl FromStr for OsuFile {
             return Err(ParseError::InvalidFileVersion.into());
         }
 
+        let version_line = line_end_count(trailing_ws);
+
         let pre_section_count = s
             .lines()
             .take_while(|s| {
@@ -222,7 +225,7 @@ impl FromStr for OsuFile {
                 continue;
             }
 
-            return Err(Error::new(ParseError::UnexpectedLine, i));
+            return Err(Error::new(ParseError::UnexpectedLine, version_line + i));
         }
 
         let s = s
@@ -246,17 +249,17 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.lines().count() + pre_section_count;
+        let mut line_number = version_line + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += line_end_count(ws);
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += line_end_count(ws2);
 
             match section_name {
                 "General" => {
@@ -315,7 +318,7 @@ impl FromStr for OsuFile {
                 None => ParseError::SectionNameNoOpenBracket(line.to_string()),
             };
 
-            return Err(Error::new(err, line_number + leading_ws.lines().count()));
+            return Err(Error::new(err, line_number + line_end_count(leading_ws)));
         }
 
         Ok(OsuFile {
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 0e919bd..78fe4af 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -3,6 +3,7 @@ pub mod types;
 
 use nom::multi::many0;
 
+use crate::helper::line_end_count;
 use crate::parsers::square_section;
 
 use super::{Error, Events, Version, VersionedFromStr, VersionedToString};
@@ -64,14 +65,14 @@ impl VersionedFromStr for Osb {
         let (mut events, mut variables) = (None, None);
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += line_end_count(ws);
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += line_end_count(ws2);
 
             match section_name {
                 "Variables" => {
@@ -104,7 +105,7 @@ impl VersionedFromStr for Osb {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count().saturating_sub(1);
+            line_number += line_end_count(section);
         }
 
         // everything is a section unless a section name isn't properly enclosed with brackets
@@ -118,7 +119,7 @@ impl VersionedFromStr for Osb {
                 None => ParseError::SectionNameNoOpenBracket(line.to_string()),
             };
 
-            return Err(Error::new(err, line_number + leading_ws.lines().count()));
+            return Err(Error::new(err, line_number + line_end_count(leading_ws)));
         }
 
         Ok(Some(Osb { events, variables }))
-- 
2.43.0


From 15c450ffe9b2cd5592908cf96b82cf2eeb6bf8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 11/30] fix: report out of range times instead of panicking
 when applying the old version time offset

---
 src/osu_file/events/normal_event/mod.rs     |  2 +-
 src/osu_file/events/normal_event/parsers.rs | 14 ++--
 src/osu_file/hitobjects/mod.rs              | 73 +++++++++++----------
 src/osu_file/timingpoints/mod.rs            | 21 +++---
 4 files changed, 56 insertions(+), 54 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index c77e49d..930032f 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -36,7 +36,7 @@ fn position_str(position: &Option<Position>) -> String {
 
 fn time_to_string(time: Integer, version: Version) -> String {
     let time = if (3..=4).contains(&version) {
-        time - OLD_VERSION_TIME_OFFSET
+        time.saturating_sub(OLD_VERSION_TIME_OFFSET)
     } else {
         time
     };
diff --git a/src/osu_file/events/normal_event/parsers.rs b/src/osu_file/events/normal_event/parsers.rs
index e39d384..f2e79b7 100644
--- a/src/osu_file/events/normal_event/parsers.rs
+++ b/src/osu_file/events/normal_event/parsers.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    combinator::eof,
+    combinator::{eof, map_opt},
     error::context,
     sequence::{preceded, tuple},
     IResult, Parser,
@@ -45,11 +45,11 @@ pub fn start_time_offset<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&'a str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        comma_field_type().map(move |time| {
+        map_opt(comma_field_type(), move |time: Integer| {
             if (3..=4).contains(&version) {
-                time + OLD_VERSION_TIME_OFFSET
+                time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                time
+                Some(time)
             }
         }),
     )
@@ -61,11 +61,11 @@ pub fn end_time<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        consume_rest_type().map(move |end_time| {
+        map_opt(consume_rest_type(), move |end_time: Integer| {
             if (3..=4).contains(&version) {
-                end_time + OLD_VERSION_TIME_OFFSET
+                end_time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                end_time
+                Some(end_time)
             }
         }),
     )
diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 288011a..b46c582 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -196,18 +196,20 @@ impl VersionedFromStr for HitObject {
             .map(|(x, y)| (Position { x, y })),
             preceded(
                 context(ParseHitObjectError::MissingTime.into(), comma()),
-                context(ParseHitObjectError::InvalidTime.into(), comma_field_type()),
-            )
-            // version 3 has a slight time delay of 24ms
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
+                // version 3 has a slight time delay of 24ms
+                context(
+                    ParseHitObjectError::InvalidTime.into(),
+                    map_opt(comma_field_type(), |mut t: Decimal| {
+                        if (3..=4).contains(&version) {
+                            if let Either::Left(value) = t.get_mut() {
+                                *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                            }
+                        }
 
-                t
-            }),
+                        Some(t)
+                    }),
+                ),
+            ),
             preceded(
                 context(ParseHitObjectError::MissingObjType.into(), comma()),
                 context(
@@ -374,18 +376,17 @@ impl VersionedFromStr for HitObject {
                     context(ParseHitObjectError::MissingEndTime.into(), comma()),
                     context(
                         ParseHitObjectError::InvalidEndTime.into(),
-                        comma_field_type(),
+                        map_opt(comma_field_type(), |mut t: Decimal| {
+                            if (3..=4).contains(&version) {
+                                if let Either::Left(value) = t.get_mut() {
+                                    *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                                }
+                            }
+
+                            Some(t)
+                        }),
                     ),
-                )
-                .map(|mut t: Decimal| {
-                    if (3..=4).contains(&version) {
-                        if let Either::Left(value) = t.get_mut() {
-                            *value += OLD_VERSION_TIME_OFFSET;
-                        }
-                    }
-
-                    t
-                }),
+                ),
                 hitsample,
             ))(s)?;
 
@@ -416,17 +417,19 @@ impl VersionedFromStr for HitObject {
             ));
             let end_time = context(
                 ParseHitObjectError::InvalidEndTime.into(),
-                map_res(take_until(":"), |s: &str| s.parse()),
-            )
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
+                map_opt(
+                    map_res(take_until(":"), |s: &str| s.parse()),
+                    |mut t: Decimal| {
+                        if (3..=4).contains(&version) {
+                            if let Either::Left(value) = t.get_mut() {
+                                *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                            }
+                        }
 
-                t
-            });
+                        Some(t)
+                    },
+                ),
+            );
             let (_, (end_time, hitsample)) = tuple((
                 preceded(
                     context(ParseHitObjectError::MissingEndTime.into(), comma()),
@@ -459,7 +462,7 @@ impl VersionedToString for HitObject {
             self.position.y.to_string(),
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
@@ -525,7 +528,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::Spinner { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
@@ -535,7 +538,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::OsuManiaHold { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4662053..9d04655 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -5,7 +5,7 @@ use crate::osu_file::types::Decimal;
 use either::Either;
 use nom::{
     branch::alt,
-    combinator::{cut, map_res, success, verify, rest},
+    combinator::{cut, map_opt, map_res, success, verify, rest},
     error::context,
     sequence::{preceded, tuple},
     Parser,
@@ -282,17 +282,16 @@ impl VersionedFromStr for TimingPoint {
         ) = tuple((
             context(
                 ParseTimingPointError::InvalidTime.into(),
-                comma_field_type(),
-            )
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                map_opt(comma_field_type(), |mut t: Decimal| {
+                    if (3..=4).contains(&version) {
+                        if let Either::Left(value) = t.get_mut() {
+                            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                        }
                     }
-                }
 
-                t
-            }),
+                    Some(t)
+                }),
+            ),
             preceded(
                 context(ParseTimingPointError::MissingBeatLength.into(), comma()),
                 alt((
@@ -448,7 +447,7 @@ impl VersionedToString for TimingPoint {
         let mut fields = vec![
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
-- 
2.43.0


From e5a0608adda03e12b2f77ee745300cc6f2248796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 12/30] fix: return None instead of panicking when the BPM or
 slider velocity of a timing point isn't representable

---
 src/osu_file/timingpoints/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 9d04655..f923ad6 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -152,13 +152,15 @@ impl TimingPoint {
     }
 
     /// Calculates BPM using the `beatLength` field when unherited.
-    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the result isn't representable.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => Some(Self::beat_duration_ms_to_bpm(*value)),
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(*value)
+                            .and_then(|value| value.checked_mul(dec!(60000))),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -169,7 +171,7 @@ impl TimingPoint {
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is uninherited, `beat_length` isn't a valid decimal or the result isn't representable.
     pub fn calc_slider_velocity_multiplier(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
@@ -177,9 +179,9 @@ impl TimingPoint {
                     None
                 } else {
                     match self.beat_length.get() {
-                        Either::Left(value) => {
-                            Some(rust_decimal::Decimal::ONE / (value / dec!(-100)))
-                        }
+                        Either::Left(value) => value
+                            .checked_div(dec!(-100))
+                            .and_then(|value| rust_decimal::Decimal::ONE.checked_div(value)),
                         Either::Right(_) => None,
                     }
                 }
-- 
2.43.0


From 061009e8f12981bde3b3e1871470cb55f4e8f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 13/30] fix: write timing point sample indexes over the i32
 range as they are instead of as negative numbers

---
 src/osu_file/timingpoints/types.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 824afeb..50cd1d9 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -189,8 +189,13 @@ impl VersionedFrom<SampleIndex> for Integer {
 }
 
 impl VersionedToString for SampleIndex {
-    fn to_string(&self, version: Version) -> Option<String> {
-        <i32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
+    fn to_string(&self, _: Version) -> Option<String> {
+        let index = match self {
+            SampleIndex::OsuDefaultHitsounds => 0,
+            SampleIndex::Index(sample_index) => sample_index.get(),
+        };
+
+        Some(index.to_string())
     }
 }
 
-- 
2.43.0


From 31873b20c791217fe53dad172698c8d1ed25914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 14/30] fix: only write variable names in commands where
 reading them back gives the same command

---
 src/osu_file/events/mod.rs                 | 48 +++++++++++++---------
 src/osu_file/events/storyboard/cmds/mod.rs | 15 ++++++-
 2 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 81cb969..e3810b2 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,26 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.find(',') {
-                        Some(i) => &line[i + 1..],
-                        None => line,
-                    };
-
-                    let mut line_with_variable: Option<String> = None;
-                    for variable in variables {
-                        let variable_full = format!("${}", variable.name);
-
-                        if line_without_header.contains(&variable_full) {
-                            let new_line = match line_with_variable {
-                                Some(line_with_variable) => {
-                                    line_with_variable.replace(&variable_full, &variable.value)
-                                }
-                                None => line.replace(&variable_full, &variable.value),
-                            };
-
-                            line_with_variable = Some(new_line);
-                        }
-                    }
+                    let line_with_variable = expand_variables(line, variables);
 
                     match line_with_variable {
                         Some(line_with_variable) => Error::new_from_result_into(
@@ -314,6 +295,33 @@ impl Events {
     }
 }
 
+/// Replaces the variable names of a storyboard command line with their values.
+/// - Returns `None` if there's nothing to replace.
+pub(crate) fn expand_variables(line: &str, variables: &[Variable]) -> Option<String> {
+    let line_without_header = match line.find(',') {
+        Some(i) => &line[i + 1..],
+        None => line,
+    };
+
+    let mut line_with_variable: Option<String> = None;
+    for variable in variables {
+        let variable_full = format!("${}", variable.name);
+
+        if line_without_header.contains(&variable_full) {
+            let new_line = match line_with_variable {
+                Some(line_with_variable) => {
+                    line_with_variable.replace(&variable_full, &variable.value)
+                }
+                None => line.replace(&variable_full, &variable.value),
+            };
+
+            line_with_variable = Some(new_line);
+        }
+    }
+
+    line_with_variable
+}
+
 impl VersionedToString for Events {
     fn to_string(&self, version: Version) -> Option<String> {
         self.to_string_variables(version, &[])
diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index d360c6d..fc466e3 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -5,6 +5,7 @@ use std::fmt::Display;
 
 use super::error::*;
 use super::types::*;
+use crate::events::expand_variables;
 use crate::osb::Variable;
 use crate::osu_file::types::Decimal;
 use crate::osu_file::{Integer, Version, VersionedFromStr, VersionedToString};
@@ -74,11 +75,21 @@ impl Command {
         let end_time_to_string =
             |end_time: &Option<i32>| end_time.map_or("".to_string(), |t| t.to_string());
         let variable_replace = |header, cmd: String| {
+            let original = format!("{header},{cmd}");
             let mut cmd = cmd;
 
             for variable in variables {
-                if cmd.contains(&variable.value) {
-                    cmd = cmd.replace(&variable.value, &format!("${}", variable.name));
+                if variable.value.is_empty() || !cmd.contains(&variable.value) {
+                    continue;
+                }
+
+                let replaced = cmd.replace(&variable.value, &format!("${}", variable.name));
+
+                // the value could've been found in the name of another variable
+                if expand_variables(&format!("{header},{replaced}"), variables).as_ref()
+                    == Some(&original)
+                {
+                    cmd = replaced;
                 }
             }
 
-- 
2.43.0


From c72d6aa46eff70b89e27330fb520d8a098858b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 15/30] fix: return no frame file names instead of panicking
 for an animation path without a file name

---
 src/osu_file/events/storyboard/sprites.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 085033b..c911b8d 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -242,11 +242,16 @@ pub struct Animation {
 }
 
 impl Animation {
+    /// File names of each frame.
+    /// - Returns an empty `Vec` if the file path doesn't have a file name.
     pub fn frame_file_names(&self) -> Vec<PathBuf> {
+        let filepath = self.filepath.get();
+        let mut file_name = match filepath.file_name() {
+            Some(file_name) => file_name.to_string_lossy().to_string(),
+            None => return Vec::new(),
+        };
         let mut file_names = Vec::with_capacity(self.frame_count as usize);
 
-        let filepath = self.filepath.get();
-        let mut file_name = filepath.file_name().unwrap().to_string_lossy().to_string();
         let file_extension = match filepath.extension() {
             Some(extension) => {
                 let extension = format!(".{}", extension.to_string_lossy());
-- 
2.43.0


From d49466f53390455b74009a28e6494632b3b87092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 16/30] fix: push and set continuing command fields without
 panicking on short lists and fill both missing colours

---
 src/osu_file/events/storyboard/cmds/types.rs | 30 +++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 26c2562..7a87b87 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -43,8 +43,11 @@ impl<T> ContinuingFields<T> {
         if let Some(last_continuing) = self.continuing.last() {
             if last_continuing.1.is_none() {
                 // find last 1 field
-                let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                let last_field = if let Some(last_continuing_with_1) = self
+                    .continuing
+                    .len()
+                    .checked_sub(2)
+                    .and_then(|i| self.continuing.get(i))
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -64,7 +67,7 @@ impl<T> ContinuingFields<T> {
         fields: (T, Option<T>),
     ) -> Result<(), ContinuingSetError> {
         // if index isn't the last index, field 1 being none will return an error
-        if index != self.continuing.len() - 1 && fields.1.is_none() {
+        if self.continuing.len().checked_sub(1) != Some(index) && fields.1.is_none() {
             Err(ContinuingSetError::InvalidSecondFieldOption)
         } else {
             match self.continuing.get_mut(index) {
@@ -135,11 +138,14 @@ impl Colours {
     }
 
     pub fn push_continuing_rgbs(&mut self, continuing_fields: (u8, Option<u8>, Option<u8>)) {
-        if let Some(last_continuing) = self.continuing.last() {
+        if let Some(&last_continuing) = self.continuing.last() {
             if last_continuing.1.is_none() {
                 // find last field
-                let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                let last_field = if let Some(last_continuing_with_1) = self
+                    .continuing
+                    .len()
+                    .checked_sub(2)
+                    .and_then(|i| self.continuing.get(i))
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -148,10 +154,14 @@ impl Colours {
                 };
 
                 self.continuing.last_mut().unwrap().1 = last_field.copied();
-            } else if last_continuing.2.is_none() {
+            }
+            if last_continuing.2.is_none() {
                 // find last field
-                let last_field = if let Some(last_continuing_with_2) =
-                    self.continuing.get(self.continuing.len() - 2)
+                let last_field = if let Some(last_continuing_with_2) = self
+                    .continuing
+                    .len()
+                    .checked_sub(2)
+                    .and_then(|i| self.continuing.get(i))
                 {
                     last_continuing_with_2.2.as_ref()
                 } else {
@@ -171,7 +181,7 @@ impl Colours {
         fields: (u8, Option<u8>, Option<u8>),
     ) -> Result<(), ContinuingRGBSetError> {
         // if index isn't the last index, b or g being none will return an error
-        let index_is_last = index == self.continuing.len() - 1;
+        let index_is_last = self.continuing.len().checked_sub(1) == Some(index);
 
         if !index_is_last && fields.1.is_none() {
             Err(ContinuingRGBSetError::InvalidFieldOption(
-- 
2.43.0


From 25848591fb711f8836bcb7493a51ed3c2f525509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 17/30] fix: return an error instead of panicking when pushing
 a command without indentation

---
 src/osu_file/events/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index e3810b2..6bb138e 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -487,7 +487,8 @@ pub trait EventWithCommands {
                 };
             }
 
-            unreachable!();
+            // commands are always indented
+            Err(CommandPushError::InvalidIndentation(1, indentation))
         }
     }
 
-- 
2.43.0


From dd464ab234a8575257316facd07d0632753d33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 18/30] fix: read an empty hitsample of mania holds as no
 hitsample, as it's written

---
 src/osu_file/hitobjects/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index b46c582..0f8e3f5 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -403,7 +403,7 @@ impl VersionedFromStr for HitObject {
             // osu!mania hold
             // ppy has done it once again
             let hitsample = alt((
-                nothing().map(|_| None),
+                preceded(char(':'), nothing()).map(|_| None),
                 preceded(
                     context(ParseHitObjectError::MissingHitSample.into(), char(':')),
                     context(
-- 
2.43.0


From 1841c822f6f1379cf78e6486bf38394a94974eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 19/30] fix: report an invalid second item of a colon set as
 such

---
 src/osu_file/hitobjects/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/hitobjects/types.rs b/src/osu_file/hitobjects/types.rs
index 182004d..0d71d3b 100644
--- a/src/osu_file/hitobjects/types.rs
+++ b/src/osu_file/hitobjects/types.rs
@@ -81,7 +81,7 @@ impl VersionedFromStr for EdgeSet {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_versioned_type(version),
             ),
         ))(s)?;
@@ -120,7 +120,7 @@ impl VersionedFromStr for CurvePoint {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_type(),
             ),
         ))(s)?;
-- 
2.43.0


From 9ca82e71a7d8d5e6bb3d373c4f0faac4d15103f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 20/30] fix: don't write game modes that don't exist in the
 version

---
 src/osu_file/general/types.rs | 36 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/osu_file/general/types.rs b/src/osu_file/general/types.rs
index 577ef7a..da7a99f 100644
--- a/src/osu_file/general/types.rs
+++ b/src/osu_file/general/types.rs
@@ -141,6 +141,23 @@ pub enum Mode {
     Mania,
 }
 
+impl Mode {
+    /// If the game mode exists in the version.
+    fn exists_in(self, version: Version) -> bool {
+        // earliest versions
+        // osu   3
+        // taiko 5
+        // catch 7
+        // mania 10
+        match version {
+            3..=4 => self == Mode::Osu,
+            5..=6 => self == Mode::Osu || self == Mode::Taiko,
+            7..=9 => self != Mode::Mania,
+            _ => true,
+        }
+    }
+}
+
 impl VersionedFromStr for Mode {
     type Err = ParseGameModeError;
 
@@ -155,25 +172,14 @@ impl VersionedFromStr for Mode {
             _ => Err(ParseGameModeError::UnknownVariant),
         }?;
 
-        // earliest versions
-        // osu   3
-        // taiko 5
-        // catch 7
-        // mania 10
-        let mode = match version {
-            3..=4 if mode != Mode::Osu => None,
-            5..=6 if mode != Mode::Osu && mode != Mode::Taiko => None,
-            7..=9 if mode == Mode::Mania => None,
-            _ => Some(mode),
-        };
-
-        Ok(mode)
+        Ok(mode.exists_in(version).then_some(mode))
     }
 }
 
 impl VersionedToString for Mode {
-    fn to_string(&self, _: Version) -> Option<String> {
-        Some((*self as usize).to_string())
+    fn to_string(&self, version: Version) -> Option<String> {
+        self.exists_in(version)
+            .then(|| (*self as usize).to_string())
     }
 }
 
-- 
2.43.0


From e249c10abc942fb9502b6468870d63a68bfd7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 21/30] fix: only ignore the spacing around the key in
 osu_str_trimmer instead of all whitespace of lines with colons

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6ed5bf4..fd3b306 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -94,15 +94,17 @@ pub fn osu_str_trimmer(s: &str) -> String {
                 let line = line
                     .chars()
                     .filter(|c| {
-                        if !header && !value && *c == ':' {
+                        if header && *c == ':' {
                             header = false;
                             value = true;
                             return true;
                         }
 
-                        if header && c.is_whitespace() {
+                        // the value starts after the spacing
+                        if (header || value) && c.is_whitespace() {
                             return false;
                         }
+                        value = false;
 
                         true
                     })
-- 
2.43.0


From c611216499b6d9ea6b513d4b176089f45998dc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 22/30] fix: Comments before the first section can end with a
 square bracket

---
 src/osu_file/mod.rs     | 2 +-
 src/osu_file/osb/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index a284e9f..d495080 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -210,7 +210,7 @@ impl FromStr for OsuFile {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || (!s.starts_with('[') && !s.ends_with(']'))
             })
             .count();
 
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 78fe4af..5878ab3 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -31,7 +31,7 @@ impl VersionedFromStr for Osb {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || (!s.starts_with('[') && !s.ends_with(']'))
             })
             .count();
 
-- 
2.43.0


From 86224bb88f88e5724bd2dad64ffe911fa1f2e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 23/30] fix: Write the commands of legacy sprites, animations
 and samples that are written alone

---
 src/osu_file/events/normal_event/mod.rs | 52 ++++++++++++-------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index 930032f..2e61eb5 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -412,13 +412,7 @@ impl VersionedFromStr for SpriteLegacy {
 
 impl VersionedToString for SpriteLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{SPRITE_LEGACY_HEADER},{},{},{}{}",
-            self.layer.to_string(version).unwrap(),
-            self.origin.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            position_str(&self.position),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -432,7 +426,13 @@ impl EventWithCommands for SpriteLegacy {
     }
 
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{SPRITE_LEGACY_HEADER},{},{},{}{}",
+            self.layer.to_string(version).unwrap(),
+            self.origin.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            position_str(&self.position),
+        ))
     }
 }
 
@@ -494,13 +494,7 @@ impl VersionedFromStr for AnimationLegacy {
 
 impl VersionedToString for AnimationLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
-            self.layer.to_string(version).unwrap(),
-            self.origin.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            position_str(&self.position),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -512,7 +506,13 @@ impl EventWithCommands for AnimationLegacy {
         &mut self.commands
     }
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
+            self.layer.to_string(version).unwrap(),
+            self.origin.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            position_str(&self.position),
+        ))
     }
 }
 
@@ -580,15 +580,7 @@ impl VersionedFromStr for SampleLegacy {
 
 impl VersionedToString for SampleLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
-            self.time,
-            self.layer.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            self.volume
-                .map(|v| format!(",{}", v.to_string(version).unwrap()))
-                .unwrap_or_default(),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -602,6 +594,14 @@ impl EventWithCommands for SampleLegacy {
     }
 
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
+            self.time,
+            self.layer.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            self.volume
+                .map(|v| format!(",{}", v.to_string(version).unwrap()))
+                .unwrap_or_default(),
+        ))
     }
 }
-- 
2.43.0


From ae56d40396f1bed193afac8a7b484532a27e3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 24/30] fix: Write variables in the commands of backgrounds and
 videos

---
 src/osu_file/events/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 6bb138e..1545438 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -360,8 +360,8 @@ impl Event {
     pub fn to_string_variables(&self, version: Version, variables: &[Variable]) -> Option<String> {
         match self {
             Event::Comment(comment) => Some(format!("//{comment}")),
-            Event::Background(background) => background.to_string(version),
-            Event::Video(video) => video.to_string(version),
+            Event::Background(background) => background.to_string_variables(version, variables),
+            Event::Video(video) => video.to_string_variables(version, variables),
             Event::Break(break_) => break_.to_string(version),
             Event::ColourTransformation(colour_trans) => colour_trans.to_string(version),
             Event::SpriteLegacy(sprite) => sprite.to_string_variables(version, variables),
-- 
2.43.0


From dd71e3c5b057297a2cbd8fa92b13c42fc9b8192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 25/30] fix: Report invalid edge sounds, edge sets and curve
 points as such instead of as a missing next field

---
 src/parsers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 7b66d23..77da5a3 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -69,7 +69,11 @@ where
         T::from_str(s, version).map(|v| v.unwrap())
     });
 
-    separated_list0(tag("|"), item)
+    // what's left of a list with an invalid item isn't the end of the field
+    terminated(
+        separated_list0(tag("|"), item),
+        peek(alt((nothing(), comma()))),
+    )
 }
 
 pub fn comma<'a, E>() -> impl FnMut(&'a str) -> IResult<&'a str, &str, E>
-- 
2.43.0


From 16662e6d34528b8af8f9ef38cd6ae3f32cde1be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 26/30] fix: Report a red or green with something behind its
 digits as invalid instead of as a missing next value

---
 src/osu_file/colours/types.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/colours/types.rs b/src/osu_file/colours/types.rs
index 4f7d5d0..e7b1990 100644
--- a/src/osu_file/colours/types.rs
+++ b/src/osu_file/colours/types.rs
@@ -1,6 +1,7 @@
 use nom::{
+    combinator::{eof, peek},
     error::context,
-    sequence::{preceded, tuple},
+    sequence::{preceded, terminated, tuple},
 };
 
 use crate::parsers::consume_rest_type;
@@ -22,7 +23,13 @@ impl VersionedFromStr for Rgb {
     type Err = ParseRgbError;
 
     fn from_str(s: &str, _: Version) -> Result<Option<Self>, Self::Err> {
-        let byte = || map_res(digit1, |s: &str| s.parse());
+        // the digits have to be everything that's in front of the separator
+        let byte = || {
+            map_res(
+                terminated(digit1, peek(preceded(space0, alt((comma(), eof))))),
+                |s: &str| s.parse(),
+            )
+        };
 
         let (_, (red, green, blue)) = tuple((
             preceded(space0, context(ParseRgbError::InvalidRed.into(), byte())),
-- 
2.43.0


From 84207982a1f0a86894ea411f13fb3d1495e1d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 27/30] fix: Report a missing easing of a move command, and
 unknown command types that start with a known one, as such

---
 src/osu_file/events/storyboard/cmds/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index fc466e3..0506aab 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -364,6 +364,10 @@ impl VersionedFromStr for Command {
 
     fn from_str(s: &str, version: Version) -> std::result::Result<Option<Self>, Self::Err> {
         let indentation = take_while(|c: char| c == ' ' || c == '_');
+        // the type has to be the whole field
+        let command_tag = |command_type: &'static str| {
+            terminated(tag(command_type), peek(alt((comma(), nothing()))))
+        };
         let start_time = || {
             preceded(
                 context(ParseCommandError::MissingStartTime.into(), comma()),
@@ -423,7 +427,7 @@ impl VersionedFromStr for Command {
                 let continuing = many0(preceded(comma(), tuple((comma_field_type(), continuing))));
 
                 preceded(
-                    tag(command_type),
+                    command_tag(command_type),
                     cut(tuple((
                         easing_start_end_time(),
                         preceded(
@@ -443,7 +447,7 @@ impl VersionedFromStr for Command {
                 let continuing = many0(preceded(comma(), comma_field_type()));
 
                 preceded(
-                    tag(command_type),
+                    command_tag(command_type),
                     cut(tuple((
                         easing_start_end_time(),
                         preceded(
@@ -456,7 +460,7 @@ impl VersionedFromStr for Command {
             };
 
         let loop_ = preceded(
-            tag("L"),
+            command_tag("L"),
             cut(tuple((
                 alt((tuple((comma(), peek(comma()))).map(|_| None), start_time())),
                 preceded(
@@ -510,7 +514,7 @@ impl VersionedFromStr for Command {
 
             preceded(
                 tuple((
-                    tag("T"),
+                    command_tag("T"),
                     context(ParseCommandError::MissingTriggerType.into(), cut(comma())),
                 )),
                 cut(tuple((
@@ -563,7 +567,7 @@ impl VersionedFromStr for Command {
             ));
 
             preceded(
-                tag("C"),
+                command_tag("C"),
                 cut(tuple((
                     easing_start_end_time(),
                     preceded(
@@ -605,7 +609,7 @@ impl VersionedFromStr for Command {
                 many0(preceded(comma(), comma_field_versioned_type(version)));
 
             preceded(
-                tag("P"),
+                command_tag("P"),
                 cut(tuple((
                     easing_start_end_time(),
                     preceded(
@@ -642,7 +646,7 @@ impl VersionedFromStr for Command {
                 let continuing = many0(preceded(comma(), tuple((comma_field_type(), continuing))));
 
                 preceded(
-                    tuple(((tag("M")), peek(comma()))),
+                    command_tag("M"),
                     cut(tuple((
                         easing_start_end_time(),
                         preceded(
@@ -784,8 +788,7 @@ impl VersionedFromStr for Command {
         // we order by the most common to the least common
         let parse = preceded(
             indentation,
-            // note: if adding new command, make sure to check if the char is conflicting
-            // if it is, make sure we peek for a comma after the tag check
+            // note: if adding new command, make sure to use `command_tag` so types that start with another one aren't conflicting
             alt((
                 move_,
                 rotate,
-- 
2.43.0


From 058539cf3bfb8b4c98e81e8d4964d68c4165b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:51 +0000
Subject: [PATCH 28/30] fix: Report a wrong file version in its line instead of
 always in the first one

---
 src/osu_file/mod.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index d495080..16d9a48 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -18,7 +18,7 @@ use nom::bytes::complete::{tag, take_till};
 use nom::character::complete::multispace0;
 use nom::combinator::{map_res, success};
 use nom::multi::many0;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::preceded;
 use thiserror::Error;
 
 use crate::helper::line_end_count;
@@ -175,11 +175,10 @@ impl FromStr for OsuFile {
         );
         let version_number = map_res(take_till(|c| c == '\r' || c == '\n'), |s: &str| s.parse());
 
-        let (s, (trailing_ws, version)) = match tuple((
-            multispace0,
-            preceded(version_text, version_number),
-        ))(s)
-        {
+        let (s, leading_ws) = multispace0::<_, nom::error::Error<_>>(s).unwrap();
+        let version_line = line_end_count(leading_ws);
+
+        let (s, version) = match preceded(version_text, version_number)(s) {
             Ok(ok) => ok,
             Err(err) => {
                 // wrong line?
@@ -196,16 +195,14 @@ impl FromStr for OsuFile {
                     unreachable!("Not possible to reach when the errors are already handled, error type is {:#?}", err)
                 };
 
-                return Err(err.into());
+                return Err(Error::new(err, version_line));
             }
         };
 
         if !(MIN_VERSION..=LATEST_VERSION).contains(&version) {
-            return Err(ParseError::InvalidFileVersion.into());
+            return Err(Error::new(ParseError::InvalidFileVersion, version_line));
         }
 
-        let version_line = line_end_count(trailing_ws);
-
         let pre_section_count = s
             .lines()
             .take_while(|s| {
-- 
2.43.0


From ba1f25337a2808760debe78c3b1a0db46e6e203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:28 +0000
Subject: [PATCH 29/30] fix: Fill a missing green in front of a pushed blue, as
 it's read back as the green otherwise

---
 src/osu_file/events/storyboard/cmds/types.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 7a87b87..5557384 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -172,6 +172,20 @@ impl Colours {
                 self.continuing.last_mut().unwrap().2 = last_field.copied();
             }
         }
+
+        // only a value without both of its last fields can be shortened, so a missing green in front of a blue is the previous one
+        let continuing_fields = match continuing_fields {
+            (red, None, Some(blue)) => {
+                let green = match self.continuing.last() {
+                    Some(&(_, green, _)) => green,
+                    None => Some(self.start.1),
+                };
+
+                (red, green, Some(blue))
+            }
+            fields => fields,
+        };
+
         self.continuing.push(continuing_fields);
     }
 
-- 
2.43.0


From bdf878852176836356041e842b14daee94f1fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 30/30] fix: Don't turn a sample index that doesn't fit an
 integer into a negative number

---
 src/osu_file/timingpoints/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 50cd1d9..7eb4316 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -181,7 +181,7 @@ impl VersionedFrom<SampleIndex> for Integer {
     fn from(sample_index: SampleIndex, _: Version) -> Option<Self> {
         let sample_index = match sample_index {
             SampleIndex::OsuDefaultHitsounds => 0,
-            SampleIndex::Index(sample_index) => sample_index.get() as Integer,
+            SampleIndex::Index(sample_index) => Integer::try_from(sample_index.get()).ok()?,
         };
 
         Some(sample_index)
-- 
2.43.0

