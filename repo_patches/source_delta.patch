From bf22cbc524c78e38184986121f63bae8247eb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 01/26] fix: report an invalid BeatmapID or BeatmapSetID
 instead of panicking

---
 src/osu_file/metadata/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 1078531..92ffea7 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -1,5 +1,7 @@
 pub mod error;
 
+use std::num::ParseIntError;
+
 use nom::{
     bytes::complete::{tag, take_till},
     multi::separated_list0,
@@ -30,8 +32,8 @@ versioned_field!(Tags, Vec<String>, no_versions,
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-versioned_field!(BeatmapID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
-versioned_field!(BeatmapSetID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
+versioned_field!(BeatmapID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
+versioned_field!(BeatmapSetID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
 
 general_section!(
     /// A struct representing the metadata section of an osu file.
-- 
2.43.0


From 7f205ecb4e2367e162ea6cd95925d8fa6998c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 02/26] fix: report an event line with an unknown header
 instead of panicking

---
 src/osu_file/events/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 140fc56..9202940 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -4,7 +4,7 @@ pub mod normal_event;
 pub mod storyboard;
 
 use nom::branch::alt;
-use nom::combinator::{cut, eof, peek, success};
+use nom::combinator::{eof, peek, success};
 use nom::sequence::tuple;
 use nom::Parser;
 use nom::{bytes::complete::tag, combinator::rest, sequence::preceded};
@@ -62,7 +62,7 @@ impl Events {
         let background = || {
             peek(tuple((
                 tag::<_, _, nom::error::Error<_>>(normal_event::BACKGROUND_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Background)
         };
@@ -72,7 +72,7 @@ impl Events {
                     tag(normal_event::VIDEO_HEADER),
                     tag(normal_event::VIDEO_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Video)
         };
@@ -82,35 +82,35 @@ impl Events {
                     tag(normal_event::BREAK_HEADER),
                     tag(normal_event::BREAK_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Break)
         };
         let colour_transformation = || {
             peek(tuple((
                 tag(normal_event::COLOUR_TRANSFORMATION_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::ColourTransformation)
         };
         let sprite_legacy = || {
             peek(tuple((
                 tag(normal_event::SPRITE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SpriteLegacy)
         };
         let animation_legacy = || {
             peek(tuple((
                 tag(normal_event::ANIMATION_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::AnimationLegacy)
         };
         let sample_legacy = || {
             peek(tuple((
                 tag(normal_event::SAMPLE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SampleLegacy)
         };
-- 
2.43.0


From 88b2267e9b859c94fda20b3e1f9834a66f49ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 03/26] fix: split a storyboard command header at a byte index,
 not a char count

---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 9202940..81cb969 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,7 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.chars().position(|c| c == ',') {
+                    let line_without_header = match line.find(',') {
                         Some(i) => &line[i + 1..],
                         None => line,
                     };
-- 
2.43.0


From 977c1b0fef4afbfe18fbe4239edc2c2d1f602282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 04/26] fix: report an invalid animation loop type instead of
 panicking

---
 src/osu_file/events/storyboard/sprites.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index b287a1a..085033b 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -177,6 +177,7 @@ impl VersionedFromStr for Object {
             ),
         );
         let loop_type = alt((
+            nothing().map(|_| LoopType::default(version).unwrap()),
             preceded(
                 context(ParseObjectError::MissingLoopType.into(), comma()),
                 context(
@@ -184,7 +185,6 @@ impl VersionedFromStr for Object {
                     consume_rest_versioned_type(version),
                 ),
             ),
-            nothing().map(|_| LoopType::default(version).unwrap()),
         ));
 
         let (_, object) = alt((
-- 
2.43.0


From 61622e2f140ee47a24efdce538dc820f91dc6bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 05/26] fix: report HitSound trigger fields in the wrong order
 instead of panicking

---
 src/osu_file/events/storyboard/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 8596fd0..2d94df5 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -89,7 +89,7 @@ impl VersionedFromStr for TriggerType {
                                         } else {
                                             return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                         }
-                                        _ => unreachable!("The check for field size is already done so this is impossible to reach")
+                                        _ => return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                     }
                                 field_parse_attempt_index += 1;
                             }
-- 
2.43.0


From af179733677f208ca42290c6ad2061135be19018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 06/26] fix: event times at the i32 limits no longer overflow
 in the v3-v4 time offset

---
 src/osu_file/events/normal_event/mod.rs     |  4 ++--
 src/osu_file/events/normal_event/parsers.rs | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index c77e49d..d160bf5 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -36,9 +36,9 @@ fn position_str(position: &Option<Position>) -> String {
 
 fn time_to_string(time: Integer, version: Version) -> String {
     let time = if (3..=4).contains(&version) {
-        time - OLD_VERSION_TIME_OFFSET
+        i64::from(time) - i64::from(OLD_VERSION_TIME_OFFSET)
     } else {
-        time
+        i64::from(time)
     };
 
     time.to_string()
diff --git a/src/osu_file/events/normal_event/parsers.rs b/src/osu_file/events/normal_event/parsers.rs
index e39d384..f2e79b7 100644
--- a/src/osu_file/events/normal_event/parsers.rs
+++ b/src/osu_file/events/normal_event/parsers.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    combinator::eof,
+    combinator::{eof, map_opt},
     error::context,
     sequence::{preceded, tuple},
     IResult, Parser,
@@ -45,11 +45,11 @@ pub fn start_time_offset<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&'a str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        comma_field_type().map(move |time| {
+        map_opt(comma_field_type(), move |time: Integer| {
             if (3..=4).contains(&version) {
-                time + OLD_VERSION_TIME_OFFSET
+                time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                time
+                Some(time)
             }
         }),
     )
@@ -61,11 +61,11 @@ pub fn end_time<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        consume_rest_type().map(move |end_time| {
+        map_opt(consume_rest_type(), move |end_time: Integer| {
             if (3..=4).contains(&version) {
-                end_time + OLD_VERSION_TIME_OFFSET
+                end_time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                end_time
+                Some(end_time)
             }
         }),
     )
-- 
2.43.0


From a00bf695f410e83651307ba6c927b8eb6e68d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 07/26] fix: decimal times at the Decimal limits no longer
 overflow in the v3-v4 time offset

---
 src/osu_file/hitobjects/mod.rs   | 12 ++++++------
 src/osu_file/timingpoints/mod.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 288011a..11d70a9 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -202,7 +202,7 @@ impl VersionedFromStr for HitObject {
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
                     if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                        *value = value.saturating_add(OLD_VERSION_TIME_OFFSET);
                     }
                 }
 
@@ -380,7 +380,7 @@ impl VersionedFromStr for HitObject {
                 .map(|mut t: Decimal| {
                     if (3..=4).contains(&version) {
                         if let Either::Left(value) = t.get_mut() {
-                            *value += OLD_VERSION_TIME_OFFSET;
+                            *value = value.saturating_add(OLD_VERSION_TIME_OFFSET);
                         }
                     }
 
@@ -421,7 +421,7 @@ impl VersionedFromStr for HitObject {
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
                     if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                        *value = value.saturating_add(OLD_VERSION_TIME_OFFSET);
                     }
                 }
 
@@ -459,7 +459,7 @@ impl VersionedToString for HitObject {
             self.position.y.to_string(),
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
@@ -525,7 +525,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::Spinner { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
@@ -535,7 +535,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::OsuManiaHold { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4662053..69fa7e0 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -287,7 +287,7 @@ impl VersionedFromStr for TimingPoint {
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
                     if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                        *value = value.saturating_add(OLD_VERSION_TIME_OFFSET);
                     }
                 }
 
@@ -448,7 +448,7 @@ impl VersionedToString for TimingPoint {
         let mut fields = vec![
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
-- 
2.43.0


From edefbc84a643a4ad5a93f5623faa50b9b1d459e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 08/26] fix: an empty section neither panics nor swallows the
 section after it

---
 src/osu_file/mod.rs | 2 +-
 src/parsers.rs      | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6999749..56d52c3 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -301,7 +301,7 @@ impl FromStr for OsuFile {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count() - 1;
+            line_number += section.lines().count().saturating_sub(1);
         }
 
         Ok(OsuFile {
diff --git a/src/parsers.rs b/src/parsers.rs
index 055d853..6a0b5fa 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,11 +5,11 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map_res, rest},
+    combinator::{eof, map_res, peek, rest},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
     sequence::{delimited, preceded, terminated, tuple},
-    IResult,
+    IResult, Parser,
 };
 
 use crate::osu_file::{Version, VersionedFromStr};
@@ -139,7 +139,8 @@ pub fn square_section<'a>(
     let section_close = tag("]");
     let section_name_inner = take_till(|c: char| c == ']' || c == '\n');
     let section_name = delimited(section_open, section_name_inner, section_close);
-    let section_until = alt((take_until("\n["), rest));
+    // an empty section is directly followed by the next section's header
+    let section_until = alt((peek(tag("[")).map(|_| ""), take_until("\n["), rest));
 
     tuple((multispace0, section_name, multispace0, section_until))
 }
-- 
2.43.0


From 9fcf10b595e702b4620ef2267ce7c1c0883a790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 09/26] fix: a malformed section header is reported instead of
 dropping the rest of the file

---
 src/osu_file/mod.rs     | 18 ++++++++++++++++--
 src/osu_file/osb/mod.rs | 12 ++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 56d52c3..48c5673 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -207,7 +207,7 @@ impl FromStr for OsuFile {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || (!s.starts_with('[') && !s.ends_with(']'))
             })
             .count();
 
@@ -231,7 +231,7 @@ impl FromStr for OsuFile {
             .collect::<Vec<_>>()
             .join("\n");
 
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(8);
 
@@ -304,6 +304,20 @@ impl FromStr for OsuFile {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // anything left over isn't in the form of `[name]`
+        let header = unparsed.trim_start();
+        if !header.is_empty() {
+            line_number += unparsed[..unparsed.len() - header.len()].lines().count();
+
+            let name = header.lines().next().unwrap_or_default().trim_end();
+            let err = match name.strip_prefix('[') {
+                Some(name) => ParseError::SectionNameNoCloseBracket(name.to_string()),
+                None => ParseError::SectionNameNoOpenBracket(name.to_string()),
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(OsuFile {
             version,
             general,
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index b483a34..50b4c7e 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -28,7 +28,7 @@ impl VersionedFromStr for Osb {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || (!s.starts_with('[') && !s.ends_with(']'))
             })
             .count();
 
@@ -54,7 +54,7 @@ impl VersionedFromStr for Osb {
 
         // we get sections
         // only valid sections currently are [Variables] [Events]
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(2);
         let mut line_number = pre_section_count;
@@ -105,6 +105,14 @@ impl VersionedFromStr for Osb {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // anything left over isn't in the form of `[name]`
+        let header = unparsed.trim_start();
+        if !header.is_empty() {
+            line_number += unparsed[..unparsed.len() - header.len()].lines().count();
+
+            return Err(Error::new(ParseError::UnknownSection, line_number));
+        }
+
         Ok(Some(Osb { events, variables }))
     }
 }
-- 
2.43.0


From 49c00c6712cbccd5b9875bc66b97a7987a358acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 10/26] fix: error line indices count line breaks, not
 whitespace fragments

---
 src/helper/macros.rs    |  4 ++--
 src/osu_file/mod.rs     | 14 +++++++++-----
 src/osu_file/osb/mod.rs | 10 ++++++----
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 5293015..8f9f4dd 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -126,7 +126,7 @@ macro_rules! general_section_inner {
 
                 if !s.trim().is_empty() {
                     // line count from fields
-                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.lines().count()).sum() };
+                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.matches('\n').count()).sum() };
 
                     return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
                 }
@@ -148,7 +148,7 @@ macro_rules! general_section_inner {
                         _ => return Err(crate::osu_file::types::Error::new(ParseError::InvalidKey, line_count)),
                     }
 
-                    line_count += ws_2.lines().count();
+                    line_count += ws_2.matches('\n').count();
                     parsed_fields.push(name);
                 }
 
diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 48c5673..eed15ed 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -203,6 +203,8 @@ impl FromStr for OsuFile {
             return Err(ParseError::InvalidFileVersion.into());
         }
 
+        let leading_lines = trailing_ws.matches('\n').count();
+
         let pre_section_count = s
             .lines()
             .take_while(|s| {
@@ -222,7 +224,7 @@ impl FromStr for OsuFile {
                 continue;
             }
 
-            return Err(Error::new(ParseError::UnexpectedLine, i));
+            return Err(Error::new(ParseError::UnexpectedLine, leading_lines + i));
         }
 
         let s = s
@@ -246,17 +248,17 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.lines().count() + pre_section_count;
+        let mut line_number = leading_lines + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "General" => {
@@ -307,7 +309,9 @@ impl FromStr for OsuFile {
         // anything left over isn't in the form of `[name]`
         let header = unparsed.trim_start();
         if !header.is_empty() {
-            line_number += unparsed[..unparsed.len() - header.len()].lines().count();
+            line_number += unparsed[..unparsed.len() - header.len()]
+                .matches('\n')
+                .count();
 
             let name = header.lines().next().unwrap_or_default().trim_end();
             let err = match name.strip_prefix('[') {
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 50b4c7e..319e2ee 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -62,14 +62,14 @@ impl VersionedFromStr for Osb {
         let (mut events, mut variables) = (None, None);
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "Variables" => {
@@ -102,13 +102,15 @@ impl VersionedFromStr for Osb {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count().saturating_sub(1);
+            line_number += section.matches('\n').count();
         }
 
         // anything left over isn't in the form of `[name]`
         let header = unparsed.trim_start();
         if !header.is_empty() {
-            line_number += unparsed[..unparsed.len() - header.len()].lines().count();
+            line_number += unparsed[..unparsed.len() - header.len()]
+                .matches('\n')
+                .count();
 
             return Err(Error::new(ParseError::UnknownSection, line_number));
         }
-- 
2.43.0


From 6b041eed589aefa287f4956c69910f02f8dd86ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 11/26] fix: a version line error carries the line it is on

---
 src/osu_file/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index eed15ed..fe3eee4 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -174,7 +174,10 @@ impl FromStr for OsuFile {
         );
         let version_number = map_res(take_till(|c| c == '\r' || c == '\n'), |s: &str| s.parse());
 
-        let (s, (trailing_ws, version)) = match tuple((
+        let leading_ws = s.len() - s.trim_start_matches([' ', '\t', '\r', '\n']).len();
+        let leading_lines = s[..leading_ws].matches('\n').count();
+
+        let (s, (_, version)) = match tuple((
             multispace0,
             preceded(version_text, version_number),
         ))(s)
@@ -195,16 +198,14 @@ impl FromStr for OsuFile {
                     unreachable!("Not possible to reach when the errors are already handled, error type is {:#?}", err)
                 };
 
-                return Err(err.into());
+                return Err(Error::new(err, leading_lines));
             }
         };
 
         if !(MIN_VERSION..=LATEST_VERSION).contains(&version) {
-            return Err(ParseError::InvalidFileVersion.into());
+            return Err(Error::new(ParseError::InvalidFileVersion, leading_lines));
         }
 
-        let leading_lines = trailing_ws.matches('\n').count();
-
         let pre_section_count = s
             .lines()
             .take_while(|s| {
-- 
2.43.0


From 37390f78d25378e0cf45f7106f7a16f65412828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 12/26] fix: print a timing point sample index above i32::MAX
 unchanged

---
 src/osu_file/timingpoints/types.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 824afeb..fe40935 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -189,8 +189,13 @@ impl VersionedFrom<SampleIndex> for Integer {
 }
 
 impl VersionedToString for SampleIndex {
-    fn to_string(&self, version: Version) -> Option<String> {
-        <i32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
+    fn to_string(&self, _: Version) -> Option<String> {
+        let index = match self {
+            SampleIndex::OsuDefaultHitsounds => 0,
+            SampleIndex::Index(index) => index.get(),
+        };
+
+        Some(index.to_string())
     }
 }
 
-- 
2.43.0


From 84d71bd2bb53f8d67b897d400d62e6f821dcbbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 13/26] fix: pushing or setting continuing fields no longer
 underflows and keeps every earlier field complete

---
 src/osu_file/events/storyboard/cmds/types.rs | 21 ++++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 26c2562..1f0c52d 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -43,9 +43,7 @@ impl<T> ContinuingFields<T> {
         if let Some(last_continuing) = self.continuing.last() {
             if last_continuing.1.is_none() {
                 // find last 1 field
-                let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
+                let last_field = if let [.., last_continuing_with_1, _] = &self.continuing[..] {
                     last_continuing_with_1.1.as_ref()
                 } else {
                     // backup field 1 is the starting one
@@ -64,7 +62,7 @@ impl<T> ContinuingFields<T> {
         fields: (T, Option<T>),
     ) -> Result<(), ContinuingSetError> {
         // if index isn't the last index, field 1 being none will return an error
-        if index != self.continuing.len() - 1 && fields.1.is_none() {
+        if Some(index) != self.continuing.len().checked_sub(1) && fields.1.is_none() {
             Err(ContinuingSetError::InvalidSecondFieldOption)
         } else {
             match self.continuing.get_mut(index) {
@@ -135,12 +133,10 @@ impl Colours {
     }
 
     pub fn push_continuing_rgbs(&mut self, continuing_fields: (u8, Option<u8>, Option<u8>)) {
-        if let Some(last_continuing) = self.continuing.last() {
+        if let Some(last_continuing) = self.continuing.last().copied() {
             if last_continuing.1.is_none() {
                 // find last field
-                let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
+                let last_field = if let [.., last_continuing_with_1, _] = &self.continuing[..] {
                     last_continuing_with_1.1.as_ref()
                 } else {
                     // backup field 1 is the starting one
@@ -148,11 +144,10 @@ impl Colours {
                 };
 
                 self.continuing.last_mut().unwrap().1 = last_field.copied();
-            } else if last_continuing.2.is_none() {
+            }
+            if last_continuing.2.is_none() {
                 // find last field
-                let last_field = if let Some(last_continuing_with_2) =
-                    self.continuing.get(self.continuing.len() - 2)
-                {
+                let last_field = if let [.., last_continuing_with_2, _] = &self.continuing[..] {
                     last_continuing_with_2.2.as_ref()
                 } else {
                     // backup field 2 is the starting one
@@ -171,7 +166,7 @@ impl Colours {
         fields: (u8, Option<u8>, Option<u8>),
     ) -> Result<(), ContinuingRGBSetError> {
         // if index isn't the last index, b or g being none will return an error
-        let index_is_last = index == self.continuing.len() - 1;
+        let index_is_last = Some(index) == self.continuing.len().checked_sub(1);
 
         if !index_is_last && fields.1.is_none() {
             Err(ContinuingRGBSetError::InvalidFieldOption(
-- 
2.43.0


From c1e91f5f8de5bd2f659dd9dd1497738301c82235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 14/26] fix: BPM and slider velocity of a zero beat length are
 None instead of a panic

---
 src/osu_file/timingpoints/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 69fa7e0..27addda 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -152,13 +152,15 @@ impl TimingPoint {
     }
 
     /// Calculates BPM using the `beatLength` field when unherited.
-    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the result isn't representable, such as when `beat_length` is 0.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => Some(Self::beat_duration_ms_to_bpm(*value)),
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(*value)
+                            .and_then(|value| value.checked_mul(dec!(60000))),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -169,7 +171,7 @@ impl TimingPoint {
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is uninherited, `beat_length` isn't a valid decimal or the result isn't representable, such as when `beat_length` is 0.
     pub fn calc_slider_velocity_multiplier(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
@@ -177,9 +179,9 @@ impl TimingPoint {
                     None
                 } else {
                     match self.beat_length.get() {
-                        Either::Left(value) => {
-                            Some(rust_decimal::Decimal::ONE / (value / dec!(-100)))
-                        }
+                        Either::Left(value) => value
+                            .checked_div(dec!(-100))
+                            .and_then(|value| rust_decimal::Decimal::ONE.checked_div(value)),
                         Either::Right(_) => None,
                     }
                 }
-- 
2.43.0


From e2f7e188c56669e4622a5e329bf01f5f2b4c6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 15/26] fix: frame file names of a path without a file name are
 empty instead of a panic

---
 src/osu_file/events/storyboard/sprites.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 085033b..b302a57 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -243,10 +243,13 @@ pub struct Animation {
 
 impl Animation {
     pub fn frame_file_names(&self) -> Vec<PathBuf> {
-        let mut file_names = Vec::with_capacity(self.frame_count as usize);
+        let mut file_names = Vec::new();
 
         let filepath = self.filepath.get();
-        let mut file_name = filepath.file_name().unwrap().to_string_lossy().to_string();
+        let mut file_name = match filepath.file_name() {
+            Some(file_name) => file_name.to_string_lossy().to_string(),
+            None => return file_names,
+        };
         let file_extension = match filepath.extension() {
             Some(extension) => {
                 let extension = format!(".{}", extension.to_string_lossy());
-- 
2.43.0


From 28ea99d6f378f64453a1551f3a99b4d8a5ef527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 16/26] fix: a variable with an empty value no longer corrupts
 printed commands

---
 src/osu_file/events/storyboard/cmds/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index d360c6d..1174a6e 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -77,7 +77,7 @@ impl Command {
             let mut cmd = cmd;
 
             for variable in variables {
-                if cmd.contains(&variable.value) {
+                if !variable.value.is_empty() && cmd.contains(&variable.value) {
                     cmd = cmd.replace(&variable.value, &format!("${}", variable.name));
                 }
             }
-- 
2.43.0


From 2bed79883adde08556cdded88ef0a8f3f52a7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 17/26] fix: an invalid second item of a colon pair is reported
 as the second item

---
 src/osu_file/hitobjects/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/hitobjects/types.rs b/src/osu_file/hitobjects/types.rs
index 182004d..0d71d3b 100644
--- a/src/osu_file/hitobjects/types.rs
+++ b/src/osu_file/hitobjects/types.rs
@@ -81,7 +81,7 @@ impl VersionedFromStr for EdgeSet {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_versioned_type(version),
             ),
         ))(s)?;
@@ -120,7 +120,7 @@ impl VersionedFromStr for CurvePoint {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_type(),
             ),
         ))(s)?;
-- 
2.43.0


From 6abf9b8ee321faff65122e0b2e30d469885dd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 18/26] fix: background and video events fold variables back
 like every other event

---
 src/osu_file/events/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 81cb969..7734510 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -352,8 +352,8 @@ impl Event {
     pub fn to_string_variables(&self, version: Version, variables: &[Variable]) -> Option<String> {
         match self {
             Event::Comment(comment) => Some(format!("//{comment}")),
-            Event::Background(background) => background.to_string(version),
-            Event::Video(video) => video.to_string(version),
+            Event::Background(background) => background.to_string_variables(version, variables),
+            Event::Video(video) => video.to_string_variables(version, variables),
             Event::Break(break_) => break_.to_string(version),
             Event::ColourTransformation(colour_trans) => colour_trans.to_string(version),
             Event::SpriteLegacy(sprite) => sprite.to_string_variables(version, variables),
-- 
2.43.0


From 0a045ab61d195dc0ec1c9eebb6aab9ed6cd1a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 19/26] fix: a trigger's custom sample set of more than one
 digit is accepted

---
 src/osu_file/events/storyboard/types.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 2d94df5..13dc929 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -40,8 +40,14 @@ impl VersionedFromStr for TriggerType {
                             let mut fields = Vec::new();
                             let mut builder = String::with_capacity(256);
 
+                            let mut in_number = false;
+
                             for (i, ch) in s.chars().enumerate() {
-                                if i != 0 && (ch.is_uppercase() || ch.is_numeric()) {
+                                // every digit of a number is in the same field
+                                let starts_number = ch.is_numeric() && !in_number;
+                                in_number = ch.is_numeric();
+
+                                if i != 0 && (ch.is_uppercase() || starts_number) {
                                     fields.push(builder.to_owned());
                                     builder.clear();
                                 }
-- 
2.43.0


From b88df2452db854a5efbb21a40c1c4e2c9826eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 20/26] fix: legacy sprite, animation and sample events print
 their commands

---
 src/osu_file/events/normal_event/mod.rs | 52 ++++++++++++-------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index d160bf5..7610fe4 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -412,13 +412,7 @@ impl VersionedFromStr for SpriteLegacy {
 
 impl VersionedToString for SpriteLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{SPRITE_LEGACY_HEADER},{},{},{}{}",
-            self.layer.to_string(version).unwrap(),
-            self.origin.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            position_str(&self.position),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -432,7 +426,13 @@ impl EventWithCommands for SpriteLegacy {
     }
 
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{SPRITE_LEGACY_HEADER},{},{},{}{}",
+            self.layer.to_string(version).unwrap(),
+            self.origin.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            position_str(&self.position),
+        ))
     }
 }
 
@@ -494,13 +494,7 @@ impl VersionedFromStr for AnimationLegacy {
 
 impl VersionedToString for AnimationLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
-            self.layer.to_string(version).unwrap(),
-            self.origin.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            position_str(&self.position),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -512,7 +506,13 @@ impl EventWithCommands for AnimationLegacy {
         &mut self.commands
     }
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
+            self.layer.to_string(version).unwrap(),
+            self.origin.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            position_str(&self.position),
+        ))
     }
 }
 
@@ -580,15 +580,7 @@ impl VersionedFromStr for SampleLegacy {
 
 impl VersionedToString for SampleLegacy {
     fn to_string(&self, version: Version) -> Option<String> {
-        Some(format!(
-            "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
-            self.time,
-            self.layer.to_string(version).unwrap(),
-            self.file_name.to_string(version).unwrap(),
-            self.volume
-                .map(|v| format!(",{}", v.to_string(version).unwrap()))
-                .unwrap_or_default(),
-        ))
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -602,6 +594,14 @@ impl EventWithCommands for SampleLegacy {
     }
 
     fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+        Some(format!(
+            "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
+            self.time,
+            self.layer.to_string(version).unwrap(),
+            self.file_name.to_string(version).unwrap(),
+            self.volume
+                .map(|v| format!(",{}", v.to_string(version).unwrap()))
+                .unwrap_or_default(),
+        ))
     }
 }
-- 
2.43.0


From 377df91b61b9fc284e8d66600c5883575dac406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 21/26] fix: remove byte order marks before trimming lines when
 normalising

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6ed5bf4..bb1dfb7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,7 +55,8 @@ pub fn osu_str_trimmer(s: &str) -> String {
         };
 
     for line in s.lines() {
-        let line = line.trim().replace('\u{feff}', "");
+        let line = line.replace('\u{feff}', "");
+        let line = line.trim().to_owned();
 
         if line.is_empty() {
             continue;
-- 
2.43.0


From 994e82615abb74c949f38cbc37b7f98b081cf3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 22/26] fix: keep the spaces inside keys and values when
 normalising

---
 src/lib.rs | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb1dfb7..992da1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,7 +39,7 @@ pub use osu_file::*;
 mod parsers;
 
 /// Trims the given osu file string into something that can be tested for equality.
-/// - Ignores all empty lines and key value pair's spacing between the key and comma.
+/// - Ignores all empty lines and key value pair's spacing around the colon.
 /// - Deletes `\u{feff}` characters.
 pub fn osu_str_trimmer(s: &str) -> String {
     let mut builder = Vec::new();
@@ -88,26 +88,8 @@ pub fn osu_str_trimmer(s: &str) -> String {
                 continue;
             }
 
-            if line.contains(':') {
-                let mut header = true;
-                let mut value = false;
-
-                let line = line
-                    .chars()
-                    .filter(|c| {
-                        if !header && !value && *c == ':' {
-                            header = false;
-                            value = true;
-                            return true;
-                        }
-
-                        if header && c.is_whitespace() {
-                            return false;
-                        }
-
-                        true
-                    })
-                    .collect::<String>();
+            if let Some((key, value)) = line.split_once(':') {
+                let line = format!("{}:{}", key.trim_end(), value.trim_start());
 
                 if section_coloned {
                     section_values_inner.push(line);
-- 
2.43.0


From 916b98e54771cd03479eafea09ef900069c0ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 23/26] fix: calculate the BPM of timing points that leave out
 the inheritance

---
 src/osu_file/timingpoints/mod.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 27addda..2d02080 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -154,20 +154,15 @@ impl TimingPoint {
     /// Calculates BPM using the `beatLength` field when unherited.
     /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the result isn't representable, such as when `beat_length` is 0.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
-        match self.uninherited {
-            Some(uninherited) => {
-                if uninherited {
-                    match self.beat_length.get() {
-                        Either::Left(value) => rust_decimal::Decimal::ONE
-                            .checked_div(*value)
-                            .and_then(|value| value.checked_mul(dec!(60000))),
-                        Either::Right(_) => None,
-                    }
-                } else {
-                    None
-                }
-            }
-            None => None,
+        if !self.uninherited() {
+            return None;
+        }
+
+        match self.beat_length.get() {
+            Either::Left(value) => rust_decimal::Decimal::ONE
+                .checked_div(*value)
+                .and_then(|value| value.checked_mul(dec!(60000))),
+            Either::Right(_) => None,
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-- 
2.43.0


From 7e5c203acbb9523e140b2c9e22c4b72db0cf6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 24/26] fix: pushing a command without indentation is an error
 instead of a panic

---
 src/osu_file/events/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 7734510..39cb0a1 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -448,6 +448,8 @@ pub trait EventWithCommands {
             // first match no loop required
             self.commands_mut().push(cmd);
             Ok(())
+        } else if indentation == 0 {
+            Err(CommandPushError::InvalidIndentation(1, indentation))
         } else {
             let mut last_cmd = match self.commands_mut().last_mut() {
                 Some(last_cmd) => last_cmd,
-- 
2.43.0


From 79eeab2ac9b1e1fcda718ce1b5091328f2505b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:44 +0000
Subject: [PATCH 25/26] fix: print the effects of a version 5 timing point
 without them at later versions, which require them

---
 src/osu_file/timingpoints/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 2d02080..70630db 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -469,8 +469,14 @@ impl VersionedToString for TimingPoint {
                     }
                 }
             }
-            if let Some(value) = self.effects {
-                fields.push(value.to_string(version).unwrap())
+            match self.effects {
+                Some(value) => fields.push(value.to_string(version).unwrap()),
+                // only version 5 can leave out the effects when `uninherited` is there
+                None => {
+                    if version > 5 && self.uninherited.is_some() {
+                        fields.push("0".to_string())
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 3bd50701b8a0fa5fb42f2266a80d0d6bb694f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:10 +0000
Subject: [PATCH 26/26] fix: report an item of a | separated list that can't be
 parsed as an invalid item, not as a missing next field

---
 src/parsers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 6a0b5fa..c7dccc6 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -69,7 +69,11 @@ where
         T::from_str(s, version).map(|v| v.unwrap())
     });
 
-    separated_list0(tag("|"), item)
+    // the list ends where its field ends, an item that can't be parsed doesn't end it early
+    terminated(
+        separated_list0(tag("|"), item),
+        peek(alt((nothing(), comma()))),
+    )
 }
 
 pub fn comma<'a, E>() -> impl FnMut(&'a str) -> IResult<&'a str, &str, E>
-- 
2.43.0

