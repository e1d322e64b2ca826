From ce695583ea94122e597ab60aa94efc6688ee18b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 01/29] fix: recognise the first line of .sct entries with
 comments, mixed ends or at end of file

A geo/SID/STAR/ARTCC entry whose first line carried a trailing comment, mixed
a coordinate with a fix or was the last line of a file without a final newline
was swallowed into the entry's name or made the whole file unparseable.
---
 src/pest/sct.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index f2bb1ed..60936b3 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -72,6 +72,7 @@ ctr_airspace = { "A" | "B" | "C" | "D" | "E" | "F" | "G" }
 coloured_lines = { non_coordinate_or_double_fix_name ~ coloured_line ~ (NL ~ coloured_line)*  }
 coloured_line = { (sct_coordinate | airway_fix) ~ (sct_coordinate | airway_fix) ~ colour_name? }
 
+coloured_line_end = _{ WHITESPACE* ~ COMMENT? ~ (NEWLINE | EOI) }
 label = { quoted_string ~ sct_coordinate ~ colour_name }
 
 // two identical consecutive fixes
@@ -83,8 +84,7 @@ name = @{ (!(NL | "\t" | "[") ~ ANY)* }
 non_coordinate_name = { (!(sct_coordinate | NL) ~ ANY)* }
 non_coordinate_or_double_fix_name = ${
   (!(
-    ((WHITESPACE+ ~ sct_coordinate){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
-    | ((WHITESPACE+ ~ airway_fix){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
+    ((WHITESPACE+ ~ (sct_coordinate | airway_fix)){2} ~ (WHITESPACE+ ~ colour_name)? ~ coloured_line_end)
     | "[" | "]"
   ) ~ ANY)+
 }
-- 
2.43.0


From 29bf432d1739e70bbf21d592312ffb62eb115524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 02/29] fix: match .sct double fixes as whole words

'A AV' was taken for the double fix 'A A' followed by 'V', so an entry whose
name starts like that was read as a continuation line of the previous one.
---
 src/pest/sct.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index 60936b3..6869c72 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -76,7 +76,7 @@ coloured_line_end = _{ WHITESPACE* ~ COMMENT? ~ (NEWLINE | EOI) }
 label = { quoted_string ~ sct_coordinate ~ colour_name }
 
 // two identical consecutive fixes
-airway_fix = ${ PUSH(designator) ~ WHITESPACE+ ~ POP }
+airway_fix = ${ PUSH(designator) ~ WHITESPACE+ ~ POP ~ !(ASCII_ALPHANUMERIC | "-" | "_") }
 sct_coordinate = ${ sct_coord_part ~ WHITESPACE+~ sct_coord_part }
 frequency = @{ decimal }
 
-- 
2.43.0


From f2a88eb7a42ce3d89f3925b5367e5b9a124cf644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 03/29] fix: write .sct lines consisting of a single point

They were dropped, and an entry made up of them swallowed its successor.
---
 src/sct.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index 5e05637..7ec51b5 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -264,16 +264,24 @@ impl ToEuroscope for Location {
 impl ToEuroscope for ColouredLines {
     fn to_euroscope(&self) -> String {
         let mut lines = self.lines.iter().flat_map(|line| {
-            line.points.iter().tuple_windows().map(|(start, end)| {
-                format!(
-                    "{} {}{}",
-                    start.to_euroscope(),
-                    end.to_euroscope(),
-                    self.colour_name
-                        .as_ref()
-                        .map_or(String::new(), |c| format!(" {c}"))
-                )
-            })
+            // a line of a single point starts and ends there
+            let single_point = match line.points.as_slice() {
+                [point] => Some((point, point)),
+                _ => None,
+            };
+            single_point
+                .into_iter()
+                .chain(line.points.iter().tuple_windows())
+                .map(|(start, end)| {
+                    format!(
+                        "{} {}{}",
+                        start.to_euroscope(),
+                        end.to_euroscope(),
+                        self.colour_name
+                            .as_ref()
+                            .map_or(String::new(), |c| format!(" {c}"))
+                    )
+                })
         });
         lines
             .next()
-- 
2.43.0


From 69d86168356aa47acbe6255e055309e8a13e0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 04/29] fix: do not write an unparseable [INFO] section for a
 .sct file without one

---
 src/sct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sct.rs b/src/sct.rs
index 7ec51b5..6e16b7f 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -1174,7 +1174,10 @@ impl Sct {
 }
 impl Display for Sct {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        writeln!(f, "{}", self.info)?;
+        // an absent info section cannot be written as an empty one
+        if self.info != SctInfo::default() {
+            writeln!(f, "{}", self.info)?;
+        }
         writeln!(
             f,
             "{}\n",
-- 
2.43.0


From 89a9cb628593a67c530401199d98459ba5b0d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 05/29] fix: carry rounded seconds into minutes and degrees
 when formatting coordinates

59.9995" and more was written as 60.000", a carried minute as 60', and degrees
above 255 (dummy coordinates) saturated.
---
 src/lib.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 97d4da5..b4fceb2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,14 +61,17 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
-fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u8, u8, f64, char) {
+fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u64, u64, f64, char) {
+    const MS_PER_MIN: u64 = 60 * 1000;
+    const MS_PER_DEG: u64 = 60 * MS_PER_MIN;
+
     let is_negative = decimal.is_sign_negative();
-    let abs = decimal.abs();
+    // round before splitting, so that the carry propagates to minutes and degrees
+    let milliseconds = (decimal.abs() * MS_PER_DEG as f64).round() as u64;
 
-    let degrees = abs.floor() as u8;
-    let minutes_f64 = abs.fract() * 60.0;
-    let minutes = minutes_f64.floor() as u8;
-    let seconds = minutes_f64.fract() * 60.0;
+    let degrees = milliseconds / MS_PER_DEG;
+    let minutes = milliseconds % MS_PER_DEG / MS_PER_MIN;
+    let seconds = (milliseconds % MS_PER_MIN) as f64 / 1000.0;
 
     let direction = match (is_latitude, is_negative) {
         (true, false) => 'N',
@@ -106,23 +109,18 @@ impl DegMinSecExt for Coord {
     }
 
     fn lat_deg_min_sec_fmt(&self) -> String {
-        let lat = decimal_to_dms(self.y, true);
-        let deg = lat.0;
-        let carry_rounded_sec = (lat.2 - 60.).abs() < 0.000_001;
-        let min = lat.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lat.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lat.3)
+        let (deg, min, sec, direction) = decimal_to_dms(self.y, true);
+
+        format!("{direction}{deg:03}.{min:02}.{sec:06.3}")
     }
 
     fn lng_deg_min_sec_fmt(&self) -> String {
-        let lon = decimal_to_dms(self.x, false);
-        let deg = lon.0;
-        let carry_rounded_sec = (lon.2 - 60.).abs() < 0.000_001;
-        let min = lon.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lon.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lon.3)
+        let (deg, min, sec, direction) = decimal_to_dms(self.x, false);
+
+        format!("{direction}{deg:03}.{min:02}.{sec:06.3}")
     }
 }
+
 impl DegMinSecExt for Point {
     fn from_deg_min_sec(lat: DegMinSec, lng: DegMinSec) -> Self {
         Coord::from_deg_min_sec(lat, lng).into()
-- 
2.43.0


From fc6eca70546f568666b82f58e32928fb710cd58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 06/29] fix: keep all entries of a .sct section that occurs
 more than once

Every occurrence but the last was dropped.
---
 src/sct.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index 6e16b7f..49f151f 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -1,6 +1,9 @@
 use std::fmt::Formatter;
 use std::io;
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{hash_map::Entry, HashMap},
+    fmt::Display,
+};
 
 use geo::{Coord, Point};
 use itertools::Itertools as _;
@@ -512,6 +515,30 @@ enum Section {
     Unsupported,
 }
 
+impl Section {
+    /// Adds the entries of a further section of the same name.
+    fn extend(&mut self, other: Section) {
+        match (self, other) {
+            (Section::Airport(entries), Section::Airport(more)) => entries.extend(more),
+            (Section::Fixes(entries), Section::Fixes(more)) => entries.extend(more),
+            (Section::HighAirways(entries), Section::HighAirways(more))
+            | (Section::LowAirways(entries), Section::LowAirways(more)) => entries.extend(more),
+            (Section::NDBs(entries), Section::NDBs(more)) => entries.extend(more),
+            (Section::VORs(entries), Section::VORs(more)) => entries.extend(more),
+            (Section::Runways(entries), Section::Runways(more)) => entries.extend(more),
+            (Section::Sid(entries), Section::Sid(more)) => entries.extend(more),
+            (Section::Star(entries), Section::Star(more)) => entries.extend(more),
+            (Section::ArtccHigh(entries), Section::ArtccHigh(more))
+            | (Section::Artcc(entries), Section::Artcc(more))
+            | (Section::ArtccLow(entries), Section::ArtccLow(more)) => entries.extend(more),
+            (Section::Regions(entries), Section::Regions(more)) => entries.extend(more),
+            (Section::Labels(entries), Section::Labels(more)) => entries.extend(more),
+            (Section::Geo(entries), Section::Geo(more)) => entries.extend(more),
+            (section, other) => *section = other,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Eq, Hash)]
 enum SectionName {
     Info,
@@ -1081,7 +1108,15 @@ impl Sct {
                         Some(parse_independent_section(pair, &mut colours))
                     }
                 })
-                .collect::<HashMap<_, _>>()
+                .fold(HashMap::new(), |mut sections, (name, section)| {
+                    match sections.entry(name) {
+                        Entry::Occupied(mut entry) => Section::extend(entry.get_mut(), section),
+                        Entry::Vacant(entry) => {
+                            entry.insert(section);
+                        }
+                    }
+                    sections
+                })
         })?;
 
         let info = match sections.remove_entry(&SectionName::Info) {
-- 
2.43.0


From a92a0c330e0a0a36b222b9abfc790ac4fb1174f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 07/29] fix: out-of-range numbers in input files no longer
 panic

---
 src/airway.rs         |  4 ++--
 src/asr.rs            | 14 +++++++-------
 src/ese.rs            | 24 +++++++++---------------
 src/lib.rs            | 16 +++++++++++++++-
 src/sct.rs            | 16 ++++++----------
 src/symbology.rs      | 24 ++++++++++++------------
 src/topsky/map/mod.rs | 17 ++++++-----------
 src/topsky/symbol.rs  | 18 +++++++++---------
 8 files changed, 66 insertions(+), 67 deletions(-)

diff --git a/src/airway.rs b/src/airway.rs
index 31a3ed2..c06ec84 100644
--- a/src/airway.rs
+++ b/src/airway.rs
@@ -9,7 +9,7 @@ use crate::adaptation::locations::{
     Fix, GraphPosition,
 };
 
-use super::read_to_string;
+use super::{parse_saturating, read_to_string};
 
 #[derive(Parser)]
 #[grammar = "pest/airway.pest"]
@@ -33,7 +33,7 @@ fn parse_coord(pair: Pair<Rule>) -> Point {
 fn parse_level(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::not_established => None,
-        Rule::level => Some(pair.as_str().parse().unwrap()),
+        Rule::level => Some(parse_saturating(pair.as_str())),
         rule => unreachable!("{rule:?}"),
     }
 }
diff --git a/src/asr.rs b/src/asr.rs
index 7370616..1752541 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -9,7 +9,7 @@ use tracing::warn;
 
 use crate::TwoKeyMap;
 
-use super::read_to_string;
+use super::{parse_saturating, read_to_string};
 
 #[derive(Parser)]
 #[grammar = "pest/asr.pest"]
@@ -241,7 +241,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         Rule::show_c => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowC),
         Rule::show_standby => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowStandby),
         Rule::above => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_saturating(inner.next().unwrap().as_str());
             Some(if filter == 0 {
                 AsrData::Above(None)
             } else {
@@ -249,7 +249,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::below => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_saturating(inner.next().unwrap().as_str());
             Some(if filter == 0 {
                 AsrData::Below(None)
             } else {
@@ -257,7 +257,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::leader => {
-            let leader = inner.next().unwrap().as_str().parse::<i8>().unwrap();
+            let leader = parse_saturating::<i8>(inner.next().unwrap().as_str());
             Some(if leader > 0 {
                 #[allow(clippy::cast_sign_loss)]
                 AsrData::Leader(Leader::Miles(leader as u8))
@@ -267,9 +267,9 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         }
         Rule::show_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowLeader),
         Rule::turn_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::TurnLeader),
-        Rule::history_dots => Some(AsrData::HistoryDots(
-            inner.next().unwrap().as_str().parse().unwrap(),
-        )),
+        Rule::history_dots => Some(AsrData::HistoryDots(parse_saturating(
+            inner.next().unwrap().as_str(),
+        ))),
         Rule::simulation_mode => Some(AsrData::SimulationMode(
             match inner.next().unwrap().as_str() {
                 "1" => SimulationMode::Radar,
diff --git a/src/ese.rs b/src/ese.rs
index ecc2262..3bcf1c4 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -15,7 +15,7 @@ use crate::{
     DegMinSec, DegMinSecExt as _, Sign,
 };
 
-use super::read_to_string;
+use super::{parse_saturating, read_to_string};
 
 #[derive(Parser)]
 #[grammar = "pest/base.pest"]
@@ -54,7 +54,7 @@ impl MSAW {
     fn parse(pair: Pair<Rule>) -> (String, Self) {
         let mut msaw = pair.into_inner();
         let id = msaw.next().unwrap().as_str().to_string();
-        let altitude = msaw.next().unwrap().as_str().parse().unwrap();
+        let altitude = parse_saturating(msaw.next().unwrap().as_str());
         let points = msaw.map(parse_coordinate).collect();
 
         (id, Self { altitude, points })
@@ -132,8 +132,8 @@ impl Sector {
     fn parse(pair: Pair<Rule>) -> (Vec<String>, Self) {
         let mut sector = pair.into_inner();
         let id = sector.next().unwrap().as_str().to_string();
-        let bottom = sector.next().unwrap().as_str().parse().unwrap();
-        let top = sector.next().unwrap().as_str().parse().unwrap();
+        let bottom = parse_saturating(sector.next().unwrap().as_str());
+        let top = parse_saturating(sector.next().unwrap().as_str());
         let subsettings = sector.map(Self::parse_subsettings).collect::<Vec<_>>();
         let owner_priority = subsettings
             .iter()
@@ -258,7 +258,7 @@ fn parse_wildcard_string(pair: &Pair<Rule>) -> Option<String> {
 fn parse_wildcard_u32(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::wildcard => None,
-        Rule::integer => Some(pair.as_str().parse().unwrap()),
+        Rule::integer => Some(parse_saturating(pair.as_str())),
         rule => unreachable!("{rule:?}"),
     }
 }
@@ -401,14 +401,8 @@ fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
     let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
-    let degrees = coordinate_part
-        .next()
-        .unwrap()
-        .as_str()
-        .parse::<u16>()
-        .unwrap();
-
-    let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
+    let degrees = parse_saturating(coordinate_part.next().unwrap().as_str());
+    let min = parse_saturating(coordinate_part.next().unwrap().as_str());
     let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
 
     (sign, degrees, min, sec)
@@ -449,8 +443,8 @@ fn parse_squawk_range(maybe_pair: Option<Pair<Rule>>) -> Option<(u16, u16)> {
     maybe_pair.and_then(|pair| match pair.as_rule() {
         Rule::squawk_range => {
             let mut squawk_range = pair.into_inner();
-            let squawk_begin = squawk_range.next().unwrap().as_str().parse().unwrap();
-            let squawk_end = squawk_range.next().unwrap().as_str().parse().unwrap();
+            let squawk_begin = parse_saturating(squawk_range.next().unwrap().as_str());
+            let squawk_end = parse_saturating(squawk_range.next().unwrap().as_str());
             Some((squawk_begin, squawk_end))
         }
         _ => None,
diff --git a/src/lib.rs b/src/lib.rs
index b4fceb2..4566e69 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,9 +1,10 @@
-use std::{collections::HashMap, fmt::Display, hash::Hash, io};
+use std::{collections::HashMap, fmt::Display, hash::Hash, io, str::FromStr};
 
 use bevy_derive::{Deref, DerefMut};
 use bevy_reflect::Reflect;
 use geo::{Coord, Point};
 use multimap::MultiMap;
+use num_traits::Bounded;
 use serde::{Deserialize, Serialize, Serializer};
 use tracing::warn;
 
@@ -32,6 +33,19 @@ fn read_to_string(contents: &[u8]) -> Result<String, io::Error> {
     })
 }
 
+/// Converts an integer already matched by a grammar, values not representable in `T` are reported
+/// and replaced by the closest representable one.
+fn parse_saturating<T: FromStr + Bounded>(number: &str) -> T {
+    number.parse().unwrap_or_else(|_| {
+        warn!("number out of range: {number}");
+        if number.starts_with('-') {
+            T::min_value()
+        } else {
+            T::max_value()
+        }
+    })
+}
+
 // deg: i16, because, i.e. UK uses invalid coordinates for dummy data: S999.00.00.000 E999.00.00.000
 #[derive(Copy, Clone, Debug, Default)]
 pub enum Sign {
diff --git a/src/sct.rs b/src/sct.rs
index 49f151f..7ecae24 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -24,7 +24,7 @@ use crate::{
     DegMinSec, DegMinSecExt, Location,
 };
 
-use super::read_to_string;
+use super::{parse_saturating, read_to_string};
 
 #[derive(Parser)]
 #[grammar = "pest/base.pest"]
@@ -564,12 +564,8 @@ fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
     let mut coordinate_part = pair.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
-    let degrees_str = coordinate_part.next().unwrap().as_str();
-    let degrees = degrees_str
-        .parse::<u16>()
-        .inspect_err(|e| warn!("Could not parse coordinate, {e}: {degrees_str}"))
-        .unwrap();
-    let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
+    let degrees = parse_saturating(coordinate_part.next().unwrap().as_str());
+    let min = parse_saturating(coordinate_part.next().unwrap().as_str());
     let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
 
     (sign, degrees, min, sec)
@@ -781,8 +777,8 @@ fn parse_runway(pair: Pair<Rule>) -> Runway {
     let mut runway = pair.into_inner();
     let designator1 = runway.next().unwrap().as_str().to_string();
     let designator2 = runway.next().unwrap().as_str().to_string();
-    let heading1 = runway.next().unwrap().as_str().parse().unwrap();
-    let heading2 = runway.next().unwrap().as_str().parse().unwrap();
+    let heading1 = parse_saturating(runway.next().unwrap().as_str());
+    let heading2 = parse_saturating(runway.next().unwrap().as_str());
     let loc1 = parse_coordinate(runway.next().unwrap()).into();
     let loc2 = parse_coordinate(runway.next().unwrap()).into();
     let aerodrome = runway.next().unwrap().as_str().to_string();
@@ -828,7 +824,7 @@ fn parse_info_section(pair: Pair<Rule>, colours: &mut HashMap<String, Colour>) -
 fn parse_colour_definition(pair: Pair<Rule>) -> Option<(String, Colour)> {
     let mut pairs = pair.into_inner();
     let colour_name = pairs.next().unwrap().as_str().to_string();
-    match Colour::from_euroscope(pairs.next().unwrap().as_str().parse().unwrap()) {
+    match Colour::from_euroscope(parse_saturating(pairs.next().unwrap().as_str())) {
         Ok(colour_value) => Some((colour_name, colour_value)),
         Err(e) => {
             warn!("Could not parse colour {colour_name}: {e}");
diff --git a/src/symbology.rs b/src/symbology.rs
index 4648226..66c7d2e 100644
--- a/src/symbology.rs
+++ b/src/symbology.rs
@@ -16,7 +16,7 @@ use crate::{
     TwoKeyMap,
 };
 
-use super::read_to_string;
+use super::{parse_saturating, read_to_string};
 
 #[derive(Parser)]
 #[grammar = "pest/base.pest"]
@@ -118,10 +118,10 @@ impl Item {
         let folder = item.next().unwrap().as_str().to_string();
         let name = item.next().unwrap().as_str().to_string();
         let colour_str = item.next().unwrap().as_str();
-        let colour_num = colour_str.parse::<i32>().unwrap();
+        let colour_num = parse_saturating(colour_str);
         let font_size_symbol_scale = item.next().unwrap().as_str().parse().unwrap();
         let line_style = parse_linestyle(&item.next().unwrap());
-        let line_weight = item.next().unwrap().as_str().parse().unwrap();
+        let line_weight = parse_saturating(item.next().unwrap().as_str());
         let text_alignment = parse_alignment(&item.next().unwrap());
 
         match Colour::from_euroscope(colour_num) {
@@ -152,7 +152,7 @@ fn parse_point(pair: Pair<Rule>) -> (f64, f64) {
 // TODO similar to topsky symbol parsing, generalise?
 fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)> {
     let mut symbol = pair.into_inner();
-    let maybe_symbol_type = SymbolType::from_u32(symbol.next().unwrap().as_str().parse().unwrap());
+    let maybe_symbol_type = SymbolType::from_i64(parse_saturating(symbol.next().unwrap().as_str()));
     let symbol_rules = symbol
         .map(|pair| {
             let ruletype = pair.as_rule();
@@ -165,9 +165,9 @@ fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)>
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
                     let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     SymbolRule::Arc(pos, radius, start_angle, end_angle)
                 }
                 Rule::arc_ellipse => {
@@ -175,9 +175,9 @@ fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)>
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::Arc(pos, radius_x, start_angle, end_angle)
                     } else {
@@ -188,9 +188,9 @@ fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)>
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
                     let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     SymbolRule::FilledArc(pos, radius, start_angle, end_angle)
                 }
                 Rule::fillarc_ellipse => {
@@ -198,9 +198,9 @@ fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)>
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::FilledArc(pos, radius_x, start_angle, end_angle)
                     } else {
diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 655b2d6..ee2efe4 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -13,7 +13,7 @@ use tracing::warn;
 
 use crate::{
     adaptation::{colours::Colour, line_styles::LineStyle, maps::active::Active, Alignment},
-    read_to_string, DegMinSec, DegMinSecExt as _, Location, Sign,
+    parse_saturating, read_to_string, DegMinSec, DegMinSecExt as _, Location, Sign,
 };
 
 use super::{
@@ -35,13 +35,8 @@ impl CoordinatePart {
                 let mut sct_coord_part = coordinate_part.into_inner();
                 let hemi = sct_coord_part.next().unwrap().as_str();
                 let sign = Sign::from(hemi);
-                let degrees = sct_coord_part
-                    .next()
-                    .unwrap()
-                    .as_str()
-                    .parse::<u16>()
-                    .unwrap();
-                let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+                let degrees = parse_saturating(sct_coord_part.next().unwrap().as_str());
+                let min = parse_saturating(sct_coord_part.next().unwrap().as_str());
                 let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
 
                 Self::DegMinSec((sign, degrees, min, sec))
@@ -376,9 +371,9 @@ pub(super) fn parse_colour(pair: Pair<Rule>) -> Option<ColourDef> {
         Rule::colourdef => {
             let mut colour = pair.into_inner();
             let name = colour.next().unwrap().as_str().to_string();
-            let r = colour.next().unwrap().as_str().parse().unwrap();
-            let g = colour.next().unwrap().as_str().parse().unwrap();
-            let b = colour.next().unwrap().as_str().parse().unwrap();
+            let r = parse_saturating(colour.next().unwrap().as_str());
+            let g = parse_saturating(colour.next().unwrap().as_str());
+            let b = parse_saturating(colour.next().unwrap().as_str());
             Some(ColourDef {
                 name,
                 colour: Colour::from_rgb(r, g, b),
diff --git a/src/topsky/symbol.rs b/src/topsky/symbol.rs
index bad01bc..cb155da 100644
--- a/src/topsky/symbol.rs
+++ b/src/topsky/symbol.rs
@@ -6,7 +6,7 @@ use pest::{
 };
 use serde::Serialize;
 
-use crate::{adaptation::symbols::SymbolRule, read_to_string};
+use crate::{adaptation::symbols::SymbolRule, parse_saturating, read_to_string};
 
 use super::{parse_point, Rule, TopskyError, TopskyParser};
 
@@ -29,9 +29,9 @@ fn parse_symbol_rules(pairs: Pairs<Rule>) -> Vec<SymbolRule> {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
                     let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     SymbolRule::Arc(pos, radius, start_angle, end_angle)
                 }
                 Rule::arc_ellipse => {
@@ -39,9 +39,9 @@ fn parse_symbol_rules(pairs: Pairs<Rule>) -> Vec<SymbolRule> {
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::Arc(pos, radius_x, start_angle, end_angle)
                     } else {
@@ -52,9 +52,9 @@ fn parse_symbol_rules(pairs: Pairs<Rule>) -> Vec<SymbolRule> {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
                     let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     SymbolRule::FilledArc(pos, radius, start_angle, end_angle)
                 }
                 Rule::fillarc_ellipse => {
@@ -62,9 +62,9 @@ fn parse_symbol_rules(pairs: Pairs<Rule>) -> Vec<SymbolRule> {
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                        parse_saturating::<i64>(symbolrule.next().unwrap().as_str()) % 360;
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::FilledArc(pos, radius_x, start_angle, end_angle)
                     } else {
-- 
2.43.0


From afd714896c58352f0596d9f60b9910e555f8497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 08/29] fix: read decimal coordinates in .ese files

---
 src/ese.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 3bcf1c4..047256d 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -397,23 +397,27 @@ enum SectionName {
     Unsupported,
 }
 
-fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
-    let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    if coordinate_part.as_rule() == Rule::decimal {
+        return coordinate_part.as_str().parse().unwrap();
+    }
+    let mut coordinate_part = coordinate_part.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
     let degrees = parse_saturating(coordinate_part.next().unwrap().as_str());
     let min = parse_saturating(coordinate_part.next().unwrap().as_str());
     let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
 
-    (sign, degrees, min, sec)
+    Coord::from_deg_min_sec((sign, degrees, min, sec), DegMinSec::default()).y
 }
 
 // TODO generalise this and other similar into trait
 fn parse_coordinate(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = parse_coordinate_part(coordinate.next().unwrap());
-    let lng = parse_coordinate_part(coordinate.next().unwrap());
-    Coord::from_deg_min_sec(lat, lng)
+    let y = parse_coordinate_part(coordinate.next().unwrap());
+    let x = parse_coordinate_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 enum SectorRule {
-- 
2.43.0


From 637141ceb2f4a4e7e7d3713ac68d7e1fccfd91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 09/29] fix: read WINDOWAREA given in degrees, minutes and
 seconds in .asr files

---
 src/asr.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 1752541..57feefe 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -7,7 +7,7 @@ use serde::Serialize;
 use thiserror::Error;
 use tracing::warn;
 
-use crate::TwoKeyMap;
+use crate::{DegMinSec, DegMinSecExt as _, Sign, TwoKeyMap};
 
 use super::{parse_saturating, read_to_string};
 
@@ -214,6 +214,20 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    if coordinate_part.as_rule() == Rule::DECIMAL {
+        return coordinate_part.as_str().parse().unwrap();
+    }
+    let mut coordinate_part = coordinate_part.into_inner();
+    let sign = Sign::from(coordinate_part.next().unwrap().as_str());
+    let degrees = parse_saturating(coordinate_part.next().unwrap().as_str());
+    let min = parse_saturating(coordinate_part.next().unwrap().as_str());
+    let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
+
+    Coord::from_deg_min_sec((sign, degrees, min, sec), DegMinSec::default()).y
+}
+
 fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
     let rule = pair.as_rule();
     let mut inner = pair.into_inner();
@@ -290,10 +304,10 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             inner.next().unwrap().as_str().to_string(),
         )),
         Rule::window_area => {
-            let lat1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lat2 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng2 = inner.next().unwrap().as_str().parse().unwrap();
+            let lat1 = parse_coordinate_part(inner.next().unwrap());
+            let lng1 = parse_coordinate_part(inner.next().unwrap());
+            let lat2 = parse_coordinate_part(inner.next().unwrap());
+            let lng2 = parse_coordinate_part(inner.next().unwrap());
             Some(AsrData::WindowArea((
                 Coord { x: lng1, y: lat1 },
                 Coord { x: lng2, y: lat2 },
-- 
2.43.0


From 6fc380978d06e0b4c00f9d49fb16fd1de62fb961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 10/29] fix: accept TopSky coordinates mixing decimal and
 degree notation

---
 src/topsky/map/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index ee2efe4..75d9c3d 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -55,7 +55,14 @@ fn parse_coord(pair: Pair<Rule>) -> Coord {
         (CoordinatePart::DegMinSec(lat), CoordinatePart::DegMinSec(lng)) => {
             Coord::from_deg_min_sec(lat, lng)
         }
-        _ => panic!("Consistency!"),
+        (CoordinatePart::Decimal(y), CoordinatePart::DegMinSec(lng)) => Coord {
+            x: Coord::from_deg_min_sec(DegMinSec::default(), lng).x,
+            y,
+        },
+        (CoordinatePart::DegMinSec(lat), CoordinatePart::Decimal(x)) => Coord {
+            x,
+            y: Coord::from_deg_min_sec(lat, DegMinSec::default()).y,
+        },
     }
 }
 
-- 
2.43.0


From 8d413b27accf7a2549b7a80815e15f05f023dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 11/29] fix: keep all visibility points of .ese positions
 without squawk range

---
 src/ese.rs        | 5 +++--
 src/pest/ese.pest | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 047256d..a25560d 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -465,8 +465,9 @@ fn parse_position(pair: Pair<Rule>) -> (String, Position) {
     let prefix = position.next().unwrap().as_str().to_string();
     let suffix = position.next().unwrap().as_str().to_string();
     // skip unused fields
-    let mut position = position.skip(2);
-    let squawk_range = parse_squawk_range(position.next());
+    let mut position = position.skip(2).peekable();
+    let squawk_range =
+        parse_squawk_range(position.next_if(|pair| pair.as_rule() == Rule::squawk_range));
     let visibility_points = position.map(parse_coordinate).collect();
 
     (
diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index c2a029e..e7216f7 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -18,7 +18,7 @@ unparsed_section = { (section_header ~ NL ~ line*) }
 
 position = {
   colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ frequency ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":"
-  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ squawk_range? ~ ":"?
+  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ (squawk_range | ":")? ~ ":"?
   ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
 }
 squawk_range = { integer ~ ":" ~ integer }
-- 
2.43.0


From faa53b79d6b3132c6a9dfbd509b892a3f9aff633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 12/29] fix: keep the contents of all .ese sections of the same
 kind

---
 src/ese.rs | 92 ++++++++++++++++++------------------------------------
 1 file changed, 31 insertions(+), 61 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index a25560d..2cad2fb 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -381,22 +381,6 @@ pub struct Ese {
 
 pub type EseResult = Result<Ese, EseError>;
 
-#[derive(Debug)]
-enum Section {
-    Positions(HashMap<String, Position>),
-    Sectors((HashMap<String, Sector>, Vec<Constraint>)),
-    SidsStars(Vec<SidStar>),
-    Unsupported,
-}
-
-#[derive(Debug, PartialEq, Eq, Hash)]
-enum SectionName {
-    Position,
-    Airspace,
-    SidsStars,
-    Unsupported,
-}
-
 fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
     let coordinate_part = pair.into_inner().next().unwrap();
     if coordinate_part.as_rule() == Rule::decimal {
@@ -595,63 +579,49 @@ fn parse_sid_star(pair: Pair<Rule>) -> SidStar {
     }
 }
 
-fn parse_section(pair: Pair<Rule>) -> (SectionName, Section) {
+/// Contents of all sections, those occurring repeatedly are concatenated.
+#[derive(Default)]
+struct Sections {
+    positions: HashMap<String, Position>,
+    airspace: SectorsLinesBorders,
+    sids_stars: Vec<SidStar>,
+}
+
+fn collect_sections(mut sections: Sections, pair: Pair<Rule>) -> Sections {
     match pair.as_rule() {
-        Rule::position_section => (
-            SectionName::Position,
-            Section::Positions(pair.into_inner().map(parse_position).collect()),
-        ),
-        Rule::airspace_section => (
-            SectionName::Airspace,
-            Section::Sectors({
-                combine_sectors_with_borders(
-                    pair.into_inner()
-                        .map(parse_airspace)
-                        // TODO combine sectors with lines
-                        .fold(
-                            (
-                                HashMap::new(),
-                                HashMap::new(),
-                                HashMap::new(),
-                                HashMap::new(),
-                                vec![],
-                            ),
-                            collect_sectors,
-                        ),
-                )
-            }),
-        ),
-        Rule::sidsstars_section => (
-            SectionName::SidsStars,
-            Section::SidsStars(pair.into_inner().map(parse_sid_star).collect()),
-        ),
-        _ => (SectionName::Unsupported, Section::Unsupported),
+        Rule::position_section => sections
+            .positions
+            .extend(pair.into_inner().map(parse_position)),
+        Rule::airspace_section => {
+            sections.airspace = pair
+                .into_inner()
+                .map(parse_airspace)
+                // TODO combine sectors with lines
+                .fold(sections.airspace, collect_sectors);
+        }
+        Rule::sidsstars_section => sections
+            .sids_stars
+            .extend(pair.into_inner().map(parse_sid_star)),
+        _ => (),
     }
+    sections
 }
 
 impl Ese {
     pub fn parse(content: &[u8]) -> EseResult {
         let unparsed_file = read_to_string(content)?;
-        let mut sections = EseParser::parse(Rule::ese, &unparsed_file).map(|mut pairs| {
+        let Sections {
+            positions,
+            airspace,
+            sids_stars,
+        } = EseParser::parse(Rule::ese, &unparsed_file).map(|mut pairs| {
             pairs
                 .next()
                 .unwrap()
                 .into_inner()
-                .map(parse_section)
-                .collect::<HashMap<_, _>>()
+                .fold(Sections::default(), collect_sections)
         })?;
-        let positions = match sections.remove_entry(&SectionName::Position) {
-            Some((_, Section::Positions(positions))) => positions,
-            _ => HashMap::new(),
-        };
-        let (sectors, constraints) = match sections.remove_entry(&SectionName::Airspace) {
-            Some((_, Section::Sectors(sectors))) => sectors,
-            _ => (HashMap::new(), vec![]),
-        };
-        let sids_stars = match sections.remove_entry(&SectionName::SidsStars) {
-            Some((_, Section::SidsStars(sids_stars))) => sids_stars,
-            _ => vec![],
-        };
+        let (sectors, constraints) = combine_sectors_with_borders(airspace);
 
         Ok(Ese {
             positions,
-- 
2.43.0


From 3ebe1714be18c2b6287c080ceb9a4c60048c84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 13/29] fix: choose the plugin directory of a profile
 independently of hash order

---
 src/prf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prf.rs b/src/prf.rs
index 4883cfa..320f309 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -4,6 +4,7 @@ use std::ffi::OsStr;
 use std::io;
 use std::path::{Path, PathBuf};
 
+use itertools::Itertools as _;
 use pest::{iterators::Pair, Parser};
 use pest_derive::Parser;
 use serde::Serialize;
@@ -89,6 +90,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("Squawks.dll")) {
@@ -106,6 +108,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("TopSky.dll")) {
-- 
2.43.0


From 5c6bb3011d3aaacebbf50e3bf994cb0591039796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 14/29] fix: do not keep the carriage return in values of CRLF
 profiles

---
 src/pest/prf.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/prf.pest b/src/pest/prf.pest
index b2a7236..107c57d 100644
--- a/src/pest/prf.pest
+++ b/src/pest/prf.pest
@@ -6,7 +6,7 @@ setting = {
 
 category = @{ LETTER+ }
 key = @{ (LETTER | ASCII_DIGIT | "_")+ }
-value = @{ (!"\n" ~ ANY)+ }
+value = @{ (!NEWLINE ~ ANY)+ }
 
 NL = _{ NEWLINE+ }
 WHITESPACE = _{ " "| "\t" }
-- 
2.43.0


From b042fbcf8b9d7f3f6c3a8aac2fa4d003c08d4ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 15/29] fix: non-ASCII digits in coordinate designators no
 longer panic

---
 src/adaptation/locations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index 4cda431..fd5f74d 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -166,12 +166,12 @@ pub struct Locations {
 
 fn coord_regex() -> &'static Regex {
     static COORD_RE: OnceLock<Regex> = OnceLock::new();
-    COORD_RE.get_or_init(|| Regex::new(r"^(\d{1,6})(N|S)(\d{2,7})(E|W)$").unwrap())
+    COORD_RE.get_or_init(|| Regex::new(r"^([0-9]{1,6})(N|S)([0-9]{2,7})(E|W)$").unwrap())
 }
 
 fn range_bearing_regex() -> &'static Regex {
     static RANGE_BEARING_RE: OnceLock<Regex> = OnceLock::new();
-    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})(\d{3})(\d{3})$").unwrap())
+    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})([0-9]{3})([0-9]{3})$").unwrap())
 }
 
 impl Locations {
-- 
2.43.0


From 2243487ef3724c2ba24bee9fd018f174bcea6802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 16/29] fix: consider every point of a designator in
 contains_nav_element

---
 src/adaptation/locations/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index fd5f74d..6dfc1de 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -439,18 +439,21 @@ impl Locations {
     pub fn contains_nav_element(&self, designator: &str, position: GraphPosition) -> bool {
         let other = position.0.quantize();
         self.vors
-            .get(designator)
-            .iter()
+            .get_vec(designator)
+            .into_iter()
+            .flatten()
             .any(|vor| vor.coordinate.quantize() == other)
             || self
                 .ndbs
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|ndb| ndb.coordinate.quantize() == other)
             || self
                 .fixes
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|fix| fix.coordinate.quantize() == other)
     }
 }
-- 
2.43.0


From 449bf7285e8a46e458c37ebfdabba0757537d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 17/29] fix: split the names of AUP and NOTAM map activations

---
 src/topsky/map/active.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/active.rs b/src/topsky/map/active.rs
index afee1fd..60bc9b7 100644
--- a/src/topsky/map/active.rs
+++ b/src/topsky/map/active.rs
@@ -126,6 +126,7 @@ impl Active {
             Rule::active_aup => Self::Aup(
                 active
                     .into_inner()
+                    .flat_map(Pair::into_inner)
                     .map(|pair| pair.as_str().to_string())
                     .collect(),
             ),
@@ -133,7 +134,10 @@ impl Active {
                 let mut active_notam = active.into_inner();
                 Self::Notam(
                     active_notam.next().unwrap().as_str().to_string(),
-                    active_notam.map(|pair| pair.as_str().to_string()).collect(),
+                    active_notam
+                        .flat_map(Pair::into_inner)
+                        .map(|pair| pair.as_str().to_string())
+                        .collect(),
                 )
             }
             Rule::active_area => Self::Area(ActiveAreas::parse(active)),
-- 
2.43.0


From e1fde2947c9064475b843d4728724286ec613fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 18/29] fix: report files missing in a profile instead of
 panicking

---
 src/adaptation/mod.rs |  1 +
 src/prf.rs            | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/adaptation/mod.rs b/src/adaptation/mod.rs
index 73144f5..1d24a70 100644
--- a/src/adaptation/mod.rs
+++ b/src/adaptation/mod.rs
@@ -213,6 +213,7 @@ pub struct Adaptation {
 
 impl Adaptation {
     pub fn from_prf(prf: &Prf) -> AdaptationResult {
+        prf.check_required_settings()?;
         // TODO parallelise/asyncify where able
         let sct = Sct::parse(&fs_err::read(prf.sct_path())?)?;
         let ese = Ese::parse(&fs_err::read(prf.ese_path())?)?;
diff --git a/src/prf.rs b/src/prf.rs
index 320f309..242574a 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -21,6 +21,8 @@ pub enum PrfError {
     FileRead(#[from] io::Error),
     #[error("failed to parse .prf file: {0}")]
     Parse(#[from] pest::error::Error<Rule>),
+    #[error("setting `{0}` is missing in .prf file")]
+    MissingSetting(&'static str),
 }
 
 #[derive(Parser)]
@@ -44,6 +46,28 @@ impl Prf {
             current_dir().unwrap().join(normalised_path)
         }
     }
+
+    /// Ensures that all files required to assemble an adaptation are configured
+    pub(crate) fn check_required_settings(&self) -> Result<(), PrfError> {
+        [
+            "sector",
+            "airways",
+            "airportcoords",
+            "airlines",
+            "aircraft",
+            "airports",
+            "SettingsfileSYMBOLOGY",
+        ]
+        .into_iter()
+        .find(|key| {
+            !self
+                .settings
+                .0
+                .contains_key(&("Settings".to_string(), (*key).to_string()))
+        })
+        .map_or(Ok(()), |key| Err(PrfError::MissingSetting(key)))
+    }
+
     pub fn sct_path(&self) -> PathBuf {
         self.join_settings_path(&self.settings.0[&("Settings".to_string(), "sector".to_string())])
     }
-- 
2.43.0


From bcb4bb2602cd0fe1d2f02ee82dc77fbd5f0528a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 19/29] fix: find airway end points among all points of that
 designator on the airway

---
 src/adaptation/locations/airways.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/adaptation/locations/airways.rs b/src/adaptation/locations/airways.rs
index f5484a1..6cae68c 100644
--- a/src/adaptation/locations/airways.rs
+++ b/src/adaptation/locations/airways.rs
@@ -101,14 +101,16 @@ impl AirwayGraph {
             return None;
         }
 
-        let Some(end) = self.find_fix_on_airway(end, airway) else {
+        // unconnected parts of an airway may have points of the same designator
+        let ends = self.find_fixes_on_airway(end, airway);
+        if ends.is_empty() {
             tracing::debug!(
                 "End Point {} not on {}",
                 end,
                 self.airway_name_by_id[airway.0]
             );
             return None;
-        };
+        }
 
         let edges = self.fixes[start.0].edges.get(&airway)?;
 
@@ -122,7 +124,7 @@ impl AirwayGraph {
         }
 
         for edge in edges {
-            let Some(expanded_fixes) = self.traverse_airway(*start, edge, *end, airway) else {
+            let Some(expanded_fixes) = self.traverse_airway(*start, edge, &ends, airway) else {
                 continue;
             };
 
@@ -214,6 +216,15 @@ impl AirwayGraph {
             .find(|&id| self.fixes[id.0].edges.contains_key(&airway))
     }
 
+    fn find_fixes_on_airway(&self, designator: &str, airway: AirwayId) -> Vec<FixId> {
+        self.get_fix_ids(designator)
+            .into_iter()
+            .flatten()
+            .copied()
+            .filter(|&id| self.is_fix_id_on_airway(id, airway))
+            .collect()
+    }
+
     fn get_airway_id(&self, name: &str) -> Option<AirwayId> {
         self.airway_id_by_name.get(name).copied()
     }
@@ -271,7 +282,7 @@ impl AirwayGraph {
         &self,
         start_fix: FixId,
         start_edge: &AirwayEdge,
-        end: FixId,
+        ends: &[FixId],
         airway: AirwayId,
     ) -> Option<Vec<(FixId, bool, Option<u32>)>> {
         let mut prev = start_fix;
@@ -290,7 +301,7 @@ impl AirwayGraph {
             let current = edge.to;
             expanded.push((edge.to, edge.valid_direction, edge.minimum_level));
 
-            if current == end {
+            if ends.contains(&current) {
                 return Some(expanded);
             }
 
-- 
2.43.0


From 038c31da11c6dfdeddbff7f7892700c325bf0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:01 +0000
Subject: [PATCH 20/29] fix: name sectors and start their outlines
 independently of hash order

---
 src/adaptation/sectors.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index d21f579..0cf6f94 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -5,6 +5,7 @@ use std::{
 
 use bevy_derive::Deref;
 use geo::{Coord, Line, LineString, Polygon, Winding};
+use itertools::Itertools as _;
 use multimap::MultiMap;
 use serde::{Deserialize, Serialize};
 use tracing::warn;
@@ -77,20 +78,17 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
             })
         })
         .collect();
-    let (mut adj_list, edge_count, points) = lines.iter().fold(
+    let (mut adj_list, edge_count) = lines.iter().fold(
         (
             HashMap::<Coord<i64>, Vec<Coord<i64>>>::new(),
             HashMap::<Coord<i64>, usize>::new(),
-            HashSet::<Coord<i64>>::new(),
         ),
-        |(mut adj_list, mut edge_count, mut points), line| {
+        |(mut adj_list, mut edge_count), line| {
             adj_list.entry(line.start).or_default().push(line.end);
             adj_list.entry(line.end).or_default().push(line.start);
             *edge_count.entry(line.start).or_insert(0) += 1;
             *edge_count.entry(line.end).or_insert(0) += 1;
-            points.insert(line.start);
-            points.insert(line.end);
-            (adj_list, edge_count, points)
+            (adj_list, edge_count)
         },
     );
 
@@ -99,10 +97,10 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
         return None;
     }
 
-    let line_ring = if let Some(start_point) = points.iter().next() {
-        let mut stack = vec![*start_point];
+    let line_ring = if let Some(start_point) = lines.first().map(|line| line.start) {
+        let mut stack = vec![start_point];
         let mut line_ring = vec![];
-        let mut current = *start_point;
+        let mut current = start_point;
 
         while !stack.is_empty() {
             if let Some(neighbours) = adj_list.get_mut(&current) {
@@ -139,7 +137,9 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
 
 impl Sectors {
     pub fn from_ese(ese: &Ese) -> (HashMap<String, Volume>, Sectors) {
-        let (by_priorities_filters, volumes) = ese.sectors.iter().fold(
+        // sectors are named after their first volume, so the order must not vary between runs
+        let sorted_sectors = ese.sectors.iter().sorted_by_key(|(id, _)| *id);
+        let (by_priorities_filters, volumes) = sorted_sectors.fold(
             (TwoKeyMultiMap(MultiMap::new()), HashMap::new()),
             |(mut sectors, mut volumes), (id, sector)| {
                 if let Some(polygon) = polygon_from_ese(sector) {
-- 
2.43.0


From 254f9c56ae5da5d07673f13b5462a3463494820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:17 +0000
Subject: [PATCH 21/29] fix: accept lower-case hemispheres in .asr coordinates
 like in all other files

---
 src/pest/asr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/asr.pest b/src/pest/asr.pest
index 77bb8a9..2e9c6f2 100644
--- a/src/pest/asr.pest
+++ b/src/pest/asr.pest
@@ -122,7 +122,7 @@ multivalue_backslash = @{ (!"\\" ~ ANY)* }
 deg = @{ ASCII_DIGIT+ }
 min = @{ ASCII_DIGIT+ }
 sec = @{ DECIMAL }
-hemi = @{ "N" | "S" | "W" | "E" }
+hemi = @{ "N" | "S" | "W" | "E" | "n" | "s" | "w" | "e" }
 
 INTEGER = @{ "-"? ~ ASCII_DIGIT+ }
 DECIMAL = @{ "-"? ~ ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT+)? }
-- 
2.43.0


From 053fec719d8449e336b94f58c8a8ed43c3da80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 22/29] fix: take the colour of high airway names from their
 own symbology entry

---
 src/adaptation/colours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/colours.rs b/src/adaptation/colours.rs
index a5dc074..12cf3b1 100644
--- a/src/adaptation/colours.rs
+++ b/src/adaptation/colours.rs
@@ -232,7 +232,7 @@ impl MapColours {
             ),
             high_airway_name: Colour::from_symbology(
                 symbology,
-                &("High airways".to_string(), "line".to_string()),
+                &("High airways".to_string(), "name".to_string()),
                 Self::DEFAULT_HIGH_AIRWAY_NAME,
             ),
             sid: Colour::from_symbology(
-- 
2.43.0


From b09718d4a917c2a53712341542f432aec6147d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 23/29] fix: use the built-in VOR symbol as default for VORs

---
 src/adaptation/symbols.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 52bb09b..df1a99a 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -190,7 +190,7 @@ impl Symbols {
                 .and_then(|t| t.symbols.get("VOR"))
                 .map(|s| s.rules.clone())
                 .or_else(|| symbology.symbols.get(&SymbolType::VOR).cloned())
-                .unwrap_or(default_ndb().clone()),
+                .unwrap_or(default_vor().clone()),
             airport: topsky
                 .as_ref()
                 .and_then(|t| t.symbols.get("AIRPORT"))
-- 
2.43.0


From a8cb32d69a02340c482082954d044a229fa515f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 24/29] fix: changing the style of a map does not alter
 polygons drawn before

---
 src/adaptation/maps/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index 054ec2a..c934a21 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -47,7 +47,11 @@ impl Map {
         F: FnMut(&mut MapGroup),
     {
         if let Some(last) = self.map_groups.last() {
-            if last.lines.0.is_empty() && last.symbols.is_empty() && last.labels.is_empty() {
+            if last.lines.0.is_empty()
+                && last.symbols.is_empty()
+                && last.labels.is_empty()
+                && last.polygons.is_empty()
+            {
                 change_fn(self.map_groups.last_mut().unwrap());
             } else {
                 let mut map_group = MapGroup {
-- 
2.43.0


From 9b500a9ec601035df2b26eb566e74960efa0bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 25/29] fix: ignore special use codes beyond four octal digits

---
 src/adaptation/settings/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/adaptation/settings/mod.rs b/src/adaptation/settings/mod.rs
index d4bea18..7f59a39 100644
--- a/src/adaptation/settings/mod.rs
+++ b/src/adaptation/settings/mod.rs
@@ -339,6 +339,13 @@ impl Default for MapsSettings {
     }
 }
 
+/// SSR codes consist of (up to) four octal digits
+fn parse_ssr_code(code: &str) -> Option<u16> {
+    u16::from_str_radix(code, 8)
+        .ok()
+        .filter(|code| *code <= 0o7777)
+}
+
 #[derive(Clone, Debug, Default, Serialize, Deserialize)]
 pub struct SsrSettings {
     pub special_use_codes: HashMap<String, String>,
@@ -354,13 +361,12 @@ impl SsrSettings {
                         warn!("Specify either code or range: {sq:?}");
                         vec![]
                     }
-                    (Some(code), None) => u16::from_str_radix(code, 8)
+                    (Some(code), None) => parse_ssr_code(code)
                         .map(|u16_code| vec![(format!("{u16_code:04o}"), sq.message.clone())])
-                        .unwrap_or(vec![]),
+                        .unwrap_or_default(),
                     (None, Some(range)) => {
-                        if let Some((start, end)) = u16::from_str_radix(&range.start, 8)
-                            .ok()
-                            .zip(u16::from_str_radix(&range.end, 8).ok())
+                        if let Some((start, end)) =
+                            parse_ssr_code(&range.start).zip(parse_ssr_code(&range.end))
                         {
                             (start..=end)
                                 .map(|i| (format!("{i:04o}"), sq.message.clone()))
-- 
2.43.0


From 72958c3d96bfaa865d1919d674b8a4dc75a8bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 26/29] fix: choose between line styles differing only in case
 independently of hash order

---
 src/adaptation/line_styles.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/adaptation/line_styles.rs b/src/adaptation/line_styles.rs
index 4c5ba16..9ffcf32 100644
--- a/src/adaptation/line_styles.rs
+++ b/src/adaptation/line_styles.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use bevy_reflect::Reflect;
+use itertools::Itertools as _;
 use serde::{Deserialize, Serialize};
 
 use crate::topsky::Topsky;
@@ -41,6 +42,8 @@ pub fn line_styles_from_topsky(topsky: &Option<Topsky>) -> HashMap<String, Optio
         .map(|t| {
             t.line_styles
                 .iter()
+                // names are case-insensitive, do not depend on hash order
+                .sorted_by_key(|(name, _)| *name)
                 .map(|(name, style)| {
                     (
                         name.to_uppercase(),
-- 
2.43.0


From 03a26de0ad6afd9d7552aa2701872766aeb0fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 27/29] fix: draw lines without colour in the default colour of
 their kind

---
 src/adaptation/sct_items.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index a15fbbc..c3e0398 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -38,6 +38,7 @@ impl ColouredLines {
         settings: &Settings,
         name: &str,
         typ: &str,
+        default_colour: Colour,
     ) -> Option<Self> {
         let lines: MultiLineString = line_group
             .lines
@@ -65,7 +66,7 @@ impl ColouredLines {
                 .colour_name
                 .as_ref()
                 .and_then(|colour_name| colours.get(colour_name, settings))
-                .unwrap_or(colours.map.sid),
+                .unwrap_or(default_colour),
             lines,
         })
     }
@@ -189,6 +190,7 @@ impl SctItems {
                                 settings,
                                 &sid.name,
                                 "SID",
+                                colours.map.sid,
                             )
                             .map(|line_group| (sid.name.clone(), line_group))
                         })
@@ -209,6 +211,7 @@ impl SctItems {
                                 settings,
                                 &star.name,
                                 "STAR",
+                                colours.map.star,
                             )
                             .map(|line_group| (star.name.clone(), line_group))
                         })
@@ -253,6 +256,7 @@ impl SctItems {
                                 settings,
                                 &artcc.name,
                                 "ARTCC High",
+                                colours.map.artcc_high_boundary,
                             )
                             .map(|line_group| (artcc.name.clone(), line_group))
                         })
@@ -274,6 +278,7 @@ impl SctItems {
                                 settings,
                                 &artcc.name,
                                 "ARTCC",
+                                colours.map.artcc_boundary,
                             )
                             .map(|line_group| (artcc.name.clone(), line_group))
                         })
@@ -295,6 +300,7 @@ impl SctItems {
                                 settings,
                                 &artcc.name,
                                 "ARTCC Low",
+                                colours.map.artcc_low_boundary,
                             )
                             .map(|line_group| (artcc.name.clone(), line_group))
                         })
@@ -315,6 +321,7 @@ impl SctItems {
                                 settings,
                                 &geo.name,
                                 "Geo",
+                                colours.map.geo,
                             )
                             .map(|line_group| (geo.name.clone(), line_group))
                         })
-- 
2.43.0


From e7ebdba2cc5a621c738420b57f17a144da3da3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 28/29] fix: draw every segment of sector file airways between
 its end points

---
 src/adaptation/sct_items.rs | 83 +++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 46 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index c3e0398..76f4a4e 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -72,31 +72,28 @@ impl ColouredLines {
     }
 }
 
-fn build_linestring(
-    point: Coord,
-    visited: HashSet<String>,
+/// Extends `linestring` by unvisited lines as long as one is connected to its end
+fn extend_linestring(
+    linestring: &mut Vec<Coord>,
+    visited: &mut HashSet<String>,
     adjacency: &MultiMap<String, Line>,
-) -> (LineString, std::collections::HashSet<String>) {
-    adjacency
-        .get_vec(&coord_hash(point))
-        .and_then(|connected_lines| {
-            connected_lines
-                .iter()
-                .find(|line| !visited.contains(&line_hash(**line)))
-        })
-        .map(|next_line| {
-            let next_point = if next_line.start == point {
-                next_line.end
-            } else {
-                next_line.start
-            };
-            let mut tmp_visited = visited.clone();
-            tmp_visited.insert(line_hash(*next_line));
-            let (mut path, new_visited) = build_linestring(next_point, tmp_visited, adjacency);
-            path.0.insert(0, point);
-            (path, new_visited)
-        })
-        .unwrap_or((LineString::new(vec![point]), visited))
+) {
+    while let Some(end) = linestring.last().map(|end| coord_hash(*end)) {
+        let Some(next_line) = adjacency
+            .get_vec(&end)
+            .into_iter()
+            .flatten()
+            .find(|line| !visited.contains(&line_hash(**line)))
+        else {
+            break;
+        };
+        visited.insert(line_hash(*next_line));
+        linestring.push(if coord_hash(next_line.start) == end {
+            next_line.end
+        } else {
+            next_line.start
+        });
+    }
 }
 
 fn airway_to_multi_line_string(
@@ -110,7 +107,7 @@ fn airway_to_multi_line_string(
         .filter_map(|airway| {
             let line = locations
                 .convert_location(&airway.start)
-                .zip(locations.convert_location(&airway.start))
+                .zip(locations.convert_location(&airway.end))
                 .map(|(start, end)| Line::new(start, end));
             if line.is_none() {
                 warn!("Could not convert {airway:?} in .sct {typ} {name}");
@@ -129,27 +126,21 @@ fn airway_to_multi_line_string(
         })
         .collect();
 
-    lines
-        .iter()
-        .fold(
-            (
-                MultiLineString::new(vec![]),
-                std::collections::HashSet::new(),
-            ),
-            |(mut acc, mut visited), line| {
-                if visited.contains(&line_hash(*line)) {
-                    (acc, visited)
-                } else {
-                    visited.insert(line_hash(*line));
-                    let (linestring, new_visited) =
-                        build_linestring(line.start, visited, &adjacency);
-                    acc.0.push(linestring);
-
-                    (acc, new_visited)
-                }
-            },
-        )
-        .0
+    let mut visited = HashSet::new();
+    MultiLineString::new(
+        lines
+            .iter()
+            .filter_map(|line| {
+                visited.insert(line_hash(*line)).then(|| {
+                    let mut linestring = vec![line.end, line.start];
+                    extend_linestring(&mut linestring, &mut visited, &adjacency);
+                    linestring.reverse();
+                    extend_linestring(&mut linestring, &mut visited, &adjacency);
+                    LineString::new(linestring)
+                })
+            })
+            .collect(),
+    )
 }
 
 #[derive(Clone, Debug, Default, Serialize, Deserialize)]
-- 
2.43.0


From aea16ca84263137750d173c87d835115e2887557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 29/29] fix: read TopSky map texts in quadratic instead of
 cubic time

---
 src/pest/topsky.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/topsky.pest b/src/pest/topsky.pest
index fec6908..0abb4dd 100644
--- a/src/pest/topsky.pest
+++ b/src/pest/topsky.pest
@@ -101,7 +101,7 @@ maplinecoordinates = { coordinate ~ ":" ~ coordinate }
 maplinewpts        = { colon_delimited_text ~ ":" ~ colon_delimited_text }
 
 text         = { "TEXT" ~ ("/" ~ textalign_config)? ~ ":" ~ (coordinate | colon_delimited_text) ~ ":" ~ text_content }
-text_content = { (!NL ~ ANY)+ }
+text_content = @{ (!(NL | COMMENT) ~ ANY)+ }
 
 textalign        = { "TEXTALIGN:" ~ textalign_config }
 textalign_config = { horizontalalign? ~ verticalalign? }
-- 
2.43.0

