From d76697e347a0b4ccf5812dab46a7ab17e33180dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 01/46] fix: carry rounded-up seconds into minutes and degrees
 when writing coordinates

Angles within half a millisecond below a whole minute were written with
60.000 seconds, and degrees above 255 were cut off.
---
 src/lib.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 97d4da5..1d0e816 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,14 +61,15 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
-fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u8, u8, f64, char) {
+fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u16, u8, f64, char) {
     let is_negative = decimal.is_sign_negative();
-    let abs = decimal.abs();
 
-    let degrees = abs.floor() as u8;
-    let minutes_f64 = abs.fract() * 60.0;
-    let minutes = minutes_f64.floor() as u8;
-    let seconds = minutes_f64.fract() * 60.0;
+    // round to the precision being written first, so that seconds rounded up
+    // to 60 are carried over to minutes and degrees
+    let total_msec = (decimal.abs() * 3_600_000.0).round() as u64;
+    let degrees = (total_msec / 3_600_000) as u16;
+    let minutes = (total_msec / 60_000 % 60) as u8;
+    let seconds = (total_msec % 60_000) as f64 / 1000.0;
 
     let direction = match (is_latitude, is_negative) {
         (true, false) => 'N',
@@ -106,21 +107,13 @@ impl DegMinSecExt for Coord {
     }
 
     fn lat_deg_min_sec_fmt(&self) -> String {
-        let lat = decimal_to_dms(self.y, true);
-        let deg = lat.0;
-        let carry_rounded_sec = (lat.2 - 60.).abs() < 0.000_001;
-        let min = lat.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lat.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lat.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.y, true);
+        format!("{hemi}{deg:03}.{min:02}.{sec:06.3}")
     }
 
     fn lng_deg_min_sec_fmt(&self) -> String {
-        let lon = decimal_to_dms(self.x, false);
-        let deg = lon.0;
-        let carry_rounded_sec = (lon.2 - 60.).abs() < 0.000_001;
-        let min = lon.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lon.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lon.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.x, false);
+        format!("{hemi}{deg:03}.{min:02}.{sec:06.3}")
     }
 }
 impl DegMinSecExt for Point {
-- 
2.43.0


From 5851a017d64cc1946d638d96850ecd871d0503ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 02/46] fix: recognise a named .sct line from a coordinate to a
 fix or back

The first segment of a group was only recognised after its name if it ran
between two coordinates or between two fixes; a mixed one was swallowed
into the name together with the following lines.
---
 src/pest/sct.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index f2bb1ed..712740c 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -83,8 +83,7 @@ name = @{ (!(NL | "\t" | "[") ~ ANY)* }
 non_coordinate_name = { (!(sct_coordinate | NL) ~ ANY)* }
 non_coordinate_or_double_fix_name = ${
   (!(
-    ((WHITESPACE+ ~ sct_coordinate){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
-    | ((WHITESPACE+ ~ airway_fix){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
+    ((WHITESPACE+ ~ (sct_coordinate | airway_fix)){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
     | "[" | "]"
   ) ~ ANY)+
 }
-- 
2.43.0


From 20a3778e4ef464a8285b86db5da65dcbcb3e20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 03/46] fix: keep lines of a single point when writing a .sct
 file

They were written as nothing, leaving a name without any line, which
cannot be read back.
---
 src/sct.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sct.rs b/src/sct.rs
index 5e05637..e6d44ce 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -264,7 +264,13 @@ impl ToEuroscope for Location {
 impl ToEuroscope for ColouredLines {
     fn to_euroscope(&self) -> String {
         let mut lines = self.lines.iter().flat_map(|line| {
-            line.points.iter().tuple_windows().map(|(start, end)| {
+            // a line of a single point is written as a segment of zero length
+            let single_point = match line.points.as_slice() {
+                [point] => Some((point, point)),
+                _ => None,
+            };
+            let segments = line.points.iter().tuple_windows().chain(single_point);
+            segments.map(|(start, end)| {
                 format!(
                     "{} {}{}",
                     start.to_euroscope(),
-- 
2.43.0


From 1e66a4990bb6fdefac940ec76dda0ef37e97561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 04/46] fix: write no [INFO] section if a .sct file had none

The default values give empty name lines, which cannot be read back.
---
 src/sct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sct.rs b/src/sct.rs
index e6d44ce..191df29 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -1172,7 +1172,9 @@ impl Sct {
 }
 impl Display for Sct {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        writeln!(f, "{}", self.info)?;
+        if self.info != SctInfo::default() {
+            writeln!(f, "{}", self.info)?;
+        }
         writeln!(
             f,
             "{}\n",
-- 
2.43.0


From c235ef35514cf8f0c27de5b3b732cdc62bcd6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 05/46] fix: keep the entries of all .sct sections of the same
 kind

Only the entries of the last one were kept when a section was repeated.
---
 src/sct.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index 191df29..f865292 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -1,6 +1,9 @@
 use std::fmt::Formatter;
 use std::io;
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{hash_map::Entry, HashMap},
+    fmt::Display,
+};
 
 use geo::{Coord, Point};
 use itertools::Itertools as _;
@@ -510,6 +513,30 @@ enum Section {
     Unsupported,
 }
 
+impl Section {
+    /// Adds the contents of another section of the same kind.
+    fn append(&mut self, other: Self) {
+        match (self, other) {
+            (Self::Airport(this), Self::Airport(other)) => this.extend(other),
+            (Self::Fixes(this), Self::Fixes(other)) => this.extend(other),
+            (Self::HighAirways(this), Self::HighAirways(other))
+            | (Self::LowAirways(this), Self::LowAirways(other)) => this.extend(other),
+            (Self::NDBs(this), Self::NDBs(other)) => this.extend(other),
+            (Self::VORs(this), Self::VORs(other)) => this.extend(other),
+            (Self::Runways(this), Self::Runways(other)) => this.extend(other),
+            (Self::Sid(this), Self::Sid(other)) => this.extend(other),
+            (Self::Star(this), Self::Star(other)) => this.extend(other),
+            (Self::ArtccHigh(this), Self::ArtccHigh(other))
+            | (Self::Artcc(this), Self::Artcc(other))
+            | (Self::ArtccLow(this), Self::ArtccLow(other)) => this.extend(other),
+            (Self::Regions(this), Self::Regions(other)) => this.extend(other),
+            (Self::Labels(this), Self::Labels(other)) => this.extend(other),
+            (Self::Geo(this), Self::Geo(other)) => this.extend(other),
+            (this, other) => *this = other,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Eq, Hash)]
 enum SectionName {
     Info,
@@ -1079,7 +1106,18 @@ impl Sct {
                         Some(parse_independent_section(pair, &mut colours))
                     }
                 })
-                .collect::<HashMap<_, _>>()
+                .fold(
+                    HashMap::<SectionName, Section>::new(),
+                    |mut sections, (name, section)| {
+                        match sections.entry(name) {
+                            Entry::Occupied(mut entry) => entry.get_mut().append(section),
+                            Entry::Vacant(entry) => {
+                                entry.insert(section);
+                            }
+                        }
+                        sections
+                    },
+                )
         })?;
 
         let info = match sections.remove_entry(&SectionName::Info) {
-- 
2.43.0


From e2fd016d677c183ef57115c75e9d61044fcc9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 06/46] fix: keep the first visibility point of .ese positions
 without a squawk range

---
 src/ese.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index ecc2262..bc309c5 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -467,8 +467,10 @@ fn parse_position(pair: Pair<Rule>) -> (String, Position) {
     let prefix = position.next().unwrap().as_str().to_string();
     let suffix = position.next().unwrap().as_str().to_string();
     // skip unused fields
-    let mut position = position.skip(2);
-    let squawk_range = parse_squawk_range(position.next());
+    let mut position = position.skip(2).peekable();
+    let squawk_range = parse_squawk_range(
+        position.next_if(|pair| matches!(pair.as_rule(), Rule::squawk_range)),
+    );
     let visibility_points = position.map(parse_coordinate).collect();
 
     (
-- 
2.43.0


From 16ce81710dd91d5d4dde1110acf62ba580acbf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 07/46] fix: read decimal degrees in .ese coordinates

They are part of the grammar, but reading them panicked.
---
 src/ese.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index bc309c5..c1547d6 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -397,8 +397,13 @@ enum SectionName {
     Unsupported,
 }
 
-fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
-    let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    if let Rule::decimal = coordinate_part.as_rule() {
+        return coordinate_part.as_str().parse().unwrap();
+    }
+
+    let mut coordinate_part = coordinate_part.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
     let degrees = coordinate_part
@@ -411,15 +416,15 @@ fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
     let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
     let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
 
-    (sign, degrees, min, sec)
+    Coord::from_deg_min_sec((sign, degrees, min, sec), DegMinSec::default()).y
 }
 
 // TODO generalise this and other similar into trait
 fn parse_coordinate(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = parse_coordinate_part(coordinate.next().unwrap());
-    let lng = parse_coordinate_part(coordinate.next().unwrap());
-    Coord::from_deg_min_sec(lat, lng)
+    let y = parse_coordinate_part(coordinate.next().unwrap());
+    let x = parse_coordinate_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 enum SectorRule {
-- 
2.43.0


From 248438c18a6f1dee01185125b66a17a68d3c2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 08/46] fix: keep the entries of all .ese sections of the same
 kind

Only the entries of the last one were kept when a section was repeated.
---
 src/ese.rs | 104 ++++++++++++++++++-----------------------------------
 1 file changed, 34 insertions(+), 70 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index c1547d6..c88c4c9 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -381,22 +381,6 @@ pub struct Ese {
 
 pub type EseResult = Result<Ese, EseError>;
 
-#[derive(Debug)]
-enum Section {
-    Positions(HashMap<String, Position>),
-    Sectors((HashMap<String, Sector>, Vec<Constraint>)),
-    SidsStars(Vec<SidStar>),
-    Unsupported,
-}
-
-#[derive(Debug, PartialEq, Eq, Hash)]
-enum SectionName {
-    Position,
-    Airspace,
-    SidsStars,
-    Unsupported,
-}
-
 fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
     let coordinate_part = pair.into_inner().next().unwrap();
     if let Rule::decimal = coordinate_part.as_rule() {
@@ -603,63 +587,43 @@ fn parse_sid_star(pair: Pair<Rule>) -> SidStar {
     }
 }
 
-fn parse_section(pair: Pair<Rule>) -> (SectionName, Section) {
-    match pair.as_rule() {
-        Rule::position_section => (
-            SectionName::Position,
-            Section::Positions(pair.into_inner().map(parse_position).collect()),
-        ),
-        Rule::airspace_section => (
-            SectionName::Airspace,
-            Section::Sectors({
-                combine_sectors_with_borders(
-                    pair.into_inner()
-                        .map(parse_airspace)
-                        // TODO combine sectors with lines
-                        .fold(
-                            (
-                                HashMap::new(),
-                                HashMap::new(),
-                                HashMap::new(),
-                                HashMap::new(),
-                                vec![],
-                            ),
-                            collect_sectors,
-                        ),
-                )
-            }),
-        ),
-        Rule::sidsstars_section => (
-            SectionName::SidsStars,
-            Section::SidsStars(pair.into_inner().map(parse_sid_star).collect()),
-        ),
-        _ => (SectionName::Unsupported, Section::Unsupported),
-    }
-}
-
 impl Ese {
     pub fn parse(content: &[u8]) -> EseResult {
         let unparsed_file = read_to_string(content)?;
-        let mut sections = EseParser::parse(Rule::ese, &unparsed_file).map(|mut pairs| {
-            pairs
-                .next()
-                .unwrap()
-                .into_inner()
-                .map(parse_section)
-                .collect::<HashMap<_, _>>()
-        })?;
-        let positions = match sections.remove_entry(&SectionName::Position) {
-            Some((_, Section::Positions(positions))) => positions,
-            _ => HashMap::new(),
-        };
-        let (sectors, constraints) = match sections.remove_entry(&SectionName::Airspace) {
-            Some((_, Section::Sectors(sectors))) => sectors,
-            _ => (HashMap::new(), vec![]),
-        };
-        let sids_stars = match sections.remove_entry(&SectionName::SidsStars) {
-            Some((_, Section::SidsStars(sids_stars))) => sids_stars,
-            _ => vec![],
-        };
+        let sections = EseParser::parse(Rule::ese, &unparsed_file)?
+            .next()
+            .unwrap()
+            .into_inner();
+
+        let mut positions = HashMap::new();
+        let mut airspace = vec![];
+        let mut sids_stars = vec![];
+        // sections can occur repeatedly
+        for section in sections {
+            match section.as_rule() {
+                Rule::position_section => {
+                    positions.extend(section.into_inner().map(parse_position));
+                }
+                Rule::airspace_section => airspace.extend(section.into_inner().map(parse_airspace)),
+                Rule::sidsstars_section => {
+                    sids_stars.extend(section.into_inner().map(parse_sid_star));
+                }
+                _ => (),
+            }
+        }
+
+        // TODO combine sectors with lines
+        let (sectors, constraints) =
+            combine_sectors_with_borders(airspace.into_iter().fold(
+                (
+                    HashMap::new(),
+                    HashMap::new(),
+                    HashMap::new(),
+                    HashMap::new(),
+                    vec![],
+                ),
+                collect_sectors,
+            ));
 
         Ok(Ese {
             positions,
-- 
2.43.0


From 0577513d84a68362a7e12886786ba3196b9eede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 09/46] fix: accept four visibility points in .ese positions
 without a squawk range

---
 src/pest/ese.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index c2a029e..e7216f7 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -18,7 +18,7 @@ unparsed_section = { (section_header ~ NL ~ line*) }
 
 position = {
   colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ frequency ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":"
-  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ squawk_range? ~ ":"?
+  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ (squawk_range | ":")? ~ ":"?
   ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
 }
 squawk_range = { integer ~ ":" ~ integer }
-- 
2.43.0


From 3f987eae614f00a7623f85a72a09e03a9ec4b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 10/46] fix: read degree-minute-second coordinates in .asr
 window areas

---
 src/asr.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 7370616..8f56753 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -7,7 +7,7 @@ use serde::Serialize;
 use thiserror::Error;
 use tracing::warn;
 
-use crate::TwoKeyMap;
+use crate::{Sign, TwoKeyMap};
 
 use super::read_to_string;
 
@@ -214,6 +214,20 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    match coordinate_part.as_rule() {
+        Rule::sct_coord_part => {
+            let mut dms = coordinate_part.into_inner();
+            let sign = Sign::from(dms.next().unwrap().as_str());
+            let [degrees, minutes, seconds] =
+                [(); 3].map(|()| dms.next().unwrap().as_str().parse::<f64>().unwrap());
+            (degrees + minutes / 60.0 + seconds / 3600.0) * f64::from(sign.sign())
+        }
+        _ => coordinate_part.as_str().parse().unwrap(),
+    }
+}
+
 fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
     let rule = pair.as_rule();
     let mut inner = pair.into_inner();
@@ -290,10 +304,10 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             inner.next().unwrap().as_str().to_string(),
         )),
         Rule::window_area => {
-            let lat1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lat2 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng2 = inner.next().unwrap().as_str().parse().unwrap();
+            let lat1 = parse_coordinate_part(inner.next().unwrap());
+            let lng1 = parse_coordinate_part(inner.next().unwrap());
+            let lat2 = parse_coordinate_part(inner.next().unwrap());
+            let lng2 = parse_coordinate_part(inner.next().unwrap());
             Some(AsrData::WindowArea((
                 Coord { x: lng1, y: lat1 },
                 Coord { x: lng2, y: lat2 },
-- 
2.43.0


From 968a2000066b7a29bc38c1b08496f54b17fbea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 11/46] fix: ignore out-of-range numbers in .asr files instead
 of panicking

---
 src/asr.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 8f56753..21b2335 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::{fmt::Display, io, str::FromStr};
 
 use geo::Coord;
 use pest::{iterators::Pair, Parser};
@@ -214,6 +214,17 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+/// numbers out of range are ignored
+fn parse_number<T: FromStr>(pair: &Pair<Rule>) -> Option<T>
+where
+    T::Err: Display,
+{
+    pair.as_str()
+        .parse()
+        .inspect_err(|e| warn!("Could not parse number, {e}: {}", pair.as_str()))
+        .ok()
+}
+
 fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
     let coordinate_part = pair.into_inner().next().unwrap();
     match coordinate_part.as_rule() {
@@ -255,7 +266,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         Rule::show_c => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowC),
         Rule::show_standby => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowStandby),
         Rule::above => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_number(&inner.next().unwrap())?;
             Some(if filter == 0 {
                 AsrData::Above(None)
             } else {
@@ -263,7 +274,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::below => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_number(&inner.next().unwrap())?;
             Some(if filter == 0 {
                 AsrData::Below(None)
             } else {
@@ -271,7 +282,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::leader => {
-            let leader = inner.next().unwrap().as_str().parse::<i8>().unwrap();
+            let leader: i8 = parse_number(&inner.next().unwrap())?;
             Some(if leader > 0 {
                 #[allow(clippy::cast_sign_loss)]
                 AsrData::Leader(Leader::Miles(leader as u8))
@@ -281,9 +292,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         }
         Rule::show_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowLeader),
         Rule::turn_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::TurnLeader),
-        Rule::history_dots => Some(AsrData::HistoryDots(
-            inner.next().unwrap().as_str().parse().unwrap(),
-        )),
+        Rule::history_dots => parse_number(&inner.next().unwrap()).map(AsrData::HistoryDots),
         Rule::simulation_mode => Some(AsrData::SimulationMode(
             match inner.next().unwrap().as_str() {
                 "1" => SimulationMode::Radar,
-- 
2.43.0


From 4ecd8b15161d79ed4b0c763411bed0feef3d73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 12/46] fix: split the name lists of TopSky AUP and NOTAM
 conditions

---
 src/topsky/map/active.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/active.rs b/src/topsky/map/active.rs
index afee1fd..60bc9b7 100644
--- a/src/topsky/map/active.rs
+++ b/src/topsky/map/active.rs
@@ -126,6 +126,7 @@ impl Active {
             Rule::active_aup => Self::Aup(
                 active
                     .into_inner()
+                    .flat_map(Pair::into_inner)
                     .map(|pair| pair.as_str().to_string())
                     .collect(),
             ),
@@ -133,7 +134,10 @@ impl Active {
                 let mut active_notam = active.into_inner();
                 Self::Notam(
                     active_notam.next().unwrap().as_str().to_string(),
-                    active_notam.map(|pair| pair.as_str().to_string()).collect(),
+                    active_notam
+                        .flat_map(Pair::into_inner)
+                        .map(|pair| pair.as_str().to_string())
+                        .collect(),
                 )
             }
             Rule::active_area => Self::Area(ActiveAreas::parse(active)),
-- 
2.43.0


From 17a4187a2526ba9b9cde85150443f7505f995b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:23 +0000
Subject: [PATCH 13/46] fix: read TopSky coordinates mixing
 degree-minute-second and decimal parts

---
 src/topsky/map/mod.rs | 56 +++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 655b2d6..7eae848 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -22,46 +22,34 @@ use super::{
     Rule, TopskyError, TopskyParser,
 };
 
-enum CoordinatePart {
-    Decimal(f64),
-    DegMinSec(DegMinSec),
-}
-impl CoordinatePart {
-    fn parse(pair: Pair<Rule>) -> Self {
-        let coordinate_part = pair.into_inner().next().unwrap();
-        match coordinate_part.as_rule() {
-            Rule::decimal => Self::Decimal(coordinate_part.as_str().parse().unwrap()),
-            Rule::sct_coord_part => {
-                let mut sct_coord_part = coordinate_part.into_inner();
-                let hemi = sct_coord_part.next().unwrap().as_str();
-                let sign = Sign::from(hemi);
-                let degrees = sct_coord_part
-                    .next()
-                    .unwrap()
-                    .as_str()
-                    .parse::<u16>()
-                    .unwrap();
-                let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
-                let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
-
-                Self::DegMinSec((sign, degrees, min, sec))
-            }
-            rule => unreachable!("{rule:?}"),
+fn parse_coord_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    match coordinate_part.as_rule() {
+        Rule::decimal => coordinate_part.as_str().parse().unwrap(),
+        Rule::sct_coord_part => {
+            let mut sct_coord_part = coordinate_part.into_inner();
+            let hemi = sct_coord_part.next().unwrap().as_str();
+            let sign = Sign::from(hemi);
+            let degrees = sct_coord_part
+                .next()
+                .unwrap()
+                .as_str()
+                .parse::<u16>()
+                .unwrap();
+            let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+            let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+
+            Coord::from_deg_min_sec((sign, degrees, min, sec), DegMinSec::default()).y
         }
+        rule => unreachable!("{rule:?}"),
     }
 }
 
 fn parse_coord(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = CoordinatePart::parse(coordinate.next().unwrap());
-    let lng = CoordinatePart::parse(coordinate.next().unwrap());
-    match (lat, lng) {
-        (CoordinatePart::Decimal(y), CoordinatePart::Decimal(x)) => Coord { x, y },
-        (CoordinatePart::DegMinSec(lat), CoordinatePart::DegMinSec(lng)) => {
-            Coord::from_deg_min_sec(lat, lng)
-        }
-        _ => panic!("Consistency!"),
-    }
+    let y = parse_coord_part(coordinate.next().unwrap());
+    let x = parse_coord_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 impl Location {
-- 
2.43.0


From 842cb2022e047725012112a047c713ce8554b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 14/46] fix: accept blank lines at the beginning of
 TopSkySettings.txt

---
 src/pest/topsky_settings.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pest/topsky_settings.pest b/src/pest/topsky_settings.pest
index 1a2c671..7b49246 100644
--- a/src/pest/topsky_settings.pest
+++ b/src/pest/topsky_settings.pest
@@ -1,4 +1,4 @@
-settings = { SOI? ~ ((SOI | NL) ~ setting)* ~ ((SOI | NL) ~ section)* ~ NL? ~ EOI}
+settings = { SOI ~ NL? ~ (setting ~ line_end)* ~ section* ~ EOI}
 
 setting = _{
   (colour_setting | other_setting)
@@ -9,12 +9,13 @@ colour_setting = {
 colour_setting_rgb = { number ~ "," ~ number ~ "," ~ number }
 other_setting = { name ~ "=" ~ setting_value }
 
-section = { ("[" ~ name ~ "]" | "{" ~ name ~ "}") ~ (NL ~ setting)* }
+section = { ("[" ~ name ~ "]" | "{" ~ name ~ "}") ~ line_end ~ (setting ~ line_end)* }
 
 name = @{ ("/" | "_" | ASCII_ALPHA | ASCII_DIGIT)+ }
 number = @{ ASCII_DIGIT+ }
 setting_value = { (!(NL | EOI) ~ ANY)* }
 
+line_end = _{ NL | &EOI }
 WHITESPACE = _{ (" " | "\t") }
 NL = _{ NEWLINE+ }
 COMMENT = _{ (";" | "//") ~ (!NL ~ ANY)* }
-- 
2.43.0


From 0c038e4b4db1ce5d5d6b0c9ca807838cbc0c1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 15/46] fix: keep the style of map polygons when the style
 changes afterwards

---
 src/adaptation/maps/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index 054ec2a..c934a21 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -47,7 +47,11 @@ impl Map {
         F: FnMut(&mut MapGroup),
     {
         if let Some(last) = self.map_groups.last() {
-            if last.lines.0.is_empty() && last.symbols.is_empty() && last.labels.is_empty() {
+            if last.lines.0.is_empty()
+                && last.symbols.is_empty()
+                && last.labels.is_empty()
+                && last.polygons.is_empty()
+            {
                 change_fn(self.map_groups.last_mut().unwrap());
             } else {
                 let mut map_group = MapGroup {
-- 
2.43.0


From 16bf369eec9cb9901ea37c6a837d4248224da35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 16/46] fix: take the colour of high airway names from their
 own symbology entry

---
 src/adaptation/colours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/colours.rs b/src/adaptation/colours.rs
index a5dc074..12cf3b1 100644
--- a/src/adaptation/colours.rs
+++ b/src/adaptation/colours.rs
@@ -232,7 +232,7 @@ impl MapColours {
             ),
             high_airway_name: Colour::from_symbology(
                 symbology,
-                &("High airways".to_string(), "line".to_string()),
+                &("High airways".to_string(), "name".to_string()),
                 Self::DEFAULT_HIGH_AIRWAY_NAME,
             ),
             sid: Colour::from_symbology(
-- 
2.43.0


From 552759d165332334f159fee186498dd43a7bfaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 17/46] fix: use the built-in VOR symbol when none is defined

---
 src/adaptation/symbols.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 52bb09b..df1a99a 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -190,7 +190,7 @@ impl Symbols {
                 .and_then(|t| t.symbols.get("VOR"))
                 .map(|s| s.rules.clone())
                 .or_else(|| symbology.symbols.get(&SymbolType::VOR).cloned())
-                .unwrap_or(default_ndb().clone()),
+                .unwrap_or(default_vor().clone()),
             airport: topsky
                 .as_ref()
                 .and_then(|t| t.symbols.get("AIRPORT"))
-- 
2.43.0


From fb1932cf1b6bfd6682519e9b5e8538612f56c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 18/46] fix: let TopSky line styles replace the built-in ones
 of the same name

---
 src/adaptation/line_styles.rs | 163 +++++++++++++++++-----------------
 1 file changed, 83 insertions(+), 80 deletions(-)

diff --git a/src/adaptation/line_styles.rs b/src/adaptation/line_styles.rs
index 4c5ba16..e033a50 100644
--- a/src/adaptation/line_styles.rs
+++ b/src/adaptation/line_styles.rs
@@ -36,87 +36,90 @@ impl Default for LineStyle {
 }
 
 pub fn line_styles_from_topsky(topsky: &Option<Topsky>) -> HashMap<String, Option<Vec<Dash>>> {
-    topsky
-        .as_ref()
-        .map(|t| {
-            t.line_styles
-                .iter()
-                .map(|(name, style)| {
-                    (
-                        name.to_uppercase(),
-                        if style.dash_lengths.len() > 1 {
-                            Some(
-                                style
-                                    .dash_lengths
-                                    .chunks_exact(2)
-                                    .map(|chunk| Dash {
-                                        length: chunk[0],
-                                        gap: chunk[1],
-                                    })
-                                    .collect(),
-                            )
-                        } else {
-                            None
-                        },
-                    )
-                })
-                .collect::<Vec<_>>()
-        })
-        .unwrap_or_default()
-        .into_iter()
-        .chain([
-            (LineStyle::SOLID.to_string(), None),
-            (
-                LineStyle::DOT.to_string(),
-                Some(vec![Dash {
-                    length: 1.0,
-                    gap: 1.0,
-                }]),
-            ),
-            (
-                LineStyle::ALTERNATE.to_string(),
-                Some(vec![Dash {
+    // same-named TopSky definitions replace the built-in ones
+    [
+        (LineStyle::SOLID.to_string(), None),
+        (
+            LineStyle::DOT.to_string(),
+            Some(vec![Dash {
+                length: 1.0,
+                gap: 1.0,
+            }]),
+        ),
+        (
+            LineStyle::ALTERNATE.to_string(),
+            Some(vec![Dash {
+                length: 1.0,
+                gap: 1.0,
+            }]),
+        ),
+        (
+            LineStyle::DASH.to_string(),
+            Some(vec![Dash {
+                length: 3.0,
+                gap: 3.0,
+            }]),
+        ),
+        (
+            LineStyle::DASHDOT.to_string(),
+            Some(vec![
+                Dash {
+                    length: 3.0,
+                    gap: 3.0,
+                },
+                Dash {
                     length: 1.0,
-                    gap: 1.0,
-                }]),
-            ),
-            (
-                LineStyle::DASH.to_string(),
-                Some(vec![Dash {
+                    gap: 3.0,
+                },
+            ]),
+        ),
+        (
+            LineStyle::DASHDOTDOT.to_string(),
+            Some(vec![
+                Dash {
                     length: 3.0,
                     gap: 3.0,
-                }]),
-            ),
-            (
-                LineStyle::DASHDOT.to_string(),
-                Some(vec![
-                    Dash {
-                        length: 3.0,
-                        gap: 3.0,
-                    },
-                    Dash {
-                        length: 1.0,
-                        gap: 3.0,
-                    },
-                ]),
-            ),
-            (
-                LineStyle::DASHDOTDOT.to_string(),
-                Some(vec![
-                    Dash {
-                        length: 3.0,
-                        gap: 3.0,
-                    },
-                    Dash {
-                        length: 1.0,
-                        gap: 3.0,
-                    },
-                    Dash {
-                        length: 1.0,
-                        gap: 3.0,
-                    },
-                ]),
-            ),
-        ])
-        .collect()
+                },
+                Dash {
+                    length: 1.0,
+                    gap: 3.0,
+                },
+                Dash {
+                    length: 1.0,
+                    gap: 3.0,
+                },
+            ]),
+        ),
+    ]
+    .into_iter()
+    .chain(
+        topsky
+            .as_ref()
+            .map(|t| {
+                t.line_styles
+                    .iter()
+                    .map(|(name, style)| {
+                        (
+                            name.to_uppercase(),
+                            if style.dash_lengths.len() > 1 {
+                                Some(
+                                    style
+                                        .dash_lengths
+                                        .chunks_exact(2)
+                                        .map(|chunk| Dash {
+                                            length: chunk[0],
+                                            gap: chunk[1],
+                                        })
+                                        .collect(),
+                                )
+                            } else {
+                                None
+                            },
+                        )
+                    })
+                    .collect::<Vec<_>>()
+            })
+            .unwrap_or_default(),
+    )
+    .collect()
 }
-- 
2.43.0


From 1def08d5de87e1d08c3ba8da96f4a9f6f3ffa6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:38 +0000
Subject: [PATCH 19/46] fix: draw sector file airways from the start to the end
 of every segment

---
 src/adaptation/sct_items.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index a15fbbc..266778f 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -109,7 +109,7 @@ fn airway_to_multi_line_string(
         .filter_map(|airway| {
             let line = locations
                 .convert_location(&airway.start)
-                .zip(locations.convert_location(&airway.start))
+                .zip(locations.convert_location(&airway.end))
                 .map(|(start, end)| Line::new(start, end));
             if line.is_none() {
                 warn!("Could not convert {airway:?} in .sct {typ} {name}");
@@ -135,11 +135,10 @@ fn airway_to_multi_line_string(
                 MultiLineString::new(vec![]),
                 std::collections::HashSet::new(),
             ),
-            |(mut acc, mut visited), line| {
+            |(mut acc, visited), line| {
                 if visited.contains(&line_hash(*line)) {
                     (acc, visited)
                 } else {
-                    visited.insert(line_hash(*line));
                     let (linestring, new_visited) =
                         build_linestring(line.start, visited, &adjacency);
                     acc.0.push(linestring);
-- 
2.43.0


From 617f65cf7c5d5254c19c42c24f6b14c337562750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 20/46] fix: follow airway segments whose ends differ by less
 than a microdegree

---
 src/adaptation/sct_items.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index 266778f..3220d2a 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -84,7 +84,7 @@ fn build_linestring(
                 .find(|line| !visited.contains(&line_hash(**line)))
         })
         .map(|next_line| {
-            let next_point = if next_line.start == point {
+            let next_point = if coord_hash(next_line.start) == coord_hash(point) {
                 next_line.end
             } else {
                 next_line.start
-- 
2.43.0


From 8eddfc03c46f74864fe4a4590f6221f687f58936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 21/46] fix: draw uncoloured sector file lines in the colour of
 their own category

---
 src/adaptation/sct_items.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index 3220d2a..b78b94c 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -38,6 +38,7 @@ impl ColouredLines {
         settings: &Settings,
         name: &str,
         typ: &str,
+        default_colour: Colour,
     ) -> Option<Self> {
         let lines: MultiLineString = line_group
             .lines
@@ -65,7 +66,7 @@ impl ColouredLines {
                 .colour_name
                 .as_ref()
                 .and_then(|colour_name| colours.get(colour_name, settings))
-                .unwrap_or(colours.map.sid),
+                .unwrap_or(default_colour),
             lines,
         })
     }
@@ -188,6 +189,7 @@ impl SctItems {
                                 settings,
                                 &sid.name,
                                 "SID",
+                                colours.map.sid,
                             )
                             .map(|line_group| (sid.name.clone(), line_group))
                         })
@@ -208,6 +210,7 @@ impl SctItems {
                                 settings,
                                 &star.name,
                                 "STAR",
+                                colours.map.star,
                             )
                             .map(|line_group| (star.name.clone(), line_group))
                         })
@@ -252,6 +255,7 @@ impl SctItems {
                                 settings,
                                 &artcc.name,
                                 "ARTCC High",
+                                colours.map.artcc_high_boundary,
                             )
                             .map(|line_group| (artcc.name.clone(), line_group))
                         })
@@ -273,6 +277,7 @@ impl SctItems {
                                 settings,
                                 &artcc.name,
                                 "ARTCC",
+                                colours.map.artcc_boundary,
                             )
                             .map(|line_group| (artcc.name.clone(), line_group))
                         })
@@ -294,6 +299,7 @@ impl SctItems {
                                 settings,
                                 &artcc.name,
                                 "ARTCC Low",
+                                colours.map.artcc_low_boundary,
                             )
                             .map(|line_group| (artcc.name.clone(), line_group))
                         })
@@ -314,6 +320,7 @@ impl SctItems {
                                 settings,
                                 &geo.name,
                                 "Geo",
+                                colours.map.geo,
                             )
                             .map(|line_group| (geo.name.clone(), line_group))
                         })
-- 
2.43.0


From f01ca5130c08de848572d83b60904914925c7e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:14 +0000
Subject: [PATCH 22/46] fix: find a nav element among all elements of the same
 name

---
 src/adaptation/locations/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index 4cda431..fa7615d 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -439,18 +439,21 @@ impl Locations {
     pub fn contains_nav_element(&self, designator: &str, position: GraphPosition) -> bool {
         let other = position.0.quantize();
         self.vors
-            .get(designator)
-            .iter()
+            .get_vec(designator)
+            .into_iter()
+            .flatten()
             .any(|vor| vor.coordinate.quantize() == other)
             || self
                 .ndbs
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|ndb| ndb.coordinate.quantize() == other)
             || self
                 .fixes
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|fix| fix.coordinate.quantize() == other)
     }
 }
-- 
2.43.0


From fafb874472d96b5bea4423fddf7631773adb0d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 23/46] fix: accept only ASCII digits in coordinate and
 bearing/distance designators

---
 src/adaptation/locations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index fa7615d..6dfc1de 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -166,12 +166,12 @@ pub struct Locations {
 
 fn coord_regex() -> &'static Regex {
     static COORD_RE: OnceLock<Regex> = OnceLock::new();
-    COORD_RE.get_or_init(|| Regex::new(r"^(\d{1,6})(N|S)(\d{2,7})(E|W)$").unwrap())
+    COORD_RE.get_or_init(|| Regex::new(r"^([0-9]{1,6})(N|S)([0-9]{2,7})(E|W)$").unwrap())
 }
 
 fn range_bearing_regex() -> &'static Regex {
     static RANGE_BEARING_RE: OnceLock<Regex> = OnceLock::new();
-    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})(\d{3})(\d{3})$").unwrap())
+    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})([0-9]{3})([0-9]{3})$").unwrap())
 }
 
 impl Locations {
-- 
2.43.0


From f159eb13f131e94ff43c23292513c238f768487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:06 +0000
Subject: [PATCH 24/46] fix: choose the same plugin entry of a profile every
 time

---
 src/prf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prf.rs b/src/prf.rs
index 4883cfa..320f309 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -4,6 +4,7 @@ use std::ffi::OsStr;
 use std::io;
 use std::path::{Path, PathBuf};
 
+use itertools::Itertools as _;
 use pest::{iterators::Pair, Parser};
 use pest_derive::Parser;
 use serde::Serialize;
@@ -89,6 +90,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("Squawks.dll")) {
@@ -106,6 +108,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("TopSky.dll")) {
-- 
2.43.0


From 0b2fdabc3d7136cc2a2eda041b794239d88a35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 25/46] fix: report missing profile settings instead of
 panicking

---
 src/adaptation/mod.rs |  1 +
 src/prf.rs            | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/adaptation/mod.rs b/src/adaptation/mod.rs
index 73144f5..35a6413 100644
--- a/src/adaptation/mod.rs
+++ b/src/adaptation/mod.rs
@@ -213,6 +213,7 @@ pub struct Adaptation {
 
 impl Adaptation {
     pub fn from_prf(prf: &Prf) -> AdaptationResult {
+        prf.require_settings()?;
         // TODO parallelise/asyncify where able
         let sct = Sct::parse(&fs_err::read(prf.sct_path())?)?;
         let ese = Ese::parse(&fs_err::read(prf.ese_path())?)?;
diff --git a/src/prf.rs b/src/prf.rs
index 320f309..a2cf9be 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -21,6 +21,8 @@ pub enum PrfError {
     FileRead(#[from] io::Error),
     #[error("failed to parse .prf file: {0}")]
     Parse(#[from] pest::error::Error<Rule>),
+    #[error("missing setting in .prf file: {0}")]
+    MissingSetting(&'static str),
 }
 
 #[derive(Parser)]
@@ -36,6 +38,27 @@ pub struct Prf {
 pub type PrfResult = Result<Prf, PrfError>;
 
 impl Prf {
+    /// Checks that all settings needed to find the mandatory files are present
+    pub(crate) fn require_settings(&self) -> Result<(), PrfError> {
+        [
+            "sector",
+            "airways",
+            "SettingsfileSYMBOLOGY",
+            "airports",
+            "airportcoords",
+            "aircraft",
+            "airlines",
+        ]
+        .into_iter()
+        .find(|key| {
+            !self
+                .settings
+                .0
+                .contains_key(&("Settings".to_string(), (*key).to_string()))
+        })
+        .map_or(Ok(()), |key| Err(PrfError::MissingSetting(key)))
+    }
+
     fn join_settings_path(&self, path: &str) -> PathBuf {
         let normalised_path = path.trim_end().replace('\\', "/");
         if let Some(rel_path) = normalised_path.strip_prefix('/') {
-- 
2.43.0


From 342f4011c7fb36dcfc261c1a12b3651d7a740b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 26/46] fix: ignore squawks above 7777

---
 src/adaptation/settings/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/adaptation/settings/mod.rs b/src/adaptation/settings/mod.rs
index d4bea18..7451fae 100644
--- a/src/adaptation/settings/mod.rs
+++ b/src/adaptation/settings/mod.rs
@@ -344,6 +344,13 @@ pub struct SsrSettings {
     pub special_use_codes: HashMap<String, String>,
 }
 impl SsrSettings {
+    /// Parses an octal SSR code, the highest being 7777
+    fn parse_code(code: &str) -> Option<u16> {
+        u16::from_str_radix(code, 8)
+            .ok()
+            .filter(|&code| code <= 0o7777)
+    }
+
     pub fn from_squawks_json(squawks: &SquawksJson) -> Self {
         Self {
             special_use_codes: squawks
@@ -354,13 +361,12 @@ impl SsrSettings {
                         warn!("Specify either code or range: {sq:?}");
                         vec![]
                     }
-                    (Some(code), None) => u16::from_str_radix(code, 8)
+                    (Some(code), None) => Self::parse_code(code)
                         .map(|u16_code| vec![(format!("{u16_code:04o}"), sq.message.clone())])
                         .unwrap_or(vec![]),
                     (None, Some(range)) => {
-                        if let Some((start, end)) = u16::from_str_radix(&range.start, 8)
-                            .ok()
-                            .zip(u16::from_str_radix(&range.end, 8).ok())
+                        if let Some((start, end)) =
+                            Self::parse_code(&range.start).zip(Self::parse_code(&range.end))
                         {
                             (start..=end)
                                 .map(|i| (format!("{i:04o}"), sq.message.clone()))
-- 
2.43.0


From 661cab475eb1a667ea9a420181a95b69164db493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:54 +0000
Subject: [PATCH 27/46] fix: give constraints with # in their names distinct
 keys

---
 src/ese.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index c88c4c9..1596867 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -339,8 +339,12 @@ impl Constraint {
     /// This allows indexing in `HashMap`, to be able to override easily.
     #[must_use]
     pub fn key(&self) -> String {
-        fn opt(f: Option<&str>) -> &str {
-            f.unwrap_or("*")
+        // the separator must not occur in names, or different constraints share a key
+        fn escape(name: &str) -> String {
+            name.replace('\\', "\\\\").replace('#', "\\#")
+        }
+        fn opt(f: Option<&str>) -> String {
+            f.map_or_else(|| "*".to_string(), escape)
         }
         format!(
             "{}#{}#{}#{}#{}#{}#{}",
@@ -349,8 +353,8 @@ impl Constraint {
             opt(self.subsequent_fix.as_deref()),
             opt(self.arrival_runway.as_deref()),
             opt(self.fix.as_deref()),
-            self.exit_sector,
-            self.entry_sector,
+            escape(&self.exit_sector),
+            escape(&self.entry_sector),
         )
     }
 }
-- 
2.43.0


From 2efa940bceb24e378c33128ad02b93e2ded87783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:08 +0000
Subject: [PATCH 28/46] fix: begin sector outlines at the same point every time

---
 src/adaptation/sectors.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index d21f579..f0e0e82 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -77,20 +77,17 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
             })
         })
         .collect();
-    let (mut adj_list, edge_count, points) = lines.iter().fold(
+    let (mut adj_list, edge_count) = lines.iter().fold(
         (
             HashMap::<Coord<i64>, Vec<Coord<i64>>>::new(),
             HashMap::<Coord<i64>, usize>::new(),
-            HashSet::<Coord<i64>>::new(),
         ),
-        |(mut adj_list, mut edge_count, mut points), line| {
+        |(mut adj_list, mut edge_count), line| {
             adj_list.entry(line.start).or_default().push(line.end);
             adj_list.entry(line.end).or_default().push(line.start);
             *edge_count.entry(line.start).or_insert(0) += 1;
             *edge_count.entry(line.end).or_insert(0) += 1;
-            points.insert(line.start);
-            points.insert(line.end);
-            (adj_list, edge_count, points)
+            (adj_list, edge_count)
         },
     );
 
@@ -99,10 +96,10 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
         return None;
     }
 
-    let line_ring = if let Some(start_point) = points.iter().next() {
-        let mut stack = vec![*start_point];
+    let line_ring = if let Some(first_line) = lines.first() {
+        let mut stack = vec![first_line.start];
         let mut line_ring = vec![];
-        let mut current = *start_point;
+        let mut current = first_line.start;
 
         while !stack.is_empty() {
             if let Some(neighbours) = adj_list.get_mut(&current) {
-- 
2.43.0


From 2f0e4479ea65a8fa0121a3a96ee8e64768886872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:27 +0000
Subject: [PATCH 29/46] fix: give sectors the same id every time

---
 src/adaptation/sectors.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index f0e0e82..cda628b 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -5,6 +5,7 @@ use std::{
 
 use bevy_derive::Deref;
 use geo::{Coord, Line, LineString, Polygon, Winding};
+use itertools::Itertools as _;
 use multimap::MultiMap;
 use serde::{Deserialize, Serialize};
 use tracing::warn;
@@ -136,7 +137,9 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
 
 impl Sectors {
     pub fn from_ese(ese: &Ese) -> (HashMap<String, Volume>, Sectors) {
-        let (by_priorities_filters, volumes) = ese.sectors.iter().fold(
+        // in order of their ids, so that sectors always get the same id
+        let ese_sectors = ese.sectors.iter().sorted_by_key(|(id, _)| *id);
+        let (by_priorities_filters, volumes) = ese_sectors.fold(
             (TwoKeyMultiMap(MultiMap::new()), HashMap::new()),
             |(mut sectors, mut volumes), (id, sector)| {
                 if let Some(polygon) = polygon_from_ese(sector) {
-- 
2.43.0


From e8a2591ca3c375499e0b90c4ffb4e387a6a80146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:57 +0000
Subject: [PATCH 30/46] fix: choose the same line style of names differing in
 case every time

---
 src/adaptation/line_styles.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/adaptation/line_styles.rs b/src/adaptation/line_styles.rs
index e033a50..9418861 100644
--- a/src/adaptation/line_styles.rs
+++ b/src/adaptation/line_styles.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use bevy_reflect::Reflect;
+use itertools::Itertools as _;
 use serde::{Deserialize, Serialize};
 
 use crate::topsky::Topsky;
@@ -98,6 +99,7 @@ pub fn line_styles_from_topsky(topsky: &Option<Topsky>) -> HashMap<String, Optio
             .map(|t| {
                 t.line_styles
                     .iter()
+                    .sorted_by_key(|(name, _)| *name)
                     .map(|(name, style)| {
                         (
                             name.to_uppercase(),
-- 
2.43.0


From 641f8039c0345eb42948e754d53251d04e2df5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 31/46] fix: report coordinates with oversized degrees or
 minutes instead of panicking

---
 src/pest/base.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pest/base.pest b/src/pest/base.pest
index b4cd78e..42924a9 100644
--- a/src/pest/base.pest
+++ b/src/pest/base.pest
@@ -7,8 +7,8 @@ pos_integer = @{ "+"? ~ ASCII_DIGIT+ }
 coordinate     =  { coord_part ~ ":" ~ coord_part }
 coord_part     =  { sct_coord_part | decimal }
 sct_coord_part = ${ hemi ~ deg ~ "." ~ min ~ "." ~ sec }
-deg            = @{ ASCII_DIGIT+ }
-min            = @{ ASCII_DIGIT+ }
+deg            = @{ ASCII_DIGIT{1,3} }
+min            = @{ ASCII_DIGIT{1,2} }
 sec            = @{ decimal }
 hemi           = @{ "N" | "S" | "W" | "E" | "n" | "s" | "w" | "e" }
 direction      = @{ "<" | ">" }
-- 
2.43.0


From 844ff09febb9f039d594ce2c619fcddffa98dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 32/46] fix: report oversized runway headings instead of
 panicking

---
 src/pest/sct.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index 712740c..485b8d5 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -59,7 +59,7 @@ colour_name = @{ (ASCII_ALPHANUMERIC | "-" | "_")+ }
 fix = { fix_designator ~ sct_coordinate }
 aerodrome = { designator ~ (frequency | ".")? ~ sct_coordinate ~ ctr_airspace }
 location = { designator ~ frequency ~ sct_coordinate }
-runway = { runway_designator ~ runway_designator ~ pos_integer ~ pos_integer ~ sct_coordinate ~ sct_coordinate ~ designator ~ (!NEWLINE ~ ANY)* }
+runway = { runway_designator ~ runway_designator ~ heading ~ heading ~ sct_coordinate ~ sct_coordinate ~ designator ~ (!NEWLINE ~ ANY)* }
 airway = { fix_designator ~ (sct_coordinate | airway_fix) ~ (sct_coordinate | airway_fix) }
 
 // invalid WPTs with spaces
@@ -67,6 +67,8 @@ broken = @{ !("[" | "#") ~ (!NL ~ ANY)* }
 
 region = { "REGIONNAME"? ~ name ~ NL? ~ colour_name ~ sct_coordinate ~ (NL ~ sct_coordinate)* }
 
+heading = @{ "+"? ~ ASCII_DIGIT{1,4} }
+
 ctr_airspace = { "A" | "B" | "C" | "D" | "E" | "F" | "G" }
 
 coloured_lines = { non_coordinate_or_double_fix_name ~ coloured_line ~ (NL ~ coloured_line)*  }
-- 
2.43.0


From b321266347486bd5ec4285b991baf31239bca6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:07 +0000
Subject: [PATCH 33/46] fix: skip colour definitions with oversized numbers
 instead of panicking

---
 src/sct.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sct.rs b/src/sct.rs
index f865292..a8cb95c 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -826,7 +826,14 @@ fn parse_info_section(pair: Pair<Rule>, colours: &mut HashMap<String, Colour>) -
 fn parse_colour_definition(pair: Pair<Rule>) -> Option<(String, Colour)> {
     let mut pairs = pair.into_inner();
     let colour_name = pairs.next().unwrap().as_str().to_string();
-    match Colour::from_euroscope(pairs.next().unwrap().as_str().parse().unwrap()) {
+    let colour_num = pairs
+        .next()
+        .unwrap()
+        .as_str()
+        .parse()
+        .inspect_err(|e| warn!("Could not parse colour {colour_name}: {e}"))
+        .ok()?;
+    match Colour::from_euroscope(colour_num) {
         Ok(colour_value) => Some((colour_name, colour_value)),
         Err(e) => {
             warn!("Could not parse colour {colour_name}: {e}");
-- 
2.43.0


From e7f0e6d3abcb1af4c99e3a0f177ec525720b86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:19 +0000
Subject: [PATCH 34/46] fix: report negative or oversized levels and squawks in
 the .ese file instead of panicking

---
 src/ese.rs        |  2 +-
 src/pest/ese.pest | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 1596867..fe0e7b3 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -258,7 +258,7 @@ fn parse_wildcard_string(pair: &Pair<Rule>) -> Option<String> {
 fn parse_wildcard_u32(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::wildcard => None,
-        Rule::integer => Some(pair.as_str().parse().unwrap()),
+        Rule::level => Some(pair.as_str().parse().unwrap()),
         rule => unreachable!("{rule:?}"),
     }
 }
diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index e7216f7..f1b1410 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -21,7 +21,8 @@ position = {
   ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ (squawk_range | ":")? ~ ":"?
   ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
 }
-squawk_range = { integer ~ ":" ~ integer }
+squawk_range = { squawk ~ ":" ~ squawk }
+squawk = @{ "+"? ~ ASCII_DIGIT{1,4} }
 
 cop = {
   "COPX:" ~ prev ~ ":" ~ dep_rwy ~ ":" ~ cop_def ~ ":" ~ after ~ ":" ~ arr_rwy ~ ":" ~ sctx ~ ":"
@@ -38,8 +39,8 @@ arr_rwy = _{ wildcard | designator }
 cop_def = _{ wildcard | colon_delimited_text }
 sctx = _{ colon_delimited_text }
 sctn = _{ colon_delimited_text }
-alt_clb = _{ wildcard | integer }
-alt_des = _{ wildcard | integer }
+alt_clb = _{ wildcard | level }
+alt_des = _{ wildcard | level }
 cop_description = _{ colon_delimited_text }
 
 sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ NL ~ ((display | coord) ~ NL)* }
@@ -52,7 +53,7 @@ circle_sectorline = {
 
 display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ NL }
 
-sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ integer ~ ":" ~ integer ~ NL ~ (sector_subsettings ~ NL)* }
+sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ level ~ ":" ~ level ~ NL ~ (sector_subsettings ~ NL)* }
 sector_subsettings = _{ owner | altowner | border | guest | active | depapt | arrapt }
 owner = { "OWNER" ~ (":" ~ colon_delimited_text)+ }
 altowner = { "ALTOWNER:" ~ colon_delimited_text ~ (":" ~ colon_delimited_text)+ }
@@ -65,7 +66,7 @@ sct = _{ colon_delimited_text }
 adep = _{ wildcard | designator }
 ades = _{ wildcard | designator }
 
-msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ integer ~ NL ~ (coord ~ NL)+ }
+msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ level ~ NL ~ (coord ~ NL)+ }
 
 sid = { "SID:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
 star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
@@ -77,6 +78,7 @@ broken = @{ !("[") ~ (!NL ~ ANY)* }
 coord = _{ "COORD:" ~ coordinate }
 
 frequency = @{ decimal }
+level = @{ "+"? ~ ASCII_DIGIT{1,9} }
 
 
 route = { designator* }
-- 
2.43.0


From 77e81ea4b3497231b8a5eca6dcd3abe1b6b4bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 35/46] fix: report oversized airway levels instead of
 panicking

---
 src/pest/airway.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/airway.pest b/src/pest/airway.pest
index 605d6cb..7b3850f 100644
--- a/src/pest/airway.pest
+++ b/src/pest/airway.pest
@@ -16,7 +16,7 @@ no_neighbour = {
 }
 
 bool = _{ TRUE | FALSE }
-level = { ASCII_DIGIT+ }
+level = { ASCII_DIGIT{1,9} }
 not_established = { "NESTB" | "" }
 
 designator = { (ASCII_ALPHA_UPPER | ASCII_DIGIT)+ }
-- 
2.43.0


From 16dbb9ccb5dbdf118cdab1bdc8c0f5c5b9138b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:53 +0000
Subject: [PATCH 36/46] fix: skip TopSky colour definitions with out of range
 components instead of panicking

---
 src/topsky/map/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 7eae848..c9e3ca0 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -364,9 +364,16 @@ pub(super) fn parse_colour(pair: Pair<Rule>) -> Option<ColourDef> {
         Rule::colourdef => {
             let mut colour = pair.into_inner();
             let name = colour.next().unwrap().as_str().to_string();
-            let r = colour.next().unwrap().as_str().parse().unwrap();
-            let g = colour.next().unwrap().as_str().parse().unwrap();
-            let b = colour.next().unwrap().as_str().parse().unwrap();
+            let mut component = || {
+                colour
+                    .next()
+                    .unwrap()
+                    .as_str()
+                    .parse()
+                    .inspect_err(|e| warn!("Could not parse colour {name}: {e}"))
+                    .ok()
+            };
+            let (r, g, b) = (component()?, component()?, component()?);
             Some(ColourDef {
                 name,
                 colour: Colour::from_rgb(r, g, b),
-- 
2.43.0


From 58a7af5d75e4ff21aa5a566f20aa07bbbcb42903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:02 +0000
Subject: [PATCH 37/46] fix: skip symbology entries with out of range numbers
 instead of panicking

---
 src/symbology.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/symbology.rs b/src/symbology.rs
index 4648226..476d50c 100644
--- a/src/symbology.rs
+++ b/src/symbology.rs
@@ -118,10 +118,19 @@ impl Item {
         let folder = item.next().unwrap().as_str().to_string();
         let name = item.next().unwrap().as_str().to_string();
         let colour_str = item.next().unwrap().as_str();
-        let colour_num = colour_str.parse::<i32>().unwrap();
+        let colour_num = colour_str
+            .parse::<i32>()
+            .inspect_err(|e| warn!("Could not parse colour {folder}.{name}={colour_str}: {e}"))
+            .ok()?;
         let font_size_symbol_scale = item.next().unwrap().as_str().parse().unwrap();
         let line_style = parse_linestyle(&item.next().unwrap());
-        let line_weight = item.next().unwrap().as_str().parse().unwrap();
+        let line_weight_str = item.next().unwrap().as_str();
+        let line_weight = line_weight_str
+            .parse()
+            .inspect_err(|e| {
+                warn!("Could not parse line weight {folder}.{name}={line_weight_str}: {e}");
+            })
+            .ok()?;
         let text_alignment = parse_alignment(&item.next().unwrap());
 
         match Colour::from_euroscope(colour_num) {
@@ -152,7 +161,13 @@ fn parse_point(pair: Pair<Rule>) -> (f64, f64) {
 // TODO similar to topsky symbol parsing, generalise?
 fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)> {
     let mut symbol = pair.into_inner();
-    let maybe_symbol_type = SymbolType::from_u32(symbol.next().unwrap().as_str().parse().unwrap());
+    let maybe_symbol_type = symbol
+        .next()
+        .unwrap()
+        .as_str()
+        .parse()
+        .ok()
+        .and_then(SymbolType::from_u32);
     let symbol_rules = symbol
         .map(|pair| {
             let ruletype = pair.as_rule();
-- 
2.43.0


From d151894e563f6751e460e681aa3ff31d2c326a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:17 +0000
Subject: [PATCH 38/46] fix: report oversized arc angles instead of panicking

---
 src/pest/symbol_rule.pest | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pest/symbol_rule.pest b/src/pest/symbol_rule.pest
index 42cc9be..459e2c6 100644
--- a/src/pest/symbol_rule.pest
+++ b/src/pest/symbol_rule.pest
@@ -4,16 +4,16 @@ symbolrule = _{ (
 moveto = ${ "MOVETO" ~ symbol_rule_delimiter ~ symbol_rule_point }
 line = ${ "LINETO" ~ symbol_rule_delimiter ~ symbol_rule_point }
 fillarc = ${
-  "FILLARC" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ integer ~ symbol_rule_delimiter ~ integer
+  "FILLARC" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ angle ~ symbol_rule_delimiter ~ angle
 }
 fillarc_ellipse = ${
-  "FILLARC" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ integer ~ symbol_rule_delimiter ~ integer
+  "FILLARC" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ angle ~ symbol_rule_delimiter ~ angle
 }
 arc = ${
-  "ARC" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ integer ~ symbol_rule_delimiter ~ integer
+  "ARC" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ angle ~ symbol_rule_delimiter ~ angle
 }
 arc_ellipse = ${
-  "ARC" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ integer ~ symbol_rule_delimiter ~ integer
+  "ARC" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ angle ~ symbol_rule_delimiter ~ angle
 }
 ellipse = ${
   "ELLIPSE" ~ symbol_rule_delimiter ~ symbol_rule_point ~ symbol_rule_delimiter ~ decimal ~ symbol_rule_delimiter ~ decimal
@@ -29,3 +29,4 @@ fillrect = ${
 
 symbol_rule_delimiter = _{ ":" | " " }
 symbol_rule_point = ${ decimal ~ symbol_rule_delimiter ~ decimal }
+angle = @{ ("-" | "+")? ~ ASCII_DIGIT{1,9} }
-- 
2.43.0


From 908f1158bffa668a0b954ecc5a5d8242515467f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 39/46] fix: keep all digits when applying jsonnet overlays

---
 src/adaptation/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/mod.rs b/src/adaptation/mod.rs
index 35a6413..f7e5a69 100644
--- a/src/adaptation/mod.rs
+++ b/src/adaptation/mod.rs
@@ -302,11 +302,16 @@ impl Adaptation {
             .evaluate_snippet("combined.jsonnet", jsonnet)
             .map_err(|e| AdaptationError::Jsonnet(e.to_string()))?;
 
-        let json_string = merged_jsonnet_val
+        // evaluate everything, including all assertions
+        merged_jsonnet_val
             .to_string()
             .map_err(|e| AdaptationError::Jsonnet(e.to_string()))?;
 
-        let mut result: Self = serde_json::from_str(&json_string)?;
+        // convert directly, as numbers lose precision when read back from JSON text
+        let mut result: Self = serde_json::from_value(
+            serde_json::to_value(&merged_jsonnet_val)
+                .map_err(|e| AdaptationError::Jsonnet(e.to_string()))?,
+        )?;
         // The `sector_index` field is `#[serde(skip)]`, so the freshly deserialized value
         // would be empty.
         result.rebuild_sector_index();
-- 
2.43.0


From 61cce468fc289a6191d38e6e1ad7b85da076086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 40/46] fix: accept files without a final line end

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1d0e816..5498f17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,13 +23,18 @@ pub mod symbology;
 pub mod topsky;
 
 fn read_to_string(contents: &[u8]) -> Result<String, io::Error> {
-    String::from_utf8(contents.to_vec()).or_else(|_| {
+    let mut string = String::from_utf8(contents.to_vec()).unwrap_or_else(|_| {
         let (string, _, errors) = encoding_rs::WINDOWS_1252.decode(contents);
         if errors {
             warn!("errors while decoding win-1252");
         }
-        Ok(string.to_string())
-    })
+        string.to_string()
+    });
+    // the last line may lack its line end, which the grammars rely on
+    if !string.ends_with('\n') {
+        string.push('\n');
+    }
+    Ok(string)
 }
 
 // deg: i16, because, i.e. UK uses invalid coordinates for dummy data: S999.00.00.000 E999.00.00.000
-- 
2.43.0


From fbf04db6ac1c8f9ff5e31df958b1b8d6ac5556d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:04 +0000
Subject: [PATCH 41/46] fix: accept a comment after the first line of named sct
 lines

---
 src/pest/sct.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index 485b8d5..369e924 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -85,7 +85,7 @@ name = @{ (!(NL | "\t" | "[") ~ ANY)* }
 non_coordinate_name = { (!(sct_coordinate | NL) ~ ANY)* }
 non_coordinate_or_double_fix_name = ${
   (!(
-    ((WHITESPACE+ ~ (sct_coordinate | airway_fix)){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
+    ((WHITESPACE+ ~ (sct_coordinate | airway_fix)){2} ~ (WHITESPACE+ ~ colour_name)? ~ WHITESPACE* ~ (NL | COMMENT))
     | "[" | "]"
   ) ~ ANY)+
 }
-- 
2.43.0


From d60ce6c2baf46470dc4d4305a5e911f1ad3ad54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:16 +0000
Subject: [PATCH 42/46] fix: drop blanks at the end of the sct sector name

---
 src/pest/sct.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index 369e924..ff086e2 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -50,7 +50,7 @@ region_section = { ("[Regions]" | "[REGIONS]") ~ (NL ~ (colour_definition | regi
 labels_section = { "[LABELS]" ~ (NL ~ (colour_definition | label))* }
 geo_section = { "[GEO]" ~ (NL ~ (colour_definition | coloured_lines))* }
 
-sector_name = @{ (LETTER | ASCII_DIGIT | "\t" | ' '..'~')+ }
+sector_name = @{ (!NL ~ (LETTER | ASCII_DIGIT | "\t" | ' '..'~'))+ }
 sector_callsign = @{ (ASCII_ALPHANUMERIC | "_")+ }
 
 colour_definition = { "#define" ~ colour_name ~ pos_integer }
-- 
2.43.0


From 760d89855c5531a78d2cc17da7a4cfdd4aac3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 43/46] fix: accept blanks at the end of asr lines

---
 src/pest/asr.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pest/asr.pest b/src/pest/asr.pest
index 77bb8a9..9e2dc5b 100644
--- a/src/pest/asr.pest
+++ b/src/pest/asr.pest
@@ -128,5 +128,5 @@ INTEGER = @{ "-"? ~ ASCII_DIGIT+ }
 DECIMAL = @{ "-"? ~ ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT+)? }
 BOOL = { "0" | "1" }
 
-NL = _{ NEWLINE+ }
-COMMENT = _{ ";" ~ (!NEWLINE ~ ANY)* ~ NL }
+NL = _{ ((" " | "\t")* ~ NEWLINE)+ }
+COMMENT = _{ (" " | "\t")* ~ ";" ~ (!NEWLINE ~ ANY)* ~ NL }
-- 
2.43.0


From 5eac52f2b8060f9bc3abfc420ed6d9234938b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 44/46] fix: accept blanks and comments at the end of airway
 lines

---
 src/pest/airway.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pest/airway.pest b/src/pest/airway.pest
index 7b3850f..1944ea4 100644
--- a/src/pest/airway.pest
+++ b/src/pest/airway.pest
@@ -29,5 +29,5 @@ coord_part = ${ DECIMAL }
 
 DECIMAL = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
 
-NL = _{ NEWLINE+ }
-COMMENT = _{ (";" | "//") ~ (!NEWLINE ~ ANY)* }
+NL = _{ ((" " | "\t")* ~ NEWLINE)+ }
+COMMENT = _{ (" " | "\t")* ~ (";" | "//") ~ (!NEWLINE ~ ANY)* }
-- 
2.43.0


From 38767288cbca1d77e659a04b47a5efafd51a1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 45/46] fix: drop blanks at the end of navdata airport names

---
 src/pest/navdata_airports.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/navdata_airports.pest b/src/pest/navdata_airports.pest
index e48993a..5f76fed 100644
--- a/src/pest/navdata_airports.pest
+++ b/src/pest/navdata_airports.pest
@@ -5,7 +5,7 @@ definition = {
 }
 
 designator = @{ (LETTER | ASCII_DIGIT)+ }
-name       = @{ (!NEWLINE ~ ANY)+ }
+name       = @{ (!NL ~ ANY)+ }
 
 COMMENT    = _{ (";" | "//") ~ (!NEWLINE ~ ANY)* }
 WHITESPACE = _{ " " | "\t" }
-- 
2.43.0


From 3a6f87e90d9e3948b6483153a529a86b5c1da794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:12 +0000
Subject: [PATCH 46/46] fix: join airway segments without recursion and copied
 state

---
 src/adaptation/sct_items.rs | 50 ++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index b78b94c..2fe6910 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -73,30 +73,31 @@ impl ColouredLines {
 }
 
 fn build_linestring(
-    point: Coord,
-    visited: HashSet<String>,
+    start: Coord,
+    visited: &mut HashSet<String>,
     adjacency: &MultiMap<String, Line>,
-) -> (LineString, std::collections::HashSet<String>) {
-    adjacency
+) -> LineString {
+    let mut point = start;
+    let mut path = vec![point];
+
+    while let Some(next_line) = adjacency
         .get_vec(&coord_hash(point))
         .and_then(|connected_lines| {
             connected_lines
                 .iter()
                 .find(|line| !visited.contains(&line_hash(**line)))
         })
-        .map(|next_line| {
-            let next_point = if coord_hash(next_line.start) == coord_hash(point) {
-                next_line.end
-            } else {
-                next_line.start
-            };
-            let mut tmp_visited = visited.clone();
-            tmp_visited.insert(line_hash(*next_line));
-            let (mut path, new_visited) = build_linestring(next_point, tmp_visited, adjacency);
-            path.0.insert(0, point);
-            (path, new_visited)
-        })
-        .unwrap_or((LineString::new(vec![point]), visited))
+    {
+        visited.insert(line_hash(*next_line));
+        point = if coord_hash(next_line.start) == coord_hash(point) {
+            next_line.end
+        } else {
+            next_line.start
+        };
+        path.push(point);
+    }
+
+    LineString::new(path)
 }
 
 fn airway_to_multi_line_string(
@@ -136,16 +137,13 @@ fn airway_to_multi_line_string(
                 MultiLineString::new(vec![]),
                 std::collections::HashSet::new(),
             ),
-            |(mut acc, visited), line| {
-                if visited.contains(&line_hash(*line)) {
-                    (acc, visited)
-                } else {
-                    let (linestring, new_visited) =
-                        build_linestring(line.start, visited, &adjacency);
-                    acc.0.push(linestring);
-
-                    (acc, new_visited)
+            |(mut acc, mut visited), line| {
+                if !visited.contains(&line_hash(*line)) {
+                    acc.0
+                        .push(build_linestring(line.start, &mut visited, &adjacency));
                 }
+
+                (acc, visited)
             },
         )
         .0
-- 
2.43.0

