From 466722a0bde4902b6a8ab7beef5f779590d6aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:39 +0000
Subject: [PATCH 01/18] fix: SCT airways run from their start to their end
 point

---
 src/adaptation/sct_items.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index a15fbbc..9aac110 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -109,7 +109,7 @@ fn airway_to_multi_line_string(
         .filter_map(|airway| {
             let line = locations
                 .convert_location(&airway.start)
-                .zip(locations.convert_location(&airway.start))
+                .zip(locations.convert_location(&airway.end))
                 .map(|(start, end)| Line::new(start, end));
             if line.is_none() {
                 warn!("Could not convert {airway:?} in .sct {typ} {name}");
-- 
2.43.0


From c6adacce1dfa078ef31aa16fc91637796aafc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:45 +0000
Subject: [PATCH 02/18] fix: high airway name colour is read from its own
 symbology entry

---
 src/adaptation/colours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/colours.rs b/src/adaptation/colours.rs
index a5dc074..12cf3b1 100644
--- a/src/adaptation/colours.rs
+++ b/src/adaptation/colours.rs
@@ -232,7 +232,7 @@ impl MapColours {
             ),
             high_airway_name: Colour::from_symbology(
                 symbology,
-                &("High airways".to_string(), "line".to_string()),
+                &("High airways".to_string(), "name".to_string()),
                 Self::DEFAULT_HIGH_AIRWAY_NAME,
             ),
             sid: Colour::from_symbology(
-- 
2.43.0


From 472966c1cb00c6f13c376fad755ba269ee069220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 03/18] fix: VORs fall back to the default VOR symbol

---
 src/adaptation/symbols.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 52bb09b..df1a99a 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -190,7 +190,7 @@ impl Symbols {
                 .and_then(|t| t.symbols.get("VOR"))
                 .map(|s| s.rules.clone())
                 .or_else(|| symbology.symbols.get(&SymbolType::VOR).cloned())
-                .unwrap_or(default_ndb().clone()),
+                .unwrap_or(default_vor().clone()),
             airport: topsky
                 .as_ref()
                 .and_then(|t| t.symbols.get("AIRPORT"))
-- 
2.43.0


From aa8e64306c5a874cc172a17f3f5deffdf2f774d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:24 +0000
Subject: [PATCH 04/18] fix: AUP and NOTAM conditions list their names one by
 one

---
 src/topsky/map/active.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/active.rs b/src/topsky/map/active.rs
index afee1fd..60bc9b7 100644
--- a/src/topsky/map/active.rs
+++ b/src/topsky/map/active.rs
@@ -126,6 +126,7 @@ impl Active {
             Rule::active_aup => Self::Aup(
                 active
                     .into_inner()
+                    .flat_map(Pair::into_inner)
                     .map(|pair| pair.as_str().to_string())
                     .collect(),
             ),
@@ -133,7 +134,10 @@ impl Active {
                 let mut active_notam = active.into_inner();
                 Self::Notam(
                     active_notam.next().unwrap().as_str().to_string(),
-                    active_notam.map(|pair| pair.as_str().to_string()).collect(),
+                    active_notam
+                        .flat_map(Pair::into_inner)
+                        .map(|pair| pair.as_str().to_string())
+                        .collect(),
                 )
             }
             Rule::active_area => Self::Area(ActiveAreas::parse(active)),
-- 
2.43.0


From 2d0965f5ef193eb3e22f70406a9c29a2b0b365ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 05/18] fix: a configuration change leaves polygons already
 drawn alone

---
 src/adaptation/maps/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index 054ec2a..c934a21 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -47,7 +47,11 @@ impl Map {
         F: FnMut(&mut MapGroup),
     {
         if let Some(last) = self.map_groups.last() {
-            if last.lines.0.is_empty() && last.symbols.is_empty() && last.labels.is_empty() {
+            if last.lines.0.is_empty()
+                && last.symbols.is_empty()
+                && last.labels.is_empty()
+                && last.polygons.is_empty()
+            {
                 change_fn(self.map_groups.last_mut().unwrap());
             } else {
                 let mut map_group = MapGroup {
-- 
2.43.0


From 92cc603a04dfe14f04e07eccab15eb708460430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:39 +0000
Subject: [PATCH 06/18] fix: every navigation element sharing a designator is
 considered

---
 src/adaptation/locations/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index 4cda431..fa7615d 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -439,18 +439,21 @@ impl Locations {
     pub fn contains_nav_element(&self, designator: &str, position: GraphPosition) -> bool {
         let other = position.0.quantize();
         self.vors
-            .get(designator)
-            .iter()
+            .get_vec(designator)
+            .into_iter()
+            .flatten()
             .any(|vor| vor.coordinate.quantize() == other)
             || self
                 .ndbs
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|ndb| ndb.coordinate.quantize() == other)
             || self
                 .fixes
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|fix| fix.coordinate.quantize() == other)
     }
 }
-- 
2.43.0


From 670c90ab7e4d205944122b2979bd42732110f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:46 +0000
Subject: [PATCH 07/18] fix: only ASCII digits make a coordinate or
 range/bearing designator

---
 src/adaptation/locations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index fa7615d..6dfc1de 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -166,12 +166,12 @@ pub struct Locations {
 
 fn coord_regex() -> &'static Regex {
     static COORD_RE: OnceLock<Regex> = OnceLock::new();
-    COORD_RE.get_or_init(|| Regex::new(r"^(\d{1,6})(N|S)(\d{2,7})(E|W)$").unwrap())
+    COORD_RE.get_or_init(|| Regex::new(r"^([0-9]{1,6})(N|S)([0-9]{2,7})(E|W)$").unwrap())
 }
 
 fn range_bearing_regex() -> &'static Regex {
     static RANGE_BEARING_RE: OnceLock<Regex> = OnceLock::new();
-    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})(\d{3})(\d{3})$").unwrap())
+    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})([0-9]{3})([0-9]{3})$").unwrap())
 }
 
 impl Locations {
-- 
2.43.0


From 7d138b0cb7f24df745cafae0179663862e3f809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 08/18] fix: formatted coordinates carry rounded seconds and
 keep degrees above 255

---
 src/lib.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 97d4da5..df0b694 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,14 +61,14 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
-fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u8, u8, f64, char) {
+fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u64, u64, f64, char) {
     let is_negative = decimal.is_sign_negative();
-    let abs = decimal.abs();
 
-    let degrees = abs.floor() as u8;
-    let minutes_f64 = abs.fract() * 60.0;
-    let minutes = minutes_f64.floor() as u8;
-    let seconds = minutes_f64.fract() * 60.0;
+    // rounded to the printed precision first, so that carries reach minutes and degrees
+    let milliseconds = (decimal.abs() * 3_600_000.0).round() as u64;
+    let degrees = milliseconds / 3_600_000;
+    let minutes = milliseconds / 60_000 % 60;
+    let seconds = (milliseconds % 60_000) as f64 / 1000.0;
 
     let direction = match (is_latitude, is_negative) {
         (true, false) => 'N',
@@ -106,21 +106,13 @@ impl DegMinSecExt for Coord {
     }
 
     fn lat_deg_min_sec_fmt(&self) -> String {
-        let lat = decimal_to_dms(self.y, true);
-        let deg = lat.0;
-        let carry_rounded_sec = (lat.2 - 60.).abs() < 0.000_001;
-        let min = lat.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lat.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lat.3)
+        let (deg, min, sec, direction) = decimal_to_dms(self.y, true);
+        format!("{direction}{deg:03}.{min:02}.{sec:06.3}")
     }
 
     fn lng_deg_min_sec_fmt(&self) -> String {
-        let lon = decimal_to_dms(self.x, false);
-        let deg = lon.0;
-        let carry_rounded_sec = (lon.2 - 60.).abs() < 0.000_001;
-        let min = lon.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lon.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lon.3)
+        let (deg, min, sec, direction) = decimal_to_dms(self.x, false);
+        format!("{direction}{deg:03}.{min:02}.{sec:06.3}")
     }
 }
 impl DegMinSecExt for Point {
-- 
2.43.0


From cbb238aa2c480e0ace3de50f3f3d1219db530cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 09/18] fix: TopSky coordinates may mix decimal and DMS
 notation instead of panicking

---
 src/lib.rs            | 12 ++++++------
 src/topsky/map/mod.rs | 18 +++++++++++-------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index df0b694..a68a25f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,6 +61,10 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
+fn dms_to_decimal((sign, deg, min, sec): DegMinSec) -> f64 {
+    (f64::from(deg) + f64::from(min) / 60.0 + sec / 3600.0) * f64::from(sign.sign())
+}
+
 fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u64, u64, f64, char) {
     let is_negative = decimal.is_sign_negative();
 
@@ -95,13 +99,9 @@ pub trait DegMinSecExt {
 
 impl DegMinSecExt for Coord {
     fn from_deg_min_sec(lat: DegMinSec, lng: DegMinSec) -> Self {
-        let lat_deg = f64::from(lat.1);
-        let lat_min = f64::from(lat.2);
-        let lng_deg = f64::from(lng.1);
-        let lng_min = f64::from(lng.2);
         Self {
-            y: (lat_deg + lat_min / 60.0 + lat.3 / 3600.0) * f64::from(lat.0.sign()),
-            x: (lng_deg + lng_min / 60.0 + lng.3 / 3600.0) * f64::from(lng.0.sign()),
+            y: dms_to_decimal(lat),
+            x: dms_to_decimal(lng),
         }
     }
 
diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 655b2d6..e2b83dc 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -13,7 +13,7 @@ use tracing::warn;
 
 use crate::{
     adaptation::{colours::Colour, line_styles::LineStyle, maps::active::Active, Alignment},
-    read_to_string, DegMinSec, DegMinSecExt as _, Location, Sign,
+    dms_to_decimal, read_to_string, DegMinSec, Location, Sign,
 };
 
 use super::{
@@ -49,18 +49,22 @@ impl CoordinatePart {
             rule => unreachable!("{rule:?}"),
         }
     }
+
+    fn into_decimal(self) -> f64 {
+        match self {
+            Self::Decimal(decimal) => decimal,
+            Self::DegMinSec(dms) => dms_to_decimal(dms),
+        }
+    }
 }
 
 fn parse_coord(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
     let lat = CoordinatePart::parse(coordinate.next().unwrap());
     let lng = CoordinatePart::parse(coordinate.next().unwrap());
-    match (lat, lng) {
-        (CoordinatePart::Decimal(y), CoordinatePart::Decimal(x)) => Coord { x, y },
-        (CoordinatePart::DegMinSec(lat), CoordinatePart::DegMinSec(lng)) => {
-            Coord::from_deg_min_sec(lat, lng)
-        }
-        _ => panic!("Consistency!"),
+    Coord {
+        x: lng.into_decimal(),
+        y: lat.into_decimal(),
     }
 }
 
-- 
2.43.0


From b18d205168b8e97901b1a5e30ba1c1543260781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:27 +0000
Subject: [PATCH 10/18] fix: decimal coordinates in .ese files instead of
 panicking

---
 src/ese.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index ecc2262..e897cd1 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -12,7 +12,7 @@ use tracing::warn;
 
 use crate::{
     adaptation::maps::active::RunwayIdentifier, adaptation::settings::CoordinationTiming,
-    DegMinSec, DegMinSecExt as _, Sign,
+    dms_to_decimal, Sign,
 };
 
 use super::read_to_string;
@@ -397,8 +397,13 @@ enum SectionName {
     Unsupported,
 }
 
-fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
-    let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let pair = pair.into_inner().next().unwrap();
+    if let Rule::decimal = pair.as_rule() {
+        return pair.as_str().parse().unwrap();
+    }
+
+    let mut coordinate_part = pair.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
     let degrees = coordinate_part
@@ -411,15 +416,15 @@ fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
     let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
     let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
 
-    (sign, degrees, min, sec)
+    dms_to_decimal((sign, degrees, min, sec))
 }
 
 // TODO generalise this and other similar into trait
 fn parse_coordinate(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = parse_coordinate_part(coordinate.next().unwrap());
-    let lng = parse_coordinate_part(coordinate.next().unwrap());
-    Coord::from_deg_min_sec(lat, lng)
+    let y = parse_coordinate_part(coordinate.next().unwrap());
+    let x = parse_coordinate_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 enum SectorRule {
-- 
2.43.0


From 9b13220a20e0e24511bac7a2c04b12ecaa1708cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 11/18] fix: DMS coordinates in the .asr window area instead of
 panicking

---
 src/asr.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 7370616..bfc6edb 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -7,7 +7,7 @@ use serde::Serialize;
 use thiserror::Error;
 use tracing::warn;
 
-use crate::TwoKeyMap;
+use crate::{dms_to_decimal, Sign, TwoKeyMap};
 
 use super::read_to_string;
 
@@ -214,6 +214,21 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let pair = pair.into_inner().next().unwrap();
+    if let Rule::DECIMAL = pair.as_rule() {
+        return pair.as_str().parse().unwrap();
+    }
+
+    let mut coordinate_part = pair.into_inner();
+    let sign = Sign::from(coordinate_part.next().unwrap().as_str());
+    let degrees = coordinate_part.next().unwrap().as_str().parse().unwrap();
+    let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
+    let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
+
+    dms_to_decimal((sign, degrees, min, sec))
+}
+
 fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
     let rule = pair.as_rule();
     let mut inner = pair.into_inner();
@@ -290,10 +305,10 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             inner.next().unwrap().as_str().to_string(),
         )),
         Rule::window_area => {
-            let lat1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lat2 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng2 = inner.next().unwrap().as_str().parse().unwrap();
+            let lat1 = parse_coordinate_part(inner.next().unwrap());
+            let lng1 = parse_coordinate_part(inner.next().unwrap());
+            let lat2 = parse_coordinate_part(inner.next().unwrap());
+            let lng2 = parse_coordinate_part(inner.next().unwrap());
             Some(AsrData::WindowArea((
                 Coord { x: lng1, y: lat1 },
                 Coord { x: lng2, y: lat2 },
-- 
2.43.0


From c96bb989bd1809f3f878650623788e9f8922839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:31 +0000
Subject: [PATCH 12/18] fix: a sector made of several volumes gets the same id
 on every run

---
 src/adaptation/sectors.rs | 40 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index d21f579..b61ab08 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -5,6 +5,7 @@ use std::{
 
 use bevy_derive::Deref;
 use geo::{Coord, Line, LineString, Polygon, Winding};
+use itertools::Itertools as _;
 use multimap::MultiMap;
 use serde::{Deserialize, Serialize};
 use tracing::warn;
@@ -139,25 +140,26 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
 
 impl Sectors {
     pub fn from_ese(ese: &Ese) -> (HashMap<String, Volume>, Sectors) {
-        let (by_priorities_filters, volumes) = ese.sectors.iter().fold(
-            (TwoKeyMultiMap(MultiMap::new()), HashMap::new()),
-            |(mut sectors, mut volumes), (id, sector)| {
-                if let Some(polygon) = polygon_from_ese(sector) {
-                    sectors.0.insert(
-                        (sector.owner_priority.clone(), sector.runway_filter.clone()),
-                        (id.clone(), sector.clone()),
-                    );
-
-                    volumes.insert(
-                        id.clone(),
-                        Volume::new(id.clone(), sector.bottom, sector.top, polygon),
-                    );
-                } else {
-                    warn!("Could not compute valid polygon for {id}");
-                }
-                (sectors, volumes)
-            },
-        );
+        let (by_priorities_filters, volumes) =
+            ese.sectors.iter().sorted_by_key(|(id, _)| *id).fold(
+                (TwoKeyMultiMap(MultiMap::new()), HashMap::new()),
+                |(mut sectors, mut volumes), (id, sector)| {
+                    if let Some(polygon) = polygon_from_ese(sector) {
+                        sectors.0.insert(
+                            (sector.owner_priority.clone(), sector.runway_filter.clone()),
+                            (id.clone(), sector.clone()),
+                        );
+
+                        volumes.insert(
+                            id.clone(),
+                            Volume::new(id.clone(), sector.bottom, sector.top, polygon),
+                        );
+                    } else {
+                        warn!("Could not compute valid polygon for {id}");
+                    }
+                    (sectors, volumes)
+                },
+            );
         let sectors = by_priorities_filters.0.into_iter().fold(
             HashMap::new(),
             |mut acc, ((position_priority, runway_filter), volumes_and_sector)| {
-- 
2.43.0


From 155f9e50fe5758b8bf5759595fe9ce922e74463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:47 +0000
Subject: [PATCH 13/18] fix: line styles differing only in case resolve the
 same way on every run

---
 src/adaptation/line_styles.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/adaptation/line_styles.rs b/src/adaptation/line_styles.rs
index 4c5ba16..eca0f0f 100644
--- a/src/adaptation/line_styles.rs
+++ b/src/adaptation/line_styles.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use bevy_reflect::Reflect;
+use itertools::Itertools as _;
 use serde::{Deserialize, Serialize};
 
 use crate::topsky::Topsky;
@@ -41,6 +42,7 @@ pub fn line_styles_from_topsky(topsky: &Option<Topsky>) -> HashMap<String, Optio
         .map(|t| {
             t.line_styles
                 .iter()
+                .sorted_by_key(|(name, _)| *name)
                 .map(|(name, style)| {
                     (
                         name.to_uppercase(),
-- 
2.43.0


From 8a6550c11274c373b00838f04d246dc7c3267389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:54 +0000
Subject: [PATCH 14/18] fix: a sector border starts at its first point on every
 run

---
 src/adaptation/sectors.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index b61ab08..67d3328 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -78,20 +78,17 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
             })
         })
         .collect();
-    let (mut adj_list, edge_count, points) = lines.iter().fold(
+    let (mut adj_list, edge_count) = lines.iter().fold(
         (
             HashMap::<Coord<i64>, Vec<Coord<i64>>>::new(),
             HashMap::<Coord<i64>, usize>::new(),
-            HashSet::<Coord<i64>>::new(),
         ),
-        |(mut adj_list, mut edge_count, mut points), line| {
+        |(mut adj_list, mut edge_count), line| {
             adj_list.entry(line.start).or_default().push(line.end);
             adj_list.entry(line.end).or_default().push(line.start);
             *edge_count.entry(line.start).or_insert(0) += 1;
             *edge_count.entry(line.end).or_insert(0) += 1;
-            points.insert(line.start);
-            points.insert(line.end);
-            (adj_list, edge_count, points)
+            (adj_list, edge_count)
         },
     );
 
@@ -100,10 +97,11 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
         return None;
     }
 
-    let line_ring = if let Some(start_point) = points.iter().next() {
-        let mut stack = vec![*start_point];
+    let line_ring = if let Some(first_line) = lines.first() {
+        let start_point = first_line.start;
+        let mut stack = vec![start_point];
         let mut line_ring = vec![];
-        let mut current = *start_point;
+        let mut current = start_point;
 
         while !stack.is_empty() {
             if let Some(neighbours) = adj_list.get_mut(&current) {
-- 
2.43.0


From 8af05f6963503ac6d09859db40143da31d53d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:05 +0000
Subject: [PATCH 15/18] fix: the same one of several plugin folders is used on
 every run

---
 src/prf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prf.rs b/src/prf.rs
index 4883cfa..4f2b89d 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -4,6 +4,7 @@ use std::ffi::OsStr;
 use std::io;
 use std::path::{Path, PathBuf};
 
+use itertools::Itertools as _;
 use pest::{iterators::Pair, Parser};
 use pest_derive::Parser;
 use serde::Serialize;
@@ -89,6 +90,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted_by_key(|(key, _)| *key)
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("Squawks.dll")) {
@@ -106,6 +108,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted_by_key(|(key, _)| *key)
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("TopSky.dll")) {
-- 
2.43.0


From 177f8762ae08f6e241ea1c9f677879e3e2d222ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:11 +0000
Subject: [PATCH 16/18] fix: a volume listed in several sectors belongs to the
 same one on every run

---
 src/adaptation/sectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index 67d3328..e31eba9 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -191,6 +191,7 @@ impl Sectors {
 
     pub fn find_id_by_volume(&self, vol: &str) -> Option<&String> {
         self.iter()
-            .find_map(|(id, sector)| sector.volumes.contains(vol).then_some(id))
+            .filter_map(|(id, sector)| sector.volumes.contains(vol).then_some(id))
+            .min()
     }
 }
-- 
2.43.0


From 782537de52769a11b6e54fcca3d919f3795a9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 17/18] fix: airways of the sector file are drawn as lines
 instead of single points

---
 src/adaptation/sct_items.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index 9aac110..266778f 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -135,11 +135,10 @@ fn airway_to_multi_line_string(
                 MultiLineString::new(vec![]),
                 std::collections::HashSet::new(),
             ),
-            |(mut acc, mut visited), line| {
+            |(mut acc, visited), line| {
                 if visited.contains(&line_hash(*line)) {
                     (acc, visited)
                 } else {
-                    visited.insert(line_hash(*line));
                     let (linestring, new_visited) =
                         build_linestring(line.start, visited, &adjacency);
                     acc.0.push(linestring);
-- 
2.43.0


From 1168e65da414e2b87363f8d4239fac73f850d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:38 +0000
Subject: [PATCH 18/18] fix: positions without a squawk range keep their first
 visibility point

---
 src/ese.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index e897cd1..566d6a4 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -472,8 +472,9 @@ fn parse_position(pair: Pair<Rule>) -> (String, Position) {
     let prefix = position.next().unwrap().as_str().to_string();
     let suffix = position.next().unwrap().as_str().to_string();
     // skip unused fields
-    let mut position = position.skip(2);
-    let squawk_range = parse_squawk_range(position.next());
+    let mut position = position.skip(2).peekable();
+    let squawk_range =
+        parse_squawk_range(position.next_if(|pair| pair.as_rule() == Rule::squawk_range));
     let visibility_points = position.map(parse_coordinate).collect();
 
     (
-- 
2.43.0

