From 00adaac6b1b40d77a796eab9e067f1b1d1757a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 01/44] fix: epoch decimals and invalid dates

Sub second decimals are now interpreted by their position, whatever the
timescale and the number of digits, and invalid calendar dates are
rejected instead of panicking.
---
 src/epoch.rs | 83 +++++++++++++++++++++++-----------------------------
 1 file changed, 37 insertions(+), 46 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 0a2ff97..87d3318 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -117,7 +117,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
     let mut hh = 0_u8;
     let mut mm = 0_u8;
     let mut ss = 0_u8;
-    let mut ns = 0_u64;
+    let mut ns = 0_u32;
 
     if content.split_ascii_whitespace().count() < 6 {
         return Err(ParsingError::EpochFormat);
@@ -131,7 +131,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                     .map_err(|_| ParsingError::EpochParsing)?;
 
                 /* old RINEX problem: YY sometimes encoded on two digits */
-                if y > 79 && y <= 99 {
+                if (79..=99).contains(&y) {
                     y += 1900;
                 } else if y < 79 {
                     y += 2000;
@@ -151,26 +151,12 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             },
             5 => {
                 if let Some(dot) = item.find('.') {
-                    let is_nav = item.trim().len() < 7;
-
                     ss = item[..dot]
                         .trim()
                         .parse::<u8>()
                         .map_err(|_| ParsingError::EpochParsing)?;
 
-                    let nanos = item[dot + 1..].trim();
-
-                    ns = nanos
-                        .parse::<u64>()
-                        .map_err(|_| ParsingError::EpochParsing)?;
-
-                    if is_nav {
-                        // NAV RINEX : 100ms precision
-                        ns *= 100_000_000;
-                    } else if nanos.len() != 9 {
-                        // OBS RINEX : 100ns precision
-                        ns *= 100;
-                    }
+                    ns = parse_fraction_nanos(item[dot + 1..].trim())?;
                 } else {
                     ss = item
                         .trim()
@@ -184,35 +170,40 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
 
     //println!("content \"{}\"", content); // DEBUG
     //println!("Y {} M {} D {} HH {} MM {} SS {} NS {}", y, m, d, hh, mm, ss, ns); // DEBUG
-    match ts {
-        TimeScale::UTC => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        TimeScale::TAI => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        ts => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06} {}",
-                y, m, d, hh, mm, ss, ns, ts
-            ))?;
-            Ok(epoch)
-        },
+    gregorian_epoch(y, m, d, hh, mm, ss, ns, ts)
+}
+
+/// Interprets the fractional part of a "seconds" field, whatever its number of digits,
+/// as nanoseconds.
+pub(crate) fn parse_fraction_nanos(digits: &str) -> Result<u32, ParsingError> {
+    if !digits.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ParsingError::EpochParsing);
     }
+
+    Ok(digits
+        .bytes()
+        .chain(std::iter::repeat(b'0'))
+        .take(9)
+        .fold(0, |nanos, b| nanos * 10 + (b - b'0') as u32))
+}
+
+/// Builds an [Epoch] from calendar date expressed in [TimeScale].
+/// Invalid dates are rejected.
+pub(crate) fn gregorian_epoch(
+    y: i32,
+    m: u8,
+    d: u8,
+    hh: u8,
+    mm: u8,
+    ss: u8,
+    ns: u32,
+    ts: TimeScale,
+) -> Result<Epoch, ParsingError> {
+    if !(1..=9999).contains(&y) {
+        return Err(ParsingError::EpochFormat);
+    }
+
+    Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts).map_err(|_| ParsingError::EpochFormat)
 }
 
 pub(crate) fn parse_utc(s: &str) -> Result<Epoch, ParsingError> {
@@ -262,7 +253,7 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
-    Ok(Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, 0))
+    gregorian_epoch(y, m, d, hh, mm, ss, 0, TimeScale::UTC)
 }
 
 /*
-- 
2.43.0


From 91168abc3bfb75ceaa296defa1d2ad52e2246044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 02/44] fix: time system of observations (TIME OF FIRST/LAST
 OBS decimals, labels, precedence)

---
 src/header/parsing.rs | 77 ++++++++++++++++++++-----------------------
 src/record/parsing.rs | 24 ++++++--------
 2 files changed, 45 insertions(+), 56 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dfdbc2d..f4dfcea 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -3,7 +3,7 @@ use crate::{
     antex::{HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
     doris::{HeaderFields as DorisHeader, Station as DorisStation},
-    epoch::parse_ionex_utc as parse_ionex_utc_epoch,
+    epoch::{gregorian_epoch, parse_fraction_nanos, parse_ionex_utc as parse_ionex_utc_epoch},
     hardware::{Antenna, Receiver, SvAntenna},
     hatanaka::CRINEX,
     header::{DcbCompensation, Header, PcvCompensation},
@@ -563,32 +563,24 @@ impl Header {
                 // <o repeated for each satellite system
                 // <o blank field when no corrections applied
             } else if marker.contains("TIME OF FIRST OBS") {
-                let mut time_of_first_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
-                    Some(c) => {
-                        // in case of OLD RINEX : fixed constellation
-                        //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_first_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
-                    },
-                }
+                let time_of_first_obs = match constellation.and_then(|c| c.timescale()) {
+                    // in case of OLD RINEX : fixed constellation
+                    //  use that information, as it may be omitted in the TIME OF OBS header
+                    Some(ts) => Self::parse_time_of_obs_or(content, ts)?,
+                    None => Self::parse_time_of_obs(content)?,
+                };
                 if rinex_type == Type::DORIS {
                     doris.timeof_first_obs = Some(time_of_first_obs);
                 } else {
                     observation = observation.with_timeof_first_obs(time_of_first_obs);
                 }
             } else if marker.contains("TIME OF LAST OBS") {
-                let mut time_of_last_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
-                    Some(c) => {
-                        // in case of OLD RINEX : fixed constellation
-                        //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_last_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
-                    },
-                }
+                let time_of_last_obs = match constellation.and_then(|c| c.timescale()) {
+                    // in case of OLD RINEX : fixed constellation
+                    //  use that information, as it may be omitted in the TIME OF OBS header
+                    Some(ts) => Self::parse_time_of_obs_or(content, ts)?,
+                    None => Self::parse_time_of_obs(content)?,
+                };
 
                 if rinex_type == Type::DORIS {
                     doris.timeof_last_obs = Some(time_of_last_obs);
@@ -964,7 +956,17 @@ impl Header {
         })
     }
 
+    /*
+     * We set TAI as "default" Timescale.
+     * Timescale might be omitted in Old RINEX formats,
+     * In this case, we exit with "TAI" and handle that externally.
+     */
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
+        Self::parse_time_of_obs_or(content, TimeScale::TAI)
+    }
+
+    /// Parses TIME OF OBS field, expressed in `default_ts` when the timescale is omitted
+    fn parse_time_of_obs_or(content: &str, default_ts: TimeScale) -> Result<Epoch, ParsingError> {
         let (_, rem) = content.split_at(2);
         let (y, rem) = rem.split_at(4);
         let (m, rem) = rem.split_at(6);
@@ -1013,32 +1015,23 @@ impl Header {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        let ns = ns
-            .trim()
-            .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
-
-        /*
-         * We set TAI as "default" Timescale.
-         * Timescale might be omitted in Old RINEX formats,
-         * In this case, we exit with "TAI" and handle that externally.
-         */
-        let mut ts = TimeScale::TAI;
-        let rem = rem.trim();
+        let ns = parse_fraction_nanos(ns.trim())?;
 
         /*
          * Handles DORIS measurement special case,
          * offset from TAI, that we will convert back to TAI later
          */
-        if !rem.is_empty() && rem != "DOR" {
-            ts = TimeScale::from_str(rem.trim())?;
-        }
-
-        Epoch::from_str(&format!(
-            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:08} {}",
-            y, m, d, hh, mm, ss, ns, ts
-        ))
-        .map_err(|_| ParsingError::DatetimeParsing)
+        let ts = match rem.trim() {
+            "" => default_ts,
+            "DOR" => TimeScale::TAI,
+            // standard labels that Hifitime does not know
+            "GLO" => TimeScale::UTC,
+            "QZS" => TimeScale::QZSST,
+            rem => TimeScale::from_str(rem)?,
+        };
+
+        gregorian_epoch(y as i32, m, d, hh, mm, ss, ns, ts)
+            .map_err(|_| ParsingError::DatetimeParsing)
     }
 
     /*
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 84b5e9d..6d6c007 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -124,22 +124,18 @@ impl Record {
         if let Some(obs) = &header.obs {
             match header.constellation {
                 Some(Constellation::Mixed) | None => {
-                    if let Some(t) = obs.timeof_first_obs {
-                        obs_ts = t.time_scale;
-                    } else {
-                        if let Some(t) = obs.timeof_first_obs {
-                            obs_ts = t.time_scale;
-                        } else {
-                            let t = obs
-                                .timeof_last_obs
-                                .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
-                            obs_ts = t.time_scale;
-                        }
-                    }
+                    let t = obs
+                        .timeof_first_obs
+                        .or(obs.timeof_last_obs)
+                        .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
+                    obs_ts = t.time_scale;
                 },
                 Some(constellation) => {
-                    obs_ts = constellation
-                        .timescale()
+                    obs_ts = obs
+                        .timeof_first_obs
+                        .or(obs.timeof_last_obs)
+                        .map(|t| t.time_scale)
+                        .or(constellation.timescale())
                         .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
                 },
             }
-- 
2.43.0


From 67cf4c5d2520e4e7fb02b863fd209347deeb8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:21 +0000
Subject: [PATCH 03/44] fix: receiver clock offset of observations

---
 src/observation/parsing.rs | 17 ++++++++---------
 src/record/parsing.rs      |  1 +
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c81df9b..0e663a2 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -108,15 +108,11 @@ pub fn parse_epoch(
         .map_err(|_| ParsingError::NumSatParsing)?;
 
     // grab possible clock offset
-    let offs: Option<&str> = match header.version.major < 2 {
+    let offs: Option<&str> = match header.version.major < 3 {
         true => {
             // RINEX 2
-            // clock offsets are last 12 characters
-            if line.len() > 60 - 12 {
-                Some(line.split_at(60 - 12).1.trim())
-            } else {
-                None
-            }
+            // clock offset is the F12.9 field, past the 12 vehicles
+            line.get(68..).map(|offs| offs.trim())
         },
         false => {
             // RINEX 3
@@ -139,8 +135,11 @@ pub fn parse_epoch(
 
     if let Some(offset) = offs {
         if let Ok(offset_s) = offset.parse::<f64>() {
-            observations
-                .with_clock_observation(ClockObservation::default().with_offset_s(epoch, offset_s));
+            // null offset means it was not estimated
+            if offset_s != 0.0 {
+                observations.clock =
+                    Some(ClockObservation::default().with_offset_s(epoch, offset_s));
+            }
         }
     }
 
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 6d6c007..2ea06b8 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -306,6 +306,7 @@ impl Record {
                                 Err(_) => {},
                             }
 
+                            observations.clock = None;
                             observations.signals.clear(); // reset for next parsing (single alloc)
                         },
 
-- 
2.43.0


From b90ba0feb3902f0588c0441e9439fa1d91348af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 04/44] fix: columns of observations (V2 vehicle list and
 padded lines, V3 values, LLI, SNR)

---
 src/observation/parsing.rs | 70 +++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 0e663a2..953bc23 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -93,6 +93,11 @@ pub fn parse_epoch(
         line = line.split_at(1).1;
     }
 
+    // fixed columns: content must be ASCII and long enough
+    if !content.is_ascii() || line.len() < offset + 6 {
+        return Err(ParsingError::EpochFormat);
+    }
+
     let (date, rem) = line.split_at(offset);
     let epoch = parse_epoch_in_timescale(date, ts)?;
 
@@ -169,26 +174,38 @@ fn parse_observations(
     let obs = header.obs.as_ref().unwrap();
     let observables = &obs.codes;
 
-    // V1 / V2 tedious case
-    let rem = rem.trim();
-    let remainder_len = rem.len();
-
     if header.version.major < 3 {
         // Sets the satellite systems description, which consits in
         //  - end of current line
         //  - possible following lines
 
-        // starts with first line content
-        let end = (12 * 3).min(remainder_len);
+        // fixed width description: 12 vehicles per line.
+        // Blank system letters are allowed, so leading whitespaces are meaningful.
+        const LINE_WIDTH: usize = 12 * 3;
+        const PADDING: usize = 32;
+
+        let expected_len = num_sat as usize * 3;
+
+        let end = expected_len.min(LINE_WIDTH).min(rem.len());
         let mut systems_str = rem[..end].to_string();
-        let mut systems_str_len = systems_str.len();
 
         // grab following lines (if we need to)
-        while systems_str_len / 3 < num_sat.into() {
+        while systems_str.len() < expected_len {
             if let Some(line) = lines.next() {
-                let trimmed = line.trim();
-                systems_str_len += trimmed.len();
-                systems_str.push_str(trimmed);
+                let content = match line.get(..PADDING) {
+                    Some(padding) if padding.trim().is_empty() => &line[PADDING..],
+                    _ => line.trim(),
+                };
+
+                if content.trim().is_empty() {
+                    return Err(ParsingError::BadV2SatellitesDescription);
+                }
+
+                let end = (expected_len - systems_str.len())
+                    .min(LINE_WIDTH)
+                    .min(content.len());
+
+                systems_str.push_str(&content[..end]);
             } else {
                 return Err(ParsingError::BadV2SatellitesDescription);
             }
@@ -259,8 +276,17 @@ fn parse_signals_v2(
         //  2. every time one SV is concluded
         if !sv_identified {
             // identify new SV
+            if sv_ptr >= systems_str_len {
+                // all vehicles have been described
+                return;
+            }
+
             let sv_end = (sv_ptr + SVNN_SIZE).min(systems_str_len);
-            let system = &systems_str[sv_ptr..sv_end].trim();
+            let system = systems_str[sv_ptr..sv_end].trim();
+
+            if system.is_empty() {
+                break;
+            }
 
             // actual parsing
             if let Ok(found) = SV::from_str(system) {
@@ -346,7 +372,7 @@ fn parse_signals_v2(
         }
 
         // num obs contained this line
-        let num_obs = div_ceil(line_width, OBSERVABLE_WIDTH);
+        let num_obs = div_ceil(line_width, OBSERVABLE_WIDTH).min(MAX_OBSERVABLES_LINE);
 
         let mut offset = 0;
 
@@ -363,8 +389,8 @@ fn parse_signals_v2(
         // process all of them
         for _ in 0..num_obs {
             if obs_ptr >= observables.len() {
-                // line is abnormally long (trailing whitespaces): abort
-                return;
+                // line is abnormally long (trailing whitespaces)
+                break;
             }
 
             let end = (offset + OBSERVABLE_WIDTH).min(line_width);
@@ -462,7 +488,11 @@ fn parse_signals_v3(
     // browse all lines
     for line in lines {
         // identify SV
-        let sv_str = &line[0..SVNN_SIZE];
+        let sv_str = match line.get(..SVNN_SIZE) {
+            Some(sv_str) => sv_str,
+            None => continue,
+        };
+
         match SV::from_str(sv_str) {
             Ok(found) => {
                 sv = found;
@@ -491,8 +521,8 @@ fn parse_signals_v3(
 
         let observables = observables.unwrap();
 
-        let num_obs = line.len() / OBSERVABLE_WIDTH;
-        let mut offset = SVNN_SIZE + 1;
+        let num_obs = div_ceil(line.len() - SVNN_SIZE, OBSERVABLE_WIDTH);
+        let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
             if i == observables.len() {
@@ -506,7 +536,7 @@ fn parse_signals_v3(
             let mut lli = Option::<LliFlags>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH {
-                let start = offset + OBSERVABLE_F14_WIDTH - 1;
+                let start = offset + OBSERVABLE_F14_WIDTH;
                 let lli_slice = &line[start..start + 1];
                 match lli_slice.parse::<u8>() {
                     Ok(unsigned) => {
@@ -522,7 +552,7 @@ fn parse_signals_v3(
             let mut snr = Option::<SNR>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let start = offset + OBSERVABLE_F14_WIDTH;
+                let start = offset + OBSERVABLE_F14_WIDTH + 1;
                 let snr_slice = &line[start..start + 1];
 
                 if let Ok(value) = snr_slice.parse::<u8>() {
-- 
2.43.0


From 8b20a4a4c8c3ec54b4301515510302157b07a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 05/44] fix: observation formatting (receiver clock, empty
 epochs, list of 8 RINEX 2 observables)

---
 src/observation/formatting.rs | 55 ++++++++++++++++++++---------------
 src/observation/header.rs     |  2 +-
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index 8b14ac3..f9639fd 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -117,37 +117,44 @@ impl Observations {
         const NUM_SV_PER_LINE: usize = 12;
         const NEW_LINE_PADDING: &str = "                                ";
 
-        if let Some(clock) = self.clock {
-            write!(
-                w,
-                " {}  {} {:2}",
-                epoch_format(key.epoch, RinexType::ObservationData, 2),
-                key.flag,
-                numsat,
-            )?;
-        } else {
-            write!(
-                w,
-                " {}  {} {:2}",
-                epoch_format(key.epoch, RinexType::ObservationData, 2),
-                key.flag,
-                numsat,
-            )?;
-        }
+        write!(
+            w,
+            " {}  {} {:2}",
+            epoch_format(key.epoch, RinexType::ObservationData, 2),
+            key.flag,
+            numsat,
+        )?;
 
         for (nth, sv) in sv_list.iter().enumerate() {
             if nth > 0 && (nth % NUM_SV_PER_LINE) == 0 {
-                write!(w, "{}", NEW_LINE_PADDING)?;
+                write!(w, "{}{}", '\n', NEW_LINE_PADDING)?;
             }
+
             write!(w, "{:x}", sv)?;
-            if nth < numsat - 1 && nth % NUM_SV_PER_LINE == NUM_SV_PER_LINE - 1 {
-                write!(w, "{}", '\n')?;
-            }
-            if nth == numsat - 1 {
-                write!(w, "{}", '\n')?;
+
+            // clock offset terminates the first line
+            if nth == NUM_SV_PER_LINE - 1 {
+                self.format_clock_v2(w, 0)?;
             }
         }
 
+        if numsat < NUM_SV_PER_LINE {
+            self.format_clock_v2(w, (NUM_SV_PER_LINE - numsat) * 3)?;
+        }
+
+        write!(w, "{}", '\n')?;
+        Ok(())
+    }
+
+    /// Format possible clock offset according to V2 RINEX format
+    fn format_clock_v2<W: Write>(
+        &self,
+        w: &mut BufWriter<W>,
+        padding: usize,
+    ) -> Result<(), FormattingError> {
+        if let Some(clock) = self.clock {
+            write!(w, "{:padding$}{:12.9}", "", clock.offset_s)?;
+        }
         Ok(())
     }
 
@@ -231,7 +238,7 @@ impl Observations {
         if let Some(clock) = self.clock {
             writeln!(
                 w,
-                "> {}  {} {:2}  {:13.4}",
+                "> {}  {} {:2}      {:15.12}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
diff --git a/src/observation/header.rs b/src/observation/header.rs
index b419fce..3d9acd4 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -107,7 +107,7 @@ impl HeaderFields {
                 modulo = nth % 9;
             }
 
-            if modulo != 7 {
+            if modulo != 8 {
                 writeln!(
                     w,
                     "{:>width$}",
-- 
2.43.0


From 57eb31d381a5103f57cacc02ba3a42e716ef5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 06/44] fix: header fields lost or misplaced (marker, antenna,
 leap seconds, Glonass slots, system letter)

---
 src/hardware.rs          |  2 +-
 src/header/formatting.rs | 54 ++++++++++++++++++----------------
 src/header/parsing.rs    | 43 ++++++++++++++++-----------
 src/leap.rs              | 63 ++++++++++++++--------------------------
 src/marker.rs            | 20 +++++++++++--
 5 files changed, 95 insertions(+), 87 deletions(-)

diff --git a/src/hardware.rs b/src/hardware.rs
index 4436c7c..7b8561d 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -109,7 +109,7 @@ impl Antenna {
                 "{}",
                 fmt_rinex(
                     &format!("{:14.4}{:14.4}{:14.4}", coords.0, coords.1, coords.2),
-                    "APPROX POSITION XYZ"
+                    "ANTENNA: DELTA X/Y/Z"
                 )
             )?;
         }
diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index e75727e..09be7d6 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -7,6 +7,8 @@ use crate::{
     types::Type,
 };
 
+use itertools::Itertools;
+
 use std::io::{BufWriter, Write};
 
 impl Header {
@@ -62,34 +64,22 @@ impl Header {
             leap.format(w)?;
         }
 
+        // Glonass channels: by sorted vehicle, total count on first line only
         let num_channels = self.glo_channels.len();
+        let channels = self.glo_channels.iter().sorted().collect::<Vec<_>>();
 
-        if num_channels > 0 {
-            write!(w, "{:3} ", num_channels,)?;
-        }
-
-        let mut modulo = 0;
-        for (nth, (sv, channel)) in self.glo_channels.iter().enumerate() {
-            write!(w, "{:x} {:2} ", sv, channel,)?;
-
-            if nth == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                write!(w, "GLONASS SLOT / FRQ #\n    ")?;
+        for (nth, chunk) in channels.chunks(NUM_GLO_CHANNELS_PER_LINE).enumerate() {
+            let mut line = if nth == 0 {
+                format!("{:3} ", num_channels)
             } else {
-                if (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                    write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-                }
-            }
+                "    ".to_string()
+            };
 
-            modulo = nth % NUM_GLO_CHANNELS_PER_LINE;
-        }
+            for (sv, channel) in chunk.iter() {
+                line.push_str(&format!("{:x} {:2} ", sv, channel));
+            }
 
-        if modulo > 0 && modulo != NUM_GLO_CHANNELS_PER_LINE - 1 {
-            writeln!(
-                w,
-                "{:>width$}",
-                "GLONASS SLOT / FRQ #",
-                width = 79 - 9 - (modulo + 1) * 6
-            )?;
+            writeln!(w, "{}", fmt_rinex(line.trim_end(), "GLONASS SLOT / FRQ #"))?;
         }
 
         //TODO
@@ -160,14 +150,28 @@ impl Header {
                         )
                     )?;
                 },
+                Some(Constellation::GPS) => {
+                    writeln!(
+                        w,
+                        "{}",
+                        fmt_rinex(
+                            &format!(
+                                "{:6}.{:02}           OBSERVATION DATA    GPS",
+                                major, minor,
+                            ),
+                            "RINEX VERSION / TYPE"
+                        )
+                    )?;
+                },
                 Some(c) => {
+                    // system letter comes first
                     writeln!(
                         w,
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           OBSERVATION DATA    {:x<20}",
-                                major, minor, c
+                                "{:6}.{:02}           OBSERVATION DATA    {:x} ({})",
+                                major, minor, c, c
                             ),
                             "RINEX VERSION / TYPE"
                         )
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index f4dfcea..8cf4ce1 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -284,19 +284,18 @@ impl Header {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = content.split_at(20).0.trim();
-                geodetic_marker = Some(GeodeticMarker::default().with_name(name));
+                let marker = geodetic_marker.unwrap_or_default();
+                geodetic_marker = Some(marker.with_name(content.trim()));
             } else if marker.contains("MARKER NUMBER") {
                 let number = content.split_at(20).0.trim();
-                if let Some(ref mut marker) = geodetic_marker {
-                    *marker = marker.with_number(number);
-                }
+                let marker = geodetic_marker.unwrap_or_default();
+                geodetic_marker = Some(marker.with_number(number));
             } else if marker.contains("MARKER TYPE") {
                 let code = content.split_at(20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
-                    if let Some(ref mut marker) = geodetic_marker {
-                        marker.marker_type = Some(mtype);
-                    }
+                    let mut marker = geodetic_marker.unwrap_or_default();
+                    marker.marker_type = Some(mtype);
+                    geodetic_marker = Some(marker);
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
                 let (obs, ag) = content.split_at(20);
@@ -503,6 +502,10 @@ impl Header {
                 // Antenna Base/Reference Coordinates
                 let items: Vec<&str> = content.split_ascii_whitespace().collect();
 
+                if items.len() < 3 {
+                    return Err(ParsingError::AntennaCoordinates);
+                }
+
                 let x = items[0].trim();
                 let x = f64::from_str(x).or(Err(ParsingError::AntennaCoordinates))?;
 
@@ -519,9 +522,9 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = content.split_at(15);
-                let (e, rem) = rem.split_at(15);
-                let (n, _) = rem.split_at(15);
+                let (h, rem) = content.split_at(14);
+                let (e, rem) = rem.split_at(14);
+                let (n, _) = rem.split_at(14);
                 if let Ok(h) = f64::from_str(h.trim()) {
                     if let Ok(e) = f64::from_str(e.trim()) {
                         if let Ok(n) = f64::from_str(n.trim()) {
@@ -650,12 +653,18 @@ impl Header {
                 //TODO
                 // This should be used when dealing with Glonass carriers
 
-                let slots = content.split_at(4).1.trim();
-                for i in 0..num_integer::div_ceil(slots.len(), 7) {
-                    let svnn = &slots[i * 7..i * 7 + 4];
-                    let chx = &slots[i * 7 + 4..std::cmp::min(i * 7 + 4 + 3, slots.len())];
-                    if let Ok(svnn) = SV::from_str(svnn.trim()) {
-                        if let Ok(chx) = chx.trim().parse::<i8>() {
+                // fixed width description: vehicle (A1,I2), channel (I2)
+                let slots = content.split_at(4).1;
+                for slot in slots.as_bytes().chunks(7) {
+                    let slot = std::str::from_utf8(slot).unwrap_or_default();
+                    let mut items = slot.trim().rsplitn(2, ' ');
+                    let chx = items.next().unwrap_or_default().parse::<i8>();
+                    let svnn = items.next().unwrap_or_default().trim();
+                    if svnn.is_empty() {
+                        continue;
+                    }
+                    if let Ok(svnn) = SV::from_str(svnn) {
+                        if let Ok(chx) = chx {
                             glo_channels.insert(svnn, chx);
                         }
                     }
diff --git a/src/leap.rs b/src/leap.rs
index fbceb84..d3ec635 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -42,13 +42,8 @@ impl Leap {
             write!(w, "{:6}                   ", self.leap,)?;
         }
 
-        if let Some(ts) = self.timescale {
-            write!(w, "{:x}", ts)?;
-        } else {
-            write!(w, "   ")?;
-        }
-
-        writeln!(w, "                                LEAP SECONDS")?;
+        let system = self.timescale.map(|ts| format!("{:x}", ts));
+        writeln!(w, "{:<35}LEAP SECONDS", system.unwrap_or_default())?;
 
         Ok(())
     }
@@ -87,46 +82,32 @@ impl std::str::FromStr for Leap {
         let items = s.split_ascii_whitespace().collect::<Vec<_>>();
         let count = items.len();
 
-        if count < 3 {
-            // Simple / basic format
-            ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
-        } else {
-            // Complex / complete format
-            let (leap, rem) = s.split_at(5);
-            let (tls, rem) = rem.split_at(5);
-            let (week, rem) = rem.split_at(5);
-            let (day, rem) = rem.split_at(5);
-            let system = rem.trim();
-
-            ls.leap = leap
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            let tls = tls
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.delta_tls = Some(tls);
+        if count == 0 {
+            return Err(ParsingError::LeapParsing);
+        }
 
-            let week = week
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
+        ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
 
-            ls.week = Some(week);
+        if count > 3 {
+            // Complete format
+            ls.delta_tls = Some(items[1].parse::<u32>().or(Err(ParsingError::LeapParsing))?);
+            ls.week = Some(items[2].parse::<u32>().or(Err(ParsingError::LeapParsing))?);
 
-            let day = day
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
+            // timescale has no dedicated separator
+            let digits = items[3]
+                .find(|c: char| !c.is_ascii_digit())
+                .unwrap_or(items[3].len());
 
-            ls.day = Some(day);
+            let (day, system) = items[3].split_at(digits);
+            ls.day = Some(day.parse::<u32>().or(Err(ParsingError::LeapParsing))?);
 
-            if system.eq("") {
-                ls.timescale = None;
+            let system = if system.is_empty() {
+                items.get(4).copied().unwrap_or_default()
             } else {
+                system
+            };
+
+            if !system.is_empty() {
                 let ts = TimeScale::from_str(system)?;
                 ls.timescale = Some(ts);
             }
diff --git a/src/marker.rs b/src/marker.rs
index a0ad313..38b7948 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -61,7 +61,8 @@ pub enum MarkerType {
 impl std::str::FromStr for MarkerType {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s.to_lowercase().as_str() {
+        // standard keywords use underscores
+        match s.to_lowercase().replace('_', " ").as_str() {
             "geodetic" => Ok(Self::Geodetic),
             "non geodetic" => Ok(Self::NonGeodetic),
             "ground craft" => Ok(Self::Groundcraft),
@@ -69,6 +70,7 @@ impl std::str::FromStr for MarkerType {
             "airborne" => Ok(Self::Airborne),
             "non physical" => Ok(Self::NonPhysical),
             "spaceborne" => Ok(Self::Spaceborne),
+            "fixed buoy" => Ok(Self::FixedBuoy),
             "floating ice" => Ok(Self::FloatingIce),
             "floating buoy" => Ok(Self::FloatingBuoy),
             "glacier" => Ok(Self::Glacier),
@@ -84,7 +86,19 @@ impl std::fmt::Display for MarkerType {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
             Self::Geodetic => write!(f, "GEODETIC"),
-            _ => write!(f, "HUMAN"),
+            Self::NonGeodetic => write!(f, "NON_GEODETIC"),
+            Self::NonPhysical => write!(f, "NON_PHYSICAL"),
+            Self::Spaceborne => write!(f, "SPACEBORNE"),
+            Self::Airborne => write!(f, "AIRBORNE"),
+            Self::Watercraft => write!(f, "WATER_CRAFT"),
+            Self::Groundcraft => write!(f, "GROUND_CRAFT"),
+            Self::FixedBuoy => write!(f, "FIXED_BUOY"),
+            Self::FloatingBuoy => write!(f, "FLOATING_BUOY"),
+            Self::FloatingIce => write!(f, "FLOATING_ICE"),
+            Self::Glacier => write!(f, "GLACIER"),
+            Self::Ballistic => write!(f, "BALLISTIC"),
+            Self::Animal => write!(f, "ANIMAL"),
+            Self::Human => write!(f, "HUMAN"),
         }
     }
 }
@@ -119,7 +133,7 @@ impl GeodeticMarker {
         let mut s = self.clone();
         if content.len() == 9 && content.chars().nth(5) == Some('M') {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
-                if let Ok(monument) = u16::from_str_radix(&content[7..], 10) {
+                if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
                 }
-- 
2.43.0


From 9c8d49440dc0895eb201364985e56d89f78f153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 07/44] fix: reading of headers and records that are not plain
 ASCII, unreadable streams, comments of the record, system names

---
 src/error.rs          |  2 ++
 src/header/parsing.rs | 57 ++++++++++++++++++++++++++-------------
 src/lib.rs            | 62 ++++++++++++++++++++++++++++++++++---------
 src/record/parsing.rs | 41 ++++++++++++++--------------
 4 files changed, 111 insertions(+), 51 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d8c3507..e86fdc4 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -14,6 +14,8 @@ use crate::hatanaka::Error as HatanakaError;
 /// Errors that may rise in Parsing process
 #[derive(Debug, Error)]
 pub enum ParsingError {
+    #[error("i/o error")]
+    Io(#[from] IoError),
     #[error("header line too short (invalid)")]
     HeaderLineTooShort,
     #[error("empty epoch")]
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 8cf4ce1..fd81cce 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -19,13 +19,14 @@ use crate::{
     observable::Observable,
     observation::HeaderFields as ObservationHeader,
     prelude::{Constellation, Duration, Epoch, ParsingError, TimeScale, COSPAR, DOMES, SV},
+    read_rinex_line,
     types::Type,
     version::Version,
 };
 
 use std::{
     collections::HashMap,
-    io::{BufRead, BufReader, Read},
+    io::{BufReader, Read},
     str::FromStr,
 };
 
@@ -70,8 +71,17 @@ impl Header {
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
 
-        for l in reader.lines() {
-            let line = l.unwrap();
+        let mut line = String::with_capacity(128);
+
+        loop {
+            line.clear();
+
+            if read_rinex_line(reader, &mut line)? == 0 {
+                break; // end of stream
+            }
+
+            let line = line.trim_end_matches(['\n', '\r']);
+
             if line.len() < 60 {
                 continue; // --> invalid header content
             }
@@ -251,6 +261,16 @@ impl Header {
                     _ => {
                         // any other
                         // regular files
+                        // the system is one letter, possibly followed by its name
+                        let mut characters = constell_str.chars();
+                        let constell_str = match (characters.next(), characters.next()) {
+                            (Some(code), Some(sep))
+                                if code.is_ascii() && !sep.is_alphanumeric() =>
+                            {
+                                &constell_str[..1]
+                            },
+                            _ => constell_str,
+                        };
                         if let Ok(c) = Constellation::from_str(constell_str) {
                             constellation = Some(c);
                         }
@@ -620,13 +640,11 @@ impl Header {
                 let n = n.trim();
                 let n = n.parse::<u8>().or(Err(ParsingError::ClockTypeofData))?;
 
-                let mut rem = r;
-                for _ in 0..n {
-                    let (code, r) = rem.split_at(6);
+                for code in r.as_bytes().chunks(6).take(n as usize) {
+                    let code = std::str::from_utf8(code).unwrap_or_default();
                     if let Ok(c) = ClockProfileType::from_str(code.trim()) {
                         clock.codes.push(c);
                     }
-                    rem = r;
                 }
             } else if marker.contains("STATION NAME / NUM") {
                 let (name, domes) = content.split_at(4);
@@ -693,9 +711,10 @@ impl Header {
                         ] {
                             if let Some(correction) = ionod_corrections.get_mut(&c) {
                                 // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
-                                kb_model.alpha = alpha;
-                                kb_model.region = region;
+                                if let Some(kb_model) = correction.as_klobuchar_mut() {
+                                    kb_model.alpha = alpha;
+                                    kb_model.region = region;
+                                }
                             } else {
                                 ionod_corrections.insert(
                                     c,
@@ -732,8 +751,9 @@ impl Header {
                         ] {
                             if let Some(correction) = ionod_corrections.get_mut(&c) {
                                 // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
-                                kb_model.beta = beta;
+                                if let Some(kb_model) = correction.as_klobuchar_mut() {
+                                    kb_model.beta = beta;
+                                }
                             } else {
                                 ionod_corrections.insert(
                                     c,
@@ -778,12 +798,13 @@ impl Header {
                     })) => {
                         // KB requires two lines
                         if let Some(ionod_model) = ionod_corrections.get_mut(&constell) {
-                            let kb_model = ionod_model.as_klobuchar_mut().unwrap();
-                            if model_id.ends_with('A') {
-                                kb_model.alpha = alpha;
-                                kb_model.region = region;
-                            } else {
-                                kb_model.beta = beta;
+                            if let Some(kb_model) = ionod_model.as_klobuchar_mut() {
+                                if model_id.ends_with('A') {
+                                    kb_model.alpha = alpha;
+                                    kb_model.region = region;
+                                } else {
+                                    kb_model.beta = beta;
+                                }
                             }
                         } else {
                             // latch new model
diff --git a/src/lib.rs b/src/lib.rs
index 309b966..07bbfd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,7 +77,7 @@ mod tests;
 use std::{
     collections::HashMap,
     fs::File,
-    io::{BufReader, BufWriter, Read, Write},
+    io::{BufRead, BufReader, BufWriter, Read, Write},
     path::Path,
     str::FromStr,
 };
@@ -234,6 +234,46 @@ pub(crate) fn is_rinex_comment(content: &str) -> bool {
     content.len() > 60 && content.trim_end().ends_with("COMMENT")
 }
 
+/// Reads next line into `line`. RINEX is made of ASCII text in fixed columns: any other byte
+/// stands for one unknown character, except in free text that it does not misalign.
+pub(crate) fn read_rinex_line<R: BufRead>(
+    reader: &mut R,
+    line: &mut String,
+) -> Result<usize, std::io::Error> {
+    const FREE_TEXT: [&str; 6] = [
+        "COMMENT",
+        "PGM / RUN BY / DATE",
+        "OBSERVER / AGENCY",
+        "MARKER NAME",
+        "REC # / TYPE / VERS",
+        "ANT # / TYPE",
+    ];
+
+    let mut bytes = Vec::<u8>::with_capacity(128);
+    let size = reader.read_until(b'\n', &mut bytes)?;
+
+    match std::str::from_utf8(&bytes) {
+        Ok(text)
+            if text.is_ascii()
+                || ([20, 40].iter().all(|nth| text.is_char_boundary(*nth))
+                    && text
+                        .get(60..)
+                        .is_some_and(|label| FREE_TEXT.contains(&label.trim()))) =>
+        {
+            line.push_str(text);
+        },
+        _ => {
+            line.extend(
+                bytes
+                    .iter()
+                    .map(|b| if b.is_ascii() { char::from(*b) } else { '?' }),
+            );
+        },
+    }
+
+    Ok(size)
+}
+
 /*
  * macro to format one header line or a comment
  */
@@ -241,18 +281,14 @@ pub(crate) fn fmt_rinex(content: &str, marker: &str) -> String {
     if content.len() < 60 {
         format!("{:<padding$}{}", content, marker, padding = 60)
     } else {
-        let mut string = String::new();
-        let nb_lines = num_integer::div_ceil(content.len(), 60);
-        for i in 0..nb_lines {
-            let start_off = i * 60;
-            let end_off = std::cmp::min(start_off + 60, content.len());
-            let chunk = &content[start_off..end_off];
-            string.push_str(&format!("{:<padding$}{}", chunk, marker, padding = 60));
-            if i < nb_lines - 1 {
-                string.push('\n');
-            }
-        }
-        string
+        let characters = content.chars().collect::<Vec<_>>();
+        characters
+            .chunks(60)
+            .map(|chunk| {
+                let chunk = chunk.iter().collect::<String>();
+                format!("{:<padding$}{}", chunk, marker, padding = 60)
+            })
+            .join("\n")
     }
 }
 
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 2ea06b8..916601f 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -35,13 +35,14 @@ use crate::{
         Record as ObservationRecord,
     },
     prelude::{Constellation, Epoch, Header, ParsingError, TimeScale},
+    read_rinex_line,
     record::{Comments, Record},
     types::Type,
 };
 
 use std::{
     collections::BTreeMap,
-    io::{BufRead, BufReader, Read},
+    io::{BufReader, Read},
     str::from_utf8,
 };
 
@@ -166,6 +167,7 @@ impl Record {
         //  but others may exist:
         //  in this case we use the previously identified Epoch
         //  and attach other kinds of maps
+        let is_ionex = header.rinex_type == Type::IonosphereMaps;
         let mut ionex_rec = IonexRecord::new();
         let mut ionex_t = Epoch::default();
         let mut ionex_tec_exponent = Default::default();
@@ -181,8 +183,8 @@ impl Record {
         }
 
         // Iterate and consume, one line at a time
-        while let Ok(size) = reader.read_line(&mut line_buf) {
-            if size == 0 {
+        loop {
+            if read_rinex_line(reader, &mut line_buf)? == 0 {
                 // reached EOS
                 // we might still have something to process prior exiting
                 eos |= true;
@@ -200,12 +202,12 @@ impl Record {
 
             // (special case) IONEX exponent scaling:
             // keep up to date, so data interpretation remains correct
-            if line_buf.contains("EXPONENT") {
+            if is_ionex && line_buf.contains("EXPONENT") {
                 // we don't tolerate invalid scaling specs.
                 // This assures that data interpretation is always correct.
                 ionex_tec_exponent = line_buf
-                    .split_at(60)
-                    .0
+                    .get(..60)
+                    .unwrap_or_default()
                     .trim()
                     .parse::<i8>()
                     .map_err(|_| ParsingError::IonexScalingExponent)?;
@@ -216,26 +218,16 @@ impl Record {
             }
 
             // (special case) IONEX temporal classification
-            if line_buf.contains("EPOCH OF CURRENT MAP") {
+            if is_ionex && line_buf.contains("EPOCH OF CURRENT MAP") {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
-                ionex_t = parse_ionex_utc_epoch(line_buf.split_at(60).0)?;
+                ionex_t = parse_ionex_utc_epoch(line_buf.get(..60).unwrap_or_default())?;
 
                 // skip parsing
                 line_buf.clear();
                 continue;
             }
 
-            // (special case) COMMENTS: store as is
-            if line_buf.contains("COMMENT") {
-                let content = line_buf.split_at(60).0.trim();
-                if let Some(comments) = comments.get_mut(&comment_ts) {
-                    comments.push(content.to_string());
-                } else {
-                    comments.insert(comment_ts, vec![content.to_string()]);
-                }
-            }
-
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
@@ -343,8 +335,9 @@ impl Record {
                         },
 
                         Type::AntennaData => {
-                            let (antenna, content) = parse_antex_antenna(&epoch_buf).unwrap();
-                            atx_rec.push((antenna, content));
+                            if let Ok((antenna, content)) = parse_antex_antenna(&epoch_buf) {
+                                atx_rec.push((antenna, content));
+                            }
                         },
 
                         Type::IonosphereMaps => {
@@ -396,6 +389,14 @@ impl Record {
             // clear on new epoch detection
             if new_epoch {
                 epoch_buf.clear();
+
+                // store comments that were encountered
+                if !comment_content.is_empty() {
+                    comments
+                        .entry(comment_ts)
+                        .or_default()
+                        .append(&mut comment_content);
+                }
             }
 
             // always stack new content
-- 
2.43.0


From 1cadc94622ba1b5115d286b718a157c5544433ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 08/44] fix: header fields read in part or not written (antenna
 before its name, DOI, license, station, compensations, clock offset applied)

---
 src/header/formatting.rs  | 22 ++++++++++++++++++++++
 src/header/parsing.rs     | 10 ++++++----
 src/observation/header.rs | 15 +++++++++++----
 src/types.rs              |  2 +-
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index 09be7d6..ef46884 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -60,6 +60,28 @@ impl Header {
 
         self.format_sampling_interval(w)?;
 
+        for dcb in self.dcb_compensations.iter() {
+            let content = format!("{:x} {:<17} {}", dcb.constellation, dcb.program, dcb.url);
+            writeln!(w, "{}", fmt_rinex(&content, "SYS / DCBS APPLIED"))?;
+        }
+
+        for pcv in self.pcv_compensations.iter() {
+            let content = format!("{:x} {:<17} {}", pcv.constellation, pcv.program, pcv.url);
+            writeln!(w, "{}", fmt_rinex(&content, "SYS / PCVS APPLIED"))?;
+        }
+
+        if let Some(doi) = &self.doi {
+            writeln!(w, "{}", fmt_rinex(doi, "DOI"))?;
+        }
+
+        if let Some(license) = &self.license {
+            writeln!(w, "{}", fmt_rinex(license, "LICENSE OF USE"))?;
+        }
+
+        if let Some(url) = &self.station_url {
+            writeln!(w, "{}", fmt_rinex(url, "STATION INFORMATION"))?;
+        }
+
         if let Some(leap) = self.leap {
             leap.format(w)?;
         }
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index fd81cce..4c1656a 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -465,7 +465,7 @@ impl Header {
                 let parsed = Leap::from_str(leap_str)?;
                 leap = Some(parsed.clone());
             } else if marker.contains("DOI") {
-                let content = content.split_at(40).0.trim(); //  TODO: confirm please
+                let content = content.trim();
                 if content.len() > 0 {
                     doi = Some(content.to_string());
                 }
@@ -473,12 +473,12 @@ impl Header {
                 //TODO V > 3
                 // nb# of merged files
             } else if marker.contains("STATION INFORMATION") {
-                let url = content.split_at(40).0.trim(); //TODO confirm please
+                let url = content.trim();
                 if url.len() > 0 {
                     station_url = Some(url.to_string());
                 }
             } else if marker.contains("LICENSE OF USE") {
-                let lic = content.split_at(40).0.trim(); //TODO confirm please
+                let lic = content.trim();
                 if lic.len() > 0 {
                     license = Some(lic.to_string());
                 }
@@ -513,8 +513,10 @@ impl Header {
                 let (sn, rem) = content.split_at(20);
                 let (model, _) = rem.split_at(20);
 
+                // other antenna fields may come first
                 rcvr_antenna = Some(
-                    Antenna::default()
+                    rcvr_antenna
+                        .unwrap_or_default()
                         .with_model(model.trim())
                         .with_serial_number(sn.trim()),
                 );
diff --git a/src/observation/header.rs b/src/observation/header.rs
index 3d9acd4..86a4019 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -2,6 +2,7 @@
 
 use crate::{
     epoch::epoch_decompose as epoch_decomposition,
+    fmt_rinex,
     hatanaka::CRINEX,
     prelude::{Constellation, Epoch, FormattingError, Observable, TimeScale},
 };
@@ -50,7 +51,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF FIRST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:.3}         TIME OF FIRST OBS",
                 y,
                 m,
                 d,
@@ -58,7 +59,8 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                // three letter code ("QZSS" does not fit)
+                format!("{:x}", t.time_scale),
             )?;
         }
 
@@ -66,7 +68,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF LAST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:.3}         TIME OF LAST OBS",
                 y,
                 m,
                 d,
@@ -74,10 +76,15 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                // three letter code ("QZSS" does not fit)
+                format!("{:x}", t.time_scale),
             )?;
         }
 
+        if self.clock_offset_applied {
+            writeln!(w, "{}", fmt_rinex("     1", "RCV CLOCK OFFS APPL"))?;
+        }
+
         match major {
             1 | 2 => self.format_v1_observables(w)?,
             _ => self.format_v3_observables(w)?,
diff --git a/src/types.rs b/src/types.rs
index 3022f9c..eb0a8b0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -77,7 +77,7 @@ impl std::str::FromStr for Type {
         let s = s.to_lowercase();
         if s.eq("navigation data") || s.contains("nav data") {
             Ok(Self::NavigationData)
-        } else if s.eq("observation data") {
+        } else if s.eq("observation data") || s.eq("o") {
             Ok(Self::ObservationData)
         } else if s.eq("meteorological data") {
             Ok(Self::MeteoData)
-- 
2.43.0


From c5087729c487dd518bd6f5875e46cdc60b1c8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 09/44] fix: columns of navigation orbits (omitted fields, long
 and short lines, RINEX 4 Galileo spare)

---
 db/NAV/orbits.json                  |  4 +--
 src/navigation/ephemeris/parsing.rs | 43 ++++++++++-------------------
 2 files changed, 16 insertions(+), 31 deletions(-)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index 64f176e..c5609ce 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -364,11 +364,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
@@ -398,11 +398,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 6729d82..5840c13 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -34,52 +34,39 @@ fn parse_orbits(
 
     let fields = &nav_standards.items;
 
-    let mut key_index: usize = 0;
+    const FIELDS_PER_LINE: usize = 4;
+
     let word_size: usize = 19;
     let mut map: HashMap<String, OrbitItem> = HashMap::new();
 
-    for line in lines {
+    for (nth_line, line) in lines.enumerate() {
         // trim first few white spaces
-        let mut line: &str = match version.major < 3 {
-            true => &line[3..],
-            false => &line[4..],
+        let line = match version.major < 3 {
+            true => line.get(3..).unwrap_or_default(),
+            false => line.get(4..).unwrap_or_default(),
         };
 
-        let mut nb_missing = 4 - (line.len() / word_size);
-        // println!("LINE \"{}\" | NB MISSING {}", line, nb_missing); //DEBUG
-
-        loop {
-            if line.is_empty() {
-                key_index += nb_missing;
+        // fixed columns: any field may be omitted
+        for (nth, content) in line.as_bytes().chunks(word_size).enumerate() {
+            if nth == FIELDS_PER_LINE {
                 break;
             }
 
-            let (content, rem) = line.split_at(std::cmp::min(word_size, line.len()));
-            let content = content.trim();
-            // println!("CONTENT \"{}\"", content); // DEBUG
+            let content = std::str::from_utf8(content).unwrap_or_default().trim();
 
             // handle omitted fields
             if content.is_empty() {
-                // omitted field
-                key_index += 1;
-                nb_missing = nb_missing.saturating_sub(1);
-                line = rem;
                 continue;
             }
 
             // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000E+00") {
-                line = rem;
-                key_index += 1;
+            if content.starts_with("0.000000000000E+00")
+                || content.starts_with("0.000000000000D+00")
+            {
                 continue;
             }
 
-            // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000D+00") {
-                line = rem;
-                key_index += 1;
-                continue;
-            }
+            let key_index = nth_line * FIELDS_PER_LINE + nth;
 
             if let Some((key, token)) = fields.get(key_index) {
                 //println!(
@@ -96,8 +83,6 @@ fn parse_orbits(
                     }
                 }
             }
-            key_index += 1;
-            line = rem;
         }
     }
     Ok(map)
-- 
2.43.0


From 3d6e64067c7a9e1230c7ed55580ad8eb181d6070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 10/44] fix: short lines, blank vehicles and exponents of
 navigation messages, clocks, antennas, stations

---
 src/antex/record.rs                    | 39 ++++++++--------
 src/clock/mod.rs                       | 13 +++---
 src/clock/record.rs                    | 19 ++++----
 src/columns.rs                         | 27 +++++++++++
 src/doris/station.rs                   | 15 +++---
 src/hatanaka/crinex.rs                 |  9 ++--
 src/header/parsing.rs                  |  2 +-
 src/ionex/parsing.rs                   | 15 +++---
 src/lib.rs                             |  1 +
 src/meteo/sensor.rs                    |  9 ++--
 src/navigation/earth_orientation.rs    | 39 ++++++++--------
 src/navigation/ephemeris/parsing.rs    | 63 ++++++++-----------------
 src/navigation/ionosphere/bdgim.rs     | 33 ++++++-------
 src/navigation/ionosphere/klobuchar.rs | 33 ++++++-------
 src/navigation/ionosphere/mod.rs       | 65 +++++++++++++-------------
 src/navigation/ionosphere/nequick_g.rs | 15 +++---
 src/navigation/orbits.rs               | 14 +++---
 src/navigation/parsing/v4.rs           |  9 ++--
 src/navigation/system_time.rs          | 19 ++++----
 19 files changed, 229 insertions(+), 210 deletions(-)
 create mode 100644 src/columns.rs

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 2622f2b..d28b13d 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -2,6 +2,7 @@ use std::{collections::HashMap, str::FromStr};
 
 use crate::{
     antex::{Antenna, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna},
+    columns::{parse_sv, split_columns},
     linspace::Linspace,
     prelude::{Carrier, Epoch, ParsingError, COSPAR, SV},
 };
@@ -198,12 +199,12 @@ pub(crate) fn parse_antenna(
     let mut valid_from = Epoch::default();
 
     for line in lines {
-        let (content, marker) = line.split_at(60);
+        let (content, marker) = split_columns(line, 60);
         if marker.contains("TYPE / SERIAL NO") {
-            let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = rem.split_at(20 + 4);
-            let (block2, rem) = rem.split_at(10);
-            let (block3, _rem) = rem.split_at(10);
+            let (ant_igs, rem) = split_columns(content, 16); // IGS V.1.4 does not follow the specs ?
+            let (block1, rem) = split_columns(rem, 20 + 4);
+            let (block2, rem) = split_columns(rem, 10);
+            let (block3, _rem) = split_columns(rem, 10);
 
             let (block1, block2, block3) = (block1.trim(), block2.trim(), block3.trim());
             /*
@@ -212,7 +213,7 @@ pub(crate) fn parse_antenna(
             let specificities = match block2.is_empty() && block3.is_empty() {
                 false => AntennaSpecific::SvAntenna(SvAntenna {
                     igs_type: ant_igs.trim().to_string(),
-                    sv: SV::from_str(block1)?,
+                    sv: parse_sv(block1)?,
                     cospar: COSPAR::from_str(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
@@ -228,10 +229,10 @@ pub(crate) fn parse_antenna(
             };
             antenna = antenna.with_specificities(specificities);
         } else if marker.contains("METH / BY / # / DATE") {
-            let (method, rem) = content.split_at(20);
-            let (agency, rem) = rem.split_at(20);
-            let (number, rem) = rem.split_at(10); // N#
-            let (date, _) = rem.split_at(10);
+            let (method, rem) = split_columns(content, 20);
+            let (agency, rem) = split_columns(rem, 20);
+            let (number, rem) = split_columns(rem, 10); // N#
+            let (date, _) = split_columns(rem, 10);
 
             let cal = Calibration {
                 method: CalibrationMethod::from_str(method.trim()).unwrap(),
@@ -252,7 +253,7 @@ pub(crate) fn parse_antenna(
 
             antenna = antenna.with_validity_period(valid_from, valid_until);
         } else if marker.contains("SINEX CODE") {
-            let sinex = content.split_at(20).0;
+            let sinex = split_columns(content, 20).0;
 
             antenna.sinex_code = sinex.trim().to_string();
         } else if marker.contains("DAZI") {
@@ -266,13 +267,13 @@ pub(crate) fn parse_antenna(
              * it is easy to determine it from the current infrastructure
              */
         } else if marker.contains("START OF FREQUENCY") {
-            let svnn = content.split_at(10).0;
-            let sv = SV::from_str(svnn.trim())?;
+            let svnn = split_columns(content, 10).0;
+            let sv = parse_sv(svnn)?;
             frequency = Carrier::from_sv(sv)?;
         } else if marker.contains("NORTH / EAST / UP") {
-            let (north, rem) = content.split_at(10);
-            let (east, rem) = rem.split_at(10);
-            let (up, _) = rem.split_at(10);
+            let (north, rem) = split_columns(content, 10);
+            let (east, rem) = split_columns(rem, 10);
+            let (up, _) = split_columns(rem, 10);
 
             let north = north
                 .trim()
@@ -291,9 +292,9 @@ pub(crate) fn parse_antenna(
 
             freq_data.apc_eccentricity = (north, east, up);
         } else if marker.contains("ZEN1 / ZEN2 / DZEN") {
-            let (start, rem) = content.split_at(8);
-            let (end, rem) = rem.split_at(6);
-            let (spacing, _) = rem.split_at(6);
+            let (start, rem) = split_columns(content, 8);
+            let (end, rem) = split_columns(rem, 6);
+            let (spacing, _) = split_columns(rem, 6);
 
             let start = start
                 .trim()
diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 5b58c88..0673fd4 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -9,6 +9,7 @@ use std::{
 };
 
 use crate::{
+    columns::split_columns,
     fmt_rinex,
     prelude::{FormattingError, TimeScale, Version, DOMES},
 };
@@ -52,9 +53,9 @@ impl WorkClock {
     pub(crate) fn parse(version: Version, content: &str) -> Self {
         const LIMIT: Version = Version { major: 3, minor: 4 };
         if version < LIMIT {
-            let (name, rem) = content.split_at(4);
-            let (domes, rem) = rem.split_at(36);
-            let constraint = rem.split_at(20).0;
+            let (name, rem) = split_columns(content, 4);
+            let (domes, rem) = split_columns(rem, 36);
+            let constraint = split_columns(rem, 20).0;
             Self {
                 name: name.trim().to_string(),
                 domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
@@ -69,9 +70,9 @@ impl WorkClock {
                 },
             }
         } else {
-            let (name, rem) = content.split_at(10);
-            let (domes, rem) = rem.split_at(10);
-            let constraint = rem.split_at(40).0;
+            let (name, rem) = split_columns(content, 10);
+            let (domes, rem) = split_columns(rem, 10);
+            let constraint = split_columns(rem, 40).0;
             Self {
                 name: name.trim().to_string(),
                 domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
diff --git a/src/clock/record.rs b/src/clock/record.rs
index 6d58249..9949b88 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -3,6 +3,7 @@ use thiserror::Error;
 use std::{collections::BTreeMap, str::FromStr};
 
 use crate::{
+    columns::{parse_sv, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale, Version, SV},
 };
@@ -159,15 +160,15 @@ pub(crate) fn parse_epoch(
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
 
     const LIMIT: Version = Version { major: 3, minor: 4 };
-    let (dtype, mut rem) = line.split_at(3);
+    let (dtype, mut rem) = split_columns(line, 3);
     let profile_type = ClockProfileType::from_str(dtype.trim())?;
 
     let clock_type = match version < LIMIT {
         true => {
             // old revision
-            let (system_str, r) = rem.split_at(5);
+            let (system_str, r) = split_columns(rem, 5);
             rem = r;
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
+            if let Ok(svnn) = parse_sv(system_str) {
                 ClockType::SV(svnn)
             } else {
                 ClockType::Station(system_str.trim().to_string())
@@ -175,14 +176,14 @@ pub(crate) fn parse_epoch(
         },
         false => {
             // modern revision
-            let (system_str, r) = rem.split_at(4);
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                let (_, r) = r.split_at(6);
+            let (system_str, r) = split_columns(rem, 4);
+            if let Ok(svnn) = parse_sv(system_str) {
+                let (_, r) = split_columns(r, 6);
                 rem = r;
                 ClockType::SV(svnn)
             } else {
                 let mut content = system_str.to_owned();
-                let (remainder, r) = r.split_at(6);
+                let (remainder, r) = split_columns(r, 6);
                 rem = r;
                 content.push_str(remainder);
                 ClockType::Station(content.trim().to_string())
@@ -193,11 +194,11 @@ pub(crate) fn parse_epoch(
     // Epoch: Y on 4 digits, even on RINEX2
     const OFFSET: usize = "yyyy mm dd hh mm sssssssssss".len();
 
-    let (epoch, rem) = rem.split_at(OFFSET);
+    let (epoch, rem) = split_columns(rem, OFFSET);
     let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
     // nb of data fields
-    let (_n, rem) = rem.split_at(4);
+    let (_n, rem) = split_columns(rem, 4);
 
     // data fields
     let mut profile = ClockProfile::default();
diff --git a/src/columns.rs b/src/columns.rs
new file mode 100644
index 0000000..637147a
--- /dev/null
+++ b/src/columns.rs
@@ -0,0 +1,27 @@
+//! Fixed columns helpers: any column of a line may be omitted.
+
+use crate::prelude::{Constellation, ParsingError, SV};
+
+/// Splits this line at the n-th column.
+/// Columns past the end of the line are omitted (blank) columns.
+pub(crate) fn split_columns(line: &str, n: usize) -> (&str, &str) {
+    let mut n = n.min(line.len());
+    while !line.is_char_boundary(n) {
+        n -= 1;
+    }
+    line.split_at(n)
+}
+
+/// Parses a floating point value, all notations of the exponent
+/// (FORTRAN included) being supported.
+pub(crate) fn parse_float(value: &str) -> Result<f64, std::num::ParseFloatError> {
+    value.trim().replace(['D', 'd'], "E").parse::<f64>()
+}
+
+/// Parses one vehicle, which may be omitted.
+pub(crate) fn parse_sv(value: &str) -> Result<SV, ParsingError> {
+    let value = value.trim();
+    let (system, _) = split_columns(value, 1);
+    let _ = system.parse::<Constellation>()?;
+    Ok(value.parse::<SV>()?)
+}
diff --git a/src/doris/station.rs b/src/doris/station.rs
index c176719..06ba610 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -1,4 +1,5 @@
 //! DORIS Station
+use crate::columns::split_columns;
 use crate::prelude::{ParsingError, DOMES};
 
 /// DORIS Ground [Station] description.
@@ -40,13 +41,13 @@ impl std::str::FromStr for Station {
             return Err(ParsingError::DorisStationFormat);
         }
 
-        let content = content.split_at(1).1;
-        let (key, rem) = content.split_at(4);
-        let (label, rem) = rem.split_at(5);
-        let (name, rem) = rem.split_at(30);
-        let (domes, rem) = rem.split_at(10);
-        let (gen, rem) = rem.split_at(3);
-        let (k_factor, _) = rem.split_at(3);
+        let content = split_columns(content, 1).1;
+        let (key, rem) = split_columns(content, 4);
+        let (label, rem) = split_columns(rem, 5);
+        let (name, rem) = split_columns(rem, 30);
+        let (domes, rem) = split_columns(rem, 10);
+        let (gen, rem) = split_columns(rem, 3);
+        let (k_factor, _) = split_columns(rem, 3);
 
         Ok(Station {
             site: name.trim().to_string(),
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 9010148..8301242 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -1,5 +1,6 @@
 //! CRINEX Header definitions
 use crate::{
+    columns::split_columns,
     epoch::now as epoch_now_utc,
     epoch::parse_formatted_month,
     prelude::{Epoch, FormattingError, ParsingError, Version},
@@ -91,9 +92,9 @@ impl CRINEX {
             return Err(ParsingError::HeaderLineTooShort);
         }
 
-        let (prog, rem) = prog_date.split_at(20);
-        let (_, rem) = rem.split_at(20);
-        let datetime_str = rem.split_at(20).0.trim();
+        let (prog, rem) = split_columns(prog_date, 20);
+        let (_, rem) = split_columns(rem, 20);
+        let datetime_str = split_columns(rem, 20).0.trim();
 
         let mut i = 0;
         let mut year = 2000_i32; // CRINEX: Y2000
@@ -182,7 +183,7 @@ impl std::str::FromStr for CRINEX {
                 if line.len() < 60 {
                     return Err(ParsingError::HeaderLineTooShort);
                 }
-                let vers = line.split_at(20).0.trim();
+                let vers = split_columns(line, 20).0.trim();
                 let version = Version::from_str(vers)?;
                 crinex = crinex.with_version(version);
             } else {
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 4c1656a..0201fef 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -178,7 +178,7 @@ impl Header {
                     let (model, rem) = content.split_at(10);
                     let (svnn, rem) = rem.split_at(10);
                     let (cospar, _) = rem.split_at(10);
-                    if let Ok(sv) = SV::from_str(svnn.trim()) {
+                    if let Ok(sv) = crate::columns::parse_sv(svnn) {
                         if let Some(a) = &mut sv_antenna {
                             *a = a
                                 .with_sv(sv)
diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index a34f01d..01d58da 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -1,6 +1,7 @@
 //! IONEX maps parsing
 
 use crate::{
+    columns::split_columns,
     ionex::{IonexKey, Quantized, QuantizedCoordinates, Record, TEC},
     prelude::{Epoch, ParsingError},
 };
@@ -23,14 +24,14 @@ pub fn is_new_height_map(line: &str) -> bool {
 /// - long_spacing [ddeg]
 /// - fixed_altitude [km]
 fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
-    let (fixed_lat, rem) = line[2..].split_at(6);
+    let (fixed_lat, rem) = split_columns(split_columns(line, 2).1, 6);
 
     let fixed_lat = fixed_lat
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
-    let (long1, rem) = rem.split_at(6);
+    let (long1, rem) = split_columns(rem, 6);
 
     let long1 = long1
         .trim()
@@ -38,16 +39,16 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
     // lon2 field is not used, we iterate using spacing starting @long1
-    let (_, rem) = rem.split_at(6);
+    let (_, rem) = split_columns(rem, 6);
 
-    let (long_spacing, rem) = rem.split_at(6);
+    let (long_spacing, rem) = split_columns(rem, 6);
 
     let long_spacing = long_spacing
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::IonexGridCoordinates)?;
 
-    let (fixed_alt, _) = rem.split_at(6);
+    let (fixed_alt, _) = split_columns(rem, 6);
 
     let fixed_alt = fixed_alt
         .trim()
@@ -86,7 +87,7 @@ pub fn parse_tec_map(
 
     for line in lines {
         if line.len() > 60 {
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = split_columns(line, 60);
 
             // Handle special cases
             // * data scaler update
@@ -173,7 +174,7 @@ pub fn parse_rms_map(
 
     for line in lines {
         if line.len() > 60 {
-            let marker = line.split_at(60).1;
+            let marker = split_columns(line, 60).1;
             if marker.contains("END OF RMS MAP") {
                 return Ok(());
             } else if marker.contains("EXPONENT") {
diff --git a/src/lib.rs b/src/lib.rs
index 07bbfd9..a9cb408 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -46,6 +46,7 @@ pub mod types;
 pub mod version;
 
 mod bibliography;
+mod columns;
 mod constants;
 mod epoch;
 mod error;
diff --git a/src/meteo/sensor.rs b/src/meteo/sensor.rs
index 71197c9..12f6652 100644
--- a/src/meteo/sensor.rs
+++ b/src/meteo/sensor.rs
@@ -1,4 +1,5 @@
 //! Meteo sensor
+use crate::columns::split_columns;
 use crate::prelude::{Observable, ParsingError};
 
 #[cfg(feature = "nav")]
@@ -85,10 +86,10 @@ impl Render for Sensor {
 impl std::str::FromStr for Sensor {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
-        let (model, rem) = content.split_at(20);
-        let (s_type, rem) = rem.split_at(20 + 6);
-        let (accuracy, rem) = rem.split_at(7 + 4);
-        let (observable, _) = rem.split_at(2);
+        let (model, rem) = split_columns(content, 20);
+        let (s_type, rem) = split_columns(rem, 20 + 6);
+        let (accuracy, rem) = split_columns(rem, 7 + 4);
+        let (observable, _) = split_columns(rem, 2);
         Ok(Self {
             model: {
                 if !model.trim().is_empty() {
diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index b78c038..55ad4dd 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -1,6 +1,7 @@
 //! Earth Orientation NAV frames
 
 use crate::{
+    columns::{parse_float, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
 };
@@ -28,38 +29,38 @@ impl EarthOrientation {
         line_3: &str,
         ts: TimeScale,
     ) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (xp, rem) = rem.split_at(19);
-        let (dxp, ddxp) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line_1, 23);
+        let (xp, rem) = split_columns(rem, 19);
+        let (dxp, ddxp) = split_columns(rem, 19);
 
-        let (_, rem) = line_2.split_at(23);
-        let (yp, rem) = rem.split_at(19);
-        let (dyp, ddyp) = rem.split_at(19);
+        let (_, rem) = split_columns(line_2, 23);
+        let (yp, rem) = split_columns(rem, 19);
+        let (dyp, ddyp) = split_columns(rem, 19);
 
-        let (t_tm, rem) = line_3.split_at(23);
-        let (dut, rem) = rem.split_at(19);
-        let (ddut, dddut) = rem.split_at(19);
+        let (t_tm, rem) = split_columns(line_3, 23);
+        let (dut, rem) = split_columns(rem, 19);
+        let (ddut, dddut) = split_columns(rem, 19);
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let x = (
-            f64::from_str(xp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dxp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddxp.trim()).unwrap_or(0.0_f64),
+            parse_float(xp).unwrap_or(0.0_f64),
+            parse_float(dxp).unwrap_or(0.0_f64),
+            parse_float(ddxp).unwrap_or(0.0_f64),
         );
 
         let y = (
-            f64::from_str(yp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dyp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddyp.trim()).unwrap_or(0.0_f64),
+            parse_float(yp).unwrap_or(0.0_f64),
+            parse_float(dyp).unwrap_or(0.0_f64),
+            parse_float(ddyp).unwrap_or(0.0_f64),
         );
 
-        let t_tm = f64::from_str(t_tm.trim()).unwrap_or(0.0_f64);
+        let t_tm = parse_float(t_tm).unwrap_or(0.0_f64);
 
         let delta_ut1 = (
-            f64::from_str(dut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dddut.trim()).unwrap_or(0.0_f64),
+            parse_float(dut).unwrap_or(0.0_f64),
+            parse_float(ddut).unwrap_or(0.0_f64),
+            parse_float(dddut).unwrap_or(0.0_f64),
         );
 
         Ok((
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 5840c13..843a255 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns::{parse_float, parse_sv, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     navigation::{orbits::closest_nav_standards, Ephemeris, NavMessageType, OrbitItem},
     prelude::{Constellation, Epoch, ParsingError, TimeScale, Version, SV},
@@ -105,12 +106,12 @@ impl Ephemeris {
             false => 4,
         };
 
-        let (svnn, rem) = line.split_at(svnn_offset);
-        let (date, rem) = rem.split_at(19);
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
+        let (svnn, rem) = split_columns(line, svnn_offset);
+        let (date, rem) = split_columns(rem, 19);
+        let (clk_bias, rem) = split_columns(rem, 19);
+        let (clk_dr, clk_drr) = split_columns(rem, 19);
 
-        let sv = match svnn.trim().parse::<SV>() {
+        let sv = match parse_sv(svnn) {
             Ok(sv) => sv,
             Err(_) => {
                 // In very old RINex, it is possible to wind up here
@@ -130,23 +131,11 @@ impl Ephemeris {
 
         let epoch = parse_epoch_in_timescale(date.trim(), ts)?;
 
-        let clock_bias = clk_bias
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let clock_bias = parse_float(clk_bias).map_err(|_| ParsingError::ClockParsing)?;
 
-        let clock_drift = clk_dr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let clock_drift = parse_float(clk_dr).map_err(|_| ParsingError::ClockParsing)?;
 
-        let mut clock_drift_rate = clk_drr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let mut clock_drift_rate = parse_float(clk_drr).map_err(|_| ParsingError::ClockParsing)?;
 
         // parse orbits :
         //  only Legacy Frames in V2 and V3 (old) RINEX
@@ -186,31 +175,19 @@ impl Ephemeris {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (svnn, rem) = line.split_at(4);
-        let sv = svnn.trim().parse::<SV>()?;
-        let (epoch, rem) = rem.split_at(19);
+        let (svnn, rem) = split_columns(line, 4);
+        let sv = parse_sv(svnn)?;
+        let (epoch, rem) = split_columns(rem, 19);
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
-
-        let clock_bias = clk_bias
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let clock_drift = clk_dr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let mut clock_drift_rate = clk_drr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let (clk_bias, rem) = split_columns(rem, 19);
+        let (clk_dr, clk_drr) = split_columns(rem, 19);
+
+        let clock_bias = parse_float(clk_bias).map_err(|_| ParsingError::ClockParsing)?;
+
+        let clock_drift = parse_float(clk_dr).map_err(|_| ParsingError::ClockParsing)?;
+
+        let mut clock_drift_rate = parse_float(clk_drr).map_err(|_| ParsingError::ClockParsing)?;
 
         let mut orbits =
             parse_orbits(Version { major: 4, minor: 0 }, msg, sv.constellation, lines)?;
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 140726b..91c1542 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns::{parse_float, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
 };
@@ -24,36 +25,36 @@ impl BdModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, a2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (a4, rem) = rem.split_at(19);
-        let (a5, a6) = rem.split_at(19);
+        let (a3, rem) = split_columns(line, 23);
+        let (a4, rem) = split_columns(rem, 19);
+        let (a5, a6) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a7, a8) = line.split_at(23);
+        let (a7, a8) = split_columns(line, 23);
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a4.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a5.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a6.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a7.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a8.trim()).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a0).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a1).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a2).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a3).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a4).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a5).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a6).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a7).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a8).map_err(|_| ParsingError::BdgimData)?,
         );
 
         Ok((epoch, Self { alpha }))
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 52707aa..30e55d7 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns::{parse_float, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
 };
@@ -47,28 +48,28 @@ impl KbModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, a2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (b0, rem) = rem.split_at(19);
-        let (b1, b2) = rem.split_at(19);
+        let (a3, rem) = split_columns(line, 23);
+        let (b0, rem) = split_columns(rem, 19);
+        let (b1, b2) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (b3, region) = line.split_at(23);
+        let (b3, region) = split_columns(line, 23);
 
         let region: KbRegionCode = match region.trim().len() {
             0 => KbRegionCode::Worldwide,
             _ => {
-                if let Ok(f) = f64::from_str(region.trim()) {
+                if let Ok(f) = parse_float(region) {
                     let code = f as u8;
                     if code == 1 {
                         KbRegionCode::Japan
@@ -83,16 +84,16 @@ impl KbModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a3).map_err(|_| ParsingError::KlobucharData)?,
         );
         let beta = (
-            f64::from_str(b0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b3).map_err(|_| ParsingError::KlobucharData)?,
         );
 
         Ok((
diff --git a/src/navigation/ionosphere/mod.rs b/src/navigation/ionosphere/mod.rs
index 5aaba79..bb5dbe0 100644
--- a/src/navigation/ionosphere/mod.rs
+++ b/src/navigation/ionosphere/mod.rs
@@ -1,3 +1,4 @@
+use crate::columns::{parse_float, split_columns};
 use crate::prelude::ParsingError;
 
 use std::str::FromStr;
@@ -33,18 +34,18 @@ impl IonosphereModel {
     /// In this case, it will apply for the entire day course.
     /// Two models may exist: Klobuchar and NequickG.
     pub(crate) fn from_rinex3_header(header: &str) -> Result<Self, ParsingError> {
-        let (system, rem) = header.split_at(5);
+        let (system, rem) = split_columns(header, 5);
         match system.trim() {
             /*
              * Models that only needs 3 fields
              */
             "GAL" => {
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, _) = rem.split_at(12);
-                let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?;
-                let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?;
-                let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::NequickGData)?;
+                let (a0, rem) = split_columns(rem, 12);
+                let (a1, rem) = split_columns(rem, 12);
+                let (a2, _) = split_columns(rem, 12);
+                let a0 = parse_float(a0).map_err(|_| ParsingError::NequickGData)?;
+                let a1 = parse_float(a1).map_err(|_| ParsingError::NequickGData)?;
+                let a2 = parse_float(a2).map_err(|_| ParsingError::NequickGData)?;
                 Ok(Self::NequickG(NgModel {
                     a: (a0, a1, a2),
                     // TODO: is this not the 4th field? double check
@@ -55,10 +56,10 @@ impl IonosphereModel {
                 /*
                  * Model has 4 fields
                  */
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, rem) = rem.split_at(12);
-                let (a3, _) = rem.split_at(12);
+                let (a0, rem) = split_columns(rem, 12);
+                let (a1, rem) = split_columns(rem, 12);
+                let (a2, rem) = split_columns(rem, 12);
+                let (a3, _) = split_columns(rem, 12);
                 // World or QZSS special orbital plan
                 let region = match system.contains("QZS") {
                     true => KbRegionCode::Japan,
@@ -66,10 +67,10 @@ impl IonosphereModel {
                 };
                 /* determine which field we're dealing with */
                 if system.ends_with('A') {
-                    let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let a3 = f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?;
+                    let a0 = parse_float(a0).map_err(|_| ParsingError::KlobucharData)?;
+                    let a1 = parse_float(a1).map_err(|_| ParsingError::KlobucharData)?;
+                    let a2 = parse_float(a2).map_err(|_| ParsingError::KlobucharData)?;
+                    let a3 = parse_float(a3).map_err(|_| ParsingError::KlobucharData)?;
 
                     Ok(Self::Klobuchar(KbModel {
                         alpha: (a0, a1, a2, a3),
@@ -77,10 +78,10 @@ impl IonosphereModel {
                         region,
                     }))
                 } else {
-                    let b0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let b1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let b2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let b3 = f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?;
+                    let b0 = parse_float(a0).map_err(|_| ParsingError::KlobucharData)?;
+                    let b1 = parse_float(a1).map_err(|_| ParsingError::KlobucharData)?;
+                    let b2 = parse_float(a2).map_err(|_| ParsingError::KlobucharData)?;
+                    let b3 = parse_float(a3).map_err(|_| ParsingError::KlobucharData)?;
                     Ok(Self::Klobuchar(KbModel {
                         alpha: (0.0_f64, 0.0_f64, 0.0_f64, 0.0_f64),
                         beta: (b0, b1, b2, b3),
@@ -96,17 +97,17 @@ impl IonosphereModel {
     /// Only the Klobuchar model may exist.
     pub(crate) fn from_rinex2_header(header: &str, marker: &str) -> Result<Self, ParsingError> {
         let header = header.replace("d", "e").replace("D", "E");
-        let (_, rem) = header.split_at(2);
-        let (a0, rem) = rem.split_at(12);
-        let (a1, rem) = rem.split_at(12);
-        let (a2, rem) = rem.split_at(12);
-        let (a3, _) = rem.split_at(12);
+        let (_, rem) = split_columns(&header, 2);
+        let (a0, rem) = split_columns(rem, 12);
+        let (a1, rem) = split_columns(rem, 12);
+        let (a2, rem) = split_columns(rem, 12);
+        let (a3, _) = split_columns(rem, 12);
 
         if marker.contains("ALPHA") {
-            let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let a3 = f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?;
+            let a0 = parse_float(a0).map_err(|_| ParsingError::KlobucharData)?;
+            let a1 = parse_float(a1).map_err(|_| ParsingError::KlobucharData)?;
+            let a2 = parse_float(a2).map_err(|_| ParsingError::KlobucharData)?;
+            let a3 = parse_float(a3).map_err(|_| ParsingError::KlobucharData)?;
 
             Ok(Self::Klobuchar(KbModel {
                 alpha: (a0, a1, a2, a3),
@@ -115,10 +116,10 @@ impl IonosphereModel {
             }))
         } else {
             // Assume marker.contains("BETA")
-            let b0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let b1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let b2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let b3 = f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?;
+            let b0 = parse_float(a0).map_err(|_| ParsingError::KlobucharData)?;
+            let b1 = parse_float(a1).map_err(|_| ParsingError::KlobucharData)?;
+            let b2 = parse_float(a2).map_err(|_| ParsingError::KlobucharData)?;
+            let b3 = parse_float(a3).map_err(|_| ParsingError::KlobucharData)?;
 
             Ok(Self::Klobuchar(KbModel {
                 alpha: (0.0_f64, 0.0_f64, 0.0_f64, 0.0_f64),
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 8980a78..dbcebab 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns::{parse_float, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
 };
@@ -41,9 +42,9 @@ impl NgModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, rem) = rem.split_at(19);
+        let (epoch, rem) = split_columns(line, 23);
+        let (a0, rem) = split_columns(rem, 19);
+        let (a1, rem) = split_columns(rem, 19);
 
         let line = match lines.next() {
             Some(l) => l,
@@ -52,11 +53,11 @@ impl NgModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let a = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(rem.trim()).map_err(|_| ParsingError::NequickGData)?,
+            parse_float(a0).map_err(|_| ParsingError::NequickGData)?,
+            parse_float(a1).map_err(|_| ParsingError::NequickGData)?,
+            parse_float(rem).map_err(|_| ParsingError::NequickGData)?,
         );
-        let f = f64::from_str(line.trim()).map_err(|_| ParsingError::NequickGData)?;
+        let f = parse_float(line).map_err(|_| ParsingError::NequickGData)?;
         Ok((
             epoch,
             Self {
diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index 808e657..7de6d0f 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -4,7 +4,7 @@ use bitflags::bitflags;
 use num::FromPrimitive;
 use std::str::FromStr;
 
-use crate::prelude::ParsingError;
+use crate::{columns::parse_float, prelude::ParsingError};
 
 include!(concat!(env!("OUT_DIR"), "/nav_orbits.rs"));
 
@@ -76,30 +76,30 @@ impl OrbitItem {
         match type_desc {
             "u8" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = parse_float(content)
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 Ok(OrbitItem::U8(float as u8))
             },
             "i8" => {
                 // float->signed conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = parse_float(content)
                     .map_err(|_| ParsingError::OrbitSignedData)?;
                 Ok(OrbitItem::I8(float as i8))
             },
             "u32" => {
                 // float->signed conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = parse_float(content)
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 Ok(OrbitItem::U32(float as u32))
             },
             "f64" => {
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = parse_float(content)
                     .map_err(|_| ParsingError::OrbitFloatData)?;
                 Ok(OrbitItem::F64(float))
             },
             "gloStatus" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = parse_float(content)
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
                 let status = GloStatus::from_bits(unsigned).unwrap_or(GloStatus::empty());
@@ -107,7 +107,7 @@ impl OrbitItem {
             },
             "health" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = parse_float(content)
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
                 match constellation {
diff --git a/src/navigation/parsing/v4.rs b/src/navigation/parsing/v4.rs
index b9022d9..60e1a4a 100644
--- a/src/navigation/parsing/v4.rs
+++ b/src/navigation/parsing/v4.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns::{parse_sv, split_columns},
     navigation::{
         BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame, NavFrameType,
         NavKey, NavMessageType, NgModel, SystemTime,
@@ -16,13 +17,13 @@ pub fn parse(content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
         _ => return Err(ParsingError::EmptyEpoch),
     };
 
-    let (_, rem) = line.split_at(2);
-    let (class, rem) = rem.split_at(4);
-    let (svnn, rem) = rem.split_at(4);
+    let (_, rem) = split_columns(line, 2);
+    let (class, rem) = split_columns(rem, 4);
+    let (svnn, rem) = split_columns(rem, 4);
 
     // frmtype defines message to follow
     let frmtype = class.trim().parse::<NavFrameType>()?;
-    let sv = svnn.trim().parse::<SV>()?;
+    let sv = parse_sv(svnn)?;
     let msgtype = rem.trim().parse::<NavMessageType>()?;
 
     let ts = sv
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index e7b66a1..f0019a8 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -5,6 +5,7 @@ use std::str::FromStr;
 use serde::{Deserialize, Serialize};
 
 use crate::{
+    columns::{parse_float, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale},
 };
@@ -25,15 +26,15 @@ pub struct SystemTime {
 
 impl SystemTime {
     pub fn parse(line_1: &str, line_2: &str, ts: TimeScale) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (system, rem) = rem.split_at(5);
+        let (epoch, rem) = split_columns(line_1, 23);
+        let (system, rem) = split_columns(rem, 5);
         let utc = rem.trim().to_string();
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-        let (a0, rem) = line_2.split_at(23);
-        let (a1, rem) = rem.split_at(19);
-        let (a2, time) = rem.split_at(19);
-        let t_tm = f64::from_str(time.trim()).map_err(|_| ParsingError::SystemTimeData)?;
+        let (a0, rem) = split_columns(line_2, 23);
+        let (a1, rem) = split_columns(rem, 19);
+        let (a2, time) = split_columns(rem, 19);
+        let t_tm = parse_float(time).map_err(|_| ParsingError::SystemTimeData)?;
 
         Ok((
             epoch,
@@ -42,9 +43,9 @@ impl SystemTime {
                 system: system.trim().to_string(),
                 t_tm: t_tm as u32,
                 a: (
-                    f64::from_str(a0.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a1.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a2.trim()).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_float(a0).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_float(a1).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_float(a2).map_err(|_| ParsingError::SystemTimeData)?,
                 ),
             },
         ))
-- 
2.43.0


From 33285f51fb427189e282f0a7eeeab09e746acb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 11/44] fix: system of navigation files, Galileo health bits,
 missing system on formatting

---
 src/header/formatting.rs | 4 ++--
 src/header/parsing.rs    | 6 +++++-
 src/navigation/health.rs | 7 ++++---
 src/navigation/orbits.rs | 2 +-
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index ef46884..4c0f145 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -156,7 +156,7 @@ impl Header {
                         )
                     )?;
                 },
-                _ => panic!("constellation must be specified when formatting a NavigationData"),
+                _ => return Err(FormattingError::NoConstellationDefinition),
             },
             Type::ObservationData => match self.constellation {
                 Some(Constellation::Mixed) => {
@@ -199,7 +199,7 @@ impl Header {
                         )
                     )?;
                 },
-                _ => panic!("constellation must be specified when formatting ObservationData"),
+                _ => return Err(FormattingError::NoConstellationDefinition),
             },
             Type::MeteoData => {
                 writeln!(
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 0201fef..afcbbb8 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -242,7 +242,11 @@ impl Header {
                         } else if type_str.contains("IRNSS NAV DATA") {
                             constellation = Some(Constellation::IRNSS);
                         } else if type_str.contains("GNSS NAV DATA") {
-                            constellation = Some(Constellation::Mixed);
+                            // system is one letter, possibly followed by its name
+                            constellation = constell_str
+                                .get(..1)
+                                .and_then(|code| Constellation::from_str(code).ok())
+                                .or(Some(Constellation::Mixed));
                         } else if type_str.eq("NAVIGATION DATA") {
                             if constell_str.is_empty() {
                                 // old GPS NAVIGATION DATA
diff --git a/src/navigation/health.rs b/src/navigation/health.rs
index c56a325..512b916 100644
--- a/src/navigation/health.rs
+++ b/src/navigation/health.rs
@@ -90,15 +90,16 @@ bitflags! {
     #[derive(Debug, Default, Copy, Clone)]
     #[derive(PartialEq, PartialOrd)]
     #[cfg_attr(feature = "serde", derive(Serialize))]
-    pub struct GalHealth: u8 {
+    pub struct GalHealth: u16 {
         const E1B_DVS = 0x01;
         const E1B_HS0 = 0x02;
         const E1B_HS1 = 0x04;
         const E5A_DVS = 0x08;
         const E5A_HS0 = 0x10;
         const E5A_HS1 = 0x20;
-        const E5B_HS0 = 0x40;
-        const E5B_HS1 = 0x80;
+        const E5B_DVS = 0x40;
+        const E5B_HS0 = 0x80;
+        const E5B_HS1 = 0x100;
     }
 }
 
diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index 7de6d0f..419d238 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -122,7 +122,7 @@ impl OrbitItem {
                         Ok(OrbitItem::GloHealth(flag))
                     },
                     Constellation::Galileo => {
-                        let flags = health::GalHealth::from_bits(unsigned as u8)
+                        let flags = health::GalHealth::from_bits(unsigned as u16)
                             .unwrap_or(health::GalHealth::empty());
                         Ok(OrbitItem::GalHealth(flags))
                     },
-- 
2.43.0


From 037096474eb166f8fea4704f135cd4ee35886baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 12/44] fix: order of ionospheric correction lines

---
 src/header/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index afcbbb8..5af9049 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -781,7 +781,7 @@ impl Header {
                  * RINEX4 replaces that with actual file content (body) for improved correction accuracy.
                  * The description requires 2 lines when dealing with KB model and we tolerate order mixup.
                  */
-                let model_id = content.split_at(5).0;
+                let model_id = content.split_at(5).0.trim();
                 if model_id.len() < 3 {
                     /* BAD RINEX */
                     continue;
-- 
2.43.0


From f560a91ff6ad7591d3fa1d90a4550495d0b8d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 13/44] fix: Hatanaka kernels (order above 3, order 0,
 overflows, shrinking and non ASCII texts)

---
 src/hatanaka/numdiff.rs  | 82 ++++++++++++++-------------------
 src/hatanaka/textdiff.rs | 98 +++++++++++++---------------------------
 2 files changed, 66 insertions(+), 114 deletions(-)

diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index eb56177..4f49791 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -23,24 +23,27 @@ pub struct NumDiff<const M: usize> {
 }
 
 impl<const M: usize> NumDiff<M> {
+    /// Panics if this level may not be supported
+    fn assert_level(level: usize) {
+        if level > 6 || level > M {
+            panic!("M=6 is the compression limit");
+        }
+    }
+
     /// Builds a [NumDiff] structure dedicated to numerical (de-)compression.
     /// Level must not exceed 6 otherwise this will panic.
     /// ## Inputs
     ///  - data: initial point
     ///  - level: compression level / range.
     pub fn new(data: i64, level: usize) -> Self {
-        if level > 6 {
-            panic!("M=6 is the compression limit");
-        }
+        Self::assert_level(level);
         let mut buf = [0; M]; // reset
         buf[0] = data;
         Self { buf, m: 0, level }
     }
     /// [NumDiff] needs to be reinit   when ???
     pub fn force_init(&mut self, data: i64, level: usize) {
-        if level > 6 {
-            panic!("M=6 is the compression limit");
-        }
+        Self::assert_level(level);
         self.m = 0;
         self.level = level;
         self.rotate_history(data);
@@ -48,62 +51,47 @@ impl<const M: usize> NumDiff<M> {
 
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
-        self.buf.copy_within(0..M - 2, 1);
+        self.buf.copy_within(0..M - 1, 1);
         self.buf[0] = data;
     }
 
-    /// Decompresses input data point, returns recovered data point.
-    pub fn decompress(&mut self, data: i64) -> i64 {
+    /// Increases current order (up to desired level), and
+    /// predicts next point from the internal history.
+    fn predict(&mut self) -> i64 {
+        const BINOMIALS: [&[i64]; 7] = [
+            &[],
+            &[1],
+            &[2, -1],
+            &[3, -3, 1],
+            &[4, -6, 4, -1],
+            &[5, -10, 10, -5, 1],
+            &[6, -15, 20, -15, 6, -1],
+        ];
+
         if self.m < self.level {
             self.m += 1;
         }
 
-        let new: i64 = match self.m {
-            1 => data + self.buf[0],
-            2 => data + 2 * self.buf[0] - self.buf[1],
-            3 => data + 3 * self.buf[0] - 3 * self.buf[1] + self.buf[2],
-            4 => data + 4 * self.buf[0] - 6 * self.buf[1] + 4 * self.buf[2] - self.buf[3],
-            5 => {
-                data + 5 * self.buf[0] - 10 * self.buf[1] + 10 * self.buf[2] - 5 * self.buf[3]
-                    + self.buf[4]
-            },
-            6 => {
-                data + 6 * self.buf[0] - 15 * self.buf[1] + 20 * self.buf[2] - 15 * self.buf[3]
-                    + 6 * self.buf[4]
-                    - self.buf[5]
-            },
-            _ => panic!("numdiff is limited to M < 7"),
-        };
+        BINOMIALS[self.m]
+            .iter()
+            .zip(self.buf)
+            .fold(0_i64, |sum, (k, past)| {
+                sum.wrapping_add(k.wrapping_mul(past))
+            })
+    }
 
+    /// Decompresses input data point, returns recovered data point.
+    pub fn decompress(&mut self, data: i64) -> i64 {
+        let new = data.wrapping_add(self.predict());
         self.rotate_history(new);
         new
     }
 
     /// Compresses input data point, returns "compressed" data point.
     pub fn compress(&mut self, data: i64) -> i64 {
-        if self.m < self.level {
-            self.m += 1;
-        }
+        let compressed = data.wrapping_sub(self.predict());
         self.rotate_history(data);
-
-        match self.m {
-            1 => self.buf[0] - self.buf[1],
-            2 => self.buf[0] - 2 * self.buf[1] + self.buf[2],
-            3 => self.buf[0] - 3 * self.buf[1] + 3 * self.buf[2] - self.buf[3],
-            4 => self.buf[0] - 4 * self.buf[1] + 6 * self.buf[2] - 4 * self.buf[3] + self.buf[4],
-            5 => {
-                self.buf[0] - 5 * self.buf[1] + 10 * self.buf[2] - 10 * self.buf[3]
-                    + 5 * self.buf[4]
-                    - self.buf[5]
-            },
-            6 => {
-                self.buf[0] - 6 * self.buf[1] + 15 * self.buf[2] - 20 * self.buf[3]
-                    + 15 * self.buf[4]
-                    - 6 * self.buf[5]
-                    + self.buf[6]
-            },
-            _ => panic!("numdiff is limited to M < 7"),
-        }
+        compressed
     }
 }
 
diff --git a/src/hatanaka/textdiff.rs b/src/hatanaka/textdiff.rs
index c691391..9170ff1 100644
--- a/src/hatanaka/textdiff.rs
+++ b/src/hatanaka/textdiff.rs
@@ -36,87 +36,51 @@ impl TextDiff {
 
     /// Decompresses given data. Returns recovered value.
     pub fn decompress(&mut self, data: &str) -> &str {
-        let size = data.len();
-        let buf_len = self.buffer.len();
-
-        if size > buf_len {
-            // extend new bytes as is
-            self.buffer.push_str(&data[buf_len..]);
+        let mut recovered = String::with_capacity(self.buffer.len().max(data.len()));
+        let mut history = self.buffer.chars();
+
+        // browse all new characters and save only new content
+        for new in data.chars() {
+            let old = history.next();
+            recovered.push(match new {
+                '&' => ' ',
+                ' ' => old.unwrap_or(' '),
+                new => new,
+            });
         }
 
-        // browse all bytes and save only new content
-        let bytes = data.bytes();
-        unsafe {
-            let buf = self.buffer.as_bytes_mut();
-
-            // browse all new bytes
-            for (i, byte) in bytes.enumerate() {
-                if let Some(buf) = buf.get_mut(i) {
-                    if byte != b' ' {
-                        if byte == b'&' {
-                            *buf = b' ';
-                        } else {
-                            *buf = byte;
-                        }
-                    }
-                }
-            }
-            &self.buffer
-        }
+        // unchanged termination
+        recovered.extend(history);
+
+        self.buffer = recovered;
+        &self.buffer
     }
 
     /// Compress given data using the Textdiff algorithm.
     /// Returns compressed text.
     pub fn compress(&mut self, data: &str) -> &str {
-        let len = data.len();
-        let mut buf_len = self.buffer.len();
-        let min_len = std::cmp::min(len, buf_len);
-
-        if buf_len > len {
-            // special case: shrink history
-            self.buffer = self.buffer[..len].to_string();
-            buf_len = len; // update size
+        let mut history = self.buffer.chars();
+
+        self.compressed.clear();
+
+        for new in data.chars() {
+            self.compressed.push(match (history.next(), new) {
+                (Some(old), new) if old == new => ' ',
+                (_, ' ') => '&',
+                (_, new) => new,
+            });
         }
 
-        self.compressed = self.buffer.to_string();
-
-        unsafe {
-            let mut bytes = data.as_bytes().iter();
-            let mut buffered = self.buffer.as_bytes().iter();
-            let mut compressed = self.compressed.as_bytes_mut().iter_mut();
-
-            while let Some(buffered) = buffered.next() {
-                let byte = bytes.next().unwrap();
-                let mut compressed = compressed.next().unwrap();
-                if byte == buffered {
-                    *compressed = b' ';
-                } else {
-                    if *byte == b' ' {
-                        *compressed = b'&';
-                    } else {
-                        *compressed = *byte;
-                    }
-                }
-            }
+        // shrinked content: what no longer exists needs to be erased
+        let erased = history.as_str().trim_end_matches(' ');
+
+        for old in erased.chars() {
+            self.compressed.push(if old == ' ' { ' ' } else { '&' });
         }
 
         // update internal memory
         self.buffer = data.to_string();
 
-        // possible new string termination
-        if len > buf_len {
-            self.compressed.push_str(&data[buf_len..]);
-
-            unsafe {
-                let mut compressed = self.compressed.as_bytes_mut().iter_mut().skip(buf_len);
-                while let Some(byte) = compressed.next() {
-                    if *byte == b' ' {
-                        *byte = b'&';
-                    }
-                }
-            }
-        }
-
         &self.compressed
     }
 }
-- 
2.43.0


From 08d36133f69d98b4dae7758555ac5ef256274f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 14/44] fix: CRINEX compression and decompression (receiver
 clock, events, absent and resuming signals, V1 epochs, SBAS, long lines,
 resynchronization, stream reader)

---
 src/hatanaka/compressor.rs       | 285 +++++-----
 src/hatanaka/crinex.rs           |  22 +-
 src/hatanaka/decompressor/io.rs  |  33 +-
 src/hatanaka/decompressor/mod.rs | 879 +++++++++++--------------------
 src/record/parsing.rs            |  63 +--
 5 files changed, 510 insertions(+), 772 deletions(-)

diff --git a/src/hatanaka/compressor.rs b/src/hatanaka/compressor.rs
index c8d32b4..da89ed3 100644
--- a/src/hatanaka/compressor.rs
+++ b/src/hatanaka/compressor.rs
@@ -1,11 +1,11 @@
 //! RINEX compression module
 
 use crate::{
-    epoch::epoch_decompose as epoch_decomposition,
+    epoch::format as epoch_format,
     error::FormattingError,
     hatanaka::{NumDiff, TextDiff},
-    observation::{HeaderFields, LliFlags, Record},
-    prelude::{Observable, SV},
+    observation::{ClockObservation, HeaderFields, ObsKey, Observations, Record},
+    prelude::{Constellation, Observable, RinexType, SV},
     BufWriter,
 };
 
@@ -22,19 +22,14 @@ pub struct CompressorExpert<const M: usize> {
     /// True when epoch descriptor should be compressed.
     /// True on first epoch.
     epoch_compression: bool,
-    /// Readable Epoch being compressed
-    epoch_buf: String,
-    /// Readable flags being compressed
-    flags_buf: String,
     /// Epoch [TextDiff]
     epoch_diff: TextDiff,
-    /// Flags kernel, per SV
+    /// Flags kernel, per SV of previous epoch
     flags_diff: HashMap<SV, TextDiff>,
-    /// Flag textdiff
-    /// Compression kernels (per SV and signal)
+    /// Compression kernels (per SV and signal), for signals of previous epoch
     sv_kernels: HashMap<(SV, Observable), NumDiff<M>>,
-    // /// Clock [NumDiff]
-    // clock_diff: NumDiff<M>,
+    /// Clock [NumDiff], when previous epoch had one
+    clock_diff: Option<NumDiff<M>>,
 }
 
 impl<const M: usize> Default for CompressorExpert<M> {
@@ -43,15 +38,17 @@ impl<const M: usize> Default for CompressorExpert<M> {
             v3: true,
             epoch_compression: false,
             epoch_diff: TextDiff::new(""),
-            epoch_buf: String::with_capacity(128),
-            flags_buf: String::with_capacity(128),
             sv_kernels: HashMap::with_capacity(8),
             flags_diff: HashMap::with_capacity(8),
+            clock_diff: None,
         }
     }
 }
 
 impl<const M: usize> CompressorExpert<M> {
+    /// Compression level, as per historical RNX2CRX
+    const LEVEL: usize = if M < 3 { M } else { 3 };
+
     /// Format [Record] using mutable [CompressorExpert].
     /// Compressed bytes are dumped in mutable [BufWriter].
     /// This permits the RNX2CRX compression ops.
@@ -63,12 +60,9 @@ impl<const M: usize> CompressorExpert<M> {
     ) -> Result<(), FormattingError> {
         for (k, v) in record.iter() {
             if !k.flag.is_ok() {
-                // TODO not 100% correct, verify > 1
                 self.epoch_compression = false;
             }
 
-            let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(k.epoch);
-
             // form unique SV list
             let svnn = v
                 .signals
@@ -78,142 +72,159 @@ impl<const M: usize> CompressorExpert<M> {
                 .sorted()
                 .collect::<Vec<_>>();
 
-            if !self.epoch_compression {
-                if self.v3 {
-                    write!(w, "> ")?;
-                } else {
-                    write!(w, "&")?;
-                }
-            } else {
-                if self.v3 {
-                    write!(w, "  ")?;
-                } else {
-                    write!(w, " ")?;
-                }
-            }
+            self.format_epoch(w, k, &svnn)?;
+            self.format_clock(w, v.clock.as_ref())?;
 
-            if self.v3 {
-                self.epoch_buf.push_str(&format!(
-                    "{:04} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
-                    m,
-                    d,
-                    hh,
-                    mm,
-                    ss,
-                    ns / 100,
-                    k.flag,
-                    svnn.len(),
-                ));
-            } else {
-                self.epoch_buf.push_str(&format!(
-                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
-                    m,
-                    d,
-                    hh,
-                    mm,
-                    ss,
-                    ns / 100,
-                    k.flag,
-                    svnn.len(),
-                ));
-            }
+            // kernels do not survive the absence of a vehicle
+            self.flags_diff.retain(|sv, _| svnn.contains(sv));
+            self.sv_kernels.retain(|(sv, _), _| svnn.contains(sv));
 
-            // Append each SV to epoch description
             for sv in svnn.iter() {
-                self.epoch_buf.push_str(&format!("{:x}", sv));
+                self.format_observations(w, v, *sv, header)?;
             }
 
-            // Epoch compression
-            if !self.epoch_compression {
-                self.epoch_diff.force_init(&self.epoch_buf);
-                writeln!(w, "{}", self.epoch_buf.trim_end())?;
+            // prepare for next epoch
+            self.epoch_compression = true;
+        }
+        Ok(())
+    }
+
+    /// Formats epoch descriptor
+    fn format_epoch<W: Write>(
+        &mut self,
+        w: &mut BufWriter<W>,
+        key: &ObsKey,
+        svnn: &[SV],
+    ) -> Result<(), FormattingError> {
+        let (revision, marker, padding) = if self.v3 {
+            (3, "> ", "      ")
+        } else {
+            (2, "&", "")
+        };
+
+        let mut descriptor = format!(
+            "{}  {}{:3}{}",
+            epoch_format(key.epoch, RinexType::ObservationData, revision),
+            key.flag,
+            svnn.len(),
+            padding
+        );
+
+        // Append each SV to epoch description
+        for sv in svnn.iter() {
+            descriptor.push_str(&format!("{:x}", sv));
+        }
+
+        if self.epoch_compression {
+            let compressed = self.epoch_diff.compress(&descriptor);
+            writeln!(
+                w,
+                "{:width$}{}",
+                "",
+                compressed.trim_end(),
+                width = marker.len()
+            )?;
+        } else {
+            self.epoch_diff.force_init(&descriptor);
+            writeln!(w, "{}{}", marker, descriptor.trim_end())?;
+
+            // all kernels are to be initialized
+            self.flags_diff.clear();
+            self.sv_kernels.clear();
+            self.clock_diff = None;
+        }
+        Ok(())
+    }
+
+    /// Formats receiver clock (BLANK line when there is none)
+    fn format_clock<W: Write>(
+        &mut self,
+        w: &mut BufWriter<W>,
+        clock: Option<&ClockObservation>,
+    ) -> Result<(), FormattingError> {
+        let scaling = if self.v3 { 1.0E12 } else { 1.0E9 };
+
+        if let Some(clock) = clock {
+            let quantized = (clock.offset_s * scaling).round() as i64;
+
+            if let Some(kernel) = &mut self.clock_diff {
+                write!(w, "{}", kernel.compress(quantized))?;
             } else {
-                let compressed = self.epoch_diff.compress(&self.epoch_buf);
-                writeln!(w, "{}", compressed.trim_end())?;
+                self.clock_diff = Some(NumDiff::new(quantized, Self::LEVEL));
+                write!(w, "{}&{}", Self::LEVEL, quantized)?;
             }
+        } else {
+            self.clock_diff = None;
+        }
+
+        writeln!(w)?;
+        Ok(())
+    }
+
+    /// Formats all observations of this [SV]
+    fn format_observations<W: Write>(
+        &mut self,
+        w: &mut BufWriter<W>,
+        observations: &Observations,
+        sv: SV,
+        header: &HeaderFields,
+    ) -> Result<(), FormattingError> {
+        // Following header specs
+        let constellation = if sv.constellation.is_sbas() {
+            Constellation::SBAS
+        } else {
+            sv.constellation
+        };
+
+        let observables = header
+            .codes
+            .get(&constellation)
+            .ok_or(FormattingError::MissingObservableDefinition)?;
+
+        let mut flags = String::with_capacity(64);
+
+        for observable in observables.iter() {
+            let signal = observations
+                .signals
+                .iter()
+                .find(|sig| sig.sv == sv && &sig.observable == observable);
+
+            let key = (sv, observable.clone());
 
-            if let Some(clk) = v.clock {
-                // TODO: clock is not correctly supported yet
-                if !self.epoch_compression {
-                    writeln!(w, "{}", clk.offset_s)?;
+            if let Some(signal) = signal {
+                let quantized = (signal.value * 1000.0).round() as i64;
+
+                // retrieve or build compression kernel
+                if let Some(kernel) = self.sv_kernels.get_mut(&key) {
+                    write!(w, "{} ", kernel.compress(quantized))?;
+                } else {
+                    let kernel = NumDiff::<M>::new(quantized, Self::LEVEL);
+                    self.sv_kernels.insert(key, kernel);
+                    write!(w, "{}&{} ", Self::LEVEL, quantized)?;
                 }
-            } else {
-                // No clock: BLANKed line
-                write!(w, "\n")?;
-            }
 
-            // For each SV
-            for sv in svnn.iter() {
-                // Following header specs
-                let observables = header
-                    .codes
-                    .get(&sv.constellation)
-                    .ok_or(FormattingError::MissingObservableDefinition)?;
-
-                for observable in observables.iter() {
-                    if let Some(signal) = v
-                        .signals
-                        .iter()
-                        .filter(|sig| sig.sv == *sv && &sig.observable == observable)
-                        .reduce(|k, _| k)
-                    {
-                        let quantized = (signal.value * 1000.0).round() as i64;
-
-                        // retrieve or build compression kernel
-                        if let Some((_, sv_kernel)) = self
-                            .sv_kernels
-                            .iter_mut()
-                            .filter(|((sv, obs), _)| *sv == signal.sv && obs == &signal.observable)
-                            .reduce(|k, _| k)
-                        {
-                            let compressed = sv_kernel.compress(quantized);
-                            write!(w, "{} ", compressed)?;
-                        } else {
-                            // first encounter: build kernel
-                            let kernel = NumDiff::<M>::new(quantized, 3);
-                            self.sv_kernels
-                                .insert((signal.sv, signal.observable.clone()), kernel);
-
-                            write!(w, "{}&{} ", 3, quantized)?;
-                        }
-
-                        if let Some(lli) = signal.lli {
-                            self.flags_buf.push_str(&format!("{}", lli.bits() as u8));
-                        } else {
-                            self.flags_buf.push_str(" ");
-                        }
-
-                        if let Some(snr) = signal.snr {
-                            self.flags_buf.push_str(&format!("{}", snr as u8));
-                        } else {
-                            self.flags_buf.push_str(" ");
-                        }
-                    } else {
-                        // BLANK is a single ' '
-                        write!(w, "{}", ' ')?;
-                        self.flags_buf.push_str("  ");
-                    }
+                if let Some(lli) = signal.lli {
+                    flags.push_str(&format!("{:x}", lli));
+                } else {
+                    flags.push(' ');
                 }
 
-                // Flags compression
-                if let Some(flags_kernel) = self.flags_diff.get_mut(&sv) {
-                    let compressed = flags_kernel.compress(&self.flags_buf);
-                    writeln!(w, "{}", compressed)?;
+                if let Some(snr) = signal.snr {
+                    flags.push_str(&format!("{:x}", snr));
                 } else {
-                    let mut kernel = TextDiff::new("");
-                    let compressed = kernel.compress(&self.flags_buf);
-                    writeln!(w, "{}", compressed)?;
-                    self.flags_diff.insert(*sv, kernel);
+                    flags.push(' ');
                 }
-                self.flags_buf.clear();
+            } else {
+                // BLANK is a single ' ', this signal needs to be initialized once again
+                self.sv_kernels.remove(&key);
+                write!(w, " ")?;
+                flags.push_str("  ");
             }
-
-            // prepare for next epoch
-            self.epoch_compression = true;
-            self.epoch_buf.clear();
         }
+
+        // Flags compression
+        let kernel = self.flags_diff.entry(sv).or_default();
+        writeln!(w, "{}", kernel.compress(&flags).trim_end())?;
         Ok(())
     }
 }
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 8301242..869243f 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -2,8 +2,8 @@
 use crate::{
     columns::split_columns,
     epoch::now as epoch_now_utc,
-    epoch::parse_formatted_month,
-    prelude::{Epoch, FormattingError, ParsingError, Version},
+    epoch::{gregorian_epoch, parse_formatted_month},
+    prelude::{Epoch, FormattingError, ParsingError, TimeScale, Version},
 };
 
 use std::io::{BufWriter, Write};
@@ -49,15 +49,14 @@ impl CRINEX {
             _ => "Dec",
         };
 
-        write!(w, "{}", self.prog)?;
-        write!(w, "{:<width$}", "", width = 40 - self.prog.len())?;
+        write!(w, "{:<40.40}", self.prog)?;
 
         writeln!(
             w,
-            "{:02}-{}-{} {:02}:{:02}     CRINEX PROG / DATE",
+            "{:02}-{}-{:02} {:02}:{:02}     CRINEX PROG / DATE",
             d,
             formatted_month,
-            y - 2000,
+            y.rem_euclid(100),
             hh,
             mm,
         )?;
@@ -118,9 +117,14 @@ impl CRINEX {
                                 month = parse_formatted_month(parsed)?;
                             },
                             2 => {
-                                year += parsed
-                                    .parse::<i32>()
+                                let value = parsed
+                                    .parse::<u8>()
                                     .or(Err(ParsingError::DatetimeParsing))?;
+
+                                year += i32::from(value);
+                                if value > 79 {
+                                    year -= 100; // 20th century
+                                }
                             },
                             _ => {},
                         }
@@ -154,7 +158,7 @@ impl CRINEX {
             return Err(ParsingError::DatetimeFormat);
         }
 
-        let epoch = Epoch::from_gregorian_utc(year, month, day, hour, mins, 0, 0);
+        let epoch = gregorian_epoch(year, month, day, hour, mins, 0, 0, TimeScale::UTC)?;
         let s = self.with_prog(prog.trim());
         let s = s.with_date(epoch);
         Ok(s)
diff --git a/src/hatanaka/decompressor/io.rs b/src/hatanaka/decompressor/io.rs
index 729ad13..9797bf2 100644
--- a/src/hatanaka/decompressor/io.rs
+++ b/src/hatanaka/decompressor/io.rs
@@ -22,23 +22,34 @@ pub struct DecompressorExpertIO<const M: usize, R: Read> {
     lines: Lines<BufReader<R>>,
     /// Internal Decompressor.
     decomp: DecompressorExpert<M>,
+    /// Recovered content (complete lines), not consumed yet.
+    pending: Vec<u8>,
 }
 
 impl<const M: usize, R: Read> Read for DecompressorExpertIO<M, R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        // try to pull a new complete line from internal reader
-        if let Some(line) = self.lines.next() {
-            let line = line?;
-            let len = line.len();
-            let buf_size = buf.len();
-            let size = self
+        // several lines may be needed to recover one: null size means end of stream
+        while self.pending.is_empty() {
+            // try to pull a new complete line from internal reader
+            let Some(line) = self.lines.next() else {
+                return Ok(0);
+            };
+
+            let recovered = self
                 .decomp
-                .decompress(&line, len, buf, buf_size)
+                .decompress_line(&line?)
                 .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "hatanaka error"))?;
-            Ok(size)
-        } else {
-            Ok(0)
+
+            if !recovered.is_empty() {
+                self.pending.extend_from_slice(recovered.as_bytes());
+                self.pending.push(b'\n');
+            }
         }
+
+        let size = buf.len().min(self.pending.len());
+        buf[..size].copy_from_slice(&self.pending[..size]);
+        self.pending.drain(..size);
+        Ok(size)
     }
 }
 
@@ -57,6 +68,7 @@ impl<const M: usize, R: Read> DecompressorExpertIO<M, R> {
         Self {
             lines: BufReader::new(reader).lines(),
             decomp: DecompressorExpert::<M>::default(),
+            pending: Vec::with_capacity(512),
         }
     }
     /// Builds a new [DecompressorExpertIO] from your own Buffered Reader implementation.
@@ -65,6 +77,7 @@ impl<const M: usize, R: Read> DecompressorExpertIO<M, R> {
         Self {
             lines: reader.lines(),
             decomp: DecompressorExpert::<M>::default(),
+            pending: Vec::with_capacity(512),
         }
     }
     /// Provide [Observable] definitions if you intend to stream CRINEX directly
diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 102e8c7..06467c7 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -1,10 +1,11 @@
 //! CRINEX decompression module
 use crate::{
+    columns::{parse_sv, split_columns},
     hatanaka::{Error, NumDiff, TextDiff},
     prelude::{Constellation, Observable, SV},
 };
 
-use std::{collections::HashMap, str::FromStr};
+use std::collections::HashMap;
 
 pub mod io;
 
@@ -38,6 +39,8 @@ pub enum State {
     Clock,
     /// Observations gathering and recovering.
     Observation,
+    /// Forwarding the lines that follow an event, as is.
+    Event,
 }
 
 impl State {
@@ -45,7 +48,6 @@ impl State {
     /// - Timestamp: Year uses 2 digits
     /// - Flag
     /// - Numsat
-    const MIN_COMPRESSED_EPOCH_SIZE_V1: usize = 17;
     const MIN_DECOMPRESSED_EPOCH_SIZE_V1: usize = 32;
 
     /// Minimal size of a valid [Epoch] description in V3 revision  
@@ -53,7 +55,6 @@ impl State {
     /// - Timestamp: Year uses 4 digits
     /// - Flag
     /// - Numsat
-    const MIN_COMPRESSED_EPOCH_SIZE_V3: usize = 20;
     const MIN_DECOMPRESSED_EPOCH_SIZE_V3: usize = 35;
 
     /// Calculates number of bytes this state will forward to user
@@ -67,7 +68,7 @@ impl State {
                     Self::MIN_DECOMPRESSED_EPOCH_SIZE_V3
                 } else {
                     let mut size = Self::MIN_DECOMPRESSED_EPOCH_SIZE_V1;
-                    let num_extra = div_ceil(numsat, 12) - 1;
+                    let num_extra = div_ceil(numsat, 12).saturating_sub(1);
                     size += num_extra * 17; // padding
                     size += numsat * 3; // formatted
                     size
@@ -78,9 +79,9 @@ impl State {
                     3 + numobs * 16
                 } else {
                     let mut size = 1;
-                    size += numobs - 1; // separator
+                    size += numobs.saturating_sub(1); // separator
                     size += 15 * numobs; // formatted
-                    let num_extra = div_ceil(numobs, 5) - 1;
+                    let num_extra = div_ceil(numobs, 5).saturating_sub(1);
                     size += num_extra * 15; // padding
                     size
                 }
@@ -105,28 +106,25 @@ pub struct DecompressorExpert<const M: usize> {
     constellation: Constellation,
     /// Internal Finite [State] Machine.
     state: State,
-    /// For internal logic: remains true until one epoch descriptor has been recovered.
+    /// For internal logic: true until one epoch descriptor has been recovered,
+    /// and whenever we need to wait for the next complete descriptor.
     first_epoch: bool,
+    /// [SV] of this epoch (None: not identified)
+    sv_list: Vec<Option<SV>>,
+    /// [SV] of previous epoch
+    past_sv_list: Vec<Option<SV>>,
     /// pointers
-    sv: SV,
-    numsat: usize,  // total
-    sv_ptr: usize,  // inside epoch
-    numobs: usize,  // total
-    obs_ptr: usize, // inside epoch
+    numsat: usize, // total (number of lines in case of events)
+    sv_ptr: usize, // inside epoch
+    numobs: usize, // total
     /// [TextDiff] that works on entire Epoch line
     epoch_diff: TextDiff,
     /// Epoch descriptor, for single allocation
     epoch_descriptor: String,
-    epoch_desc_len: usize, // for internal logic
-    /// Stored index of current BLANKS
-    /// for correct flags omition in this case
-    blanking_indexes: Vec<usize>,
-    /// Cleaned up flags buffer (single malloc)
-    flags_buf: String,
     /// [TextDiff] for observation flags
     flags_diff: HashMap<SV, TextDiff>,
     /// Clock offset differentiator
-    clock_diff: NumDiff<M>,
+    clock_diff: Option<NumDiff<M>>,
     /// Observation differentiators
     obs_diff: HashMap<(SV, usize), NumDiff<M>>,
     /// [Observable]s specs for each [Constellation]
@@ -135,37 +133,20 @@ pub struct DecompressorExpert<const M: usize> {
 
 impl<const M: usize> Default for DecompressorExpert<M> {
     fn default() -> Self {
-        Self {
-            v3: true,
-            numsat: 0,
-            sv_ptr: 0,
-            numobs: 0,
-            obs_ptr: 0,
-            first_epoch: true,
-            epoch_desc_len: 0,
-            sv: Default::default(),
-            state: Default::default(),
-            constellation: Constellation::Mixed,
-            epoch_diff: TextDiff::new(""),
-            gnss_observables: HashMap::with_capacity(8), // cannot be initialized
-            obs_diff: HashMap::with_capacity(8),         // cannot initialize yet
-            flags_diff: HashMap::with_capacity(8),       // cannot initialize yet
-            epoch_descriptor: String::with_capacity(256),
-            blanking_indexes: Vec::with_capacity(32),
-            flags_buf: String::with_capacity(32),
-            clock_diff: NumDiff::<M>::new(0, M),
-        }
+        Self::new(true, Constellation::Mixed, HashMap::with_capacity(8))
     }
 }
 
 impl<const M: usize> DecompressorExpert<M> {
     /// Minimal timestamp length in V1 revision
     const V1_TIMESTAMP_SIZE: usize = 24;
+    const V1_FLAG_OFFSET: usize = Self::V1_TIMESTAMP_SIZE + 3;
     const V1_NUMSAT_OFFSET: usize = Self::V1_TIMESTAMP_SIZE + 4;
     const V1_SV_OFFSET: usize = Self::V1_NUMSAT_OFFSET + 3;
 
     /// Minimal timestamp length in V3 revision
     const V3_TIMESTAMP_SIZE: usize = 26;
+    const V3_FLAG_OFFSET: usize = Self::V3_TIMESTAMP_SIZE + 4;
     const V3_NUMSAT_OFFSET: usize = Self::V3_TIMESTAMP_SIZE + 1 + 4;
     const V3_SV_OFFSET: usize = Self::V3_NUMSAT_OFFSET + 9;
 
@@ -179,39 +160,32 @@ impl<const M: usize> DecompressorExpert<M> {
         offset + sv_index * 3
     }
 
-    /// Returns next [SV]
-    fn next_sv(&self) -> Option<SV> {
-        let start = Self::sv_slice_start(self.v3, self.sv_ptr);
-        let end = (start + 3).min(self.epoch_desc_len);
+    /// Identifies n-th [SV] of this epoch
+    fn nth_sv(&self, nth: usize) -> Option<SV> {
+        let start = Self::sv_slice_start(self.v3, nth);
+        let content = self.epoch_descriptor.get(start..start + 3)?;
 
-        if let Ok(sv) = SV::from_str(&self.epoch_descriptor[start..end].trim()) {
-            Some(sv)
+        if content.starts_with(' ') && !self.v3 && self.constellation != Constellation::Mixed {
+            // old revisions that have a mono GNSS system
+            // have tendency to omit the constellation description (leaving only the PRN#)
+            let prn = content.trim().parse::<u8>().ok()?;
+            Some(SV::new(self.constellation, prn))
         } else {
-            // May fail on old revisions that have a mono GNSS system
-            // that have tendency to omit the constellation description (leaving only the PRN#)
-            if !self.v3 {
-                match self.constellation {
-                    Constellation::Mixed => {
-                        None // incorrect description, will rapidly panic
-                    },
-                    constellation => {
-                        // PRN# parsing attempt
-                        if let Ok(prn) = &self.epoch_descriptor[start..end].trim().parse::<u8>() {
-                            Some(SV {
-                                prn: *prn,
-                                constellation,
-                            })
-                        } else {
-                            None // incorrect description, will rapidly panic
-                        }
-                    },
-                }
-            } else {
-                None
-            }
+            parse_sv(content).ok()
         }
     }
 
+    /// True when recovered descriptor announces observations, not an event
+    fn has_observations(&self) -> bool {
+        let start = if self.v3 {
+            Self::V3_FLAG_OFFSET
+        } else {
+            Self::V1_FLAG_OFFSET
+        };
+        let flag = self.epoch_descriptor.get(start..start + 1);
+        matches!(flag, Some(" " | "0" | "1" | "6"))
+    }
+
     /// Macro to directly parse numsat from recovered descriptor
     fn epoch_numsat(&self) -> Option<usize> {
         let start = if self.v3 {
@@ -220,11 +194,11 @@ impl<const M: usize> DecompressorExpert<M> {
             Self::V1_NUMSAT_OFFSET
         };
 
-        if let Ok(numsat) = &self.epoch_descriptor[start..start + 3].trim().parse::<u8>() {
-            Some(*numsat as usize)
-        } else {
-            None
-        }
+        split_columns(self.epoch_descriptor.get(start..)?, 3)
+            .0
+            .trim()
+            .parse::<usize>()
+            .ok()
     }
 
     /// Builds new CRINEX decompressor.
@@ -242,23 +216,25 @@ impl<const M: usize> DecompressorExpert<M> {
             numsat: 0,
             sv_ptr: 0,
             numobs: 0,
-            obs_ptr: 0,
             constellation,
             gnss_observables,
             first_epoch: true,
-            epoch_desc_len: 0,
-            sv: Default::default(),
+            sv_list: Vec::with_capacity(32),
+            past_sv_list: Vec::with_capacity(32),
             state: Default::default(),
             epoch_diff: TextDiff::new(""),
             obs_diff: HashMap::with_capacity(8), // cannot initialize yet
             flags_diff: HashMap::with_capacity(8), // cannot initialize yet
-            blanking_indexes: Vec::with_capacity(32),
-            flags_buf: String::with_capacity(32),
             epoch_descriptor: String::with_capacity(256),
-            clock_diff: NumDiff::<M>::new(0, M),
+            clock_diff: None,
         }
     }
 
+    /// True when following lines are to be forwarded as they are
+    pub(crate) fn is_event(&self) -> bool {
+        self.state == State::Event
+    }
+
     /// Decompresses following line and pushes recovered content into buffer.
     /// Inputs
     ///  - line: trimed line (no \n termination), which is consistent with
@@ -278,6 +254,8 @@ impl<const M: usize> DecompressorExpert<M> {
         buf: &mut [u8],
         size: usize,
     ) -> Result<usize, Error> {
+        let size = size.min(buf.len());
+
         if size
             < self
                 .state
@@ -286,581 +264,320 @@ impl<const M: usize> DecompressorExpert<M> {
             return Err(Error::BufferOverflow);
         }
 
-        // println!("STATE={:?}", self.state); //DEBUG
+        let line = split_columns(line, len).0;
+        let padding = self.is_padded(line);
+        let mut recovered = self.decompress_line(line)?;
+
+        if padding && !recovered.is_empty() {
+            recovered.push_str("\n ");
+        }
+
+        buf[..size]
+            .get_mut(..recovered.len())
+            .ok_or(Error::BufferOverflow)?
+            .copy_from_slice(recovered.as_bytes());
+
+        Ok(recovered.len())
+    }
+
+    /// [Self::decompress] completes some of the recovered V1 content with one blank line
+    fn is_padded(&self, line: &str) -> bool {
+        if self.v3 {
+            return false;
+        }
         match self.state {
-            State::Epoch => self.run_epoch(line, len),
-            State::Clock => self.run_clock(line, len, buf),
-            State::Observation => self.run_observation(line, len, buf),
+            State::Clock => matches!(self.numsat % 12, 0 | 11),
+            State::Observation => {
+                // last observation is not terminated
+                !line.is_empty() && line.matches(' ').count() < self.numobs && !line.ends_with(' ')
+            },
+            _ => false,
         }
     }
 
-    /// Process following line, in [State::Epoch]
-    fn run_epoch(&mut self, line: &str, len: usize) -> Result<usize, Error> {
-        let min_len = if self.v3 {
-            State::MIN_COMPRESSED_EPOCH_SIZE_V3
-        } else {
-            State::MIN_COMPRESSED_EPOCH_SIZE_V1
+    /// [Self::decompress] which is not limited in size, without blank lines.
+    pub(crate) fn decompress_line(&mut self, line: &str) -> Result<String, Error> {
+        let line = line.trim_end_matches(['\n', '\r']);
+
+        // Complete descriptors never go missing, whatever happened previously
+        let new_descriptor = line.starts_with(if self.v3 { '>' } else { '&' });
+
+        if new_descriptor && self.state != State::Event {
+            self.state = State::Epoch;
+        }
+
+        let recovered = match self.state {
+            State::Epoch => self.run_epoch(line, new_descriptor).map(|_| String::new()),
+            State::Clock => self.run_clock(line),
+            State::Observation => Ok(self.run_observation(line)),
+            State::Event => Ok(line.to_string()),
         };
 
-        if len < min_len {
-            return Err(Error::EpochFormat);
+        match self.state {
+            State::Epoch if recovered.is_err() => {
+                // wait for next complete descriptor
+                self.first_epoch = true;
+            },
+            State::Epoch => {
+                if !self.has_observations() {
+                    // clock data is omitted, following epoch needs to be complete
+                    self.first_epoch = true;
+                    self.next_line(State::Event);
+                    return Ok(self.format_epoch(None));
+                }
+
+                self.state = State::Clock;
+            },
+            State::Clock => self.next_line(State::Observation),
+            State::Observation => {
+                self.sv_ptr += 1;
+                self.next_line(State::Observation);
+            },
+            State::Event => {
+                self.sv_ptr += 1;
+                self.next_line(State::Event);
+            },
         }
 
-        let trimmed = &line[1..].trim_end();
-        if line.starts_with('&') {
-            if self.v3 {
-                return Err(Error::BadV3Format);
-            }
+        recovered
+    }
 
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
-        } else if line.starts_with('>') {
-            if !self.v3 {
-                return Err(Error::BadV1Format);
-            }
+    /// Prepares for one line in this [State], if more are expected
+    fn next_line(&mut self, state: State) {
+        if self.sv_ptr < self.numsat {
+            self.state = state;
+        } else {
+            self.state = State::Epoch;
+        }
+
+        self.numobs = match self.sv_list.get(self.sv_ptr) {
+            Some(Some(sv)) => self.get_observables(&sv.constellation).len(),
+            _ => 0,
+        };
+    }
+
+    /// Process following line, in [State::Epoch]
+    fn run_epoch(&mut self, line: &str, new_descriptor: bool) -> Result<(), Error> {
+        if line.trim().is_empty() {
+            return Err(Error::EpochFormat);
+        }
 
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
+        let (marker, content) = split_columns(line, 1);
+        let content = content.trim_end();
+
+        if new_descriptor {
+            self.epoch_diff.force_init(content);
+            self.epoch_descriptor = content.to_string();
+
+            // all kernels are to be initialized
+            self.clock_diff = None;
+            self.obs_diff.clear();
+            self.flags_diff.clear();
+            self.sv_list.clear();
+        } else if marker == "&" {
+            return Err(Error::BadV3Format);
+        } else if marker == ">" {
+            return Err(Error::BadV1Format);
+        } else if self.first_epoch {
+            return Err(Error::EpochFormat);
         } else {
-            self.epoch_descriptor = self.epoch_diff.decompress(trimmed).to_string();
-            self.epoch_desc_len = self.epoch_descriptor.len();
+            // vehicles that disappeared leave trailing blanks
+            self.epoch_descriptor = self.epoch_diff.decompress(content).trim_end().to_string();
         }
 
-        // println!(
-        //     "RECOVERED \"{}\" [{}]",
-        //     self.epoch_descriptor, self.epoch_desc_len
-        // ); // DEBUG
+        self.sv_ptr = 0;
+        self.numsat = self.epoch_numsat().ok_or(Error::EpochFormat)?;
+        self.first_epoch = false;
+
+        std::mem::swap(&mut self.sv_list, &mut self.past_sv_list);
+        self.sv_list.clear();
+
+        if self.has_observations() {
+            for nth in 0..self.numsat {
+                let start = Self::sv_slice_start(self.v3, nth);
+                if self.epoch_descriptor.len() < start {
+                    // incorrect number of vehicles
+                    return Err(Error::SVParsing);
+                }
+                self.sv_list.push(self.nth_sv(nth));
+            }
+        }
 
-        // numsat needs to be recovered right away,
-        // because it is used to determine the next production size
-        self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
+        // kernels do not survive the absence of a vehicle
+        for sv in self.past_sv_list.iter().flatten() {
+            if !self.sv_list.contains(&Some(*sv)) {
+                self.flags_diff.remove(sv);
+                self.obs_diff.retain(|(kernel, _), _| kernel != sv);
+            }
+        }
 
-        self.state = State::Clock;
-        Ok(0)
+        Ok(())
     }
 
-    /// Fills user buffer with recovered epoch, following either V1 or V3 standards
-    fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    /// Recovered epoch, following either V1 or V3 standards
+    fn format_epoch(&self, clock_data: Option<i64>) -> String {
         if self.v3 {
-            self.format_epoch_v3(clock_data, buf)
+            self.format_epoch_v3(clock_data)
         } else {
-            self.format_epoch_v1(clock_data, buf)
+            self.format_epoch_v1(clock_data)
         }
     }
 
-    /// Fills user buffer with recovered epoch, following V3 standards
-    fn format_epoch_v3(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    /// Recovered epoch, following V3 standards
+    fn format_epoch_v3(&self, clock_data: Option<i64>) -> String {
         // V3 format is much simpler
         // all we need to do is extract SV `XXY` to append in each following lines
-
-        let mut produced = 0;
-        buf[produced] = b'>'; // special marker
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
-
-        // push timestamp +flag
-        buf[produced..produced + 34].copy_from_slice(&bytes[..34]);
-        produced += 34;
+        let mut recovered = format!(">{}", split_columns(&self.epoch_descriptor, 34).0);
 
         // provide clock data, if any
         if let Some(clock_data) = clock_data {
-            let value = clock_data as f64 / 1000.0;
-            let formatted = format!("       {:.12}", value);
-            let fmt_len = formatted.len(); // TODO improve: this is constant
-            let bytes = formatted.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-            produced += fmt_len; // TODO improve: this is constant
+            recovered = format!("{:<41}{:15.12}", recovered, clock_data as f64 * 1.0E-12);
         }
 
-        produced
+        recovered
     }
 
-    /// Fills user buffer with recovered epoch, following V1 standards
-    fn format_epoch_v1(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        let mut produced = 0;
-
-        buf[produced] = b' '; // single whitespace
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
-
+    /// Recovered epoch, following V1 standards
+    fn format_epoch_v1(&self, clock_data: Option<i64>) -> String {
         // push first line (up to 68 bytes)
-        let first_len = self.epoch_desc_len.min(67);
-
-        buf[produced..produced + first_len].copy_from_slice(&bytes[..first_len]);
-        produced += first_len;
+        let (first, mut vehicles) = split_columns(&self.epoch_descriptor, 67);
+        let mut recovered = format!(" {}", first);
 
         // push clock offset (if any)
         if let Some(clock_data) = clock_data {
-            let formatted_ck = format!(" {:15.12}", clock_data);
-            let fmt_len = formatted_ck.len(); // TODO: improve (constant)
-            let formatted_ck = formatted_ck.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&formatted_ck);
-            produced += fmt_len;
+            recovered = format!("{:<68}{:12.9}", recovered, clock_data as f64 * 1.0E-9);
         }
 
-        buf[produced] = b'\n'; // conclude 1st line
-        produced += 1;
-
         // construct all following lines that need to be wrapped and padded
-        let mut offset = 67;
-        let nb_extra = (self.epoch_desc_len - Self::V1_NUMSAT_OFFSET) / 36;
-
-        for _ in 0..nb_extra {
-            // extra padding
-            buf[produced..produced + 32].copy_from_slice(&[
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ',
-            ]);
-
-            produced += 32;
-
-            // copy data slice
-            let end = (offset + 36).min(self.epoch_desc_len);
-            let size = end - offset;
+        while !vehicles.is_empty() {
+            let (line, rem) = split_columns(vehicles, 36);
+            recovered.push_str(&format!("\n{:32}{}", "", line));
+            vehicles = rem;
+        }
 
-            buf[produced..produced + size].copy_from_slice(&bytes[offset..end]);
+        recovered
+    }
 
-            offset += size;
-            produced += size;
+    /// Recovers the "order&value" kernel initialization pattern
+    fn kernel_init(content: &str) -> Option<(usize, i64)> {
+        let (level, value) = content.split_once('&')?;
+        let level = level.parse::<usize>().ok().filter(|m| *m <= M)?;
+        Some((level, value.parse::<i64>().ok()?))
+    }
 
-            // terminate this line
-            buf[produced] = b'\n';
-            produced += 1;
+    /// Recovers numerical value: either kernel initialization or compression
+    /// continuation. The kernel is dropped when data is missing or incorrect.
+    fn recover(kernel: &mut Option<NumDiff<M>>, content: &str) -> Option<i64> {
+        if content.contains('&') {
+            let init = Self::kernel_init(content);
+            *kernel = init.map(|(level, value)| NumDiff::new(value, level));
+            init.map(|(_, value)| value)
+        } else if let Ok(value) = content.parse::<i64>() {
+            kernel.as_mut().map(|kernel| kernel.decompress(value))
+        } else {
+            *kernel = None;
+            None
         }
-
-        produced
     }
 
     /// Process following line, in [State::Clock]
-    fn run_clock(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut clock_data = Option::<i64>::None;
-
-        // attempts to recover clock data (if it exists)
-        if len > 2 {
-            if line[1..].starts_with('&') {
-                if let Ok(order) = line[..1].parse::<usize>() {
-                    if let Ok(val) = line[2..].parse::<i64>() {
-                        // valid kernel reset
-                        self.clock_diff.force_init(val, order);
-                        clock_data = Some(val);
-                    }
-                }
-            }
-        }
-        if len == 1 {
-            // highly compressed clock data
-            match line.trim().parse::<i64>() {
-                Ok(val) => {
-                    let val = self.clock_diff.decompress(val);
-                    clock_data = Some(val);
-                },
-                Err(_) => {},
-            }
-        }
-
+    fn run_clock(&mut self, line: &str) -> Result<String, Error> {
+        // recover clock data (if it exists)
         // now that we have potentially recovered clock data
         // we can format the complete epoch description
-        let produced = self.format_epoch(clock_data, buf);
-
-        // prepare for observation state
-        self.obs_ptr = 0;
-        self.sv_ptr = 0;
-        self.first_epoch = false;
-
-        // grab first sv
-        self.sv = self.next_sv().expect("bad recovered content (sv)");
-
-        // cross check recovered content
-        // &, at the same time, make sure we are ready to process any new SV
-        for i in 0..self.numsat {
-            let start = Self::sv_slice_start(self.v3, i);
-
-            // any invalid SV description, will cause us to wait for a new epoch.
-            // In other terms, epoch is fully disregarded.
-            let sv = match SV::from_str(&self.epoch_descriptor[start..start + 3]) {
-                Ok(sv) => sv,
-                Err(_) => {
-                    // SV parsing may be in failure in case of very old V1 CRINEX mono GNSS
-                    // that omit the constellation
-                    if !self.v3 {
-                        if let Ok(prn) = &self.epoch_descriptor[start + 1..start + 3]
-                            .trim()
-                            .parse::<u8>()
-                        {
-                            SV {
-                                prn: *prn,
-                                constellation: self.constellation,
-                            }
-                        } else {
-                            return Err(Error::SVParsing);
-                        }
-                    } else {
-                        return Err(Error::SVParsing);
-                    }
-                },
-            };
-
-            // initialize on first encounter
-            if self.flags_diff.get(&sv).is_none() {
-                // initializes the internal buffer with some capacity..
-                let textdiff = TextDiff::new("               ");
-                self.flags_diff.insert(sv, textdiff);
-            }
-        }
-
-        let obs = self
-            .get_observables(&self.sv.constellation)
-            .expect("failed to determine sv definition");
-
-        self.numobs = obs.len();
-        self.state = State::Observation;
-        Ok(produced)
+        let clock_data = Self::recover(&mut self.clock_diff, line.trim());
+        Ok(self.format_epoch(clock_data))
     }
 
     /// Process following line, in [State::Observation]
-    fn run_observation(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut consumed = 0;
-        let mut produced = 0;
-        let mut new_state = self.state;
+    fn run_observation(&mut self, line: &str) -> String {
+        const OBSERVATIONS_PER_LINE: usize = 5;
 
-        self.blanking_indexes.clear(); // new run
-
-        // println!("[{}] LINE \"{}\"", self.sv, line); // DEBUG
+        let mut recovered = String::with_capacity(512);
 
         if self.v3 {
             // prepend SVNN identity
             let start = Self::sv_slice_start(true, self.sv_ptr);
-            let end = (start + 3).min(self.epoch_desc_len);
-            let bytes = self.epoch_descriptor.as_bytes();
-            buf[..3].copy_from_slice(&bytes[start..end]);
-            produced += 3;
+            let identity = self.epoch_descriptor.get(start..).unwrap_or_default();
+            recovered.push_str(&format!("{:3}", split_columns(identity, 3).0));
         }
 
-        // Retrieving observations is complex.
-        // When signal sampling was not feasible: data is omitted (blanked) by a single '_'
-        // Which is not particularly clever and means the data flags can only provided at the end of the line.
-        // Since data flags are text compressed, it can create some weird situations.
-        for ptr in 0..self.numobs {
-            // We must output something for each expected data points (whatever happens).
-            // So we default to a BLANK, which simplifies the following code:
-            // we only implement successful cases.
-            let mut formatted = "                ".to_string();
-
-            // Try to locate next '_', which is either
-            //  . normal/expected line progression
-            //  . or a blanking
-            let offset = line[consumed..].find(' ');
-
-            if let Some(offset) = offset {
-                if offset > 1 {
-                    // observation (made of at least two digits)
-                    // Determine whether this is a kernel reset or compression continuation
-
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    consumed += offset + 1; // consume until this point
-                } else {
-                    // this is either BLANK or highly compressed (=single digit value)
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    if slice.len() > 0 {
-                        // this is a digit (highly compressed value)
-
-                        //#[cfg(feature = "log")]
-                        //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                        consumed += 2; // consume this byte
-                    } else {
-                        consumed += 1;
-                        self.blanking_indexes.push(ptr);
-                    }
-                }
-
-                let fmt_len = formatted.len(); // TODO: improve, this is constant
-                let bytes = formatted.as_bytes();
-
-                // push into user
-                buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                produced += fmt_len;
-
-                // handle V1 padding and wrapping
-                if !self.v3 {
-                    if (ptr % 5) == 4 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n".to_string();
-                        let bytes = formatted.as_bytes();
-                        let fmt_len = formatted.len();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // this may cause trimed lines to panic on next '_' search
-                // so we exist the loop so we do not overflow
-                if consumed >= len {
-                    break;
-                }
-            } else {
-                // early line termination.
-                // This happens when last observations are all missing (possibly more than one)
-                // and observation "flags" are all fully compressed (100% compression factor)
-
-                // if we have leftovers, that means we have one last observation
-                if len > consumed {
-                    let mut formatted = "                ".to_string();
-
-                    // grab slice
-                    let slice = line[consumed..].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    let fmt_len = formatted.len(); // TODO: improve, this is constant
-                    let bytes = formatted.as_bytes();
-
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n                 ".to_string();
-                        let fmt_len = formatted.len();
-                        let bytes = formatted.as_bytes();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // 1. we need to push all required BLANKING
-                // 2. we need to preserve data flags
-                // 3. and finally conclude this SV
-                let nb_missing = self.numobs - ptr - 1;
-
-                let formatted = "                ".to_string();
-                let fmt_len = formatted.len(); // IMPROVE: this is constant
-                let bytes = formatted.as_bytes();
-
-                // fill required nb of blanks
-                for j in 0..nb_missing {
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        if (ptr + j) % 5 == 4 {
-                            // TODO: improve, this is constant
-                            let formatted = "\n            ".to_string();
-                            let fmt_len = formatted.len();
-                            let bytes = formatted.as_bytes();
-
-                            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                            produced += fmt_len;
-                        }
-                    }
-                }
-
-                // trick to preserve data flags
-                let textdiff = self
-                    .flags_diff
-                    .get_mut(&self.sv)
-                    .expect("internal error: bad crinex content?");
-
-                let flags = textdiff.decompress("").trim_end();
-                let flags_len = flags.len();
-
-                //println!("PRESERVED \"{}\"", flags); // DEBUG
-                Self::write_flags(flags, flags_len, self.numobs, self.v3, buf);
-
-                // conclude this SV
-                self.sv_ptr += 1;
-
-                //#[cfg(feature = "log")]
-                //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-                if self.sv_ptr == self.numsat {
-                    //#[cfg(feature = "log")]
-                    //debug!("[END OF EPOCH]");
-
-                    self.state = State::Epoch;
-                } else {
-                    self.sv = self.next_sv().expect("failed to determine next sv");
+        let Some(sv) = self.sv_list.get(self.sv_ptr).copied().flatten() else {
+            return recovered;
+        };
 
-                    let constellation = if self.sv.constellation.is_sbas() {
-                        Constellation::SBAS
-                    } else {
-                        self.sv.constellation
-                    };
+        let mut blanks = Vec::with_capacity(self.numobs);
+        let mut rem = line;
 
-                    self.numobs = self
-                        .get_observables(&constellation)
-                        .expect("internal error")
-                        .len();
+        // When signal sampling was not feasible: data is omitted (blanked) by a single '_'
+        // and all of them may be omitted at the end of the line.
+        for ptr in 0..self.numobs {
+            let (content, next) = rem.split_once(' ').unwrap_or((rem, ""));
+            rem = next;
 
-                    self.state = State::Observation;
-                }
+            let mut kernel = self.obs_diff.remove(&(sv, ptr));
+            let value = Self::recover(&mut kernel, content);
 
-                return Ok(produced);
+            if let Some(kernel) = kernel {
+                self.obs_diff.insert((sv, ptr), kernel);
             }
-        } // for
 
-        // at this point, we should be left with "data flags" in the buffer.
-        // That may not be the case. We may have consumed everything when
-        // the line was trimmed at production time, meaning flags should be preserved
-
-        if consumed < len {
-            // proceed to flags recovering
-            let flags = &line[consumed..].trim_end();
-
-            // println!("FLAGS \"{}\"", flags); // DEBUG
-
-            let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
-
-            let flags = kernel.decompress(flags);
-            let flags_len = flags.len();
-
-            self.flags_buf = flags.to_string();
-
-            // blank flags for which observation is blanked
-            // otherwise, .decompress("") will return past value
-            for index in &self.blanking_indexes {
-                if flags_len > (index * 2) {
-                    self.flags_buf
-                        .replace_range(2 * index..(2 * index + 1), " ");
-                }
-                if flags_len > index * 2 + 1 {
-                    self.flags_buf
-                        .replace_range(2 * index + 1..(2 * index + 2), " ");
-                }
+            // V1 wrapping
+            if !self.v3 && ptr > 0 && ptr % OBSERVATIONS_PER_LINE == 0 {
+                recovered.push('\n');
             }
 
-            // update len
-            let flags_len = self.flags_buf.len();
-
-            // copy all flags to user
-            // println!(
-            //     "RECOVERED \"{}\" (len={},numobs={})",
-            //     &self.flags_buf, flags_len, self.numobs
-            // ); // DEBUG
-
-            Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
-        }
-
-        self.obs_ptr = 0;
-
-        // move on to next state
-        self.sv_ptr += 1;
-
-        //#[cfg(feature = "log")]
-        //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-        if self.sv_ptr == self.numsat {
-            //#[cfg(feature = "log")]
-            //debug!("[END OF EPOCH]");
-
-            new_state = State::Epoch;
-        } else {
-            self.sv = self.next_sv().expect("failed to determine next sv");
-
-            let constellation = if self.sv.constellation.is_sbas() {
-                Constellation::SBAS
+            // We must output something for each expected data points (whatever happens).
+            if let Some(value) = value {
+                recovered.push_str(&format!("{:14.3}  ", value as f64 / 1000.0));
             } else {
-                self.sv.constellation
-            };
+                recovered.push_str(&format!("{:16}", ""));
+            }
 
-            self.numobs = self
-                .get_observables(&constellation)
-                .expect("internal error")
-                .len();
+            blanks.push(value.is_none());
         }
 
-        self.state = new_state;
-        Ok(produced)
+        // at this point, we should be left with "data flags" in the buffer.
+        // That may not be the case: the line was trimmed at production time,
+        // meaning flags should be preserved
+        let flags = self
+            .flags_diff
+            .entry(sv)
+            .or_default()
+            .decompress(rem.trim_end());
+
+        // flags of blanked observations are omitted
+        let flags = flags
+            .chars()
+            .take(2 * self.numobs)
+            .enumerate()
+            .map(|(i, flag)| {
+                if blanks[i / 2] || !flag.is_ascii() {
+                    ' '
+                } else {
+                    flag
+                }
+            })
+            .collect::<String>();
+
+        let mut bytes = recovered.into_bytes();
+        Self::write_flags(&flags, flags.len(), self.numobs, self.v3, &mut bytes);
+        String::from_utf8_lossy(&bytes).to_string()
     }
 
-    /// Helper to retrieve observable for given system
-    fn get_observables(&self, constell: &Constellation) -> Option<&Vec<Observable>> {
-        // We use mixed to store a single value for single definitions
-        if let Some(mixed) = self.gnss_observables.get(&Constellation::Mixed) {
-            Some(mixed)
+    /// Helper to retrieve observables for given system
+    fn get_observables(&self, constell: &Constellation) -> &[Observable] {
+        let constell = if constell.is_sbas() {
+            Constellation::SBAS
         } else {
-            self.gnss_observables.get(constell)
-        }
+            *constell
+        };
+        // We use mixed to store a single value for single definitions
+        self.gnss_observables
+            .get(&Constellation::Mixed)
+            .or(self.gnss_observables.get(&constell))
+            .map(|observables| observables.as_slice())
+            .unwrap_or_default()
     }
 
     /// Insert data flags into buffer that we already have
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 916601f..f921d54 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -43,7 +43,6 @@ use crate::{
 use std::{
     collections::BTreeMap,
     io::{BufReader, Read},
-    str::from_utf8,
 };
 
 #[cfg(feature = "log")]
@@ -59,9 +58,6 @@ impl Record {
         // eos reached: process pending buffer & exit
         let mut eos = false;
 
-        // crinex decompression in failure: process pending buffer & exit
-        let mut crinex_error = false;
-
         // current line storage
         let mut line_buf = String::with_capacity(128);
 
@@ -84,9 +80,6 @@ impl Record {
         let mut observations = Observations::default();
 
         // CRINEX case
-        const CRINEX_BUF_SIZE: usize = 1024;
-        let mut buf = [0; CRINEX_BUF_SIZE];
-
         let mut is_crinex = false;
         let mut crinex_v3 = false;
         let mut gnss_observables = Default::default();
@@ -190,6 +183,33 @@ impl Record {
                 eos |= true;
             }
 
+            // CRINEX special case:
+            // - apply decompression algorithm prior moving forward
+            // - decompress new pending line, which may recover several lines (in old V1 format)
+            // - comments are not compressed, the lines of an event neither
+            if is_crinex && !eos && (decompressor.is_event() || !is_rinex_comment(&line_buf)) {
+                match decompressor.decompress_line(&line_buf) {
+                    Ok(recovered) if !recovered.is_empty() => {
+                        // overwrite pending content with recovered content
+                        line_buf = recovered;
+                        line_buf.push('\n');
+                    },
+                    Ok(_) => {
+                        // need more lines to recover something
+                        line_buf.clear();
+                        continue;
+                    },
+                    Err(_e) => {
+                        // catch errors nicely, simply log them:
+                        // decompression resumes on next complete epoch
+                        #[cfg(feature = "log")]
+                        error!("crinex: {}", _e);
+                        line_buf.clear();
+                        continue;
+                    },
+                }
+            }
+
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
                 let comment = line_buf.split_at(60).0.trim_end();
@@ -228,33 +248,6 @@ impl Record {
                 continue;
             }
 
-            // CRINEX special case:
-            // - apply decompression algorithm prior moving forward
-            // - decompress new pending line, which may recover several lines (in old V1 format)
-            if is_crinex {
-                let line_len = line_buf.len();
-
-                // catch errors nicely, simply log them
-                // it is normal to abort on final line for example
-                match decompressor.decompress(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
-                    Ok(size) => {
-                        if size > 0 {
-                            // clear and overwrite pending content with recovered content
-                            // we should have valid ASCII UTF-8 at all times, at this point
-                            let recovered =
-                                from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
-
-                            line_buf.clear();
-                            line_buf = recovered.to_string();
-                            line_buf.push('\n');
-                        }
-                    },
-                    Err(_) => {
-                        crinex_error = true;
-                    },
-                }
-            }
-
             let mut new_epoch = false;
 
             // we're trying to stack a complete epoch
@@ -402,7 +395,7 @@ impl Record {
             // always stack new content
             epoch_buf.push_str(&line_buf);
 
-            if eos || crinex_error {
+            if eos {
                 break;
             }
 
-- 
2.43.0


From 1bf4b6f465113350fafdcee328569a045384e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 15/44] fix: X pseudo observables and physics of the hail
 indicator

---
 src/observable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index f17bf8b..82655cf 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -70,7 +70,7 @@ impl Observable {
             Self::WindSpeed => matches!(rhs, Self::WindSpeed),
             Self::WindDirection => matches!(rhs, Self::WindDirection),
             Self::RainIncrement => matches!(rhs, Self::RainIncrement),
-            Self::HailIndicator => matches!(rhs, Self::RainIncrement),
+            Self::HailIndicator => matches!(rhs, Self::HailIndicator),
             Self::FrequencyRatio => matches!(rhs, Self::FrequencyRatio),
         }
     }
@@ -381,6 +381,8 @@ impl std::str::FromStr for Observable {
                         Ok(Self::Power(content.to_string()))
                     } else if content.starts_with('D') {
                         Ok(Self::Doppler(content.to_string()))
+                    } else if content.starts_with('X') {
+                        Ok(Self::ChannelNumber(content.to_string()))
                     } else {
                         Err(ParsingError::UnknownObservable)
                     }
-- 
2.43.0


From c023f083267eb66bfb299a1c77f97e8d2f121ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 16/44] fix: meteo files (continuation lines, blank fields,
 last line, header of observables and sensors)

---
 src/header/parsing.rs   | 20 +++++++++++++++++++-
 src/meteo/formatting.rs | 12 ++++++++++--
 src/meteo/header.rs     |  6 +++---
 src/meteo/parsing.rs    | 31 ++++++++++++++++++++++++-------
 4 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 5af9049..fd07af4 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -431,7 +431,21 @@ impl Header {
                     }
                 }
             } else if marker.contains("SENSOR MOD/TYPE/ACC") {
-                if let Ok(sensor) = MeteoSensor::from_str(content) {
+                if let Ok(mut sensor) = MeteoSensor::from_str(content) {
+                    // its position may come first
+                    let located = meteo.sensors.iter().position(|located| {
+                        *located
+                            == MeteoSensor {
+                                position: located.position,
+                                height: located.height,
+                                ..MeteoSensor::new(sensor.observable.clone())
+                            }
+                    });
+                    if let Some(located) = located {
+                        let located = meteo.sensors.remove(located);
+                        sensor.position = located.position;
+                        sensor.height = located.height;
+                    }
                     meteo.sensors.push(sensor)
                 }
             } else if marker.contains("SENSOR POS XYZ/H") {
@@ -458,6 +472,10 @@ impl Header {
                 let h = h.trim();
                 let h = f64::from_str(h).or(Err(ParsingError::SensorCoordinates))?;
 
+                if meteo.sensors.iter().all(|s| s.observable != observable) {
+                    meteo.sensors.push(MeteoSensor::new(observable.clone()));
+                }
+
                 for sensor in meteo.sensors.iter_mut() {
                     if sensor.observable == observable {
                         *sensor = sensor.with_position((x, y, z));
diff --git a/src/meteo/formatting.rs b/src/meteo/formatting.rs
index 5daec45..ac69d1d 100644
--- a/src/meteo/formatting.rs
+++ b/src/meteo/formatting.rs
@@ -14,6 +14,9 @@ pub fn format<W: Write>(
     record: &Record,
     header: &Header,
 ) -> Result<(), FormattingError> {
+    const FIELDS_FIRST_LINE: usize = 8;
+    const FIELDS_PER_LINE: usize = 10;
+
     let observables = &header
         .meteo
         .as_ref()
@@ -27,7 +30,12 @@ pub fn format<W: Write>(
         )?;
 
         // follow header definitions
-        for observable in observables.codes.iter() {
+        for (nth, observable) in observables.codes.iter().enumerate() {
+            // 8 fields on first line, then 10 fields per line
+            if nth >= FIELDS_FIRST_LINE && (nth - FIELDS_FIRST_LINE) % FIELDS_PER_LINE == 0 {
+                write!(w, "\n    ")?;
+            }
+
             let key = MeteoKey {
                 epoch,
                 observable: observable.clone(),
@@ -36,7 +44,7 @@ pub fn format<W: Write>(
             if let Some(observation) = record.get(&key) {
                 write!(w, "{:7.1}", observation)?;
             } else {
-                write!(w, "           ")?;
+                write!(w, "       ")?;
             }
         }
         write!(w, "{}", '\n')?;
diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 1e709c9..35b918a 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -40,13 +40,13 @@ impl HeaderFields {
             write!(w, "    {}", observable)?;
 
             if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                write!(w, "# / TYPES OF OBSERV\n      ")?;
+                writeln!(w, "# / TYPES OF OBSERV")?;
             }
 
             modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != 7 {
+        if modulo != NUM_OBSERVABLES_PER_LINE - 1 {
             writeln!(
                 w,
                 "{:>width$}",
@@ -56,7 +56,7 @@ impl HeaderFields {
         }
 
         for sensor in self.sensors.iter() {
-            writeln!(w, "{}", sensor)?;
+            write!(w, "{}", sensor)?; // terminated
         }
 
         Ok(())
diff --git a/src/meteo/parsing.rs b/src/meteo/parsing.rs
index da97c91..2eeef99 100644
--- a/src/meteo/parsing.rs
+++ b/src/meteo/parsing.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns::split_columns,
     epoch::parse_utc as parse_utc_epoch,
     prelude::{Header, MeteoKey, ParsingError, Version},
 };
@@ -28,8 +29,13 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
 /// ## Input
 ///   - header: [Header] parsed previously
 ///   - content: readable content
-pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
-    let line_len = line.len();
+pub fn parse_epoch(header: &Header, content: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
+    const FIELD_WIDTH: usize = 7;
+    const CONTINUATION_PADDING: usize = 4;
+    const FIELDS_FIRST_LINE: usize = 8;
+    const FIELDS_PER_LINE: usize = 10;
+
+    let mut lines = content.lines();
     let mut ret = Vec::<(MeteoKey, f64)>::with_capacity(8);
 
     let mut offset: usize = 18; // YY
@@ -37,7 +43,9 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
         offset += 2; // YYYY
     }
 
-    let epoch = parse_utc_epoch(&line[0..offset])?;
+    let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
+    let (date, mut rem) = split_columns(line, offset);
+    let epoch = parse_utc_epoch(date)?;
 
     let header = &header
         .meteo
@@ -47,9 +55,19 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
     let codes = &header.codes;
 
     // parse all remaining fields
-    for code in codes.iter() {
-        let end = (offset + 7).min(line_len - 1);
-        let slice = &line[offset..end];
+    for (nth, code) in codes.iter().enumerate() {
+        // 8 fields on first line, then 10 fields per line
+        let line_completed =
+            nth >= FIELDS_FIRST_LINE && (nth - FIELDS_FIRST_LINE) % FIELDS_PER_LINE == 0;
+
+        if line_completed && rem.trim().is_empty() {
+            let line = lines.next().unwrap_or_default();
+            rem = split_columns(line, CONTINUATION_PADDING).1;
+        }
+
+        let (slice, next) = split_columns(rem, FIELD_WIDTH);
+        rem = next;
+
         if let Ok(value) = slice.trim().parse::<f64>() {
             ret.push((
                 MeteoKey {
@@ -59,7 +77,6 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
                 value,
             ));
         }
-        offset += 7;
     }
     Ok(ret)
 }
-- 
2.43.0


From bc426484c5a7e243b01fe156fd0bd516ba27acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 17/44] fix: clock files (wide headers, station names like
 vehicles, FORTRAN exponents, data types line, time systems)

---
 src/clock/mod.rs      | 21 +++++--------
 src/clock/record.rs   | 73 +++++++++++++++----------------------------
 src/header/parsing.rs | 32 ++++++++++++++-----
 3 files changed, 58 insertions(+), 68 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 0673fd4..363b033 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -9,7 +9,7 @@ use std::{
 };
 
 use crate::{
-    columns::split_columns,
+    columns::{parse_float, split_columns},
     fmt_rinex,
     prelude::{FormattingError, TimeScale, Version, DOMES},
 };
@@ -63,7 +63,7 @@ impl WorkClock {
                 } else {
                     None
                 },
-                constraint: if let Ok(value) = constraint.trim().parse::<f64>() {
+                constraint: if let Ok(value) = parse_float(constraint) {
                     Some(value)
                 } else {
                     None
@@ -72,7 +72,7 @@ impl WorkClock {
         } else {
             let (name, rem) = split_columns(content, 10);
             let (domes, rem) = split_columns(rem, 10);
-            let constraint = split_columns(rem, 40).0;
+            let constraint = split_columns(rem, 45).0;
             Self {
                 name: name.trim().to_string(),
                 domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
@@ -80,7 +80,7 @@ impl WorkClock {
                 } else {
                     None
                 },
-                constraint: if let Ok(value) = constraint.trim().parse::<f64>() {
+                constraint: if let Ok(value) = parse_float(constraint) {
                     Some(value)
                 } else {
                     None
@@ -93,15 +93,11 @@ impl WorkClock {
 impl HeaderFields {
     /// Formats [HeaderFields] into [BufWriter].
     pub(crate) fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        write!(w, "{:6}", self.codes.len())?;
-
-        for (nth, code) in self.codes.iter().enumerate() {
-            write!(w, "{:6}", code,)?;
-
-            if nth % 9 == 8 {
-                writeln!(w, "# / TYPES OF DATA\n      ")?;
-            }
+        let mut line = format!("{:6}", self.codes.len());
+        for code in self.codes.iter() {
+            line.push_str(&format!("{:>6}", code.to_string()));
         }
+        writeln!(w, "{}", fmt_rinex(&line, "# / TYPES OF DATA"))?;
 
         // possible timescale
         if let Some(ts) = self.timescale {
@@ -111,7 +107,6 @@ impl HeaderFields {
                 fmt_rinex(&format!("   {:x}", ts), "TIME SYSTEM ID")
             )?;
         }
-
         Ok(())
     }
 
diff --git a/src/clock/record.rs b/src/clock/record.rs
index 9949b88..a7a2a95 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -3,7 +3,7 @@ use thiserror::Error;
 use std::{collections::BTreeMap, str::FromStr};
 
 use crate::{
-    columns::{parse_sv, split_columns},
+    columns::{parse_float, parse_sv, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale, Version, SV},
 };
@@ -148,6 +148,15 @@ pub(crate) fn is_new_epoch(line: &str) -> bool {
     }
 }
 
+/// Identifies a vehicle or a station. Stations may be named like "G123" or "E02A00DEU".
+fn parse_clock_type(name: &str) -> ClockType {
+    let name = name.trim();
+    match parse_sv(name) {
+        Ok(sv) if name.len() == 3 => ClockType::SV(sv),
+        _ => ClockType::Station(name.to_string()),
+    }
+}
+
 /// Builds `RINEX` record entry for `Clocks` data files.   
 /// Returns identified `epoch` to sort data efficiently.  
 /// Returns 2D data as described in `record` definition
@@ -166,28 +175,15 @@ pub(crate) fn parse_epoch(
     let clock_type = match version < LIMIT {
         true => {
             // old revision
-            let (system_str, r) = split_columns(rem, 5);
+            let (name, r) = split_columns(rem, 5);
             rem = r;
-            if let Ok(svnn) = parse_sv(system_str) {
-                ClockType::SV(svnn)
-            } else {
-                ClockType::Station(system_str.trim().to_string())
-            }
+            parse_clock_type(name)
         },
         false => {
             // modern revision
-            let (system_str, r) = split_columns(rem, 4);
-            if let Ok(svnn) = parse_sv(system_str) {
-                let (_, r) = split_columns(r, 6);
-                rem = r;
-                ClockType::SV(svnn)
-            } else {
-                let mut content = system_str.to_owned();
-                let (remainder, r) = split_columns(r, 6);
-                rem = r;
-                content.push_str(remainder);
-                ClockType::Station(content.trim().to_string())
-            }
+            let (name, r) = split_columns(rem, 10);
+            rem = r;
+            parse_clock_type(name)
         },
     };
 
@@ -206,17 +202,10 @@ pub(crate) fn parse_epoch(
     for (index, item) in rem.split_ascii_whitespace().enumerate() {
         match index {
             0 => {
-                profile.bias = item
-                    .trim()
-                    .parse::<f64>()
-                    .map_err(|_| ParsingError::ClockProfile)?;
+                profile.bias = parse_float(item).map_err(|_| ParsingError::ClockProfile)?;
             },
             1 => {
-                profile.bias_dev = Some(
-                    item.trim()
-                        .parse::<f64>()
-                        .map_err(|_| ParsingError::ClockProfile)?,
-                );
+                profile.bias_dev = Some(parse_float(item).map_err(|_| ParsingError::ClockProfile)?);
             },
             _ => {},
         }
@@ -225,32 +214,20 @@ pub(crate) fn parse_epoch(
         for (index, item) in line.split_ascii_whitespace().enumerate() {
             match index {
                 0 => {
-                    profile.drift = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
+                    profile.drift =
+                        Some(parse_float(item).map_err(|_| ParsingError::ClockProfile)?);
                 },
                 1 => {
-                    profile.drift_dev = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
+                    profile.drift_dev =
+                        Some(parse_float(item).map_err(|_| ParsingError::ClockProfile)?);
                 },
                 2 => {
-                    profile.drift_change = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
+                    profile.drift_change =
+                        Some(parse_float(item).map_err(|_| ParsingError::ClockProfile)?);
                 },
                 3 => {
-                    profile.drift_change_dev = Some(
-                        item.trim()
-                            .parse::<f64>()
-                            .map_err(|_| ParsingError::ClockProfile)?,
-                    );
+                    profile.drift_change_dev =
+                        Some(parse_float(item).map_err(|_| ParsingError::ClockProfile)?);
                 },
                 _ => {},
             }
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index fd07af4..764beb8 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -73,6 +73,9 @@ impl Header {
 
         let mut line = String::with_capacity(128);
 
+        // column of the labels
+        let mut label_column = 60;
+
         loop {
             line.clear();
 
@@ -82,10 +85,17 @@ impl Header {
 
             let line = line.trim_end_matches(['\n', '\r']);
 
-            if line.len() < 60 {
+            // modern clock files have wider lines
+            if line
+                .get(65..)
+                .map_or(false, |label| label.starts_with("RINEX VERSION / TYPE"))
+            {
+                label_column = 65;
+            }
+            if line.len() < label_column {
                 continue; // --> invalid header content
             }
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = line.split_at(label_column);
             ///////////////////////////////
             // [0] END OF HEADER
             //     --> done parsing
@@ -290,20 +300,21 @@ impl Header {
                     return Err(ParsingError::NonSupportedVersion);
                 }
             } else if marker.contains("PGM / RUN BY / DATE") {
-                let (pgm, rem) = line.split_at(20);
+                let width = if label_column > 60 { 21 } else { 20 };
+                let (pgm, rem) = content.split_at(width);
                 let pgm = pgm.trim();
                 if pgm.len() > 0 {
                     program = Some(pgm.to_string());
                 }
 
-                let (runby, rem) = rem.split_at(20);
+                let (runby, rem) = rem.split_at(width);
 
                 let runby = runby.trim();
                 if runby.len() > 0 {
                     run_by = Some(runby.to_string());
                 }
 
-                let date_str = rem.split_at(20).0.trim();
+                let date_str = rem.trim();
                 if date_str.len() > 0 {
                     date = Some(date_str.to_string());
                 }
@@ -671,7 +682,9 @@ impl Header {
                     }
                 }
             } else if marker.contains("STATION NAME / NUM") {
-                let (name, domes) = content.split_at(4);
+                // names are extended since 3.04
+                let width = if version < Version::new(3, 4) { 4 } else { 9 };
+                let (name, domes) = content.split_at(width);
                 clock = clock.site(name.trim());
                 if let Ok(domes) = DOMES::from_str(domes.trim()) {
                     clock = clock.domes(domes);
@@ -857,7 +870,12 @@ impl Header {
                 //}
             } else if marker.contains("TIME SYSTEM ID") {
                 let timescale = content.trim();
-                let ts = TimeScale::from_str(timescale)?;
+                let ts = match timescale {
+                    // standard labels that Hifitime does not know
+                    "GLO" => TimeScale::UTC,
+                    "QZS" => TimeScale::QZSST,
+                    timescale => TimeScale::from_str(timescale)?,
+                };
                 clock = clock.timescale(ts);
             } else if marker.contains("DESCRIPTION") {
                 // IONEX description
-- 
2.43.0


From 920ccdfc4afc76c3e7b455cf2f2ebf15206b745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 18/44] fix: antenna files (validity periods, serial numbers,
 azimuth increment, calibration methods and dates, lookup by serial number)

---
 src/antex/antenna/mod.rs |  2 +-
 src/antex/record.rs      | 59 +++++++++++++++++++++++++---------------
 src/columns.rs           | 13 ++++++++-
 src/hardware.rs          |  2 +-
 src/header/parsing.rs    |  2 +-
 src/lib.rs               |  6 +++-
 6 files changed, 57 insertions(+), 27 deletions(-)

diff --git a/src/antex/antenna/mod.rs b/src/antex/antenna/mod.rs
index 97ab315..2b3f991 100644
--- a/src/antex/antenna/mod.rs
+++ b/src/antex/antenna/mod.rs
@@ -82,7 +82,7 @@ impl Antenna {
     /// and should only consider recently calibrated data.
     pub fn is_valid(&self, now: Epoch) -> bool {
         if let Some((from, until)) = self.calibration.validity_period {
-            now > from && now < until
+            now >= from && now <= until
         } else {
             true
         }
diff --git a/src/antex/record.rs b/src/antex/record.rs
index d28b13d..d61d5af 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -2,9 +2,10 @@ use std::{collections::HashMap, str::FromStr};
 
 use crate::{
     antex::{Antenna, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna},
-    columns::{parse_sv, split_columns},
+    columns::{parse_cospar, parse_float, parse_sv, split_columns},
+    epoch::{gregorian_epoch, parse_fraction_nanos},
     linspace::Linspace,
-    prelude::{Carrier, Epoch, ParsingError, COSPAR, SV},
+    prelude::{Carrier, Epoch, ParsingError, TimeScale, SV},
 };
 
 #[cfg(feature = "serde")]
@@ -122,11 +123,25 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         .parse::<u8>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
 
-    Ok(Epoch::from_gregorian_utc_at_midnight(
-        2000 + year,
+    match gregorian_epoch(
+        year.saturating_add(2000),
         month,
         day,
-    ))
+        0,
+        0,
+        0,
+        0,
+        TimeScale::UTC,
+    ) {
+        Ok(date) => Ok(date),
+        Err(_) => {
+            // standard descriptions start with the day
+            let (year, day) = (day as i32, u8::try_from(year).unwrap_or_default());
+            let century = if year < 79 { 2000 } else { 1900 };
+
+            gregorian_epoch(century + year, month, day, 0, 0, 0, 0, TimeScale::UTC)
+        },
+    }
 }
 
 /*
@@ -171,19 +186,15 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        nanos = ss[dot + 1..]
-            .trim()
-            .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+        nanos = parse_fraction_nanos(ss[dot + 1..].trim())?;
     } else {
         secs = ss
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
     }
 
-    Ok(Epoch::from_gregorian_utc(
-        year, month, day, hh, mm, secs, nanos,
-    ))
+    // expressed in GPS time
+    gregorian_epoch(year, month, day, hh, mm, secs, nanos, TimeScale::GPST)
 }
 
 /// Parses entire Antenna block
@@ -201,8 +212,8 @@ pub(crate) fn parse_antenna(
     for line in lines {
         let (content, marker) = split_columns(line, 60);
         if marker.contains("TYPE / SERIAL NO") {
-            let (ant_igs, rem) = split_columns(content, 16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = split_columns(rem, 20 + 4);
+            let (ant_igs, rem) = split_columns(content, 20);
+            let (block1, rem) = split_columns(rem, 20);
             let (block2, rem) = split_columns(rem, 10);
             let (block3, _rem) = split_columns(rem, 10);
 
@@ -214,12 +225,13 @@ pub(crate) fn parse_antenna(
                 false => AntennaSpecific::SvAntenna(SvAntenna {
                     igs_type: ant_igs.trim().to_string(),
                     sv: parse_sv(block1)?,
-                    cospar: COSPAR::from_str(block3)?,
+                    cospar: parse_cospar(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
-                    igs_type: ant_igs.trim().to_string(),
+                    // antenna code, followed by the radome
+                    igs_type: split_columns(ant_igs, 16).0.trim().to_string(),
                     serial_number: {
-                        if !block1.is_empty() && !block1.eq("NONE") {
+                        if !block1.is_empty() {
                             Some(block1.to_string())
                         } else {
                             None
@@ -235,7 +247,7 @@ pub(crate) fn parse_antenna(
             let (date, _) = split_columns(rem, 10);
 
             let cal = Calibration {
-                method: CalibrationMethod::from_str(method.trim()).unwrap(),
+                method: CalibrationMethod::from_str(method.trim()).unwrap_or_default(),
                 number: number
                     .trim()
                     .parse::<u16>()
@@ -248,6 +260,10 @@ pub(crate) fn parse_antenna(
             antenna.calibration = cal.clone();
         } else if marker.contains("VALID FROM") {
             valid_from = parse_validity_epoch(content.trim())?;
+
+            // still valid, unless told otherwise
+            let forever = gregorian_epoch(9999, 12, 31, 23, 59, 59, 0, TimeScale::GPST)?;
+            antenna = antenna.with_validity_period(valid_from, forever);
         } else if marker.contains("VALID UNTIL") {
             let valid_until = parse_validity_epoch(content.trim())?;
 
@@ -257,10 +273,9 @@ pub(crate) fn parse_antenna(
 
             antenna.sinex_code = sinex.trim().to_string();
         } else if marker.contains("DAZI") {
-            //let dazi = content.split_at(20).0.trim();
-            //if let Ok(dazi) = f64::from_str(dazi) {
-            //    antenna = antenna.with_dazi(dazi)
-            //}
+            if let Ok(dazi) = parse_float(split_columns(content, 20).0) {
+                antenna = antenna.with_dazi(dazi);
+            }
         } else if marker.contains("# OF FREQUENCIES") {
             /*
              * we actually do not care about this field
diff --git a/src/columns.rs b/src/columns.rs
index 637147a..dd8bc60 100644
--- a/src/columns.rs
+++ b/src/columns.rs
@@ -1,6 +1,8 @@
 //! Fixed columns helpers: any column of a line may be omitted.
 
-use crate::prelude::{Constellation, ParsingError, SV};
+use crate::prelude::{Constellation, ParsingError, COSPAR, SV};
+
+use gnss_rs::cospar::Error as CosparParsingError;
 
 /// Splits this line at the n-th column.
 /// Columns past the end of the line are omitted (blank) columns.
@@ -25,3 +27,12 @@ pub(crate) fn parse_sv(value: &str) -> Result<SV, ParsingError> {
     let _ = system.parse::<Constellation>()?;
     Ok(value.parse::<SV>()?)
 }
+
+/// Parses one launch number: year, three digits number and piece code.
+pub(crate) fn parse_cospar(value: &str) -> Result<COSPAR, ParsingError> {
+    let value = value.trim();
+    match value.find('-') {
+        Some(dash) if value.is_ascii() && value.len() >= dash + 4 => Ok(value.parse::<COSPAR>()?),
+        _ => Err(CosparParsingError::InvalidFormat.into()),
+    }
+}
diff --git a/src/hardware.rs b/src/hardware.rs
index 7b8561d..5cba0be 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -301,7 +301,7 @@ impl SvAntenna {
     }
     pub fn with_cospar(&self, c: &str) -> Self {
         let mut s = self.clone();
-        if let Ok(cospar) = COSPAR::from_str(c) {
+        if let Ok(cospar) = crate::columns::parse_cospar(c) {
             s.cospar = Some(cospar);
         }
         s
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 764beb8..ab99e02 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -703,7 +703,7 @@ impl Header {
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
-                cospar = Some(COSPAR::from_str(content.trim())?);
+                cospar = Some(crate::columns::parse_cospar(content)?);
             } else if marker.contains("GLONASS SLOT / FRQ #") {
                 //TODO
                 // This should be used when dealing with Glonass carriers
diff --git a/src/lib.rs b/src/lib.rs
index a9cb408..c56b4b2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1499,7 +1499,11 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.igs_type.to_lowercase().eq(sn) {
+                        if rx_ant
+                            .serial_number
+                            .as_ref()
+                            .map_or(false, |serial| serial.to_lowercase().eq(sn))
+                        {
                             freqdata
                                 .get(&freq)
                                 .map(|freqdata| freqdata.apc_eccentricity)
-- 
2.43.0


From af092365f28d91564c50bf53dc042da437d98ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:51 +0000
Subject: [PATCH 19/44] fix: ionosphere maps (RMS maps, full width data points,
 grids, map dimension, mapping function, reference system, number of
 satellites)

---
 src/header/parsing.rs      | 42 ++++++++++++++++++--------------------
 src/ionex/header.rs        |  2 +-
 src/ionex/parsing.rs       | 21 +++++++++++++------
 src/ionex/quantized.rs     |  7 +++++--
 src/ionex/rinex/feature.rs |  8 +++++---
 src/ionex/system.rs        | 13 ++++++++++--
 src/ionex/tec.rs           |  4 ++--
 src/linspace.rs            | 23 ++++++++-------------
 src/record/parsing.rs      | 23 ++++++++++++++-------
 9 files changed, 84 insertions(+), 59 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index ab99e02..438052a 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -3,6 +3,7 @@ use crate::{
     antex::{HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
     doris::{HeaderFields as DorisHeader, Station as DorisStation},
+    columns::split_columns,
     epoch::{gregorian_epoch, parse_fraction_nanos, parse_ionex_utc as parse_ionex_utc_epoch},
     hardware::{Antenna, Receiver, SvAntenna},
     hatanaka::CRINEX,
@@ -605,7 +606,7 @@ impl Header {
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
                 observation.clock_offset_applied = n > 0;
-            } else if marker.contains("# OF SATELLITES") {
+            } else if marker.contains("# OF SATELLITES") && rinex_type != Type::IonosphereMaps {
                 // ---> we don't need this info,
                 //     user can determine it by analyzing the record
             } else if marker.contains("PRN / # OF OBS") {
@@ -906,9 +907,15 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
-            } else if marker.contains("MAPPING FUCTION") {
-                let mapf = IonexMappingFunction::from_str(content.trim())?;
-                ionex = ionex.with_mapping_function(mapf);
+            } else if marker.contains("MAP DIMENSION") {
+                if let Ok(dim) = content.trim().parse::<u8>() {
+                    ionex = ionex.with_map_dimension(dim);
+                }
+            } else if marker.contains("MAPPING FUNCTION") {
+                // "NONE" when no mapping function was adopted
+                if let Ok(mapf) = IonexMappingFunction::from_str(content) {
+                    ionex = ionex.with_mapping_function(mapf);
+                }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
@@ -1110,24 +1117,15 @@ impl Header {
      * Parse IONEX grid
      */
     fn parse_grid(line: &str) -> Result<Linspace, ParsingError> {
-        let mut start = 0.0_f64;
-        let mut end = 0.0_f64;
-        let mut spacing = 0.0_f64;
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
-            let item = item.trim();
-            match index {
-                0 => {
-                    start = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                1 => {
-                    end = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                2 => {
-                    spacing = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                _ => {},
-            }
-        }
+        // fixed width description: 2X, 3(F6.1)
+        let (start, rem) = split_columns(split_columns(line, 2).1, 6);
+        let (end, rem) = split_columns(rem, 6);
+        let (spacing, _) = split_columns(rem, 6);
+
+        let start = f64::from_str(start.trim()).or(Err(ParsingError::IonexGridSpecs))?;
+        let end = f64::from_str(end.trim()).or(Err(ParsingError::IonexGridSpecs))?;
+        let spacing = f64::from_str(spacing.trim()).or(Err(ParsingError::IonexGridSpecs))?;
+
         if spacing == 0.0 {
             // avoid linspace verification in this case
             Ok(Linspace {
diff --git a/src/ionex/header.rs b/src/ionex/header.rs
index db73160..1ab7069 100644
--- a/src/ionex/header.rs
+++ b/src/ionex/header.rs
@@ -245,7 +245,7 @@ impl HeaderFields {
     /// Returns true if this Ionosphere Maps describes
     /// a theoretical model, not measured data
     pub fn is_theoretical_model(&self) -> bool {
-        self.observables.is_some()
+        self.observables.is_none()
     }
 
     /// Copies self and set number of stations
diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index 01d58da..7c52553 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -58,6 +58,18 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
     return Ok((fixed_lat, long1, long_spacing, fixed_alt));
 }
 
+/// Splits a line into its data points: columns of 5 characters
+fn split_data_points(line: &str) -> impl Iterator<Item = &str> {
+    const DATA_WIDTH: usize = 5;
+
+    let line = line.trim_end();
+
+    (0..line.len().div_ceil(DATA_WIDTH)).map(move |nth| {
+        let (_, data) = split_columns(line, nth * DATA_WIDTH);
+        split_columns(data, DATA_WIDTH).0.trim()
+    })
+}
+
 /// Parses all maps contained in following TEC description.
 /// This describes a serie of TEC point on an isosurface.
 /// ## Inputs
@@ -116,9 +128,8 @@ pub fn parse_tec_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
+        for item in split_data_points(line) {
             // data interpretation
-            let item = item.trim();
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(tecu) = item.parse::<i64>() {
                     let tec = TEC::from_quantized(tecu, tec_exponent);
@@ -174,7 +185,7 @@ pub fn parse_rms_map(
 
     for line in lines {
         if line.len() > 60 {
-            let marker = split_columns(line, 60).1;
+            let (content, marker) = split_columns(line, 60);
             if marker.contains("END OF RMS MAP") {
                 return Ok(());
             } else if marker.contains("EXPONENT") {
@@ -194,9 +205,7 @@ pub fn parse_rms_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
-            let item = item.trim();
-
+        for item in split_data_points(line) {
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(rms_tecu) = item.parse::<i64>() {
                     let quantized_lat = Quantized::new(fixed_lat, lat_exponent);
diff --git a/src/ionex/quantized.rs b/src/ionex/quantized.rs
index 5c67cec..d895739 100644
--- a/src/ionex/quantized.rs
+++ b/src/ionex/quantized.rs
@@ -13,12 +13,15 @@ pub struct Quantized {
 impl Quantized {
     /// Determines best suited exponent to quantize given value
     pub fn find_exponent(value: f64) -> i8 {
+        // quantized values remain exact within f64 mantissa
+        const MAX_QUANTIZED: f64 = 1.0E15;
+
         let mut val = value;
         let mut exponent = 0;
 
-        while val.fract() != 0.0 {
-            val *= 10.0;
+        while val.fract() != 0.0 && val.abs() < MAX_QUANTIZED && exponent < 18 {
             exponent += 1;
+            val = value * 10.0_f64.powi(exponent as i32);
         }
 
         exponent
diff --git a/src/ionex/rinex/feature.rs b/src/ionex/rinex/feature.rs
index cf86641..ccea666 100644
--- a/src/ionex/rinex/feature.rs
+++ b/src/ionex/rinex/feature.rs
@@ -29,9 +29,10 @@ impl Rinex {
     /// - (long_min, long_max): easternmost and westernmost longitude, in decimal degrees
     pub fn tec_map_borders(&self) -> Option<((f64, f64), (f64, f64))> {
         let ionex = self.header.ionex.as_ref()?;
+        let (lat, long) = (&ionex.grid.latitude, &ionex.grid.longitude);
         Some((
-            (ionex.grid.latitude.start, ionex.grid.latitude.end),
-            (ionex.grid.longitude.start, ionex.grid.longitude.end),
+            (lat.start.min(lat.end), lat.start.max(lat.end)),
+            (long.start.min(long.end), long.start.max(long.end)),
         ))
     }
 
@@ -68,7 +69,8 @@ impl Rinex {
     /// reflect actual content.
     pub fn ionex_altitude_range_km(&self) -> Option<(f64, f64)> {
         let header = self.header.ionex.as_ref()?;
-        Some((header.grid.height.start, header.grid.height.end))
+        let height = &header.grid.height;
+        Some((height.start.min(height.end), height.start.max(height.end)))
     }
 
     /// Designs an TEC isosurface iterator starting at lowest altitude,
diff --git a/src/ionex/system.rs b/src/ionex/system.rs
index 3c1f8e6..37e880d 100644
--- a/src/ionex/system.rs
+++ b/src/ionex/system.rs
@@ -54,7 +54,12 @@ impl std::str::FromStr for ObsSystem {
 
 impl std::fmt::Display for ObsSystem {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::BENt => f.write_str("BEN"),
+            Self::ENVisat => f.write_str("ENV"),
+            Self::ERS => f.write_str("ERS"),
+            Self::IRI => f.write_str("IRI"),
+        }
     }
 }
 
@@ -87,7 +92,11 @@ impl std::str::FromStr for Model {
 
 impl std::fmt::Display for Model {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::MIX => f.write_str("MIX"),
+            Self::NNS => f.write_str("NNS"),
+            Self::TOP => f.write_str("TOP"),
+        }
     }
 }
 
diff --git a/src/ionex/tec.rs b/src/ionex/tec.rs
index 687eae6..96d4691 100644
--- a/src/ionex/tec.rs
+++ b/src/ionex/tec.rs
@@ -53,7 +53,7 @@ impl TEC {
             height: None,
             tecu: Quantized {
                 quantized: tecu,
-                exponent: -exponent,
+                exponent: exponent.saturating_neg(),
             },
         }
     }
@@ -61,7 +61,7 @@ impl TEC {
     /// Updates RMS [TEC]
     pub(crate) fn set_quantized_rms(&mut self, rms: i64, exponent: i8) {
         self.rms = Some(Quantized {
-            exponent: -exponent,
+            exponent: exponent.saturating_neg(),
             quantized: rms,
         });
     }
diff --git a/src/linspace.rs b/src/linspace.rs
index ecc4f7b..6ee2161 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,5 +1,3 @@
-use std::ops::Rem;
-
 use crate::prelude::ParsingError;
 
 /// Linear space as used in IONEX or Antenna grid definitions.
@@ -25,20 +23,17 @@ impl Linspace {
                 spacing,
             })
         } else {
-            let r = end.rem(start);
             /*
-             * End / Start must be multiple of one another
+             * End must be reached from Start, by a whole number of increments
              */
-            if r == 0.0 {
-                if end.rem(spacing) == 0.0 {
-                    Ok(Self {
-                        start,
-                        end,
-                        spacing,
-                    })
-                } else {
-                    Err(ParsingError::BadIonexGridSpecs)
-                }
+            let increments = (end - start) / spacing;
+
+            if increments >= 0.0 && (increments - increments.round()).abs() < 1.0E-6 {
+                Ok(Self {
+                    start,
+                    end,
+                    spacing,
+                })
             } else {
                 Err(ParsingError::BadIonexGridSpecs)
             }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index f921d54..63a332b 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -23,6 +23,7 @@ use crate::{
         Record as IonexRecord,
     },
     is_rinex_comment,
+    linspace::Linspace,
     meteo::{
         is_new_epoch as is_new_meteo_epoch, parse_epoch as parse_meteo_epoch, Record as MeteoRecord,
     },
@@ -170,9 +171,16 @@ impl Record {
 
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
-            ionex_lat_exponent = IonexQuantized::find_exponent(ionex.grid.latitude.spacing);
-            ionex_long_exponent = IonexQuantized::find_exponent(ionex.grid.longitude.spacing);
-            ionex_alt_exponent = IonexQuantized::find_exponent(ionex.grid.height.spacing);
+            // exponent that applies to any coordinates of the grid
+            let find_exponent = |grid: &Linspace| {
+                IonexQuantized::find_exponent(grid.start)
+                    .max(IonexQuantized::find_exponent(grid.end))
+                    .max(IonexQuantized::find_exponent(grid.spacing))
+            };
+
+            ionex_lat_exponent = find_exponent(&ionex.grid.latitude);
+            ionex_long_exponent = find_exponent(&ionex.grid.longitude);
+            ionex_alt_exponent = find_exponent(&ionex.grid.height);
         }
 
         // Iterate and consume, one line at a time
@@ -334,8 +342,9 @@ impl Record {
                         },
 
                         Type::IonosphereMaps => {
-                            if is_new_tec_map(&line_buf) {
-                                match parse_ionex_tec_map(
+                            if is_new_rms_map(&epoch_buf) {
+                                // augments the TEC maps, all of them were presented
+                                match parse_ionex_rms_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
@@ -347,8 +356,8 @@ impl Record {
                                     Ok(()) => {},
                                     Err(_) => {},
                                 }
-                            } else if is_new_rms_map(&line_buf) {
-                                match parse_ionex_rms_map(
+                            } else if is_new_tec_map(&line_buf) {
+                                match parse_ionex_tec_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
-- 
2.43.0


From 431c9be3e51ebd5e35a0e8ac54f74559e6fb54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 20/44] fix: ionosphere maps, data points that are not aligned

---
 src/ionex/parsing.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index 7c52553..b10db34 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -58,15 +58,19 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
     return Ok((fixed_lat, long1, long_spacing, fixed_alt));
 }
 
-/// Splits a line into its data points: columns of 5 characters
+/// Splits a line into its data points: columns of 5 characters,
+/// that are not separated when they are entirely used.
 fn split_data_points(line: &str) -> impl Iterator<Item = &str> {
     const DATA_WIDTH: usize = 5;
 
-    let line = line.trim_end();
+    line.split_ascii_whitespace().flat_map(|items| {
+        let first = items.len().saturating_sub(1) % DATA_WIDTH + 1;
+        let (item, items) = split_columns(items, first);
 
-    (0..line.len().div_ceil(DATA_WIDTH)).map(move |nth| {
-        let (_, data) = split_columns(line, nth * DATA_WIDTH);
-        split_columns(data, DATA_WIDTH).0.trim()
+        std::iter::once(item).chain((0..items.len() / DATA_WIDTH).map(move |nth| {
+            let (_, items) = split_columns(items, nth * DATA_WIDTH);
+            split_columns(items, DATA_WIDTH).0
+        }))
     })
 }
 
-- 
2.43.0


From 2f3d4c97c834ac6e4422950ea0cfd88f3c4762ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:09 +0000
Subject: [PATCH 21/44] fix: DORIS files (epochs, columns of the observations,
 stations, beacon frequencies, satellite name)

---
 src/doris/parsing.rs  | 134 ++++++++++++++++++------------------------
 src/doris/station.rs  |   6 +-
 src/header/parsing.rs |   7 ++-
 3 files changed, 65 insertions(+), 82 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 34b50c3..6e919b9 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns::split_columns,
     doris::{DorisKey, Observations, SignalKey, SignalObservation, Station},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     observation::ClockObservation,
@@ -6,69 +7,58 @@ use crate::{
     prelude::{Header, Observable, ParsingError, TimeScale},
 };
 
+use std::str::FromStr;
+
 /// Returns true if forwarded content does match new DORIS measurement.
 pub fn is_new_epoch(line: &str) -> bool {
     line.starts_with('>')
 }
 
+/// Parses the observations of this line, and returns the number of observables
+/// that were described since the beginning of this [Station].
 fn parse_observations(
     line: &str,
     mut obs_ptr: usize,
     station: &Station,
     observables: &[Observable],
-    numobs: usize,
     observations: &mut Observations,
-) -> Result<(), ParsingError> {
+) -> usize {
+    const OBSERVABLES_PER_LINE: usize = 5;
     const OBSERVABLE_WIDTH: usize = 14;
 
-    let mut offset = 0;
-    let line_len = line.len();
+    let mut rem = line;
 
-    loop {
-        let mut m1 = Option::<u8>::None;
-        let mut m2 = Option::<u8>::None;
+    for _ in 0..OBSERVABLES_PER_LINE {
+        // abnormal content (past last observable) is ignored
+        let Some(observable) = observables.get(obs_ptr) else {
+            break;
+        };
 
-        if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH..offset + OBSERVABLE_WIDTH + 1];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m1 = Some(flag);
-            }
-        }
+        let (value, m1, m2);
 
-        if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH + 1..offset + OBSERVABLE_WIDTH + 2];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m2 = Some(flag);
-            }
-        }
+        (value, rem) = split_columns(rem, OBSERVABLE_WIDTH);
+        (m1, rem) = split_columns(rem, 1);
+        (m2, rem) = split_columns(rem, 1);
 
-        if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = &line[offset..offset + OBSERVABLE_WIDTH];
-            println!("slice: \"{}\"", slice);
-            if let Ok(value) = slice.trim().parse::<f64>() {
-                let key = SignalKey {
-                    station: station.clone(),
-                    observable: observables[obs_ptr].clone(),
-                };
-
-                observations
-                    .signals
-                    .insert(key, SignalObservation { m1, m2, value });
-            }
-        }
+        if let Ok(value) = value.trim().parse::<f64>() {
+            let key = SignalKey {
+                station: station.clone(),
+                observable: observable.clone(),
+            };
 
-        offset += OBSERVABLE_WIDTH;
-        obs_ptr += 1;
+            let signal = SignalObservation {
+                m1: m1.parse::<u8>().ok(),
+                m2: m2.parse::<u8>().ok(),
+                value,
+            };
 
-        if obs_ptr == numobs {
-            // abnormal content: abort and avoid overflowing
-            break;
+            observations.signals.insert(key, signal);
         }
+
+        obs_ptr += 1;
     }
 
-    Ok(())
+    obs_ptr
 }
 
 /// Parse all DORIS measurements from forwarded content.
@@ -77,17 +67,16 @@ pub fn parse_epoch(
     header: &Header,
     content: &str,
 ) -> Result<(DorisKey, Observations), ParsingError> {
-    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN  0".len();
-    const CLOCK_OFFSET: usize = 26;
-    const CLOCK_SIZE: usize = 14;
-    const MIN_EPOCH_SIZE: usize = EPOCH_SIZE + CLOCK_SIZE + 2;
+    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN".len();
+    const FLAG_SIZE: usize = "  0".len();
+    const NUM_STATIONS_SIZE: usize = "  2".len();
+    const CLOCK_SIZE: usize = "       -0.151364695".len();
 
     let mut obs_ptr = 0;
-    let flag = EpochFlag::default();
 
     let null_clock = ClockObservation::default();
 
-    let mut station = Option::<Station>::None;
+    let mut station = Option::<&Station>::None;
     let mut observations = Observations::default();
 
     let mut lines = content.lines();
@@ -97,25 +86,21 @@ pub fn parse_epoch(
         .as_ref()
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
-    let observables = &doris.observables;
-    let numobs = observables.len();
-
-    let stations = &doris.stations;
-
     // parse TAI timestamp
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
-    let line_len = line.len();
 
-    if line_len < MIN_EPOCH_SIZE {
-        return Err(ParsingError::EpochFormat);
-    }
+    let (epoch, rem) = split_columns(split_columns(line, 2).1, EPOCH_SIZE);
+    let (flag, rem) = split_columns(rem, FLAG_SIZE);
+    let (_num_stations, rem) = split_columns(rem, NUM_STATIONS_SIZE);
+    let (offset_s, clock_extrapolated) = split_columns(rem, CLOCK_SIZE);
 
-    let epoch = parse_epoch_in_timescale(&line[2..2 + EPOCH_SIZE], TimeScale::TAI)?;
+    let epoch = parse_epoch_in_timescale(epoch, TimeScale::TAI)?;
+    let flag = EpochFlag::from_str(flag.trim())?;
 
     let key = DorisKey { epoch, flag };
 
     // parse clock field
-    let offset_s = line[CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE]
+    let offset_s = offset_s
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::DorisClockParsing)?;
@@ -123,40 +108,33 @@ pub fn parse_epoch(
     observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
 
     // clock extrapolated ?
-    observations.clock_extrapolated = false;
-
-    if line_len > CLOCK_OFFSET + CLOCK_SIZE {
-        if line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1") {
-            observations.clock_extrapolated = true;
-        }
-    }
+    observations.clock_extrapolated = clock_extrapolated.trim().eq("1");
 
     // parse following stations
     for line in lines {
-        if line.starts_with('D') {
+        let (station_id, rem) = split_columns(line, 3);
+
+        if let Some(station_num) = station_id.strip_prefix('D') {
             obs_ptr = 0;
 
             // station number
-            let station_num = line[1..]
+            let station_num = station_num
                 .trim()
-                .parse::<usize>()
+                .parse::<u16>()
                 .map_err(|_| ParsingError::DorisStationFormat)?;
 
             // identify station
-            if let Some(s) = stations.get(station_num) {
-                station = Some(s.clone());
-            }
+            station = doris.stations.iter().find(|s| s.key == station_num);
         }
 
-        if let Some(station) = &station {
-            parse_observations(
-                &line[4..],
+        if let Some(station) = station {
+            obs_ptr = parse_observations(
+                rem,
                 obs_ptr,
-                &station,
-                observables,
-                numobs,
+                station,
+                &doris.observables,
                 &mut observations,
-            )?;
+            );
         }
     }
 
diff --git a/src/doris/station.rs b/src/doris/station.rs
index 06ba610..e795877 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -25,12 +25,12 @@ impl Station {
 
     /// Station S1 Frequency shift factor
     pub fn s1_frequency_shift(&self) -> f64 {
-        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 
     /// Station U2 Frequency shift factor
     pub fn u2_frequency_shift(&self) -> f64 {
-        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 }
 
@@ -73,7 +73,7 @@ impl std::fmt::Display for Station {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         write!(
             f,
-            "D{:02}  {} {:<29} {}  {}   {}",
+            "D{:02}  {:<4} {:<29} {}  {} {:3}",
             self.key, self.label, self.site, self.domes, self.gen, self.k_factor
         )
     }
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 438052a..123b61b 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -946,6 +946,9 @@ impl Header {
             } else if marker.contains("LON1 / LON2 / DLON") {
                 let grid = Self::parse_grid(content)?;
                 ionex = ionex.with_longitude_grid(grid);
+            } else if marker.contains("SATELLITE NAME") {
+                // DORIS special case
+                doris.satellite = content.trim().to_string();
             } else if marker.contains("L2 / L1 DATE OFFSET") {
                 // DORIS special case
                 let content = content[1..].trim();
@@ -954,7 +957,9 @@ impl Header {
                     .parse::<f64>()
                     .or(Err(ParsingError::DorisL1L2DateOffset))?;
 
-                doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
+                // printed with nanosecond precision
+                let time_offset_ns = (time_offset_us * 1.0E3).round();
+                doris.u2_s1_time_offset = Duration::from_nanoseconds(time_offset_ns);
             } else if marker.contains("STATION REFERENCE") {
                 // DORIS special case
                 let station = DorisStation::from_str(content.trim())?;
-- 
2.43.0


From 7b324fd7b295f6870b625bcb19d0669ed0849d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 22/44] fix: non ASCII text and non finite values in a few
 lines

---
 src/header/parsing.rs | 18 +++++++++++++++---
 src/lib.rs            | 17 +++++------------
 src/record/parsing.rs |  2 +-
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 123b61b..26383f6 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -74,13 +74,23 @@ impl Header {
 
         let mut line = String::with_capacity(128);
 
+        // lines that may contain any text
+        const FREE_TEXT: [&str; 6] = [
+            "COMMENT",
+            "PGM / RUN BY / DATE",
+            "OBSERVER / AGENCY",
+            "MARKER NAME",
+            "REC # / TYPE / VERS",
+            "ANT # / TYPE",
+        ];
+
         // column of the labels
         let mut label_column = 60;
 
         loop {
             line.clear();
 
-            if read_rinex_line(reader, &mut line)? == 0 {
+            if read_rinex_line(reader, &mut line, &FREE_TEXT)? == 0 {
                 break; // end of stream
             }
 
@@ -697,7 +707,7 @@ impl Header {
             } else if marker.contains("INTERVAL") {
                 let intv_str = content.split_at(20).0.trim();
                 if let Ok(interval) = f64::from_str(intv_str) {
-                    if interval > 0.0 {
+                    if interval > 0.0 && interval.is_finite() {
                         // INTERVAL = '0' may exist, in case
                         // of Varying TEC map intervals
                         sampling_interval = Some(Duration::from_seconds(interval));
@@ -955,7 +965,9 @@ impl Header {
 
                 let time_offset_us = content
                     .parse::<f64>()
-                    .or(Err(ParsingError::DorisL1L2DateOffset))?;
+                    .ok()
+                    .filter(|offset| offset.is_finite())
+                    .ok_or(ParsingError::DorisL1L2DateOffset)?;
 
                 // printed with nanosecond precision
                 let time_offset_ns = (time_offset_us * 1.0E3).round();
diff --git a/src/lib.rs b/src/lib.rs
index c56b4b2..9ae1cbe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,30 +236,23 @@ pub(crate) fn is_rinex_comment(content: &str) -> bool {
 }
 
 /// Reads next line into `line`. RINEX is made of ASCII text in fixed columns: any other byte
-/// stands for one unknown character, except in free text that it does not misalign.
+/// stands for one unknown character, except in free text (identified by its label) that it
+/// does not misalign.
 pub(crate) fn read_rinex_line<R: BufRead>(
     reader: &mut R,
     line: &mut String,
+    free_text: &[&str],
 ) -> Result<usize, std::io::Error> {
-    const FREE_TEXT: [&str; 6] = [
-        "COMMENT",
-        "PGM / RUN BY / DATE",
-        "OBSERVER / AGENCY",
-        "MARKER NAME",
-        "REC # / TYPE / VERS",
-        "ANT # / TYPE",
-    ];
-
     let mut bytes = Vec::<u8>::with_capacity(128);
     let size = reader.read_until(b'\n', &mut bytes)?;
 
     match std::str::from_utf8(&bytes) {
         Ok(text)
             if text.is_ascii()
-                || ([20, 40].iter().all(|nth| text.is_char_boundary(*nth))
+                || ([20, 21, 40, 42].iter().all(|nth| text.is_char_boundary(*nth))
                     && text
                         .get(60..)
-                        .is_some_and(|label| FREE_TEXT.contains(&label.trim()))) =>
+                        .is_some_and(|label| free_text.contains(&label.trim()))) =>
         {
             line.push_str(text);
         },
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 63a332b..b02656a 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -185,7 +185,7 @@ impl Record {
 
         // Iterate and consume, one line at a time
         loop {
-            if read_rinex_line(reader, &mut line_buf)? == 0 {
+            if read_rinex_line(reader, &mut line_buf, &["COMMENT"])? == 0 {
                 // reached EOS
                 // we might still have something to process prior exiting
                 eos |= true;
-- 
2.43.0


From 880cd90c49e365898728810c77774dff8ca3db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 23/44] fix: production attributes and standard file names,
 observation epochs listed once

---
 src/doris/station.rs  |  2 +-
 src/epoch.rs          | 10 +++++
 src/hardware.rs       |  7 ++--
 src/lib.rs            | 88 +++++++++++++++++--------------------------
 src/production/ffu.rs |  2 +-
 src/production/mod.rs | 37 +++++++++---------
 src/production/ppu.rs |  2 +-
 7 files changed, 70 insertions(+), 78 deletions(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index e795877..32a0f4a 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -37,7 +37,7 @@ impl Station {
 impl std::str::FromStr for Station {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
-        if content.len() < 40 {
+        if content.len() < 40 || !content.is_ascii() {
             return Err(ParsingError::DorisStationFormat);
         }
 
diff --git a/src/epoch.rs b/src/epoch.rs
index 87d3318..c55f7ff 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -260,6 +260,16 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
  * Until Hifitime provides a decomposition method in timescale other than UTC
  * we have this tweak to decompose %Y %M %D %HH %MM %SS and without nanoseconds
  */
+/// Day of year (1 to 366) this [Epoch] belongs to, in its own [TimeScale]
+pub(crate) fn epoch_day_of_year(e: Epoch) -> u32 {
+    const ELAPSED: [u32; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
+
+    let (y, m, d, _, _, _, _) = epoch_decompose(e);
+    let is_leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
+
+    ELAPSED[m as usize - 1] + d as u32 + (is_leap && m > 2) as u32
+}
+
 pub(crate) fn epoch_decompose(e: Epoch) -> (i32, u8, u8, u8, u8, u8, u32) {
     let isofmt = e.to_gregorian_str(e.time_scale);
     let mut datetime = isofmt.split('T');
diff --git a/src/hardware.rs b/src/hardware.rs
index 5cba0be..cae87ab 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -1,5 +1,6 @@
 //! Receiver and antenna
 use crate::{
+    columns::split_columns,
     fmt_rinex,
     prelude::{FormattingError, COSPAR, SV},
 };
@@ -63,9 +64,9 @@ impl Receiver {
 impl FromStr for Receiver {
     type Err = std::io::Error;
     fn from_str(line: &str) -> Result<Self, Self::Err> {
-        let (id, rem) = line.split_at(20);
-        let (make, rem) = rem.split_at(20);
-        let (version, _) = rem.split_at(20);
+        let (id, rem) = split_columns(line, 20);
+        let (make, rem) = split_columns(rem, 20);
+        let (version, _) = split_columns(rem, 20);
         Ok(Receiver {
             sn: id.trim().to_string(),
             model: make.trim().to_string(),
diff --git a/src/lib.rs b/src/lib.rs
index 9ae1cbe..95cd36b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,7 +96,7 @@ use flate2::{read::GzDecoder, write::GzEncoder, Compression as GzCompression};
 #[cfg(feature = "clock")]
 use std::collections::BTreeMap;
 
-use epoch::epoch_decompose;
+use epoch::{epoch_day_of_year, epoch_decompose};
 use hatanaka::CRINEX;
 use observable::Observable;
 
@@ -249,7 +249,9 @@ pub(crate) fn read_rinex_line<R: BufRead>(
     match std::str::from_utf8(&bytes) {
         Ok(text)
             if text.is_ascii()
-                || ([20, 21, 40, 42].iter().all(|nth| text.is_char_boundary(*nth))
+                || ([20, 21, 40, 42]
+                    .iter()
+                    .all(|nth| text.is_char_boundary(*nth))
                     && text
                         .get(60..)
                         .is_some_and(|label| free_text.contains(&label.trim()))) =>
@@ -508,9 +510,7 @@ impl Rinex {
         let mut filename = match rinextype {
             RinexType::IonosphereMaps => {
                 let name = match custom {
-                    Some(ref custom) => {
-                        custom.name[..std::cmp::min(3, custom.name.len())].to_string()
-                    },
+                    Some(ref custom) => custom.name.chars().take(3).collect::<String>(),
                     None => self.production.name.clone(),
                 };
                 let region = match &custom {
@@ -521,21 +521,20 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
-                            format!("{:03}", ddd)
+                            format!("{:03}", epoch_day_of_year(epoch))
                         } else {
                             format!("{:03}", self.production.doy)
                         }
                     },
                 };
                 let yy = match &custom {
-                    Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                    Some(ref custom) => format!("{:02}", custom.year % 100),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
                             let yy = epoch_decompose(epoch).0;
-                            format!("{:02}", yy - 2_000)
+                            format!("{:02}", yy.rem_euclid(100))
                         } else {
-                            format!("{:02}", self.production.year - 2_000)
+                            format!("{:02}", self.production.year % 100)
                         }
                     },
                 };
@@ -550,8 +549,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
-                            format!("{:03}", ddd)
+                            format!("{:03}", epoch_day_of_year(epoch))
                         } else {
                             "DDD".to_string()
                         }
@@ -559,11 +557,11 @@ impl Rinex {
                 };
                 if short {
                     let yy = match &custom {
-                        Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                        Some(ref custom) => format!("{:02}", custom.year % 100),
                         None => {
                             if let Some(epoch) = self.first_epoch() {
                                 let yy = epoch_decompose(epoch).0;
-                                format!("{:02}", yy - 2_000)
+                                format!("{:02}", yy.rem_euclid(100))
                             } else {
                                 "YY".to_string()
                             }
@@ -621,15 +619,20 @@ impl Rinex {
                         },
                     };
 
-                    let src = match &header.rcvr {
-                        Some(_) => 'R', // means GNSS rcvr
-                        None => {
-                            if let Some(details) = &self.production.v3_details {
-                                details.data_src.to_char()
+                    let details = match &custom {
+                        Some(custom) => custom.v3_details.as_ref(),
+                        None => self.production.v3_details.as_ref(),
+                    };
+
+                    let src = match details.map(|details| details.data_src) {
+                        Some(DataSource::Unknown) | None => {
+                            if header.rcvr.is_some() {
+                                DataSource::Receiver.to_char() // means GNSS rcvr
                             } else {
-                                'U' // means: unspecified
+                                DataSource::Unknown.to_char() // means: unspecified
                             }
                         },
+                        Some(data_src) => data_src.to_char(),
                     };
 
                     let yyyy = match &custom {
@@ -665,20 +668,9 @@ impl Rinex {
                     // FFU sampling rate
                     let ffu = match self.dominant_sampling_interval() {
                         Some(duration) => FFU::from(duration).to_string(),
-                        None => {
-                            if let Some(ref custom) = custom {
-                                if let Some(details) = &custom.v3_details {
-                                    if let Some(ffu) = details.ffu {
-                                        ffu.to_string()
-                                    } else {
-                                        "XXX".to_string()
-                                    }
-                                } else {
-                                    "XXX".to_string()
-                                }
-                            } else {
-                                "XXX".to_string()
-                            }
+                        None => match details.and_then(|details| details.ffu) {
+                            Some(ffu) => ffu.to_string(),
+                            None => "XXX".to_string(),
                         },
                     };
 
@@ -689,21 +681,9 @@ impl Rinex {
                     };
 
                     // PPU periodicity
-                    let ppu = match custom {
-                        Some(custom) => {
-                            if let Some(details) = &custom.v3_details {
-                                details.ppu
-                            } else {
-                                PPU::Unspecified
-                            }
-                        },
-                        None => {
-                            if let Some(details) = &self.production.v3_details {
-                                details.ppu
-                            } else {
-                                PPU::Unspecified
-                            }
-                        },
+                    let ppu = match details {
+                        Some(details) => details.ppu,
+                        None => PPU::Unspecified,
                     };
 
                     let fmt = match rinextype {
@@ -711,7 +691,7 @@ impl Rinex {
                         RinexType::MeteoData => "MM".to_string(),
                         RinexType::NavigationData => match constellation {
                             Some(Constellation::Mixed) | None => "MN".to_string(),
-                            Some(constell) => format!("M{:x}", constell),
+                            Some(constell) => format!("{:x}N", constell),
                         },
                         _ => unreachable!("unreachable fmt"),
                     };
@@ -753,14 +733,14 @@ impl Rinex {
 
         let first_epoch = self.first_epoch();
         let last_epoch = self.last_epoch();
-        let first_epoch_gregorian = first_epoch.map(|t0| t0.to_gregorian_utc());
+        let first_epoch_gregorian = first_epoch.map(epoch_decompose);
 
         match first_epoch_gregorian {
             Some((y, _, _, _, _, _, _)) => attributes.year = y as u32,
             _ => {},
         }
         match first_epoch {
-            Some(t0) => attributes.doy = t0.day_of_year().round() as u32,
+            Some(t0) => attributes.doy = epoch_day_of_year(t0),
             _ => {},
         }
 
@@ -1089,11 +1069,11 @@ impl Rinex {
     /// for which we return null.
     pub fn epoch_iter(&self) -> Box<dyn Iterator<Item = Epoch> + '_> {
         if let Some(r) = self.record.as_obs() {
-            Box::new(r.iter().map(|(k, _)| k.epoch))
+            Box::new(r.iter().map(|(k, _)| k.epoch).unique())
         } else if let Some(r) = self.record.as_meteo() {
             Box::new(r.iter().map(|(k, _)| k.epoch).unique())
         } else if let Some(r) = self.record.as_doris() {
-            Box::new(r.iter().map(|(k, _)| k.epoch))
+            Box::new(r.iter().map(|(k, _)| k.epoch).unique())
         } else if let Some(r) = self.record.as_nav() {
             Box::new(r.iter().map(|(k, _)| k.epoch))
         } else if let Some(r) = self.record.as_clock() {
diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index bb21fc8..a6f2c60 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -59,7 +59,7 @@ impl std::fmt::Display for FFU {
 impl std::str::FromStr for FFU {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if s.len() < 3 {
+        if s.len() < 3 || !s.is_ascii() {
             return Err(Error::InvalidFFU);
         }
         let val = s[..2].parse::<u32>().map_err(|_| Error::InvalidFFU)?;
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b6f300..83d7a0d 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -112,7 +112,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -128,7 +128,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -146,12 +146,17 @@ impl ProductionAttributes {
 impl std::str::FromStr for ProductionAttributes {
     type Err = Error;
     fn from_str(fname: &str) -> Result<Self, Self::Err> {
+        if !fname.is_ascii() {
+            return Err(Error::NonStandardFileName);
+        }
+
         let fname = fname.to_uppercase();
-        if fname.len() < 13 {
-            let offset = fname.find('.').unwrap_or(0);
-            if offset != 8 {
+        let offset = fname.find('.').unwrap_or(0);
+
+        if offset == 8 {
+            if fname.len() < offset + 4 {
                 return Err(Error::NonStandardFileName);
-            };
+            }
 
             // determine type of RINEX first
             // because it determines how to parse the "name" field
@@ -166,7 +171,12 @@ impl std::str::FromStr for ProductionAttributes {
             };
 
             Ok(Self {
-                year: year + 2_000, // year uses 2 digit in old format
+                // year uses 2 digit in old format
+                year: if year < 80 {
+                    year + 2_000
+                } else {
+                    year + 1_900
+                },
                 name: fname[..name_offset].to_string(),
                 doy: {
                     fname[4..7]
@@ -180,7 +190,6 @@ impl std::str::FromStr for ProductionAttributes {
                 v3_details: None,
             })
         } else {
-            let offset = fname.find('.').unwrap_or(0);
             if offset < 30 {
                 return Err(Error::NonStandardFileName);
             };
@@ -189,21 +198,13 @@ impl std::str::FromStr for ProductionAttributes {
                 .parse::<u32>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-            let batch = fname[5..6]
+            let batch = fname[4..6]
                 .parse::<u8>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-            // determine type of RINEX first
-            // because it determines how to parse the "name" field
-            let rtype = &fname[offset + 3..offset + 4];
-            let name_offset = match rtype {
-                "I" => 3usize, // only 3 digits on IONEX
-                _ => 4usize,
-            };
-
             Ok(Self {
                 year,
-                name: fname[..name_offset].to_string(),
+                name: fname[..4].to_string(),
                 doy: {
                     fname[16..19]
                         .parse::<u32>()
diff --git a/src/production/ppu.rs b/src/production/ppu.rs
index 2017d3a..591d2ea 100644
--- a/src/production/ppu.rs
+++ b/src/production/ppu.rs
@@ -56,7 +56,7 @@ impl std::fmt::Display for PPU {
             Self::QuarterHour => write!(f, "15M"),
             Self::Hourly => write!(f, "01H"),
             Self::Daily => write!(f, "01D"),
-            Self::Yearly => write!(f, "O1Y"),
+            Self::Yearly => write!(f, "01Y"),
             Self::Unspecified => write!(f, "00U"),
         }
     }
-- 
2.43.0


From d609b38bfc9a1e640eae8ace6a9e2b4386f92e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 24/44] fix: Keplerian positions and velocities (convergence,
 null terms, BeiDou GEO and inclination rates, argument of perigee), non
 finite clocks

---
 src/constants.rs                          |   2 +-
 src/navigation/ephemeris/kepler/helper.rs | 116 +++++++++-------------
 src/navigation/ephemeris/kepler/mod.rs    |  30 +++---
 src/navigation/ephemeris/mod.rs           |  24 ++++-
 4 files changed, 87 insertions(+), 85 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index b6d7bb7..810cf2c 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -42,7 +42,7 @@ pub(crate) struct Constants;
 #[cfg(feature = "nav")]
 impl Constants {
     /// Maximal iteration in the iterative Kepler solver
-    pub const MAX_KEPLER_ITER: u8 = 30;
+    pub const MAX_KEPLER_ITER: u16 = 300;
 
     /// Earth gravitation.
     pub const fn gm(sv: SV) -> f64 {
diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index b081122..d5a76fc 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -87,30 +87,36 @@ impl Helper {
         if self.sv.is_beidou_geo() {
             self.beidou_geo_ecef_velocity()
         } else {
-            let (x, y, _) = self.r_sv;
-            let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-            let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-            // First Derivative of orbit position
-            let (fd_x, fd_y) = self.orbit_velocity();
-            // First Derivative of rotation Matrix
-            let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
-            fd_r[(0, 0)] = cos_omega_k;
-            fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
-            fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
-            fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
-            fd_r[(1, 0)] = sin_omega_k;
-            fd_r[(1, 1)] = cos_omega_k * cos_i_k;
-            fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
-            fd_r[(1, 3)] = y * cos_omega_k * sin_i_k;
-            fd_r[(2, 1)] = sin_i_k;
-            fd_r[(2, 3)] = y * cos_i_k;
-
-            let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
-            let vel = fd_r * rhs;
-            vel / 1000.0
+            self.meo_orbit_velocity()
         }
     }
 
+    /// Returns temporal derivative [km/s] of the MEO orbit rotated by
+    /// [Self::meo_orbit_to_ecef_rotation_matrix]
+    fn meo_orbit_velocity(&self) -> Vector3 {
+        let (x, y, _) = self.r_sv;
+        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
+        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
+        // First Derivative of orbit position
+        let (fd_x, fd_y) = self.orbit_velocity();
+        // First Derivative of rotation Matrix
+        let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
+        fd_r[(0, 0)] = cos_omega_k;
+        fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
+        fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
+        fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
+        fd_r[(1, 0)] = sin_omega_k;
+        fd_r[(1, 1)] = cos_omega_k * cos_i_k;
+        fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
+        fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
+        fd_r[(2, 1)] = sin_i_k;
+        fd_r[(2, 3)] = y * cos_i_k;
+
+        let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
+        let vel = fd_r * rhs;
+        vel / 1000.0
+    }
+
     /// Returns ECEF (position, velocity) [Vector3] in (km, km/s).
     pub fn ecef_pv(&self) -> (Vector3, Vector3) {
         (self.ecef_position(), self.ecef_velocity())
@@ -128,17 +134,15 @@ impl Helper {
     /// Returns ECEF velocity [Vector3] in km/s, for BeiDou GEO specifically
     pub fn beidou_geo_ecef_velocity(&self) -> Vector3 {
         let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
 
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
+        // position and velocity in the customized inertial frame
+        let pos = self.meo_orbit_to_ecef_rotation_matrix() * Vector3::new(x, y, 0.0) / 1000.0;
+        let fd_pos = self.meo_orbit_velocity();
+
+        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0f64.to_radians());
         let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
         let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
+        let fd_rz = Omega::BDS
             * Matrix3::new(
                 -sin_omega_tk,
                 cos_omega_tk,
@@ -150,41 +154,15 @@ impl Helper {
                 0.0,
                 0.0,
             );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        vel
+        fd_rz * (rx * pos) + rz * (rx * fd_pos)
     }
 
     /// Returns ECEF (position, velocity) [Vector3]s in (km, km/s), for BeiDou GEO specifically.
     pub fn beidou_geo_ecef_pv(&self) -> (Vector3, Vector3) {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        (pos, vel)
+        (
+            self.beidou_geo_ecef_position(),
+            self.beidou_geo_ecef_velocity(),
+        )
     }
 
     /// Returns ECEF position [Vector3] in km.
@@ -265,14 +243,14 @@ impl Ephemeris {
                 break;
             }
             i += 1;
+            if i >= Constants::MAX_KEPLER_ITER {
+                #[cfg(feature = "log")]
+                error!("{} kepler iteration overflow", sv);
+                return None;
+            }
             e_k_lst = e_k;
         }
 
-        if i >= Constants::MAX_KEPLER_ITER {
-            #[cfg(feature = "log")]
-            error!("{} kepler iteration overflow", sv);
-        }
-
         // true anomaly
         let (sin_e_k, cos_e_k) = e_k.sin_cos();
         let v_k = ((1.0 - kepler.e.powi(2)).sqrt() * sin_e_k).atan2(cos_e_k - kepler.e);
@@ -292,7 +270,11 @@ impl Ephemeris {
         let di_k = perturbations.cis * x2_sin_phi_k + perturbations.cic * x2_cos_phi_k;
 
         // first derivatives
-        let fd_omega_k = perturbations.omega_dot - omega;
+        let fd_omega_k = if sv.is_beidou_geo() {
+            perturbations.omega_dot
+        } else {
+            perturbations.omega_dot - omega
+        };
 
         let fd_e_k = n / (1.0 - kepler.e * e_k.cos());
         let fd_phi_k = ((1.0 + kepler.e) / (1.0 - kepler.e)).sqrt()
@@ -367,7 +349,7 @@ impl Ephemeris {
             kepler.e,
             i_k.to_degrees(),
             omega_k.to_degrees(),
-            omega.to_degrees(),
+            kepler.omega.to_degrees(),
             v_k.to_degrees(),
             t_gpst,
             EARTH_J2000.with_mu_km3_s2(gm_m3_s2 * 1e-9),
diff --git a/src/navigation/ephemeris/kepler/mod.rs b/src/navigation/ephemeris/kepler/mod.rs
index 4b73d41..4346422 100644
--- a/src/navigation/ephemeris/kepler/mod.rs
+++ b/src/navigation/ephemeris/kepler/mod.rs
@@ -68,7 +68,8 @@ impl Ephemeris {
             omega: self.get_orbit_f64("omega")?,
             omega_0: self.get_orbit_f64("omega0")?,
             m_0: self.get_orbit_f64("m0")?,
-            toe: self.get_orbit_f64("toe")?,
+            // null (start of week) when omitted
+            toe: self.get_orbit_f64("toe").unwrap_or_default(),
         })
     }
 
@@ -87,16 +88,19 @@ impl Ephemeris {
 
     /// Retrieves Orbit [Perturbations] from [Ephemeris]
     pub fn perturbations(&self) -> Option<Perturbations> {
+        // Keplerian messages only: terms that are null are not stored
+        self.get_orbit_f64("sqrta")?;
+
         Some(Perturbations {
-            cuc: self.get_orbit_f64("cuc")?,
-            cus: self.get_orbit_f64("cus")?,
-            cic: self.get_orbit_f64("cic")?,
-            cis: self.get_orbit_f64("cis")?,
-            crc: self.get_orbit_f64("crc")?,
-            crs: self.get_orbit_f64("crs")?,
-            dn: self.get_orbit_f64("deltaN")?,
-            i_dot: self.get_orbit_f64("idot")?,
-            omega_dot: self.get_orbit_f64("omegaDot")?,
+            cuc: self.get_orbit_f64("cuc").unwrap_or_default(),
+            cus: self.get_orbit_f64("cus").unwrap_or_default(),
+            cic: self.get_orbit_f64("cic").unwrap_or_default(),
+            cis: self.get_orbit_f64("cis").unwrap_or_default(),
+            crc: self.get_orbit_f64("crc").unwrap_or_default(),
+            crs: self.get_orbit_f64("crs").unwrap_or_default(),
+            dn: self.get_orbit_f64("deltaN").unwrap_or_default(),
+            i_dot: self.get_orbit_f64("idot").unwrap_or_default(),
+            omega_dot: self.get_orbit_f64("omegaDot").unwrap_or_default(),
         })
     }
 
@@ -180,9 +184,9 @@ impl Ephemeris {
                 self.get_orbit_f64("satPosZ")?,
             );
             let (vel_x_km, vel_y_km, vel_z_km) = (
-                self.get_orbit_f64("velX")?,
-                self.get_orbit_f64("velY")?,
-                self.get_orbit_f64("velZ")?,
+                self.get_orbit_f64("velX").unwrap_or_default(),
+                self.get_orbit_f64("velY").unwrap_or_default(),
+                self.get_orbit_f64("velZ").unwrap_or_default(),
             );
 
             let position = Vector3::new(x_km, y_km, z_km);
diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index c07d8ee..410810a 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -73,7 +73,7 @@ impl Ephemeris {
 
     /// Returns TGD (if value exists) as [Duration]
     pub fn tgd(&self) -> Option<Duration> {
-        let tgd_s = self.get_orbit_f64("tgd")?;
+        let tgd_s = self.get_orbit_f64("tgd").filter(|s| s.is_finite())?;
         Some(Duration::from_seconds(tgd_s))
     }
 
@@ -92,8 +92,18 @@ impl Ephemeris {
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.get_orbit_f64("toe")?;
-        let week_dur = Duration::from_days((week * 7) as f64);
+        let sec = match self.get_orbit_f64("toe") {
+            Some(sec) => sec,
+            None => {
+                // null (start of week) in a Keplerian message
+                self.get_orbit_f64("sqrta")?;
+                0.0
+            },
+        };
+        if !sec.is_finite() {
+            return None;
+        }
+        let week_dur = Duration::from_days(week as f64 * 7.0);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
             TimeScale::GPST | TimeScale::QZSST | TimeScale::GST => {
@@ -151,7 +161,13 @@ impl Ephemeris {
             for _ in 0..max_iter {
                 dt -= a0 + a1 * dt + a2 * dt.powi(2);
             }
-            Some(Duration::from_seconds(a0 + a1 * dt + a2 * dt.powi(2)))
+            let dt = a0 + a1 * dt + a2 * dt.powi(2);
+            if !dt.is_finite() {
+                #[cfg(feature = "log")]
+                error!("{} clock state is not physical", sv);
+                return None;
+            }
+            Some(Duration::from_seconds(dt))
         }
     }
 
-- 
2.43.0


From ed680c9370194b5f50cfc5abf019112d0803aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 25/44] fix: gzip files: multiple members, errors on
 termination

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 95cd36b..e6347ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -91,7 +91,7 @@ use antex::{Antenna, FrequencyDependentData};
 use antex::{AntennaMatcher, AntennaSpecific};
 
 #[cfg(feature = "flate2")]
-use flate2::{read::GzDecoder, write::GzEncoder, Compression as GzCompression};
+use flate2::{read::MultiGzDecoder, write::GzEncoder, Compression as GzCompression};
 
 #[cfg(feature = "clock")]
 use std::collections::BTreeMap;
@@ -976,7 +976,8 @@ impl Rinex {
 
         let fd = File::open(path).expect("from_file: open error");
 
-        let reader = GzDecoder::new(fd);
+        // gzip files may be made of several members
+        let reader = MultiGzDecoder::new(fd);
         let mut reader = BufReader::new(reader);
         let mut rinex = Self::parse(&mut reader)?;
         rinex.production = file_attributes;
@@ -1006,6 +1007,9 @@ impl Rinex {
         let compression = GzCompression::new(5);
         let mut writer = BufWriter::new(GzEncoder::new(fd, compression));
         self.format(&mut writer)?;
+        // terminate the stream here: errors would be lost on drop
+        let encoder = writer.into_inner().map_err(|e| e.into_error())?;
+        encoder.finish()?;
         Ok(())
     }
 
-- 
2.43.0


From c135491f168abb78a1f60715102e6953ef0ceb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 26/44] fix: GBAS is no system of a RINEX file (its code cannot
 be formatted)

---
 src/header/parsing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 26383f6..485e848 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -301,6 +301,10 @@ impl Header {
                         }
                     },
                 }
+                // not a RINEX system: it has no one letter code
+                if constellation == Some(Constellation::GBAS) {
+                    constellation = None;
+                }
                 /*
                  * Parse version descriptor
                  */
-- 
2.43.0


From 986df6a86b7ac5b935b2653fc27e8c15ae67d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 27/44] fix: closest SBAS message, elevation and azimuth seen
 from the receiver

---
 src/navigation/ephemeris/mod.rs | 3 ++-
 src/navigation/rinex/feature.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 410810a..696074e 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -189,7 +189,8 @@ impl Ephemeris {
         let rx_orbit = Orbit::from_position(rx_x_km, rx_y_km, rx_z_km, t, fixed_body_frame);
         let tx_orbit = Orbit::from_position(tx_x_km, tx_y_km, tx_z_km, t, fixed_body_frame);
 
-        almanac.azimuth_elevation_range_sez(rx_orbit, tx_orbit, None, None)
+        // vehicle (tx) as seen from the receiver (rx)
+        almanac.azimuth_elevation_range_sez(tx_orbit, rx_orbit, None, None)
     }
 
     /// Returns True if Self is Valid at specified `t`.
diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index adc51a1..45eafda 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -63,7 +63,7 @@ impl Rinex {
                         None
                     }
                 })
-                .min_by_key(|(toc, _, _)| t - *toc)
+                .min_by_key(|(toc, _, _)| (t - *toc).abs())
         } else {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
-- 
2.43.0


From fdfca4558c3bc01c54de3e9b990e1c8cd19cbaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 28/44] fix: observations sampled and tracked in good
 conditions, epoch anomalies

---
 src/observation/rinex/feature.rs | 4 ++--
 src/observation/signal.rs        | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 0e659ba..13d8829 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -169,7 +169,7 @@ impl Rinex {
     ) -> Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_> {
         Box::new(self.phase_range_sampling_ok_iter().filter_map(|(k, sig)| {
             if let Some(lli) = sig.lli {
-                if lli.intersects(LliFlags::OK_OR_UNKNOWN) {
+                if lli == LliFlags::OK_OR_UNKNOWN {
                     Some((k, sig))
                 } else {
                     None
@@ -248,7 +248,7 @@ impl Rinex {
     /// Returns an Iterator over [Epoch]s where abnormal sampling conditions were detected.
     /// Anomalies are described by the attached [EpochFlag] in each [ObsKey].
     pub fn epoch_anomalies(&self) -> Box<dyn Iterator<Item = &ObsKey> + '_> {
-        Box::new(self.observation_keys().filter(|k| k.flag.is_ok()))
+        Box::new(self.observation_keys().filter(|k| !k.flag.is_ok()))
     }
 
     /// Form designed signal [Combination] from all observed signals.
diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 39d1b41..8945a10 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -51,18 +51,14 @@ impl SignalObservation {
     /// data when SNR or LLI are missing.
     pub fn is_ok(self) -> bool {
         let lli_ok = self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN;
-        let snr_ok = self.snr.unwrap_or_default().strong();
+        let snr_ok = self.snr.map_or(true, |snr| snr.strong());
         lli_ok && snr_ok
     }
 
     /// [Observation::is_ok] with additional SNR criteria to match (>=).
     /// SNR must then be present otherwise this is not OK.
     pub fn is_ok_snr(&self, min_snr: SNR) -> bool {
-        if self
-            .lli
-            .unwrap_or(LliFlags::OK_OR_UNKNOWN)
-            .intersects(LliFlags::OK_OR_UNKNOWN)
-        {
+        if self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN {
             if let Some(snr) = self.snr {
                 snr >= min_snr
             } else {
-- 
2.43.0


From 491618e50471a840f88e2bf0d1e2be44e1e04dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 29/44] fix: DORIS signals and clock offsets iterators
 (temperature, pressure and moisture of DORIS files)

---
 src/doris/rinex/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/doris/rinex/mod.rs b/src/doris/rinex/mod.rs
index c617a5c..8eb5a4e 100644
--- a/src/doris/rinex/mod.rs
+++ b/src/doris/rinex/mod.rs
@@ -48,7 +48,11 @@ impl Rinex {
     pub fn doris_satellite_clock_offset_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, ClockObservation)> + '_> {
-        Box::new([].into_iter())
+        if let Some(rec) = self.record.as_doris() {
+            Box::new(rec.iter().map(|(k, v)| (k.clone(), v.clock)))
+        } else {
+            Box::new([].into_iter())
+        }
     }
 
     /// Returns Iterator over all Ground [Station] observations, made by
@@ -57,6 +61,14 @@ impl Rinex {
     pub fn doris_ground_station_signals_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, SignalKey, SignalObservation)> + '_> {
-        Box::new([].into_iter())
+        if let Some(rec) = self.record.as_doris() {
+            Box::new(rec.iter().flat_map(|(k, v)| {
+                v.signals
+                    .iter()
+                    .map(move |(key, signal)| (k.clone(), key.clone(), signal.clone()))
+            }))
+        } else {
+            Box::new([].into_iter())
+        }
     }
 }
-- 
2.43.0


From 413611d9141e86076b415621350f10bc7174d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 30/44] fix: carriers of observables (Glonass P1/P2, Galileo
 C7/C8, QZSS L6Z), Glonass G2 frequency and channels, unknown constellations
 are an error

---
 src/carrier.rs | 44 +++++++++++++++++++++++++++++---------------
 src/error.rs   |  2 ++
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index dab6242..daccbf4 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -119,6 +119,10 @@ impl std::str::FromStr for Carrier {
             Ok(Self::E1)
         } else if content.eq("E5") {
             Ok(Self::E5)
+        } else if content.eq("E5A") {
+            Ok(Self::E5a)
+        } else if content.eq("E5B") {
+            Ok(Self::E5b)
         } else if content.eq("E6") {
             Ok(Self::E6)
         /*
@@ -132,6 +136,8 @@ impl std::str::FromStr for Carrier {
             Ok(Self::G2(None))
         } else if content.eq("G2A") {
             Ok(Self::G2a)
+        } else if content.eq("G3") {
+            Ok(Self::G3)
         /*
          * BeiDou
          */
@@ -145,12 +151,19 @@ impl std::str::FromStr for Carrier {
             Ok(Self::B2)
         } else if content.eq("B2I") {
             Ok(Self::B2I)
+        } else if content.eq("B2A") {
+            Ok(Self::B2A)
         } else if content.eq("B2B") {
             Ok(Self::B2B)
         } else if content.eq("B3") {
             Ok(Self::B3)
         } else if content.eq("B3A") {
             Ok(Self::B3A)
+        /*
+         * IRNSS
+         */
+        } else if content.eq("S") {
+            Ok(Self::S)
         /*
          * DORIS
          */
@@ -188,8 +201,8 @@ impl Carrier {
             Self::G1(None) => 1602.0_f64,
             Self::G1(Some(c)) => 1602.0_f64 + (*c as f64 * 9.0 / 16.0),
             Self::G2a => 1248.06_f64,
-            Self::G2(None) => 1246.06_f64,
-            Self::G2(Some(c)) => 1246.06_f64 + (*c as f64 * 7.0 / 16.0),
+            Self::G2(None) => 1246.0_f64,
+            Self::G2(Some(c)) => 1246.0_f64 + (*c as f64 * 7.0 / 16.0),
             Self::G3 => 1202.025_f64,
             /*
              * BeiDou
@@ -306,8 +319,8 @@ impl Carrier {
     /// Converts to exact Glonass carrier
     pub fn with_glonass_offset(&self, offset: i8) -> Self {
         match self {
-            Self::L1 => Self::G1(Some(offset)),
-            Self::L2 => Self::G2(Some(offset)),
+            Self::L1 | Self::G1(_) => Self::G1(Some(offset)),
+            Self::L2 | Self::G2(_) => Self::G2(Some(offset)),
             other => *other,
         }
     }
@@ -353,9 +366,9 @@ impl Carrier {
             _ => Err(Error::UnknownGPSObservable),
         }
     }
-    pub(crate) fn g1_codes() -> [&'static str; 12] {
+    pub(crate) fn g1_codes() -> [&'static str; 13] {
         [
-            "C1", "L1", "D1", "S1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
+            "C1", "L1", "D1", "S1", "P1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
         ]
     }
     pub(crate) fn g1a_codes() -> [&'static str; 12] {
@@ -363,9 +376,9 @@ impl Carrier {
             "C4A", "L4A", "D4A", "S4A", "C4B", "L4B", "D4B", "S4B", "C4X", "L4X", "D4X", "S4X",
         ]
     }
-    pub(crate) fn g2_codes() -> [&'static str; 12] {
+    pub(crate) fn g2_codes() -> [&'static str; 13] {
         [
-            "C2", "L2", "D2", "S2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
+            "C2", "L2", "D2", "S2", "P2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
         ]
     }
     pub(crate) fn g2a_codes() -> [&'static str; 12] {
@@ -409,10 +422,10 @@ impl Carrier {
             "L1C", "D1C", "S1C", "C1X", "L1X", "D1X", "S1X", "C1Z", "L1Z", "D1Z", "S1Z",
         ]
     }
-    pub(crate) fn e5_codes() -> [&'static str; 16] {
+    pub(crate) fn e5_codes() -> [&'static str; 20] {
         [
-            "C5", "L5", "D5", "S5", "C8I", "L8I", "D8I", "S8I", "C8Q", "L8Q", "D8Q", "S8Q", "C8X",
-            "L8X", "D8X", "S8X",
+            "C5", "L5", "D5", "S5", "C8", "L8", "D8", "S8", "C8I", "L8I", "D8I", "S8I", "C8Q",
+            "L8Q", "D8Q", "S8Q", "C8X", "L8X", "D8X", "S8X",
         ]
     }
     pub(crate) fn e5a_codes() -> [&'static str; 12] {
@@ -420,9 +433,10 @@ impl Carrier {
             "C5I", "L5I", "D5I", "S5I", "C5Q", "L5Q", "D5Q", "S5Q", "C5X", "L5X", "D5X", "S5X",
         ]
     }
-    pub(crate) fn e5b_codes() -> [&'static str; 12] {
+    pub(crate) fn e5b_codes() -> [&'static str; 16] {
         [
-            "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X", "L7X", "D7X", "S7X",
+            "C7", "L7", "D7", "S7", "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X",
+            "L7X", "D7X", "S7X",
         ]
     }
     pub(crate) fn e6_codes() -> [&'static str; 24] {
@@ -505,7 +519,7 @@ impl Carrier {
     pub(crate) fn qzl6_codes() -> [&'static str; 24] {
         [
             "C6", "L6", "D6", "S6", "C6S", "L6S", "D6S", "S6S", "C6L", "L6L", "D6L", "S6L", "C6X",
-            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6S", "L6S", "D6S", "S6Z",
+            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6Z", "L6Z", "D6Z", "S6Z",
         ]
     }
     fn from_qzss_observable(obs: &Observable) -> Result<Self, Error> {
@@ -656,7 +670,7 @@ impl Carrier {
                 if c.is_sbas() {
                     Self::from_geo_observable(observable)
                 } else {
-                    panic!("no known observable for constellation={}", constellation);
+                    Err(Error::UnknownConstellationObservable)
                 }
             },
         }
diff --git a/src/error.rs b/src/error.rs
index e86fdc4..8599a32 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -204,4 +204,6 @@ pub enum Error {
     UnknownSBASObservable,
     /// Non supported DORIS [Observable]
     UnknownDORISObservable,
+    /// No [Observable] is known for this [Constellation]
+    UnknownConstellationObservable,
 }
-- 
2.43.0


From 565339516f241d4a09b3253550fba75868c4c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 31/44] fix: signal combinations, multipath and TEC never mix
 epochs nor signals, and cover every epoch

---
 src/observation/rinex/feature.rs | 218 ++++++++++++++-----------------
 src/observation/rinex/tec.rs     |  52 ++++----
 src/observation/signal.rs        |   3 +-
 3 files changed, 127 insertions(+), 146 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 13d8829..953b2be 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -259,23 +259,28 @@ impl Rinex {
         let mut ret = BTreeMap::new();
 
         if combination == Combination::MelbourneWubbena {
-            for ((k_1, v_1), (_, v_2)) in self
+            // narrow lane combinations of pseudo range, per signal
+            let mut narrow_lanes = HashMap::new();
+
+            for (k, v) in self
+                .signals_combination(Combination::NarrowLane)
+                .into_iter()
+                .filter(|(k, _)| k.reference.is_pseudo_range_observable())
+            {
+                if let Some(code) = k.lhs.code() {
+                    narrow_lanes.insert((k.epoch, k.flag, k.sv, code), v);
+                }
+            }
+
+            for (k_1, v_1, v_2) in self
                 .signals_combination(Combination::WideLane)
-                .iter()
+                .into_iter()
                 .filter(|(k, _)| k.reference.is_phase_range_observable())
-                .zip(
-                    self.signals_combination(Combination::NarrowLane)
-                        .iter()
-                        .filter(|(k, _)| k.reference.is_pseudo_range_observable()),
-                )
-                .filter_map(|((k_1, v_1), (k_2, v_2))| {
-                    let lhs_1_code = k_1.lhs.code()?;
-                    let lhs_2_code = k_2.lhs.code()?;
-                    if lhs_1_code == lhs_2_code {
-                        Some(((k_1, v_1), (k_2, v_2)))
-                    } else {
-                        None
-                    }
+                .filter_map(|(k, v)| {
+                    // same signal of the same vehicle, at the same epoch
+                    let code = k.lhs.code()?;
+                    let v_2 = *narrow_lanes.get(&(k.epoch, k.flag, k.sv, code))?;
+                    Some((k, v, v_2))
                 })
             {
                 let key = CombinationKey {
@@ -288,21 +293,37 @@ impl Rinex {
                 ret.insert(key, v_1 - v_2);
             }
         } else {
-            let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-                dt
-            } else {
-                if let Some(dt) = self.dominant_sampling_interval() {
-                    dt
-                } else {
-                    // can't proceed without sampling interval guess.
-                    return ret;
-                }
-            };
-
-            let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
-            let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
+            let mut current: Option<ObsKey> = None;
+            let mut pr_ref_value = HashMap::<SV, (Observable, f64, f64, f64)>::new();
+            let mut phase_ref_value = HashMap::<SV, (Observable, f64, f64, f64)>::new();
 
             for (k, v) in self.signal_observations_iter() {
+                if current != Some(k) {
+                    // new epoch: never combine to the references of another one.
+                    // The reference may follow the other signals of its vehicle.
+                    current = Some(k);
+                    pr_ref_value.clear();
+                    phase_ref_value.clear();
+
+                    for v in self.record.as_obs().unwrap()[&k].signals.iter() {
+                        if v.observable.is_l1_pivot(v.sv.constellation) {
+                            if let Ok(carrier) = v.observable.carrier(v.sv.constellation) {
+                                let reference = if v.observable.is_phase_range_observable() {
+                                    &mut phase_ref_value
+                                } else {
+                                    &mut pr_ref_value
+                                };
+                                reference.entry(v.sv).or_insert((
+                                    v.observable.clone(),
+                                    carrier.frequency(),
+                                    carrier.wavelength(),
+                                    v.value,
+                                ));
+                            }
+                        }
+                    }
+                }
+
                 let is_phase_range = v.observable.is_phase_range_observable();
                 let is_pseudo_range = v.observable.is_pseudo_range_observable();
 
@@ -324,10 +345,10 @@ impl Rinex {
                 if is_l1_pivot {
                     if is_phase_range {
                         phase_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
+                            .insert(v.sv, (v.observable.clone(), freq, lambda, v.value));
                     } else {
                         pr_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
+                            .insert(v.sv, (v.observable.clone(), freq, lambda, v.value));
                     };
                 } else {
                     let reference = if is_phase_range {
@@ -336,14 +357,7 @@ impl Rinex {
                         &pr_ref_value
                     };
 
-                    if let Some((last_seen, reference, f_1, w_1, ref_value)) = reference.get(&v.sv)
-                    {
-                        if k.epoch - *last_seen > dominant_sampling {
-                            // avoid moving forward on data gaps
-                            // guards against substraction (a - b) from two different epochs
-                            continue;
-                        }
-
+                    if let Some((reference, f_1, w_1, ref_value)) = reference.get(&v.sv) {
                         let alpha = match combination {
                             Combination::GeometryFree => 1.0,
                             Combination::IonosphereFree => f_1.powi(2),
@@ -374,6 +388,11 @@ impl Rinex {
                             },
                         };
 
+                        if gamma == 0.0 {
+                            // undefined for two signals on the same carrier
+                            continue;
+                        }
+
                         let (v_lhs, v_rhs) = match combination {
                             Combination::GeometryFree => {
                                 if v.observable.is_phase_range_observable() {
@@ -416,98 +435,55 @@ impl Rinex {
     pub fn signals_multipath(&self) -> HashMap<MultipathKey, f64> {
         let mut ret = HashMap::new();
 
-        let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-            dt
-        } else {
-            if let Some(dt) = self.dominant_sampling_interval() {
-                dt
-            } else {
-                // can't proceed without sampling interval guess.
-                return ret;
-            }
-        };
-
-        let mut t = Epoch::default();
-
-        // stores all encountered pseudo range
-        let mut rho = HashMap::<(SV, Observable), f64>::new();
-        // stores all encountered phase range
-        let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
-
-        for (k, v) in self.signal_observations_iter() {
-            let is_ph = v.observable.is_phase_range_observable();
-            let is_pr = v.observable.is_pseudo_range_observable();
-            let carrier = v.observable.carrier(v.sv.constellation);
-
-            if !is_ph && !is_pr || carrier.is_err() {
-                continue;
-            }
+        for (k, obs) in self.observations_iter() {
+            // pseudo range and phase range of this epoch
+            let mut rho = Vec::new();
+            let mut phi = Vec::new();
 
-            let carrier = carrier.unwrap();
-            let freq = carrier.frequency().powi(2);
-            let lambda = carrier.wavelength();
+            for v in obs.signals.iter() {
+                let code = v.observable.code();
+                let carrier = v.observable.carrier(v.sv.constellation);
 
-            if k.epoch - t > dominant_sampling {
-                // data gap
-                rho.clear();
-                phi.clear();
-            }
+                if let Ok(carrier) = carrier {
+                    let freq = carrier.frequency().powi(2);
+                    let lambda = carrier.wavelength();
 
-            if k.epoch - t == dominant_sampling {
-                // new epoch
-                // try to compute from previously stored data, then reset
-                for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
-                    let phi_code = phi_obs.code();
-                    if phi_code.is_none() {
-                        continue;
+                    if v.observable.is_pseudo_range_observable() {
+                        rho.push((v, code));
+                    } else if v.observable.is_phase_range_observable() {
+                        phi.push((v, code, freq, v.value * lambda));
                     }
+                }
+            }
 
-                    let phi_code = phi_code.unwrap();
-
-                    // locate associated pr
-                    for ((rho_sv, rho_obs), rho) in rho.iter() {
-                        let rho_code = rho_obs.code();
-                        if rho_code.is_none() {
-                            continue;
-                        }
+            for (phi_i, phi_code, freq, phi_value) in phi.iter() {
+                if phi_code.is_none() {
+                    continue;
+                }
 
-                        let rho_code = rho_code.unwrap();
-
-                        // same modulation / signal as reference phase
-                        if rho_code == phi_code && rho_sv == phi_sv {
-                            // now compute for any different l_j phase
-                            for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
-                                if phi_sv_j == phi_sv {
-                                    if phi_obs_j != phi_obs {
-                                        let key = MultipathKey {
-                                            epoch: t,
-                                            sv: *phi_sv,
-                                            signal: phi_obs.clone(),
-                                            rhs: phi_obs_j.clone(),
-                                        };
-                                        let value = rho
-                                            - phi_value
-                                            - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
-                                        ret.insert(key, value);
-                                    }
-                                }
-                            }
-                        }
+                // locate associated pr: same modulation / signal as reference phase
+                for (rho, _) in rho
+                    .iter()
+                    .filter(|(rho, rho_code)| rho_code == phi_code && rho.sv == phi_i.sv)
+                {
+                    // now compute for any different l_j phase
+                    for (phi_j, _, freq_j, phi_value_j) in phi
+                        .iter()
+                        .filter(|(phi_j, _, freq_j, _)| phi_j.sv == phi_i.sv && freq_j != freq)
+                    {
+                        let key = MultipathKey {
+                            epoch: k.epoch,
+                            sv: phi_i.sv,
+                            signal: phi_i.observable.clone(),
+                            rhs: phi_j.observable.clone(),
+                        };
+                        let value = rho.value
+                            - phi_value
+                            - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_value_j);
+                        ret.insert(key, value);
                     }
                 }
-                //reset
-                rho.clear();
-                phi.clear();
-            }
-
-            // store value
-            if is_pr {
-                rho.insert((v.sv, v.observable.clone()), v.value);
-            } else {
-                phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
             }
-
-            t = k.epoch;
         }
         ret
     }
diff --git a/src/observation/rinex/tec.rs b/src/observation/rinex/tec.rs
index 00a504b..867eb99 100644
--- a/src/observation/rinex/tec.rs
+++ b/src/observation/rinex/tec.rs
@@ -26,39 +26,43 @@ impl Rinex {
     /// this limits the method to dual frequency Observation RINEX.
     /// Returns [TEC] sorted per [TECKey]
     pub fn observation_dual_phase_ionosphere_tec(&self) -> HashMap<TECKey, TEC> {
-        let mut t = Epoch::default();
         let mut ret = HashMap::new();
-        let mut phases = Vec::<SignalObservation>::new();
+        let mut current: Option<Epoch> = None;
+        let mut phases = Vec::<&SignalObservation>::new();
 
-        let dt = self.dominant_sampling_interval();
-        if dt.is_none() {
-            return ret;
-        }
-
-        let dt = dt.unwrap();
+        // one trailing iteration to conclude the last epoch
+        for sampling in self
+            .phase_range_sampling_ok_iter()
+            .map(Some)
+            .chain(std::iter::once(None))
+        {
+            let epoch = sampling.map(|(epoch, _)| epoch);
 
-        for (k, ph) in self.phase_range_sampling_ok_iter() {
-            if k >= t + dt {
-                for ph_i in phases.iter() {
-                    for ph_j in phases.iter() {
-                        if let Some(tec) = ph_i.tec_estimate(&ph_j) {
-                            ret.insert(
-                                TECKey {
-                                    epoch: t,
-                                    sv: ph_i.sv,
-                                    rhs: ph_j.observable.clone(),
-                                    reference: ph_i.observable.clone(),
-                                },
-                                tec,
-                            );
+            if epoch != current {
+                if let Some(t) = current {
+                    for ph_i in phases.iter() {
+                        for ph_j in phases.iter() {
+                            if let Some(tec) = ph_i.tec_estimate(ph_j) {
+                                ret.insert(
+                                    TECKey {
+                                        epoch: t,
+                                        sv: ph_i.sv,
+                                        rhs: ph_j.observable.clone(),
+                                        reference: ph_i.observable.clone(),
+                                    },
+                                    tec,
+                                );
+                            }
                         }
                     }
                 }
                 phases.clear();
+                current = epoch;
             }
 
-            t = k;
-            phases.push(ph.clone());
+            if let Some((_, ph)) = sampling {
+                phases.push(ph);
+            }
         }
 
         ret
diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 8945a10..a343e5c 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -94,7 +94,8 @@ impl SignalObservation {
             let carrier_2 = carrier_2.unwrap();
             let f_2 = carrier_2.frequency().powi(2);
 
-            if carrier_1.is_l1_pivot() {
+            // not defined for two signals on the same carrier
+            if carrier_1.is_l1_pivot() && f_1 != f_2 {
                 let tec = GAMMA * f_1 * f_2 / (f_1 - f_2) * (self.value - rhs.value);
                 Some(TEC::from_tec_m2(tec.abs()))
             } else {
-- 
2.43.0


From 403f55c7886d54e4b25c0dee7da78bb1609587aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 32/44] fix: bounds of a grid that is descending, in its last
 interval, or outside; marker numbers that are not ASCII

---
 src/linspace.rs | 33 ++++++++++++++++++++++-----------
 src/marker.rs   |  2 +-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index 6ee2161..cf76fda 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -50,23 +50,34 @@ impl Linspace {
         (self.end == self.start) && self.spacing == 0.0
     }
 
-    /// Returns nearest lower bound from point p in the [Linspace]
+    /// Returns nearest lower bound from point p in the [Linspace],
+    /// which may be ascending or descending.
     pub fn nearest_lower(&self, p: f64) -> Option<f64> {
-        let mut start = self.start;
-        while start < self.end {
-            if start > p {
-                return Some(start - self.spacing);
-            }
-            start += self.spacing;
+        let min = self.start.min(self.end);
+        let max = self.start.max(self.end);
+        let spacing = self.spacing.abs();
+
+        if !(p >= min && p <= max) {
+            return None;
+        }
+
+        if spacing == 0.0 {
+            return Some(min);
         }
 
-        None
+        let increments = ((p - min) / spacing + 1.0E-9).floor();
+        Some(min + increments * spacing)
     }
 
-    /// Returns nearest lower bound from point p in the [Linspace]
+    /// Returns nearest upper bound from point p in the [Linspace],
+    /// which may be ascending or descending.
     pub fn nearest_above(&self, p: f64) -> Option<f64> {
-        let lower = self.nearest_lower(p)?;
-        Some(lower + self.spacing)
+        let above = self.nearest_lower(p)? + self.spacing.abs();
+        if above <= self.start.max(self.end) + 1.0E-9 {
+            Some(above)
+        } else {
+            None
+        }
     }
 }
 
diff --git a/src/marker.rs b/src/marker.rs
index 38b7948..5cf85a8 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -131,7 +131,7 @@ impl GeodeticMarker {
     /// Returns a GeodeticMarker with "number" only if it matches standardized format.
     pub fn with_number(&self, content: &str) -> Self {
         let mut s = self.clone();
-        if content.len() == 9 && content.chars().nth(5) == Some('M') {
+        if content.is_ascii() && content.len() == 9 && content.chars().nth(5) == Some('M') {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
                 if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
-- 
2.43.0


From 191ca234b34326b672139b32d7e160081dec422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 33/44] fix: headers write the fields of their own file type;
 basic IONEX header is of IONEX type

---
 src/header/formatting.rs | 40 ++++++++++++++++++++++++++--------------
 src/header/mod.rs        |  4 +++-
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index 4c0f145..ed6a746 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -234,20 +234,32 @@ impl Header {
         &self,
         w: &mut BufWriter<W>,
     ) -> Result<(), FormattingError> {
-        if let Some(obs) = &self.obs {
-            obs.format(w, self.version.major)
-        } else if let Some(meteo) = &self.meteo {
-            meteo.format(w)
-        } else if let Some(clock) = &self.clock {
-            clock.format(w)
-        } else if let Some(ionex) = &self.ionex {
-            ionex.format(w)
-        } else if let Some(antex) = &self.antex {
-            antex.format(w)
-        } else if let Some(doris) = &self.doris {
-            doris.format(w)
-        } else {
-            Ok(()) // should not happen
+        match self.rinex_type {
+            Type::ObservationData => match &self.obs {
+                Some(obs) => obs.format(w, self.version.major),
+                None => Ok(()),
+            },
+            Type::MeteoData => match &self.meteo {
+                Some(meteo) => meteo.format(w),
+                None => Ok(()),
+            },
+            Type::ClockData => match &self.clock {
+                Some(clock) => clock.format(w),
+                None => Ok(()),
+            },
+            Type::IonosphereMaps => match &self.ionex {
+                Some(ionex) => ionex.format(w),
+                None => Ok(()),
+            },
+            Type::AntennaData => match &self.antex {
+                Some(antex) => antex.format(w),
+                None => Ok(()),
+            },
+            Type::DORIS => match &self.doris {
+                Some(doris) => doris.format(w),
+                None => Ok(()),
+            },
+            Type::NavigationData => Ok(()),
         }
     }
 
diff --git a/src/header/mod.rs b/src/header/mod.rs
index ae67a84..708c542 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -222,7 +222,9 @@ impl Header {
 
     /// Builds a basic [Header] for IONEX
     pub fn basic_ionex() -> Self {
-        Self::default().with_ionex_fields(IonexHeader::default())
+        Self::default()
+            .with_type(Type::IonosphereMaps)
+            .with_ionex_fields(IonexHeader::default())
     }
 
     /// Formats the package version (possibly shortenned, in case of lengthy release)
-- 
2.43.0


From a58da036faca3dfec922616aa53623d00383f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 34/44] fix: RINEX2 list of observables does not depend on the
 hashing order

---
 src/observation/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index 86a4019..dec92e0 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -96,7 +96,8 @@ impl HeaderFields {
     }
 
     fn format_v1_observables<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        if let Some((_, observables)) = self.codes.iter().next() {
+        // one list for all systems: that of the first one
+        if let Some((_, observables)) = self.codes.iter().min_by_key(|(constell, _)| **constell) {
             write!(w, "{:6}", observables.len())?;
             let mut modulo = 0;
 
-- 
2.43.0


From 0f8031636dbabf9a0128d3c01e006ed05cff3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 35/44] fix: a RINEX2 vehicle that cannot be interpreted does
 not hide the following ones

Parsing of an epoch stopped at the first vehicle whose constellation is not
described by the header (QZSS, BeiDou in a mixed RINEX 2 file), all vehicles
that follow in this epoch were lost.
---
 src/observation/parsing.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 953bc23..c1b3221 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -269,8 +269,22 @@ fn parse_signals_v2(
     let mut obs_identified = false;
     let mut observables = &Vec::<Observable>::default();
 
+    // lines that describe one vehicle, whatever its constellation
+    let lines_per_sv = div_ceil(
+        head_observables.values().map(Vec::len).max().unwrap_or(0),
+        MAX_OBSERVABLES_LINE,
+    )
+    .max(1);
+
+    // lines of a vehicle we cannot interpret, still to pass
+    let mut lines_to_skip = 0;
+
     // browse all lines
     for line in lines {
+        if lines_to_skip > 0 {
+            lines_to_skip -= 1;
+            continue;
+        }
         // [SV] identification
         //  1. on first line (not defined yet!)
         //  2. every time one SV is concluded
@@ -297,8 +311,10 @@ fn parse_signals_v2(
                 match head_constellation {
                     Some(Constellation::Mixed) | None => {
                         //#[cfg(feature = "log")]
-                        //error!("parse_sig_v2(abort): no constell specs");
-                        break;
+                        //error!("parse_sig_v2: no constell specs");
+                        sv_ptr += SVNN_SIZE;
+                        lines_to_skip = lines_per_sv - 1;
+                        continue;
                     },
                     Some(gnss) => {
                         if let Ok(prn) = system.trim().parse::<u8>() {
@@ -308,8 +324,10 @@ fn parse_signals_v2(
                             };
                         } else {
                             //#[cfg(feature = "log")]
-                            //error!("parse_sig_v2(abort): invalid sv");
-                            break;
+                            //error!("parse_sig_v2: invalid sv");
+                            sv_ptr += SVNN_SIZE;
+                            lines_to_skip = lines_per_sv - 1;
+                            continue;
                         }
                     },
                 }
@@ -330,7 +348,9 @@ fn parse_signals_v2(
                 } else {
                     //#[cfg(feature = "log")]
                     //error!("parse_sig_v2 (sbas): no specs");
-                    break;
+                    sv_identified = false;
+                    lines_to_skip = lines_per_sv - 1;
+                    continue;
                 }
             } else {
                 if let Some(observables) = head_observables.get(&sv.constellation) {
@@ -338,7 +358,9 @@ fn parse_signals_v2(
                 } else {
                     //#[cfg(feature = "log")]
                     //error!("parse_sig_v2 ({}): no specs", sv.constellation);
-                    break;
+                    sv_identified = false;
+                    lines_to_skip = lines_per_sv - 1;
+                    continue;
                 }
             };
 
-- 
2.43.0


From 1efbbce4c9c3a08f8811c047af9ab4a5308d97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 36/44] fix: INTERVAL is written in F10.3

---
 src/header/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index ed6a746..92d209e 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -321,7 +321,7 @@ impl Header {
             writeln!(
                 w,
                 "{}",
-                fmt_rinex(&format!("{:6}", interval.to_seconds()), "INTERVAL")
+                fmt_rinex(&format!("{:10.3}", interval.to_seconds()), "INTERVAL")
             )?;
         }
         Ok(())
-- 
2.43.0


From 184e6afd3f1bf0cf66d70a9b48eb204989e1fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 37/44] fix: the time system of the leap seconds is written in
 its columns, under its name

---
 src/leap.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/leap.rs b/src/leap.rs
index d3ec635..c00366a 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -32,18 +32,21 @@ impl Leap {
         if let Some(delta) = &self.delta_tls {
             write!(
                 w,
-                "{:6}{:6}{:6}{:6} ",
+                "{:6}{:6}{:6}{:6}",
                 self.leap,
                 delta,
                 self.week.unwrap_or(0),
                 self.day.unwrap_or(0),
             )?;
         } else {
-            write!(w, "{:6}                   ", self.leap,)?;
+            write!(w, "{:6}                  ", self.leap,)?;
         }
 
-        let system = self.timescale.map(|ts| format!("{:x}", ts));
-        writeln!(w, "{:<35}LEAP SECONDS", system.unwrap_or_default())?;
+        let system = self.timescale.map(|ts| match ts {
+            TimeScale::BDT => "BDS".to_string(),
+            ts => format!("{:x}", ts),
+        });
+        writeln!(w, "{:<36}LEAP SECONDS", system.unwrap_or_default())?;
 
         Ok(())
     }
-- 
2.43.0


From 6b8417b9101fe2a3ffc78ac4628b5fd10762657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 38/44] x

fix: no let-else nor is_some_and, the crate supports Rust 1.64
---
 src/doris/parsing.rs             | 5 +++--
 src/hatanaka/decompressor/io.rs  | 5 +++--
 src/hatanaka/decompressor/mod.rs | 5 +++--
 src/lib.rs                       | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 6e919b9..fdc9db0 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -30,8 +30,9 @@ fn parse_observations(
 
     for _ in 0..OBSERVABLES_PER_LINE {
         // abnormal content (past last observable) is ignored
-        let Some(observable) = observables.get(obs_ptr) else {
-            break;
+        let observable = match observables.get(obs_ptr) {
+            Some(observable) => observable,
+            None => break,
         };
 
         let (value, m1, m2);
diff --git a/src/hatanaka/decompressor/io.rs b/src/hatanaka/decompressor/io.rs
index 9797bf2..dda41fd 100644
--- a/src/hatanaka/decompressor/io.rs
+++ b/src/hatanaka/decompressor/io.rs
@@ -31,8 +31,9 @@ impl<const M: usize, R: Read> Read for DecompressorExpertIO<M, R> {
         // several lines may be needed to recover one: null size means end of stream
         while self.pending.is_empty() {
             // try to pull a new complete line from internal reader
-            let Some(line) = self.lines.next() else {
-                return Ok(0);
+            let line = match self.lines.next() {
+                Some(line) => line,
+                None => return Ok(0),
             };
 
             let recovered = self
diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 06467c7..76f9f69 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -502,8 +502,9 @@ impl<const M: usize> DecompressorExpert<M> {
             recovered.push_str(&format!("{:3}", split_columns(identity, 3).0));
         }
 
-        let Some(sv) = self.sv_list.get(self.sv_ptr).copied().flatten() else {
-            return recovered;
+        let sv = match self.sv_list.get(self.sv_ptr).copied().flatten() {
+            Some(sv) => sv,
+            None => return recovered,
         };
 
         let mut blanks = Vec::with_capacity(self.numobs);
diff --git a/src/lib.rs b/src/lib.rs
index e6347ef..e043200 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -254,7 +254,7 @@ pub(crate) fn read_rinex_line<R: BufRead>(
                     .all(|nth| text.is_char_boundary(*nth))
                     && text
                         .get(60..)
-                        .is_some_and(|label| free_text.contains(&label.trim()))) =>
+                        .map_or(false, |label| free_text.contains(&label.trim()))) =>
         {
             line.push_str(text);
         },
-- 
2.43.0


From c32b2b08fd928b06c08916460cd6290f4993c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 39/44] fix: SYS / SCALE FACTOR may span several lines or cover
 a whole system, and is written back

---
 src/header/parsing.rs     | 63 ++++++++++++++++++++++++++++-----------
 src/observation/header.rs | 34 +++++++++++++++++++--
 2 files changed, 77 insertions(+), 20 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 485e848..c07f7a0 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -65,6 +65,8 @@ impl Header {
 
         // RINEX specific fields
         let mut current_constell: Option<Constellation> = None;
+        let mut current_scaling: Option<(Constellation, u16)> = None;
+        let mut scaled_systems = Vec::<(Constellation, u16)>::new();
         let mut observation = ObservationHeader::default();
         let mut meteo = MeteoHeader::default();
         let mut clock = ClockHeader::default();
@@ -422,30 +424,41 @@ impl Header {
 
                 dcb_compensations.push(dcb);
             } else if marker.contains("SYS / SCALE FACTOR") {
-                // TODO:
-                //   This will not work in case several observables
-                //   are declaredn which will required to analyze more than 1 line
                 let (gnss, rem) = content.split_at(2);
                 let gnss = gnss.trim();
 
-                /*
-                 * DORIS measurement special case, otherwise, standard OBS_RINEX
-                 */
-                let constell = if gnss.eq("D") {
-                    Constellation::Mixed // scaling applies to all measurements
-                } else {
-                    Constellation::from_str(gnss)?
-                };
-
-                // Parse scaling factor
                 let (factor, rem) = rem.split_at(6);
                 let factor = factor.trim();
-                let scaling = factor
-                    .parse::<u16>()
-                    .or(Err(ParsingError::SystemScalingFactor))?;
+
+                let (num, rem) = rem.split_at(2);
+
+                // continuation lines leave the system and the factor blank
+                if !gnss.is_empty() || !factor.is_empty() {
+                    /*
+                     * DORIS measurement special case, otherwise, standard OBS_RINEX
+                     */
+                    let constell = if gnss.eq("D") {
+                        Constellation::Mixed // scaling applies to all measurements
+                    } else {
+                        Constellation::from_str(gnss)?
+                    };
+
+                    // Parse scaling factor
+                    let scaling = factor
+                        .parse::<u16>()
+                        .or(Err(ParsingError::SystemScalingFactor))?;
+
+                    // zero or blank: all observables of that system
+                    if matches!(num.trim(), "" | "0") && rem.trim().is_empty() {
+                        scaled_systems.push((constell, scaling));
+                    }
+                    current_scaling = Some((constell, scaling));
+                }
 
                 // parse end of line
-                let (_num, rem) = rem.split_at(3);
+                let (constell, scaling) =
+                    current_scaling.ok_or(ParsingError::SystemScalingFactor)?;
+
                 for observable_str in rem.split_ascii_whitespace() {
                     let observable = Observable::from_str(observable_str)?;
 
@@ -983,6 +996,22 @@ impl Header {
             }
         }
 
+        // scalings that apply to all observables of a system
+        for (constell, scaling) in scaled_systems {
+            if rinex_type == Type::DORIS {
+                for observable in doris.observables.clone() {
+                    doris.scaling.entry(observable).or_insert(scaling);
+                }
+            } else if let Some(codes) = observation.codes.get(&constell) {
+                for observable in codes {
+                    observation
+                        .scaling
+                        .entry((constell, observable.clone()))
+                        .or_insert(scaling);
+                }
+            }
+        }
+
         Ok(Header {
             version,
             rinex_type,
diff --git a/src/observation/header.rs b/src/observation/header.rs
index dec92e0..47c83d6 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -8,7 +8,7 @@ use crate::{
 };
 
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     io::{BufWriter, Write},
 };
 
@@ -87,10 +87,12 @@ impl HeaderFields {
 
         match major {
             1 | 2 => self.format_v1_observables(w)?,
-            _ => self.format_v3_observables(w)?,
+            _ => {
+                self.format_v3_observables(w)?;
+                self.format_scaling(w)?;
+            },
         }
 
-        //TODO scaling
         //TODO DCBs
         Ok(())
     }
@@ -160,6 +162,32 @@ impl HeaderFields {
         Ok(())
     }
 
+    fn format_scaling<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
+        // one list per system and factor, of twelve observables per line
+        let mut lists = BTreeMap::<(Constellation, u16), Vec<&Observable>>::new();
+        for ((constell, observable), factor) in self.scaling.iter().sorted() {
+            lists
+                .entry((*constell, *factor))
+                .or_default()
+                .push(observable);
+        }
+
+        for ((constell, factor), observables) in lists {
+            for (nth, chunk) in observables.chunks(12).enumerate() {
+                let mut line = if nth == 0 {
+                    format!("{:x} {:4}  {:2}", constell, factor, observables.len())
+                } else {
+                    " ".repeat(10)
+                };
+                for observable in chunk {
+                    line.push_str(&format!(" {:>3}", observable));
+                }
+                writeln!(w, "{}", fmt_rinex(&line, "SYS / SCALE FACTOR"))?;
+            }
+        }
+        Ok(())
+    }
+
     /// Add "TIME OF FIRST OBS" field
     pub(crate) fn with_crinex(&self, c: CRINEX) -> Self {
         let mut s = self.clone();
-- 
2.43.0


From 08d6938c897df07c3efda5fff45b91f3a43a590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 40/44] fix: ionosphere delay pseudo observables are read, the
 columns that follow them no longer shift

---
 src/observable.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 82655cf..860b597 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -19,6 +19,9 @@ pub enum Observable {
     /// Attached to Phase or PseudoRange observable to accurately
     /// described how they were sampled.
     ChannelNumber(String),
+    /// Ionosphere phase delay Pseudo Observable,
+    /// expressed in full cycles of the carrier signal.
+    IonosphereDelay(String),
     /// Pressure observation in hPa
     Pressure,
     /// Dry temperature measurement in Celcius degrees
@@ -61,6 +64,7 @@ impl Observable {
             Self::Doppler(_) => matches!(rhs, Self::Doppler(_)),
             Self::PseudoRange(_) => matches!(rhs, Self::PseudoRange(_)),
             Self::ChannelNumber(_) => matches!(rhs, Self::ChannelNumber(_)),
+            Self::IonosphereDelay(_) => matches!(rhs, Self::IonosphereDelay(_)),
             Self::Pressure => matches!(rhs, Self::Pressure),
             Self::Temperature => matches!(rhs, Self::Temperature),
             Self::HumidityRate => matches!(rhs, Self::HumidityRate),
@@ -346,7 +350,8 @@ impl std::fmt::Display for Observable {
             | Self::Doppler(c)
             | Self::SSI(c)
             | Self::Power(c)
-            | Self::ChannelNumber(c) => write!(f, "{}", c),
+            | Self::ChannelNumber(c)
+            | Self::IonosphereDelay(c) => write!(f, "{}", c),
         }
     }
 }
@@ -383,6 +388,8 @@ impl std::str::FromStr for Observable {
                         Ok(Self::Doppler(content.to_string()))
                     } else if content.starts_with('X') {
                         Ok(Self::ChannelNumber(content.to_string()))
+                    } else if content.starts_with('I') {
+                        Ok(Self::IonosphereDelay(content.to_string()))
                     } else {
                         Err(ParsingError::UnknownObservable)
                     }
-- 
2.43.0


From 21f144e844790b94ddb1a5aa3b6da482878b6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 41/44] fix: two letter observables keep their width in the
 observation header

---
 src/observation/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index 47c83d6..2892c4c 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -141,7 +141,7 @@ impl HeaderFields {
                     write!(w, "      ")?;
                 }
 
-                write!(w, " {}", observable)?;
+                write!(w, " {:<3}", observable.to_string())?;
 
                 if (nth % 13) == 12 {
                     writeln!(w, "  SYS / # / OBS TYPES")?;
@@ -180,7 +180,7 @@ impl HeaderFields {
                     " ".repeat(10)
                 };
                 for observable in chunk {
-                    line.push_str(&format!(" {:>3}", observable));
+                    line.push_str(&format!(" {:<3}", observable.to_string()));
                 }
                 writeln!(w, "{}", fmt_rinex(&line, "SYS / SCALE FACTOR"))?;
             }
-- 
2.43.0


From 2acf4186f83f4b4a9256955606581c9e01692b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 42/44] fix: marker numbers of instrument reference points are
 read and written back

---
 src/marker.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 5cf85a8..f3a98b5 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -22,6 +22,10 @@ pub struct GeodeticMarker {
     /// Marker/monument number.
     /// Probably if agency has more than one of them.
     monument: Option<u16>,
+    /// True when the number designates an instrument reference point ("S"),
+    /// not a monument ("M").
+    #[cfg_attr(feature = "serde", serde(default))]
+    instrument: bool,
 }
 
 #[derive(Default, Copy, Clone, Debug, PartialEq, Eq)]
@@ -126,16 +130,19 @@ impl GeodeticMarker {
     pub fn number(&self) -> Option<String> {
         let id = self.identification?;
         let monument = self.monument?;
-        Some(format!("{:05}M{:03}", id, monument))
+        let point = if self.instrument { 'S' } else { 'M' };
+        Some(format!("{:05}{}{:03}", id, point, monument))
     }
     /// Returns a GeodeticMarker with "number" only if it matches standardized format.
     pub fn with_number(&self, content: &str) -> Self {
         let mut s = self.clone();
-        if content.is_ascii() && content.len() == 9 && content.chars().nth(5) == Some('M') {
+        let point = content.chars().nth(5);
+        if content.is_ascii() && content.len() == 9 && matches!(point, Some('M' | 'S')) {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
                 if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
+                    s.instrument = point == Some('S');
                 }
             }
         }
-- 
2.43.0


From 589bd9ede12db6d43a69b733a97dca1744439ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 43/44] fix: comments of a file without any epoch are kept

---
 src/record/parsing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index b02656a..40e63b1 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -388,8 +388,9 @@ impl Record {
                 }
             }
 
-            // clear on new epoch detection
-            if new_epoch {
+            // clear on new epoch detection, or on last iteration:
+            // there might be no epoch at all
+            if new_epoch || eos {
                 epoch_buf.clear();
 
                 // store comments that were encountered
-- 
2.43.0


From 605200deffdd53d886e4c8a126c5dcdc19b534bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 44/44] fix: differences between TAI and UT1 account for leap
 seconds

---
 src/navigation/rinex/ut1.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/navigation/rinex/ut1.rs b/src/navigation/rinex/ut1.rs
index 5c90ef3..edc2eab 100644
--- a/src/navigation/rinex/ut1.rs
+++ b/src/navigation/rinex/ut1.rs
@@ -6,9 +6,15 @@ impl Rinex {
     pub fn nav_delta_tai_ut1_iter(&self) -> Box<dyn Iterator<Item = DeltaTaiUt1> + '_> {
         Box::new(
             self.nav_earth_orientation_frames_iter()
-                .map(|(k, eop)| DeltaTaiUt1 {
-                    epoch: k.epoch,
-                    delta_tai_minus_ut1: Duration::from_seconds(eop.delta_ut1.0),
+                .map(|(k, eop)| {
+                    // messages describe UT1-UTC
+                    let tai_minus_utc = k.epoch.leap_seconds(true).unwrap_or(0.0);
+                    DeltaTaiUt1 {
+                        epoch: k.epoch,
+                        delta_tai_minus_ut1: Duration::from_seconds(
+                            tai_minus_utc - eop.delta_ut1.0,
+                        ),
+                    }
                 }),
         )
     }
-- 
2.43.0

