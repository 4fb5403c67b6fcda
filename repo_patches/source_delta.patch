From d157be589895df7795893ceda08b041aadc86605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:54 +0000
Subject: [PATCH 01/37] aether_benchmark: cfg(aether_sim) re-export of private
 modules for the simulation harness

---
 crates/aether_benchmark/src/performance/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/aether_benchmark/src/performance/mod.rs b/crates/aether_benchmark/src/performance/mod.rs
index a76e4fb..47ad709 100644
--- a/crates/aether_benchmark/src/performance/mod.rs
+++ b/crates/aether_benchmark/src/performance/mod.rs
@@ -3,6 +3,13 @@ mod performance;
 mod power;
 mod timer;
 pub use clock::*;
+/// Simulation hook (`--cfg aether_sim` only): exposes the private logging and sensor
+/// modules to the deterministic-simulation harness. Absent from normal builds.
+#[allow(unexpected_cfgs)]
+#[cfg(all(aether_sim, feature = "std"))]
+pub mod sim_api {
+    pub use super::{performance::*, power::*, timer::*};
+}
 #[cfg(test)]
 #[path = "tests/mod.rs"]
 mod tests;
-- 
2.43.0


From a30e3b07379d32a088ce21e3d7e7e37bee3cf25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:08 +0000
Subject: [PATCH 02/37] fix: CSV tailer: take the identity of the file actually
 read, so a rotation or a failing stat cannot blend or lose rows

---
 crates/aether_viz/src/realtime.rs | 49 +++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index d7d8fed..632e370 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -51,7 +51,15 @@ struct FileIdentity {
 
 impl FileIdentity {
     fn from_path(path: &Path) -> std::io::Result<Self> {
-        let md = std::fs::metadata(path)?;
+        Self::from_metadata(std::fs::metadata(path)?)
+    }
+
+    /// Identity of the file actually being read, whatever its path names by now.
+    fn from_file(file: &File) -> std::io::Result<Self> {
+        Self::from_metadata(file.metadata()?)
+    }
+
+    fn from_metadata(md: std::fs::Metadata) -> std::io::Result<Self> {
         #[cfg(unix)]
         {
             use std::os::unix::fs::MetadataExt;
@@ -70,6 +78,17 @@ impl FileIdentity {
             })
         }
     }
+
+    fn is_same_file(&self, other: &Self) -> bool {
+        #[cfg(unix)]
+        {
+            if self.dev != other.dev || self.ino != other.ino {
+                return false;
+            }
+        }
+
+        self.created == other.created
+    }
 }
 
 #[derive(Debug)]
@@ -136,7 +155,7 @@ impl CsvRealtimePlotter {
 
         let mut changed = false;
         if current_id.len > self.file_pos {
-            changed |= self.read_new_bytes(self.file_pos)?;
+            changed |= self.read_new_bytes(self.file_pos, current_id)?;
         }
 
         self.last_identity = Some(current_id);
@@ -189,18 +208,7 @@ impl CsvRealtimePlotter {
             return true;
         }
 
-        #[cfg(unix)]
-        {
-            if previous.dev != current.dev || previous.ino != current.ino {
-                return true;
-            }
-        }
-
-        if previous.created != current.created {
-            return true;
-        }
-
-        false
+        !previous.is_same_file(&current)
     }
 
     fn reload_from_start(&mut self) -> Result<(), Box<dyn std::error::Error>> {
@@ -209,17 +217,26 @@ impl CsvRealtimePlotter {
         }
 
         let mut file = File::open(&self.cfg.csv_path)?;
+        let identity = FileIdentity::from_file(&file)?;
         let mut text = String::new();
         file.read_to_string(&mut text)?;
         self.file_pos = text.as_bytes().len() as u64;
-        self.last_identity = Some(FileIdentity::from_path(&self.cfg.csv_path)?);
+        self.last_identity = Some(identity);
 
         let _ = self.parse_text_chunk(&text)?;
         Ok(())
     }
 
-    fn read_new_bytes(&mut self, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
+    fn read_new_bytes(
+        &mut self,
+        start: u64,
+        expected: FileIdentity,
+    ) -> Result<bool, Box<dyn std::error::Error>> {
         let mut file = File::open(&self.cfg.csv_path)?;
+        if !FileIdentity::from_file(&file)?.is_same_file(&expected) {
+            // Replaced since it was examined: `start` means nothing in the new file. The next poll starts over.
+            return Ok(false);
+        }
         file.seek(SeekFrom::Start(start))?;
         let mut text = String::new();
         file.read_to_string(&mut text)?;
-- 
2.43.0


From bd6ef16bbf5eb0706184f478ee98215dd98a93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:08 +0000
Subject: [PATCH 03/37] fix: CSV tailer: initialize() on a plotter that already
 read the file showed every row twice

---
 crates/aether_viz/src/realtime.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 632e370..2391946 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -121,6 +121,7 @@ impl CsvRealtimePlotter {
     }
 
     pub fn initialize(&mut self) -> Result<(), Box<dyn std::error::Error>> {
+        self.reset_series();
         self.reload_from_start()
     }
 
-- 
2.43.0


From b0a62f1cda5889868d7a05621a69c10b27d8692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:39 +0000
Subject: [PATCH 04/37] fix: CSV tailer: a failing stat was taken for a missing
 file, and a file vanishing mid-poll for an error

---
 crates/aether_viz/src/realtime.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 2391946..072ba83 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -146,7 +146,9 @@ impl CsvRealtimePlotter {
             return Ok(false);
         }
 
-        let current_id = FileIdentity::from_path(&self.cfg.csv_path)?;
+        let Some(current_id) = if_present(FileIdentity::from_path(&self.cfg.csv_path))? else {
+            return Ok(false);
+        };
 
         if self.should_reset_for_new_file(current_id) {
             self.reset_series();
@@ -213,11 +215,9 @@ impl CsvRealtimePlotter {
     }
 
     fn reload_from_start(&mut self) -> Result<(), Box<dyn std::error::Error>> {
-        if !self.cfg.csv_path.exists() {
+        let Some(mut file) = if_present(File::open(&self.cfg.csv_path))? else {
             return Ok(());
-        }
-
-        let mut file = File::open(&self.cfg.csv_path)?;
+        };
         let identity = FileIdentity::from_file(&file)?;
         let mut text = String::new();
         file.read_to_string(&mut text)?;
@@ -233,7 +233,9 @@ impl CsvRealtimePlotter {
         start: u64,
         expected: FileIdentity,
     ) -> Result<bool, Box<dyn std::error::Error>> {
-        let mut file = File::open(&self.cfg.csv_path)?;
+        let Some(mut file) = if_present(File::open(&self.cfg.csv_path))? else {
+            return Ok(false);
+        };
         if !FileIdentity::from_file(&file)?.is_same_file(&expected) {
             // Replaced since it was examined: `start` means nothing in the new file. The next poll starts over.
             return Ok(false);
@@ -428,6 +430,15 @@ impl CsvRealtimePlotter {
     }
 }
 
+/// A missing file is not an error to a tailer; anything else is.
+fn if_present<T>(result: std::io::Result<T>) -> std::io::Result<Option<T>> {
+    match result {
+        Ok(v) => Ok(Some(v)),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
 fn split_csv_line(line: &str) -> Vec<&str> {
     line.split(',').map(|s| s.trim()).collect()
 }
-- 
2.43.0


From 7a08036b2a7c64245f4dab4a7d642902952bd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 05/37] fix: CSV tailer: a missing column left a partial column
 mapping, so later rows filled x but not every y column

---
 crates/aether_viz/src/realtime.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 072ba83..fffd7cc 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -336,23 +336,25 @@ impl CsvRealtimePlotter {
                 return Ok(());
             }
 
-            self.x_index = Some(
-                self
+            let x_index = self
                 .headers
                 .iter()
                 .position(|h| h == &self.cfg.x_column)
-                .ok_or_else(|| format!("x column '{}' not found", self.cfg.x_column))?,
-            );
+                .ok_or_else(|| format!("x column '{}' not found", self.cfg.x_column))?;
 
-            self.y_indices.clear();
+            let mut y_indices = Vec::with_capacity(self.cfg.y_columns.len());
             for y in &self.cfg.y_columns {
                 let yi = self
                     .headers
                     .iter()
                     .position(|h| h == y)
                     .ok_or_else(|| format!("y column '{}' not found", y))?;
-                self.y_indices.push(yi);
+                y_indices.push(yi);
             }
+
+            // All or nothing: a partial set of indices would fill some columns and not others.
+            self.x_index = Some(x_index);
+            self.y_indices = y_indices;
             return Ok(());
         }
 
-- 
2.43.0


From d5a74d3eab30320cc4ff77f58b1af00f9460b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:07 +0000
Subject: [PATCH 06/37] fix: CSV tailer: a first poll that failed on a missing
 column left the file's identity unrecorded, so its replacement was not
 noticed

---
 crates/aether_viz/src/realtime.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index fffd7cc..153e9c8 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -156,12 +156,14 @@ impl CsvRealtimePlotter {
             return Ok(true);
         }
 
+        // Before reading: even a poll that fails to parse what it read has consumed bytes of this file.
+        self.last_identity = Some(current_id);
+
         let mut changed = false;
         if current_id.len > self.file_pos {
             changed |= self.read_new_bytes(self.file_pos, current_id)?;
         }
 
-        self.last_identity = Some(current_id);
         Ok(changed)
     }
 
-- 
2.43.0


From 8f1460e5cb7f4ec5d221dabec8d62afdfe4caf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 07/37] fix: CSV tailer: a half-written multi-byte character
 made the poll fail and ended run_forever

---
 crates/aether_viz/src/realtime.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 153e9c8..77cff1a 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -221,9 +221,8 @@ impl CsvRealtimePlotter {
             return Ok(());
         };
         let identity = FileIdentity::from_file(&file)?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
-        self.file_pos = text.as_bytes().len() as u64;
+        let text = read_text(&mut file)?;
+        self.file_pos = text.len() as u64;
         self.last_identity = Some(identity);
 
         let _ = self.parse_text_chunk(&text)?;
@@ -243,9 +242,8 @@ impl CsvRealtimePlotter {
             return Ok(false);
         }
         file.seek(SeekFrom::Start(start))?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
-        self.file_pos = file.stream_position()?;
+        let text = read_text(&mut file)?;
+        self.file_pos = start + text.len() as u64;
         if text.is_empty() {
             return Ok(false);
         }
@@ -443,6 +441,19 @@ fn if_present<T>(result: std::io::Result<T>) -> std::io::Result<Option<T>> {
     }
 }
 
+/// Reads to the end of the file, leaving out a last character of which only some bytes have been written yet.
+fn read_text(file: &mut File) -> std::io::Result<String> {
+    let mut bytes = Vec::new();
+    file.read_to_end(&mut bytes)?;
+    if let Err(e) = std::str::from_utf8(&bytes) {
+        if e.error_len().is_none() {
+            bytes.truncate(e.valid_up_to());
+        }
+    }
+    String::from_utf8(bytes)
+        .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.utf8_error()))
+}
+
 fn split_csv_line(line: &str) -> Vec<&str> {
     line.split(',').map(|s| s.trim()).collect()
 }
-- 
2.43.0


From 799a7c4799f2e9bdc52c28a6ad54fc6a3107bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 08/37] fix: a once-only schedule fired again at every later
 check

---
 crates/aether_time/src/time/schedule.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b542448..0f10939 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -100,6 +100,7 @@ pub enum Recurrence {
 pub struct UtcSchedule {
     next_fire: Time<UTC>,
     pattern: Recurrence,
+    done: bool, // a Once schedule that has fired
 }
 
 
@@ -199,22 +200,21 @@ impl UtcSchedule {
                 next_yearly(start_from, month, day, hour, minute, second),
         };
 
-        Self { next_fire, pattern }
+        Self { next_fire, pattern, done: false }
     }
 
     /// Check if this schedule should fire at `now`.
     /// Returns `true` if it fired (and advances the next_fire accordingly).
     pub fn check(&mut self, now: Time<UTC>) -> bool {
-        if now < self.next_fire {
+        if self.done || now < self.next_fire {
             return false;
         }
 
         // It fires now
         match self.pattern {
             Recurrence::Once => {
-                // For Once, you might choose to never fire again;
-                // leave next_fire as-is or set to max.
-                self.pattern = Recurrence::Once;
+                // Never fires again.
+                self.done = true;
             }
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
-- 
2.43.0


From 4469b76449e23e8ccb7edc26e7db10292f70768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 09/37] fix: hourly, daily and yearly schedules announced wrong
 instants before 1970

---
 crates/aether_time/src/time/schedule.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 0f10939..6f71fdf 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -118,7 +118,7 @@ fn next_interval(after: Time<UTC>, period: Duration) -> Time<UTC> {
 
 fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let hour_start = (now_sec / SECS_PER_HOUR) * SECS_PER_HOUR;
+    let hour_start = now_sec.div_euclid(SECS_PER_HOUR) * SECS_PER_HOUR;
     let target_in_hour =
         hour_start + (minute as i64) * SECS_PER_MIN + (second as i64);
 
@@ -131,7 +131,7 @@ fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
 
 fn next_daily(after: Time<UTC>, hour: u8, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let day_start = (now_sec / SECS_PER_DAY) * SECS_PER_DAY;
+    let day_start = now_sec.div_euclid(SECS_PER_DAY) * SECS_PER_DAY;
     let target_today =
         day_start + (hour as i64) * SECS_PER_HOUR
                   + (minute as i64) * SECS_PER_MIN
@@ -244,13 +244,14 @@ impl UtcSchedule {
 impl Time<UTC> {
     pub fn to_utc_datetime(self) -> UtcDateTime {
         // Integer division / modulo: sec + nanos -> Y-M-D h:m:s.nnnnnnnnn
+        // (floor division, so that instants before 1970 work too)
         let mut secs = self.sec;
-        let second = (secs % 60) as u8;
-        secs /= 60;
-        let minute = (secs % 60) as u8;
-        secs /= 60;
-        let hour = (secs % 24) as u8;
-        let days = secs / 24;
+        let second = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let minute = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let hour = secs.rem_euclid(24) as u8;
+        let days = secs.div_euclid(24);
 
         let mut dt = days_to_ymd(days, hour, minute, second);
         dt.nanos = self.nano_sec; // preserve nanos
@@ -271,7 +272,7 @@ impl Time<UTC> {
         };
 
         // Days since civil epoch 0000-03-01
-        let era = y / 400;
+        let era = y.div_euclid(400);
         let yoe = y - era * 400;                         // [0, 399]
         let doy = (153 * (m - 3) + 2) / 5 + day - 1;     // [0, 365]
         let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; // [0, 146096]
-- 
2.43.0


From f200e4997e001422d4fadfdf11f3005c80b6f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 10/37] fix: an interval schedule looped once per missed
 period, hanging after a large clock jump

---
 crates/aether_time/src/time/duration.rs |  4 ++++
 crates/aether_time/src/time/schedule.rs | 12 ++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 9cb4153..5a5d4ba 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -31,6 +31,10 @@ impl Duration {
         self
     }
 
+    pub(crate) const fn total_nanos(&self) -> i128 {
+        self.sec as i128 * 1_000_000_000 + self.nano_sec as i128
+    }
+
     pub const fn zero() -> Self {
         Duration { sec: 0, nano_sec: 0 }
     }
diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 6f71fdf..eec3831 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -217,10 +217,14 @@ impl UtcSchedule {
                 self.done = true;
             }
             Recurrence::Interval(period) => {
-                // Catch up if we missed multiple ticks.
-                while self.next_fire <= now {
-                    self.next_fire = self.next_fire + period;
-                }
+                // Catch up at once, however many ticks we missed.
+                let step = period.total_nanos().max(1);
+                let late = (now - self.next_fire).total_nanos();
+                let ahead = (late / step + 1) * step;
+                self.next_fire = self.next_fire + Duration {
+                    sec: (ahead / 1_000_000_000) as i64,
+                    nano_sec: (ahead % 1_000_000_000) as i32,
+                };
             }
             Recurrence::Hourly { minute, second } => {
                 self.next_fire = next_hourly(now, minute, second);
-- 
2.43.0


From 42291bcdd55fc285be2e729e7a4bbe34ad0ad834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 11/37] fix: a yearly schedule for 29 February fired on 1 March
 in common years

---
 crates/aether_time/src/time/schedule.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index eec3831..aade12e 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -165,6 +165,15 @@ fn next_yearly(after: Time<UTC>, month: u8, day: u8,
         candidate = Time::<UTC>::from_utc_datetime(candidate_dt);
     }
 
+    // 29 February: wait for the next leap year (at most 8 years away)
+    while month == 2 && day == 29 && candidate.to_utc_datetime().month != 2 {
+        year += 1;
+        candidate_dt = UtcDateTime::new(
+            year, month, day, hour, minute, second, 0,
+        );
+        candidate = Time::<UTC>::from_utc_datetime(candidate_dt);
+    }
+
     candidate
 }
 
-- 
2.43.0


From 93979838cefc5d708590a00e14faec6b5f8196c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 12/37] fix: a periodic timer looped once per elapsed period,
 hanging on a large time step

---
 crates/aether_time/src/time/mission.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/aether_time/src/time/mission.rs b/crates/aether_time/src/time/mission.rs
index 8bc2168..c2a07f9 100644
--- a/crates/aether_time/src/time/mission.rs
+++ b/crates/aether_time/src/time/mission.rs
@@ -138,10 +138,12 @@ impl TimerEvent {
         
         self.acc = self.acc + dt;
         if self.acc >= self.period {
-            // preserve overshoot – wrap but keep remainder
-            while self.acc >= self.period {
-                self.acc = self.acc - self.period;
-            }
+            // preserve overshoot – wrap but keep remainder, however many periods went by
+            let rem = self.acc.total_nanos() % self.period.total_nanos().max(1);
+            self.acc = Duration {
+                sec: (rem / 1_000_000_000) as i64,
+                nano_sec: (rem % 1_000_000_000) as i32,
+            };
             true
         } else {
             false
-- 
2.43.0


From af6eeca5bdb58e0f607664b48f198f7617c6a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 13/37] fix: GPS<->TAI conversions read the leap seconds twice
 and were torn by an update in between

---
 crates/aether_time/src/time/time.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/time.rs b/crates/aether_time/src/time/time.rs
index b511ae3..69cc8bb 100644
--- a/crates/aether_time/src/time/time.rs
+++ b/crates/aether_time/src/time/time.rs
@@ -52,6 +52,9 @@ pub fn set_leap_seconds(leaps: i32) {
 /// Unix seconds at GPS epoch (1980-01-06 00:00:00 UTC)
 pub const UNIX_GPS_EPOCH: i64 = 315_964_800;
 
+/// TAI - GPS, constant since the GPS epoch
+const TAI_MINUS_GPS: i64 = 19;
+
 // -------------------------
 // Core Types
 // -------------------------
@@ -152,13 +155,14 @@ impl Time<GPS> {
 
 impl Time<GPS> {
     pub fn to_tai(self) -> Time<TAI> {
-        self.to_utc().to_tai()
+        // TAI - GPS is constant: no leap seconds involved
+        Time::<TAI>::new(self.sec + UNIX_GPS_EPOCH + TAI_MINUS_GPS, self.nano_sec)
     }
 }
 
 impl Time<TAI> {
     pub fn to_gps(self) -> Time<GPS> {
-        self.to_utc().to_gps()
+        Time::<GPS>::new(self.sec - UNIX_GPS_EPOCH - TAI_MINUS_GPS, self.nano_sec)
     }
 }
 
-- 
2.43.0


From 8dfaded5bd53715983a48fc21ba663aa6b0ea2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 14/37] fix: a small remembered GPS week could resolve to a
 negative week, wrapped to four billion

---
 crates/aether_time/src/time/gps.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/aether_time/src/time/gps.rs b/crates/aether_time/src/time/gps.rs
index 8c6a515..9f7b038 100644
--- a/crates/aether_time/src/time/gps.rs
+++ b/crates/aether_time/src/time/gps.rs
@@ -30,6 +30,10 @@ impl Time<GPS> {
         } else if (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs() {
             full -= GPS_WEEK_MODULUS as i64;
         }
+        // no week before the GPS epoch
+        if full < 0 {
+            full += GPS_WEEK_MODULUS as i64;
+        }
 
         GpsWeekTime {
             raw_week,
-- 
2.43.0


From 59ead8be7725964218854d6312baa0ff73e64ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:12 +0000
Subject: [PATCH 15/37] fix: next_real rounded draws just below one up to 1.0
 in types narrower than f64

---
 crates/aether_rand/src/randomizers/xor_shift.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_rand/src/randomizers/xor_shift.rs b/crates/aether_rand/src/randomizers/xor_shift.rs
index dc5715b..1e20033 100644
--- a/crates/aether_rand/src/randomizers/xor_shift.rs
+++ b/crates/aether_rand/src/randomizers/xor_shift.rs
@@ -25,7 +25,9 @@ impl XorShift64Star {
     pub fn next_real<T: Real>(&mut self) -> T {
         const DEN: f64 = (1u64 << 53) as f64;
         let unit = ((self.next_u64() >> 11) as f64) / DEN;
-        T::from_f64(unit)
+        let value = T::from_f64(unit);
+        // A value just below one can round up to one in a narrower type.
+        if value < T::ONE { value } else { T::ONE - T::EPSILON }
     }
 
     #[inline]
-- 
2.43.0


From 96b856441109c3a6fb9be2691216a763a6714cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:12 +0000
Subject: [PATCH 16/37] fix: parallel optimiser: a worker seed of zero drew the
 stream of another iteration

---
 .../aether_opt/src/gradient_descent/stochastic_parallel.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 59bfd8d..3c6eb00 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -197,8 +197,11 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
     // Deterministic per-thread seed for iteration k and thread t
     #[inline]
     fn thread_seed(base: u64, iter: u32, t: usize) -> u64 {
-        base ^ ((iter as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15))
-            ^ ((t as u64).wrapping_mul(0xBF58_476D_1CE4_E5B9))
+        let mixed = base ^ ((iter as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15))
+            ^ ((t as u64).wrapping_mul(0xBF58_476D_1CE4_E5B9));
+        // The generator replaces seed 0 by a constant that is itself the seed of another
+        // iteration here; a constant of our own keeps the streams distinct.
+        if mixed == 0 { 0xD1B5_4A32_D192_ED03 } else { mixed }
     }
 
     /// Parallel stochastic minimize.
-- 
2.43.0


From da9c8ca61a24cf96f89c9f25d24eb6b713e6995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:08 +0000
Subject: [PATCH 17/37] fix: catalogue loading took a failing or interrupted
 read for a malformed row and returned a truncated catalogue

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 4d6bfd2..a5f6809 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -153,10 +153,12 @@ impl GncCatalogReader {
     pub fn from_csv<P: AsRef<std::path::Path>>(
         path: P,
     ) -> Result<Self, Box<dyn std::error::Error>> {
-        let file = File::open(path)?;
+        // Read the whole file first: a read error must fail the load, not end it early,
+        // and an interrupted read must be retried.
+        let data = std::fs::read(path)?;
         let mut rdr = csv::ReaderBuilder::new()
             .flexible(true)
-            .from_reader(file);
+            .from_reader(data.as_slice());
         let mut records = Vec::new();
         let mut skipped = 0usize;
 
-- 
2.43.0


From ac9a24702c63b71d64baad9fdbb382a6aa07d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:34 +0000
Subject: [PATCH 18/37] fix: an interrupted read made a catalogue's checksum
 verification fail

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index a5f6809..e0d41fd 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -96,7 +96,11 @@ impl GncCatalogReader {
         let mut buffer = [0_u8; 64 * 1024];
 
         loop {
-            let read = file.read(&mut buffer)?;
+            let read = match file.read(&mut buffer) {
+                Ok(read) => read,
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            };
             if read == 0 {
                 break;
             }
-- 
2.43.0


From 31c4e10d9d5d022a0eea197101168e648deafef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:34 +0000
Subject: [PATCH 19/37] fix: a verified catalogue load read the file a second
 time after verifying it, accepting unverified data

---
 .../aether_catalogs/src/star_catalogs/mod.rs  | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index e0d41fd..01c158c 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -83,8 +83,10 @@ impl GncCatalogReader {
         path: P,
         expected_sha256_hex: &str,
     ) -> Result<Self, Box<dyn std::error::Error>> {
-        Self::verify_catalog_checksum(&path, expected_sha256_hex)?;
-        Self::from_csv(path)
+        // Verify and parse the same bytes: the file may change between two reads of it.
+        let data = std::fs::read(path.as_ref())?;
+        Self::check_digest(path.as_ref(), Sha256::digest(&data).as_slice(), expected_sha256_hex)?;
+        Self::from_csv_bytes(&data)
     }
 
     pub fn verify_catalog_checksum<P: AsRef<std::path::Path>>(
@@ -107,7 +109,15 @@ impl GncCatalogReader {
             hasher.update(&buffer[..read]);
         }
 
-        let digest_hex = format!("{:x}", hasher.finalize());
+        Self::check_digest(path.as_ref(), hasher.finalize().as_slice(), expected_sha256_hex)
+    }
+
+    fn check_digest(
+        path: &std::path::Path,
+        digest: &[u8],
+        expected_sha256_hex: &str,
+    ) -> Result<(), Box<dyn std::error::Error>> {
+        let digest_hex: String = digest.iter().map(|byte| format!("{byte:02x}")).collect();
         if digest_hex.eq_ignore_ascii_case(expected_sha256_hex) {
             Ok(())
         } else {
@@ -115,7 +125,7 @@ impl GncCatalogReader {
                 std::io::ErrorKind::InvalidData,
                 format!(
                     "Catalog SHA-256 checksum mismatch for {}: expected {}, got {}",
-                    path.as_ref().display(),
+                    path.display(),
                     expected_sha256_hex,
                     digest_hex,
                 ),
@@ -159,10 +169,13 @@ impl GncCatalogReader {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         // Read the whole file first: a read error must fail the load, not end it early,
         // and an interrupted read must be retried.
-        let data = std::fs::read(path)?;
+        Self::from_csv_bytes(&std::fs::read(path)?)
+    }
+
+    fn from_csv_bytes(data: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
         let mut rdr = csv::ReaderBuilder::new()
             .flexible(true)
-            .from_reader(data.as_slice());
+            .from_reader(data);
         let mut records = Vec::new();
         let mut skipped = 0usize;
 
-- 
2.43.0


From effdadea8849c99b7b39953369600d4ec91ba9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 20/37] fix: a failing matrix deserialisation leaked the
 elements already built

---
 crates/aether_core/src/math/matrix.rs | 56 +++++++++++----------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index aa7be51..5c061ec 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -1313,6 +1313,18 @@ where
     where
         D: serde::Deserializer<'de>,
     {
+        /// Elements built so far: dropped if reading stops early, forgotten on success.
+        struct Built<T> {
+            ptr: *mut T,
+            len: usize,
+        }
+
+        impl<T> Drop for Built<T> {
+            fn drop(&mut self) {
+                unsafe { ptr::drop_in_place(ptr::slice_from_raw_parts_mut(self.ptr, self.len)) }
+            }
+        }
+
         struct RowSeed<T, const N: usize>(PhantomData<T>);
 
         impl<'de, T, const N: usize> serde::de::DeserializeSeed<'de> for RowSeed<T, N>
@@ -1342,35 +1354,23 @@ where
                         A: serde::de::SeqAccess<'de>,
                     {
                         let mut row = MaybeUninit::<[T; N]>::uninit();
-                        let row_ptr = row.as_mut_ptr() as *mut T;
-                        let mut inited = 0usize;
+                        let mut built = Built { ptr: row.as_mut_ptr() as *mut T, len: 0 };
 
                         for i in 0..N {
                             match seq.next_element()? {
                                 Some(v) => {
-                                    unsafe { row_ptr.add(i).write(v) };
-                                    inited += 1;
-                                }
-                                None => {
-                                    unsafe {
-                                        for j in 0..inited {
-                                            ptr::drop_in_place(row_ptr.add(j));
-                                        }
-                                    }
-                                    return Err(serde::de::Error::invalid_length(i, &self));
+                                    unsafe { built.ptr.add(i).write(v) };
+                                    built.len += 1;
                                 }
+                                None => return Err(serde::de::Error::invalid_length(i, &self)),
                             }
                         }
 
                         if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
-                            unsafe {
-                                for j in 0..inited {
-                                    ptr::drop_in_place(row_ptr.add(j));
-                                }
-                            }
                             return Err(serde::de::Error::invalid_length(N + 1, &self));
                         }
 
+                        core::mem::forget(built);
                         Ok(unsafe { row.assume_init() })
                     }
                 }
@@ -1397,35 +1397,23 @@ where
                 A: serde::de::SeqAccess<'de>,
             {
                 let mut out = MaybeUninit::<[[T; N]; M]>::uninit();
-                let out_ptr = out.as_mut_ptr() as *mut [T; N];
-                let mut inited = 0usize;
+                let mut built = Built { ptr: out.as_mut_ptr() as *mut [T; N], len: 0 };
 
                 for i in 0..M {
                     match seq.next_element_seed(RowSeed::<T, N>(PhantomData))? {
                         Some(row) => {
-                            unsafe { out_ptr.add(i).write(row) };
-                            inited += 1;
-                        }
-                        None => {
-                            unsafe {
-                                for j in 0..inited {
-                                    ptr::drop_in_place(out_ptr.add(j));
-                                }
-                            }
-                            return Err(serde::de::Error::invalid_length(i, &self));
+                            unsafe { built.ptr.add(i).write(row) };
+                            built.len += 1;
                         }
+                        None => return Err(serde::de::Error::invalid_length(i, &self)),
                     }
                 }
 
                 if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
-                    unsafe {
-                        for j in 0..inited {
-                            ptr::drop_in_place(out_ptr.add(j));
-                        }
-                    }
                     return Err(serde::de::Error::invalid_length(M + 1, &self));
                 }
 
+                core::mem::forget(built);
                 Ok(Matrix { data: unsafe { out.assume_init() } })
             }
         }
-- 
2.43.0


From c8a7cdf61bbcd9a4d78baab5ca6432d3cca179ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:58 +0000
Subject: [PATCH 21/37] fix: a log row cut short by a disk fault ran into the
 next row

---
 .../src/performance/performance.rs            | 50 ++++++++++++-------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/crates/aether_benchmark/src/performance/performance.rs b/crates/aether_benchmark/src/performance/performance.rs
index 64017b4..ba4b6ed 100644
--- a/crates/aether_benchmark/src/performance/performance.rs
+++ b/crates/aether_benchmark/src/performance/performance.rs
@@ -1,25 +1,44 @@
 #![cfg(feature = "std")]
 // src/performance/performance.rs
 use crate::performance::clock::unix_nanos_now;
-use std::{io::Write, sync::Mutex};
+use std::{
+    fs::File,
+    io::{ErrorKind, Seek, SeekFrom, Write},
+    sync::Mutex,
+};
+
+/// Writes one row. If only part of it can be written, that part is taken back, so that it does
+/// not run into the next row.
+fn write_row(f: &mut File, row: &str) {
+    let row = row.as_bytes();
+    let mut done = 0;
+    while done < row.len() {
+        match f.write(&row[done..]) {
+            Ok(n) if n > 0 => done += n,
+            Err(e) if e.kind() == ErrorKind::Interrupted => {}
+            _ => break,
+        }
+    }
+    if done > 0 && done < row.len() {
+        if let Ok(start) = f.seek(SeekFrom::Current(-(done as i64))) {
+            let _ = f.set_len(start);
+        }
+    }
+}
 
 /// Timing CSV: unix_ns, stage, elapsed_ms
 pub struct TimingCsv(pub Mutex<std::fs::File>);
 impl TimingCsv {
     pub fn new(path: &str) -> Self {
         let mut f = std::fs::File::create(path).expect("timing csv");
-        let _ = writeln!(f, "unix_ns,stage,elapsed_ms");
+        write_row(&mut f, "unix_ns,stage,elapsed_ms\n");
         Self(Mutex::new(f))
     }
     #[inline]
     pub fn timing_ms(&self, stage: &str, ms: f64) {
-        let _ = writeln!(
-            self.0.lock().unwrap(),
-            "{},{},{}",
-            unix_nanos_now(),
-            stage,
-            ms
-        );
+        let mut f = self.0.lock().unwrap();
+        let row = format!("{},{},{}\n", unix_nanos_now(), stage, ms);
+        write_row(&mut f, &row);
     }
 }
 
@@ -28,7 +47,7 @@ pub struct PowerCsv(pub Mutex<std::fs::File>);
 impl PowerCsv {
     pub fn new(path: &str) -> Self {
         let mut f = std::fs::File::create(path).expect("power csv");
-        let _ = writeln!(f, "unix_ns,source,power_W,energy_J_total");
+        write_row(&mut f, "unix_ns,source,power_W,energy_J_total\n");
         Self(Mutex::new(f))
     }
     /// Write one sample; pass `None` for columns you can't provide
@@ -38,13 +57,8 @@ impl PowerCsv {
         let j = energy_j_total
             .map(|v| v.to_string())
             .unwrap_or_else(String::new);
-        let _ = writeln!(
-            self.0.lock().unwrap(),
-            "{},{},{},{}",
-            unix_nanos_now(),
-            source,
-            w,
-            j
-        );
+        let mut f = self.0.lock().unwrap();
+        let row = format!("{},{},{},{}\n", unix_nanos_now(), source, w, j);
+        write_row(&mut f, &row);
     }
 }
-- 
2.43.0


From e65aeb9f33947a0da3a86ece79d59de9c17e2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:29 +0000
Subject: [PATCH 22/37] fix: live viewer: a source failing during a column
 selection left every curve with the old labels

---
 crates/aether_viz/src/bin/csv_tail_egui.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/aether_viz/src/bin/csv_tail_egui.rs b/crates/aether_viz/src/bin/csv_tail_egui.rs
index 226d123..f38e58d 100644
--- a/crates/aether_viz/src/bin/csv_tail_egui.rs
+++ b/crates/aether_viz/src/bin/csv_tail_egui.rs
@@ -424,9 +424,8 @@ impl CsvTailApp {
             }
         }
 
-        if err_msg.is_none() {
-            self.y_labels = new_cols;
-        }
+        // Every source has switched to the new columns, also one that failed to load them.
+        self.y_labels = new_cols;
         self.last_error = err_msg;
     }
 }
-- 
2.43.0


From 52629bd9553b91d7686f71b3b255b30ee55fb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 23/37] fix: live viewer: a new file's load failure was erased
 by the poll before it could be shown

---
 crates/aether_viz/src/bin/csv_tail_egui.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/aether_viz/src/bin/csv_tail_egui.rs b/crates/aether_viz/src/bin/csv_tail_egui.rs
index f38e58d..af2630b 100644
--- a/crates/aether_viz/src/bin/csv_tail_egui.rs
+++ b/crates/aether_viz/src/bin/csv_tail_egui.rs
@@ -95,6 +95,7 @@ fn main() -> Result<(), Box<dyn Error>> {
         last_poll: Instant::now(),
         last_source_refresh: Instant::now(),
         last_error: None,
+        refresh_error: None,
         source_pattern: if has_pattern { Some(csv_arg) } else { None },
     };
 
@@ -135,6 +136,7 @@ struct CsvTailApp {
     last_poll: Instant,
     last_source_refresh: Instant,
     last_error: Option<String>,
+    refresh_error: Option<String>,
     source_pattern: Option<String>,
 }
 
@@ -145,7 +147,7 @@ impl eframe::App for CsvTailApp {
                 self.refresh_sources_from_pattern();
                 self.last_source_refresh = Instant::now();
             }
-            let mut err_msg = None;
+            let mut err_msg = self.refresh_error.clone();
             for source in &mut self.sources {
                 if let Err(err) = source.plotter.update_once() {
                     err_msg = Some(err.to_string());
@@ -375,6 +377,7 @@ impl CsvTailApp {
         let Some(pattern) = self.source_pattern.as_ref() else {
             return;
         };
+        self.refresh_error = None;
 
         let Ok(paths) = resolve_csv_path_pattern_all(pattern) else {
             return;
@@ -393,7 +396,7 @@ impl CsvTailApp {
                     self.sources.push(source);
                 }
                 Err(err) => {
-                    self.last_error = Some(format!(
+                    self.refresh_error = Some(format!(
                         "Failed to load new source {}: {}",
                         path.display(),
                         err
-- 
2.43.0


From 595fdbe4ed05df8e82249f2a57cb948628b3dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 24/37] fix: sensor search: cyclic links used up the search
 budget, so a readable energy counter was missed

---
 crates/aether_benchmark/src/performance/power.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/aether_benchmark/src/performance/power.rs b/crates/aether_benchmark/src/performance/power.rs
index 63ea4d4..0beeee4 100644
--- a/crates/aether_benchmark/src/performance/power.rs
+++ b/crates/aether_benchmark/src/performance/power.rs
@@ -1,6 +1,7 @@
 // src/performance/power.rs
 #![cfg(feature = "std")]
 use std::{
+    collections::HashSet,
     fs,
     path::{Path, PathBuf},
 };
@@ -58,10 +59,14 @@ fn find_first(root: &Path, filename: &str) -> Option<PathBuf> {
     let mut stack = vec![root.to_path_buf()];
     let max_nodes = 4096; // safety
     let mut seen = 0usize;
+    let mut visited = HashSet::new(); // links may lead back to a directory already searched
     while let Some(dir) = stack.pop() {
         if seen > max_nodes {
             break;
         }
+        if !visited.insert(fs::canonicalize(&dir).unwrap_or_else(|_| dir.clone())) {
+            continue;
+        }
         seen += 1;
         if let Ok(read) = fs::read_dir(&dir) {
             for e in read.flatten() {
-- 
2.43.0


From 9080ee69dd8e4203c69c75836aa7173d16220611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 25/37] fix: collecting a vector from an iterator of the wrong
 length leaked the elements already taken

---
 crates/aether_core/src/math/vector.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/crates/aether_core/src/math/vector.rs b/crates/aether_core/src/math/vector.rs
index f20487d..fa19d9e 100644
--- a/crates/aether_core/src/math/vector.rs
+++ b/crates/aether_core/src/math/vector.rs
@@ -651,21 +651,12 @@ impl<'a, T, const N: usize> IntoIterator for &'a mut Vector<T, N> {
 impl<T, const N: usize> FromIterator<T> for Vector<T, N> {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut it = iter.into_iter();
-        let mut data: core::mem::MaybeUninit<[T; N]> = core::mem::MaybeUninit::uninit();
-        let ptr = unsafe { &mut *data.as_mut_ptr() } as *mut [T; N] as *mut T;
-
-        for i in 0..N {
-            unsafe {
-                ptr.add(i)
-                    .write(it.next().expect("FromIterator: not enough elements"));
-            }
-        }
+        // the elements taken so far are released if the iterator ends early or panics
+        let data = core::array::from_fn(|_| it.next().expect("FromIterator: not enough elements"));
         if it.next().is_some() {
             panic!("FromIterator: too many elements");
         }
-        Vector {
-            data: unsafe { data.assume_init() },
-        }
+        Vector { data }
     }
 }
 
-- 
2.43.0


From a36e7777c79404b60db02cf004682d7fcccafbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 26/37] fix: an error plot without finite values, or with
 infinite ones, never returned

---
 crates/aether_viz/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/aether_viz/src/lib.rs b/crates/aether_viz/src/lib.rs
index a33e316..48a003c 100644
--- a/crates/aether_viz/src/lib.rs
+++ b/crates/aether_viz/src/lib.rs
@@ -98,10 +98,16 @@ where
         let t = i as f64 / samples as f64;
         let x = a + (b - a) * t;
         let e = f_approx(x) - f_true(x);
+        if !x.is_finite() || !e.is_finite() {
+            continue; // as in plot_series: an axis cannot span it
+        }
         min_e = min_e.min(e);
         max_e = max_e.max(e);
         pts.push((x, e));
     }
+    if pts.is_empty() {
+        return Err("plot_error_on_grid: no finite points to plot".into());
+    }
     if min_e == max_e { max_e = min_e + 1.0; }
 
     #[cfg(feature = "svg")]
-- 
2.43.0


From 959762a8c596ab0055bfa32090176017a001fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:17 +0000
Subject: [PATCH 27/37] fix: gradient descent's line search never ended where
 the step stopped shrinking

---
 crates/aether_opt/src/gradient_descent/basic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 49d2ef9..ccade06 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -227,8 +227,11 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
                         break;
                     }
 
-                    step = step * self.backtrack_tau;
-                    if step <= F::from_f64(1e-20_f64) {
+                    // In a narrow type the step can stop shrinking before it is this small.
+                    let next = step * self.backtrack_tau;
+                    let stuck = !(next < step);
+                    step = next;
+                    if stuck || step <= F::from_f64(1e-20_f64) {
                         // give up this iteration; behave like tiny step
                         x = trial;
                         fx = f_trial;
-- 
2.43.0


From 1e02b8da6f1b8c8490d1e5d6fa5aeff67715a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 28/37] fix: a negative Duration from nanoseconds was not
 normalised and compared wrongly

---
 crates/aether_time/src/time/duration.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 5a5d4ba..82de477 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -15,8 +15,9 @@ pub struct Duration {
 
 impl Duration {
     pub const fn from_nanos(total: i64) -> Self {
-        let sec = total / 1_000_000_000;
-        let nano_sec = (total % 1_000_000_000) as i32;
+        // Rounded down, as in every other constructor, so that equal spans compare equal.
+        let sec = total.div_euclid(1_000_000_000);
+        let nano_sec = total.rem_euclid(1_000_000_000) as i32;
         Self { sec, nano_sec }
     }
 
-- 
2.43.0


From 95a2acaa0ddd4af3ad19935dad4c2a3c0f25eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:11 +0000
Subject: [PATCH 29/37] fix: Duration::normalize left a nanosecond part below
 minus one second negative

---
 crates/aether_time/src/time/duration.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 82de477..5366b16 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -22,13 +22,8 @@ impl Duration {
     }
 
     pub fn normalize(mut self) -> Self {
-        if self.nano_sec >= 1_000_000_000 {
-            self.sec += (self.nano_sec / 1_000_000_000) as i64;
-            self.nano_sec %= 1_000_000_000;
-        } else if self.nano_sec < 0 {
-            self.sec -= 1;
-            self.nano_sec += 1_000_000_000;
-        }
+        self.sec += self.nano_sec.div_euclid(1_000_000_000) as i64;
+        self.nano_sec = self.nano_sec.rem_euclid(1_000_000_000);
         self
     }
 
-- 
2.43.0


From 5996a18124657c01d7177dbba78b0ddb56d2900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:36 +0000
Subject: [PATCH 30/37] fix: logistic fit's line search minimised a different
 loss than its gradient

The smoothing constant in the cross-entropy was 1/3, so on data that is not
separable the search stopped away from the minimum.
---
 crates/aether_ml/src/regression/logistic.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/aether_ml/src/regression/logistic.rs b/crates/aether_ml/src/regression/logistic.rs
index 8e2642f..e5b7a43 100644
--- a/crates/aether_ml/src/regression/logistic.rs
+++ b/crates/aether_ml/src/regression/logistic.rs
@@ -94,8 +94,6 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
         p_arr[N] = self.bias;
         let x0 = Vector::new(p_arr);
 
-        let tiny = F::ONE / (F::ONE + (F::ONE + F::ONE));
-
         let f = |pv: &Vector<F, M>| -> F {
             let mut loss = F::ZERO;
             for (x, &yi) in x_data.iter().zip(y.iter()) {
@@ -103,10 +101,12 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
                 for i in 0..N {
                     s = s + pv[i] * x[i];
                 }
-                let p = F::ONE / (F::ONE + (-s).exp());
-                let yv: F = if yi == 0 { F::ZERO } else { F::ONE };
-                // binary cross-entropy: -(y ln p + (1-y) ln (1-p))
-                loss = loss - (yv * (p + tiny).ln() + (F::ONE - yv) * (F::ONE - p + tiny).ln());
+                // binary cross-entropy: -(y ln p + (1-y) ln (1-p)) with p = sigmoid(s), which is
+                // ln(1 + e^z) with z = -s for y = 1 and z = s for y = 0; written so that it matches
+                // the gradient below everywhere and cannot overflow
+                let z = if yi == 0 { s } else { -s };
+                let pos = if z > F::ZERO { z } else { F::ZERO };
+                loss = loss + pos + (F::ONE + (-z.abs()).exp()).ln();
             }
             loss / m
         };
-- 
2.43.0


From 17624b336d7caae0ece696a513b7e07e542ae76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:38 +0000
Subject: [PATCH 31/37] fix: composing quaternions applied the transforms in
 the wrong order

A product (Mid -> To) * (From -> Mid) is documented to match the matrices'
chaining, but the Hamilton product was taken in the order for active
rotations while rotate_vector and the conversions are passive.
---
 crates/aether_core/src/attitude/quaternion.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 72c2c7d..d615e81 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -248,9 +248,10 @@ impl<T: Real, From: ReferenceFrame, Mid: ReferenceFrame, To: ReferenceFrame>
 
     #[inline]
     fn mul(self, rhs: &Quaternion<T, From, Mid>) -> Self::Output {
-        // Hamilton product: self x rhs
-        let [w1, x1, y1, z1] = self.data.data; // Mid -> To
-        let [w2, x2, y2, z2] = rhs.data.data;  // From -> Mid
+        // Passive rotation is q* ⊗ v ⊗ q, so the first transform is the left factor:
+        // Hamilton product: rhs x self
+        let [w1, x1, y1, z1] = rhs.data.data;  // From -> Mid
+        let [w2, x2, y2, z2] = self.data.data; // Mid -> To
 
         Quaternion::new(
             w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
-- 
2.43.0


From 9ae7711be3fe082ad0d9c66d28e8757b626f4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:43 +0000
Subject: [PATCH 32/37] fix: Quaternion::to_dcm returned the inverse rotation's
 matrix

It disagreed with rotate_vector and with DirectionCosineMatrix::from.
---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index d615e81..f815cbe 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -164,9 +164,9 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let yz = y * z;
 
         let m = Matrix::<T, 3, 3>::new([
-            [ ww + xx - yy - zz, two * (xy - wz),     two * (xz + wy) ],
-            [ two * (xy + wz),   ww - xx + yy - zz,  two * (yz - wx) ],
-            [ two * (xz - wy),   two * (yz + wx),    ww - xx - yy + zz ],
+            [ ww + xx - yy - zz, two * (xy + wz),     two * (xz - wy) ],
+            [ two * (xy - wz),   ww - xx + yy - zz,  two * (yz + wx) ],
+            [ two * (xz + wy),   two * (yz - wx),    ww - xx - yy + zz ],
         ]);
 
         DirectionCosineMatrix::from_matrix(m)
-- 
2.43.0


From 85e068e1947abedaa5622c77ad921d2b18f15bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:48 +0000
Subject: [PATCH 33/37] fix: Quaternion::integrate turned by the wrong angle

The rates were given a scalar part of one, and the second and third order
terms had the wrong coefficients.
---
 crates/aether_core/src/attitude/quaternion.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index f815cbe..408eaad 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -203,19 +203,19 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let two = one + one;
         let three = two + one;
         let four = two + two;
-        let nine = three * three;
+        let six = three + three;
 
         let half = one / two;
         let quarter = one / four;
-        let ninth = one / nine;
+        let sixth = one / six;
 
-        let ang_acc_quat = Quaternion::from_parts(one, ang_acc);
-        let ang_vel_quat = Quaternion::from_parts(one, ang_vel);
+        let ang_acc_quat = Quaternion::from_parts(T::ZERO, ang_acc);
+        let ang_vel_quat = Quaternion::from_parts(T::ZERO, ang_vel);
 
         let q_dot = q.mul_raw(&ang_vel_quat) * half;
         let q_ddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_acc_quat) * half;
-        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (one / (three + three))
+        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (half * quarter)
             + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * half;
 
@@ -223,8 +223,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let dt3 = dt2 * dt;
 
         let mut new_q = q + q_dot * dt;
-        new_q = new_q + q_ddot * (quarter * dt2);
-        new_q = new_q + q_dddot * (ninth * dt3);
+        new_q = new_q + q_ddot * (half * dt2);
+        new_q = new_q + q_dddot * (sixth * dt3);
 
         new_q.normalized()
     }
-- 
2.43.0


From ec965a0a7aa670cf467d98b6b8a15fd8f11c0ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:54 +0000
Subject: [PATCH 34/37] fix: Euler angles from an attitude were NaN or wrong at
 gimbal lock

asin of a matrix element just over one is NaN, and roll was read from
elements that vanish when the pitch is 90 degrees.
---
 crates/aether_core/src/attitude/euler.rs | 37 +++++-------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/crates/aether_core/src/attitude/euler.rs b/crates/aether_core/src/attitude/euler.rs
index 8fdd4c5..8f645e5 100644
--- a/crates/aether_core/src/attitude/euler.rs
+++ b/crates/aether_core/src/attitude/euler.rs
@@ -39,34 +39,7 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
     core::convert::From<&Quaternion<T, From, To>> for Euler<T, From, To>
 {
     fn from(q: &Quaternion<T, From, To>) -> Self {
-        let w = q.w();
-        let x = q.i();
-        let y = q.j();
-        let z = q.k();
-
-        let two = T::ONE + T::ONE;
-        let one = T::ONE;
-
-        // Roll (x-axis)
-        let sinr_cosp = two * (w * x + y * z);
-        let cosr_cosp = one - two * (x * x + y * y);
-        let roll = sinr_cosp.atan2(cosr_cosp);
-
-        // Pitch (y-axis)
-        let sinp = two * (w * y - z * x);
-        let half_pi = T::FRAC_PI_2;
-        let pitch = if sinp.abs() >= one {
-            half_pi * sinp.signum()
-        } else {
-            sinp.asin()
-        };
-
-        // Yaw (z-axis)
-        let siny_cosp = two * (w * z + x * y);
-        let cosy_cosp = one - two * (y * y + z * z);
-        let yaw = siny_cosp.atan2(cosy_cosp);
-
-        Self::new(roll, pitch, yaw)
+        Self::from(&DirectionCosineMatrix::from(q))
     }
 }
 
@@ -79,8 +52,12 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
 
         // ZYX convention (yaw-pitch-roll), passive From -> To
         let yaw   = m[0][1].atan2(m[0][0]);
-        let pitch = -(m[0][2]).asin();
-        let roll  = m[1][2].atan2(m[2][2]);
+        let pitch = (-m[0][2]).atan2((m[0][0] * m[0][0] + m[0][1] * m[0][1]).sqrt());
+
+        // Undo the yaw before reading the roll: at gimbal lock (pitch of +-90 deg)
+        // m23 and m33 both vanish, but the rotation left after the yaw does not.
+        let (cy, sy) = (yaw.cos(), yaw.sin());
+        let roll  = (m[2][0] * sy - m[2][1] * cy).atan2(m[1][1] * cy - m[1][0] * sy);
 
         Self::new(roll, pitch, yaw)
     }
-- 
2.43.0


From 88bc4af486097b92ffd430805bc5d1fa6559de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:58 +0000
Subject: [PATCH 35/37] fix: the orbit camera mixed passive and active
 rotations

Increments were multiplied as active rotations but the view direction was
read with the passive transform: yaw was reversed and a pitch set at a yaw
of 90 degrees was lost.
---
 .../aether_graphics/src/cameras/orbit_camera.rs  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/aether_graphics/src/cameras/orbit_camera.rs b/crates/aether_graphics/src/cameras/orbit_camera.rs
index ed4d51c..66caa51 100644
--- a/crates/aether_graphics/src/cameras/orbit_camera.rs
+++ b/crates/aether_graphics/src/cameras/orbit_camera.rs
@@ -14,6 +14,12 @@ impl<T: Real> ReferenceFrame for OpenGL<T> {}
 
 type CamQuat<T> = Quaternion<T, OpenGL<T>, Camera<T>>;
 
+/// Turns `v` by `q` (active). `rotate_vec` is the passive transform, which turns the other way.
+#[inline]
+fn turn<T: Real>(q: &CamQuat<T>, v: &Vector<T, 3>) -> Vector<T, 3> {
+    q.conjugate().rotate_vec(v)
+}
+
 #[derive(Debug, Clone)]
 pub struct OrbitCamera<T: Real = f64> {
     pub target: Vector<T, 3>, // look-at point
@@ -59,7 +65,7 @@ impl<T: Real> OrbitCamera<T> {
 
         // Compute the post-yaw forward and right axis.
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        let fwd = q_yaw.rotate_vec(&base_forward).normalize();
+        let fwd = turn(&q_yaw, &base_forward).normalize();
         let mut right = world_up.cross(&fwd);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
@@ -67,7 +73,7 @@ impl<T: Real> OrbitCamera<T> {
         }
         right = right.normalize();
 
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, pitch);
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -pitch);
         self.orientation = q_pitch.mul_hamilton_same(&q_yaw).normalized();
     }
 
@@ -90,14 +96,14 @@ impl<T: Real> OrbitCamera<T> {
         let tmp = q_yaw.mul_hamilton_same(&self.orientation).normalized();
 
         // 2) pitch about camera right after yaw
-        let fwd_tmp = tmp.rotate_vec(&base_forward).normalize();
+        let fwd_tmp = turn(&tmp, &base_forward).normalize();
         let mut right = world_up.cross(&fwd_tmp);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
             right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd_tmp);
         }
         right = right.normalize();
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, dpitch);
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -dpitch);
 
         self.orientation = q_pitch.mul_hamilton_same(&tmp).normalized();
 
@@ -142,7 +148,7 @@ impl<T: Real> OrbitCamera<T> {
     #[inline]
     pub fn forward(&self) -> Vector<T, 3> {
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        self.orientation.rotate_vec(&base_forward).normalize()
+        turn(&self.orientation, &base_forward).normalize()
     }
 
     #[inline]
-- 
2.43.0


From fd133a910329d5cee98238450d4c1027fdcd3f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:03 +0000
Subject: [PATCH 36/37] fix: ecef_to_geocentric_ferrari left out a square root

s is the cube root of 1 + c + sqrt(c^2 + 2c).
---
 crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
index bf5eee2..ecf8c2c 100644
--- a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
@@ -70,7 +70,7 @@ pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let ff = T::from_f64(54.0) * b2 * z2;
     let g = r2 + (T::ONE - e_2) * z2 - e_2 * e2_2;
     let c = e_2.powf(two) * ff * r2 / g.powf(T::from_f64(3.0));
-    let s = (T::ONE + c + (c.powf(two) + two * c)).powf(T::ONE / T::from_f64(3.0));
+    let s = (T::ONE + c + (c.powf(two) + two * c).sqrt()).powf(T::ONE / T::from_f64(3.0));
     let pp = ff / (T::from_f64(3.0) * (s + T::ONE / s + T::ONE).powf(two) * g.powf(two));
     let q = (T::ONE + two * e_2.powf(two) * pp).sqrt();
 
-- 
2.43.0


From 4fecb1e8091f00ead20d8198bae5c1e639f6c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:08 +0000
Subject: [PATCH 37/37] fix: the Moon's LIRF/LTRF transforms ignored its epoch

icrf_to_ltrf measures time from the epoch, so going by way of the LIRF
gave another orientation.
---
 crates/aether_models/src/lunar/moon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/lunar/moon.rs b/crates/aether_models/src/lunar/moon.rs
index 11e9d21..b83d2c8 100644
--- a/crates/aether_models/src/lunar/moon.rs
+++ b/crates/aether_models/src/lunar/moon.rs
@@ -95,11 +95,11 @@ impl Moon {
     }
 
     pub fn lirf_to_ltrf(&self, time: f64) -> DirectionCosineMatrix<f64, LIRF, LTRF> {
-        transforms::lirf_to_ltrf(time)
+        transforms::lirf_to_ltrf(time - self.epoch_time)
     }
 
     pub fn ltrf_to_lirf(&self, time: f64) -> DirectionCosineMatrix<f64, LTRF, LIRF> {
-        transforms::ltrf_to_lirf(time)
+        transforms::ltrf_to_lirf(time - self.epoch_time)
     }
 
     pub fn icrf_to_lirf(&self) -> DirectionCosineMatrix<f64, ICRF<f64>, LIRF> {
-- 
2.43.0

