From 08a5f320dca8ead5df3e14e10fc668fd6235e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:21 +0000
Subject: [PATCH 01/25] fix: ceil_multiple used floating point and was wrong
 above 2^53

---
 juno/src/math.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ff83f03..ec9a65f 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -1,5 +1,10 @@
 pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
-    f64::ceil(value as f64 / multiple as f64) as u64 * multiple
+    let remainder = value % multiple;
+    if remainder == 0 {
+        value
+    } else {
+        value - remainder + multiple
+    }
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-- 
2.43.0


From 8306b1846ee8fb8631b912dacba36fc828783268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 02/25] fix: rounding to a precision of ten or more decimals
 overflowed

---
 juno/src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ec9a65f..c8fe31d 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -50,12 +50,12 @@ pub fn std_deviation(data: &[f64]) -> f64 {
 }
 
 pub fn round_down(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).floor() / factor
 }
 
 pub fn round_half_up(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).round() / factor
 }
 
-- 
2.43.0


From ef4f9f144a21328a2937600f1ebcdf611524b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 03/25] fix: multiples with an offset underflowed for values
 before the offset

---
 juno/src/math.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index c8fe31d..45c7873 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -8,7 +8,11 @@ pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-    ceil_multiple(value - offset, multiple) + offset
+    if value < offset {
+        offset - floor_multiple(offset - value, multiple)
+    } else {
+        ceil_multiple(value - offset, multiple) + offset
+    }
 }
 
 pub fn floor_multiple(value: u64, multiple: u64) -> u64 {
@@ -16,7 +20,11 @@ pub fn floor_multiple(value: u64, multiple: u64) -> u64 {
 }
 
 pub fn floor_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-    floor_multiple(value - offset, multiple) + offset
+    if value < offset {
+        offset - ceil_multiple(offset - value, multiple)
+    } else {
+        floor_multiple(value - offset, multiple) + offset
+    }
 }
 
 pub fn mean(data: &[f64]) -> f64 {
-- 
2.43.0


From 58fcca368661f25ea235e1b44ab4bb9a266ea4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 04/25] fix: ceiling a timestamp at the start of a month moved
 it to the next month

---
 juno/src/primitives/timestamp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index c57e649..8728a08 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -72,6 +72,10 @@ impl Timestamp {
             return Self(ceil_multiple_offset(self.0, interval.0, WEEK_OFFSET_MS));
         }
         if interval == Interval::MONTH_MS {
+            let floored = self.floor(interval);
+            if floored == *self {
+                return floored;
+            }
             let dt = datetime_utcfromtimestamp_ms(self.0);
             let (mut year, mut month, _) = dt.to_calendar_date();
             if month == Month::December {
-- 
2.43.0


From 8f3f182ac248b7541a43f1e070c70a3fbc812259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 05/25] fix: parsing an interval with an unknown unit or too
 large a value crashed

---
 juno/src/primitives/interval.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/juno/src/primitives/interval.rs b/juno/src/primitives/interval.rs
index 733750a..b676f6f 100644
--- a/juno/src/primitives/interval.rs
+++ b/juno/src/primitives/interval.rs
@@ -35,13 +35,10 @@ static INTERVAL_FACTOR_MAP: Lazy<HashMap<&'static str, u64>> =
 
 static INTERVAL_GROUP_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\d+[a-zA-Z]+)").unwrap());
 
-fn calc_interval_group(group: &str) -> u64 {
-    for (i, c) in group.chars().enumerate() {
-        if c.is_alphabetic() {
-            return group[0..i].parse::<u64>().unwrap() * INTERVAL_FACTOR_MAP[&group[i..]];
-        }
-    }
-    panic!("Invalid interval group: {group}");
+fn calc_interval_group(group: &str) -> Option<u64> {
+    let i = group.find(char::is_alphabetic)?;
+    let value = group[0..i].parse::<u64>().ok()?;
+    value.checked_mul(*INTERVAL_FACTOR_MAP.get(&group[i..])?)
 }
 
 #[derive(Debug, Default, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize)]
@@ -87,11 +84,13 @@ impl FromStr for Interval {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(
-            INTERVAL_GROUP_RE
-                .find_iter(s)
-                .fold(0, |acc, group| acc + calc_interval_group(group.as_str())),
-        ))
+        INTERVAL_GROUP_RE
+            .find_iter(s)
+            .try_fold(0_u64, |acc, group| {
+                acc.checked_add(calc_interval_group(group.as_str())?)
+            })
+            .map(Self)
+            .ok_or(Self::Err {})
     }
 }
 
-- 
2.43.0


From 30b29a8998e4d5826959b320b91d24fa20765bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 06/25] fix: size filters without a maximum or step rejected
 every size

---
 juno/src/filters.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/juno/src/filters.rs b/juno/src/filters.rs
index 2ba584e..e58ffdc 100644
--- a/juno/src/filters.rs
+++ b/juno/src/filters.rs
@@ -57,12 +57,20 @@ impl Size {
         if size < self.min {
             return 0.0;
         }
-        size = f64::min(size, self.max);
-        (size / self.step).ceil() * self.step
+        if self.max > 0.0 {
+            size = f64::min(size, self.max);
+        }
+        if self.step > 0.0 {
+            size = (size / self.step).ceil() * self.step;
+        }
+
+        size
     }
 
     pub fn valid(&self, size: f64) -> bool {
-        size >= self.min && size <= self.max && (size - self.min) % self.step == 0.0
+        size >= self.min
+            && (self.max == 0.0 || size <= self.max)
+            && (self.step == 0.0 || (size - self.min) % self.step == 0.0)
     }
 }
 
-- 
2.43.0


From 51daa287664e6e0584496554990bf04a1cbc5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:36 +0000
Subject: [PATCH 07/25] fix: Ema2 reported maturity before it had a value and
 seeded it one price late

---
 juno/src/indicators/ema2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index d834e41..1fa6a1c 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -47,6 +47,8 @@ impl MA for Ema2 {
     }
 
     fn update(&mut self, price: f64) {
+        self.t = min(self.t + 1, self.t2);
+
         if self.t <= self.t1 {
             self.sma.update(price);
         }
@@ -56,8 +58,6 @@ impl MA for Ema2 {
         } else if self.t >= self.t2 {
             self.value = (price - self.value) * self.a + self.value;
         }
-
-        self.t = min(self.t + 1, self.t2)
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From ec1fa7e0b065e321a5d6e7991b8e228f8bfba4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:36 +0000
Subject: [PATCH 08/25] fix: Ema with a period of one ignored its smoothing

---
 juno/src/indicators/ema.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema.rs b/juno/src/indicators/ema.rs
index 515f418..0de5d2e 100644
--- a/juno/src/indicators/ema.rs
+++ b/juno/src/indicators/ema.rs
@@ -1,6 +1,6 @@
 use super::MA;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct EmaParams {
@@ -45,7 +45,8 @@ impl MA for Ema {
     }
 
     fn update(&mut self, price: f64) {
-        self.t = min(self.t + 1, self.t1);
+        // Count past the first update even if the period is one.
+        self.t = min(self.t + 1, max(self.t1, 2));
         self.value = match self.t {
             1 => price,
             _ => (price - self.value) * self.a + self.value,
-- 
2.43.0


From 92941fbb54f357a1ced13c82fbfb1cabdb8af23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:01 +0000
Subject: [PATCH 09/25] fix: Stoch, DI and DX were not a number while the price
 did not move

---
 juno/src/indicators/di.rs    | 17 +++++++++++++----
 juno/src/indicators/dx.rs    |  7 ++++++-
 juno/src/indicators/stoch.rs |  7 ++++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/juno/src/indicators/di.rs b/juno/src/indicators/di.rs
index 070e06e..7b84780 100644
--- a/juno/src/indicators/di.rs
+++ b/juno/src/indicators/di.rs
@@ -48,16 +48,25 @@ impl DI {
         }
 
         if self.t == self.t2 {
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.set_values();
         } else if self.t >= self.t3 {
             self.atr = self.atr * self.per + calc_truerange(self.prev_close, high, low);
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.set_values();
         }
 
         self.prev_close = close;
     }
+
+    fn set_values(&mut self) {
+        if self.atr == 0.0 {
+            // The price has not moved at all.
+            self.plus_value = 0.0;
+            self.minus_value = 0.0;
+        } else {
+            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
+            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+        }
+    }
 }
 
 fn calc_truerange(prev_close: f64, high: f64, low: f64) -> f64 {
diff --git a/juno/src/indicators/dx.rs b/juno/src/indicators/dx.rs
index 90d2080..918c328 100644
--- a/juno/src/indicators/dx.rs
+++ b/juno/src/indicators/dx.rs
@@ -32,7 +32,12 @@ impl DX {
         self.dm.update(high, low);
 
         if self.t >= self.t1 {
-            self.value = self.dm.diff() / self.dm.sum() * 100.0;
+            let sum = self.dm.sum();
+            self.value = if sum == 0.0 {
+                0.0
+            } else {
+                self.dm.diff() / sum * 100.0
+            };
         }
     }
 }
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 874f630..e91e7fa 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -58,7 +58,12 @@ impl Stoch {
         if self.t >= self.t1 {
             let max_high = self.k_high_window.iter().cloned().fold(f64::MIN, f64::max);
             let min_low = self.k_low_window.iter().cloned().fold(f64::MAX, f64::min);
-            let fast_k = 100.0 * (close - min_low) / (max_high - min_low);
+            let range = max_high - min_low;
+            let fast_k = if range == 0.0 {
+                0.0
+            } else {
+                100.0 * (close - min_low) / range
+            };
 
             self.k_sma.update(fast_k);
 
-- 
2.43.0


From 601c76634fdbffd4d86c660cad0c061d5e6cfdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:01 +0000
Subject: [PATCH 10/25] fix: Adx skipped DX values of zero and announced its
 maturity too early

---
 juno/src/indicators/adx.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index 8747c9f..b7780dc 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -3,7 +3,6 @@ use super::{
     smma::{Smma, SmmaParams},
     MA,
 };
-use std::cmp::max;
 
 pub struct Adx {
     pub value: f64,
@@ -21,7 +20,7 @@ impl Adx {
     }
 
     pub fn maturity(&self) -> u32 {
-        max(self.dx.maturity(), self.smma.maturity())
+        self.dx.maturity() + self.smma.maturity() - 1
     }
 
     pub fn mature(&self) -> bool {
@@ -30,11 +29,9 @@ impl Adx {
 
     pub fn update(&mut self, high: f64, low: f64) {
         self.dx.update(high, low);
-        self.value = if self.dx.value == 0.0 {
-            0.0
-        } else {
+        if self.dx.mature() {
             self.smma.update(self.dx.value);
-            self.smma.value
+            self.value = self.smma.value;
         }
     }
 }
-- 
2.43.0


From f41b53d78e678a255862593384a4122e2442c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:46 +0000
Subject: [PATCH 11/25] fix: merged candles after a gap started off their
 interval; weeks and months were not calendar ones

---
 juno/src/utils/buffered_candle.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index b50ef9a..b40a73a 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -38,20 +38,17 @@ impl BufferedCandle {
             return Some(Cow::Borrowed(candle));
         }
 
+        let buffer_time = candle.time.floor(self.buffer_interval);
         let ret = match self.buffer_candle {
             None => {
                 self.buffer_candle = Some(Candle {
-                    time: candle.time.floor(self.buffer_interval),
-                    open: candle.open,
-                    high: candle.high,
-                    low: candle.low,
-                    close: candle.close,
-                    volume: candle.volume,
+                    time: buffer_time,
+                    ..*candle
                 });
                 None
             }
             Some(ref mut buffer_candle) => {
-                if candle.time >= buffer_candle.time + self.buffer_interval {
+                if buffer_time > buffer_candle.time {
                     Some(*buffer_candle)
                 } else {
                     *buffer_candle += candle;
@@ -60,13 +57,17 @@ impl BufferedCandle {
             }
         };
 
-        let is_last = (candle.time + self.interval) % self.buffer_interval == 0;
+        let next_time = candle.time + self.interval;
+        let is_last = next_time.floor(self.buffer_interval) == next_time;
 
         if let Some(ret) = ret {
             if is_last {
                 panic!("too many missing candles");
             }
-            self.buffer_candle = Some(*candle);
+            self.buffer_candle = Some(Candle {
+                time: buffer_time,
+                ..*candle
+            });
             Some(Cow::Owned(ret))
         } else if is_last {
             Some(Cow::Owned(self.buffer_candle.take().unwrap()))
-- 
2.43.0


From 1b4fd9acad976bfa1f681de13a16a406ec85d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:46 +0000
Subject: [PATCH 12/25] fix: missing spans reached outside the range and the
 last partial page was lost

---
 juno/src/utils/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 3e2e436..eca6339 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -8,7 +8,7 @@ pub use changed::*;
 pub use mid_trend::*;
 pub use persistence::*;
 
-use crate::Advice;
+use crate::{math::ceil_multiple, Advice};
 
 pub fn combine(advice1: Advice, advice2: Advice) -> Advice {
     if advice1 == Advice::None || advice2 == Advice::None {
@@ -60,10 +60,13 @@ pub fn generate_missing_spans(
 
     // Spans are ordered by start_date. Spans do not overlap with each other.
     for &(existing_start, existing_end) in existing_spans {
+        if existing_start >= missing_end {
+            break;
+        }
         if existing_start > missing_start {
             result.push((missing_start, existing_start));
         }
-        missing_start = existing_end;
+        missing_start = u64::max(missing_start, existing_end);
     }
 
     if missing_start < missing_end {
@@ -74,9 +77,8 @@ pub fn generate_missing_spans(
 }
 
 pub fn page(start: u64, end: u64, interval: u64, limit: u64) -> impl Iterator<Item = (u64, u64)> {
-    let total_size = (end - start) / interval;
     let max_count = limit * interval;
-    let page_size = (total_size as f64 / limit as f64).ceil() as u64;
+    let page_size = ceil_multiple(end - start, max_count) / max_count;
     (0..page_size).map(move |i| {
         let page_start = start + i * max_count;
         let page_end = u64::min(page_start + max_count, end);
-- 
2.43.0


From 4b34f50b9170d45fb45fe5aa2e0b089669037fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 13/25] fix: accept valid tournament size rates

---
 juno/src/genetics/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 625b786..9ee29a5 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -51,7 +51,7 @@ pub struct TournamentSelection {
 
 impl TournamentSelection {
     pub fn new(tournament_size_rate: f32, allow_winner_compete_next_tournament: bool) -> Self {
-        assert!(0.0 > tournament_size_rate && tournament_size_rate < 1.0);
+        assert!(0.0 < tournament_size_rate && tournament_size_rate < 1.0);
         // TODO: Implement.
         assert!(allow_winner_compete_next_tournament);
         Self {
-- 
2.43.0


From 53a011e304103abfa682349795513ba9f7b97287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 14/25] fix: let the fittest contender win a tournament

fitness_desc orders the fittest first, so the maximum was the least fit.
---
 juno/src/genetics/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 9ee29a5..d90511e 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -87,7 +87,7 @@ impl Selection for TournamentSelection {
         for _ in 0..count {
             let tournament = parents.choose_multiple(rng, tournament_size);
             let winner = tournament
-                .max_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
+                .min_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
                 .unwrap();
             offsprings.push(winner.clone());
         }
-- 
2.43.0


From ca0809a2c873a7b10e907f87165de9a3e0045b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 15/25] fix: tournaments in small populations have a contender

---
 juno/src/genetics/selection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index d90511e..ad43d9d 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -81,7 +81,9 @@ impl Selection for TournamentSelection {
     ) {
         debug_assert!(self.allow_winner_compete_next_tournament || rate <= 1.0);
 
-        let tournament_size = (parents.len() as f32 * self.tournament_size_rate) as usize;
+        // At least one contender, also in small populations.
+        let tournament_size =
+            ((parents.len() as f32 * self.tournament_size_rate) as usize).max(1);
 
         let count = (parents.len() as f32 * rate) as usize;
         for _ in 0..count {
-- 
2.43.0


From 7ab66a437372173ad127513df6f64ca9a3da985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 16/25] fix: evolve populations which select a single offspring

---
 juno/src/genetics/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5898ad2..5ecfa5a 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -136,6 +136,11 @@ where
             // TODO: Ugly.
             // If is last, we wrap around and take the first offspring to pair.
             let is_last = i == offsprings.len() - 1;
+            if is_last && i == 0 {
+                // Nothing to pair a single offspring with.
+                self.mutation.mutate(rng, &mut offsprings[0].chromosome, ctx);
+                break;
+            }
             let (chromosome1, chromosome2) = if is_last {
                 let (a, b) = offsprings.split_at_mut(i);
                 (&mut b[0].chromosome, &mut a[0].chromosome)
-- 
2.43.0


From f7688f8388ffcd40db9a135823a13991c1012623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 17/25] fix: evolve for the requested number of generations

The capacity of a vector is only a lower bound and may grow on push.
---
 juno/src/genetics/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5ecfa5a..10ce2a5 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -67,7 +67,9 @@ where
 
         let mut rng = StdRng::seed_from_u64(seed);
 
-        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(generations);
+        let num_generations = generations;
+        let mut generations: Vec<Generation<TE::Chromosome>> =
+            Vec::with_capacity(num_generations + 1);
 
         let mut timings = Timings::default();
 
@@ -84,7 +86,7 @@ where
 
         let mut offsprings = Vec::with_capacity(population_size);
 
-        for gen in 1..=generations.capacity() {
+        for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
             self.run_generation(
-- 
2.43.0


From b4c9fb324ec52985ca9b4744fe95f4fef3cc033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 18/25] fix: evaluate individuals generated during reinsertion

---
 juno/src/genetics/algorithm.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 10ce2a5..d9ca3c1 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -170,7 +170,20 @@ where
         self.evaluate_and_sort_by_fitness_desc(offsprings, timings);
         // reinsert
         self.reinsertion
-            .reinsert(rng, parents, offsprings, population_size, ctx)
+            .reinsert(rng, parents, offsprings, population_size, ctx);
+
+        // Individuals generated during reinsertion are not evaluated yet; being the least fit, they
+        // come last.
+        let num_evaluated = offsprings.partition_point(|ind| ind.fitness > f64::MIN);
+        if num_evaluated < offsprings.len() {
+            let start = time::Instant::now();
+            self.evaluation.evaluate(&mut offsprings[num_evaluated..]);
+            timings.evaluation += start.elapsed();
+
+            let start = time::Instant::now();
+            offsprings.sort_by(Individual::fitness_desc);
+            timings.sorting += start.elapsed();
+        }
     }
 
     fn evaluate_and_sort_by_fitness_desc(
-- 
2.43.0


From 82d80e1cb4347729f8206fdedd3e9642b2b6936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 19/25] fix: generate the same easing for the same seed in
 every process

---
 juno/src/easing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/easing.rs b/juno/src/easing.rs
index ea73c10..571ebd9 100644
--- a/juno/src/easing.rs
+++ b/juno/src/easing.rs
@@ -87,7 +87,12 @@ static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
     .collect()
 });
 
-static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| EASINGS.keys().copied().collect());
+static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| {
+    // The order of keys differs between maps; the choices must be stable for a seed to be reproducible.
+    let mut choices: Vec<_> = EASINGS.keys().copied().collect();
+    choices.sort_by_key(|easing| *easing as u8);
+    choices
+});
 
 pub trait EasingExt {
     fn gen_easing(&mut self) -> Easing;
-- 
2.43.0


From 5c5b503fdf25fc7d55ed682057e2a4871d7318b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:15 +0000
Subject: [PATCH 20/25] fix: construct a generated negative threshold of -1

The range it is drawn from includes -1.
---
 juno/src/strategies/double_ma_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/strategies/double_ma_2.rs b/juno/src/strategies/double_ma_2.rs
index a705660..e61e939 100644
--- a/juno/src/strategies/double_ma_2.rs
+++ b/juno/src/strategies/double_ma_2.rs
@@ -49,7 +49,7 @@ impl DoubleMA2 {
         let (short_ma, long_ma) = &params.mas;
         assert!(short_ma.period() < long_ma.period());
         assert!(params.pos_threshold > 0.0 && params.pos_threshold < 1.0);
-        assert!(params.neg_threshold < 0.0 && params.neg_threshold > -1.0);
+        assert!(params.neg_threshold < 0.0 && params.neg_threshold >= -1.0);
 
         Self {
             short_ma: short_ma.construct(),
-- 
2.43.0


From d9b22b92a6eee60857cc08ccc965def94d61ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:30 +0000
Subject: [PATCH 21/25] fix: Sharpe and Sortino ratios without any volatility
 or negative returns

---
 juno/src/statistics/extended.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 0964c04..172a810 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -160,6 +160,16 @@ fn get_asset_performances_from_holdings(
     asset_performances
 }
 
+// A ratio is not defined if there is nothing to measure the risk from. We will consider it to be 0.0
+// instead.
+fn finite_or_zero(ratio: f64) -> f64 {
+    if ratio.is_finite() {
+        ratio
+    } else {
+        0.0
+    }
+}
+
 fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
     let mut a_returns = Vec::with_capacity(performance.len() - 1);
     for i in 0..a_returns.capacity() {
@@ -177,7 +187,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         0.0
     } else {
         let annualized_volatility = SQRT_365 * std_deviation(&g_returns);
-        annualized_return / annualized_volatility
+        finite_or_zero(annualized_return / annualized_volatility)
     };
 
     // Sortino ratio.
@@ -195,7 +205,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         if annualized_downside_risk == 0.0 {
             0.0
         } else {
-            annualized_return / annualized_downside_risk
+            finite_or_zero(annualized_return / annualized_downside_risk)
         }
     };
 
@@ -295,7 +305,7 @@ pub fn get_sharpe_ratio(
             / length as f64;
         let std_dev = variance.sqrt();
         let annualized_volatility = SQRT_365 * std_dev;
-        annualized_return / annualized_volatility
+        finite_or_zero(annualized_return / annualized_volatility)
     };
 
     debug_assert!(sharpe_ratio.is_finite());
@@ -376,7 +386,7 @@ pub fn get_sortino_ratio(
         if annualized_downside_risk == 0.0 {
             0.0
         } else {
-            annualized_return / annualized_downside_risk
+            finite_or_zero(annualized_return / annualized_downside_risk)
         }
     };
 
-- 
2.43.0


From bda14b27c7a9665f38da2b61b8b09d4a506442cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:31 +0000
Subject: [PATCH 22/25] fix: annualized return of a backtest without any
 returns is zero

---
 juno/src/statistics/extended.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 172a810..9db8f5b 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -216,7 +216,12 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         // a_returns,
         // g_returns,
         // neg_g_returns,
-        annualized_return,
+        // Without any returns there is no mean either.
+        annualized_return: if annualized_return.is_nan() {
+            0.0
+        } else {
+            annualized_return
+        },
         sharpe_ratio,
         sortino_ratio,
     }
-- 
2.43.0


From 3fadbd8b7bf4c095e0ad3eaebcf5f69afaf230f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:41 +0000
Subject: [PATCH 23/25] fix: a long position is not opened for less than the
 smallest unit of quote

---
 juno/src/trading/traders.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/juno/src/trading/traders.rs b/juno/src/trading/traders.rs
index 238a7a7..accd4f3 100644
--- a/juno/src/trading/traders.rs
+++ b/juno/src/trading/traders.rs
@@ -244,6 +244,9 @@ fn try_open_long_position(
     }
 
     let quote = round_down(price * size, filters.quote_precision);
+    if quote == 0.0 {
+        return Err("quote 0");
+    }
     let fee = round_half_up(size * fees.taker, filters.base_precision);
 
     state.open_position = Some(OpenPosition::Long(OpenLongPosition {
-- 
2.43.0


From 69c12d640f7c344c11572762a2eebab89bc8961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:40 +0000
Subject: [PATCH 24/25] fix: linear interpolation goes from its first value to
 its second

---
 juno/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index 45c7873..559975c 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -97,7 +97,7 @@ pub fn annualized(duration: u64, value: f64) -> f64 {
 }
 
 pub fn lerp(a: f64, b: f64, t: f64) -> f64 {
-    t * a + (1.0 - t) * b
+    (1.0 - t) * a + t * b
 }
 
 #[cfg(test)]
-- 
2.43.0


From 07373aa12ddfa07aa9c72ec329e7d9ca48e4da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:40 +0000
Subject: [PATCH 25/25] fix: report the number of a generation among all
 generations

---
 juno_axum/src/routes/optimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 9d75a2c..24003bf 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -157,7 +157,8 @@ fn par_optimize(
     let gen_stats = evolution
         .generations
         .into_iter()
-        .filter(|gen| {
+        .enumerate()
+        .filter(|(_, gen)| {
             let mut pass = false;
             for (best_ind, best_fitness) in gen.hall_of_fame.iter().zip(best_fitnesses.iter_mut()) {
                 if best_fitness.is_nan() || best_ind.fitness > *best_fitness {
@@ -167,7 +168,6 @@ fn par_optimize(
             }
             pass
         })
-        .enumerate()
         .map(|(nr, gen)| {
             let hall_of_fame: Vec<_> = gen
                 .hall_of_fame
-- 
2.43.0

