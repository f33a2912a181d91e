From d10a94bbbd8b7ef6e885199a443623956535c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 01/36] fix: rounding up a month start to a month returns the
 same instant

---
 juno/src/primitives/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index c57e649..8b12e79 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -72,6 +72,9 @@ impl Timestamp {
             return Self(ceil_multiple_offset(self.0, interval.0, WEEK_OFFSET_MS));
         }
         if interval == Interval::MONTH_MS {
+            if self.floor(interval) == *self {
+                return *self;
+            }
             let dt = datetime_utcfromtimestamp_ms(self.0);
             let (mut year, mut month, _) = dt.to_calendar_date();
             if month == Month::December {
-- 
2.43.0


From e08e5524d4e8bb311ec73c3f2d2c91bd83371974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 02/36] fix: rounding to an offset multiple does not underflow
 below the offset

---
 juno/src/math.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ff83f03..6671e65 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -3,6 +3,9 @@ pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
+    if value < offset {
+        return offset - floor_multiple(offset - value, multiple);
+    }
     ceil_multiple(value - offset, multiple) + offset
 }
 
@@ -11,6 +14,9 @@ pub fn floor_multiple(value: u64, multiple: u64) -> u64 {
 }
 
 pub fn floor_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
+    if value < offset {
+        return offset - ceil_multiple(offset - value, multiple);
+    }
     floor_multiple(value - offset, multiple) + offset
 }
 
-- 
2.43.0


From f65f4dd5775764f0ffbb58873a962efb9cb6062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 03/36] fix: rounding supports precisions above 9

---
 juno/src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index 6671e65..d3a20ef 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -51,12 +51,12 @@ pub fn std_deviation(data: &[f64]) -> f64 {
 }
 
 pub fn round_down(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).floor() / factor
 }
 
 pub fn round_half_up(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).round() / factor
 }
 
-- 
2.43.0


From 1c35e8db5768356bf81a12a0c04bcdc69a79cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 04/36] fix: reject malformed interval text instead of
 panicking or ignoring it

---
 juno/src/primitives/interval.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/juno/src/primitives/interval.rs b/juno/src/primitives/interval.rs
index 733750a..db16835 100644
--- a/juno/src/primitives/interval.rs
+++ b/juno/src/primitives/interval.rs
@@ -35,13 +35,11 @@ static INTERVAL_FACTOR_MAP: Lazy<HashMap<&'static str, u64>> =
 
 static INTERVAL_GROUP_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\d+[a-zA-Z]+)").unwrap());
 
-fn calc_interval_group(group: &str) -> u64 {
-    for (i, c) in group.chars().enumerate() {
-        if c.is_alphabetic() {
-            return group[0..i].parse::<u64>().unwrap() * INTERVAL_FACTOR_MAP[&group[i..]];
-        }
-    }
-    panic!("Invalid interval group: {group}");
+fn calc_interval_group(group: &str) -> Option<u64> {
+    let unit_start = group.find(|c: char| c.is_ascii_alphabetic())?;
+    let (quantity, unit) = group.split_at(unit_start);
+    let factor = INTERVAL_FACTOR_MAP.get(unit)?;
+    quantity.parse::<u64>().ok()?.checked_mul(*factor)
 }
 
 #[derive(Debug, Default, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize)]
@@ -87,11 +85,22 @@ impl FromStr for Interval {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(
-            INTERVAL_GROUP_RE
-                .find_iter(s)
-                .fold(0, |acc, group| acc + calc_interval_group(group.as_str())),
-        ))
+        let mut groups_end = 0;
+        let mut total = 0u64;
+        for group in INTERVAL_GROUP_RE.find_iter(s) {
+            // Groups must be adjacent. There may not be any other text between them.
+            if group.start() != groups_end {
+                return Err(Self::Err {});
+            }
+            groups_end = group.end();
+            total = calc_interval_group(group.as_str())
+                .and_then(|value| total.checked_add(value))
+                .ok_or(Self::Err {})?;
+        }
+        if s.is_empty() || groups_end != s.len() {
+            return Err(Self::Err {});
+        }
+        Ok(Self(total))
     }
 }
 
-- 
2.43.0


From f49c5d365f2419a9cd9be8809f71a0b98d056573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 05/36] fix: reject pre-epoch timestamp text instead of
 wrapping around

---
 juno/src/primitives/timestamp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index 8b12e79..8395204 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -108,19 +108,21 @@ impl FromStr for Timestamp {
         Err(())
             .or_else(|_| {
                 OffsetDateTime::parse(s, &Rfc3339)
-                    .map(|x| (x.unix_timestamp_nanos() / 1_000_000) as u64)
+                    .map(|x| x.unix_timestamp_nanos().div_euclid(1_000_000))
             })
             .or_else(|_| {
                 Date::parse(s, &DATE_FORMAT).map(|x| {
-                    (x.with_hms(0, 0, 0)
+                    x.with_hms(0, 0, 0)
                         .unwrap()
                         .assume_offset(UtcOffset::UTC)
                         .unix_timestamp_nanos()
-                        / 1_000_000) as u64
+                        / 1_000_000
                 })
             })
-            .map(Self)
             .map_err(|_| Self::Err {})
+            // Instants before the epoch are not representable.
+            .and_then(|ms| u64::try_from(ms).map_err(|_| Self::Err {}))
+            .map(Self)
     }
 }
 
-- 
2.43.0


From 6f54734ac32b1321bad790a80aad1c8e1edc58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 06/36] fix: pages cover the range also when it is not a
 multiple of the interval

---
 juno/src/utils/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 3e2e436..94b19de 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -8,7 +8,7 @@ pub use changed::*;
 pub use mid_trend::*;
 pub use persistence::*;
 
-use crate::Advice;
+use crate::{math::ceil_multiple, Advice};
 
 pub fn combine(advice1: Advice, advice2: Advice) -> Advice {
     if advice1 == Advice::None || advice2 == Advice::None {
@@ -74,9 +74,8 @@ pub fn generate_missing_spans(
 }
 
 pub fn page(start: u64, end: u64, interval: u64, limit: u64) -> impl Iterator<Item = (u64, u64)> {
-    let total_size = (end - start) / interval;
     let max_count = limit * interval;
-    let page_size = (total_size as f64 / limit as f64).ceil() as u64;
+    let page_size = ceil_multiple(end - start, max_count) / max_count;
     (0..page_size).map(move |i| {
         let page_start = start + i * max_count;
         let page_end = u64::min(page_start + max_count, end);
-- 
2.43.0


From 6fe3d6725eeef65131593fafdc9429702386ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 07/36] fix: missing spans never reach outside the requested
 range

---
 juno/src/utils/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 94b19de..4cd0345 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -60,6 +60,13 @@ pub fn generate_missing_spans(
 
     // Spans are ordered by start_date. Spans do not overlap with each other.
     for &(existing_start, existing_end) in existing_spans {
+        // Ignore spans outside of the requested range.
+        if existing_end <= missing_start {
+            continue;
+        }
+        if existing_start >= missing_end {
+            break;
+        }
         if existing_start > missing_start {
             result.push((missing_start, existing_start));
         }
-- 
2.43.0


From cda757fabac623bda715a29ee0d2849f79d9e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 08/36] fix: size filter treats a zero maximum or step as
 unconstrained

---
 juno/src/filters.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/juno/src/filters.rs b/juno/src/filters.rs
index 2ba584e..bc7f119 100644
--- a/juno/src/filters.rs
+++ b/juno/src/filters.rs
@@ -57,12 +57,23 @@ impl Size {
         if size < self.min {
             return 0.0;
         }
-        size = f64::min(size, self.max);
-        (size / self.step).ceil() * self.step
+        if self.max > 0.0 {
+            size = f64::min(size, self.max);
+        }
+        if self.step > 0.0 {
+            size = (size / self.step).ceil() * self.step;
+            if self.max > 0.0 && size > self.max {
+                size = (self.max / self.step).floor() * self.step;
+            }
+        }
+
+        size
     }
 
     pub fn valid(&self, size: f64) -> bool {
-        size >= self.min && size <= self.max && (size - self.min) % self.step == 0.0
+        (self.min == 0.0 || size >= self.min)
+            && (self.max == 0.0 || size <= self.max)
+            && (self.step == 0.0 || (size - self.min) % self.step == 0.0)
     }
 }
 
-- 
2.43.0


From 280bce55adc97796fe7705df17f6b38962b4f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 09/36] fix: buffered candles stay aligned to their interval
 after a gap

---
 juno/src/utils/buffered_candle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index b50ef9a..7e9723f 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -51,7 +51,7 @@ impl BufferedCandle {
                 None
             }
             Some(ref mut buffer_candle) => {
-                if candle.time >= buffer_candle.time + self.buffer_interval {
+                if candle.time.floor(self.buffer_interval) > buffer_candle.time {
                     Some(*buffer_candle)
                 } else {
                     *buffer_candle += candle;
@@ -60,13 +60,17 @@ impl BufferedCandle {
             }
         };
 
-        let is_last = (candle.time + self.interval) % self.buffer_interval == 0;
+        let end = candle.time + self.interval;
+        let is_last = end.floor(self.buffer_interval) == end;
 
         if let Some(ret) = ret {
             if is_last {
                 panic!("too many missing candles");
             }
-            self.buffer_candle = Some(*candle);
+            self.buffer_candle = Some(Candle {
+                time: candle.time.floor(self.buffer_interval),
+                ..*candle
+            });
             Some(Cow::Owned(ret))
         } else if is_last {
             Some(Cow::Owned(self.buffer_candle.take().unwrap()))
-- 
2.43.0


From 502859ae9071fb242164110473dd43f3e046d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 10/36] fix: stochastic oscillator of a flat window is not NaN

---
 juno/src/indicators/stoch.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 874f630..e91e7fa 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -58,7 +58,12 @@ impl Stoch {
         if self.t >= self.t1 {
             let max_high = self.k_high_window.iter().cloned().fold(f64::MIN, f64::max);
             let min_low = self.k_low_window.iter().cloned().fold(f64::MAX, f64::min);
-            let fast_k = 100.0 * (close - min_low) / (max_high - min_low);
+            let range = max_high - min_low;
+            let fast_k = if range == 0.0 {
+                0.0
+            } else {
+                100.0 * (close - min_low) / range
+            };
 
             self.k_sma.update(fast_k);
 
-- 
2.43.0


From dadc295a0ad46954b8fd5bd185157b4bc7113a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 11/36] fix: DX without any directional movement is not NaN

---
 juno/src/indicators/dx.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/indicators/dx.rs b/juno/src/indicators/dx.rs
index 90d2080..918c328 100644
--- a/juno/src/indicators/dx.rs
+++ b/juno/src/indicators/dx.rs
@@ -32,7 +32,12 @@ impl DX {
         self.dm.update(high, low);
 
         if self.t >= self.t1 {
-            self.value = self.dm.diff() / self.dm.sum() * 100.0;
+            let sum = self.dm.sum();
+            self.value = if sum == 0.0 {
+                0.0
+            } else {
+                self.dm.diff() / sum * 100.0
+            };
         }
     }
 }
-- 
2.43.0


From 9564280d342cfc1bc700db2118b9d0e603cb640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 12/36] fix: DI without any true range is not NaN

---
 juno/src/indicators/di.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/juno/src/indicators/di.rs b/juno/src/indicators/di.rs
index 070e06e..562011f 100644
--- a/juno/src/indicators/di.rs
+++ b/juno/src/indicators/di.rs
@@ -48,16 +48,24 @@ impl DI {
         }
 
         if self.t == self.t2 {
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.set_values();
         } else if self.t >= self.t3 {
             self.atr = self.atr * self.per + calc_truerange(self.prev_close, high, low);
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.set_values();
         }
 
         self.prev_close = close;
     }
+
+    fn set_values(&mut self) {
+        if self.atr == 0.0 {
+            self.plus_value = 0.0;
+            self.minus_value = 0.0;
+        } else {
+            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
+            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+        }
+    }
 }
 
 fn calc_truerange(prev_close: f64, high: f64, low: f64) -> f64 {
-- 
2.43.0


From 6ac2421c01d7e8b2cc1fa5f84da610a384a79be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 13/36] fix: ADX averages also the periods where DX is zero

---
 juno/src/indicators/adx.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index 8747c9f..e79213b 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -30,11 +30,9 @@ impl Adx {
 
     pub fn update(&mut self, high: f64, low: f64) {
         self.dx.update(high, low);
-        self.value = if self.dx.value == 0.0 {
-            0.0
-        } else {
+        if self.dx.mature() {
             self.smma.update(self.dx.value);
-            self.smma.value
+            self.value = self.smma.value;
         }
     }
 }
-- 
2.43.0


From 31aba7eb46383e86322d31079d3d203d873a8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 14/36] fix: ADX reports the maturity it actually matures at

---
 juno/src/indicators/adx.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index e79213b..b7780dc 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -3,7 +3,6 @@ use super::{
     smma::{Smma, SmmaParams},
     MA,
 };
-use std::cmp::max;
 
 pub struct Adx {
     pub value: f64,
@@ -21,7 +20,7 @@ impl Adx {
     }
 
     pub fn maturity(&self) -> u32 {
-        max(self.dx.maturity(), self.smma.maturity())
+        self.dx.maturity() + self.smma.maturity() - 1
     }
 
     pub fn mature(&self) -> bool {
-- 
2.43.0


From e52f0c251a208ef3112c5cb321f901526efbd45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 15/36] fix: EMA2 has its first value by the time it is mature

---
 juno/src/indicators/ema2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index d834e41..1fa6a1c 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -47,6 +47,8 @@ impl MA for Ema2 {
     }
 
     fn update(&mut self, price: f64) {
+        self.t = min(self.t + 1, self.t2);
+
         if self.t <= self.t1 {
             self.sma.update(price);
         }
@@ -56,8 +58,6 @@ impl MA for Ema2 {
         } else if self.t >= self.t2 {
             self.value = (price - self.value) * self.a + self.value;
         }
-
-        self.t = min(self.t + 1, self.t2)
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From 03632af704d121dc62b8ebe9144f48f45f6dac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 16/36] fix: EMA of period 1 respects custom smoothing

---
 juno/src/indicators/ema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/indicators/ema.rs b/juno/src/indicators/ema.rs
index 515f418..e121685 100644
--- a/juno/src/indicators/ema.rs
+++ b/juno/src/indicators/ema.rs
@@ -45,7 +45,7 @@ impl MA for Ema {
     }
 
     fn update(&mut self, price: f64) {
-        self.t = min(self.t + 1, self.t1);
+        self.t = min(self.t + 1, self.t1 + 1);
         self.value = match self.t {
             1 => price,
             _ => (price - self.value) * self.a + self.value,
-- 
2.43.0


From 7e30be34ae0f1858c0ed49b6837949a3b3db0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 17/36] fix: four week rule waits for its moving average to
 mature

---
 juno/src/strategies/four_week_rule.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index ba83253..bae4a06 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -10,7 +10,7 @@ use indicators::EmaParams;
 use juno_derive::*;
 use rand::prelude::*;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct FourWeekRuleParams {
@@ -51,12 +51,13 @@ pub struct FourWeekRule {
 
 impl FourWeekRule {
     pub fn new(params: &FourWeekRuleParams, _meta: &StrategyMeta) -> Self {
+        let ma = params.ma.construct();
         Self {
             prices: BoundedVecDeque::new(params.period as usize),
-            ma: params.ma.construct(),
             advice: Advice::None,
             t: 0,
-            t1: params.period + 1,
+            t1: max(params.period + 1, ma.maturity()),
+            ma,
         }
     }
 }
-- 
2.43.0


From 60dd38d74fe793945e76ec7a425eeaaf9df9b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 18/36] fix: double MA 2 accepts every negative threshold it
 may generate

---
 juno/src/strategies/double_ma_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/strategies/double_ma_2.rs b/juno/src/strategies/double_ma_2.rs
index a705660..e61e939 100644
--- a/juno/src/strategies/double_ma_2.rs
+++ b/juno/src/strategies/double_ma_2.rs
@@ -49,7 +49,7 @@ impl DoubleMA2 {
         let (short_ma, long_ma) = &params.mas;
         assert!(short_ma.period() < long_ma.period());
         assert!(params.pos_threshold > 0.0 && params.pos_threshold < 1.0);
-        assert!(params.neg_threshold < 0.0 && params.neg_threshold > -1.0);
+        assert!(params.neg_threshold < 0.0 && params.neg_threshold >= -1.0);
 
         Self {
             short_ma: short_ma.construct(),
-- 
2.43.0


From b956514d660b308c807c571b37c149633f7f12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 19/36] fix: Sharpe and Sortino ratios stay finite without
 volatility or losses

---
 juno/src/statistics/extended.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 0964c04..c366cce 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -177,7 +177,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         0.0
     } else {
         let annualized_volatility = SQRT_365 * std_deviation(&g_returns);
-        annualized_return / annualized_volatility
+        finite_or_zero(annualized_return / annualized_volatility)
     };
 
     // Sortino ratio.
@@ -192,11 +192,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         let annualized_downside_risk = SQRT_365 * std_deviation(&neg_g_returns);
         // If there are no neg returns, sortino ratio becomes infinite. We will consider it to be
         // 0.0 instead because that is usually a bad run anyway.
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        finite_or_zero(annualized_return / annualized_downside_risk)
     };
 
     assert!(sharpe_ratio.is_finite());
@@ -212,6 +208,16 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
     }
 }
 
+// A ratio is undefined if there is no risk to divide by or if the portfolio has been wiped out. We
+// will consider it to be 0.0 instead.
+fn finite_or_zero(ratio: f64) -> f64 {
+    if ratio.is_finite() {
+        ratio
+    } else {
+        0.0
+    }
+}
+
 // fn calculate_alpha_beta(benchmark_g_returns: &[f64], portfolio_stats: &Statistics) -> (f64, f64) {
 //     assert!(benchmark_g_returns.len() == portfolio_stats.g_returns.len());
 
@@ -295,7 +301,7 @@ pub fn get_sharpe_ratio(
             / length as f64;
         let std_dev = variance.sqrt();
         let annualized_volatility = SQRT_365 * std_dev;
-        annualized_return / annualized_volatility
+        finite_or_zero(annualized_return / annualized_volatility)
     };
 
     debug_assert!(sharpe_ratio.is_finite());
@@ -373,11 +379,7 @@ pub fn get_sortino_ratio(
             / len_neg_g_returns as f64;
         let std_dev = variance.sqrt();
         let annualized_downside_risk = SQRT_365 * std_dev;
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        finite_or_zero(annualized_return / annualized_downside_risk)
     };
 
     debug_assert!(sortino_ratio.is_finite());
-- 
2.43.0


From 0cfc070bb3d25f4f2e0bea6052796e884603702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 20/36] fix: open short positions are marked to market as
 shorts

---
 juno/src/statistics/extended.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index c366cce..4e77fed 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -2,7 +2,7 @@ use super::SQRT_365;
 use crate::{
     math::{mean, std_deviation},
     trading::{Position, TradingSummary},
-    Interval, SymbolExt, Timestamp,
+    Fill, Interval, SymbolExt, Timestamp,
 };
 // use ndarray::prelude::*;
 // use ndarray_stats::CorrelationExt;
@@ -67,13 +67,14 @@ fn map_period_deltas_from_summary(
                 pos.base_cost(),
                 pos.gain(),
             ),
+            // Borrowed base is sold on open and bought back on close.
             Position::Short(pos) => (
                 pos.open_time,
-                pos.cost(),
-                pos.base_gain(),
+                Fill::total_fee(&pos.open_fills) - Fill::total_quote(&pos.open_fills),
+                -pos.base_gain(),
                 pos.close_time,
-                pos.base_cost(),
-                pos.gain(),
+                -pos.base_cost(),
+                -Fill::total_quote(&pos.close_fills),
             ),
         };
         // Open.
-- 
2.43.0


From a7c082326229b3a1d3b92ebbe458d2f5d4906f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 21/36] fix: tournament selection accepts valid tournament size
 rates

---
 juno/src/genetics/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 625b786..9ee29a5 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -51,7 +51,7 @@ pub struct TournamentSelection {
 
 impl TournamentSelection {
     pub fn new(tournament_size_rate: f32, allow_winner_compete_next_tournament: bool) -> Self {
-        assert!(0.0 > tournament_size_rate && tournament_size_rate < 1.0);
+        assert!(0.0 < tournament_size_rate && tournament_size_rate < 1.0);
         // TODO: Implement.
         assert!(allow_winner_compete_next_tournament);
         Self {
-- 
2.43.0


From e3e039bf5797d7a52fd7b804c47ab9bcbc8d9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 22/36] fix: tournament is won by the fittest individual

---
 juno/src/genetics/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 9ee29a5..d90511e 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -87,7 +87,7 @@ impl Selection for TournamentSelection {
         for _ in 0..count {
             let tournament = parents.choose_multiple(rng, tournament_size);
             let winner = tournament
-                .max_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
+                .min_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
                 .unwrap();
             offsprings.push(winner.clone());
         }
-- 
2.43.0


From 8faf060f11d68396f0b767bcf21a000a89b78755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 23/36] fix: tournament selection works with small populations

---
 juno/src/genetics/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index d90511e..20fbf7c 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -81,7 +81,7 @@ impl Selection for TournamentSelection {
     ) {
         debug_assert!(self.allow_winner_compete_next_tournament || rate <= 1.0);
 
-        let tournament_size = (parents.len() as f32 * self.tournament_size_rate) as usize;
+        let tournament_size = ((parents.len() as f32 * self.tournament_size_rate) as usize).max(1);
 
         let count = (parents.len() as f32 * rate) as usize;
         for _ in 0..count {
-- 
2.43.0


From 10f20918f32f0a6d7898e1f39f1a84c3b9e30bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 24/36] fix: evolving a single offspring does not panic

---
 juno/src/genetics/algorithm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5898ad2..f4259cf 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -136,6 +136,12 @@ where
             // TODO: Ugly.
             // If is last, we wrap around and take the first offspring to pair.
             let is_last = i == offsprings.len() - 1;
+            if is_last && i == 0 {
+                // There is nothing to pair a single offspring with.
+                self.mutation
+                    .mutate(rng, &mut offsprings[0].chromosome, ctx);
+                break;
+            }
             let (chromosome1, chromosome2) = if is_last {
                 let (a, b) = offsprings.split_at_mut(i);
                 (&mut b[0].chromosome, &mut a[0].chromosome)
-- 
2.43.0


From ad1de76c7f85c21af8c859692206fec8a87e7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 25/36] fix: individuals generated on reinsertion are evaluated

---
 juno/src/genetics/algorithm.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index f4259cf..561f6d0 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -169,7 +169,18 @@ where
         self.evaluate_and_sort_by_fitness_desc(offsprings, timings);
         // reinsert
         self.reinsertion
-            .reinsert(rng, parents, offsprings, population_size, ctx)
+            .reinsert(rng, parents, offsprings, population_size, ctx);
+        // Reinsertion may have generated new individuals. They are yet to be evaluated and come last
+        // because individuals are ordered by fitness desc.
+        let num_evaluated = offsprings.partition_point(|ind| ind.fitness > f64::MIN);
+        if num_evaluated < offsprings.len() {
+            let start = time::Instant::now();
+            self.evaluation.evaluate(&mut offsprings[num_evaluated..]);
+            timings.evaluation += start.elapsed();
+            let start = time::Instant::now();
+            offsprings.sort_by(Individual::fitness_desc);
+            timings.sorting += start.elapsed();
+        }
     }
 
     fn evaluate_and_sort_by_fitness_desc(
-- 
2.43.0


From ad0071a5d2a6e12b7d24050ed7f30228eaa8fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 26/36] fix: same seed generates the same easings in every
 process

---
 juno/src/easing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/easing.rs b/juno/src/easing.rs
index ea73c10..324a19b 100644
--- a/juno/src/easing.rs
+++ b/juno/src/easing.rs
@@ -87,7 +87,12 @@ static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
     .collect()
 });
 
-static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| EASINGS.keys().copied().collect());
+static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| {
+    // Map iteration order is random. Choices need to be in the same order for every run.
+    let mut choices: Vec<Easing> = EASINGS.keys().copied().collect();
+    choices.sort_unstable_by_key(|&easing| easing as usize);
+    choices
+});
 
 pub trait EasingExt {
     fn gen_easing(&mut self) -> Easing;
-- 
2.43.0


From e6b18f08d5ede11b241b44a9f5c665d847d100bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 27/36] fix: optimize reports the actual generation numbers

---
 juno_axum/src/routes/optimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 9d75a2c..24003bf 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -157,7 +157,8 @@ fn par_optimize(
     let gen_stats = evolution
         .generations
         .into_iter()
-        .filter(|gen| {
+        .enumerate()
+        .filter(|(_, gen)| {
             let mut pass = false;
             for (best_ind, best_fitness) in gen.hall_of_fame.iter().zip(best_fitnesses.iter_mut()) {
                 if best_fitness.is_nan() || best_ind.fitness > *best_fitness {
@@ -167,7 +168,6 @@ fn par_optimize(
             }
             pass
         })
-        .enumerate()
         .map(|(nr, gen)| {
             let hall_of_fame: Vec<_> = gen
                 .hall_of_fame
-- 
2.43.0


From 5bf133e21f22ff2097f25512f376eaeeb2cd8787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 28/36] fix: the mid-trend filter matures with its first update
 unless it ignores the current trend

With the previous policy, the filter passes advice from its first update on,
but announced that it needs two. Filtered strategies gave advice before they
reported to be mature.
---
 juno/src/utils/mid_trend.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/mid_trend.rs b/juno/src/utils/mid_trend.rs
index 0661db2..5a119f0 100644
--- a/juno/src/utils/mid_trend.rs
+++ b/juno/src/utils/mid_trend.rs
@@ -32,10 +32,10 @@ impl MidTrend {
     }
 
     pub fn maturity(&self) -> u32 {
-        if self.policy == MidTrendPolicy::Current {
-            1
-        } else {
+        if self.policy == MidTrendPolicy::Ignore {
             2
+        } else {
+            1
         }
     }
 
-- 
2.43.0


From 8b3fd8c603a152598f9ed6d9420dd21a0760ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 29/36] fix: evolve runs no generation when none is requested

---
 juno/src/genetics/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 561f6d0..33655ea 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -67,7 +67,9 @@ where
 
         let mut rng = StdRng::seed_from_u64(seed);
 
-        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(generations);
+        let num_generations = generations;
+        let mut generations: Vec<Generation<TE::Chromosome>> =
+            Vec::with_capacity(num_generations + 1);
 
         let mut timings = Timings::default();
 
@@ -84,7 +86,7 @@ where
 
         let mut offsprings = Vec::with_capacity(population_size);
 
-        for gen in 1..=generations.capacity() {
+        for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
             self.run_generation(
-- 
2.43.0


From f150f076e02c9c7ac1d721c8fe07ccbe8c677f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:10 +0000
Subject: [PATCH 30/36] fix: incomplete market data is answered with an error
 instead of a dropped connection

---
 juno_axum/src/routes/backtest.rs | 12 ++++++++----
 juno_axum/src/routes/optimize.rs | 12 +++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/juno_axum/src/routes/backtest.rs b/juno_axum/src/routes/backtest.rs
index 3bac6dc..c02f00e 100644
--- a/juno_axum/src/routes/backtest.rs
+++ b/juno_axum/src/routes/backtest.rs
@@ -1,9 +1,11 @@
+use anyhow::anyhow;
 use axum::{
     extract::State,
     http::StatusCode,
     response::{IntoResponse, Json},
     routing, Router,
 };
+use futures::FutureExt;
 use itertools::Itertools;
 use juno::{
     statistics::Statistics,
@@ -12,7 +14,7 @@ use juno::{
 };
 use rayon::prelude::*;
 use serde::{Deserialize, Serialize};
-use std::{collections::HashMap, sync::Arc};
+use std::{collections::HashMap, panic::AssertUnwindSafe, sync::Arc};
 use tracing::info;
 
 use crate::error::Error;
@@ -56,7 +58,7 @@ async fn post(
 
     // Backtest in parallel.
     info!("backtesting");
-    let backtest_result = tokio_rayon::spawn(move || {
+    let backtest_result = AssertUnwindSafe(tokio_rayon::spawn(move || {
         par_backtest(
             exchange_info,
             candles,
@@ -65,8 +67,10 @@ async fn post(
             args.trading,
             args.quote,
         )
-    })
-    .await;
+    }))
+    .catch_unwind()
+    .await
+    .map_err(|_| anyhow!("backtest failed, market data may be incomplete"))?;
 
     Ok((StatusCode::OK, Json(backtest_result)))
 }
diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 24003bf..35f2037 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -1,4 +1,6 @@
+use anyhow::anyhow;
 use axum::{extract::State, http::StatusCode, response::IntoResponse, routing, Json, Router};
+use futures::FutureExt;
 use itertools::Itertools;
 use juno::{
     clients::juno_core,
@@ -13,7 +15,7 @@ use juno::{
     Candle, ExchangeInfo, Interval, SymbolExt, Timestamp,
 };
 use serde::{Deserialize, Serialize};
-use std::{collections::HashMap, sync::Arc};
+use std::{collections::HashMap, panic::AssertUnwindSafe, sync::Arc};
 use tracing::info;
 
 use crate::error::Error;
@@ -103,8 +105,12 @@ async fn post(
 
     // Optimize in parallel.
     info!("optimizing");
-    let optimize_result =
-        tokio_rayon::spawn(move || par_optimize(&args, &exchange_info, &candles, &prices)).await;
+    let optimize_result = AssertUnwindSafe(tokio_rayon::spawn(move || {
+        par_optimize(&args, &exchange_info, &candles, &prices)
+    }))
+    .catch_unwind()
+    .await
+    .map_err(|_| anyhow!("optimization failed, market data may be incomplete"))?;
 
     Ok((StatusCode::OK, Json(optimize_result)))
 }
-- 
2.43.0


From 6b3bc8031ca8e543cc9857d0413ec58aa5f3ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:57 +0000
Subject: [PATCH 31/36] fix: refuse symbols without a dash instead of dropping
 the connection

---
 juno_axum/src/exchange.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/juno_axum/src/exchange.rs b/juno_axum/src/exchange.rs
index 8c000e8..333e628 100644
--- a/juno_axum/src/exchange.rs
+++ b/juno_axum/src/exchange.rs
@@ -1,5 +1,6 @@
 use std::{collections::HashMap, hash::Hash};
 
+use anyhow::bail;
 use futures::future::{try_join3, try_join_all};
 use itertools::Itertools;
 use juno::{clients::juno_core, symbol, Candle, CandleType, ExchangeInfo, Interval, Timestamp};
@@ -16,6 +17,10 @@ pub async fn gather_exchange_info_candles_prices(
     HashMap<String, HashMap<Interval, Vec<Candle>>>,
     HashMap<String, Vec<f64>>,
 )> {
+    if let Some(symbol) = symbols.iter().find(|symbol| !symbol.contains('-')) {
+        bail!("not a valid symbol: {symbol:?}");
+    }
+
     let exchange_info_task = client.get_exchange_info(juno_core::GetExchangeInfo { exchange });
 
     let candle_tasks = try_join_all(symbols.iter().flat_map(|symbol| {
-- 
2.43.0


From e0c15af68e43d2d2e733e94efd46404e57806908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:00 +0000
Subject: [PATCH 32/36] fix: do not let an optimization's hall of fame size
 take the service down

---
 juno_axum/src/routes/optimize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 35f2037..9dff97c 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -159,7 +159,7 @@ fn par_optimize(
 
     // Evaluate hall of fame.
     let stats_interval = Interval::DAY_MS;
-    let mut best_fitnesses = vec![f64::NAN; args.hall_of_fame_size];
+    let mut best_fitnesses = vec![f64::NAN; hall_of_fame_size.min(pop_size)];
     let gen_stats = evolution
         .generations
         .into_iter()
-- 
2.43.0


From 899b421c19512afbe5dff0a479180b7ad84584bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:39 +0000
Subject: [PATCH 33/36] fix: refuse periods of zero in four week rule,
 stochastic and directional movement

---
 juno/src/indicators/dm.rs             | 1 +
 juno/src/indicators/stoch.rs          | 2 ++
 juno/src/strategies/four_week_rule.rs | 1 +
 3 files changed, 4 insertions(+)

diff --git a/juno/src/indicators/dm.rs b/juno/src/indicators/dm.rs
index 1754d85..b6b9592 100644
--- a/juno/src/indicators/dm.rs
+++ b/juno/src/indicators/dm.rs
@@ -16,6 +16,7 @@ pub struct DM {
 
 impl DM {
     pub fn new(period: u32) -> Self {
+        assert!(period > 0);
         Self {
             plus_value: 0.0,
             minus_value: 0.0,
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index e91e7fa..3630216 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -20,6 +20,8 @@ pub struct Stoch {
 
 impl Stoch {
     pub fn new(k_period: u32, k_sma_period: u32, d_sma_period: u32) -> Self {
+        // The other periods are validated within Sma.
+        assert!(k_period > 0);
         let t1 = k_period;
         let t2 = t1 + k_sma_period - 1;
         let t3 = t2 + d_sma_period - 1;
diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index bae4a06..98d06bc 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -51,6 +51,7 @@ pub struct FourWeekRule {
 
 impl FourWeekRule {
     pub fn new(params: &FourWeekRuleParams, _meta: &StrategyMeta) -> Self {
+        assert!(params.period > 0);
         let ma = params.ma.construct();
         Self {
             prices: BoundedVecDeque::new(params.period as usize),
-- 
2.43.0


From 69b7bf0eab73b4820a2ce54d685bd50b100772af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:06 +0000
Subject: [PATCH 34/36] fix: do not allocate for whole periods before there are
 prices

---
 juno/src/indicators/alma.rs           | 30 +++++++++++++++++++--------
 juno/src/indicators/kama.rs           |  4 ++--
 juno/src/indicators/sma.rs            | 16 +++++++++-----
 juno/src/indicators/stoch.rs          |  4 ++--
 juno/src/strategies/four_week_rule.rs |  2 +-
 5 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/juno/src/indicators/alma.rs b/juno/src/indicators/alma.rs
index b545bc3..d6c281f 100644
--- a/juno/src/indicators/alma.rs
+++ b/juno/src/indicators/alma.rs
@@ -13,7 +13,9 @@ pub struct AlmaParams {
 pub struct Alma {
     pub value: f64,
 
-    weights: Vec<f64>,
+    offset: f64,
+    sigma: u32,
+    weights: Vec<f64>, // Calculated when mature.
     prices: BoundedVecDeque<f64>,
 
     t: u32,
@@ -33,22 +35,29 @@ impl Alma {
             None => (params.period as f64 / 1.5).floor() as u32,
         };
 
-        let m = (params.offset * (params.period - 1) as f64).floor();
-        let s = params.period as f64 * 1.0 / sigma as f64;
-        let tmp = (0..params.period)
-            .map(|i| (-(i as f64 - m) * (i as f64 - m) / (2.0 * s * s)).exp())
-            .collect::<Vec<f64>>();
-        let sw: f64 = tmp.iter().sum();
         Self {
             value: 0.0,
 
-            weights: tmp.iter().map(|v| v / sw).collect::<Vec<f64>>(),
-            prices: BoundedVecDeque::new(params.period as usize),
+            offset: params.offset,
+            sigma,
+            weights: Vec::new(),
+            prices: BoundedVecDeque::with_capacity(0, params.period as usize),
 
             t: 0,
             t1: params.period,
         }
     }
+
+    fn calc_weights(&self) -> Vec<f64> {
+        let period = self.t1;
+        let m = (self.offset * (period - 1) as f64).floor();
+        let s = period as f64 * 1.0 / self.sigma as f64;
+        let tmp = (0..period)
+            .map(|i| (-(i as f64 - m) * (i as f64 - m) / (2.0 * s * s)).exp())
+            .collect::<Vec<f64>>();
+        let sw: f64 = tmp.iter().sum();
+        tmp.iter().map(|v| v / sw).collect::<Vec<f64>>()
+    }
 }
 
 impl MA for Alma {
@@ -66,6 +75,9 @@ impl MA for Alma {
         self.prices.push_back(price);
 
         if self.mature() {
+            if self.weights.is_empty() {
+                self.weights = self.calc_weights();
+            }
             self.value = self
                 .prices
                 .iter()
diff --git a/juno/src/indicators/kama.rs b/juno/src/indicators/kama.rs
index 6939a60..f10879f 100644
--- a/juno/src/indicators/kama.rs
+++ b/juno/src/indicators/kama.rs
@@ -31,8 +31,8 @@ impl Kama {
             short_alpha: 2.0 / (2.0 + 1.0),
             long_alpha: 2.0 / (30.0 + 1.0),
 
-            prices: BoundedVecDeque::new(params.period as usize),
-            diffs: BoundedVecDeque::new(params.period as usize),
+            prices: BoundedVecDeque::with_capacity(0, params.period as usize),
+            diffs: BoundedVecDeque::with_capacity(0, params.period as usize),
 
             t: 0,
             t1: params.period,
diff --git a/juno/src/indicators/sma.rs b/juno/src/indicators/sma.rs
index 018db7c..a4c32b2 100644
--- a/juno/src/indicators/sma.rs
+++ b/juno/src/indicators/sma.rs
@@ -21,7 +21,8 @@ impl Sma {
         assert!(params.period > 0);
         Self {
             value: 0.0,
-            prices: vec![0.0; params.period as usize],
+            // Grows up to the period. A period may be too long to be allocated for up front.
+            prices: Vec::new(),
             i: 0,
             sum: 0.0,
             t: 0,
@@ -42,11 +43,16 @@ impl MA for Sma {
     fn update(&mut self, price: f64) {
         self.t = min(self.t + 1, self.t1);
 
-        let last = self.prices[self.i];
-        self.prices[self.i] = price;
-        self.i = (self.i + 1) % self.prices.len();
+        let period = self.t1 as usize;
+        let last = if self.prices.len() < period {
+            self.prices.push(price);
+            0.0
+        } else {
+            std::mem::replace(&mut self.prices[self.i], price)
+        };
+        self.i = (self.i + 1) % period;
         self.sum = self.sum - last + price;
-        self.value = self.sum / self.prices.len() as f64;
+        self.value = self.sum / period as f64;
     }
 
     fn value(&self) -> f64 {
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 3630216..b08d5f1 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -28,8 +28,8 @@ impl Stoch {
         Self {
             k: 0.0,
             d: 0.0,
-            k_high_window: BoundedVecDeque::new(k_period as usize),
-            k_low_window: BoundedVecDeque::new(k_period as usize),
+            k_high_window: BoundedVecDeque::with_capacity(0, k_period as usize),
+            k_low_window: BoundedVecDeque::with_capacity(0, k_period as usize),
             k_sma: Sma::new(&SmaParams {
                 period: k_sma_period,
             }),
diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index 98d06bc..caf04f2 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -54,7 +54,7 @@ impl FourWeekRule {
         assert!(params.period > 0);
         let ma = params.ma.construct();
         Self {
-            prices: BoundedVecDeque::new(params.period as usize),
+            prices: BoundedVecDeque::with_capacity(0, params.period as usize),
             advice: Advice::None,
             t: 0,
             t1: max(params.period + 1, ma.maturity()),
-- 
2.43.0


From 97f3d7e0eb2d6ddfaf863ace211142d3a7a2befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:29 +0000
Subject: [PATCH 35/36] fix: refuse populations that do not fit into memory
 instead of aborting

---
 juno/src/genetics/algorithm.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 33655ea..be8e52e 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -68,14 +68,19 @@ where
         let mut rng = StdRng::seed_from_u64(seed);
 
         let num_generations = generations;
-        let mut generations: Vec<Generation<TE::Chromosome>> =
-            Vec::with_capacity(num_generations + 1);
+        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::new();
 
         let mut timings = Timings::default();
 
-        let mut parents = (0..population_size)
-            .map(|_| Individual::generate(&mut rng, ctx))
-            .collect::<Vec<_>>();
+        // Failing to allocate would otherwise abort the whole process.
+        let mut parents = Vec::new();
+        let mut offsprings = Vec::new();
+        parents
+            .try_reserve(population_size)
+            .and_then(|_| offsprings.try_reserve(population_size))
+            .expect("population does not fit into memory");
+
+        parents.extend((0..population_size).map(|_| Individual::generate(&mut rng, ctx)));
         self.evaluate_and_sort_by_fitness_desc(&mut parents, &mut timings);
         let generation = Generation {
             hall_of_fame: parents.iter().take(hall_of_fame_size).cloned().collect(),
@@ -84,8 +89,6 @@ where
         on_generation(0, &generation);
         generations.push(generation);
 
-        let mut offsprings = Vec::with_capacity(population_size);
-
         for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
-- 
2.43.0


From 0913ca630fdafabaaea5b64ea2e71d4086581efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 36/36] fix: do not let maturities of very long periods wrap
 around

---
 juno/src/indicators/adx.rs            | 2 +-
 juno/src/indicators/dema.rs           | 2 +-
 juno/src/indicators/di.rs             | 2 +-
 juno/src/indicators/dm.rs             | 2 +-
 juno/src/indicators/ema.rs            | 4 ++--
 juno/src/indicators/ema2.rs           | 4 ++--
 juno/src/indicators/kama.rs           | 2 +-
 juno/src/indicators/macd.rs           | 3 ++-
 juno/src/indicators/rsi.rs            | 2 +-
 juno/src/indicators/smma.rs           | 2 +-
 juno/src/indicators/stoch.rs          | 7 +++----
 juno/src/strategies/four_week_rule.rs | 2 +-
 juno/src/strategies/sig.rs            | 4 +++-
 juno/src/strategies/sig_osc.rs        | 3 +--
 juno/src/strategies/single_ma.rs      | 2 +-
 juno/src/utils/persistence.rs         | 2 +-
 16 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index b7780dc..e8b4f34 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -20,7 +20,7 @@ impl Adx {
     }
 
     pub fn maturity(&self) -> u32 {
-        self.dx.maturity() + self.smma.maturity() - 1
+        self.dx.maturity().saturating_add(self.smma.maturity() - 1)
     }
 
     pub fn mature(&self) -> bool {
diff --git a/juno/src/indicators/dema.rs b/juno/src/indicators/dema.rs
index 63aeccd..9ba2658 100644
--- a/juno/src/indicators/dema.rs
+++ b/juno/src/indicators/dema.rs
@@ -34,7 +34,7 @@ impl Dema {
             }),
             t: 0,
             t1: params.period,
-            t2: params.period * 2 - 1,
+            t2: params.period.saturating_add(params.period - 1),
         }
     }
 }
diff --git a/juno/src/indicators/di.rs b/juno/src/indicators/di.rs
index 562011f..c105d19 100644
--- a/juno/src/indicators/di.rs
+++ b/juno/src/indicators/di.rs
@@ -26,7 +26,7 @@ impl DI {
             t: 0,
             t1: 2,
             t2: period,
-            t3: period + 1,
+            t3: period.saturating_add(1),
         }
     }
 
diff --git a/juno/src/indicators/dm.rs b/juno/src/indicators/dm.rs
index b6b9592..f46efc1 100644
--- a/juno/src/indicators/dm.rs
+++ b/juno/src/indicators/dm.rs
@@ -28,7 +28,7 @@ impl DM {
             t: 0,
             t1: 2,
             t2: period,
-            t3: period + 1,
+            t3: period.saturating_add(1),
         }
     }
 
diff --git a/juno/src/indicators/ema.rs b/juno/src/indicators/ema.rs
index e121685..20cf0d8 100644
--- a/juno/src/indicators/ema.rs
+++ b/juno/src/indicators/ema.rs
@@ -24,7 +24,7 @@ impl Ema {
                 assert!(0.0 < smoothing && smoothing <= 1.0);
                 smoothing
             }
-            None => 2.0 / f64::from(params.period + 1),
+            None => 2.0 / (f64::from(params.period) + 1.0),
         };
         Self {
             value: 0.0,
@@ -45,7 +45,7 @@ impl MA for Ema {
     }
 
     fn update(&mut self, price: f64) {
-        self.t = min(self.t + 1, self.t1 + 1);
+        self.t = min(self.t + 1, self.t1.saturating_add(1));
         self.value = match self.t {
             1 => price,
             _ => (price - self.value) * self.a + self.value,
diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index 1fa6a1c..25ebdbf 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -26,12 +26,12 @@ impl Ema2 {
         Self {
             value: 0.0,
             period: params.period,
-            a: 2.0 / f64::from(params.period + 1),
+            a: 2.0 / (f64::from(params.period) + 1.0),
             sma: Sma::new(&SmaParams {
                 period: params.period,
             }),
             t1: params.period,
-            t2: params.period + 1,
+            t2: params.period.saturating_add(1),
             t: 0,
         }
     }
diff --git a/juno/src/indicators/kama.rs b/juno/src/indicators/kama.rs
index f10879f..b3b7ab9 100644
--- a/juno/src/indicators/kama.rs
+++ b/juno/src/indicators/kama.rs
@@ -36,7 +36,7 @@ impl Kama {
 
             t: 0,
             t1: params.period,
-            t2: params.period + 1,
+            t2: params.period.saturating_add(1),
         }
     }
 }
diff --git a/juno/src/indicators/macd.rs b/juno/src/indicators/macd.rs
index 1db285d..fe8c4eb 100644
--- a/juno/src/indicators/macd.rs
+++ b/juno/src/indicators/macd.rs
@@ -44,7 +44,8 @@ impl Macd {
     }
 
     pub fn maturity(&self) -> u32 {
-        max(self.long_ema.maturity(), self.short_ema.maturity()) + self.signal_ema.maturity() - 1
+        max(self.long_ema.maturity(), self.short_ema.maturity())
+            .saturating_add(self.signal_ema.maturity() - 1)
     }
 
     pub fn mature(&self) -> bool {
diff --git a/juno/src/indicators/rsi.rs b/juno/src/indicators/rsi.rs
index 8e6a799..6946cf0 100644
--- a/juno/src/indicators/rsi.rs
+++ b/juno/src/indicators/rsi.rs
@@ -24,7 +24,7 @@ impl Rsi {
             mean_up: Smma::new(&SmmaParams { period }),
             last_price: 0.0,
             t: 0,
-            t1: period + 1,
+            t1: period.saturating_add(1),
         }
     }
 
diff --git a/juno/src/indicators/smma.rs b/juno/src/indicators/smma.rs
index b06c0eb..0154cea 100644
--- a/juno/src/indicators/smma.rs
+++ b/juno/src/indicators/smma.rs
@@ -32,7 +32,7 @@ impl Smma {
             weight: params.period.into(),
             t: 0,
             t1: params.period,
-            t2: params.period + 1,
+            t2: params.period.saturating_add(1),
         }
     }
 }
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index b08d5f1..824352a 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -20,11 +20,10 @@ pub struct Stoch {
 
 impl Stoch {
     pub fn new(k_period: u32, k_sma_period: u32, d_sma_period: u32) -> Self {
-        // The other periods are validated within Sma.
-        assert!(k_period > 0);
+        assert!(k_period > 0 && k_sma_period > 0 && d_sma_period > 0);
         let t1 = k_period;
-        let t2 = t1 + k_sma_period - 1;
-        let t3 = t2 + d_sma_period - 1;
+        let t2 = t1.saturating_add(k_sma_period - 1);
+        let t3 = t2.saturating_add(d_sma_period - 1);
         Self {
             k: 0.0,
             d: 0.0,
diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index caf04f2..beceab3 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -57,7 +57,7 @@ impl FourWeekRule {
             prices: BoundedVecDeque::with_capacity(0, params.period as usize),
             advice: Advice::None,
             t: 0,
-            t1: max(params.period + 1, ma.maturity()),
+            t1: max(params.period.saturating_add(1), ma.maturity()),
             ma,
         }
     }
diff --git a/juno/src/strategies/sig.rs b/juno/src/strategies/sig.rs
index 160e882..9d10a75 100644
--- a/juno/src/strategies/sig.rs
+++ b/juno/src/strategies/sig.rs
@@ -49,7 +49,9 @@ impl Sig {
         Self {
             advice: Advice::None,
             t: 0,
-            t1: sig.maturity() + max(mid_trend.maturity(), persistence.maturity()) - 1,
+            t1: sig
+                .maturity()
+                .saturating_add(max(mid_trend.maturity(), persistence.maturity()) - 1),
             sig,
             mid_trend,
             persistence,
diff --git a/juno/src/strategies/sig_osc.rs b/juno/src/strategies/sig_osc.rs
index 49cdf56..b623a9f 100644
--- a/juno/src/strategies/sig_osc.rs
+++ b/juno/src/strategies/sig_osc.rs
@@ -65,8 +65,7 @@ impl SigOsc {
             advice: Advice::None,
             t: 0,
             t1: max(sig.maturity(), osc.maturity())
-                + max(mid_trend.maturity(), persistence.maturity())
-                - 1,
+                .saturating_add(max(mid_trend.maturity(), persistence.maturity()) - 1),
             sig,
             osc,
             osc_filter: params.osc_filter,
diff --git a/juno/src/strategies/single_ma.rs b/juno/src/strategies/single_ma.rs
index 344059d..982f609 100644
--- a/juno/src/strategies/single_ma.rs
+++ b/juno/src/strategies/single_ma.rs
@@ -38,7 +38,7 @@ impl SingleMA {
             previous_ma_value: 0.0,
             advice: Advice::None,
             t: 0,
-            t1: ma.maturity() + 1,
+            t1: ma.maturity().saturating_add(1),
             ma,
         }
     }
diff --git a/juno/src/utils/persistence.rs b/juno/src/utils/persistence.rs
index 4485078..a1036ca 100644
--- a/juno/src/utils/persistence.rs
+++ b/juno/src/utils/persistence.rs
@@ -22,7 +22,7 @@ impl Persistence {
     }
 
     pub fn maturity(&self) -> u32 {
-        self.level + 1
+        self.level.saturating_add(1)
     }
 
     pub fn update(&mut self, value: Advice) -> Advice {
-- 
2.43.0

