From ade6639a213c11ad07b32d2d35f229d97dfac815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 01/44] fix: Date::try_from_ymd refuses year i32::MIN instead
 of overflowing

---
 src/date.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 22f81d0..a079827 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -75,7 +75,10 @@ impl Date {
         // Handle negative years as BC
         if tm.year < 0 {
             bc = true;
-            tm.year = -tm.year;
+            tm.year = match tm.year.checked_neg() {
+                Some(v) => v,
+                None => return Err(DateTimeError::overflow()),
+            };
         }
 
         tm.validate_date(DTK_DATE_M, false, false, bc)?;
-- 
2.43.0


From 050aaf4577312d5f0691a100a396a3a0d274ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 02/44] fix: Time::try_from_hms refuses NaN seconds

---
 src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time.rs b/src/time.rs
index b6ed431..8e05e70 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -55,6 +55,7 @@ impl Time {
         if h < 0
             || m < 0
             || m > MINS_PER_HOUR - 1
+            || s.is_nan()
             || s < 0.0
             || s > SECS_PER_MINUTE as f64
             || h > HOURS_PER_DAY
-- 
2.43.0


From 5b63a5d6b00f10dfccd5d9a1bb42905f89796000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 03/44] fix: Timestamp::add_interval refuses results that
 overflow instead of wrapping

---
 src/timestamp.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0ed9903..3d89fb1 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -265,7 +265,10 @@ impl Timestamp {
                 let mut fsec = 0;
 
                 timestamp2time(self.value(), &None, &mut tm, &mut fsec, &mut None, &None)?;
-                tm.mon = tm.mon.wrapping_add(span.month());
+                tm.mon = match tm.mon.checked_add(span.month()) {
+                    Some(v) => v,
+                    None => return Err(DateTimeError::overflow()),
+                };
                 if tm.mon > MONTHS_PER_YEAR as i32 {
                     tm.year = tm.year.wrapping_add((tm.mon - 1) / MONTHS_PER_YEAR);
                     tm.mon = ((tm.mon - 1) % MONTHS_PER_YEAR) + 1;
@@ -288,13 +291,20 @@ impl Timestamp {
                 let mut fsec = 0;
                 timestamp2time(timestamp, &None, &mut tm, &mut fsec, &mut None, &None)?;
                 // Add days by converting to and from Julian
-                let julian = date2julian(tm.year, tm.mon, tm.mday).wrapping_add(span.day());
+                let julian =
+                    match date2julian(tm.year, tm.mon, tm.mday).checked_add(span.day()) {
+                        Some(v) if v >= 0 => v,
+                        _ => return Err(DateTimeError::overflow()),
+                    };
                 let (y, m, d) = julian2date(julian);
                 tm.set_ymd(y, m, d);
                 timestamp = tm.to_timestamp(fsec, None)?;
             }
 
-            timestamp = timestamp.wrapping_add(span.time());
+            timestamp = match timestamp.checked_add(span.time()) {
+                Some(v) => v,
+                None => return Err(DateTimeError::overflow()),
+            };
 
             if !is_valid_timestamp(timestamp) {
                 return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 838734847b78442e44b6d98302ccd0771f56092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 04/44] fix: Timestamp::sub_timestamp refuses differences that
 overflow

---
 src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 3d89fb1..7a6a36c 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -355,7 +355,10 @@ impl Timestamp {
             )));
         }
 
-        let time = self.value() - timestamp.value();
+        let time = match self.value().checked_sub(timestamp.value()) {
+            Some(v) => v,
+            None => return Err(DateTimeError::overflow()),
+        };
 
         //	This is wrong, but removing it breaks a lot of regression tests.
         // For example:
-- 
2.43.0


From 71c8a1da38d873e9cb39934357d2cb3779e92831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 05/44] fix: Timestamp::age refuses infinite timestamps

---
 src/timestamp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 7a6a36c..5b956d6 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -395,6 +395,13 @@ impl Timestamp {
     /// is done.
     #[inline]
     pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {
+        if self.is_infinite() || timestamp.is_infinite() {
+            return Err(DateTimeError::invalid(format!(
+                "age have infinite, left: {:?}, right: {:?}",
+                self, timestamp
+            )));
+        }
+
         let mut tm: PgTime = PgTime::new();
         let mut tm1: PgTime = PgTime::new();
         let mut tm2: PgTime = PgTime::new();
-- 
2.43.0


From 332ccfb928eedceff830115ff4352f5c555f3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 06/44] fix: truncating a late December day in ISO week 1 goes
 to the week's Monday

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 7e658e9..3d1d22d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -147,7 +147,7 @@ impl PgTime {
             self.year -= 1;
         }
         if woy <= 1 && self.mon == MONTHS_PER_YEAR {
-            self.year -= 1;
+            self.year += 1;
         }
         iso_week_to_date(woy, self);
         self.hour = 0;
-- 
2.43.0


From a53526780c078afd606c8600dfa450964edf281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 07/44] fix: truncating an infinite timestamp or date leaves it
 unchanged

---
 src/timestamp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 5b956d6..8434bfd 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -894,6 +894,10 @@ impl DateTime for Timestamp {
     /// Truncates `Timestamp` to specified units.
     #[inline]
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
+        if self.is_infinite() {
+            return Ok(*self);
+        }
+
         match ty {
             FieldType::Unit => {
                 let mut tm = PgTime::new();
-- 
2.43.0


From b51b8c174d037b7fe251e88cd9e424c3d4473164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 08/44] fix: time of day arithmetic is modulo 24 hours for the
 largest intervals too

---
 src/time.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 8e05e70..d28a8e4 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -148,7 +148,7 @@ impl Time {
     /// `Time` Adds `Interval`.
     #[inline]
     pub fn add_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_add(span.time());
+        let mut result = self.value().wrapping_add(span.time() % USECS_PER_DAY);
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -166,7 +166,7 @@ impl Time {
     /// `Time` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_sub(span.time());
+        let mut result = self.value().wrapping_sub(span.time() % USECS_PER_DAY);
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -268,8 +268,10 @@ impl From<Interval> for Time {
             let days = result / USECS_PER_DAY;
             result -= days * USECS_PER_DAY;
         } else if result < 0 {
-            let days = (-result + USECS_PER_DAY - 1) / USECS_PER_DAY;
-            result += days * USECS_PER_DAY;
+            result %= USECS_PER_DAY;
+            if result < 0 {
+                result += USECS_PER_DAY;
+            }
         }
         Time::from(result)
     }
-- 
2.43.0


From 990d5a167389d902a3b92f3d5e3562d58da8a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 09/44] fix: truncating the time 24:00:00 keeps it

---
 src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index d28a8e4..c235c3b 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -319,7 +319,7 @@ impl DateTime for Time {
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
         let interval: Interval = From::from(*self);
         let it = interval.truncate(ty, unit)?;
-        Ok(From::from(it))
+        Ok(Time::from(it.time()))
     }
 }
 
-- 
2.43.0


From 150f7ea5d0338e7f900edae4f1b8dea4c1b46d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 10/44] fix: Interval::justify_interval does not wrap its
 intermediate day count

---
 src/interval.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 44f45dc..d88b7a7 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -261,10 +261,10 @@ impl Interval {
         let mut result = self;
         let (time, whole_day) = time_modulo(result.time, USECS_PER_DAY);
         result.time = time;
-        result.day = result.day.wrapping_add(whole_day as i32); // could overflow.
-        let whole_month = result.day / DAYS_PER_MONTH;
-        result.day = result.day.wrapping_sub(whole_month * DAYS_PER_MONTH);
-        result.month = result.month.wrapping_add(whole_month);
+        let days = result.day as i64 + whole_day;
+        let whole_month = (days / DAYS_PER_MONTH as i64) as i32;
+        result.day = (days % DAYS_PER_MONTH as i64) as i32;
+        result.month = result.month.wrapping_add(whole_month); // could overflow.
 
         if result.month > 0 && (result.day < 0 || (result.day == 0 && result.time < 0)) {
             result.day += DAYS_PER_MONTH;
-- 
2.43.0


From 2b75582ea6ef183a3292a3296ea7197f1cabe28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 11/44] fix: Interval::from_pgtime computes the time part in 64
 bits

---
 src/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index d88b7a7..dc465f4 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -398,7 +398,7 @@ impl Interval {
         let month = total_months as i32;
         let day = tm.mday;
         let time =
-            (((((tm.hour * 60) + tm.min) as i64 * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
+            ((((tm.hour as i64 * 60) + tm.min as i64) * 60 + tm.sec as i64) * USECS_PER_SEC) + fsec;
         Ok(Self::from_mdt(month, day, time))
     }
 
-- 
2.43.0


From bb74bdd5455d91f8ad7b01b4308c1a06288090c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 12/44] fix: scaling an interval refuses results that overflow
 and NaN divisors

---
 src/interval.rs | 57 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index dc465f4..c2a4d47 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -81,6 +81,12 @@ pub struct Interval {
     month: i32,
 }
 
+/// Adds days, refusing to overflow.
+#[inline]
+fn checked_add_days(day: i32, days: i32) -> Result<i32, DateTimeError> {
+    day.checked_add(days).ok_or_else(DateTimeError::overflow)
+}
+
 impl Interval {
     /// Construct a `Interval` value.
     #[inline]
@@ -333,15 +339,21 @@ impl Interval {
         // cascade from months and days.  It might still be >24 if the combination
         // of cascade and the seconds factor operation itself.
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = checked_add_days(
+                result.day,
+                (sec_remainder / SECS_PER_DAY as f64) as i32,
+            )?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.day = checked_add_days(result.day, month_remainder_days as i32)?;
         let result_time =
             (self.time as f64 * factor + sec_remainder * USECS_PER_SEC as f64).round();
-        if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+        if result_time.is_nan()
+            || result_time >= std::i64::MAX as f64
+            || result_time < std::i64::MIN as f64
+        {
             return Err(DateTimeError::overflow());
         }
 
@@ -361,10 +373,23 @@ impl Interval {
                 self
             )));
         }
-        let month = (self.month as f64 / factor) as i32;
-        let day = (self.day as f64 / factor) as i32;
+        let result_month = self.month as f64 / factor;
+        if result_month.is_nan()
+            || result_month > std::i32::MAX as f64
+            || result_month < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
 
-        let mut result = Interval::from_mdt(month, day, 0);
+        let result_day = self.day as f64 / factor;
+        if result_day.is_nan()
+            || result_day > std::i32::MAX as f64
+            || result_day < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        let mut result = Interval::from_mdt(result_month as i32, result_day as i32, 0);
         // Fractional months full days into days.  See comment in interval_mul().
 
         let mut month_remainder_days =
@@ -376,14 +401,26 @@ impl Interval {
             * SECS_PER_DAY as f64;
         sec_remainder = timestamp_round(sec_remainder);
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = checked_add_days(
+                result.day,
+                (sec_remainder / SECS_PER_DAY as f64) as i32,
+            )?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
-        result.time =
-            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
+        result.day = checked_add_days(result.day, month_remainder_days as i32)?;
+        let result_time =
+            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();
+        if result_time.is_nan()
+            || result_time >= std::i64::MAX as f64
+            || result_time < std::i64::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        result.time = result_time as i64;
+
         Ok(result)
     }
 
-- 
2.43.0


From e735e3af8085d73e9f9d2bf52b355e03ec809728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 13/44] fix: verbose interval text writes '1 unit ago' without
 the plural s

---
 src/interval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index c2a4d47..b61efd4 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -993,7 +993,8 @@ fn add_verbose_int_part(
     };
     offset = set_one_byte(s, offset, b' ');
     offset = copy_slice(s, offset, units);
-    if value != 1 {
+    // the number is printed negated when the interval is "ago".
+    if value != if *is_before { -1 } else { 1 } {
         offset = set_one_byte(s, offset, b's');
     }
     *is_zero = false;
-- 
2.43.0


From 0a7e241e3907611a8d0ccdb1f2594ed58c2d3527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 14/44] fix: intervals with a day or hour count of i32::MIN
 print instead of overflowing

---
 src/interval.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index b61efd4..762ae6f 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -695,8 +695,8 @@ fn format_interval(
                 offset = set_one_byte(s, offset, b'-');
                 year = -year;
                 mon = -mon;
-                mday = -mday;
-                hour = -hour;
+                mday = mday.wrapping_neg();
+                hour = hour.wrapping_neg();
                 min = -min;
                 sec = -sec;
                 fsec = -fsec;
@@ -723,10 +723,10 @@ fn format_interval(
                 offset += pg_ltostr(&mut s[offset..], mon.abs());
                 offset = set_one_byte(s, offset, b' ');
                 offset = set_one_byte(s, offset, day_sign);
-                offset += pg_ltostr(&mut s[offset..], mday.abs());
+                offset += pg_ltostr_abs(&mut s[offset..], mday);
                 offset = set_one_byte(s, offset, b' ');
                 offset = set_one_byte(s, offset, sec_sign);
-                offset += pg_ltostr(&mut s[offset..], hour.abs());
+                offset += pg_ltostr_abs(&mut s[offset..], hour);
                 offset = set_one_byte(s, offset, b':');
 
                 offset += pg_ltostr_zeropad(&mut s[offset..], min.abs(), 2);
@@ -745,9 +745,9 @@ fn format_interval(
                 offset += pg_ltostr(&mut s[offset..], mon);
                 Ok(offset)
             } else if has_day {
-                offset += pg_ltostr(&mut s[offset..], mday);
+                offset += pg_ltostr_abs(&mut s[offset..], mday);
                 offset = set_one_byte(s, offset, b' ');
-                offset += pg_ltostr(&mut s[offset..], hour);
+                offset += pg_ltostr_abs(&mut s[offset..], hour);
                 offset = set_one_byte(s, offset, b':');
                 offset += pg_ltostr_zeropad(&mut s[offset..], min, 2);
                 offset = set_one_byte(s, offset, b':');
@@ -760,7 +760,7 @@ fn format_interval(
                 );
                 Ok(offset)
             } else {
-                offset += pg_ltostr(&mut s[offset..], hour);
+                offset += pg_ltostr_abs(&mut s[offset..], hour);
                 offset = set_one_byte(s, offset, b':');
                 offset += pg_ltostr_zeropad(&mut s[offset..], min, 2);
                 offset = set_one_byte(s, offset, b':');
@@ -841,7 +841,11 @@ fn format_interval(
                     offset = set_one_byte(s, offset, b'+');
                 }
 
-                offset += pg_ltostr_zeropad(&mut s[offset..], hour.abs(), 2);
+                if hour == std::i32::MIN {
+                    offset += pg_ltostr_abs(&mut s[offset..], hour);
+                } else {
+                    offset += pg_ltostr_zeropad(&mut s[offset..], hour.abs(), 2);
+                }
                 offset = set_one_byte(s, offset, b':');
                 offset += pg_ltostr_zeropad(&mut s[offset..], min.abs(), 2);
                 offset = set_one_byte(s, offset, b':');
@@ -918,6 +922,15 @@ fn format_interval(
     }
 }
 
+/// Converts the magnitude of 'value' into a decimal string, also when it is i32::MIN.
+#[inline]
+fn pg_ltostr_abs(s: &mut [u8], value: i32) -> usize {
+    match value.checked_abs() {
+        Some(v) => pg_ltostr(s, v),
+        None => copy_slice(s, 0, b"2147483648"),
+    }
+}
+
 /// Helper functions to avoid duplicated code in EncodeInterval.
 /// Append an ISO-8601-style interval field, but only if value isn't zero.
 #[inline]
@@ -985,7 +998,9 @@ fn add_verbose_int_part(
     // first nonzero value sets is_before.
     if *is_zero {
         *is_before = value < 0;
-        offset += pg_ltostr(&mut s[offset..], value.abs());
+        offset += pg_ltostr_abs(&mut s[offset..], value);
+    } else if *is_before && value < 0 {
+        offset += pg_ltostr_abs(&mut s[offset..], value);
     } else if *is_before {
         offset += pg_ltostr(&mut s[offset..], -value);
     } else {
-- 
2.43.0


From a390ad9a1d16f68f91d2209e019deb5897f512d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 15/44] fix: traditional day-month-year dates print with one
 separator so they read back

---
 src/date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index a079827..fa5624a 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -348,12 +348,13 @@ fn format_date(
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
                 offset = set_one_byte(s, offset, b'-');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
+                offset = set_one_byte(s, offset, b'-');
             } else {
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
                 offset = set_one_byte(s, offset, b'.');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
+                offset = set_one_byte(s, offset, b'.');
             }
-            offset = set_one_byte(s, offset, b'.');
             let year = if tm.year > 0 { tm.year } else { -(tm.year - 1) };
             offset += pg_ltostr_zeropad(&mut s[offset..], year, 4);
         }
-- 
2.43.0


From 3ab35ca68e7b3192e61da1e0f8d503bb8a265791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 16/44] fix: intervals that compare as equal are equal and hash
 alike

---
 src/interval.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index 762ae6f..db5fa2e 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,6 +20,7 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
+use std::hash::{Hash, Hasher};
 use std::mem::MaybeUninit;
 use std::ops::Add;
 
@@ -70,7 +71,7 @@ const fn interval_precision(t: i32) -> i32 {
 }
 
 /// Interval represents delta time.
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Debug, Eq)]
 #[repr(C)]
 pub struct Interval {
     /// All time units other than days, months and years.
@@ -1044,6 +1045,21 @@ impl Add<Interval> for Interval {
     }
 }
 
+/// Equality and hash agree with the ordering: '1 month' equals '30 days'.
+impl PartialEq for Interval {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        i128::from(*self) == i128::from(*other)
+    }
+}
+
+impl Hash for Interval {
+    #[inline]
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        i128::from(*self).hash(state);
+    }
+}
+
 impl PartialOrd for Interval {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-- 
2.43.0


From ea90902008d8cc350669dbb06d8a9d3d29c2e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 17/44] fix: the month abbreviation Feb is recognised

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 532bb64..e1f6bcf 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -335,7 +335,7 @@ const DATE_TOKEN_TABLE: [DateToken; 280] = [
     DateToken::new(b"egt", TZ, -3600),     // East Greenland Time
     DateToken::new(EPOCH, RESERV, Epoch.value()), // "epoch" reserved for system epoch time
     DateToken::new(b"est", TZ, -18000),    // Eastern Standard Time
-    DateToken::new(b"fe", MONTH, 2),
+    DateToken::new(b"feb", MONTH, 2),
     DateToken::new(b"february", MONTH, 2),
     DateToken::new(b"fjst", DTZ, -46800), // Fiji Summer Time (13 hour offset!)
     DateToken::new(b"fjt", TZ, -43200),   // Fiji Time
-- 
2.43.0


From 4301e9f4c257cd2ae09b8c4554bdc3882de472d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 18/44] fix: input with more token bytes than the work buffer
 is refused instead of panicking

---
 src/parse.rs | 68 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 51d46c8..eaa3ef3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -85,6 +85,18 @@ fn extract_sign(s: &[u8]) -> (i32, &[u8]) {
     }
 }
 
+/// Appends `src` to the token being collected in `buf`, refusing input which
+/// has more token bytes than the working buffer can hold.
+#[inline]
+fn append_token(buf: &mut [u8], pos: usize, src: &[u8]) -> Result<usize, DateTimeError> {
+    if src.len() > buf.len() - pos {
+        return Err(DateTimeError::invalid(
+            "date time string is too long".to_string(),
+        ));
+    }
+    Ok(copy_slice(buf, pos, src))
+}
+
 /// Parse date time string for digit and delim begin.
 #[inline]
 fn parse_date_time_for_digit_delim_begin<'a, 'b>(
@@ -93,27 +105,26 @@ fn parse_date_time_for_digit_delim_begin<'a, 'b>(
     f_types: &mut [TokenField],
     buf_pos: &mut usize,
     nf: usize,
-) -> &'a [u8] {
+) -> Result<&'a [u8], DateTimeError> {
     let delim = s.first().unwrap();
     f_types[nf] = if delim == &b'.' {
         TokenField::Number
     } else {
         TokenField::Date
     };
-    current_buf[*buf_pos] = *delim;
+    *buf_pos = append_token(current_buf, *buf_pos, &s[..1])?;
     let s = &s[1..];
-    *buf_pos += 1;
-    match s.first() {
+    let s = match s.first() {
         Some(c) => {
             if c.is_ascii_digit() {
                 let (field_str, s) = eat_digits(s);
-                *buf_pos = copy_slice(current_buf, *buf_pos, field_str);
+                *buf_pos = append_token(current_buf, *buf_pos, field_str)?;
                 match s.first() {
                     Some(c) => {
                         if c == delim {
                             f_types[nf] = TokenField::Date;
                             let (field_str, s) = eat_digits_and_chars(s, *delim);
-                            *buf_pos = copy_slice(current_buf, *buf_pos, field_str);
+                            *buf_pos = append_token(current_buf, *buf_pos, field_str)?;
                             s
                         } else {
                             s
@@ -125,12 +136,13 @@ fn parse_date_time_for_digit_delim_begin<'a, 'b>(
                 f_types[nf] = TokenField::Date;
                 let (field_str, s) = eat_alphanumerics_and_chars(s, *delim);
                 let lower_str = field_str.to_ascii_lowercase();
-                *buf_pos = copy_slice(current_buf, *buf_pos, lower_str.as_ref());
+                *buf_pos = append_token(current_buf, *buf_pos, lower_str.as_ref())?;
                 s
             }
         }
         None => s,
-    }
+    };
+    Ok(s)
 }
 
 /// Parse date time string for digit begin.
@@ -141,18 +153,18 @@ fn parse_date_time_for_digit_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     let (field_part0, s) = eat_digits(s);
-    let mut buf_pos = copy_slice(current_buf, 0, field_part0);
+    let mut buf_pos = append_token(current_buf, 0, field_part0)?;
     let s = match s.first() {
         Some(&b':') => {
             let (field_str, s) = eat_time(s);
-            buf_pos = copy_slice(current_buf, buf_pos, field_str);
+            buf_pos = append_token(current_buf, buf_pos, field_str)?;
             f_types[nf] = TokenField::Time;
             s
         }
         Some(&b'-') | Some(&b'/') | Some(&b'.') => {
-            parse_date_time_for_digit_delim_begin(s, current_buf, f_types, &mut buf_pos, nf)
+            parse_date_time_for_digit_delim_begin(s, current_buf, f_types, &mut buf_pos, nf)?
         }
 
         _ => {
@@ -163,7 +175,7 @@ fn parse_date_time_for_digit_begin<'a, 'b, 'c>(
 
     let (field, current_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf as usize] = field;
-    (s, current_buf)
+    Ok((s, current_buf))
 }
 
 /// Parse date time string for dot begin.
@@ -174,16 +186,15 @@ fn parse_date_time_for_dot_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     f_types[nf] = TokenField::Number;
-    current_buf[0] = s[0];
+    let mut buf_pos = append_token(current_buf, 0, &s[..1])?;
     let s = &s[1..];
-    let mut buf_pos = 1;
     let (field_str, s) = eat_digits(s);
-    buf_pos = copy_slice(current_buf, buf_pos, field_str);
+    buf_pos = append_token(current_buf, buf_pos, field_str)?;
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf] = filed;
-    (s, ret_buf)
+    Ok((s, ret_buf))
 }
 
 /// Parse date time string for alpha begin.
@@ -193,11 +204,11 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
     fields: &'c mut [&'b [u8]],
     f_types: &mut [TokenField],
     nf: usize,
-) -> (&'a [u8], &'b mut [u8]) {
+) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
     f_types[nf] = TokenField::String;
     let (field_str, s) = eat_alphabetics(s);
     let field_str = field_str.to_ascii_lowercase();
-    let mut buf_pos = copy_slice(current_buf, 0, field_str.as_ref());
+    let mut buf_pos = append_token(current_buf, 0, field_str.as_ref())?;
     let is_date = match s.first() {
         Some(c) => {
             if c == &b'-' || c == &b'/' || c == &b'.' {
@@ -223,7 +234,7 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
                 || i == b':'
                 || i.is_ascii_alphanumeric()
         });
-        buf_pos = copy_slice(current_buf, buf_pos, field_str);
+        buf_pos = append_token(current_buf, buf_pos, field_str)?;
         s
     } else {
         s
@@ -231,7 +242,7 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
     fields[nf] = filed;
-    (s, ret_buf)
+    Ok((s, ret_buf))
 }
 
 /// Parse date time string for sign begin.
@@ -243,10 +254,9 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
     f_types: &mut [TokenField],
     nf: usize,
 ) -> Result<(&'a [u8], &'b mut [u8]), DateTimeError> {
-    current_buf[0] = s[0];
+    let mut buf_pos = append_token(current_buf, 0, &s[..1])?;
     let s = &s[1..];
     let s = eat_whitespaces(s);
-    let mut buf_pos = 1;
     let s = match s.first() {
         Some(c) => {
             if c.is_ascii_digit() {
@@ -254,13 +264,13 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 let (field_str, s) = eat_special_chars(s, |i| {
                     i.is_ascii_digit() || i == b':' || i == b'.' || i == b'-'
                 });
-                buf_pos = copy_slice(current_buf, buf_pos, field_str);
+                buf_pos = append_token(current_buf, buf_pos, field_str)?;
                 s
             } else if c.is_ascii_alphabetic() {
                 f_types[nf] = TokenField::Special;
                 let (field_str, s) = eat_alphabetics(s);
                 let save_buf_pos = buf_pos;
-                buf_pos = copy_slice(current_buf, buf_pos, field_str);
+                buf_pos = append_token(current_buf, buf_pos, field_str)?;
                 let buf = &mut current_buf[save_buf_pos..save_buf_pos + field_str.len()];
                 buf.make_ascii_lowercase();
                 s
@@ -343,7 +353,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char == &b'.' {
@@ -353,7 +363,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char.is_ascii_alphabetic() {
@@ -363,7 +373,7 @@ where
                         fields,
                         f_types,
                         field_num,
-                    );
+                    )?;
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if *char == b'+' || *char == b'-' {
-- 
2.43.0


From 5ecb422ee2f97f149ac21bbf62d49df5b4d6a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 19/44] fix: a sign at the end of the input is refused instead
 of reading uninitialised token types

---
 src/date.rs      | 8 +++-----
 src/interval.rs  | 8 +++-----
 src/parse.rs     | 6 +++++-
 src/time.rs      | 8 +++-----
 src/timestamp.rs | 8 +++-----
 5 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index fa5624a..9ee1088 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -23,7 +23,6 @@ use crate::timestamp::{Timestamp, DATE_TIME_BEGIN_VAL, DATE_TIME_END_VAL};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Range limits for dates and timestamps.
 //
@@ -203,10 +202,9 @@ impl Date {
     #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(s: &str, date_order: DateOrder) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [b""; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
 
         let field_num =
             parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
diff --git a/src/interval.rs b/src/interval.rs
index db5fa2e..774db64 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -21,7 +21,6 @@ use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
 use std::hash::{Hash, Hasher};
-use std::mem::MaybeUninit;
 use std::ops::Add;
 
 pub const INTERVAL_MASK_Y: i32 = TokenType::YEAR.mask();
@@ -576,10 +575,9 @@ impl Interval {
         format_type: IntervalStyle,
     ) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [b""; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
         let mut d_type = TokenField::Number;
         let mut fsec = 0;
         let mut tm = PgTime::new();
diff --git a/src/parse.rs b/src/parse.rs
index eaa3ef3..8c8b817 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -281,7 +281,11 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 )));
             }
         }
-        None => s,
+        None => {
+            return Err(DateTimeError::invalid(
+                "date time expect digit or alpha after sign".to_string(),
+            ));
+        }
     };
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
diff --git a/src/time.rs b/src/time.rs
index c235c3b..8c6e0c9 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -21,7 +21,6 @@ use crate::parse::{decode_time_only, parse_date_time, timestamp2time};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType, Timestamp};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 const TIME_SCALES: [i64; MAX_TIME_PRECISION as usize + 1] =
     [1_000_000, 100_000, 10_000, 1000, 100, 10, 1];
@@ -109,10 +108,9 @@ impl Time {
         date_order: DateOrder,
     ) -> Result<Time, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [b""; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
         let mut tm = PgTime::new();
 
         let field_num =
diff --git a/src/timestamp.rs b/src/timestamp.rs
index 8434bfd..84eb059 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -23,7 +23,6 @@ use crate::time::Time;
 use crate::token::*;
 use crate::{Date, DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Timestamp limits
 const MIN_TIMESTAMP: i64 = -211_813_488_000_000_000; // == (DATETIME_MIN_JULIAN - POSTGRES_EPOCH_JDATE) * USECS_PER_DAY
@@ -169,10 +168,9 @@ impl Timestamp {
         date_order: DateOrder,
     ) -> Result<Timestamp, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [b""; MAX_DATE_FIELDS];
+        let mut work_buf: [u8; MAX_DATE_LEN] = [0; MAX_DATE_LEN];
+        let mut f_types: [TokenField; MAX_DATE_FIELDS] = [TokenField::Number; MAX_DATE_FIELDS];
 
         let nf = parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
-- 
2.43.0


From 5eefb54b88c1b17a11cddf66060a2c0cd26cd44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 20/44] fix: a trailing ISO time separator is refused instead
 of indexing past the fields

---
 src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8c8b817..183f27f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1777,8 +1777,7 @@ impl DecodeDateTimeCtx {
                 {
                     return Err(DateTimeError::invalid(format!(
                         "the {:?} field's type: {:?} is unexpected",
-                        field_id,
-                        ftypes[field_id + 1]
+                        field_id, ftypes[field_id]
                     )));
                 }
                 self.p_type = TokenField::try_from(val)?;
-- 
2.43.0


From 2a667182b518831eb5c585ac8f1a2da8a38c1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 21/44] fix: dates with a spelled-out month take their numeric
 fields as documented

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 183f27f..08b09aa 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1618,7 +1618,7 @@ impl DecodeDateTimeCtx {
             else {
                 decode_number(
                     str,
-                    false,
+                    self.have_text_month,
                     self.f_mask,
                     &mut self.t_mask,
                     tm,
-- 
2.43.0


From 2aaaeaf2aebf2a6727302a18be0a5efeb7c1e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 22/44] fix: a malformed decimal number field is refused
 instead of being skipped

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 08b09aa..a666001 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -711,7 +711,7 @@ fn decode_number(
     match s.first() {
         Some(&b'.') => {
             if str.len() - s.len() > 2 {
-                let _ = decode_number_field(str, f_mask | DTK_DATE_M, t_mask, tm, fsec, is2digits);
+                decode_number_field(str, f_mask | DTK_DATE_M, t_mask, tm, fsec, is2digits)?;
                 return Ok(());
             }
             *fsec = parse_fractional_second(s)?;
-- 
2.43.0


From 2cc5bcad88895b8a66aea59933b4a4c830014619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 23/44] fix: interval text whose fields overflow is refused
 instead of wrapping

---
 src/parse.rs | 107 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 64 insertions(+), 43 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a666001..963634a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2427,6 +2427,27 @@ pub fn decode_time_only(
     Ok(ctx.f_sec)
 }
 
+/// Adds `val` to an interval field, refusing results the field cannot hold.
+#[inline]
+fn add_field(field: &mut i32, val: i32) -> Result<(), DateTimeError> {
+    *field = field.checked_add(val).ok_or_else(DateTimeError::overflow)?;
+    Ok(())
+}
+
+/// Adds `val * scale` to an interval field, refusing results the field cannot hold.
+#[inline]
+fn add_scaled_field(field: &mut i32, val: i32, scale: i32) -> Result<(), DateTimeError> {
+    let val = val.checked_mul(scale).ok_or_else(DateTimeError::overflow)?;
+    add_field(field, val)
+}
+
+/// Negates an interval field, refusing results the field cannot hold.
+#[inline]
+fn negate_field(field: &mut i32) -> Result<(), DateTimeError> {
+    *field = field.checked_neg().ok_or_else(DateTimeError::overflow)?;
+    Ok(())
+}
+
 /// Multiply frac by scale (to produce seconds) and add to *tm & *fsec.
 /// We assume the input frac is less than 1 so overflow is not an issue.
 #[inline]
@@ -2566,14 +2587,14 @@ fn decode_interval_number_field(
         }
         TokenField::Millisec => {
             // avoid overflowing the fsec field.
-            tm.sec += val / 1000;
+            add_field(&mut tm.sec, val / 1000)?;
             val -= (val / 1000) * 1000;
             *f_sec += ((val as f64 + *f_val) * 1000_f64).round() as i64;
             *t_mask = TokenType::MILLISECOND.mask();
         }
 
         TokenField::Second => {
-            tm.sec += val;
+            add_field(&mut tm.sec, val)?;
             *f_sec += (*f_val * 1_000_000_f64).round() as i64;
 
             // If any subseconds were specified, consider this
@@ -2586,64 +2607,64 @@ fn decode_interval_number_field(
         }
 
         TokenField::Minute => {
-            tm.min += val;
+            add_field(&mut tm.min, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_MINUTE)?;
             *t_mask = TokenType::MINUTE.mask();
         }
 
         TokenField::Hour => {
-            tm.hour += val;
+            add_field(&mut tm.hour, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;
             *t_mask = TokenType::HOUR.mask();
             *ty = TokenField::Day.value(); /* set for next field */
         }
 
         TokenField::Day => {
-            tm.mday += val;
+            add_field(&mut tm.mday, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_DAY)?;
             *t_mask = TokenType::DAY.mask();
         }
 
         TokenField::Week => {
-            tm.mday += val * 7;
+            add_scaled_field(&mut tm.mday, val, 7)?;
             adjust_fract_days(*f_val, tm, f_sec, 7)?;
             *t_mask = TokenType::WEEK.mask();
         }
 
         TokenField::Month => {
-            tm.mon += val;
+            add_field(&mut tm.mon, val)?;
             adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;
             *t_mask = TokenType::MONTH.mask();
         }
 
         TokenField::Year => {
-            tm.year += val;
+            add_field(&mut tm.year, val)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64) as i32)?;
             }
             *t_mask = TokenType::YEAR.mask();
         }
 
         TokenField::Decade => {
-            tm.year += val * 10;
+            add_scaled_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32)?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
 
         TokenField::Century => {
-            tm.year += val * 100;
+            add_scaled_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32)?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
 
         TokenField::Millennium => {
-            tm.year += val * 1000;
+            add_scaled_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
@@ -2830,7 +2851,7 @@ pub fn decode_interval(
     if *f_sec != 0 {
         let sec = *f_sec / USECS_PER_SEC;
         *f_sec -= sec * USECS_PER_SEC;
-        tm.sec += sec as i32;
+        add_field(&mut tm.sec, sec as i32)?;
     }
 
     // The SQL standard defines the interval literal
@@ -2887,12 +2908,12 @@ pub fn decode_interval(
     // finally, AGO negates everything.
     if is_before {
         *f_sec = -(*f_sec);
-        tm.sec = -tm.sec;
-        tm.min = -tm.min;
-        tm.hour = -tm.hour;
-        tm.mday = -tm.mday;
-        tm.mon = -tm.mon;
-        tm.year = -tm.year;
+        negate_field(&mut tm.sec)?;
+        negate_field(&mut tm.min)?;
+        negate_field(&mut tm.hour)?;
+        negate_field(&mut tm.mday)?;
+        negate_field(&mut tm.mon)?;
+        negate_field(&mut tm.year)?;
     }
 
     Ok(())
@@ -2976,8 +2997,8 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     let mut s = s;
 
-    tm.year += *val;
-    tm.mon += (*fval * MONTHS_PER_YEAR as f64) as i32;
+    add_field(&mut tm.year, *val)?;
+    add_field(&mut tm.mon, (*fval * MONTHS_PER_YEAR as f64) as i32)?;
     if unit == b'\0' {
         return Ok((true, s));
     }
@@ -2988,7 +3009,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mon += *val;
+    add_field(&mut tm.mon, *val)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
         None => return Ok((true, s)),
@@ -3009,7 +3030,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.mday += *val;
+    add_field(&mut tm.mday, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
         None => Ok((true, s)),
@@ -3042,14 +3063,14 @@ fn decode_time_part_left(
         return Err(DateTimeError::invalid("have field is set".to_string()));
     }
 
-    tm.hour += *val;
+    add_field(&mut tm.hour, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;
     if unit == b'\0' {
         return Ok(());
     }
 
     let mut s = parse_iso8601_number(s, val, fval)?;
-    tm.min += *val;
+    add_field(&mut tm.min, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
         None => return Ok(()),
@@ -3064,7 +3085,7 @@ fn decode_time_part_left(
     }
     s = &s[1..];
     s = parse_iso8601_number(s, val, fval)?;
-    tm.sec += *val;
+    add_field(&mut tm.sec, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
         None => Ok(()),
@@ -3137,19 +3158,19 @@ pub fn decode_iso8601_interval(
             match unit        // before T: Y M W D.
             {
                 b'Y' => {
-                    tm.year += val;
-                    tm.mon += (fval * MONTHS_PER_YEAR as f64) as i32;
+                    add_field(&mut tm.year, val)?;
+                    add_field(&mut tm.mon, (fval * MONTHS_PER_YEAR as f64) as i32)?;
                 }
                 b'M' => {
-                    tm.mon += val;
+                    add_field(&mut tm.mon, val)?;
                     adjust_fract_days(fval, tm, fsec, DAYS_PER_MONTH)?;
                 }
                 b'W' => {
-                    tm.mday += val * 7;
+                    add_scaled_field(&mut tm.mday, val, 7)?;
                     adjust_fract_days(fval, tm, fsec, 7)?;
                 }
                 b'D' => {
-                    tm.mday += val;
+                    add_field(&mut tm.mday, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
                 b'T' | b'\0' => {
@@ -3157,9 +3178,9 @@ pub fn decode_iso8601_interval(
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
-                        tm.year += val / 10000;
-                        tm.mon += (val / 100) % 100;
-                        tm.mday += val % 100;
+                        add_field(&mut tm.year, val / 10000)?;
+                        add_field(&mut tm.mon, (val / 100) % 100)?;
+                        add_field(&mut tm.mday, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                         if unit == b'\0' {
                             return Ok(());
@@ -3201,24 +3222,24 @@ pub fn decode_iso8601_interval(
             match unit        /* after T: H M S */
             {
                 b'H' => {
-                    tm.hour += val;
+                    add_field(&mut tm.hour, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_HOUR)?;
                 }
                 b'M' => {
-                    tm.min += val;
+                    add_field(&mut tm.min, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_MINUTE)?;
                 }
                 b'S' => {
-                    tm.sec += val;
+                    add_field(&mut tm.sec, val)?;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
-                        tm.hour += val / 10000;
-                        tm.min += (val / 100) % 100;
-                        tm.sec += val % 100;
+                        add_field(&mut tm.hour, val / 10000)?;
+                        add_field(&mut tm.min, (val / 100) % 100)?;
+                        add_field(&mut tm.sec, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, 1)?;
                         return Ok(());
                     }
-- 
2.43.0


From bc0c4b6c49c1dc41e85ea73dae6e119de04dfcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 24/44] fix: labelled hours and minutes of a timestamp are
 combined in 64 bits

---
 src/common.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 3d1d22d..cabe316 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -388,9 +388,8 @@ impl PgTime {
 
 #[inline]
 fn time2t(hour: i32, min: i32, sec: i32, fsec: i64) -> i64 {
-    (((((hour * MINS_PER_HOUR) + min) * SECS_PER_MINUTE) as i64 + sec as i64)
-        * USECS_PER_SEC as i64)
-        + fsec
+    let mins = hour as i64 * MINS_PER_HOUR as i64 + min as i64;
+    (mins * SECS_PER_MINUTE as i64 + sec as i64) * USECS_PER_SEC as i64 + fsec
 }
 
 #[inline]
-- 
2.43.0


From cf5e759db441d12e13fae2d404834540322b2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 25/44] fix: a day of year in an unrepresentable year is
 refused instead of overflowing

---
 src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index cabe316..5d52e2e 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -320,6 +320,10 @@ impl PgTime {
 
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
+            // Prevent overflow in Julian-day routines.
+            if !is_valid_julian(self.year, 1, 1) {
+                return Err(DateTimeError::overflow());
+            }
             let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
             self.set_ymd(y, m, d);
         }
-- 
2.43.0


From 3d73798d3619bde6c11e0f1030a8568f31bc4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 26/44] fix: times beyond 24:00:00 spelled with 60 seconds are
 refused

---
 src/parse.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 963634a..52d976a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2423,6 +2423,16 @@ pub fn decode_time_only(
         return Err(DateTimeError::overflow());
     }
 
+    // Seconds may be 60, so check separately that the total does not exceed
+    // 24:00:00.
+    if tm.hour == HOURS_PER_DAY - 1
+        && tm.min == MINS_PER_HOUR - 1
+        && tm.sec == SECS_PER_MINUTE
+        && ctx.f_sec > 0
+    {
+        return Err(DateTimeError::overflow());
+    }
+
     // To do for time zone
     Ok(ctx.f_sec)
 }
-- 
2.43.0


From cdb944be5d1783d5d8bdbbe021024f1780f74e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 27/44] fix: time text without any time of day is refused

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 52d976a..88d4eca 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1185,7 +1185,7 @@ fn check_mask_set(f_mask: i32, t_mask: i32) -> Result<(), DateTimeError> {
 fn check_mask_not_empty(f_mask: i32) -> Result<(), DateTimeError> {
     if f_mask == 0 {
         Err(DateTimeError::invalid(
-            "field mask of interval is empty".to_string(),
+            "field mask is empty".to_string(),
         ))
     } else {
         Ok(())
@@ -2397,6 +2397,9 @@ pub fn decode_time_only(
         ctx.f_mask |= ctx.t_mask;
     }
 
+    // ensure that at least one time field has been found.
+    check_mask_not_empty(ctx.f_mask & DTK_TIME_M)?;
+
     // do final checking/adjustment of Y/M/D fields.
     tm.validate_date(ctx.f_mask, ctx.is_julian, ctx.is2digits, ctx.bc)?;
     // handle AM/PM.
-- 
2.43.0


From fef43d56ecfe3a3bedc46962928bfe24f3772310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 28/44] fix: date text with only a time of day is refused

---
 src/date.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 9ee1088..b1b8858 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -209,7 +209,7 @@ impl Date {
         let field_num =
             parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
-        let (_, d_type, _) = decode_date_time(
+        let (time_only, d_type, _) = decode_date_time(
             &fields[0..field_num],
             &f_types[0..field_num],
             &mut tm,
@@ -217,6 +217,12 @@ impl Date {
             date_order,
         )?;
 
+        if time_only != 0 {
+            return Err(DateTimeError::invalid(
+                "date string has no date".to_string(),
+            ));
+        }
+
         match d_type {
             TokenField::Date => {}
             //DTK_EPOCH => todo!(), // Timezone relate
-- 
2.43.0


From 5791ee6783b2204995836859b8b5e6a59cf09337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 29/44] fix: ignored punctuation does not swallow a following
 sign or decimal point

---
 src/parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 88d4eca..d0a6e21 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -391,9 +391,9 @@ where
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char.is_ascii_punctuation() {
-                    let (_field_str, s) =
-                        eat_special_chars(current_str, |i| i.is_ascii_punctuation());
-                    current_str = s;
+                    // Ignore other punctuation but use it as a delimiter. A sign
+                    // or decimal point after it still belongs to the next token.
+                    current_str = &current_str[1..];
                     continue;
                 } else {
                     return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From e648ff5905390e365f0b9504f00586fd81eb6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 30/44] fix: tokens which begin with letters are lower-cased as
 a whole

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index d0a6e21..19ca3c4 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -234,7 +234,8 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
                 || i == b':'
                 || i.is_ascii_alphanumeric()
         });
-        buf_pos = append_token(current_buf, buf_pos, field_str)?;
+        let field_str = field_str.to_ascii_lowercase();
+        buf_pos = append_token(current_buf, buf_pos, field_str.as_ref())?;
         s
     } else {
         s
-- 
2.43.0


From 7e4cca86855a8279250687fd283683fd484c078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 31/44] fix: ISO 8601 intervals with negative fields are read

---
 src/parse.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 19ca3c4..aa3f1ea 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2940,6 +2940,7 @@ pub fn decode_interval(
 #[inline]
 fn parse_iso8601_number<'a, 'b, 'c>(
     s: &'a [u8],
+    allow_sign: bool,
     ipart: &'b mut i32,
     fpart: &'c mut f64,
 ) -> Result<&'a [u8], DateTimeError> {
@@ -2950,7 +2951,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
             ));
         }
         Some(c) => {
-            if !(c.is_ascii_digit() || c == &b'c' || c == &b'.') {
+            if !(c.is_ascii_digit() || (allow_sign && c == &b'-') || c == &b'.') {
                 return Err(DateTimeError::invalid(format!(
                     "str: {:?} is invalid for iso number",
                     s
@@ -2960,7 +2961,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     }
 
     let (val, end) = str2d(s)?;
-    if end.len() == s.len() {
+    if !s[..s.len() - end.len()].iter().any(|c| c.is_ascii_digit()) {
         return Err(DateTimeError::invalid(format!("str: {:?} is not digit", s)));
     }
     // watch out for overflow */
@@ -2971,7 +2972,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     if val >= 0.0 {
         *ipart = val.floor() as i32;
     } else {
-        *ipart = -val.floor() as i32;
+        *ipart = -(-val).floor() as i32;
     }
     *fpart = val - *ipart as f64;
     Ok(end)
@@ -3022,7 +3023,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
         return Ok((false, s));
     }
 
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_number(s, false, val, fval)?;
     add_field(&mut tm.mon, *val)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
@@ -3043,7 +3044,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_number(s, false, val, fval)?;
     add_field(&mut tm.mday, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
@@ -3083,7 +3084,7 @@ fn decode_time_part_left(
         return Ok(());
     }
 
-    let mut s = parse_iso8601_number(s, val, fval)?;
+    let mut s = parse_iso8601_number(s, false, val, fval)?;
     add_field(&mut tm.min, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
@@ -3098,7 +3099,7 @@ fn decode_time_part_left(
         }
     }
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_number(s, false, val, fval)?;
     add_field(&mut tm.sec, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
@@ -3157,7 +3158,7 @@ pub fn decode_iso8601_interval(
         }
 
         let field_start = s;
-        s = parse_iso8601_number(s, &mut val, &mut fval)?;
+        s = parse_iso8601_number(s, true, &mut val, &mut fval)?;
 
         // Note: we could step off the end of the string here.  Code below
         //must* exit the loop if unit == '\0'.
@@ -3168,6 +3169,13 @@ pub fn decode_iso8601_interval(
         } else {
             b'\0'
         };
+        // Signs are for the format with designators, not for the alternative format.
+        if field_start[0] == b'-' && matches!(unit, b'\0' | b'-' | b':' | b'T') {
+            return Err(DateTimeError::invalid(format!(
+                "str: {:?} has a sign in alternative iso format",
+                field_start
+            )));
+        }
         if datepart {
             match unit        // before T: Y M W D.
             {
-- 
2.43.0


From 9373c6e19db3a0cbaf022f8b4dbbf0a8490d8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 32/44] fix: timestamps rounded past the last representable one
 are refused

---
 src/timestamp.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 84eb059..b56b1d9 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -229,17 +229,21 @@ impl Timestamp {
                 )));
             }
 
-            if self.value() >= 0 {
-                let v = ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
+            let v = if self.value() >= 0 {
+                ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
-                    * TIMESTAMP_SCALES[typmod as usize];
-                Ok(Timestamp::new(v))
+                    * TIMESTAMP_SCALES[typmod as usize]
             } else {
-                let v = -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
+                -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
-                    * TIMESTAMP_SCALES[typmod as usize]);
-                Ok(Timestamp::new(v))
+                    * TIMESTAMP_SCALES[typmod as usize])
+            };
+
+            // rounding up may leave the valid range.
+            if !is_valid_timestamp(v) {
+                return Err(DateTimeError::overflow());
             }
+            Ok(Timestamp::new(v))
         } else {
             Ok(self)
         }
-- 
2.43.0


From f4b9d942ab5d15edcf56dfc2544b85024758ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 33/44] fix: justify_interval does not wrap its intermediate
 month count

---
 src/interval.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 774db64..0f98e8c 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -268,17 +268,17 @@ impl Interval {
         let (time, whole_day) = time_modulo(result.time, USECS_PER_DAY);
         result.time = time;
         let days = result.day as i64 + whole_day;
-        let whole_month = (days / DAYS_PER_MONTH as i64) as i32;
         result.day = (days % DAYS_PER_MONTH as i64) as i32;
-        result.month = result.month.wrapping_add(whole_month); // could overflow.
+        let mut month = result.month as i64 + days / DAYS_PER_MONTH as i64;
 
-        if result.month > 0 && (result.day < 0 || (result.day == 0 && result.time < 0)) {
+        if month > 0 && (result.day < 0 || (result.day == 0 && result.time < 0)) {
             result.day += DAYS_PER_MONTH;
-            result.month -= 1;
-        } else if result.month < 0 && (result.day > 0 || (result.day == 0 && result.time > 0)) {
+            month -= 1;
+        } else if month < 0 && (result.day > 0 || (result.day == 0 && result.time > 0)) {
             result.day -= DAYS_PER_MONTH;
-            result.month += 1;
+            month += 1;
         }
+        result.month = month as i32; // could overflow.
 
         if result.day > 0 && result.time < 0 {
             result.time += USECS_PER_DAY;
-- 
2.43.0


From 5d38c8e36ba46e0aebf362235176402369da48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 34/44] fix: a decimal point without digits is not read as a
 fraction

---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index aa3f1ea..76dec45 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -453,6 +453,11 @@ fn str2d(s: &[u8]) -> Result<(f64, &[u8]), DateTimeError> {
     let (fractional, s) = match s.first() {
         Some(b'.') => {
             let (fractional, s) = eat_digits(&s[1..]);
+            if integral.is_empty() && fractional.is_empty() {
+                return Err(DateTimeError::invalid(
+                    "decimal point without any digit".to_string(),
+                ));
+            }
             (fractional, s)
         }
         _ => (b"".as_ref(), s),
-- 
2.43.0


From 09b2501b0809c0b6e92da34f1276ae1c5f52bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 35/44] fix: labelled and run-together times of day are range
 checked in timestamps

---
 src/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 76dec45..eb26e5d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1896,6 +1896,15 @@ pub fn decode_date_time(
         tm.hour += HOURS_PER_DAY / 2;
     }
 
+    // labelled and run-together times have not been range checked yet.
+    if tm.hour > HOURS_PER_DAY
+        || tm.min > MINS_PER_HOUR - 1
+        || tm.sec > SECS_PER_MINUTE
+        || (tm.hour == HOURS_PER_DAY && (tm.min > 0 || tm.sec > 0 || ctx.f_sec > 0))
+    {
+        return Err(DateTimeError::overflow());
+    }
+
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
         if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
-- 
2.43.0


From 6d73e52b26487bdbfa8c686abf90966855d428a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 36/44] fix: day 366 of a common year is refused

---
 src/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 5d52e2e..16f8cf6 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -324,8 +324,13 @@ impl PgTime {
             if !is_valid_julian(self.year, 1, 1) {
                 return Err(DateTimeError::overflow());
             }
-            let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
+            let year = self.year;
+            let (y, m, d) = julian2date(date2julian(year, 1, 1) + self.yday - 1);
             self.set_ymd(y, m, d);
+            // day 366 exists in leap years only.
+            if self.year != year {
+                return Err(DateTimeError::overflow());
+            }
         }
 
         // check for valid month.
-- 
2.43.0


From f2c6205e463b9de29267662a4ec05f647b6d9009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 37/44] fix: a timestamp with a time and only part of a date is
 refused

---
 src/timestamp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index b56b1d9..960e912 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -174,7 +174,7 @@ impl Timestamp {
 
         let nf = parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
-        let (_, d_type, fsec) = decode_date_time(
+        let (time_only, d_type, fsec) = decode_date_time(
             &fields[0..nf],
             &f_types[0..nf],
             &mut tm,
@@ -182,6 +182,12 @@ impl Timestamp {
             date_order,
         )?;
 
+        if time_only != 0 && (tm.year != 0 || tm.mon != 0 || tm.mday != 0) {
+            return Err(DateTimeError::invalid(
+                "timestamp string has only part of a date".to_string(),
+            ));
+        }
+
         let result = Self::from_pgtime_with_type(d_type, &tm, fsec)?.adjust_by_typmod(type_mod)?;
         Ok(result)
     }
-- 
2.43.0


From 8abba5b9b2b51d3acc0afaea5fc2d4d3a825b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 38/44] fix: a day of year at the end of 4714 BC is read, as
 its other spellings are

---
 src/common.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 16f8cf6..6b1d616 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -321,11 +321,15 @@ impl PgTime {
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
             // Prevent overflow in Julian-day routines.
-            if !is_valid_julian(self.year, 1, 1) {
+            if !is_valid_julian(self.year, MONTHS_PER_YEAR, 31) {
                 return Err(DateTimeError::overflow());
             }
             let year = self.year;
-            let (y, m, d) = julian2date(date2julian(year, 1, 1) + self.yday - 1);
+            let julian = date2julian(year, 1, 1) + self.yday - 1;
+            if julian < 0 {
+                return Err(DateTimeError::overflow());
+            }
+            let (y, m, d) = julian2date(julian);
             self.set_ymd(y, m, d);
             // day 366 exists in leap years only.
             if self.year != year {
-- 
2.43.0


From defebe2b9dfb364e6320a7ebd487a412b3922b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:36 +0000
Subject: [PATCH 39/44] fix: dates and times read back from self-describing
 binary formats

---
 src/serde.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 880a96d..6b3fb67 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -15,9 +15,10 @@
 //! Impl the `serde::Serialize` and `serde::Deserialize` traits.
 
 use crate::{Date, DateOrder, DateStyle, Interval, IntervalStyle, Time, Timestamp};
-use serde::de::{MapAccess, SeqAccess, Visitor};
+use serde::de::{MapAccess, SeqAccess, Unexpected, Visitor};
 use serde::ser::SerializeStruct;
 use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
+use std::convert::TryFrom;
 use std::fmt;
 
 impl Serialize for Date {
@@ -61,6 +62,28 @@ impl<'de> Deserialize<'de> for Date {
                 Ok(Date::new(v))
             }
 
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                match i32::try_from(v) {
+                    Ok(v) => self.visit_i32(v),
+                    Err(_) => Err(E::invalid_value(Unexpected::Signed(v), &self)),
+                }
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                match i32::try_from(v) {
+                    Ok(v) => self.visit_i32(v),
+                    Err(_) => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                }
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -117,6 +140,17 @@ impl<'de> Deserialize<'de> for Time {
                 Ok(Time::from(v))
             }
 
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                match i64::try_from(v) {
+                    Ok(v) => self.visit_i64(v),
+                    Err(_) => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                }
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -175,6 +209,17 @@ impl<'de> Deserialize<'de> for Timestamp {
                 Ok(Timestamp::new(v))
             }
 
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                match i64::try_from(v) {
+                    Ok(v) => self.visit_i64(v),
+                    Err(_) => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                }
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
-- 
2.43.0


From b508687e85c075ee785da715ca07e1bc93d2d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:18 +0000
Subject: [PATCH 40/44] fix: an interval reads back when its field names are
 packed as bytes or indices

---
 src/serde.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/serde.rs b/src/serde.rs
index 6b3fb67..fe962d0 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -300,6 +300,38 @@ impl<'de> Deserialize<'de> for Interval {
                             _ => Err(de::Error::unknown_field(v, FIELDS)),
                         }
                     }
+
+                    #[inline]
+                    fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E>
+                    where
+                        E: de::Error,
+                    {
+                        match v {
+                            b"time" => Ok(Field::Time),
+                            b"day" => Ok(Field::Day),
+                            b"month" => Ok(Field::Month),
+                            _ => Err(de::Error::unknown_field(
+                                &String::from_utf8_lossy(v),
+                                FIELDS,
+                            )),
+                        }
+                    }
+
+                    #[inline]
+                    fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                    where
+                        E: de::Error,
+                    {
+                        match v {
+                            0 => Ok(Field::Time),
+                            1 => Ok(Field::Day),
+                            2 => Ok(Field::Month),
+                            _ => Err(E::invalid_value(
+                                Unexpected::Unsigned(v),
+                                &"field index 0 <= i < 3",
+                            )),
+                        }
+                    }
                 }
 
                 deserializer.deserialize_identifier(FieldVisitor)
-- 
2.43.0


From 78771c8f52021388882ab6222a2732dd02952e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:50 +0000
Subject: [PATCH 41/44] fix: a fraction of a decade, century or millennium
 gives its exact months

---
 src/parse.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index eb26e5d..120a3b7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2525,6 +2525,14 @@ fn adjust_fract_days(
     Ok(())
 }
 
+/// Whole months in a fraction of a unit of `scale` months. A fraction has at
+/// most seven digits, so it is a whole number of ten-millionths.
+#[inline]
+fn fract_months(frac: f64, scale: i32) -> i32 {
+    let frac = (frac * 10_000_000_f64).round() as i64;
+    (frac * scale as i64 / 10_000_000) as i32
+}
+
 fn decode_interval_number_field(
     field: &[u8],
     tm: &mut PgTime,
@@ -2676,7 +2684,7 @@ fn decode_interval_number_field(
         TokenField::Decade => {
             add_scaled_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32)?;
+                add_field(&mut tm.mon, fract_months(*f_val, MONTHS_PER_YEAR * 10))?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
@@ -2684,7 +2692,7 @@ fn decode_interval_number_field(
         TokenField::Century => {
             add_scaled_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32)?;
+                add_field(&mut tm.mon, fract_months(*f_val, MONTHS_PER_YEAR * 100))?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
@@ -2692,7 +2700,7 @@ fn decode_interval_number_field(
         TokenField::Millennium => {
             add_scaled_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32)?;
+                add_field(&mut tm.mon, fract_months(*f_val, MONTHS_PER_YEAR * 1000))?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
-- 
2.43.0


From e19b81b593ac57254d0d6899a14ebafec7064dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:51 +0000
Subject: [PATCH 42/44] fix: a fractional ISO 8601 month that is whole days
 reads as those days

---
 src/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 120a3b7..01b6bbe 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2513,6 +2513,9 @@ fn adjust_fract_days(
         return Ok(());
     }
 
+    // A fraction has at most seven digits. One taken off a whole part also has
+    // the rounding error of that, and may end just below a whole day.
+    let frac = (frac * 10_000_000_f64).round() / 10_000_000_f64;
     let mut frac = frac * scale as f64;
     let extra_days = frac as i32;
     let ret = tm.mday.checked_add(extra_days);
-- 
2.43.0


From c5ac6e1f39e178ee46741247d4d16939f0cf4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:52 +0000
Subject: [PATCH 43/44] fix: an infinite timestamp minus an interval without a
 negation stays infinite

---
 src/timestamp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 960e912..95cc596 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -335,6 +335,11 @@ impl Timestamp {
     /// `Timestamp` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Result<Timestamp, DateTimeError> {
+        // An infinity stays, also when the interval has no negation.
+        if self.is_infinite() {
+            return Ok(self);
+        }
+
         let neg_span = span.negate()?;
         self.add_interval(neg_span)
     }
-- 
2.43.0


From 4b5a94dc2eba5da9c45e2588a954a8bf627b06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:53 +0000
Subject: [PATCH 44/44] fix: a timestamp minus the least interval time is exact

---
 src/timestamp.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 95cc596..64f2c88 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -340,8 +340,18 @@ impl Timestamp {
             return Ok(self);
         }
 
-        let neg_span = span.negate()?;
-        self.add_interval(neg_span)
+        // The time part is subtracted as it is: its least value has no negation.
+        let months_and_days = Interval::from_mdt(span.month(), span.day(), 0).negate()?;
+        let timestamp = self
+            .add_interval(months_and_days)?
+            .value()
+            .checked_sub(span.time())
+            .ok_or_else(DateTimeError::overflow)?;
+        if !is_valid_timestamp(timestamp) {
+            return Err(DateTimeError::overflow());
+        }
+
+        Ok(Timestamp::new(timestamp))
     }
 
     /// `Timestamp` subtracts `Date`.
-- 
2.43.0

