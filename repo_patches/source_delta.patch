From 5b6a5cf28dd57cf8324a102f16f86cdb110b6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 1/6] fix: modified rolling conventions compare with the month
 of the shifted date

ModifiedFollowing and ModifiedPreceding compared the month of the rolled date
with that of the date before the period was added, and ignored the year.
---
 crates/qlab-time/src/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 81999ba..3e9766a 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -273,8 +273,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedFollowing => {
+                let shifted = self.checked_add(period)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == self.month() {
+                if (ret.year(), ret.month()) == (shifted.year(), shifted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -288,8 +289,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedPreceding => {
+                let shifted = self.checked_add(period)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == self.month() {
+                if (ret.year(), ret.month()) == (shifted.year(), shifted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From 9599fe4a8f165970815401651a29a37542146317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 2/6] fix: report an unrepresentable year basis as
 CastNumberError

Act360 and Act365 panicked when the number type cannot represent 360 or 365.
---
 crates/qlab-time/src/day_count/act_360.rs | 3 ++-
 crates/qlab-time/src/day_count/act_365.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/day_count/act_360.rs b/crates/qlab-time/src/day_count/act_360.rs
index 6ec187a..e8146f0 100644
--- a/crates/qlab-time/src/day_count/act_360.rs
+++ b/crates/qlab-time/src/day_count/act_360.rs
@@ -10,7 +10,8 @@ impl DayCount for Act360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = V::from_i64(date2 - date1)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{}", date2 - date1).into()))?;
-        let denomination = V::from_i32(360).unwrap();
+        let denomination =
+            V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
 
         Ok(date_diff.div(denomination))
     }
diff --git a/crates/qlab-time/src/day_count/act_365.rs b/crates/qlab-time/src/day_count/act_365.rs
index 3222f58..0eb3f58 100644
--- a/crates/qlab-time/src/day_count/act_365.rs
+++ b/crates/qlab-time/src/day_count/act_365.rs
@@ -10,7 +10,8 @@ impl DayCount for Act365 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = V::from_i64(date2 - date1)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{}", date2 - date1).into()))?;
-        let denomination = V::from_i32(365).unwrap();
+        let denomination =
+            V::from_i32(365).ok_or_else(|| ComputeError::CastNumberError("365".into()))?;
 
         Ok(date_diff.div(denomination))
     }
-- 
2.43.0


From 01d818fe6b186eaf7db7ebb645d47614a74148cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 3/6] fix: 30/360 day difference overflowed when the month
 decreases

The difference of months was computed in u32, so that every interval whose
second month number is below the first one panicked.
---
 crates/qlab-time/src/day_count/thirty_360.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/qlab-time/src/day_count/thirty_360.rs b/crates/qlab-time/src/day_count/thirty_360.rs
index 690c7b0..4b4859d 100644
--- a/crates/qlab-time/src/day_count/thirty_360.rs
+++ b/crates/qlab-time/src/day_count/thirty_360.rs
@@ -8,26 +8,26 @@ use qlab_math::value::Value;
 pub struct Thirty360;
 
 impl Thirty360 {
-    #[allow(clippy::cast_sign_loss)] // validation deals with it
-    fn date_diff(date1: Date, date2: Date) -> QLabResult<u32> {
+    #[allow(clippy::cast_possible_wrap)] // months and days are small
+    fn date_diff(date1: Date, date2: Date) -> QLabResult<i32> {
         if date1 > date2 {
             return Err(
                 InvalidInput(format!("date1: {date1} must precede date2: {date2}").into()).into(),
             );
         }
-        let d1 = date1.day().min(30);
-        let d2 = date2.day().min(30);
-        Ok(
-            360 * (date2.year() - date1.year()) as u32 + 30 * (date2.month() - date1.month()) + d2
-                - d1,
-        )
+        let d1 = date1.day().min(30) as i32;
+        let d2 = date2.day().min(30) as i32;
+        Ok(360 * (date2.year() - date1.year())
+            + 30 * (date2.month() as i32 - date1.month() as i32)
+            + d2
+            - d1)
     }
 }
 
 impl DayCount for Thirty360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = Self::date_diff(date1, date2)?;
-        let date_diff = V::from_u32(date_diff)
+        let date_diff = V::from_i32(date_diff)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{date_diff}").into()))?;
         let denomination =
             V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
-- 
2.43.0


From d9abf69691632e9b31214436d1fb2eabef647027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 4/6] fix: refuse a bond whose first coupon date is after the
 penultimate one

Bond::new indexed the empty list of regular coupons and panicked.
---
 crates/qlab-instrument/src/bond.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 79f8fa2..3bf933d 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -113,14 +113,15 @@ impl<V: Value> Bond<V> {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
                     / V::from_i64(first_coupon_date - first_prior)?;
-                bond_cash_flows[0].payment_amount *= coupon_fraction;
+                bond_cash_flows.first_mut()?.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
                 let second_prior =
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows[0].payment_amount += coupon_fraction * regular_coupon_payment;
+                bond_cash_flows.first_mut()?.payment_amount +=
+                    coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From ca12839be2e9e314d8e9fb7603de17cd1ee6cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 5/6] fix: adding an extreme number of years overflowed

checked_add_years computed the year without an overflow check.
---
 crates/qlab-time/src/date.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 3e9766a..bda9054 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -70,12 +70,12 @@ impl Date {
     /// `None` if the resulting date is not valid.
     #[must_use]
     pub fn checked_add_years(self, rhs_years: Years) -> Option<Self> {
-        self.0.with_year(self.0.year() + rhs_years.0).map_or_else(
+        let year = self.0.year().checked_add(rhs_years.0)?;
+        self.0.with_year(year).map_or_else(
             || {
-                self.0.with_day(28).and_then(|date| {
-                    date.with_year(self.0.year() + rhs_years.0)
-                        .map(std::convert::Into::into)
-                })
+                self.0
+                    .with_day(28)
+                    .and_then(|date| date.with_year(year).map(std::convert::Into::into))
             },
             |date| Some(date.into()),
         )
-- 
2.43.0


From 93374b29630de99f33f746301864b66b27101643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 6/6] fix: business_days_between counted the first day exactly
 when it was excluded

include_first was applied the wrong way round, and an interval of a single day
panicked with the default flags.
---
 third-parties/calendar/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 641192d..c730ef3 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -212,12 +212,11 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(include_first))))
-        .num_days();
-        for date in (from + Duration::days(i64::from(include_first)))
+        let day_diff = (to - from).num_days() + i64::from(include_last) - i64::from(!include_first);
+        for date in from
             .iter_days()
-            .take(usize::try_from(day_diff).unwrap())
+            .skip(usize::from(!include_first))
+            .take(usize::try_from(day_diff.max(0)).unwrap())
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0

