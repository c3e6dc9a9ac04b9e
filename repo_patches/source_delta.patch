From c3bac443b06985de8f0214e446d82df4f272786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 01/21] fix: return None instead of overflowing when adding
 years to a date

---
 crates/qlab-time/src/date.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 81999ba..3043718 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -70,12 +70,12 @@ impl Date {
     /// `None` if the resulting date is not valid.
     #[must_use]
     pub fn checked_add_years(self, rhs_years: Years) -> Option<Self> {
-        self.0.with_year(self.0.year() + rhs_years.0).map_or_else(
+        let year = self.0.year().checked_add(rhs_years.0)?;
+        self.0.with_year(year).map_or_else(
             || {
-                self.0.with_day(28).and_then(|date| {
-                    date.with_year(self.0.year() + rhs_years.0)
-                        .map(std::convert::Into::into)
-                })
+                self.0
+                    .with_day(28)
+                    .and_then(|date| date.with_year(year).map(std::convert::Into::into))
             },
             |date| Some(date.into()),
         )
-- 
2.43.0


From c17a78559b1b2eabc0f7299e54edfe8f8f4927cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 02/21] fix: 30/360 day count no longer underflows when the end
 month precedes the start month

---
 crates/qlab-time/src/day_count/thirty_360.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/qlab-time/src/day_count/thirty_360.rs b/crates/qlab-time/src/day_count/thirty_360.rs
index 690c7b0..d2d2e62 100644
--- a/crates/qlab-time/src/day_count/thirty_360.rs
+++ b/crates/qlab-time/src/day_count/thirty_360.rs
@@ -8,26 +8,24 @@ use qlab_math::value::Value;
 pub struct Thirty360;
 
 impl Thirty360 {
-    #[allow(clippy::cast_sign_loss)] // validation deals with it
-    fn date_diff(date1: Date, date2: Date) -> QLabResult<u32> {
+    #[allow(clippy::cast_possible_wrap)] // months and days are at most 31
+    fn date_diff(date1: Date, date2: Date) -> QLabResult<i32> {
         if date1 > date2 {
             return Err(
                 InvalidInput(format!("date1: {date1} must precede date2: {date2}").into()).into(),
             );
         }
-        let d1 = date1.day().min(30);
-        let d2 = date2.day().min(30);
-        Ok(
-            360 * (date2.year() - date1.year()) as u32 + 30 * (date2.month() - date1.month()) + d2
-                - d1,
-        )
+        let d1 = date1.day().min(30) as i32;
+        let d2 = date2.day().min(30) as i32;
+        let months = date2.month() as i32 - date1.month() as i32;
+        Ok(360 * (date2.year() - date1.year()) + 30 * months + d2 - d1)
     }
 }
 
 impl DayCount for Thirty360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = Self::date_diff(date1, date2)?;
-        let date_diff = V::from_u32(date_diff)
+        let date_diff = V::from_i32(date_diff)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{date_diff}").into()))?;
         let denomination =
             V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
-- 
2.43.0


From cb8fdec017340db9c8a8b4c9197b8c3ac1ec8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 03/21] fix: modified rolling compares with the month of the
 unadjusted date

---
 crates/qlab-time/src/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 3043718..b084909 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -273,8 +273,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedFollowing => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == self.month() {
+                if ret.month() == unadjusted.month() {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -288,8 +289,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedPreceding => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == self.month() {
+                if ret.month() == unadjusted.month() {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From 16e8dc14df1023425384b7388dfe52f7c63caf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 04/21] fix: natural cubic spline of three points uses both
 boundary values

---
 .../src/interpolation/spline/natural_cubic.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 093321f..e72ed49 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -55,13 +55,14 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
                 b_upper_diagonals.push(h_next / V::from_i8(6).unwrap());
                 c_upper_diagonals.push(h_next.recip());
             }
+            let mut boundary = V::zero();
             if i == 1 {
-                m.push(raw_points[i - 1].1 / h);
-            } else if i + 2 == raw_points.len() {
-                m.push(raw_points[i + 1].1 / h_next);
-            } else {
-                m.push(V::zero());
+                boundary += raw_points[i - 1].1 / h;
             }
+            if i + 2 == raw_points.len() {
+                boundary += raw_points[i + 1].1 / h_next;
+            }
+            m.push(boundary);
             b_diagonals.push((h + h_next) / V::from_i8(3).unwrap());
             c_diagonals.push(-(h.recip() + h_next.recip()));
         }
-- 
2.43.0


From 8e51d6f58060a261605233fe5ad16266d53cad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 05/21] fix: back substitution of the Thomas algorithm covers
 every row

---
 crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
index 81b613b..5803b1b 100644
--- a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
+++ b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
@@ -95,7 +95,7 @@ fn solve_with_thomas_algorithm_unchecked<V: Value>(
     }
 
     /* loop from X - 2 to 0 inclusive */
-    for ix in (0..matrix_size - 2).rev() {
+    for ix in (0..matrix_size - 1).rev() {
         let temp = scratch[ix] * x[ix + 1];
         x[ix] -= temp;
     }
-- 
2.43.0


From 0e2dc5bac75bc774d7c49da376f02849c3ea9573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 06/21] fix: last Catmull-Rom segment passes through the last
 point

---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 8f3202a..7ed1362 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -111,7 +111,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 Matrix4::new(
                     -alpha,
                     V::one(),
-                    -V::one() * alpha,
+                    alpha - V::one(),
                     V::zero(),
                     V::from_i8(2).unwrap() * alpha,
                     V::from_i8(-2).unwrap(),
-- 
2.43.0


From 68804c2c77624a8e7c9f9ca329d2387d827d2eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 07/21] fix: interior Catmull-Rom segments use the width of the
 preceding interval

---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 7ed1362..10d6e4b 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -129,7 +129,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 .mul(Vector4::new(prev_point.y, point.y, next_point.y, V::zero()))
             } else {
                 let prev_point = &self.points[pos - 1];
-                let prev_h = next_point.x - prev_point.x;
+                let prev_h = point.x - prev_point.x;
                 let alpha = h / (h + prev_h);
                 let next_next_point = &self.points[pos + 2];
                 let next_h = next_next_point.x - next_point.x;
-- 
2.43.0


From 3e5545a43928522f5b02432e82bd0975ce84184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 08/21] fix: Hermite spline rejects too few points as
 documented instead of panicking

---
 crates/qlab-math/src/interpolation/spline/hermite.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 035818d..e63c9d3 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -31,6 +31,11 @@ impl<V: Value> Hermite<V> {
     /// # Panics
     /// Will panic if `V` fail to cast constants.
     pub fn try_new(raw_points: &[(V, V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 3 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
         let mut temp = raw_points[0].0;
 
         let mut points = Vec::new();
-- 
2.43.0


From 1be3292555ba526d977a8adca8c9caae29c494c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 09/21] fix: interpolating a single point is an error instead
 of a panic

---
 crates/qlab-math/src/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation.rs b/crates/qlab-math/src/interpolation.rs
index 548da9e..dd3b727 100644
--- a/crates/qlab-math/src/interpolation.rs
+++ b/crates/qlab-math/src/interpolation.rs
@@ -80,7 +80,7 @@ fn find_index_at_left_boundary<V: PartialOrd>(
     points: &[impl X<V>],
     x: V,
 ) -> Result<usize, InterpolationError<V>> {
-    if points.is_empty() {
+    if points.len() < 2 {
         return Err(InterpolationError::InsufficientPointsError(points.len()));
     }
     let pos = points.partition_point(|point| *point.x() < x);
-- 
2.43.0


From a9a265fd465cd9dcd25a662a9cb319a489b550c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 10/21] fix: linear interpolation rejects unsorted points

---
 crates/qlab-math/src/interpolation/linear.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index 3f24735..e7e2e68 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -50,6 +50,9 @@ impl<V: Value> Interpolator for Linear<V> {
     fn try_fit(mut self, raw_points: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
         let mut points = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
+            if points.last().is_some_and(|last: &Point2D<V>| x < last.x) {
+                return Err(InterpolationError::PointOrderError);
+            }
             points.push(Point2D { x, y });
         }
         self.points = points;
-- 
2.43.0


From 4dc27022401c8ec085525b41a2789daa59c7e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 11/21] fix: a bond with an irregular first period and no
 regular coupon is refused instead of panicking

---
 crates/qlab-instrument/src/bond.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 79f8fa2..3bf933d 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -113,14 +113,15 @@ impl<V: Value> Bond<V> {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
                     / V::from_i64(first_coupon_date - first_prior)?;
-                bond_cash_flows[0].payment_amount *= coupon_fraction;
+                bond_cash_flows.first_mut()?.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
                 let second_prior =
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows[0].payment_amount += coupon_fraction * regular_coupon_payment;
+                bond_cash_flows.first_mut()?.payment_amount +=
+                    coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From 6f974ceaa2a6dfc15a3a1d3532a9d0285780d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 12/21] fix: month-end coupon dates do not drift after a short
 month

---
 crates/qlab-instrument/src/bond.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 3bf933d..60e7231 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -68,6 +68,7 @@ impl<V: Value> Bond<V> {
         let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;
 
         let mut regular_due_date = first_coupon_date;
+        let mut months_from_first_coupon = 0_u32;
         let mut bond_cash_flows = Vec::new();
 
         while regular_due_date <= penultimate_coupon_date {
@@ -77,8 +78,9 @@ impl<V: Value> Bond<V> {
                 payment_date,
                 payment_amount: regular_coupon_payment,
             });
+            months_from_first_coupon += 12 / coupon_frequency as u32;
             regular_due_date =
-                regular_due_date.checked_add_months(months_in_regular_coupon_period)?;
+                first_coupon_date.checked_add_months(Months::new(months_from_first_coupon))?;
         }
         Self::first_cash_flow(
             issue_date,
-- 
2.43.0


From 5b0bdbcaec782f729e8a4a44ae3188cdc35a6fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 13/21] fix: business_days_between honours include_first and
 does not panic on an empty range

---
 third-parties/calendar/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 641192d..3903b37 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -212,12 +212,11 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(include_first))))
-        .num_days();
-        for date in (from + Duration::days(i64::from(include_first)))
+        let start = from + Duration::days(i64::from(!include_first));
+        let day_diff = ((to + Duration::days(i64::from(include_last))) - start).num_days();
+        for date in start
             .iter_days()
-            .take(usize::try_from(day_diff).unwrap())
+            .take(usize::try_from(day_diff).unwrap_or(0))
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From ebe2c3d83f629d8e3092b00bcccacd2d423bc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 14/21] fix: Ukrainian Easter follows the Orthodox calendar

---
 third-parties/calendar/src/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/ukraine.rs b/third-parties/calendar/src/ukraine.rs
index 8fbb269..18a2df8 100644
--- a/third-parties/calendar/src/ukraine.rs
+++ b/third-parties/calendar/src/ukraine.rs
@@ -10,7 +10,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 4a02aedfd254385b8cbc7e03610a0280c2ed7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 15/21] fix: Chinese New Year 2010 in Singapore is in February

---
 third-parties/calendar/src/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/singapore.rs b/third-parties/calendar/src/singapore.rs
index 2df67cc..d7a15da 100644
--- a/third-parties/calendar/src/singapore.rs
+++ b/third-parties/calendar/src/singapore.rs
@@ -30,7 +30,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 8cc087f7f33ce0f82a969008f0277f8788f465d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 16/21] fix: Taiwan 2010 Lunar New Year and Dragon Boat
 Festival are in February and June

---
 third-parties/calendar/src/taiwan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/taiwan.rs b/third-parties/calendar/src/taiwan.rs
index d7114f0..f13a45c 100644
--- a/third-parties/calendar/src/taiwan.rs
+++ b/third-parties/calendar/src/taiwan.rs
@@ -105,11 +105,11 @@ impl Calendar for Taiwan {
             return false;
         }
         // Year 2010
-        // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Lunar New Year 02-13 to 02-21
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From 5c4a82952737fa9130bfce4f20ca1497f1878dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 17/21] fix: equinoxes in Japan are computed for every year
 rather than listed for 2014 to 2028

---
 third-parties/calendar/src/japan.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/japan.rs b/third-parties/calendar/src/japan.rs
index e37e048..439dc64 100644
--- a/third-parties/calendar/src/japan.rs
+++ b/third-parties/calendar/src/japan.rs
@@ -10,16 +10,26 @@ pub struct Japan;
 impl Japan {
     fn vernal_equinox_day(&self, y: i32) -> u32 {
         match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
+            1900..=1979 => Self::equinox_day(208_357, y),
+            1980..=2099 => Self::equinox_day(208_431, y),
+            2100..=2150 => Self::equinox_day(218_510, y),
             _ => 20,
         }
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
         match y {
-            2020 | 2024 | 2028 => 22,
+            1900..=1979 => Self::equinox_day(232_588, y),
+            1980..=2099 => Self::equinox_day(232_488, y),
+            2100..=2150 => Self::equinox_day(242_488, y),
             _ => 23,
         }
     }
+    // Day of the equinox, from its day in 1980 in units of 0.0001 day.
+    fn equinox_day(day_in_1980: i32, y: i32) -> u32 {
+        let years = y - 1980;
+        let day = (100 * day_in_1980 + 242_194 * years).div_euclid(1_000_000);
+        (day - years.div_euclid(4)).unsigned_abs()
+    }
 }
 
 impl Calendar for Japan {
-- 
2.43.0


From d60f6d0b66be58266da0150066abe5e86ab32b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 18/21] fix: Israel keeps Independence Day 2038 on Tuesday, as
 in every year when 5 Iyar is a Monday

---
 third-parties/calendar/src/israel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index 20cedb5..faa3444 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -104,7 +104,7 @@ impl Calendar for Israel {
             || ((d == 14 || d == 15) && m == 5 && y == 2035)
             || (((d == 30 && m == 4) || (d == 1 && m == 5)) && y == 2036)
             || ((d == 20 || d == 21) && m == 4 && y == 2037)
-            || ((d == 9 || d == 10) && m == 5 && y == 2038)
+            || ((d == 10 || d == 11) && m == 5 && y == 2038)
             || ((d == 27 || d == 28) && m == 4 && y == 2039)
             || ((d == 17 || d == 18) && m == 4 && y == 2040)
             || ((d == 6 || d == 7) && m == 5 && y == 2041)
-- 
2.43.0


From 74e8a71053474c6c78018b8dc21f238fb9832417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 19/21] fix: Kurban 2015 in Turkey was in September

---
 third-parties/calendar/src/turkey.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/turkey.rs b/third-parties/calendar/src/turkey.rs
index 83ba4c2..5a3628c 100644
--- a/third-parties/calendar/src/turkey.rs
+++ b/third-parties/calendar/src/turkey.rs
@@ -129,7 +129,7 @@ impl Calendar for Turkey {
             // Ramadan
             if (m == 7 && (17..=19).contains(&d))
                 // Kurban
-                || (m == 10 && (24..=27).contains(&d))
+                || (m == 9 && (24..=27).contains(&d))
             {
                 return false;
             }
-- 
2.43.0


From 465f572c15380f68252d3a8757e561d9ce6686c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 20/21] fix: Hong Kong makes up on 27 December for a Christmas
 or Boxing Day on a Sunday in every year, not only in 2011 and 2016

---
 third-parties/calendar/src/hongkong.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/hongkong.rs b/third-parties/calendar/src/hongkong.rs
index a8c0ddc..b06e635 100644
--- a/third-parties/calendar/src/hongkong.rs
+++ b/third-parties/calendar/src/hongkong.rs
@@ -29,8 +29,9 @@ impl Calendar for HongKong {
             && m == 10)
             // Christmas Day
             || (d == 25 && m == 12)
-            // Boxing Day
-            || (d == 26 && m == 12)
+            // Boxing Day, the first weekday after Christmas (Weekday::Mon or Weekday::Tue
+            // when Christmas Day or Boxing Day is on a weekend)
+            || ((d == 26 || (d == 27 && (w == Weekday::Mon || w == Weekday::Tue))) && m == 12)
         {
             return false;
         }
-- 
2.43.0


From 893b7d449e5f8d0b33be4acbd6ebc1b81475d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 21/21] fix: Hong Kong: Buddha's birthday 2012 and 2019, the
 second day after Mid-autumn 2012 and the day after Easter Monday 2021

---
 third-parties/calendar/src/hongkong.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/hongkong.rs b/third-parties/calendar/src/hongkong.rs
index b06e635..8ba814a 100644
--- a/third-parties/calendar/src/hongkong.rs
+++ b/third-parties/calendar/src/hongkong.rs
@@ -169,9 +169,9 @@ impl Calendar for HongKong {
                 // Ching Ming Festival
                 || (d == 4 && m == 4)
                 // Buddha's birthday
-                || (d == 10 && m == 5)
+                || (d == 28 && m == 4)
                 // Mid-autumn festival
-                || (d == 1 && m == 10)
+                || ((d == 1 || d == 2) && m == 10)
                 // Chung Yeung festival
                 || (d == 23 && m == 10))
         {
@@ -277,6 +277,8 @@ impl Calendar for HongKong {
             (((5..=7).contains(&d) && m == 2)
                 // Ching Ming Festival
                 || (d == 5 && m == 4)
+                // Buddha's birthday
+                || (d == 13 && m == 5)
                 // Tuen Ng festival
                 || (d == 7 && m == 6)
                 // Chung Yeung festival
@@ -306,6 +308,8 @@ impl Calendar for HongKong {
             (((d == 12 || d == 15) && m == 2)
                 // Ching Ming Festival
                 || (d == 5 && m == 4)
+                // The day following Easter Weekday::Mon
+                || (d == 6 && m == 4)
                 // Buddha's birthday
                 || (d == 19 && m == 5)
                 // Tuen Ng festival
-- 
2.43.0

