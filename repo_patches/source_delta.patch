From 23bdcceb2357392ede2d3aa745e4a778c13b1eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:03 +0000
Subject: [PATCH 01/27] fix: reject text that is not a calendar date

Parsing a date with fewer than three parts panicked, extra parts were
ignored, very large numbers overflowed, and days that do not exist, such
as 2018-02-30, were silently moved into the next month.
---
 src/dates/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index 1447c0a..1be5f3d 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -106,6 +106,9 @@ impl FromStr for Date {
         // which would allow me to parse the string without any heap
         // access or intermediate objects.
         let ymd: Vec<&str> = s.split("-").collect();
+        if ymd.len() != 3 {
+            return Err(qm::Error::new(s))
+        }
 
         let mut array: [i32; 3] = [0; 3];
         for (i, elem) in array.iter_mut().enumerate() {
@@ -115,10 +118,16 @@ impl FromStr for Date {
             };
         }
 
+        // reject numbers so large that the conversion would overflow
+        if array.iter().any(|n| *n < 0 || *n > 9999) {
+            return Err(qm::Error::new(s))
+        }
+
         // this call does no validation, so we check the resulting date
-        // before returning it
+        // before returning it. If it is not the date we were asked for, there
+        // is no such day, for example 2018-02-30.
         let result = Date::from_ymd(array[0], array[1], array[2]);
-        if !result.is_valid() {
+        if !result.is_valid() || result.ymd() != (array[0], array[1], array[2]) {
             return Err(qm::Error::new(s))
         }
 
-- 
2.43.0


From fd4d3fc064ff9cd98640b2815790d1c5d0aaabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:11 +0000
Subject: [PATCH 02/27] fix: reject an out of range day fraction when reading

The constructor insists that a day fraction is at least zero and less than
one, but reading one from JSON did not check it.
---
 src/dates/datetime.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/dates/datetime.rs b/src/dates/datetime.rs
index d9bb2ea..19bd8cb 100644
--- a/src/dates/datetime.rs
+++ b/src/dates/datetime.rs
@@ -5,6 +5,8 @@ use std::ops::Add;
 use std::ops::AddAssign;
 use std::fmt::Display;
 use std::fmt;
+use serde as sd;
+use serde::de::Error;
 
 /// We define some commonly used times of day. These map to different amounts
 /// of volatility day_fraction depending on the exchange etc.
@@ -80,12 +82,34 @@ impl Display for DateTime {
 /// volatility time of the current day. Vol time is a monotonic function of
 /// real time, but certainly not a linear one, and it varies depending on the
 /// location and even the underlier.
-#[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Serialize, Deserialize)]
+#[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Serialize)]
 pub struct DateDayFraction {
     date: Date,
     day_fraction: f64
 }
 
+/// Deserialization must enforce the same range as the constructor
+impl<'de> sd::Deserialize<'de> for DateDayFraction {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: sd::Deserializer<'de> {
+
+        #[derive(Deserialize)]
+        #[serde(rename = "DateDayFraction")]
+        struct Unchecked {
+            date: Date,
+            day_fraction: f64
+        }
+
+        let unchecked = Unchecked::deserialize(deserializer)?;
+        if !(unchecked.day_fraction >= 0.0 && unchecked.day_fraction < 1.0) {
+            return Err(D::Error::custom(&format!(
+                "Day fraction {} is not between zero and one", unchecked.day_fraction)))
+        }
+
+        Ok(DateDayFraction { date: unchecked.date, day_fraction: unchecked.day_fraction })
+    }
+}
+
 impl DateDayFraction {
     pub fn new(date: Date, day_fraction: f64) -> DateDayFraction {
         assert!(day_fraction >= 0.0 && day_fraction < 1.0);
-- 
2.43.0


From 5374cd2b5df37dc66e6caf5aa6b75ccf91eaeecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:16 +0000
Subject: [PATCH 03/27] fix: round partial steps in a volatility calendar
 without holiday weight

The documentation promises rounding to the nearest business day, as every
other calendar does, but with a zero holiday weight the step was truncated.
---
 src/dates/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dates/calendar.rs b/src/dates/calendar.rs
index cf98ac1..974df38 100644
--- a/src/dates/calendar.rs
+++ b/src/dates/calendar.rs
@@ -550,7 +550,7 @@ impl Calendar for VolatilityCalendar {
 
         // Optimisation if the holiday weight is zero
         if self.holiday_weight < 1e-12 {
-            return self.calendar.step(from, step as i32, slip_forward)
+            return self.calendar.step_partial(from, step, slip_forward)
         }
  
         assert!(step == 0.0 || slip_forward == (step > 0.0)); 
-- 
2.43.0


From 410d3b0389f4e0082cf6bd09ef1f61d061b0cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:08 +0000
Subject: [PATCH 04/27] fix: keep interpolated steps of the root finder inside
 the bracket

The acceptance test for an interpolated step was mistranscribed, so that
the next point could lie beyond the end of the bracket.
---
 src/math/brent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/brent.rs b/src/math/brent.rs
index db9c35f..4e3a7dc 100644
--- a/src/math/brent.rs
+++ b/src/math/brent.rs
@@ -69,7 +69,7 @@ pub fn zbrent<F>(x1: f64, x2: f64, tol: f64, max_iter: u32, func: &mut F)
                 q = -q;
             }
             p = p.abs();
-            let min1 = 3.0 * xm * q * (tol1 - q).abs();
+            let min1 = 3.0 * xm * q - (tol1 * q).abs();
             let min2 = (e * q).abs();
             if 2.0 * p < min1.min(min2) {
                 // accept interpolation
-- 
2.43.0


From 7f78fb2845755190242d5c1afbc47b1c8a805326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:12 +0000
Subject: [PATCH 05/27] fix: extrapolate to the right by the rule chosen for
 the right

Linear and cubic spline interpolators consulted the left hand rule to decide
whether to continue naturally beyond the last point.
---
 src/math/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index aca5724..7f4bb38 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -145,7 +145,7 @@ pub fn linear_interpolate_extrapolate<T : Interpolable<T> + Copy>(
                 left.extrapolate(points[0].1)
             }
         } else if i >= points.len() {
-            if left.is_natural() && n > 1 {
+            if right.is_natural() && n > 1 {
                 linear_interpolate(points[n-2], points[n-1], x)
             } else {
                 right.extrapolate(points[n-1].1)
@@ -296,7 +296,7 @@ impl<T : Interpolable<T> + Copy> Interpolate<T> for CubicSpline<T> {
                     self.inputs.left.extrapolate(self.inputs.points[0].1)
                 }
             } else if i >= n {
-                if self.inputs.left.is_natural() && n > 1 {
+                if self.inputs.right.is_natural() && n > 1 {
                     nr_splint(self.inputs.points[n-2], self.inputs.points[n-1],
                         self.second_deriv[n-2], self.second_deriv[n-1], x)
                 } else {
-- 
2.43.0


From 0ce5a86cf75c2f0d1f6646c2e3e0021a55a08363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:16 +0000
Subject: [PATCH 06/27] fix: include the first point in the cubic spline back
 substitution

Without it, a spline that does not extrapolate naturally to the left has an
arbitrary curvature at its first point, so its slope there is not zero and
its second derivative is not continuous.
---
 src/math/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 7f4bb38..c104174 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -404,7 +404,7 @@ fn nr_spline<T : Interpolable<T> + Copy>(
 
     // the backsubstitution loop of the tridiagonal algorithm
     y2[n-1] = (un - qn * u[n-2]) / (qn * y2[n-2] + 1.0);
-    for i in (1..n-1).rev() {
+    for i in (0..n-1).rev() {
         y2[i] = y2[i] * y2[i+1] + u[i];
     }
 }
-- 
2.43.0


From e582c46c7b81e2cac01a5b2f85605eeeb4893959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:22 +0000
Subject: [PATCH 07/27] fix: reject unusable points in interpolators with an
 error

A cubic spline with one point panicked, a single point that is not a number
was accepted, and reading an interpolator from JSON skipped the validation
of its points.
---
 src/math/interpolation.rs | 44 ++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index c104174..1a3bc44 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -4,6 +4,7 @@ use std::f64::INFINITY;
 use std::cmp::Ordering;
 use serde::Deserialize;
 use serde::Deserializer;
+use serde::de::Error;
 use serde::Serialize;
 use serde::Serializer;
 use core::qm;
@@ -174,6 +175,11 @@ pub fn validate_abscissae<T : Interpolable<T> + Copy>(points: &[(T, f64)])
     // get very close, the accuracy of the algorithm falls down.
     let tolerance = 1e-12;
 
+    // with a single point there is no difference to check, so test it for NaN
+    if points[0].0.interp_diff(points[0].0) != 0.0 {
+        return Err(qm::Error::new("Points must not be NaN"))
+    }
+
     let mut prev: Option<T> = None;
     for point in points {
         if let Some(p) = prev {
@@ -220,13 +226,33 @@ impl<T : Interpolable<T> + Copy> FlyweightInterpolate<T>
 
 /// Non-flyweight linear interpolation. In this interpolator, the data is
 /// kept internally, and passed into the constructor.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize)]
 pub struct Linear<T> where T : Interpolable<T> {
     left: Extrap,
     right: Extrap,
     points: Vec<(T, f64)>
 }
 
+// Deserialization must reject the same points as the constructor
+impl<'de, T> Deserialize<'de> for Linear<T>
+where T : Interpolable<T> + Deserialize<'de> + Copy {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: Deserializer<'de> {
+
+        #[derive(Deserialize)]
+        #[serde(rename = "Linear")]
+        struct Unchecked<T> {
+            left: Extrap,
+            right: Extrap,
+            points: Vec<(T, f64)>
+        }
+
+        let inputs = Unchecked::<T>::deserialize(deserializer)?;
+        Linear::new(&inputs.points, inputs.left, inputs.right)
+            .map_err(|e| D::Error::custom(e.to_string()))
+    }
+}
+
 impl<T : Interpolable<T> + Copy> Interpolate<T> for Linear<T> {
     fn interpolate(&self, x: T) -> Result<f64, qm::Error> {
         linear_interpolate_extrapolate(
@@ -320,6 +346,10 @@ impl<T : Interpolable<T> + Copy> CubicSpline<T> {
         -> Result<CubicSpline<T>, qm::Error> {
 
         validate_abscissae(&points)?;
+        if points.len() < 2 {
+            return Err(qm::Error::new("Cubic spline interpolator requires \
+                at least 2 points"))
+        }
 
         let mut second_deriv = vec![0.0; points.len()];
         let deriv_0 = if left.is_natural() { INFINITY } else { 0.0 };
@@ -345,15 +375,9 @@ impl<'de, T> Deserialize<'de> for CubicSpline<T>
 where T : Interpolable<T> + Deserialize<'de> + Copy {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where D: Deserializer<'de> {
-        let inputs = CubicSplineInputs::deserialize(deserializer)?;
-
-        let mut second_deriv = vec![0.0; inputs.points.len()];
-        let deriv_0 = if inputs.left.is_natural() { INFINITY } else { 0.0 };
-        let deriv_n = if inputs.right.is_natural() { INFINITY } else { 0.0 };
-
-        nr_spline(&inputs.points, deriv_0, deriv_n, &mut second_deriv);
-
-        Ok(CubicSpline { inputs, second_deriv })
+        let inputs = CubicSplineInputs::<T>::deserialize(deserializer)?;
+        CubicSpline::new(&inputs.points, inputs.left, inputs.right)
+            .map_err(|e| D::Error::custom(e.to_string()))
     }
 }
 
-- 
2.43.0


From 4b84dfd076f271efad14b4c5ad082091c8ccca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:25 +0000
Subject: [PATCH 08/27] fix: price an at the money option with no variance as
 zero

The Black formula divided zero by zero, so the price was not a number.
---
 src/math/optionpricing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/math/optionpricing.rs b/src/math/optionpricing.rs
index f1e64c8..b3b4d24 100644
--- a/src/math/optionpricing.rs
+++ b/src/math/optionpricing.rs
@@ -47,6 +47,12 @@ impl Black76 {
 /// Calculates the internal d_plus and d_minus values needed for many of the
 /// Black Scholes formulae.
 fn d_plus_minus(log_moneyness: f64, sqrt_variance: f64) -> (f64, f64) {
+    // at the money with no variance the ratio is undefined, but the price is
+    // the same whatever its value
+    if log_moneyness == 0.0 && sqrt_variance == 0.0 {
+        return (0.0, 0.0)
+    }
+
     let d_plus = log_moneyness / sqrt_variance + 0.5 * sqrt_variance;
     let d_minus = d_plus - sqrt_variance;
     (d_plus, d_minus)
-- 
2.43.0


From 4a63f61a3b494219eb855bc2401af44dbe067fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:38 +0000
Subject: [PATCH 09/27] fix: let rate bumps move a zero curve

---
 src/data/curves.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index 4f08c6c..b9de9c6 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -98,8 +98,9 @@ impl TypeId for ZeroRateCurve {
 }
 
 impl RateCurve for ZeroRateCurve {
-    fn r_and_t(&self, _date: Date) -> Result<(f64, f64), qm::Error> { 
-        Ok((0.0, 0.0)) 
+    fn r_and_t(&self, date: Date) -> Result<(f64, f64), qm::Error> { 
+        // the time matters to decorators that bump the rate
+        Ok((0.0, (date - self.base) as f64 / 365.0)) 
     }
     fn base_date(&self) -> Date { self.base }
     fn is_zero(&self) -> bool { true }
-- 
2.43.0


From 4b3077434c83e5c6e297ea715d7e019833baa9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:43 +0000
Subject: [PATCH 10/27] fix: reject duplicate fixings without changing the
 table

---
 src/data/fixings.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/fixings.rs b/src/data/fixings.rs
index b39a259..f88f29b 100644
--- a/src/data/fixings.rs
+++ b/src/data/fixings.rs
@@ -55,9 +55,10 @@ impl FixingTable {
     /// Adds a fixings curve
     pub fn insert(&mut self, id: &str, fixings: Fixings) 
         -> Result<(), qm::Error> {
-        if let Some(_) = self.fixings_by_id.insert(id.to_string(), fixings) {
+        if self.fixings_by_id.contains_key(id) {
             return Err(duplicate_fixing_curve(id))
         }
+        self.fixings_by_id.insert(id.to_string(), fixings);
         Ok(())
     }
 
@@ -165,7 +166,7 @@ pub struct Fixings {
 mod map_as_pairs {
     use std::fmt;
     use serde::ser::Serializer;
-    use serde::de::{Deserializer, Visitor, SeqAccess};
+    use serde::de::{Deserializer, Error, Visitor, SeqAccess};
     use std::collections::HashMap;
     use dates::datetime::DateTime;
 
@@ -197,7 +198,10 @@ mod map_as_pairs {
                 loop {
                     let next : Option<(DateTime, f64)> = seq.next_element()?;
                     if let Some((k, v)) = next {
-                        map.insert(k, v);
+                        if let Some(_) = map.insert(k, v) {
+                            return Err(A::Error::custom(&format!(
+                                "Duplicate fixing at {}", k)))
+                        }
                     } else {
                         break;
                     }
-- 
2.43.0


From cee5f7f40ed96b1c7b683f7b8b06408446c9f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:47 +0000
Subject: [PATCH 11/27] fix: value the cash dividends remaining after a date

---
 src/data/divstream.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index f1a45c8..7cf82e8 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -288,7 +288,7 @@ impl DividendBootstrap {
                 discounted_cash;
             for acc in accumulation.iter_mut().rev() {
                 acc.discounted_cash_remaining = 
-                    final_discounted_cash - acc.discounted_cash_remaining;
+                    final_discounted_cash - acc.discounted_cash;
             }
         }
 
@@ -407,8 +407,10 @@ impl DividendBootstrap {
             // This also catches the case where there are no dividends
             Err(i) => if i == self.accumulation.len() { Ok(0.0) } else {
 
-                // otherwise, return the remaining cash at the next div
-                Ok(self.accumulation[i].discounted_cash_remaining)
+                // otherwise, return the remaining cash at the previous div.
+                // (The first accumulation is always on the base date, so
+                // all the cash remains at or before it.)
+                Ok(self.accumulation[i.max(1) - 1].discounted_cash_remaining)
             }
         }
     }
-- 
2.43.0


From 9815253ed77d5bfd8e3376b0cd14e3737e321ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:51 +0000
Subject: [PATCH 12/27] fix: leave out dividends going ex on the base date

---
 src/data/divstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 7cf82e8..d212f5e 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -228,8 +228,8 @@ impl DividendBootstrap {
 
         for dividend in div_stream.dividends.iter() {
             let ex_date = dividend.ex_date;
-            if ex_date < base_date {
-                // quietly ignore dividends before the base date
+            if ex_date <= base_date {
+                // quietly ignore dividends up to the base date
                 continue;
             } else if ex_date < prev_ex_date {
                 return Err(qm::Error::new("Dividends not in ex date order"))
-- 
2.43.0


From fdc4224e307189d98b27f7a847089ffa5780e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:55 +0000
Subject: [PATCH 13/27] fix: scale the dividend yield by one plus the bump

---
 src/data/divstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index d212f5e..d4d905e 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -113,7 +113,7 @@ impl DividendStream {
            div.bump_all_relative(one_plus_bump);
         }
 
-        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), bump))); 
+        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), one_plus_bump))); 
 
         DividendStream {
             dividends: bumped_divs,
-- 
2.43.0


From b401f531407c490e97392ac01397defd91306386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:42 +0000
Subject: [PATCH 14/27] fix: give a volatility on the base date of a surface
 with smiles

---
 src/data/volsurface.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 48b2ced..bc7000e 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -668,6 +668,14 @@ impl<T: VolSmile + Clone> VolByProbability<T> {
             return Ok(vol_time)    // early exit for efficiency
         }
 
+        // With no time left, normalised strikes are not defined. There is no
+        // variance to share out between strikes, so use the atm vol for all.
+        if vol_time <= 0.0 {
+            let atm_strikes = vec![self.pillar_forwards[pillar]; strikes.len()];
+            self.input.smiles[pillar].1.volatilities(&atm_strikes, &mut out)?;
+            return Ok(vol_time)
+        }
+
         // We extrapolate in normalised strike space. We assume the
         // atm vol is the same as at the pillar, so we just use the
         // sqrt(vol_time) as a substitute for atm_variance, effectively
-- 
2.43.0


From 748e28dc47fd145191270e75597811387e5299aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:42 +0000
Subject: [PATCH 15/27] fix: take forward variance from the start and end of
 the interval

---
 src/data/volsurface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index bc7000e..eb342e0 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -141,8 +141,8 @@ pub trait VolSurface : esd::Serialize + TypeId + Send + Sync + Debug {
             // at the from and to dates
             let from_forward = forward.interpolate(from.date())?;
             let to_forward = forward.interpolate(to.date())?;
-            let from_var = self.variance(from, to_forward)?;
-            let to_var = self.variance(from, from_forward)?;
+            let from_var = self.variance(from, from_forward)?;
+            let to_var = self.variance(to, to_forward)?;
             let fwd_atm_var = to_var - from_var;
             if fwd_atm_var < 0.0 {
                 return Err(qm::Error::new("Negative atm forward variance"))
-- 
2.43.0


From 3dc3ded3ec7b97c2f87317c814738b390bd4594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:38 +0000
Subject: [PATCH 16/27] fix: allow for rounding when stepping in a volatility
 calendar

---
 src/dates/calendar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dates/calendar.rs b/src/dates/calendar.rs
index 974df38..1916581 100644
--- a/src/dates/calendar.rs
+++ b/src/dates/calendar.rs
@@ -593,7 +593,8 @@ impl Calendar for VolatilityCalendar {
 
             // the conservative stepping means we should always be on or
             // before the date we are aiming for, except when single stepping.
-            assert!(steps_needed >= -1.0);
+            // (Allow for rounding if we were already as good as there.)
+            assert!(steps_needed >= -1.0 - 1e-9);
         }
 
         // if we significantly overshot zero, use the closest of the two
-- 
2.43.0


From ef261320a484bd42bc5ebb3aa4d22e390f0a4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:12 +0000
Subject: [PATCH 17/27] fix: subtract the displacement of the log-normal from
 the strike

---
 src/instruments/options.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 449b0e9..d8aa1e7 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -114,7 +114,7 @@ impl VanillaOption {
         // For some div assumptions, we must displace the forward and strike.
         // (This errors for JumpDivs, which we do not currently handle.)
         let displacement = vol.displacement(self.expiry.date())?;
-        let k = strike + displacement;
+        let k = strike - displacement;
         let f = forward - displacement;
         if f < 0.0 {
             return Err(qm::Error::new("Negative forward"));
@@ -145,7 +145,11 @@ impl VanillaOption {
                 // between now and the val date. Whether this is the right thing to
                 // do depends on how forward valuation will be used. The first real
                 // use case should drive the behaviour.
+                // (A strike below the displacement is always exceeded, so there is
+                // no optionality.)
                 let price = match self.put_or_call {
+                    PutOrCall::Put if k < 0.0 => 0.0,
+                    PutOrCall::Call if k < 0.0 => df * (f - k),
                     PutOrCall::Put => black76.put_price(df, f, k, sqrt_var),
                     PutOrCall::Call => black76.call_price(df, f, k, sqrt_var)
                 };
-- 
2.43.0


From 3f74743c3493bfa3a9ec577b35a10e3d5771c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:54 +0000
Subject: [PATCH 18/27] fix: keep the first saved value when one save area
 records several bumps

---
 src/models/blackdiffusion.rs | 5 +++--
 src/risk/cache.rs            | 7 ++++---
 src/risk/marketdata.rs       | 5 +++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 352e041..e2e4cd1 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -213,10 +213,11 @@ impl BlackDiffusion {
         let id_string = id.to_string();
         if let Some(asset) = self.key.get(&id_string) {
 
-            // save the old path then replace it
+            // save the old path, unless an earlier bump has already done so,
+            // then replace it
             let path = self.paths.subview_mut(Axis(2), *asset);
             if let Some(s) = saved_paths {
-                s.insert(*asset, path.to_owned());
+                s.entry(*asset).or_insert_with(|| path.to_owned());
             }
             fetch_path(self.instruments[*asset].deref(), 
                 self.context.as_pricing_context(), &self.observations,
diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index c9625c8..0b94493 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -87,10 +87,11 @@ impl PricingContextPrefetch {
             if let Some(inst) = self.dependencies.instrument_by_id(id) {
                 let instrument: &Instrument = &*inst.clone();
 
-                // save the old forward if we are about to bump it
+                // save the old forward if we are about to bump it, unless
+                // an earlier bump has already done so
                 if bumped_forward {
                     if let Some(s) = saved_forward_curves {
-                        s.insert(id.to_string(), fwd.clone());
+                        s.entry(id.to_string()).or_insert_with(|| fwd.clone());
                     }
 
                     // Refetch forward: requires instrument and high water mark
@@ -111,7 +112,7 @@ impl PricingContextPrefetch {
                 if bumped_vol {
                     if let Some(vol) = self.vol_surfaces.get_mut(&id_string) {
                         if let Some(s) = saved_vol_surfaces {
-                            s.insert(id_string, vol.clone());
+                            s.entry(id_string).or_insert_with(|| vol.clone());
                         }
 
                         // Refetch vol if required. If vol not found, it may
diff --git a/src/risk/marketdata.rs b/src/risk/marketdata.rs
index 79dbffa..a6a8233 100644
--- a/src/risk/marketdata.rs
+++ b/src/risk/marketdata.rs
@@ -325,9 +325,10 @@ fn apply_bump<T: Clone>(id: &str, bump: &Bumper<T>,
     let key = id.to_string();
     if let Some(entry) = to_bump.get_mut(&key) {
 
-        // save the old value if there is anywhere to save it
+        // save the old value if there is anywhere to save it. If the same
+        // entry has already been saved, it is the first value we need
         if let Some(save) = to_save {
-            save.insert(key, entry.clone());
+            save.entry(key).or_insert_with(|| entry.clone());
         }
 
         // update the new value and return true to say we changed it
-- 
2.43.0


From 5948daba73b90dd590b1af42646486a1790a623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:12 +0000
Subject: [PATCH 19/27] fix: treat a relative bump of a zero curve as zero

---
 src/data/curves.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index b9de9c6..9e217c8 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -270,6 +270,9 @@ impl RateCurve for RelativeBump {
         Ok((r * self.one_plus_bump, t))
     }
 
+    // scaling a zero curve leaves it zero
+    fn is_zero(&self) -> bool { self.curve.is_zero() }
+
     fn base_date(&self) -> Date {
         self.curve.base_date()
     }
-- 
2.43.0


From b52047e0774f98eb7880eb2d6f7b6250ef930f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:17 +0000
Subject: [PATCH 20/27] fix: allow bumps of market data that has no prefetched
 forward or paths

---
 src/models/blackdiffusion.rs | 6 ++----
 src/risk/cache.rs            | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index e2e4cd1..6f43bbd 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -224,11 +224,9 @@ impl BlackDiffusion {
                 self.correlated_gaussians.subview(Axis(2), *asset),
                 &self.substepping,
                 path)?;
+        }
 
-        } else {
-            return Err(qm::Error::new("Failed to find asset"))
-        }        
-
+        // If the asset is not one that we evolve, there are no paths to refetch
         Ok(true)
     }
 
diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index 0b94493..e467f93 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -130,10 +130,10 @@ impl PricingContextPrefetch {
             } else {
                 return Err(qm::Error::new("Cannot find instrument"))
             }
-        } else {
-            return Err(qm::Error::new("Cannot find prefetched forward"))
         }
 
+        // If we have no prefetched forward, the instruments do not depend on
+        // one (they may still need the spot) so there is nothing to refetch.
         Ok(true)
     }
 }
-- 
2.43.0


From e68abf33176e54c15d2705a80e90279437206585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:21 +0000
Subject: [PATCH 21/27] fix: list each dependency once when several instruments
 share it

---
 src/risk/dependencies.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index 12719a4..3b9ea35 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -151,7 +151,10 @@ impl DependencyContext for DependencyCollector {
             // this brace to avoid multiple mutable borrow
             let forward_ids = self.forward_id_from_credit_id.entry(
                 credit_id.to_string()).or_insert(Vec::<String>::new());
-            forward_ids.push(instrument.id().to_string());
+            let id = instrument.id().to_string();
+            if !forward_ids.contains(&id) {
+                forward_ids.push(id);
+            }
         }
 
         // and add a dependency on this spot (this adds the instrument)
@@ -165,8 +168,10 @@ impl DependencyContext for DependencyCollector {
     }
 
     fn fixing(&mut self, id: &str, date: DateTime) {
-        self.fixings.entry(id.to_string()).or_insert(Vec::new())
-            .push(date)
+        let fixings = self.fixings.entry(id.to_string()).or_insert(Vec::new());
+        if !fixings.contains(&date) {
+            fixings.push(date);
+        }
     }
 
 }
-- 
2.43.0


From 2a7d0a8c1bdebc5d9a5bfbc6b82741718a2fd1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:59 +0000
Subject: [PATCH 22/27] fix: volatility surfaces by pillar can be written again
 after they are read

The reader handed back the inner surface, which has no type name, so
writing it panicked. The surface with flat smiles had no reader at all.
---
 src/data/volsurface.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index eb342e0..4ab89a8 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -250,6 +250,7 @@ pub fn get_registry() -> &'static TypeRegistry {
         static ref REG: TypeRegistry = {
             let mut reg = TypeRegistry::new();
             reg.insert("FlatVolSurface", BoxFnSeed::new(FlatVolSurface::from_serial));
+            reg.insert("VolByProbabilityFlatSmile", BoxFnSeed::new(VolByProbabilityFlatSmile::from_serial));
             reg.insert("VolByProbabilityCubicSplineSmile", BoxFnSeed::new(VolByProbabilityCubicSplineSmile::from_serial));
             reg.insert("ConstantExpiryTimeEvolution", BoxFnSeed::new(ConstantExpiryTimeEvolution::from_serial));
             reg.insert("RollingExpiryTimeEvolution", BoxFnSeed::new(RollingExpiryTimeEvolution::from_serial));
@@ -808,7 +809,7 @@ impl VolByProbabilityFlatSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<FlatSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityFlatSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
@@ -862,7 +863,7 @@ impl VolByProbabilityCubicSplineSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<CubicSplineSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityCubicSplineSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
-- 
2.43.0


From 4dfea843398f473357e09b45306582cc29da0595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:10 +0000
Subject: [PATCH 23/27] fix: a dividend stream without cash dividends can be
 read back

It was written with a nil last ex date, which the reader refused.
---
 src/data/divstream.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index d4d905e..4086fe5 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -8,6 +8,7 @@ use core::qm;
 use std::sync::Arc;
 use std::f64::NAN;
 use std::ops::Deref;
+use std::str::FromStr;
 use serde as sd;
 
 /// A dividend is a corporate action that pays shareholders an amount of cash.
@@ -80,9 +81,22 @@ impl Dividend {
 pub struct DividendStream {
     dividends: Vec<Dividend>,
     div_yield: RcRateCurve,
+    #[serde(deserialize_with = "date_or_nil")]
     last_cash_ex_date: Date
 }
 
+/// Reads a date that may be nil. (The last cash ex date is nil when there are
+/// no cash dividends. The nil date is not valid, so dates in general are not
+/// allowed to be nil.)
+fn date_or_nil<'de, D>(deserializer: D) -> Result<Date, D::Error>
+where D: sd::Deserializer<'de> {
+    let s: String = sd::Deserialize::deserialize(deserializer)?;
+    if s == Date::from_nil().to_string() {
+        return Ok(Date::from_nil())
+    }
+    Date::from_str(&s).map_err(|e| sd::de::Error::custom(e.to_string()))
+}
+
 impl DividendStream {
     pub fn new(dividends: &[Dividend], div_yield: RcRateCurve) 
         -> DividendStream {
-- 
2.43.0


From 698b12a95441687c6c7ad941a06011c1a274773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:47 +0000
Subject: [PATCH 24/27] fix: the sharing policy of a failed read or write no
 longer stays in force

A panic inside the closure skipped restoring the thread's own policy, so
later reads and writes in that thread resolved ids they should not know.
---
 src/core/dedup.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/core/dedup.rs b/src/core/dedup.rs
index a58692a..c45c83e 100644
--- a/src/core/dedup.rs
+++ b/src/core/dedup.rs
@@ -46,16 +46,12 @@ where
             swap(&mut *s.borrow_mut(), self);
         });
 
-        let result = f();
-
         // by swapping in and out of our own member variables, we save the state of the
         // thread-local variable, as well as providing our own state to the serialize
-        // functions
-        tls_seed.with(|s| {
-            swap(&mut *s.borrow_mut(), self);
-        });
+        // functions. We do this on drop, so the state is restored even if f panics.
+        let _restore = Restore { dedup: self, tls_seed: tls_seed };
 
-        result
+        f()
     }
 
     pub fn control(&self) -> &DedupControl { &self.control }
@@ -81,6 +77,31 @@ where
     }
 }
 
+/// Swaps the state of a Dedup back out of the thread-local variable when it goes out of scope
+struct Restore<'a, T, R>
+where
+    T: InstanceId + Debug + Send + Sync + ?Sized + 'static,
+    R: Deref<Target = T> + Clone + Send + Sync + 'static,
+    Drc<T, R>: FromId,
+{
+    dedup: &'a mut Dedup<T, R>,
+    tls_seed: &'static LocalKey<RefCell<Dedup<T, R>>>
+}
+
+impl<'a, T, R> Drop for Restore<'a, T, R>
+where
+    T: InstanceId + Debug + Send + Sync + ?Sized + 'static,
+    R: Deref<Target = T> + Clone + Send + Sync + 'static,
+    Drc<T, R>: FromId,
+{
+    fn drop(&mut self) {
+        let dedup = &mut *self.dedup;
+        self.tls_seed.with(|s| {
+            swap(&mut *s.borrow_mut(), dedup);
+        });
+    }
+}
+
 /// What to do when we are serializing or deserializing and we meet a DAG node
 #[derive(Clone, Copy, Debug)]
 pub enum DedupControl {
-- 
2.43.0


From e86a19ad034b79fb4f3f0ee760009e8aeea5da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:26 +0000
Subject: [PATCH 25/27] fix: interpolating at NaN is an error rather than a
 panic

A negative strike gives a NaN on a surface by probability, so pricing
such an option brought the caller down.
---
 src/math/interpolation.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 1a3bc44..7b94a1a 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -133,6 +133,12 @@ pub fn linear_interpolate_extrapolate<T : Interpolable<T> + Copy>(
         return Err(qm::Error::new("Cannot interpolate. No points"))
     }
 
+    // the difference is NaN if what we look for is NaN, in which case no
+    // element can be found
+    if points[0].0.interp_diff(x).is_nan() {
+        return Err(qm::Error::new("Cannot interpolate at NaN"))
+    }
+
     // binary chop to find our element. If we find it, return it
     let found = points.binary_search_by(|p| p.0.interp_cmp(x));
     match found {
@@ -308,6 +314,12 @@ impl<T : Interpolable<T> + Copy> Interpolate<T> for CubicSpline<T> {
                 at least 2 points"))
         }
 
+        // the difference is NaN if what we look for is NaN, in which case no
+        // element can be found
+        if self.inputs.points[0].0.interp_diff(x).is_nan() {
+            return Err(qm::Error::new("Cannot interpolate at NaN"))
+        }
+
         // binary chop to find our element. If we find it, return it
         let found = self.inputs.points.binary_search_by(|p| p.0.interp_cmp(x));
         match found {
-- 
2.43.0


From 03975a2e57bd80df5c59e01f5a078c25ca13a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:31 +0000
Subject: [PATCH 26/27] fix: a simulation with no paths or no substep is an
 error rather than a panic

---
 src/models/blackdiffusion.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 6f43bbd..3bd1405 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -154,6 +154,13 @@ impl BlackDiffusion {
         n_paths: usize)
         -> Result<BlackDiffusion, qm::Error> {
 
+        if n_paths == 0 {
+            return Err(qm::Error::new("Number of paths must be positive"))
+        }
+        if !(path_substep > 0.0) {
+            return Err(qm::Error::new("Path substep must be positive"))
+        }
+
         // key to all observations and all instruments
         let mut observations = Vec::new();
         let mut key = HashMap::new();
-- 
2.43.0


From 89364f33eba9231f70b676a9eeba3776ff8ed950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:06 +0000
Subject: [PATCH 27/27] fix: correlated gaussians had the wrong correlations

The root of the correlation matrix was transposed when it was copied from a
column-major to a row-major matrix, so with two assets or more the gaussians
had neither unit variance nor the correlations asked for.
---
 src/models/blackdiffusion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 3bd1405..7a66920 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -348,8 +348,9 @@ pub fn fetch_correlated_gaussians(
     let rootd = Cholesky::new(correld).ok_or_else(|| qm::Error::new(
         "Correlation matrix is not positive semi-definite"))?;
 
-    // convert back to an Array2
-    let root_slice = rootd.unpack().as_slice().to_vec();
+    // convert back to an Array2. (DMatrix is column-major and Array2 is row-major,
+    // so without the transpose we would end up with the upper root.)
+    let root_slice = rootd.unpack().transpose().as_slice().to_vec();
     let root = Array::from_shape_vec((n_assets, n_assets), root_slice)?;
 
     // Use the standard library random number generator for now. (Look
-- 
2.43.0

