From 364d52b4c35e6d826122b4dc50dca86fd5087d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:52 +0000
Subject: [PATCH 01/24] fix: reject malformed date text instead of panicking or
 returning another date

Parsing indexed three components without checking that there were three, so
short text panicked, and extra components or impossible months and days were
silently accepted.
---
 src/dates/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index 1447c0a..18926f7 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -106,6 +106,9 @@ impl FromStr for Date {
         // which would allow me to parse the string without any heap
         // access or intermediate objects.
         let ymd: Vec<&str> = s.split("-").collect();
+        if ymd.len() != 3 {
+            return Err(qm::Error::new(s))
+        }
 
         let mut array: [i32; 3] = [0; 3];
         for (i, elem) in array.iter_mut().enumerate() {
@@ -115,10 +118,16 @@ impl FromStr for Date {
             };
         }
 
+        // reject components that cannot be part of any date
+        if array[0] < 0 || array[0] > 9999 || array[1] < 1 || array[1] > 12
+            || array[2] < 1 || array[2] > 31 {
+            return Err(qm::Error::new(s))
+        }
+
         // this call does no validation, so we check the resulting date
         // before returning it
         let result = Date::from_ymd(array[0], array[1], array[2]);
-        if !result.is_valid() {
+        if !result.is_valid() || result.ymd() != (array[0], array[1], array[2]) {
             return Err(qm::Error::new(s))
         }
 
-- 
2.43.0


From ba25d66e1e1696d2fdb45b80c196a4443474fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:44 +0000
Subject: [PATCH 02/24] fix: natural extrapolation on the right looked at the
 policy of the left

---
 src/math/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index aca5724..7f4bb38 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -145,7 +145,7 @@ pub fn linear_interpolate_extrapolate<T : Interpolable<T> + Copy>(
                 left.extrapolate(points[0].1)
             }
         } else if i >= points.len() {
-            if left.is_natural() && n > 1 {
+            if right.is_natural() && n > 1 {
                 linear_interpolate(points[n-2], points[n-1], x)
             } else {
                 right.extrapolate(points[n-1].1)
@@ -296,7 +296,7 @@ impl<T : Interpolable<T> + Copy> Interpolate<T> for CubicSpline<T> {
                     self.inputs.left.extrapolate(self.inputs.points[0].1)
                 }
             } else if i >= n {
-                if self.inputs.left.is_natural() && n > 1 {
+                if self.inputs.right.is_natural() && n > 1 {
                     nr_splint(self.inputs.points[n-2], self.inputs.points[n-1],
                         self.second_deriv[n-2], self.second_deriv[n-1], x)
                 } else {
-- 
2.43.0


From 7f9387e119750dc9b4c8a86ab6d088f6d725f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:00 +0000
Subject: [PATCH 03/24] fix: second derivative at the first point of a spline
 that is not natural there

---
 src/math/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 7f4bb38..c104174 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -404,7 +404,7 @@ fn nr_spline<T : Interpolable<T> + Copy>(
 
     // the backsubstitution loop of the tridiagonal algorithm
     y2[n-1] = (un - qn * u[n-2]) / (qn * y2[n-2] + 1.0);
-    for i in (1..n-1).rev() {
+    for i in (0..n-1).rev() {
         y2[i] = y2[i] * y2[i+1] + u[i];
     }
 }
-- 
2.43.0


From aecc2d21190df9ff48606491c972b2a4c9c19d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:36 +0000
Subject: [PATCH 04/24] fix: a spline through one point is an error, not a
 panic

---
 src/math/interpolation.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index c104174..cf7ba55 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -320,6 +320,10 @@ impl<T : Interpolable<T> + Copy> CubicSpline<T> {
         -> Result<CubicSpline<T>, qm::Error> {
 
         validate_abscissae(&points)?;
+        if points.len() < 2 {
+            return Err(qm::Error::new("Cubic spline interpolator requires \
+                at least 2 points"))
+        }
 
         let mut second_deriv = vec![0.0; points.len()];
         let deriv_0 = if left.is_natural() { INFINITY } else { 0.0 };
@@ -346,6 +350,10 @@ where T : Interpolable<T> + Deserialize<'de> + Copy {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where D: Deserializer<'de> {
         let inputs = CubicSplineInputs::deserialize(deserializer)?;
+        if inputs.points.len() < 2 {
+            return Err(serde::de::Error::custom(
+                "Cubic spline interpolator requires at least 2 points"))
+        }
 
         let mut second_deriv = vec![0.0; inputs.points.len()];
         let deriv_0 = if inputs.left.is_natural() { INFINITY } else { 0.0 };
-- 
2.43.0


From 7d41f15681ba3ef73773449d2af8f9587be5e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:46 +0000
Subject: [PATCH 05/24] fix: bumping all dividends scales the dividend yield by
 one plus the bump

---
 src/data/divstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index f1a45c8..03a0c33 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -113,7 +113,7 @@ impl DividendStream {
            div.bump_all_relative(one_plus_bump);
         }
 
-        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), bump))); 
+        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), one_plus_bump))); 
 
         DividendStream {
             dividends: bumped_divs,
-- 
2.43.0


From 0586f6893da65b095eedb8eb1e581a753b414f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:50 +0000
Subject: [PATCH 06/24] fix: cash dividends remaining after a date were not a
 number, or those of the next ex date

---
 src/data/divstream.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 03a0c33..f5be0c5 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -288,7 +288,7 @@ impl DividendBootstrap {
                 discounted_cash;
             for acc in accumulation.iter_mut().rev() {
                 acc.discounted_cash_remaining = 
-                    final_discounted_cash - acc.discounted_cash_remaining;
+                    final_discounted_cash - acc.discounted_cash;
             }
         }
 
@@ -403,13 +403,12 @@ impl DividendBootstrap {
             // if we found it, return the remaining cash at this div
             Ok(i) => Ok(self.accumulation[i].discounted_cash_remaining),
 
-            // If we missed and it was after the last date, return zero.
-            // This also catches the case where there are no dividends
-            Err(i) => if i == self.accumulation.len() { Ok(0.0) } else {
+            // If there are no dividends there is nothing remaining
+            Err(_) if self.accumulation.is_empty() => Ok(0.0),
 
-                // otherwise, return the remaining cash at the next div
-                Ok(self.accumulation[i].discounted_cash_remaining)
-            }
+            // otherwise, return the remaining cash at the prev div
+            Err(i) => Ok(self.accumulation[i.max(1) - 1]
+                .discounted_cash_remaining)
         }
     }
 }
-- 
2.43.0


From 16a6a851c6b4a477031036af81b5df769cba9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:55 +0000
Subject: [PATCH 07/24] fix: a dividend on the base date counted only when
 another one followed it

---
 src/data/divstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index f5be0c5..ccc7915 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -228,8 +228,8 @@ impl DividendBootstrap {
 
         for dividend in div_stream.dividends.iter() {
             let ex_date = dividend.ex_date;
-            if ex_date < base_date {
-                // quietly ignore dividends before the base date
+            if ex_date <= base_date {
+                // quietly ignore dividends that are already ex
                 continue;
             } else if ex_date < prev_ex_date {
                 return Err(qm::Error::new("Dividends not in ex date order"))
-- 
2.43.0


From f12241efa38975f0f4cd213a4d4d3cdede99b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:00 +0000
Subject: [PATCH 08/24] fix: forward variance took both of its variances at the
 from date

---
 src/data/volsurface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 48b2ced..df71b04 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -141,8 +141,8 @@ pub trait VolSurface : esd::Serialize + TypeId + Send + Sync + Debug {
             // at the from and to dates
             let from_forward = forward.interpolate(from.date())?;
             let to_forward = forward.interpolate(to.date())?;
-            let from_var = self.variance(from, to_forward)?;
-            let to_var = self.variance(from, from_forward)?;
+            let from_var = self.variance(from, from_forward)?;
+            let to_var = self.variance(to, to_forward)?;
             let fwd_atm_var = to_var - from_var;
             if fwd_atm_var < 0.0 {
                 return Err(qm::Error::new("Negative atm forward variance"))
-- 
2.43.0


From e08ef0a75ee1072d0fed5fc79f1af427fde45198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:06 +0000
Subject: [PATCH 09/24] fix: vol surfaces made of smiles can be read back and
 written out again

---
 src/data/volsurface.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index df71b04..61c3c06 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -250,6 +250,7 @@ pub fn get_registry() -> &'static TypeRegistry {
         static ref REG: TypeRegistry = {
             let mut reg = TypeRegistry::new();
             reg.insert("FlatVolSurface", BoxFnSeed::new(FlatVolSurface::from_serial));
+            reg.insert("VolByProbabilityFlatSmile", BoxFnSeed::new(VolByProbabilityFlatSmile::from_serial));
             reg.insert("VolByProbabilityCubicSplineSmile", BoxFnSeed::new(VolByProbabilityCubicSplineSmile::from_serial));
             reg.insert("ConstantExpiryTimeEvolution", BoxFnSeed::new(ConstantExpiryTimeEvolution::from_serial));
             reg.insert("RollingExpiryTimeEvolution", BoxFnSeed::new(RollingExpiryTimeEvolution::from_serial));
@@ -800,7 +801,7 @@ impl VolByProbabilityFlatSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<FlatSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityFlatSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
@@ -854,7 +855,7 @@ impl VolByProbabilityCubicSplineSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<CubicSplineSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityCubicSplineSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
-- 
2.43.0


From f74b16355f35dcdf1c1916b7bac9e695ff3143cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:12 +0000
Subject: [PATCH 10/24] fix: root finding could step outside the bracket

The bound on an interpolated step multiplied where it should subtract, so a
long step was accepted and the function evaluated outside the bracket.
---
 src/math/brent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/brent.rs b/src/math/brent.rs
index db9c35f..4e3a7dc 100644
--- a/src/math/brent.rs
+++ b/src/math/brent.rs
@@ -69,7 +69,7 @@ pub fn zbrent<F>(x1: f64, x2: f64, tol: f64, max_iter: u32, func: &mut F)
                 q = -q;
             }
             p = p.abs();
-            let min1 = 3.0 * xm * q * (tol1 - q).abs();
+            let min1 = 3.0 * xm * q - (tol1 * q).abs();
             let min2 = (e * q).abs();
             if 2.0 * p < min1.min(min2) {
                 // accept interpolation
-- 
2.43.0


From cf3a6e6e71e5f13f63b692f3e5c3df4e06756d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:44 +0000
Subject: [PATCH 11/24] fix: a second saved bump of the same data lost what
 restoring should bring back

The save area kept the value before the latest bump rather than the value
before the first one.
---
 src/risk/marketdata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/risk/marketdata.rs b/src/risk/marketdata.rs
index 79dbffa..61cb286 100644
--- a/src/risk/marketdata.rs
+++ b/src/risk/marketdata.rs
@@ -327,7 +327,7 @@ fn apply_bump<T: Clone>(id: &str, bump: &Bumper<T>,
 
         // save the old value if there is anywhere to save it
         if let Some(save) = to_save {
-            save.insert(key, entry.clone());
+            save.entry(key).or_insert_with(|| entry.clone());
         }
 
         // update the new value and return true to say we changed it
-- 
2.43.0


From 6748755b0ec1b856fe55e0566b6f86b5cee7bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:49 +0000
Subject: [PATCH 12/24] fix: prefetched curves were saved again by a second
 bump and not restored

The save area kept the forward or surface before the latest refetch. A yield
bump refetches one forward several times when several instruments use it, so
even a single bump was not undone by restoring.
---
 src/risk/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index c9625c8..f4cb41a 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -90,7 +90,7 @@ impl PricingContextPrefetch {
                 // save the old forward if we are about to bump it
                 if bumped_forward {
                     if let Some(s) = saved_forward_curves {
-                        s.insert(id.to_string(), fwd.clone());
+                        s.entry(id.to_string()).or_insert_with(|| fwd.clone());
                     }
 
                     // Refetch forward: requires instrument and high water mark
@@ -111,7 +111,7 @@ impl PricingContextPrefetch {
                 if bumped_vol {
                     if let Some(vol) = self.vol_surfaces.get_mut(&id_string) {
                         if let Some(s) = saved_vol_surfaces {
-                            s.insert(id_string, vol.clone());
+                            s.entry(id_string).or_insert_with(|| vol.clone());
                         }
 
                         // Refetch vol if required. If vol not found, it may
-- 
2.43.0


From 1ec283c9d1014c4b5f571b50cb5db528ca84ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:28 +0000
Subject: [PATCH 13/24] fix: bumping dividends without a yield made them
 overlap a yield

A scaled zero curve is still zero, so it may begin before the last dividend.
Without this every forward was an error after a dividend bump.
---
 src/data/curves.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index 4f08c6c..cbe1e4c 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -269,6 +269,10 @@ impl RateCurve for RelativeBump {
         Ok((r * self.one_plus_bump, t))
     }
 
+    fn is_zero(&self) -> bool {
+        self.curve.is_zero()
+    }
+
     fn base_date(&self) -> Date {
         self.curve.base_date()
     }
-- 
2.43.0


From be5bde4aaa0a9d4ecf29ac338841315bc0cc9557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:42 +0000
Subject: [PATCH 14/24] fix: prefetched sticky-delta surfaces did not follow a
 bumped forward

Prices from prefetched data differed from those of the market data itself
after a bump of spot, dividends, borrow or yield.
---
 src/risk/cache.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index f4cb41a..57acb60 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -102,10 +102,10 @@ impl PricingContextPrefetch {
                     }
                 }
 
-                // If we had vol surfaces such as sticky delta surfaces that
-                // needed to be updated when the forward was changed, we'd need
-                // the following test to be more complicated than just 
-                // looking at bumped_vol
+                // Vol surfaces such as sticky delta surfaces need to be updated
+                // when the forward is changed
+                let bumped_vol = bumped_vol || (bumped_forward 
+                    && instrument.vol_forward_dynamics().depends_on_forward());
 
                 // save the old vol surface if we are about to bump it
                 if bumped_vol {
-- 
2.43.0


From c390056234fa737a78e01bbb931dcbaab38c9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:24 +0000
Subject: [PATCH 15/24] fix: bumping data that is used but not prefetched was
 an error

A position in a stock needs its spot but no forward. Its delta could not be
calculated because the bump failed, after having changed the market data.
---
 src/risk/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index 57acb60..b8f5f68 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -129,10 +129,9 @@ impl PricingContextPrefetch {
             } else {
                 return Err(qm::Error::new("Cannot find instrument"))
             }
-        } else {
-            return Err(qm::Error::new("Cannot find prefetched forward"))
         }
 
+        // if the forward was not prefetched, there is nothing to refetch
         Ok(true)
     }
 }
-- 
2.43.0


From e84f7465e7d18aa8c6ff2f77c2e93f4fed884fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:46 +0000
Subject: [PATCH 16/24] fix: dependencies shared by several instruments were
 recorded several times

Two options observing the same underlying at the same time recorded the
fixing twice, which moving the spot date past it refused as a duplicate.
---
 src/risk/dependencies.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index 12719a4..5f0ca62 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -151,7 +151,10 @@ impl DependencyContext for DependencyCollector {
             // this brace to avoid multiple mutable borrow
             let forward_ids = self.forward_id_from_credit_id.entry(
                 credit_id.to_string()).or_insert(Vec::<String>::new());
-            forward_ids.push(instrument.id().to_string());
+            let id = instrument.id().to_string();
+            if !forward_ids.contains(&id) {
+                forward_ids.push(id);
+            }
         }
 
         // and add a dependency on this spot (this adds the instrument)
@@ -165,8 +168,10 @@ impl DependencyContext for DependencyCollector {
     }
 
     fn fixing(&mut self, id: &str, date: DateTime) {
-        self.fixings.entry(id.to_string()).or_insert(Vec::new())
-            .push(date)
+        let fixings = self.fixings.entry(id.to_string()).or_insert(Vec::new());
+        if !fixings.contains(&date) {
+            fixings.push(date)
+        }
     }
 
 }
-- 
2.43.0


From f7d13f47c5185267f7076ba64abe2d4edd7cdc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:34 +0000
Subject: [PATCH 17/24] fix: price of an option at the money with no variance

d_plus_minus divided zero by zero, so that the Black formula gave NaN
rather than zero for an option exactly at the money at its expiry.
---
 src/math/optionpricing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/optionpricing.rs b/src/math/optionpricing.rs
index f1e64c8..22fc40f 100644
--- a/src/math/optionpricing.rs
+++ b/src/math/optionpricing.rs
@@ -47,6 +47,11 @@ impl Black76 {
 /// Calculates the internal d_plus and d_minus values needed for many of the
 /// Black Scholes formulae.
 fn d_plus_minus(log_moneyness: f64, sqrt_variance: f64) -> (f64, f64) {
+    // exactly at the money with no variance left, avoid zero over zero
+    if sqrt_variance == 0.0 && log_moneyness == 0.0 {
+        return (0.0, 0.0)
+    }
+
     let d_plus = log_moneyness / sqrt_variance + 0.5 * sqrt_variance;
     let d_minus = d_plus - sqrt_variance;
     (d_plus, d_minus)
-- 
2.43.0


From 1716d6451c8f4bcfd49d43ff7e688c74910a780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:54 +0000
Subject: [PATCH 18/24] fix: displace the strike of an option in the same
 direction as its forward

Where the dividends after expiry are fixed, the underlying less those
dividends is log-normal, so both forward and strike have to be reduced by
them. The strike was increased, which broke put-call parity.
---
 src/instruments/options.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 449b0e9..a544fc2 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -114,7 +114,7 @@ impl VanillaOption {
         // For some div assumptions, we must displace the forward and strike.
         // (This errors for JumpDivs, which we do not currently handle.)
         let displacement = vol.displacement(self.expiry.date())?;
-        let k = strike + displacement;
+        let k = strike - displacement;
         let f = forward - displacement;
         if f < 0.0 {
             return Err(qm::Error::new("Negative forward"));
@@ -146,6 +146,9 @@ impl VanillaOption {
                 // do depends on how forward valuation will be used. The first real
                 // use case should drive the behaviour.
                 let price = match self.put_or_call {
+                    // the underlying is never below its displacement
+                    PutOrCall::Put if k < 0.0 => 0.0,
+                    PutOrCall::Call if k < 0.0 => df * (f - k),
                     PutOrCall::Put => black76.put_price(df, f, k, sqrt_var),
                     PutOrCall::Call => black76.call_price(df, f, k, sqrt_var)
                 };
-- 
2.43.0


From 10bc5d0bbf61e7c7318ec6ba09472f53bb529fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:02 +0000
Subject: [PATCH 19/24] Let verification builds supply the gaussian draws of
 the Black diffusion

With --cfg verif_draws the draws come from an external function. Other builds are unchanged.
---
 src/models/blackdiffusion.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 352e041..3aaa898 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -290,6 +290,12 @@ pub fn calculate_substepping(
     Ok(substepping)
 }
 
+/// Verification builds (--cfg verif_draws) supply the uncorrelated gaussians.
+#[cfg(verif_draws)]
+extern "Rust" {
+    fn verif_draw() -> f64;
+}
+
 /// Fetch the correlated gaussians. In other words, a set of random
 /// numbers weighted by a gaussian distribution with correlations defined
 /// by the correlation matrix in the pricing context.
@@ -349,6 +355,7 @@ pub fn fetch_correlated_gaussians(
     // Use the standard library random number generator for now. (Look
     // at better generators such as Mersenne Twister, or better still
     // Sobol sequences -- this should be user-settable.)
+    #[cfg(not(verif_draws))]
     let mut rand = rand::StdRng::new().unwrap();
 
     // Use the normal statrs package for turning the random numbers into
@@ -363,9 +370,14 @@ pub fn fetch_correlated_gaussians(
         for mut step in path.outer_iter_mut() {
 
             // create uncorrelated gaussians
+            #[cfg(not(verif_draws))]
             for draw in draws.iter_mut() {
                 *draw = normal.sample::<StdRng>(&mut rand);
             }
+            #[cfg(verif_draws)]
+            for draw in draws.iter_mut() {
+                *draw = unsafe { verif_draw() };
+            }
 
             // turn them into correlated gaussians. TODO ensure that this
             // multiplication does not result in an allocation.
-- 
2.43.0


From 246b646cf0c824a9be2f74c4cddc6b71dbc32c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:08 +0000
Subject: [PATCH 20/24] fix: apply the Cholesky root of the correlation matrix
 the right way round

The root is stored by columns but was read by rows, so correlated paths did
not have unit variance or the requested correlation.
---
 src/models/blackdiffusion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 3aaa898..2286df1 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -350,7 +350,7 @@ pub fn fetch_correlated_gaussians(
 
     // convert back to an Array2
     let root_slice = rootd.unpack().as_slice().to_vec();
-    let root = Array::from_shape_vec((n_assets, n_assets), root_slice)?;
+    let root = Array::from_shape_vec((n_assets, n_assets), root_slice)?.reversed_axes();
 
     // Use the standard library random number generator for now. (Look
     // at better generators such as Mersenne Twister, or better still
-- 
2.43.0


From fdde35e5cdc0f0aa0c11b8019929ae4e16d4071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:16 +0000
Subject: [PATCH 21/24] fix: keep the first saved paths when an asset is bumped
 twice

A second bump with the same save area replaced the saved paths by bumped ones,
so restoring did not give the original paths back.
---
 src/models/blackdiffusion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 2286df1..109a4a5 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -216,7 +216,7 @@ impl BlackDiffusion {
             // save the old path then replace it
             let path = self.paths.subview_mut(Axis(2), *asset);
             if let Some(s) = saved_paths {
-                s.insert(*asset, path.to_owned());
+                s.entry(*asset).or_insert_with(|| path.to_owned());
             }
             fetch_path(self.instruments[*asset].deref(), 
                 self.context.as_pricing_context(), &self.observations,
-- 
2.43.0


From 79b1b7248f62225892522a52add1546c6c803b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:23 +0000
Subject: [PATCH 22/24] fix: allow bumps of assets which are not simulated

Bumping market data that the simulated instruments do not depend on was an error.
---
 src/models/blackdiffusion.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 109a4a5..ddc3d29 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -223,10 +223,7 @@ impl BlackDiffusion {
                 self.correlated_gaussians.subview(Axis(2), *asset),
                 &self.substepping,
                 path)?;
-
-        } else {
-            return Err(qm::Error::new("Failed to find asset"))
-        }        
+        }
 
         Ok(true)
     }
-- 
2.43.0


From d9f4cf840151ccca5b5eec4b242f809df4e976aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:29 +0000
Subject: [PATCH 23/24] fix: refuse several instruments in the Monte-Carlo
 pricer

Pricing more than one instrument always panicked.
---
 src/pricers/montecarlo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pricers/montecarlo.rs b/src/pricers/montecarlo.rs
index 62c736f..176fa0d 100644
--- a/src/pricers/montecarlo.rs
+++ b/src/pricers/montecarlo.rs
@@ -85,6 +85,12 @@ impl MonteCarloPricer {
         model_factory: RcMonteCarloModelFactory, market_data: &MarketData)
         -> Result<MonteCarloPricer, qm::Error> {
 
+        // A timeline has no notion of which of several instruments its
+        // observations and flows belong to.
+        if instruments.len() > 1 {
+            return Err(qm::Error::new("Monte-Carlo supports only one instrument"))
+        }
+
         // Find the dependencies of the resulting vector of instruments,
         // also validate that all instruments are priceable by Monte-Carlo
         // and fetch the timeline.
-- 
2.43.0


From e01b228f03c17b199f1f3f427a46d3caed4af42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:54:46 +0000
Subject: [PATCH 24/24] fix: dividend streams without cash dividends could not
 be deserialized

---
 src/data/divstream.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index ccc7915..3745c2e 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -80,9 +80,13 @@ impl Dividend {
 pub struct DividendStream {
     dividends: Vec<Dividend>,
     div_yield: RcRateCurve,
+    #[serde(default = "Date::from_nil", skip_serializing_if = "no_date")]
     last_cash_ex_date: Date
 }
 
+/// A stream with no cash dividends has no last cash ex date
+fn no_date(date: &Date) -> bool { *date == Date::from_nil() }
+
 impl DividendStream {
     pub fn new(dividends: &[Dividend], div_yield: RcRateCurve) 
         -> DividendStream {
-- 
2.43.0

