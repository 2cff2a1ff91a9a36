From 04379a9858897183fb2b05db87239637a57f69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:26 +0000
Subject: [PATCH 01/20] fix: reject text that does not name a real date

Date::from_str panicked on text with fewer than three components, ignored
any components after the third, overflowed on huge numbers and silently
rolled impossible days such as 2018-02-30 into the following month. All of
these now give an error.
---
 src/dates/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index 1447c0a..7777657 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -106,6 +106,9 @@ impl FromStr for Date {
         // which would allow me to parse the string without any heap
         // access or intermediate objects.
         let ymd: Vec<&str> = s.split("-").collect();
+        if ymd.len() != 3 {
+            return Err(qm::Error::new(s))
+        }
 
         let mut array: [i32; 3] = [0; 3];
         for (i, elem) in array.iter_mut().enumerate() {
@@ -115,10 +118,16 @@ impl FromStr for Date {
             };
         }
 
-        // this call does no validation, so we check the resulting date
-        // before returning it
-        let result = Date::from_ymd(array[0], array[1], array[2]);
-        if !result.is_valid() {
+        // from_ymd does no validation, so we check that the numbers are sane
+        // before calling it, and that the resulting date is the one we asked
+        // for before returning it (2018-02-30 would otherwise become 2018-03-02)
+        let (y, m, d) = (array[0], array[1], array[2]);
+        if y < 0 || y > 9999 || m < 1 || m > 12 || d < 1 || d > 31 {
+            return Err(qm::Error::new(s))
+        }
+
+        let result = Date::from_ymd(y, m, d);
+        if !result.is_valid() || result.ymd() != (y, m, d) {
             return Err(qm::Error::new(s))
         }
 
-- 
2.43.0


From ae1ca8a95ede0dbbb9df58eb215abae049ebbb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:50 +0000
Subject: [PATCH 02/20] fix: use the right-hand rule when extrapolating to the
 right

---
 src/math/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index aca5724..7f4bb38 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -145,7 +145,7 @@ pub fn linear_interpolate_extrapolate<T : Interpolable<T> + Copy>(
                 left.extrapolate(points[0].1)
             }
         } else if i >= points.len() {
-            if left.is_natural() && n > 1 {
+            if right.is_natural() && n > 1 {
                 linear_interpolate(points[n-2], points[n-1], x)
             } else {
                 right.extrapolate(points[n-1].1)
@@ -296,7 +296,7 @@ impl<T : Interpolable<T> + Copy> Interpolate<T> for CubicSpline<T> {
                     self.inputs.left.extrapolate(self.inputs.points[0].1)
                 }
             } else if i >= n {
-                if self.inputs.left.is_natural() && n > 1 {
+                if self.inputs.right.is_natural() && n > 1 {
                     nr_splint(self.inputs.points[n-2], self.inputs.points[n-1],
                         self.second_deriv[n-2], self.second_deriv[n-1], x)
                 } else {
-- 
2.43.0


From 24fd273a9c2a8d06a1d7011a273853e02c7ac16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:50 +0000
Subject: [PATCH 03/20] fix: back-substitute the first second-derivative of a
 cubic spline

With a natural left end both factors are zero, but with a specified
slope the first entry was left holding the decomposition factor -0.5.
---
 src/math/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 7f4bb38..c104174 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -404,7 +404,7 @@ fn nr_spline<T : Interpolable<T> + Copy>(
 
     // the backsubstitution loop of the tridiagonal algorithm
     y2[n-1] = (un - qn * u[n-2]) / (qn * y2[n-2] + 1.0);
-    for i in (1..n-1).rev() {
+    for i in (0..n-1).rev() {
         y2[i] = y2[i] * y2[i+1] + u[i];
     }
 }
-- 
2.43.0


From 757a65fd7712c9673bc9abc5c08ec614d271bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:51 +0000
Subject: [PATCH 04/20] fix: refuse a cubic spline through fewer than two
 points

---
 src/math/interpolation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index c104174..619749a 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -320,6 +320,10 @@ impl<T : Interpolable<T> + Copy> CubicSpline<T> {
         -> Result<CubicSpline<T>, qm::Error> {
 
         validate_abscissae(&points)?;
+        if points.len() < 2 {
+            return Err(qm::Error::new("Cubic spline interpolator requires \
+                at least 2 points"))
+        }
 
         let mut second_deriv = vec![0.0; points.len()];
         let deriv_0 = if left.is_natural() { INFINITY } else { 0.0 };
-- 
2.43.0


From b27c3cc0ecb86d10fff927c2be649e1eae774565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:34 +0000
Subject: [PATCH 05/20] fix: value the cash dividends remaining after a date

The remaining cash was computed from itself, so it was never a number. Between
two ex dates it also skipped the next dividend.
---
 src/data/divstream.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index f1a45c8..2832684 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -288,7 +288,7 @@ impl DividendBootstrap {
                 discounted_cash;
             for acc in accumulation.iter_mut().rev() {
                 acc.discounted_cash_remaining = 
-                    final_discounted_cash - acc.discounted_cash_remaining;
+                    final_discounted_cash - acc.discounted_cash;
             }
         }
 
@@ -403,13 +403,15 @@ impl DividendBootstrap {
             // if we found it, return the remaining cash at this div
             Ok(i) => Ok(self.accumulation[i].discounted_cash_remaining),
 
-            // If we missed and it was after the last date, return zero.
-            // This also catches the case where there are no dividends
-            Err(i) => if i == self.accumulation.len() { Ok(0.0) } else {
+            // if there are no dividends, there is no remaining cash
+            Err(_) if self.accumulation.is_empty() => Ok(0.0),
 
-                // otherwise, return the remaining cash at the next div
-                Ok(self.accumulation[i].discounted_cash_remaining)
-            }
+            // if we missed and it was before the base date, all of the cash
+            // is remaining. The first accumulation is at the base date.
+            Err(0) => Ok(self.accumulation[0].discounted_cash_remaining),
+
+            // otherwise, return the remaining cash at the previous div
+            Err(i) => Ok(self.accumulation[i-1].discounted_cash_remaining)
         }
     }
 }
-- 
2.43.0


From 23567f3ea41767b3858369e2799be23b9408b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:39 +0000
Subject: [PATCH 06/20] fix: leave dividends that go ex on the base date out of
 the totals

The amounts are counted from and not including the base date.
---
 src/data/divstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 2832684..2c19377 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -228,8 +228,8 @@ impl DividendBootstrap {
 
         for dividend in div_stream.dividends.iter() {
             let ex_date = dividend.ex_date;
-            if ex_date < base_date {
-                // quietly ignore dividends before the base date
+            if ex_date <= base_date {
+                // quietly ignore dividends on or before the base date
                 continue;
             } else if ex_date < prev_ex_date {
                 return Err(qm::Error::new("Dividends not in ex date order"))
-- 
2.43.0


From 788e721df67cf3b102aded70ebefc5494dafaff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:44 +0000
Subject: [PATCH 07/20] fix: scale the dividend yield by one plus the bump

The relative bump of a curve takes the factor, so the yield was multiplied by
the bump itself.
---
 src/data/divstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 2c19377..f7df335 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -113,7 +113,7 @@ impl DividendStream {
            div.bump_all_relative(one_plus_bump);
         }
 
-        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), bump))); 
+        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), one_plus_bump))); 
 
         DividendStream {
             dividends: bumped_divs,
-- 
2.43.0


From ac19caef823422a14cb003ddba131a1cf184622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:50 +0000
Subject: [PATCH 08/20] fix: give the zero rate curve a time, so that it can be
 bumped

A flat bump is added to the rate and multiplied by the time, which was always
zero.
---
 src/data/curves.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index 4f08c6c..84fd5da 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -98,8 +98,9 @@ impl TypeId for ZeroRateCurve {
 }
 
 impl RateCurve for ZeroRateCurve {
-    fn r_and_t(&self, _date: Date) -> Result<(f64, f64), qm::Error> { 
-        Ok((0.0, 0.0)) 
+    fn r_and_t(&self, date: Date) -> Result<(f64, f64), qm::Error> { 
+        // the time must be right, as bumps are applied to the rate alone
+        Ok((0.0, ((date - self.base) as f64) / 365.0))
     }
     fn base_date(&self) -> Date { self.base }
     fn is_zero(&self) -> bool { true }
-- 
2.43.0


From d4a53b29a65ec8855abbda53e79aaedcaaa514ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:27 +0000
Subject: [PATCH 09/20] fix: price an at-the-money option with no variance

The moneyness was divided by the square root of the variance, giving zero over
zero and a price that is not a number.
---
 src/math/optionpricing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/optionpricing.rs b/src/math/optionpricing.rs
index f1e64c8..db21542 100644
--- a/src/math/optionpricing.rs
+++ b/src/math/optionpricing.rs
@@ -47,7 +47,9 @@ impl Black76 {
 /// Calculates the internal d_plus and d_minus values needed for many of the
 /// Black Scholes formulae.
 fn d_plus_minus(log_moneyness: f64, sqrt_variance: f64) -> (f64, f64) {
-    let d_plus = log_moneyness / sqrt_variance + 0.5 * sqrt_variance;
+    // at the money, the scaled moneyness is zero even if there is no variance
+    let scaled_moneyness = if log_moneyness == 0.0 { 0.0 } else { log_moneyness / sqrt_variance };
+    let d_plus = scaled_moneyness + 0.5 * sqrt_variance;
     let d_minus = d_plus - sqrt_variance;
     (d_plus, d_minus)
 }
-- 
2.43.0


From 975f070e0b52acde256a8403184054daa510b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:10 +0000
Subject: [PATCH 10/20] fix: take the at-the-money forward variance between the
 two dates

Both variances were fetched at the earlier date, one of them at the forward of
the later date.
---
 src/data/volsurface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 48b2ced..df71b04 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -141,8 +141,8 @@ pub trait VolSurface : esd::Serialize + TypeId + Send + Sync + Debug {
             // at the from and to dates
             let from_forward = forward.interpolate(from.date())?;
             let to_forward = forward.interpolate(to.date())?;
-            let from_var = self.variance(from, to_forward)?;
-            let to_var = self.variance(from, from_forward)?;
+            let from_var = self.variance(from, from_forward)?;
+            let to_var = self.variance(to, to_forward)?;
             let fwd_atm_var = to_var - from_var;
             if fwd_atm_var < 0.0 {
                 return Err(qm::Error::new("Negative atm forward variance"))
-- 
2.43.0


From 752ad6ba5c772628854cef84dc722f329609ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:15 +0000
Subject: [PATCH 11/20] fix: extrapolate volatilities when there is no time
 left

The strike was normalised by the square root of the time, giving infinite or
undefined strikes at the base date.
---
 src/data/volsurface.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index df71b04..54a5ce0 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -673,13 +673,23 @@ impl<T: VolSmile + Clone> VolByProbability<T> {
         // sqrt(vol_time) as a substitute for atm_variance, effectively
         // pretending vol is one.
         let forward = self.input.forward.interpolate(date_time.date())?;
+        let pillar_forward = self.pillar_forwards[pillar];
+
+        // With no time left, there is no normalised strike. Fall back on
+        // extrapolating in moneyness.
+        if !(vol_time > 0.0) {
+            let adj_strikes : Vec<f64> = strikes.iter()
+                .map(|strike| strike / forward * pillar_forward).collect();
+            self.input.smiles[pillar].1.volatilities(&adj_strikes, &mut out)?;
+            return Ok(vol_time)
+        }
+
         let normalised = to_normalised(strikes, forward, vol_time.sqrt());
 
         // It is not very efficient using two local vectors. Consider
         // refactoring to use one local vector, or even passing workspace
         // in. Profile first to see if it is worth the effort.
         let pillar_time = self.pillar_vol_times[pillar];
-        let pillar_forward = self.pillar_forwards[pillar];
         let adj_strikes = to_strikes(&normalised, pillar_forward,
             pillar_time.sqrt()); 
 
-- 
2.43.0


From af3d3e6961c23e8a5842734eb24c231c1fb3075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:57 +0000
Subject: [PATCH 12/20] fix: a relative bump of a zero curve is still a zero
 curve

Bumping the dividends of a stream without a dividend yield made every forward
on it fail with 'Dividend yield overlaps dividends'.
---
 src/data/curves.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index 84fd5da..da2f9c8 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -273,6 +273,10 @@ impl RateCurve for RelativeBump {
     fn base_date(&self) -> Date {
         self.curve.base_date()
     }
+
+    fn is_zero(&self) -> bool {
+        self.curve.is_zero()
+    }
 }
 
 impl RelativeBump {
-- 
2.43.0


From 4faf92cb9e144e0d84b385803685456e48504477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:38 +0000
Subject: [PATCH 13/20] fix: take the displacement off the strike of an option

With fixed cash dividends the volatility is that of the underlying less its
dividends, so the displacement comes off the forward and the strike alike. It
was added to the strike.
---
 src/instruments/options.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 449b0e9..2caa5c1 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -114,7 +114,7 @@ impl VanillaOption {
         // For some div assumptions, we must displace the forward and strike.
         // (This errors for JumpDivs, which we do not currently handle.)
         let displacement = vol.displacement(self.expiry.date())?;
-        let k = strike + displacement;
+        let k = strike - displacement;
         let f = forward - displacement;
         if f < 0.0 {
             return Err(qm::Error::new("Negative forward"));
@@ -145,7 +145,10 @@ impl VanillaOption {
                 // between now and the val date. Whether this is the right thing to
                 // do depends on how forward valuation will be used. The first real
                 // use case should drive the behaviour.
+                // A strike at or below the displacement is certain to be exceeded.
                 let price = match self.put_or_call {
+                    PutOrCall::Put if k <= 0.0 => 0.0,
+                    PutOrCall::Call if k <= 0.0 => df * (f - k),
                     PutOrCall::Put => black76.put_price(df, f, k, sqrt_var),
                     PutOrCall::Call => black76.call_price(df, f, k, sqrt_var)
                 };
-- 
2.43.0


From fec4149c6727ef27472f0d79b31842aba12d8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:26 +0000
Subject: [PATCH 14/20] fix: list the forwards of a credit once

A forward declared by several instruments was listed several times, and after a
yield bump the saved forward was overwritten by the bumped one, so that
restoring left the bumped forward in the cache.
---
 src/risk/dependencies.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index 12719a4..c48970e 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -151,7 +151,10 @@ impl DependencyContext for DependencyCollector {
             // this brace to avoid multiple mutable borrow
             let forward_ids = self.forward_id_from_credit_id.entry(
                 credit_id.to_string()).or_insert(Vec::<String>::new());
-            forward_ids.push(instrument.id().to_string());
+            let id = instrument.id().to_string();
+            if !forward_ids.contains(&id) {
+                forward_ids.push(id);
+            }
         }
 
         // and add a dependency on this spot (this adds the instrument)
-- 
2.43.0


From c26f309a4f8ec82c91b7b4adc5c5ac16b1e95699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:31 +0000
Subject: [PATCH 15/20] fix: allow bumps of names with no prefetched forward

Bumping a name of which only the spot is needed changed the market data and
then returned an error, so a portfolio holding an equity had no delta.
---
 src/risk/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index c9625c8..ba98d47 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -129,9 +129,9 @@ impl PricingContextPrefetch {
             } else {
                 return Err(qm::Error::new("Cannot find instrument"))
             }
-        } else {
-            return Err(qm::Error::new("Cannot find prefetched forward"))
         }
+        // otherwise nothing is prefetched for this name (for example, only
+        // its spot is needed) so there is nothing to refetch
 
         Ok(true)
     }
-- 
2.43.0


From a4698ca7776b617b2602d221d1ccba06a6ee7c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:06 +0000
Subject: [PATCH 16/20] fix: restore the pricer when a risk report cannot be
 priced

If the price could not be calculated after a bump, the delta-gamma and
vega-volga reports returned the error with the bump still in place.
---
 src/risk/deltagamma.rs | 11 +++++++++--
 src/risk/vegavolga.rs  | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/risk/deltagamma.rs b/src/risk/deltagamma.rs
index 477dcc0..6ff5d35 100644
--- a/src/risk/deltagamma.rs
+++ b/src/risk/deltagamma.rs
@@ -155,14 +155,21 @@ impl ReportGenerator for DeltaGammaReportGenerator {
 
             // bump up and reprice
             let bump = Bump::new_spot(id, up.clone());
-            let upbumped = bumped_price(&bump, pricer, Some(saveable), unbumped)?;
+            let upbumped = bumped_price(&bump, pricer, Some(saveable), unbumped);
             
             // bump down and reprice (do not save the result from this)
             let bump = Bump::new_spot(id, down.clone());
-            let downbumped = bumped_price(&bump, pricer, None, unbumped)?;
+            let downbumped = if upbumped.is_ok() {
+                bumped_price(&bump, pricer, None, unbumped)
+            } else {
+                Ok(unbumped)
+            };
 
+            // restore the pricer even if it could not be priced
             pricer.as_mut_bumpable().restore(saveable)?;
             saveable.clear();
+            let upbumped = upbumped?;
+            let downbumped = downbumped?;
 
             // delta and gamma calculations
             let bumpsize = self.bumpsize * spot;
diff --git a/src/risk/vegavolga.rs b/src/risk/vegavolga.rs
index 0536725..23a905f 100644
--- a/src/risk/vegavolga.rs
+++ b/src/risk/vegavolga.rs
@@ -157,14 +157,21 @@ impl ReportGenerator for VegaVolgaReportGenerator {
 
             // bump up and reprice
             let bump = Bump::new_vol(id, self.bump.clone());
-            let upbumped = bumped_price(&bump, pricer, Some(saveable), unbumped)?;
+            let upbumped = bumped_price(&bump, pricer, Some(saveable), unbumped);
             
             // bump down and reprice (do not save the result from this)
             let bump = Bump::new_vol(id, self.bump.opposite());
-            let downbumped = bumped_price(&bump, pricer, None, unbumped)?;
+            let downbumped = if upbumped.is_ok() {
+                bumped_price(&bump, pricer, None, unbumped)
+            } else {
+                Ok(unbumped)
+            };
 
+            // restore the pricer even if it could not be priced
             pricer.as_mut_bumpable().restore(saveable)?;
             saveable.clear();
+            let upbumped = upbumped?;
+            let downbumped = downbumped?;
 
             // vega and volga calculations
             let vega = (upbumped - downbumped) / (2.0 * bumpsize);
-- 
2.43.0


From 8ec5c89e5cb226766444e2970c77786c0d16cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:37 +0000
Subject: [PATCH 17/20] fix: collect each fixing once

Two instruments that depend on the same fixing, such as a call and a put
with the same expiry, could not be rolled past it: the duplicate fixing
was refused by the fixing table.
---
 src/risk/dependencies.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index c48970e..b44a212 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -168,8 +168,11 @@ impl DependencyContext for DependencyCollector {
     }
 
     fn fixing(&mut self, id: &str, date: DateTime) {
-        self.fixings.entry(id.to_string()).or_insert(Vec::new())
-            .push(date)
+        // several instruments may depend on the same fixing
+        let dates = self.fixings.entry(id.to_string()).or_insert(Vec::new());
+        if !dates.contains(&date) {
+            dates.push(date);
+        }
     }
 
 }
-- 
2.43.0


From 3c864ef3595cc3bc527021c1c1973678f694b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:04 +0000
Subject: [PATCH 18/20] fix: keep the steps of the root finder inside the
 bracket

---
 src/math/brent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/brent.rs b/src/math/brent.rs
index db9c35f..4e3a7dc 100644
--- a/src/math/brent.rs
+++ b/src/math/brent.rs
@@ -69,7 +69,7 @@ pub fn zbrent<F>(x1: f64, x2: f64, tol: f64, max_iter: u32, func: &mut F)
                 q = -q;
             }
             p = p.abs();
-            let min1 = 3.0 * xm * q * (tol1 - q).abs();
+            let min1 = 3.0 * xm * q - (tol1 * q).abs();
             let min2 = (e * q).abs();
             if 2.0 * p < min1.min(min2) {
                 // accept interpolation
-- 
2.43.0


From 3cbc3fe7079bcaf3df87e847ffef24b47e4e598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:44 +0000
Subject: [PATCH 19/20] fix: compare risk reports the same way round whichever
 is given first

---
 src/risk/deltagamma.rs | 8 +++++---
 src/risk/vegavolga.rs  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/risk/deltagamma.rs b/src/risk/deltagamma.rs
index 6ff5d35..af6f5a6 100644
--- a/src/risk/deltagamma.rs
+++ b/src/risk/deltagamma.rs
@@ -55,9 +55,11 @@ impl<'v> ApproxEq<ReportTolerances, &'v DeltaGammaReport> for &'v DeltaGammaRepo
         }
 
         // Both delta and gamma are based on diffs, so should use the unit_risk tolerance. Scale delta
-        // by one over bumpsize, and gamma by one over bumpsize squared.
-        let delta = tol.unit_risk() / self.bumpsize;
-        let gamma = delta / self.bumpsize;
+        // by one over bumpsize, and gamma by one over bumpsize squared. If the bump sizes differ, use the
+        // larger, so the result does not depend on which report is compared with which.
+        let bumpsize = self.bumpsize.max(other.bumpsize);
+        let delta = tol.unit_risk() / bumpsize;
+        let gamma = delta / bumpsize;
         let tolerances = DeltaGammaTolerances { delta, gamma };
         for (id, ref delta_gamma) in &self.results {
             if let Some(other_delta_gamma) = other.results.get(id) {
diff --git a/src/risk/vegavolga.rs b/src/risk/vegavolga.rs
index 23a905f..9ff3279 100644
--- a/src/risk/vegavolga.rs
+++ b/src/risk/vegavolga.rs
@@ -62,9 +62,11 @@ impl<'v> ApproxEq<ReportTolerances, &'v VegaVolgaReport> for &'v VegaVolgaReport
             write!(diffs, "VegaVolgaReport: number of reports {} != {}", self.results.len(), other.results.len())?;
         }
 
-        // Both vega and volga are based on diffs, so should use the currency risk tolerance.
-        let vega = tol.currency_risk() / self.bumpsize;
-        let volga = vega / self.bumpsize;
+        // Both vega and volga are based on diffs, so should use the currency risk tolerance. If the bump
+        // sizes differ, use the larger, so the result does not depend on which report is compared with which.
+        let bumpsize = self.bumpsize.max(other.bumpsize);
+        let vega = tol.currency_risk() / bumpsize;
+        let volga = vega / bumpsize;
         let tolerances = VegaVolgaTolerances { vega, volga };
 
         for (id, ref vega_volga) in &self.results {
-- 
2.43.0


From 2441be380ce36e60b9f7068d46ce1ce7e3f70fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:14 +0000
Subject: [PATCH 20/20] fix: read the root of the correlation matrix by columns

The Cholesky root comes back stored by columns but was read by rows, so
the draws of two correlated names had variances 1+r^2 and 1-r^2.
---
 src/models/blackdiffusion.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 352e041..1bc2f43 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -342,9 +342,11 @@ pub fn fetch_correlated_gaussians(
     let rootd = Cholesky::new(correld).ok_or_else(|| qm::Error::new(
         "Correlation matrix is not positive semi-definite"))?;
 
-    // convert back to an Array2
+    // convert back to an Array2. (A DMatrix is stored by columns, while an
+    // Array2 is stored by rows.)
     let root_slice = rootd.unpack().as_slice().to_vec();
-    let root = Array::from_shape_vec((n_assets, n_assets), root_slice)?;
+    let root = Array::from_shape_vec((n_assets, n_assets), root_slice)?
+        .reversed_axes();
 
     // Use the standard library random number generator for now. (Look
     // at better generators such as Mersenne Twister, or better still
-- 
2.43.0

