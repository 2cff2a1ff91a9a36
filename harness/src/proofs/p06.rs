//! P06: discount factors and yield bumps
use super::p05::{linear, policy};
use crate::contracts::*;
use crate::sym::*;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::curves::*;
use std::sync::Arc;

fn df(c: &RcRateCurve, a: quantmath::dates::Date, b: quantmath::dates::Date) -> f64 {
    let r = c.df(a, b);
    prove("is not an error", r.is_ok());
    r.unwrap()
}

/// What a bump leaves alone
fn same_frame(c: &RcRateCurve, b: &RcRateCurve, d: quantmath::dates::Date) {
    prove("same base date", c.base_date() == b.base_date());
    prove_eq("same time", c.r_and_t(d).unwrap().1, b.r_and_t(d).unwrap().1);
}

contracts! {
fn discount_factors() {
    let c = any_rates(0);
    let (a, b, e) = (any_date("a"), any_date("b"), any_date("c"));
    prove_eq("over its parts", df(&c, a, b) * df(&c, b, e), df(&c, a, e));
    prove_eq("empty period", df(&c, a, a), 1.0);
    prove_eq("reversed", df(&c, a, b) * df(&c, b, a), 1.0);
    prove_eq("from rate and time", df(&c, a, b), (curve_rt(0, b) - curve_rt(0, a)).exp());
    prove_eq("rate times time", c.rt(a).unwrap(), curve_rt(0, a));
    prove("positive", df(&c, a, b) > 0.0);
    cover("done");
}

fn interpolated_curve() {
    let pts = any_date_curve("pts");
    let base = any_date("base");
    let (l, lk) = policy("left");
    let (rt, rk) = policy("right");
    let made = RateCurveAct365::new(base, &pts, l, rt);
    prove("is accepted", made.is_ok());
    let c = made.unwrap();
    prove("base date", c.base_date() == base);
    prove("not marked as zero", !c.is_zero());
    let d = any_date("date");
    let x = c.r_and_t(d);
    if d == base {
        prove("is not an error", x.is_ok());
        let (r, t) = x.unwrap();
        prove_eq("nothing at the base date", r * t, 0.0);
        cover("base");
    } else {
        if let Ok((_, t)) = x { prove_eq("time", t, (j(d) - j(base)) as f64 / 365.0); }
        linear(j(d) as f64, &|i| j(pts[i].0) as f64, &|i| pts[i].1, pts.len(), lk, rk, x.map(|p| p.0));
        cover("other");
    }
}

fn interpolated_curve_bounded() {
    let base = mid_date("base");
    let n = 1 + choose("points", 3);
    let mut pts = Vec::new();
    let mut d = base;
    for _ in 0..n {
        d += any_i32("gap", 1, 400);
        pts.push((d, any_f64("y", -0.05, 0.15)));
    }
    let (l, lk) = policy("left");
    let (rt, rk) = policy("right");
    let made = RateCurveAct365::new(base, &pts, l, rt);
    prove("is accepted", made.is_ok());
    let c = made.unwrap();
    let d = base + any_i32("days", 1, 1500);
    let x = c.r_and_t(d);
    if let Ok((_, t)) = x { prove_eq("time", t, (j(d) - j(base)) as f64 / 365.0); }
    linear(j(d) as f64, &|i| j(pts[i].0) as f64, &|i| pts[i].1, pts.len(), lk, rk, x.map(|p| p.0));
}

fn zero_curve() {
    let base = any_date("base");
    let c: RcRateCurve = RcRateCurve::new(Arc::new(ZeroRateCurve::new(base)));
    let (a, b) = (any_date("a"), any_date("b"));
    prove_eq("no growth", c.rt(a).unwrap(), 0.0);
    prove_eq("one", df(&c, a, b), 1.0);
    prove("base date", c.base_date() == base);
    prove("marked as zero", c.is_zero());
    cover("done");
}

/// Bumping a zero curve gives a curve with the bump as its rate
fn zero_curve_bumped() {
    let base = mid_date("base");
    let c: RcRateCurve = RcRateCurve::new(Arc::new(ZeroRateCurve::new(base)));
    let d = base + any_i32("days", 0, 5000);
    let bump = any_f64("bump", -0.05, 0.05);
    let b = BumpYield::new_flat_continuously_compounded(bump).apply(c);
    prove_eq("grows at the bump", b.rt(d).unwrap(), bump * (j(d) - j(base)) as f64 / 365.0);
    cover("done");
}

fn continuous_bump() {
    let c = any_rates(0);
    let d = any_date("date");
    let bump = any_f64("bump", -0.05, 0.05);
    let b: RcRateCurve = RcRateCurve::new(Arc::new(ContinuouslyCompoundedFlatBump::new(c.clone(), bump)));
    prove_eq("rate plus bump", b.r_and_t(d).unwrap().0, curve_r(0, d) + bump);
    prove_eq("rate times time", b.rt(d).unwrap(), (curve_r(0, d) + bump) * curve_t(0, d));
    same_frame(&c, &b, d);
    prove("not marked as zero", !b.is_zero());
    let b2 = BumpYield::new_flat_continuously_compounded(bump).apply(c.clone());
    prove_eq("rate plus bump, by bumping", b2.r_and_t(d).unwrap().0, curve_r(0, d) + bump);
    same_frame(&c, &b2, d);
    cover("done");
}

fn annualised_bump() {
    let c = any_rates(0);
    let d = any_date("date");
    let bump = any_f64("bump", -0.05, 0.05);
    let y = curve_r(0, d).exp();
    assume(y + bump > 0.0);
    let b: RcRateCurve = RcRateCurve::new(Arc::new(AnnualisedFlatBump::new(c.clone(), bump)));
    prove_eq("annual growth plus bump", b.r_and_t(d).unwrap().0.exp(), y + bump);
    prove_eq("rate times time", b.rt(d).unwrap(), (y + bump).ln() * curve_t(0, d));
    same_frame(&c, &b, d);
    prove("not marked as zero", !b.is_zero());
    let b2 = BumpYield::new_flat_annualised(bump).apply(c.clone());
    prove_eq("annual growth plus bump, by bumping", b2.r_and_t(d).unwrap().0.exp(), y + bump);
    same_frame(&c, &b2, d);
    cover("done");
}

fn relative_factor() {
    let c = any_rates(0);
    let d = any_date("date");
    let factor = any_f64("factor", 0.5, 1.5);
    let b: RcRateCurve = RcRateCurve::new(Arc::new(RelativeBump::new(c.clone(), factor)));
    prove_eq("scaled rate", b.r_and_t(d).unwrap().0, curve_r(0, d) * factor);
    prove_eq("rate times time", b.rt(d).unwrap(), curve_r(0, d) * factor * curve_t(0, d));
    same_frame(&c, &b, d);
    cover("done");
}
}
