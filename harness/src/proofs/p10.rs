//! P10: variance
use crate::contracts::*;
use crate::sym::*;
use quantmath::core::qm;
use quantmath::data::forward::Forward;
use quantmath::data::voldecorators::*;
use quantmath::data::volsmile::*;
use quantmath::data::volsurface::*;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;
use quantmath::math::interpolation::{Extrap, Interpolate, Linear};
use std::sync::Arc;

const FWD: i32 = 7;

fn strike() -> f64 {
    let k = any_f64("strike", 30.0, 200.0);
    assume(k > 0.0);
    k
}

/// A forward variance that must not be negative
fn forward_variance(r: Result<f64, qm::Error>, expected: f64) {
    if expected < 0.0 {
        prove("negative forward variance is an error", r.is_err());
        cover("negative");
    } else {
        prove("is not an error", r.is_ok());
        prove_close("later less earlier", r.unwrap(), expected, 1.0);
        cover("positive");
    }
}

/// Variance at a strike
fn var(s: &dyn VolSurface, d: DateDayFraction, k: f64) -> f64 {
    let r = s.variance(d, k);
    prove("has a variance", r.is_ok());
    r.unwrap()
}

fn two_flat(base: DateDayFraction, p1: DateDayFraction, p2: DateDayFraction, v1: f64, v2: f64) -> Result<VolByProbabilityFlatSmile, qm::Error> {
    let f = Linear::new(&[(base.date(), 100.0), (base.date() + 1000, 110.0)], Extrap::Flat, Extrap::Flat).unwrap();
    let d = Linear::new(&[(base.date(), 0.0)], Extrap::Flat, Extrap::Flat).unwrap();
    VolByProbabilityFlatSmile::new(&[(p1, FlatSmile::new(v1).unwrap()), (p2, FlatSmile::new(v2).unwrap())],
        any_time(), base, f, d, DivAssumptions::NoCashDivs)
}

/// A surface with two expiries
struct Expiries { s: VolByProbabilityFlatSmile, base: DateDayFraction, p1: DateDayFraction, p2: DateDayFraction, v1: f64, v2: f64, t1: f64, t2: f64 }

fn expiries() -> Expiries {
    let base = any_moment("base");
    let p1 = later(base, "first", 1, 300);
    let p2 = later(p1, "second", 1, 300);
    let (v1, v2) = (any_f64("vol", 0.2, 0.25), any_f64("vol", 0.25, 0.5));
    assume(v1 > 0.0 && v2 >= v1);
    let (t1, t2) = (clock(p1) - clock(base), clock(p2) - clock(base));
    assume(t1 > 0.0 && t2 > t1);
    let made = two_flat(base, p1, p2, v1, v2);
    assume(made.is_ok());
    Expiries { s: made.unwrap(), base: base, p1: p1, p2: p2, v1: v1, v2: v2, t1: t1, t2: t2 }
}

contracts! {
fn variance_of_volatility() {
    let s = any_vol(1, any_moment("base"), None);
    let d = any_moment("date");
    let (k1, k2) = (strike(), strike());
    prove_eq("one strike", s.variance(d, k1).unwrap(), var_at(1, d, k1));
    let mut out = [f64::NAN, f64::NAN];
    prove("is not an error", s.variances(d, &[k1, k2], &mut out).is_ok());
    prove_eq("first of two", out[0], var_at(1, d, k1));
    prove_eq("second of two", out[1], var_at(1, d, k2));
    prove_eq("time", s.vol_time(d).unwrap(), vol_t(1, d));
    cover("done");
}

fn forward_variance_without_smile() {
    let base = any_moment("base");
    let s = any_vol(1, base, None);
    let (from, to) = (later(base, "from", 0, 400), any_moment("to"));
    let k = strike();
    let r = s.forward_variance(from, to, k);
    if from.date() == base.date() && from.day_fraction() <= base.day_fraction() {
        prove("from the start is not an error", r.is_ok());
        prove_eq("from the start", r.unwrap(), var_at(1, to, k));
        cover("start");
    } else {
        forward_variance(r, var_at(1, to, k) - var_at(1, from, k));
    }
}

fn forward_variance_two_strikes() {
    let base = any_moment("base");
    let s = any_vol(1, base, None);
    let (from, to) = (later(base, "from", 1, 400), any_moment("to"));
    let (k1, k2) = (strike(), strike());
    let mut out = [f64::NAN, f64::NAN];
    let r = s.forward_variances(from, to, &[k1, k2], &mut out);
    let e1 = var_at(1, to, k1) - var_at(1, from, k1);
    let e2 = var_at(1, to, k2) - var_at(1, from, k2);
    prove("an error exactly if one is negative", r.is_ok() == (e1 >= 0.0 && e2 >= 0.0));
    if r.is_ok() {
        prove_eq("first", out[0], e1);
        prove_eq("second", out[1], e2);
        cover("both");
    }
}

fn forward_variance_at_the_money() {
    let base = any_moment("base");
    let s = any_vol(1, base, Some(FWD));
    let (from, to) = (later(base, "from", 1, 400), later(base, "to", 1, 800));
    let smile = s.find_smile_date(from, to);
    let k = fwd_at(FWD, smile.date());
    let r = s.forward_variance(from, to, k);
    let e = var_at(1, to, fwd_at(FWD, to.date())) - var_at(1, from, fwd_at(FWD, from.date()));
    forward_variance(r, e);
}

fn forward_variance_with_smile() {
    let base = any_moment("base");
    let s = any_vol(1, base, Some(FWD));
    let (from, to) = (later(base, "from", 1, 400), later(base, "to", 1, 800));
    let smile = s.find_smile_date(from, to);
    let k = strike();
    let atm = var_at(1, to, fwd_at(FWD, to.date())) - var_at(1, from, fwd_at(FWD, from.date()));
    assume(atm >= 0.0);
    let e = atm + var_at(1, smile, k) - var_at(1, smile, fwd_at(FWD, smile.date()));
    forward_variance(s.forward_variance(from, to, k), e);
}

fn smile_date() {
    let base = any_moment("base");
    let s = any_vol(1, base, Some(FWD));
    let (from, to) = (later(base, "from", 1, 400), later(base, "to", 1, 800));
    let days = s.calendar().count_business_days(from.date(), from.day_fraction(), to.date(), to.day_fraction());
    let got = s.find_smile_date(from, to);
    prove("as far from the base date", got.date() == s.calendar().step_partial(base.date(), days, true));
    prove_eq("same time of day", got.day_fraction(), to.day_fraction());
    cover("done");
}

fn adds_up() {
    let base = any_moment("base");
    let s = any_vol(1, base, None);
    let (a, b, c) = (later(base, "a", -10, 400), later(base, "b", -10, 400), later(base, "c", -10, 400));
    assume(a <= b && b <= c);
    let k = strike();
    if let (Ok(x), Ok(y), Ok(z)) = (s.forward_variance(a, b, k), s.forward_variance(b, c, k), s.forward_variance(a, c, k)) {
        if b > base {
            prove_close("parts make the whole", x + y, z, 1.0);
            cover("done");
        }
    }
}

fn flat() {
    let base = any_moment("base");
    let vol = any_f64("vol", 0.0, 0.6);
    let s = FlatVolSurface::new(vol, any_calendar(), base);
    let d = any_moment("date");
    let k = strike();
    let t = s.calendar().year_fraction(base, d);
    prove_eq("time", s.vol_time(d).unwrap(), t);
    prove_eq("variance", var(&s, d, k), vol * vol * t);
    prove("base date", s.base_date() == base);
    prove("no smile", s.forward().is_none());
    cover("done");
}

fn constant_expiry() {
    let s = any_vol(1, any_moment("base"), None);
    let offset = any_f64("offset", -0.5, 0.5);
    let moved = any_moment("new base");
    let e = ConstantExpiryTimeEvolution::new(s, offset, moved);
    let d = any_moment("date");
    let (k1, k2) = (strike(), strike());
    let mut out = [f64::NAN, f64::NAN];
    let t = e.volatilities(d, &[k1, k2], &mut out).unwrap();
    prove_eq("same vol", out[0], vol_at(1, d, k1));
    prove_eq("same vol, second strike", out[1], vol_at(1, d, k2));
    let left = vol_t(1, d) - offset;
    prove_eq("time from the new base date", t, if left > 0.0 { left } else { 0.0 });
    prove("base date", e.base_date() == moved);
    cover("done");
}

fn rolling_expiry() {
    let s = any_vol(1, any_moment("base"), None);
    let days = any_i32("days", 0, 300);
    let basis = s.calendar().standard_basis();
    assume(basis > 0.0);
    let moved = any_moment("new base");
    let e = RollingExpiryTimeEvolution::new(s.clone(), days as f64 / basis, moved);
    let d = any_moment("date");
    let k = strike();
    let mut out = [f64::NAN];
    let t = e.volatilities(d, &[k], &mut out).unwrap();
    let back = DateDayFraction::new(s.calendar().step(d.date(), -days, days == 0), d.day_fraction());
    prove_eq("vol of the earlier expiry", out[0], vol_at(1, back, k));
    prove_eq("time of the earlier expiry", t, vol_t(1, back));
    prove("base date", e.base_date() == moved);
    cover("done");
}

/// Moving the base date
fn evolution() {
    let base = any_moment("base");
    let s = any_vol(1, base, None);
    let basis = s.calendar().standard_basis();
    assume(basis > 0.0);
    let spot_date = base.date() + any_i32("days", 0, 300);
    let target = DateDayFraction::new(spot_date, 0.0);
    let d = any_moment("date");
    let k = strike();
    let offset = s.calendar().year_fraction(base, target);
    let mut moved = s.clone();
    let constant = choose("rule", 2) == 0;
    let rule = if constant { VolTimeDynamics::ConstantExpiry } else { VolTimeDynamics::RollingExpiry };
    prove("is not an error", rule.modify(&mut moved, spot_date).is_ok());
    let mut out = [f64::NAN];
    let t = moved.volatilities(d, &[k], &mut out).unwrap();
    if spot_date == base.date() || (offset < 0.000000000001 && offset > -0.000000000001) {
        prove("stays put", moved.base_date() == base);
        prove_eq("same vol", out[0], vol_at(1, d, k));
        prove_eq("same time", t, vol_t(1, d));
        cover("same");
    } else {
        prove("new base date", moved.base_date() == target);
        if constant {
            prove_eq("vol of the same expiry", out[0], vol_at(1, d, k));
            let left = vol_t(1, d) - offset;
            prove_eq("time from the new base date", t, if left > 0.0 { left } else { 0.0 });
            cover("constant");
        } else {
            let r = RollingExpiryTimeEvolution::new(s.clone(), offset, target);
            let mut o = [f64::NAN];
            let t2 = r.volatilities(d, &[k], &mut o).unwrap();
            prove_eq("vol of the rolled expiry", out[0], o[0]);
            prove_eq("time of the rolled expiry", t, t2);
            cover("rolling");
        }
    }
}

/// Following the forward
fn sticky_delta() {
    let s = any_vol(1, any_moment("base"), Some(FWD));
    let e = StickyDeltaBumpVol::new(s, Arc::new(AnyForward(8)));
    let d = any_moment("date");
    let (k1, k2) = (strike(), strike());
    let mut out = [f64::NAN, f64::NAN];
    let t = e.volatilities(d, &[k1, k2], &mut out).unwrap();
    let r = fwd_at(FWD, d.date()) / fwd_at(8, d.date());
    prove_eq("vol at the same moneyness", out[0], vol_at(1, d, k1 * r));
    prove_eq("vol at the same moneyness, second strike", out[1], vol_at(1, d, k2 * r));
    prove_eq("same time", t, vol_t(1, d));
    prove_eq("centred on the new forward", e.forward().unwrap().interpolate(d.date()).unwrap(), fwd_at(8, d.date()));
    cover("done");
}

fn forward_rule() {
    let base = any_moment("base");
    let smile = choose("smile", 2) == 1;
    let s = any_vol(1, base, if smile { Some(FWD) } else { None });
    let delta = choose("rule", 2) == 1;
    let rule = if delta { VolForwardDynamics::StickyDelta } else { VolForwardDynamics::StickyStrike };
    prove("depends on the forward", rule.depends_on_forward() == delta);
    let mut moved = s.clone();
    let made = rule.modify(&mut moved, &|| Ok(Arc::new(AnyForward(8)) as Arc<dyn Forward>));
    prove("is not an error", made.is_ok());
    let d = any_moment("date");
    let k = strike();
    let mut out = [f64::NAN];
    let t = moved.volatilities(d, &[k], &mut out).unwrap();
    prove_eq("same time", t, vol_t(1, d));
    let (f, g) = (fwd_at(FWD, base.date()), fwd_at(8, base.date()));
    if smile && delta && (f - g >= f * 0.000000000001 || g - f >= f * 0.000000000001) {
        prove_eq("vol at the same moneyness", out[0], vol_at(1, d, k * (fwd_at(FWD, d.date()) / fwd_at(8, d.date()))));
        cover("moved");
    } else {
        prove_eq("vol at the same strike", out[0], vol_at(1, d, k));
        cover("stays");
    }
}

fn falling_variance() {
    let base = any_moment("base");
    let (p1, p2) = (base + 100, base + 200);
    let (v1, v2) = (any_f64("vol", 0.05, 0.5), any_f64("vol", 0.05, 0.5));
    let (t1, t2) = (clock(p1) - clock(base), clock(p2) - clock(base));
    assume(t1 > 0.0 && t2 > t1);
    let made = two_flat(base, p1, p2, v1, v2);
    prove("refused exactly if variance falls", made.is_err() == (v1 * v1 * t1 > v2 * v2 * t2));
    cover("done");
}

fn at_expiries() {
    let e = expiries();
    let k = strike();
    if choose("which", 2) == 0 { prove_close("first", var(&e.s, e.p1, k), e.v1 * e.v1 * e.t1, 1.0); }
    else { prove_close("second", var(&e.s, e.p2, k), e.v2 * e.v2 * e.t2, 1.0); }
    cover("done");
}

fn outside_expiries() {
    let e = expiries();
    let k = strike();
    let d = later(e.base, "date", 0, 700);
    let t = clock(d) - clock(e.base);
    assume(t > 0.0);
    if d < e.p1 { prove_close("before", var(&e.s, d, k), e.v1 * e.v1 * t, 1.0); cover("before"); }
    else if d > e.p2 { prove_close("after", var(&e.s, d, k), e.v2 * e.v2 * t, 1.0); cover("after"); }
}

fn between_expiries() {
    let e = expiries();
    let k = strike();
    let d = later(e.p1, "date", 1, 700);
    assume(d.date() < e.p2.date());
    let t = clock(d) - clock(e.base);
    assume(t > e.t1 && t < e.t2);
    let v = var(&e.s, d, k);
    prove_close("variance is linear in time", v, (e.v1 * e.v1 * e.t1 * (e.t2 - t) + e.v2 * e.v2 * e.t2 * (t - e.t1)) / (e.t2 - e.t1), 1.0);
    cover("done");
}

/// The time of an interpolated surface is that of its calendar
fn time_of_expiries() {
    let base = any_moment("base");
    let p1 = later(base, "first", 1, 300);
    let p2 = later(p1, "second", 1, 300);
    let (t1, t2) = (clock(p1) - clock(base), clock(p2) - clock(base));
    assume(t1 > 0.0 && t2 > t1);
    let s = two_flat(base, p1, p2, 0.2, 0.2).unwrap();
    let d = later(base, "date", 0, 700);
    prove_eq("time", s.vol_time(d).unwrap(), clock(d) - clock(base));
    prove("base date", s.base_date() == base);
    cover("done");
}

/// The volatility with no time left is a number
fn no_time_left() {
    let base = any_moment("base");
    let cal = any_calendar();
    assume(cal.standard_basis() > 0.0);
    let p = later(base, "expiry", 1, 300);
    let f = Linear::new(&[(base.date(), 100.0), (base.date() + 1000, 110.0)], Extrap::Flat, Extrap::Flat).unwrap();
    let z = Linear::new(&[(base.date(), 0.0)], Extrap::Flat, Extrap::Flat).unwrap();
    let smile = CubicSplineSmile::new(&[(80.0, 0.3), (120.0, 0.2)]).unwrap();
    assume(cal.year_fraction(base, p) > 0.0);
    let s = VolByProbabilityCubicSplineSmile::new(&[(p, smile)], any_calendar(), base, f, z, DivAssumptions::NoCashDivs).unwrap();
    let k = strike();
    let mut out = [f64::NAN];
    let t = s.volatilities(base, &[k], &mut out).unwrap();
    prove_eq("no time", t, 0.0);
    prove("a number", out[0].is_finite());
    prove_eq("no variance", s.variance(base, k).unwrap(), 0.0);
    cover("done");
}

fn displacements() {
    let base = any_moment("base");
    let f = Linear::new(&[(base.date(), 100.0)], Extrap::Flat, Extrap::Flat).unwrap();
    let z = Linear::new(&[(base.date(), 3.0)], Extrap::Flat, Extrap::Flat).unwrap();
    let (a, e) = match choose("div assumptions", 4) {
        0 => (DivAssumptions::NoCashDivs, Some(0.0)),
        1 => (DivAssumptions::IndependentLogNormals, Some(0.0)),
        2 => (DivAssumptions::FixedDivs, Some(3.0)),
        _ => (DivAssumptions::JumpDivs, None),
    };
    let p = later(base, "expiry", 1, 300);
    let s = VolByProbabilityFlatSmile::new(&[(p, FlatSmile::new(0.0).unwrap())], any_calendar(), base, f, z, a).unwrap();
    let d: Date = base.date() + any_i32("days", 0, 500);
    match (s.displacement(d), e) {
        (Ok(x), Some(y)) => prove_eq("displacement", x, y),
        (Err(_), None) => {}
        _ => prove("displacement", false),
    }
    cover("done");
}
}
