//! P11: volatility bumps
use crate::contracts::*;
use crate::sym::*;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::volsurface::*;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::math::interpolation::Interpolate;

fn floor(x: f64) -> f64 { if x > 0.0 { x } else { 0.0 } }

/// Volatilities at two strikes and the time
pub fn vols(s: &RcVolSurface, d: DateDayFraction, k1: f64, k2: f64) -> (f64, f64, f64) {
    let mut out = [f64::NAN, f64::NAN];
    let t = s.volatilities(d, &[k1, k2], &mut out);
    prove("is not an error", t.is_ok());
    (out[0], out[1], t.unwrap())
}

/// What no bump changes
fn frame(a: &RcVolSurface, b: &RcVolSurface, d: DateDayFraction) {
    prove("same base date", a.base_date() == b.base_date());
    prove("same calendar", a.calendar().is_holiday(d.date()) == b.calendar().is_holiday(d.date()));
    prove_eq("same time", b.vol_time(d).unwrap(), a.vol_time(d).unwrap());
    match (a.forward(), b.forward()) {
        (None, None) => {}
        (Some(f), Some(g)) => prove_eq("same forward", f.interpolate(d.date()).unwrap(), g.interpolate(d.date()).unwrap()),
        _ => prove("same forward", false),
    }
    prove_eq("same displacement", a.displacement(d.date()).unwrap(), b.displacement(d.date()).unwrap());
}

fn surface() -> (RcVolSurface, DateDayFraction, f64, f64) {
    let f = if choose("smile", 2) == 0 { None } else { Some(7) };
    let s = any_vol(1, any_moment("base"), f);
    (s, any_moment("date"), any_f64("strike", 10.0, 200.0), any_f64("strike", 10.0, 200.0))
}

contracts! {
fn additive() {
    let (s, d, k1, k2) = surface();
    let bump = any_f64("bump", -0.3, 0.3);
    let b = BumpVol::new_flat_additive(bump).apply(s.clone());
    let (v1, v2, t) = vols(&b, d, k1, k2);
    prove_eq("plus bump, floored", v1, floor(vol_at(1, d, k1) + bump));
    prove_eq("plus bump, floored, second strike", v2, floor(vol_at(1, d, k2) + bump));
    prove_eq("time", t, vol_t(1, d));
    frame(&s, &b, d);
    cover("done");
}

fn time_scaled() {
    let (s, d, k1, k2) = surface();
    let bump = any_f64("bump", -0.3, 0.3);
    let least = any_f64("floor", 0.01, 0.3);
    assume(least > 0.0);
    let b = BumpVol::new_time_scaled(bump, least).apply(s.clone());
    let (v1, v2, t) = vols(&b, d, k1, k2);
    let time = vol_t(1, d);
    let scaled = bump / (if time > least { time } else { least }).sqrt();
    prove_eq("plus scaled bump, floored", v1, floor(vol_at(1, d, k1) + scaled));
    prove_eq("plus scaled bump, floored, second strike", v2, floor(vol_at(1, d, k2) + scaled));
    prove_eq("time", t, vol_t(1, d));
    frame(&s, &b, d);
    cover("done");
}

fn replace() {
    let (s, d, k1, k2) = surface();
    let vol = any_f64("vol", 0.0, 0.5);
    let b = BumpVol::new_replace(vol).apply(s.clone());
    let (v1, v2, t) = vols(&b, d, k1, k2);
    prove_eq("the given vol", v1, vol);
    prove_eq("the given vol, second strike", v2, vol);
    prove_eq("calendar time", t, s.calendar().year_fraction(s.base_date(), d));
    prove("same base date", s.base_date() == b.base_date());
    cover("done");
}

fn opposite_additive() {
    let (s, d, k1, k2) = surface();
    let bump = any_f64("bump", 0.0, 0.3);
    assume(bump >= 0.0);
    let up = BumpVol::new_flat_additive(bump);
    let b = up.opposite().apply(up.apply(s.clone()));
    let n = BumpVol::new_flat_additive(-bump).apply(s);
    let (v1, v2, t) = vols(&b, d, k1, k2);
    let (w1, w2, u) = vols(&n, d, k1, k2);
    prove_close("as the negative bump", v1, w1, 1.0);
    prove_close("as the negative bump, second strike", v2, w2, 1.0);
    prove_eq("time", t, u);
    cover("done");
}

fn opposite_time_scaled() {
    let (s, d, k1, k2) = surface();
    let bump = any_f64("bump", 0.0, 0.3);
    let least = any_f64("floor", 0.01, 0.3);
    assume(bump >= 0.0 && least > 0.0);
    let up = BumpVol::new_time_scaled(bump, least);
    let b = up.opposite().apply(up.apply(s.clone()));
    let n = BumpVol::new_time_scaled(-bump, least).apply(s);
    let (v1, v2, t) = vols(&b, d, k1, k2);
    let (w1, w2, u) = vols(&n, d, k1, k2);
    prove_close("as the negative bump", v1, w1, 1.0);
    prove_close("as the negative bump, second strike", v2, w2, 1.0);
    prove_eq("time", t, u);
    cover("done");
}

/// The opposite is the exact one or the one for relative bumps, and nothing else
fn opposite_either() {
    let (s, d, k, _) = surface();
    let bump = any_f64("bump", 0.0, 0.3);
    let least = any_f64("floor", 0.01, 0.3);
    assume(bump >= 0.0 && least > 0.0);
    let scaled = choose("kind", 2) == 1;
    let up = if scaled { BumpVol::new_time_scaled(bump, least) } else { BumpVol::new_flat_additive(bump) };
    let size = up.opposite().bumpsize();
    if size != -2.0 * bump { prove_close("size", size * (1.0 + bump), -2.0 * bump, 1.0); }
    let down = if scaled { BumpVol::new_time_scaled(size, least) } else { BumpVol::new_flat_additive(size) };
    let (v1, v2, t) = vols(&up.opposite().apply(up.apply(s.clone())), d, k, k);
    let (w1, w2, u) = vols(&down.apply(up.apply(s)), d, k, k);
    prove_eq("same kind of bump", v1, w1);
    prove_eq("same kind of bump, second strike", v2, w2);
    prove_eq("time", t, u);
    cover("done");
}

fn sizes() {
    let bump = any_f64("bump", -0.3, 0.3);
    prove_eq("additive", BumpVol::new_flat_additive(bump).bumpsize(), bump);
    prove_eq("scaled", BumpVol::new_time_scaled(bump, 0.1).bumpsize(), bump);
    cover("done");
}
}
