//! P08: forwards
use super::p07::*;
use crate::contracts::*;
use crate::sym::*;
use quantmath::data::divstream::*;
use quantmath::data::forward::*;
use quantmath::dates::Date;
use quantmath::math::interpolation::Interpolate;

const SETTLE: i32 = 5;
const YIELD: i32 = 3;

fn equity(base: Date, spot: f64, divs: &[Dividend], far: Date) -> EquityForward {
    let stream = DividendStream::new(divs, zero_yield(base));
    let made = EquityForward::new(base, spot, any_rule(SETTLE), any_rates(RATE), any_rates(BORROW), &stream, far);
    prove("is accepted", made.is_ok());
    made.unwrap()
}

fn fwd(f: &dyn Forward, d: Date) -> f64 {
    let r = f.forward(d);
    prove("is not an error", r.is_ok());
    r.unwrap()
}

fn with_divs(n: usize) {
    let base = mid_date("base");
    let spot = any_f64("spot", 50.0, 150.0);
    let divs = any_divs(base, n);
    let d = base + any_i32("days", 0, 400);
    let f = equity(base, spot, &divs, d);
    let reference = spot * log_d(base, settle(SETTLE, base)).exp();
    let t = totals(&divs, reference, base, d);
    let carried = (reference - t.discounted) / log_d(base, settle(SETTLE, d)).exp();
    prove_close("carried net of dividends", fwd(&f, d), carried, 100.0);
    prove_close("same by interpolation", f.as_interp().interpolate(d).unwrap_or(f64::NAN), carried, 100.0);
    prove_close("cash dividends left", f.fixed_divs_after(d).unwrap_or(f64::NAN), t.cash_left, 10.0);
    cover("done");
}

contracts! {
fn equity_forward() { with_divs(0); }
fn equity_forward_one_bounded() { with_divs(1); }
fn equity_forward_two_bounded() { with_divs(2); }

/// Without dividends the forward at the base date is spot, whatever the curves
fn today() {
    let base = mid_date("base");
    let spot = any_f64("spot", 50.0, 150.0);
    let f = equity(base, spot, &[], base + 10);
    prove_close("spot", fwd(&f, base), spot, 0.0);
    cover("done");
}

/// Spot and cash dividends scaled together scale the forward
fn proportional_bounded() {
    let base = mid_date("base");
    let spot = any_f64("spot", 50.0, 150.0);
    let k = any_f64("scale", 0.1, 3.0);
    let divs = any_divs(base, 1);
    let scaled: Vec<Dividend> = divs.iter().map(|x| Dividend::new(x.cash() * k, x.relative(), x.ex_date(), x.pay_date())).collect();
    let d = base + any_i32("days", 0, 400);
    let a = fwd(&equity(base, spot, &divs, d), d);
    let b = fwd(&equity(base, spot * k, &scaled, d), d);
    prove_close("scaled", b, a * k, 100.0);
    cover("done");
}

/// Asking beyond the date the forward was prepared for is an error
fn beyond() {
    let base = mid_date("base");
    let far = base + any_i32("far", 0, 400);
    let d = base + any_i32("days", 0, 800);
    let f = equity(base, 100.0, &[], far);
    prove("only within what was asked for", f.forward(d).is_ok() == (d <= far));
    cover("done");
}

fn driftless() {
    let v = any_f64("value", 50.0, 150.0);
    let f = DriftlessForward::new(v);
    let d = any_date("date");
    prove_eq("its value", fwd(&f, d), v);
    prove_eq("its value, by interpolation", f.as_interp().interpolate(d).unwrap_or(f64::NAN), v);
    prove_eq("no dividends", f.fixed_divs_after(d).unwrap_or(f64::NAN), 0.0);
    cover("done");
}

fn interpolated() {
    let f = InterpolatedForward::new(Box::new(DriftlessForward::new(any_f64("value", 50.0, 150.0))));
    let d = any_date("date");
    prove_eq("the interpolator's value", fwd(&f, d), fwd(&DriftlessForward::new(f.as_interp().interpolate(d).unwrap()), d));
    cover("done");
}

/// A dividend yield on top of the explicit dividends lowers the forward
fn dividend_yield() {
    let base = mid_date("base");
    let spot = any_f64("spot", 50.0, 150.0);
    let d = base + any_i32("days", 0, 400);
    let stream = DividendStream::new(&[], any_rates(YIELD));
    let made = EquityForward::new(base, spot, any_rule(SETTLE), any_rates(RATE), any_rates(BORROW), &stream, d);
    prove("is accepted", made.is_ok());
    let plain = fwd(&equity(base, spot, &[], d), d);
    prove_close("reduced by the yield", fwd(&made.unwrap(), d), plain * (-curve_rt(YIELD, settle(SETTLE, d))).exp(), 100.0);
    cover("done");
}

/// The yield acts over the settled period in one direction or the other, and in
/// no other way
fn dividend_yield_either() {
    let base = mid_date("base");
    let spot = any_f64("spot", 50.0, 150.0);
    let d = base + any_i32("days", 0, 400);
    let stream = DividendStream::new(&[], any_rates(YIELD));
    let made = EquityForward::new(base, spot, any_rule(SETTLE), any_rates(RATE), any_rates(BORROW), &stream, d);
    prove("is accepted", made.is_ok());
    let plain = fwd(&equity(base, spot, &[], d), d);
    let value = fwd(&made.unwrap(), d);
    let q = curve_rt(YIELD, settle(SETTLE, d));
    if (value - plain * (-q).exp()).abs() > 1e-6 * spot { prove_close("by the yield", value, plain * q.exp(), 100.0); }
    cover("done");
}
}
