//! P09: the option formula
use crate::sym::*;
use quantmath::math::optionpricing::Black76;

fn setup() -> (Black76, f64, f64, f64) {
    let df = any_f64("df", 0.5, 1.1);
    let forward = any_f64("forward", 50.0, 150.0);
    let strike = any_f64("strike", 0.0, 200.0);
    assume(df > 0.0 && forward > 0.0 && strike >= 0.0);
    (Black76::new().unwrap(), df, forward, strike)
}

/// For s > 0 and m = ln(f/k): f Phi(m/s + s/2) - k Phi(m/s - s/2) is positive and
/// more than f - k (the price of an option on a lognormal with mean f)
fn lemma_lognormal(b: &Black76, f: f64, k: f64, s: f64) {
    let m = (f / k).ln();
    let c = b.cdf(m / s + 0.5 * s) * f - b.cdf(m / s - 0.5 * s) * k;
    lemma("an option on a positive variable with mean f is worth at least max(f - k, 0)", (c >= -0.0000001 * (f + k)) & (c >= f - k - 0.0000001 * (f + k)));
}

contracts! {
fn parity() {
    let (b, df, f, k) = setup();
    let s = any_f64("sqrt variance", 0.0, 1.0);
    assume(s > 0.0);
    prove_close("call minus put", b.call_price(df, f, k, s) - b.put_price(df, f, k, s), df * (f - k), 100.0);
    cover("done");
}

fn zero_variance() {
    let (b, df, f, k) = setup();
    let c = b.call_price(df, f, k, 0.0);
    let p = b.put_price(df, f, k, 0.0);
    if f > k {
        prove_close("call", c, df * (f - k), 100.0);
        prove_close("put", p, 0.0, 100.0);
        cover("above");
    } else if f < k {
        prove_close("call", c, 0.0, 100.0);
        prove_close("put", p, df * (k - f), 100.0);
        cover("below");
    } else {
        prove_close("call", c, 0.0, 100.0);
        prove_close("put", p, 0.0, 100.0);
        cover("at");
    }
}

fn zero_strike() {
    let (b, df, f, _) = setup();
    let s = any_f64("sqrt variance", 0.0, 1.0);
    assume(s >= 0.0);
    prove_close("call", b.call_price(df, f, 0.0, s), df * f, 0.0);
    prove_close("put", b.put_price(df, f, 0.0, s), 0.0, 0.0);
    cover("done");
}

fn bounds() {
    let (b, df, f, k) = setup();
    let s = any_f64("sqrt variance", 0.0, 1.0);
    assume(s > 0.0 && k > 0.0);
    lemma_lognormal(&b, f, k, s);
    let c = b.call_price(df, f, k, s);
    let p = b.put_price(df, f, k, s);
    let e = 0.000001 * df * (f + k);
    prove_le("call below forward", c, df * f);
    prove_le("put below strike", p, df * k);
    prove_le("call above zero", -e, c);
    prove_le("put above zero", -e, p);
    prove_le("call above intrinsic", df * (f - k) - e, c);
    prove_le("put above intrinsic", df * (k - f) - e, p);
    cover("done");
}

/// The formula itself, in terms of the normal distribution
fn formula() {
    let (b, df, f, k) = setup();
    let s = any_f64("sqrt variance", 0.0, 1.0);
    assume(s > 0.0 && k > 0.0);
    let m = (f / k).ln();
    let (hi, lo) = (m / s + s / 2.0, m / s - s / 2.0);
    prove_close("call", b.call_price(df, f, k, s), df * (f * b.cdf(hi) - k * b.cdf(lo)), 100.0);
    prove_close("put", b.put_price(df, f, k, s), df * (k * b.cdf(-lo) - f * b.cdf(-hi)), 100.0);
    cover("done");
}
}
