//! P14: values of holdings
use crate::contracts::*;
use crate::market::*;
use crate::sym::*;
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::Pricer;
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::Date;
use quantmath::instruments::assets::{Currency, Equity};
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::math::optionpricing::Black76;
use std::sync::Arc;

fn weight(k: usize) -> f64 { uf("weight", &[k as f64], -3.0, 3.0) }

fn market() -> AnyContext { AnyContext { spot_date: mid_date("spot date") } }

fn put_or_call() -> PutOrCall { if choose("put", 2) == 1 { PutOrCall::Put } else { PutOrCall::Call } }

/// The value of an option whose underlying is the arbitrary instrument 1, called A
fn option_value(context: &AnyContext, kind: PutOrCall, expiry: DateTime, at: DateTime, from: Option<DateTime>, strike: f64, forward: f64) -> Result<f64, qm::Error> {
    let vol = any_vol(1, DateDayFraction::new(context.spot_date, 0.0), None);
    let d = vol.displacement(expiry.date())?;
    if forward - d < 0.0 { return Err(qm::Error::new("no value")); }
    if at > expiry { return Ok(0.0); }
    let start = moment_of(1, at);
    let start = match from { Some(f) => { let f = moment_of(1, f); if f > start { f } else { start } }, None => start };
    let variance = vol.forward_variance(start, moment_of(1, expiry), strike)?;
    let discount = df(number("O"), settle(3, expiry.date()), settle(3, at.date()));
    if variance < 0.0 { return Err(qm::Error::new("no value")); }
    let black = Black76::new().unwrap();
    let k = strike - d;
    // a displaced underlying never falls below a strike below the displacement
    if k <= 0.0 {
        cover("strike below the displacement");
        return Ok(match kind { PutOrCall::Call => discount * (forward - strike), PutOrCall::Put => 0.0 });
    }
    Ok(match kind {
        PutOrCall::Call => black.call_price(discount, forward - d, k, variance.sqrt()),
        PutOrCall::Put => black.put_price(discount, forward - d, k, variance.sqrt()),
    })
}

fn agree(got: Result<f64, qm::Error>, expected: Result<f64, qm::Error>) {
    prove("has a value when it should", got.is_ok() == expected.is_ok());
    if got.is_err() { cover("no value"); return; }
    prove_close("value", got.unwrap(), expected.unwrap(), 200.0);
    cover("valued");
}

fn basket(n: usize, context: &AnyContext) {
    let mut parts: Vec<(f64, RcInstrument)> = Vec::new();
    for k in 0..n { parts.push((weight(k), any_instrument(k as i32, "A", "C", 0))); }
    let b = Basket::new("K", "O", any_currency(), any_rule(3), parts).unwrap();
    let at = any_date_time("valued");
    let mut sum = 0.0;
    for k in 0..n { sum += weight(k) * value_at(k as i32, at); }
    let got = b.price(context, at);
    prove("priced", got.is_ok());
    prove_close("sum of weight times value", got.unwrap(), sum, 500.0);
    cover("done");
}

fn spot_start(kind: PutOrCall, settled: OptionSettlement) {
    let context = market();
    let expiry = any_date_time("expiry");
    let at = DateTime::new(expiry.date() - any_i32("life", -2, 1000), any_time_of_day());
    let strike = any_f64("strike", 0.0, 200.0);
    assume(strike >= 0.0);
    let option = SpotStartingEuropean::new("X", "O", any_instrument(1, "A", "O", 0), any_rule(3), expiry, strike, kind, settled).unwrap();
    agree(option.price(&context, at), option_value(&context, kind, expiry, at, None, strike, value_at(1, expiry)));
}

fn forward_start(kind: PutOrCall) {
    let context = market();
    let expiry = any_date_time("expiry");
    let at = DateTime::new(expiry.date() - any_i32("life", -2, 1000), any_time_of_day());
    let strike_date = DateTime::new(expiry.date() - any_i32("strike life", 0, 1000), TimeOfDay::EDSP);
    let fraction = any_f64("fraction", 0.1, 2.0);
    assume(fraction > 0.0);
    let option = ForwardStartingEuropean::new("X", "O", any_instrument(1, "A", "O", 0), any_rule(3), expiry, fraction, strike_date, kind, OptionSettlement::Cash).unwrap();
    let got = option.price(&context, at);
    if strike_date.date() < context.spot_date { prove("must be fixed first", got.is_err()); cover("already struck"); return; }
    agree(got, option_value(&context, kind, expiry, at, Some(strike_date), fraction * value_at(1, strike_date), value_at(1, expiry)));
}

contracts! {
fn zero_coupon() {
    let context = market();
    let ex = any_date_time("ex");
    let pay: Date = mid_date("pay");
    let z = ZeroCoupon::new("Z", "C", any_currency(), ex, pay, any_rule(3));
    let at = any_date_time("valued");
    let got = z.price(&context, at);
    prove("priced", got.is_ok());
    let got = got.unwrap();
    if at <= ex { prove_close("discounted from payment", got, df(number("C"), pay, settle(3, at.date())), 1.0); cover("cum"); }
    else { prove_eq("nothing after its ex date", got, 0.0); cover("ex"); }
}

fn zero_coupon_dates_bounded() {
    let context = market();
    let ex = any_date_time("ex");
    let pay: Date = mid_date("pay");
    let z = ZeroCoupon::new("Z", "C", any_currency(), ex, pay, any_rule(3));
    let dates = [DateTime::new(ex.date() + any_i32("a", -2, 2), any_time_of_day()), DateTime::new(ex.date() + any_i32("b", -2, 2), any_time_of_day())];
    let mut out = [7.0, 7.0];
    prove("priced", z.prices(&context, &dates, &mut out).is_ok());
    for k in 0..2 { prove_close("as one by one", out[k], z.price(&context, dates[k]).unwrap(), 1.0); }
    cover("done");
}

fn currency() {
    let context = market();
    prove_eq("one", Currency::new("C", any_rule(3)).price(&context, any_date_time("valued")).unwrap(), 1.0);
    cover("done");
}

fn equity() {
    let context = market();
    let e = Equity::new("A", "C", any_currency(), any_rule(3));
    let at = any_date_time("valued");
    let got = e.price(&context, at);
    prove("priced", got.is_ok());
    if at.date() == context.spot_date { prove_eq("spot today", got.unwrap(), spot_of(1)); cover("today"); }
    else { prove_eq("forward otherwise", got.unwrap(), fwd_at(1, at.date())); cover("forward"); }
}

fn equity_dates_bounded() {
    let context = market();
    let e = Equity::new("A", "C", any_currency(), any_rule(3));
    let first = any_date_time("first");
    let second = DateTime::new(first.date() + any_i32("later", 0, 5), any_time_of_day());
    let mut out = [7.0, 7.0];
    prove("priced", e.prices(&context, &[first, second], &mut out).is_ok());
    prove_eq("forward", out[0], fwd_at(1, first.date()));
    prove_eq("later forward", out[1], fwd_at(1, second.date()));
    cover("done");
}

fn basket_empty() { let c = market(); basket(0, &c); }
fn basket_one_bounded() { let c = market(); basket(1, &c); }
fn basket_two_bounded() { let c = market(); basket(2, &c); }
fn basket_three_bounded() { let c = market(); basket(3, &c); }

/// Baskets inside baskets, at two dates at once
fn nested_bounded() {
    let context = market();
    let inner: RcInstrument = RcInstrument::new(Qrc::new(Arc::new(Basket::new("K", "O", any_currency(), any_rule(3),
        vec![(weight(0), any_instrument(0, "A", "C", 0)), (weight(1), any_instrument(1, "B", "C", 0))]).unwrap())));
    let outer = Basket::new("L", "O", any_currency(), any_rule(3), vec![(weight(2), inner), (weight(3), any_instrument(2, "C", "C", 0))]).unwrap();
    let dates = [any_date_time("valued"), any_date_time("valued")];
    let mut out = [7.0, 7.0];
    prove("priced", outer.prices(&context, &dates, &mut out).is_ok());
    for k in 0..2 {
        let d = dates[k];
        prove_close("sum of weight times value", out[k], weight(2) * (weight(0) * value_at(0, d) + weight(1) * value_at(1, d)) + weight(3) * value_at(2, d), 2000.0);
    }
    cover("done");
}

fn spot_starting_call() { spot_start(PutOrCall::Call, OptionSettlement::Cash) }
fn spot_starting_put() { spot_start(PutOrCall::Put, OptionSettlement::Cash) }
fn spot_starting_call_physical() { spot_start(PutOrCall::Call, OptionSettlement::Physical) }
fn spot_starting_put_physical() { spot_start(PutOrCall::Put, OptionSettlement::Physical) }

/// What a pricer holds
fn pricer_two_bounded() {
    let p = Pieces::any();
    let w = [weight(0), weight(1)];
    let pricer = SelfPricer::new(vec![(w[0], name_of(0)), (w[1], name_of(1))], &p.market()).unwrap();
    let at = DateTime::new(p.date, TimeOfDay::Open);
    prove_close("sum of weight times value", pricer.price().unwrap(), w[0] * value_at(0, at) + w[1] * value_at(1, at), 500.0);
    cover("done");
}

/// Where the option and its underlying pay on different curves
fn own_credit_curve() {
    let context = market();
    let expiry = any_date_time("expiry");
    let at = DateTime::new(expiry.date() - any_i32("life", 0, 1000), any_time_of_day());
    let strike = any_f64("strike", 20.0, 200.0);
    assume(strike >= 0.0);
    let option = SpotStartingEuropean::new("X", "O", any_instrument(1, "A", "C", 0), any_rule(3), expiry, strike, PutOrCall::Call, OptionSettlement::Cash).unwrap();
    if let Ok(value) = option.price(&context, at) {
        if let Ok(expected) = option_value(&context, PutOrCall::Call, expiry, at, None, strike, value_at(1, expiry)) {
            prove_close("discounted on the curve of the option", value, expected, 200.0);
            cover("valued");
        }
    }
}

fn forward_starting_call() { forward_start(PutOrCall::Call) }
fn forward_starting_put() { forward_start(PutOrCall::Put) }

/// Several valuation dates at once
fn option_dates_run() {
    let context = market();
    let expiry = DateTime::new(mid_date("expiry"), TimeOfDay::EDSP);
    let strike = any_f64("strike", 20.0, 200.0);
    assume(strike >= 0.0);
    let kind = put_or_call();
    let option = SpotStartingEuropean::new("X", "O", any_instrument(1, "A", "O", 0), any_rule(3), expiry, strike, kind, OptionSettlement::Cash).unwrap();
    let dates = [DateTime::new(expiry.date() + any_i32("a", -20, 2), any_time_of_day()), DateTime::new(expiry.date() + any_i32("b", -20, 2), any_time_of_day())];
    let mut out = [7.0, 7.0];
    let got = option.prices(&context, &dates, &mut out);
    let one = [option.price(&context, dates[0]), option.price(&context, dates[1])];
    prove("an error if one of them is", got.is_err() == (one[0].is_err() || one[1].is_err()));
    if got.is_err() { cover("no value"); return; }
    for (k, one) in one.iter().enumerate() { if let Ok(v) = one { prove_close("as one by one", out[k], *v, 200.0); } }
    cover("valued");
}
}
