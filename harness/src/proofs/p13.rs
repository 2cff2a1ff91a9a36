//! P13: fixing instruments
use crate::contracts::*;
use crate::sym::*;
use quantmath::data::fixings::FixingTable;
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::dates::datetime::DateTime;
use quantmath::dates::Date;
use quantmath::instruments::basket::Basket;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use std::sync::Arc;

type Parts = Vec<(f64, RcInstrument)>;

/// The value of a holding
fn worth(parts: &Parts, context: &AnyContext, at: DateTime) -> f64 {
    let mut v = 0.0;
    for (w, i) in parts.iter() {
        let p = i.as_priceable();
        prove("what is left can be priced", p.is_some());
        let p = p.unwrap().price(context, at);
        prove("what is left has a price", p.is_ok());
        v += w * p.unwrap();
    }
    v
}

struct Terms { put: bool, physical: bool, expiry: DateTime, known: Date }

fn terms() -> Terms {
    let expiry = any_date_time("expiry");
    Terms { put: choose("put", 2) == 1, physical: choose("physical", 2) == 1, expiry: expiry, known: expiry.date() + any_i32("known", -3, 3) }
}

fn kind(t: &Terms) -> PutOrCall { if t.put { PutOrCall::Put } else { PutOrCall::Call } }
fn settled(t: &Terms) -> OptionSettlement { if t.physical { OptionSettlement::Physical } else { OptionSettlement::Cash } }

/// Fixings of A at some of the moments given
fn table(known: Date, at: &[(DateTime, f64)]) -> FixingTable {
    let made = FixingTable::from_fixings(known, &[("A", at)]);
    made.unwrap()
}

/// An option whose last observation is known has become what it pays
fn paid(t: &Terms, strike: f64, fixing: f64, got: Result<Option<Parts>, qm::Error>) {
    prove("no error", got.is_ok());
    let got = got.unwrap();
    prove("changed", got.is_some());
    let parts = got.unwrap();
    let context = AnyContext { spot_date: mid_date("spot date") };
    let at = DateTime::new(t.expiry.date() + any_i32("valued", -3, 3), any_time_of_day());
    let gain = if t.put { strike - fixing } else { fixing - strike };
    let amount = if at <= t.expiry { df(number("O"), settle(3, t.expiry.date()), settle(3, at.date())) } else { 0.0 };
    let expected = if gain > 0.0 {
        cover("in the money");
        if t.physical {
            let share = value_at(1, at);
            if t.put { strike * amount - share } else { share - strike * amount }
        } else { gain * amount }
    } else { cover("out of the money"); 0.0 };
    let value = worth(&parts, &context, at);
    prove_close("pays its intrinsic value", value, expected, 200.0);
}

fn any_strike() -> f64 {
    let k = any_f64("strike", 0.0, 200.0);
    assume(k >= 0.0);
    k
}

fn weight(k: usize) -> f64 { uf("weight", &[k as f64], -3.0, 3.0) }

/// A portfolio of n instruments: what it was, and what it has become
fn portfolio(n: usize) -> (Parts, bool, bool) {
    let mut parts: Parts = Vec::new();
    let mut changed = false;
    let mut error = false;
    for k in 0..n {
        let how = choose("how it fixes", 4);
        if how == 2 { error = true; }
        if how != 0 { changed = true; }
        parts.push((weight(k), any_instrument(k as i32, "A", "C", how)));
    }
    (parts, changed, error)
}

/// What the fixed portfolio is worth
fn expected(parts: &Parts, at: DateTime) -> f64 {
    let mut v = 0.0;
    for (k, (w, i)) in parts.iter().enumerate() {
        let n = k as i32;
        let t = FixingTable::new(at.date());
        // what the instrument says it becomes is given
        v += match i.fix(&t) {
            Ok(None) => w * value_at(n, at),
            Ok(Some(ref l)) if l.is_empty() => 0.0,
            _ => w * (becomes(n) * value_at(10 + n, at) + 2.0 * value_at(20 + n, at)),
        };
    }
    v
}

fn fix_portfolio(n: usize) {
    let (parts, changed, error) = portfolio(n);
    let context = AnyContext { spot_date: mid_date("spot date") };
    let at = any_date_time("valued");
    let got = fix_all(&parts, &FixingTable::new(at.date()));
    prove("an error is reported", got.is_err() == error);
    if error { cover("error"); return; }
    let got = got.unwrap();
    prove("says whether anything changed", got.is_some() == changed);
    if !changed { cover("nothing changed"); return; }
    prove_close("weights are carried", worth(&got.unwrap(), &context, at), expected(&parts, at), 1000.0);
    cover("changed");
}

contracts! {
/// A spot-starting option before and after its expiry is observed
fn spot_starting() {
    let t = terms();
    let strike = any_strike();
    let made = SpotStartingEuropean::new("X", "O", any_instrument(1, "A", "C", 0), any_rule(3), t.expiry, strike, kind(&t), settled(&t));
    prove("made", made.is_ok());
    let option = made.unwrap();
    let fixing = any_f64("fixing", 0.0, 200.0);
    if choose("fixed", 2) == 1 {
        let fixings = table(t.known, &[(t.expiry, fixing)]);
        paid(&t, strike, fixing, option.fix(&fixings));
    } else {
        let other = DateTime::new(t.expiry.date() + any_i32("other", -2, 2), any_time_of_day());
        assume(other != t.expiry);
        let fixings = table(t.known, &[(other, fixing)]);
        let got = option.fix(&fixings);
        if t.expiry.date() < t.known { prove("a missing fixing is an error", got.is_err()); cover("missing"); }
        else { prove("left alone", got.is_ok() && got.unwrap().is_none()); cover("not yet"); }
    }
}

/// A forward-starting option gets its strike from the fixing
fn forward_starting() {
    let t = terms();
    let strike_date = DateTime::new(t.expiry.date() - any_i32("life", 0, 3), any_time_of_day());
    assume(strike_date < t.expiry);
    let fraction = any_f64("fraction", 0.1, 2.0);
    assume(fraction > 0.0);
    let made = ForwardStartingEuropean::new("X", "O", any_instrument(1, "A", "C", 0), any_rule(3), t.expiry, fraction, strike_date, kind(&t), settled(&t));
    prove("made", made.is_ok());
    let option = made.unwrap();
    let struck = any_f64("strike fixing", 0.0, 200.0);
    assume(struck >= 0.0);
    let fixing = any_f64("fixing", 0.0, 200.0);
    match choose("fixed", 3) {
        0 => {
            let fixings = table(t.known, &[(strike_date, struck), (t.expiry, fixing)]);
            paid(&t, fraction * struck, fixing, option.fix(&fixings));
        }
        1 => {
            let fixings = table(t.known, &[(strike_date, struck)]);
            let got = option.fix(&fixings);
            if t.expiry.date() < t.known { prove("a missing fixing is an error", got.is_err()); cover("missing"); return; }
            prove("no error", got.is_ok());
            let got = got.unwrap();
            prove("changed", got.is_some());
            let parts = got.unwrap();
            let same = SpotStartingEuropean::new("X", "O", any_instrument(1, "A", "C", 0), any_rule(3), t.expiry, fraction * struck, kind(&t), settled(&t)).unwrap();
            // the remainder is the spot-starting option: it becomes the same when it is fixed
            prove("one option", parts.len() == 1);
            prove_eq("of the same quantity", parts[0].0, 1.0);
            let fixings = table(t.known, &[(t.expiry, fixing)]);
            prove("the option goes on", same.fix(&fixings).is_ok());
            paid(&t, fraction * struck, fixing, parts[0].1.fix(&fixings));
        }
        _ => {
            let fixings = table(t.known, &[(t.expiry, fixing)]);
            let got = option.fix(&fixings);
            if strike_date.date() < t.known { prove("a missing strike is an error", got.is_err()); cover("missing strike"); }
            else { prove("left alone", got.is_ok() && got.unwrap().is_none()); cover("not yet"); }
        }
    }
}

/// Instruments that observe nothing are left alone
fn unaffected() {
    let known = mid_date("known");
    let fixings = table(known, &[(any_date_time("fixing"), any_f64("value", 50.0, 150.0))]);
    let r = any_rule(1);
    let e = assets::Equity::new("A", "C", any_currency(), r.clone());
    prove("equity", e.fix(&fixings).unwrap().is_none());
    let z = bonds::ZeroCoupon::new("A", "C", any_currency(), any_date_time("ex"), mid_date("pay"), r.clone());
    prove("zero coupon", z.fix(&fixings).unwrap().is_none());
    prove("currency", assets::Currency::new("A", r).fix(&fixings).unwrap().is_none());
    cover("done");
}

fn portfolio_one_bounded() { fix_portfolio(1); }
fn portfolio_two_bounded() { fix_portfolio(2); }
fn portfolio_three_bounded() { fix_portfolio(3); }
fn portfolio_empty() {
    let got = fix_all(&[], &FixingTable::new(mid_date("known")));
    prove("nothing changed", got.is_ok() && got.unwrap().is_none());
    cover("done");
}

/// A basket has become a basket of what its components have become
fn basket_two_bounded() {
    let (parts, changed, error) = portfolio(2);
    let basket = Basket::new("K", "O", any_currency(), any_rule(3), parts.clone()).unwrap();
    let context = AnyContext { spot_date: mid_date("spot date") };
    let at = any_date_time("valued");
    let got = basket.fix(&FixingTable::new(at.date()));
    prove("an error is reported", got.is_err() == error);
    if error { cover("error"); return; }
    let got = got.unwrap();
    prove("says whether anything changed", got.is_some() == changed);
    if !changed { cover("nothing changed"); return; }
    let got = got.unwrap();
    prove_close("weights are carried", worth(&got, &context, at), expected(&parts, at), 1000.0);
    for (_, i) in got.iter() {
        prove("paid by the same party", i.credit_id() == "O");
        prove("settles as before", i.settlement().apply(at.date()) == settle(3, at.date()));
    }
    cover("changed");
}

/// A basket inside a basket
fn nested_bounded() {
    let how = choose("how it fixes", 4);
    let inner: RcInstrument = RcInstrument::new(Qrc::new(Arc::new(Basket::new("K", "O", any_currency(), any_rule(3), vec![(weight(0), any_instrument(0, "A", "C", how))]).unwrap())));
    let outer = Basket::new("L", "O", any_currency(), any_rule(3), vec![(weight(1), inner)]).unwrap();
    let context = AnyContext { spot_date: mid_date("spot date") };
    let at = any_date_time("valued");
    let got = outer.fix(&FixingTable::new(at.date()));
    prove("an error is reported", got.is_err() == (how == 2));
    if how == 2 { cover("error"); return; }
    let got = got.unwrap();
    prove("says whether anything changed", got.is_some() == (how != 0));
    if how == 0 { cover("nothing changed"); return; }
    let part = if how == 1 { becomes(0) * value_at(10, at) + 2.0 * value_at(20, at) } else { 0.0 };
    prove_close("weights are carried", worth(&got.unwrap(), &context, at), weight(1) * weight(0) * part, 1000.0);
    cover("changed");
}
}
