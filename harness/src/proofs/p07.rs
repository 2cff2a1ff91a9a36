//! P07: dividend totals
use crate::contracts::*;
use crate::sym::*;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::dates::Date;
use std::sync::Arc;

pub const RATE: i32 = 1;
pub const BORROW: i32 = 2;

/// Log of the financing discount from the base date
pub fn log_d(base: Date, d: Date) -> f64 {
    (curve_rt(BORROW, d) - curve_rt(RATE, d)) - (curve_rt(BORROW, base) - curve_rt(RATE, base))
}

pub fn zero_yield(base: Date) -> RcRateCurve { RcRateCurve::new(Arc::new(ZeroRateCurve::new(base))) }

/// n dividends in order of ex date, before, on and after the base date
pub fn any_divs(base: Date, n: usize) -> Vec<Dividend> {
    let mut v: Vec<Dividend> = Vec::new();
    let mut ex = base + any_i32("first ex", -30, 60);
    for i in 0..n {
        if i > 0 { ex += any_i32("ex gap", 0, 90); }
        let relative = if choose("kind", 2) == 0 { 0.0 } else { any_f64("relative", 0.0, 0.05) };
        v.push(Dividend::new(any_f64("cash", -1.0, 3.0), relative, ex, ex + any_i32("pay lag", 0, 30)));
    }
    v
}

pub struct Totals { pub plain: f64, pub discounted: f64, pub cash: f64, pub cash_left: f64 }

/// Totals at a date, from the definition
pub fn totals(divs: &[Dividend], spot: f64, base: Date, q: Date) -> Totals {
    let mut t = Totals { plain: 0.0, discounted: 0.0, cash: 0.0, cash_left: 0.0 };
    let mut pv: Vec<f64> = Vec::new();
    for i in 0..divs.len() {
        let ex = divs[i].ex_date();
        if ex <= base { pv.push(0.0); continue; }
        let mut before = 0.0;
        for k in 0..i { if divs[k].ex_date() < ex { before += pv[k]; } }
        let to_pay = log_d(base, divs[i].pay_date()).exp();
        let cash = divs[i].cash() * to_pay;
        let paid = divs[i].relative() * (spot - before) / log_d(base, ex).exp();
        let all = cash + paid * to_pay;
        if ex <= q {
            t.plain += divs[i].cash() + paid;
            t.discounted += all;
            t.cash += cash;
        } else { t.cash_left += cash; }
        pv.push(all);
    }
    t
}

fn last_cash(divs: &[Dividend]) -> Date {
    let mut d = Date::from_nil();
    for x in divs.iter() { if x.cash() != 0.0 { d = x.ex_date(); } }
    d
}

fn bootstrap(n: usize, far: bool) {
    let base = mid_date("base");
    let divs = any_divs(base, n);
    let spot = any_f64("spot", 50.0, 150.0);
    let hwm = if far { base + 1000 } else { base + any_i32("known for", 0, 400) };
    if far { for x in divs.iter() { assume(x.cash() > 0.0); } }
    let stream = DividendStream::new(&divs, zero_yield(base));
    let made = DividendBootstrap::new(&stream, &AnyCurve(RATE), &AnyCurve(BORROW), spot, base, hwm);
    prove("is accepted", made.is_ok());
    let b = made.unwrap();
    prove("base date", b.base_date() == base);
    let q = base + any_i32("after", -40, 420);
    if q > hwm && (n == 0 || q > last_cash(&divs)) {
        prove("beyond what was asked for", b.discounted_sum_from_base(q).is_err());
        prove("beyond what was asked for, plain", b.undiscounted_sum_from_base(q).is_err());
        prove("beyond what was asked for, cash", b.discounted_cash_divs_after(q).is_err());
        cover("beyond");
        return;
    }
    if q > hwm { return; }
    let t = totals(&divs, spot, base, q);
    prove_close("present value of all gone ex", b.discounted_sum_from_base(q).unwrap_or(f64::NAN), t.discounted, 10.0);
    prove_close("sum of all gone ex", b.undiscounted_sum_from_base(q).unwrap_or(f64::NAN), t.plain, 10.0);
    prove_close("present value of cash not yet ex", b.discounted_cash_divs_after(q).unwrap_or(f64::NAN), t.cash_left, 10.0);
    cover("within");
}

contracts! {
fn no_dividends() { bootstrap(0, false); }
fn one_dividend_bounded() { bootstrap(1, false); }
fn two_dividends_bounded() { bootstrap(2, false); }
fn three_dividends_bounded() { bootstrap(3, true); }

/// Sums between two dates are differences of sums
fn between_bounded() {
    let base = mid_date("base");
    let divs = any_divs(base, 2);
    for x in divs.iter() { assume(x.cash() > 0.0); }
    let spot = any_f64("spot", 50.0, 150.0);
    let stream = DividendStream::new(&divs, zero_yield(base));
    let b = DividendBootstrap::new(&stream, &AnyCurve(RATE), &AnyCurve(BORROW), spot, base, base + 1000).unwrap();
    let from = base + any_i32("from", -40, 420);
    let to = base + any_i32("to", -40, 420);
    prove_close("present value", b.discounted_sum(from, to).unwrap_or(f64::NAN), b.discounted_sum_from_base(to).unwrap() - b.discounted_sum_from_base(from).unwrap(), 10.0);
    prove_close("plain", b.undiscounted_sum(from, to).unwrap_or(f64::NAN), b.undiscounted_sum_from_base(to).unwrap() - b.undiscounted_sum_from_base(from).unwrap(), 10.0);
    cover("done");
}

/// Dividends out of order are refused
fn order_bounded() {
    let base = mid_date("base");
    let a = base + any_i32("a", 1, 300);
    let c = base + any_i32("b", 1, 300);
    assume(c < a);
    let divs = [Dividend::new(1.0, 0.0, a, a), Dividend::new(1.0, 0.0, c, c)];
    let stream = DividendStream::new(&divs, zero_yield(base));
    prove("refused", DividendBootstrap::new(&stream, &AnyCurve(RATE), &AnyCurve(BORROW), 100.0, base, base + 1000).is_err());
    cover("done");
}

/// Scaling all dividends
fn bump_all_bounded() {
    let base = mid_date("base");
    let n = choose("dividends", 4);
    let divs = any_divs(base, n);
    let bump = any_f64("bump", -0.5, 0.5);
    let stream = RcDividendStream::new(Arc::new(DividendStream::new(&divs, any_rates(3))));
    let b = BumpDivs::new_all_relative(bump).apply(stream);
    prove("same number", b.dividends().len() == n);
    for i in 0..n {
        let (x, y) = (divs[i], b.dividends()[i]);
        prove_eq("cash", y.cash(), x.cash() * (1.0 + bump));
        prove_eq("relative", y.relative(), x.relative() * (1.0 + bump));
        prove("ex date", y.ex_date() == x.ex_date());
        prove("pay date", y.pay_date() == x.pay_date());
    }
    let d = any_date("date");
    prove_eq("yield", b.div_yield().rt(d).unwrap(), curve_rt(3, d) * (1.0 + bump));
    cover("done");
}

/// The last cash ex date is that of the last dividend with cash
fn last_cash_date_bounded() {
    let base = mid_date("base");
    let n = choose("dividends", 4);
    let divs = any_divs(base, n);
    let s = DividendStream::new(&divs, zero_yield(base));
    let l = s.last_cash_ex_date();
    for i in 0..n {
        if divs[i].cash() != 0.0 { prove("not before a cash dividend", l >= divs[i].ex_date()); }
    }
    let b = DividendStream::new_bump_all(&s, any_f64("bump", -0.5, 0.5));
    prove("kept by bumps", b.last_cash_ex_date() == l);
    cover("done");
}
}
