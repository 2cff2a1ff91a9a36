//! P17: declared dependencies
use crate::contracts::*;
use crate::sym::*;
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::core::qm;
use quantmath::data::curves::{RateCurve, RcRateCurve};
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::{DivAssumptions, RcVolSurface, VolSurface};
use quantmath::dates::calendar::RcCalendar;
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::Date;
use quantmath::instruments::assets::{CreditEntity, Currency, Equity};
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::math::interpolation::Interpolate;
use quantmath::risk::dependencies::DependencyCollector;
use serde_derive::Serialize;
use std::sync::Arc;

/// A rate curve good up to a date
#[derive(Debug, Serialize)]
struct CurveTo { id: i32, to: Date }
impl TypeId for CurveTo { fn get_type_id(&self) -> &'static str { "CurveTo" } }
impl RateCurve for CurveTo {
    fn base_date(&self) -> Date { curve_base(self.id) }
    fn r_and_t(&self, d: Date) -> Result<(f64, f64), qm::Error> {
        prove("rate within what was declared", d <= self.to);
        Ok((curve_r(self.id, d), curve_t(self.id, d)))
    }
}

/// A forward good up to a date
struct ForwardTo { id: i32, to: Date }
impl Forward for ForwardTo {
    fn as_interp(&self) -> &dyn Interpolate<Date> { self }
    fn forward(&self, d: Date) -> Result<f64, qm::Error> {
        prove("forward within what was declared", d <= self.to);
        Ok(fwd_at(self.id, d))
    }
}

/// A vol surface good up to a date
#[derive(Debug, Serialize)]
struct VolTo { id: i32, to: Date, cal: RcCalendar, base: DateDayFraction }
impl TypeId for VolTo { fn get_type_id(&self) -> &'static str { "VolTo" } }
impl VolSurface for VolTo {
    fn volatilities(&self, d: DateDayFraction, strikes: &[f64], out: &mut [f64]) -> Result<f64, qm::Error> {
        prove("volatility within what was declared", d.date() <= self.to);
        for i in 0..strikes.len() { out[i] = vol_at(self.id, d, strikes[i]); }
        Ok(vol_t(self.id, d))
    }
    fn calendar(&self) -> &RcCalendar { &self.cal }
    fn base_date(&self) -> DateDayFraction { self.base }
    fn forward(&self) -> Option<&dyn Interpolate<Date>> { None }
    fn div_assumptions(&self) -> DivAssumptions { DivAssumptions::NoCashDivs }
    fn displacement(&self, d: Date) -> Result<f64, qm::Error> {
        prove("displacement within what was declared", d <= self.to);
        Ok(uf("displacement", &[self.id as f64, j(d) as f64], 0.0, 10.0))
    }
}

/// Market data that have only what was declared
struct Declared { spot_date: Date, what: DependencyCollector }

impl Declared {
    fn of(spot_date: Date, instrument: &RcInstrument) -> Declared {
        let mut what = DependencyCollector::new(spot_date);
        what.spot(instrument);
        Declared { spot_date: spot_date, what: what }
    }
}

impl PricingContext for Declared {
    fn spot_date(&self) -> Date { self.spot_date }
    fn yield_curve(&self, credit_id: &str, mark: Date) -> Result<RcRateCurve, qm::Error> {
        let to = self.what.yield_curve_hwm(credit_id);
        prove("yield curve declared", to.is_some());
        prove("yield curve declared to that date", mark <= to.unwrap());
        Ok(Qrc::new(Arc::new(CurveTo { id: number(credit_id), to: to.unwrap() })))
    }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> {
        let instrument = self.what.instrument_by_id(id);
        prove("spot declared", instrument.is_some() && self.what.has_spot(instrument.unwrap()));
        Ok(spot_of(number(id)))
    }
    fn forward_curve(&self, instrument: &dyn Instrument, mark: Date) -> Result<Arc<dyn Forward>, qm::Error> {
        let i = self.what.instrument_by_id(instrument.id());
        prove("instrument of the forward declared", i.is_some());
        let to = self.what.forward_curve_hwm(i.unwrap());
        prove("forward declared", to.is_some());
        prove("forward declared to that date", mark <= to.unwrap());
        Ok(Arc::new(ForwardTo { id: number(instrument.id()), to: to.unwrap() }))
    }
    fn vol_surface(&self, instrument: &dyn Instrument, mark: Date,
        _forward_fn: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> {
        let i = self.what.instrument_by_id(instrument.id());
        prove("instrument of the volatility declared", i.is_some());
        let to = self.what.vol_surface_hwm(i.unwrap());
        prove("volatility declared", to.is_some());
        prove("volatility declared to that date", mark <= to.unwrap());
        Ok(Qrc::new(Arc::new(VolTo { id: number(instrument.id()), to: to.unwrap(), cal: any_calendar(), base: DateDayFraction::new(self.spot_date, 0.0) })))
    }
    fn correlation(&self, _first: &dyn Instrument, _second: &dyn Instrument) -> Result<f64, qm::Error> { Ok(0.0) }
}

fn rc<T: Instrument + 'static>(t: T) -> RcInstrument { RcInstrument::new(Qrc::new(Arc::new(t))) }

fn price(instrument: &RcInstrument, spot_date: Date) -> bool {
    let context = Declared::of(spot_date, instrument);
    let at = DateTime::new(spot_date, any_time_of_day());
    let priced = instrument.as_priceable().unwrap().price(&context, at).is_ok();
    cover("priced");
    priced
}

fn positive(name: &'static str, low: f64, high: f64) -> f64 {
    let x = any_f64(name, low, high);
    assume(x > 0.0);
    x
}

fn put_or_call() -> PutOrCall { if choose("put", 2) == 1 { PutOrCall::Put } else { PutOrCall::Call } }

fn equity(name: &str, credit: &str) -> RcInstrument { rc(Equity::new(name, credit, any_currency(), any_rule(3))) }

fn spot_option(name: &str, underlying: RcInstrument, spot_date: Date) -> RcInstrument {
    let expiry = DateTime::new(spot_date + any_i32("life", 0, 1000), any_time_of_day());
    assume(settle(3, spot_date) <= settle(3, expiry.date()));
    rc(SpotStartingEuropean::new(name, "O", underlying, any_rule(3), expiry, positive("strike", 50.0, 150.0), put_or_call(), OptionSettlement::Cash).unwrap())
}

fn forward_option(name: &str, underlying: RcInstrument, spot_date: Date) -> RcInstrument {
    let strike = DateTime::new(spot_date + any_i32("to strike", 0, 500), TimeOfDay::EDSP);
    let expiry = DateTime::new(strike.date() + any_i32("life", 0, 500), TimeOfDay::Close);
    assume(settle(3, spot_date) <= settle(3, expiry.date()));
    rc(ForwardStartingEuropean::new(name, "O", underlying, any_rule(3), expiry, positive("fraction", 0.5, 1.5), strike, put_or_call(), OptionSettlement::Cash).unwrap())
}

fn zero(name: &str, spot_date: Date) -> RcInstrument {
    let pay = spot_date + any_i32("to payment", 0, 1000);
    assume(settle(3, spot_date) <= pay);
    rc(ZeroCoupon::new(name, "C", any_currency(), DateTime::new(spot_date + any_i32("to ex", -5, 1000), any_time_of_day()), pay, any_rule(3)))
}

contracts! {
fn equity_priced() { let d = mid_date("spot date"); price(&equity("A", "C"), d); }
fn currency_priced() { let d = mid_date("spot date"); prove("priced", price(&rc(Currency::new("C", any_rule(3))), d)); }
fn credit_entity_priced() { let d = mid_date("spot date"); prove("priced", price(&rc(CreditEntity::new("C", any_currency(), any_rule(3))), d)); }
fn zero_coupon_priced() { let d = mid_date("spot date"); price(&zero("Z", d), d); }
fn spot_starting_priced() { let d = mid_date("spot date"); price(&spot_option("X", equity("A", "O"), d), d); }
fn forward_starting_priced() { let d = mid_date("spot date"); price(&forward_option("X", equity("A", "O"), d), d); }

/// Where the option and its underlying pay on different curves
fn own_credit_curve() { let d = mid_date("spot date"); price(&spot_option("X", equity("A", "C"), d), d); }

/// A basket of an equity, a bond and a basket of equities
fn basket_priced_bounded() {
    let d = mid_date("spot date");
    let inner = Basket::new("K", "O", any_currency(), any_rule(3), vec![(0.5, equity("C", "C")), (0.25, equity("A", "C"))]).unwrap();
    let parts = vec![(1.0, equity("A", "C")), (2.0, zero("Z", d)), (3.0, rc(inner))];
    price(&rc(Basket::new("L", "O", any_currency(), any_rule(3), parts).unwrap()), d);
}

/// A basket of two options on the same equity
fn basket_of_options_bounded() {
    let d = mid_date("spot date");
    let shared = equity("B", "O");
    let expiries = [d + any_i32("life", 1, 1000), d + any_i32("life", 1, 1000)];
    let mut parts = Vec::new();
    for (i, name) in ["X", "Y"].iter().enumerate() {
        assume(settle(3, d) <= settle(3, expiries[i]));
        let expiry = DateTime::new(expiries[i], TimeOfDay::Close);
        parts.push((1.0, rc(SpotStartingEuropean::new(name, "O", shared.clone(), any_rule(3), expiry, 100.0, PutOrCall::Call, OptionSettlement::Cash).unwrap())));
    }
    let context = Declared::of(d, &rc(Basket::new("L", "O", any_currency(), any_rule(3), parts.clone()).unwrap()));
    for part in parts.iter() {
        let _ = part.1.as_priceable().unwrap().price(&context, DateTime::new(d, TimeOfDay::Open));
    }
    cover("priced");
}

/// Whatever a component declares, a basket of it declares, wherever it stands
fn basket_declares_bounded() {
    let d = mid_date("spot date");
    let option = spot_option("X", equity("B", "O"), d);
    let mut alone = DependencyCollector::new(d);
    alone.spot(&option);
    let mut parts = vec![(1.0, equity("A", "C"))];
    let place = choose("place", 2);
    parts.insert(place, (-1.0, option.clone()));
    let basket = rc(Basket::new("L", "O", any_currency(), any_rule(3), parts).unwrap());
    let mut all = DependencyCollector::new(d);
    all.spot(&basket);
    let b = equity("B", "O");
    prove("spot", all.has_spot(&b) && all.has_spot(&equity("A", "C")));
    prove("forward", all.forward_curve_hwm(&b).is_some() && all.forward_curve_hwm(&b) == alone.forward_curve_hwm(&b));
    prove("volatility", all.vol_surface_hwm(&b).is_some() && all.vol_surface_hwm(&b) == alone.vol_surface_hwm(&b));
    prove("rates", all.yield_curve_hwm("O").is_some() && all.yield_curve_hwm("O") == alone.yield_curve_hwm("O"));
    prove("rates of the other", all.yield_curve_hwm("C") == Some(settle(3, d)));
    prove("fixings", all.fixings("B").len() == 1 && alone.fixings("B").len() == 1 && all.fixings("B")[0] == alone.fixings("B")[0]);
    cover("done");
}

/// The latest date declared counts, name by name
fn latest_counts() {
    let d = mid_date("spot date");
    let mut c = DependencyCollector::new(d);
    let marks = [mid_date("mark"), mid_date("mark"), mid_date("mark")];
    let (a, b) = (any_instrument(1, "A", "C", 0), any_instrument(2, "B", "D", 0));
    prove("nothing at first", c.yield_curve_hwm("P").is_none() && c.forward_curve_hwm(&a).is_none() && c.vol_surface_hwm(&a).is_none());
    let mut most = marks[0];
    for i in 0..2 {
        if marks[i] > most { most = marks[i]; }
        c.yield_curve("P", marks[i]);
        c.forward_curve(&a, marks[i]);
        c.vol_surface(&a, marks[i]);
        prove("yield curve", c.yield_curve_hwm("P") == Some(most));
        prove("forward", c.forward_curve_hwm(&a) == Some(most));
        prove("volatility", c.vol_surface_hwm(&a) == Some(most));
    }
    c.yield_curve("Q", marks[2]);
    c.forward_curve(&b, marks[2]);
    c.vol_surface(&b, marks[2]);
    prove("others kept", c.yield_curve_hwm("P") == Some(most) && c.forward_curve_hwm(&a) == Some(most) && c.vol_surface_hwm(&a) == Some(most));
    prove("new ones", c.yield_curve_hwm("Q") == Some(marks[2]) && c.forward_curve_hwm(&b) == Some(marks[2]) && c.vol_surface_hwm(&b) == Some(marks[2]));
    cover("done");
}

/// Every observation declared is kept
fn observations_bounded() {
    let mut c = DependencyCollector::new(mid_date("spot date"));
    let times = [any_date_time("first"), any_date_time("second"), any_date_time("third")];
    c.fixing("A", times[0]);
    c.fixing("B", times[1]);
    c.fixing("A", times[2]);
    prove("all of one", c.fixings("A").len() == (if times[0] == times[2] { 1 } else { 2 }) && c.fixings("A").contains(&times[0]) && c.fixings("A").contains(&times[2]));
    prove("all of the other", c.fixings("B").len() == 1 && c.fixings("B")[0] == times[1]);
    prove("none of a third", c.fixings("C").is_empty());
    cover("done");
}
}
