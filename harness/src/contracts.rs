//! Shared pieces of the contracts: arbitrary values of the library's types, and
//! implementations of its traits that stand for every implementation meeting the
//! trait's contract.

use crate::sym::*;
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::dates::calendar::{Calendar, RcCalendar};
use quantmath::core::dedup::InstanceId;
use quantmath::core::qm;
use quantmath::data::fixings::FixingTable;
use quantmath::instruments::assets::{Currency, RcCurrency};
use quantmath::instruments::{DependencyContext, Instrument, Priceable, PricingContext, RcInstrument, SpotRequirement};
use quantmath::data::curves::{RateCurve, RcRateCurve};
use quantmath::dates::rules::{DateRule, RcDateRule};
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::{DivAssumptions, RcVolSurface, VolSurface};
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::Date;
use quantmath::math::interpolation::Interpolate;
use serde_derive::Serialize;
use std::sync::Arc;

/// Declares contract functions and the table used to run them concretely
#[macro_export]
macro_rules! contracts {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* pub fn $name() $body)*
        pub const ALL: &[(&str, fn())] = &[$((concat!(module_path!(), "::", stringify!($name)), $name as fn())),*];
    };
}

/// First and last valid truncated Julian day
pub const FIRST: i32 = 1;
pub const LAST: i32 = 200 * 365 - 1;

/// Any valid date
pub fn any_date(name: &'static str) -> Date {
    Date::from_truncated_julian(any_i32(name, FIRST, LAST))
}

/// Any date far enough from the ends of the supported range for the arithmetic
/// around it to stay valid
pub fn mid_date(name: &'static str) -> Date {
    Date::from_truncated_julian(any_i32(name, 1000, 60000))
}

pub fn j(d: Date) -> i32 { d.truncated_julian() }
pub fn day(n: i32) -> Date { Date::from_truncated_julian(n) }
/// Weekday written independently of the code under verification: day 3 was a Sunday
pub fn wday(d: Date) -> i32 { (j(d) + 3) % 7 }

/// A calendar about which only the contract of the trait is known
#[derive(Debug, Serialize)]
pub struct AnyCalendar;

impl TypeId for AnyCalendar {
    fn get_type_id(&self) -> &'static str { "AnyCalendar" }
}

/// Any day may be a holiday. Some of the calendars run also have closures longer than a month.
fn cal_holiday(d: i32) -> bool {
    up("cal_hol", &[d as f64]) || (!symbolic() && d.rem_euclid(97) < 45 && ufi("cal_closures", &[], 0, 5) == 5)
}

/// Ghost: business days of the arbitrary calendar before d
pub fn cal_count(d: Date) -> f64 {
    if symbolic() {
        let b = uf("cal_b", &[j(d) as f64], 0.0, 0.0);
        let n = uf("cal_b", &[j(d) as f64 + 1.0], 0.0, 0.0);
        assume(n == b + if up("cal_hol", &[j(d) as f64]) { 0.0 } else { 1.0 });
        b
    } else {
        let mut n = 0.0;
        for i in 0..j(d) {
            if !cal_holiday(i) { n += 1.0; }
        }
        n
    }
}

impl Calendar for AnyCalendar {
    fn name(&self) -> &str { "ANY" }
    fn is_holiday(&self, d: Date) -> bool { cal_holiday(j(d)) }
    fn count_business_days(&self, from: Date, ff: f64, to: Date, tf: f64) -> f64 {
        if from > to { return 0.0; }
        let wf = if self.is_holiday(from) { 0.0 } else { 1.0 };
        let wt = if self.is_holiday(to) { 0.0 } else { 1.0 };
        cal_count(to) - cal_count(from) + wt * tf - wf * ff
    }
    fn step(&self, from: Date, step: i32, slip_forward: bool) -> Date {
        if symbolic() {
            let r = ufi("cal_step", &[j(from) as f64, step as f64, if slip_forward { 1.0 } else { 0.0 }], 0, 0);
            assume(r >= FIRST && r <= LAST);
            assume(!self.is_holiday(day(r)));
            if step == 0 {
                if slip_forward { assume(r >= j(from)); } else { assume(r <= j(from)); }
                if !self.is_holiday(from) { assume(r == j(from)); }
            }
            return day(r);
        }
        let dir = if slip_forward { 1 } else { -1 };
        let mut d = from;
        while self.is_holiday(d) { d += dir; }
        let dir = if step > 0 { 1 } else { -1 };
        for _ in 0..step.abs() {
            d += dir;
            while self.is_holiday(d) { d += dir; }
        }
        d
    }
    fn standard_basis(&self) -> f64 { uf("cal_basis", &[], 250.0, 366.0) }
}

pub fn any_calendar() -> RcCalendar { Qrc::new(Arc::new(AnyCalendar)) }

/// A rate curve about which nothing is known: any rate and any time at any date
#[derive(Debug, Serialize)]
pub struct AnyCurve(pub i32);

impl TypeId for AnyCurve {
    fn get_type_id(&self) -> &'static str { "AnyCurve" }
}

pub fn curve_r(id: i32, d: Date) -> f64 { uf("curve_r", &[id as f64, j(d) as f64], -0.05, 0.15) }
pub fn curve_t(id: i32, d: Date) -> f64 { uf("curve_t", &[id as f64, j(d) as f64], -2.0, 3.0) }
pub fn curve_rt(id: i32, d: Date) -> f64 { curve_r(id, d) * curve_t(id, d) }
pub fn curve_base(id: i32) -> Date {
    let b = ufi("curve_base", &[id as f64], 20000, 20900);
    assume(b >= FIRST && b <= LAST);
    day(b)
}

impl RateCurve for AnyCurve {
    fn base_date(&self) -> Date { curve_base(self.0) }
    fn r_and_t(&self, date: Date) -> Result<(f64, f64), qm::Error> {
        Ok((curve_r(self.0, date), curve_t(self.0, date)))
    }
}

pub fn any_rates(id: i32) -> RcRateCurve { Qrc::new(Arc::new(AnyCurve(id))) }

/// A date rule about which nothing is known
#[derive(Debug, Serialize)]
pub struct AnyRule(pub i32);

impl TypeId for AnyRule {
    fn get_type_id(&self) -> &'static str { "AnyRule" }
}

pub fn settle(id: i32, d: Date) -> Date {
    let lag = ufi("rule_lag", &[id as f64, j(d) as f64], 0, 6);
    assume(lag >= 0 && lag <= 6);
    let r = j(d) + lag;
    assume(r >= FIRST && r <= LAST);
    day(r)
}

impl DateRule for AnyRule {
    fn apply(&self, d: Date) -> Date { settle(self.0, d) }
}

pub fn any_rule(id: i32) -> RcDateRule { Qrc::new(Arc::new(AnyRule(id))) }

/// A forward about which nothing is known, except that it is positive
#[derive(Debug, Clone)]
pub struct AnyForward(pub i32);

pub fn fwd_at(id: i32, d: Date) -> f64 {
    let f = uf("forward", &[id as f64, j(d) as f64], 50.0, 150.0);
    assume(f > 0.0);
    f
}
pub fn fixed_divs(id: i32, d: Date) -> f64 { uf("fixed_divs", &[id as f64, j(d) as f64], 0.0, 10.0) }

impl Forward for AnyForward {
    fn as_interp(&self) -> &dyn Interpolate<Date> { self }
    fn forward(&self, d: Date) -> Result<f64, qm::Error> { Ok(fwd_at(self.0, d)) }
    fn fixed_divs_after(&self, d: Date) -> Result<f64, qm::Error> { Ok(fixed_divs(self.0, d)) }
}

/// A vol surface about which only the contract of the trait is known
#[derive(Debug, Serialize)]
pub struct AnyVol {
    pub id: i32,
    cal: RcCalendar,
    base: DateDayFraction,
    #[serde(skip)]
    forward: Option<AnyForward>,
}

impl TypeId for AnyVol {
    fn get_type_id(&self) -> &'static str { "AnyVol" }
}

pub fn vol_at(id: i32, d: DateDayFraction, k: f64) -> f64 {
    let v = uf("vol", &[id as f64, j(d.date()) as f64, d.day_fraction(), k], 0.05, 0.5);
    assume(v >= 0.0);
    v
}
pub fn vol_t(id: i32, d: DateDayFraction) -> f64 {
    let t = uf("vol_t", &[id as f64, j(d.date()) as f64, d.day_fraction()], 0.01, 2.0);
    assume(t >= 0.0);
    t
}
pub fn var_at(id: i32, d: DateDayFraction, k: f64) -> f64 {
    let v = vol_at(id, d, k);
    v * v * vol_t(id, d)
}

impl VolSurface for AnyVol {
    fn volatilities(&self, d: DateDayFraction, strikes: &[f64], out: &mut [f64]) -> Result<f64, qm::Error> {
        for i in 0..strikes.len() { out[i] = vol_at(self.id, d, strikes[i]); }
        Ok(vol_t(self.id, d))
    }
    fn calendar(&self) -> &RcCalendar { &self.cal }
    fn base_date(&self) -> DateDayFraction { self.base }
    fn forward(&self) -> Option<&dyn Interpolate<Date>> {
        match self.forward { Some(ref f) => Some(f), None => None }
    }
    fn div_assumptions(&self) -> DivAssumptions {
        match choose("div assumptions", 3) {
            0 => DivAssumptions::NoCashDivs,
            1 => DivAssumptions::IndependentLogNormals,
            _ => DivAssumptions::FixedDivs,
        }
    }
    fn displacement(&self, d: Date) -> Result<f64, qm::Error> {
        Ok(uf("displacement", &[self.id as f64, j(d) as f64], 0.0, 10.0))
    }
}

pub fn any_vol(id: i32, base: DateDayFraction, forward: Option<i32>) -> RcVolSurface {
    Qrc::new(Arc::new(AnyVol { id: id, cal: any_calendar(), base: base, forward: forward.map(AnyForward) }))
}

pub fn any_moment(name: &'static str) -> DateDayFraction {
    let d = mid_date(name);
    let f = any_f64("day fraction", 0.0, 0.99);
    assume(f >= 0.0 && f < 1.0);
    DateDayFraction::new(d, f)
}

/// A moment a number of days later
pub fn later(from: DateDayFraction, name: &'static str, lo: i32, hi: i32) -> DateDayFraction {
    let d = from.date() + any_i32(name, lo, hi);
    let f = any_f64("day fraction", 0.0, 0.99);
    assume(f >= 0.0 && f < 1.0);
    DateDayFraction::new(d, f)
}

pub fn any_time_of_day() -> TimeOfDay {
    match choose("time of day", 3) { 0 => TimeOfDay::Open, 1 => TimeOfDay::EDSP, _ => TimeOfDay::Close }
}

pub fn any_date_time(name: &'static str) -> DateTime { DateTime::new(mid_date(name), any_time_of_day()) }

/// A calendar whose time runs in any way at all
#[derive(Debug, Serialize)]
pub struct AnyTime;

impl TypeId for AnyTime {
    fn get_type_id(&self) -> &'static str { "AnyTime" }
}

/// Ghost: time passed at a moment
pub fn clock(d: DateDayFraction) -> f64 {
    if symbolic() { uf("clock", &[j(d.date()) as f64, d.day_fraction()], 0.0, 0.0) }
    else { (j(d.date()) as f64 + d.day_fraction()) / uf("cal_basis", &[], 250.0, 366.0) }
}

impl Calendar for AnyTime {
    fn name(&self) -> &str { "ANYTIME" }
    fn is_holiday(&self, _d: Date) -> bool { false }
    fn count_business_days(&self, _from: Date, _ff: f64, _to: Date, _tf: f64) -> f64 { panic!("not used") }
    fn step(&self, _from: Date, _step: i32, _slip_forward: bool) -> Date { panic!("not used") }
    fn standard_basis(&self) -> f64 { uf("cal_basis", &[], 250.0, 366.0) }
    fn year_fraction(&self, from: DateDayFraction, to: DateDayFraction) -> f64 { clock(to) - clock(from) }
}

pub fn any_time() -> RcCalendar { Qrc::new(Arc::new(AnyTime)) }

/// An instrument about which nothing is known: any value at any moment
#[derive(Debug, Serialize)]
pub struct AnyInstrument {
    pub n: i32,
    pub name: &'static str,
    pub credit: &'static str,
    pub currency: RcCurrency,
    pub settlement: RcDateRule,
    /// what fixing makes of it: 0 leaves it alone, 1 replaces it, 2 is an error, 3 removes it
    pub fixes: usize,
    pub spot: bool,
}

impl TypeId for AnyInstrument {
    fn get_type_id(&self) -> &'static str { "AnyInstrument" }
}

impl InstanceId for AnyInstrument {
    fn id(&self) -> &str { self.name }
}

pub fn time_of(t: TimeOfDay) -> f64 { match t { TimeOfDay::Open => 0.0, TimeOfDay::EDSP => 1.0, TimeOfDay::Close => 2.0 } }

/// Ghost: the value of the arbitrary instrument n
pub fn value_at(n: i32, d: DateTime) -> f64 {
    uf("value", &[n as f64, j(d.date()) as f64, time_of(d.time_of_day())], 50.0, 150.0)
}
/// Ghost: the moment within the day of the arbitrary instrument n
pub fn moment_of(n: i32, d: DateTime) -> DateDayFraction {
    let f = uf("moment", &[n as f64, time_of(d.time_of_day())], 0.0, 0.99);
    assume(f >= 0.0 && f < 1.0);
    DateDayFraction::new(d.date(), f)
}

impl Instrument for AnyInstrument {
    fn payoff_currency(&self) -> &Currency { &*self.currency }
    fn credit_id(&self) -> &str { self.credit }
    fn settlement(&self) -> &RcDateRule { &self.settlement }
    fn dependencies(&self, context: &mut dyn DependencyContext) -> SpotRequirement {
        context.yield_curve(self.credit, day(20000 + self.n));
        if self.spot { SpotRequirement::Required } else { SpotRequirement::NotRequired }
    }
    fn time_to_day_fraction(&self, d: DateTime) -> Result<DateDayFraction, qm::Error> { Ok(moment_of(self.n, d)) }
    fn as_priceable(&self) -> Option<&dyn Priceable> { Some(self) }
    fn fix(&self, _table: &FixingTable) -> Result<Option<Vec<(f64, RcInstrument)>>, qm::Error> {
        match self.fixes {
            0 => Ok(None),
            1 => Ok(Some(vec![(becomes(self.n), any_instrument(10 + self.n, "R", self.credit, 0)), (2.0, any_instrument(20 + self.n, "Q", self.credit, 0))])),
            2 => Err(qm::Error::new("cannot be fixed")),
            _ => Ok(Some(Vec::new())),
        }
    }
}

/// Ghost: the weight of what the arbitrary instrument n is replaced by
pub fn becomes(n: i32) -> f64 { uf("becomes", &[n as f64], -2.0, 2.0) }

impl Priceable for AnyInstrument {
    fn as_instrument(&self) -> &dyn Instrument { self }
    fn prices(&self, _context: &dyn PricingContext, dates: &[DateTime], out: &mut [f64]) -> Result<(), qm::Error> {
        for i in 0..dates.len() { out[i] = value_at(self.n, dates[i]); }
        Ok(())
    }
}

pub fn any_currency() -> RcCurrency { RcCurrency::new(Arc::new(Currency::new("CCY", any_rule(9)))) }

pub fn any_instrument(n: i32, name: &'static str, credit: &'static str, fixes: usize) -> RcInstrument {
    RcInstrument::new(Qrc::new(Arc::new(AnyInstrument { n: n, name: name, credit: credit, currency: any_currency(),
        settlement: any_rule(n), fixes: fixes, spot: false })))
}

/// Market data about which nothing is known. Names are told apart by their first letter.
pub struct AnyContext { pub spot_date: Date }

pub fn number(name: &str) -> i32 {
    if name == "A" { 1 } else if name == "B" { 2 } else if name == "C" { 3 } else if name == "O" { 4 } else { 5 }
}

pub fn spot_of(n: i32) -> f64 {
    let s = uf("spot", &[n as f64], 50.0, 150.0);
    assume(s > 0.0);
    s
}

impl PricingContext for AnyContext {
    fn spot_date(&self) -> Date { self.spot_date }
    fn yield_curve(&self, credit_id: &str, _high_water_mark: Date) -> Result<RcRateCurve, qm::Error> { Ok(any_rates(number(credit_id))) }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> { Ok(spot_of(number(id))) }
    fn forward_curve(&self, instrument: &dyn Instrument, _high_water_mark: Date) -> Result<Arc<dyn Forward>, qm::Error> {
        Ok(Arc::new(AnyForward(number(instrument.id()))))
    }
    fn vol_surface(&self, instrument: &dyn Instrument, _high_water_mark: Date,
        _forward_fn: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> {
        Ok(any_vol(number(instrument.id()), DateDayFraction::new(self.spot_date, 0.0), None))
    }
    fn correlation(&self, first: &dyn Instrument, second: &dyn Instrument) -> Result<f64, qm::Error> {
        let (i, j) = (number(first.id()), number(second.id()));
        if i == j { return Ok(1.0); }
        Ok(uf("correlation", &[i.min(j) as f64, i.max(j) as f64], -1.0, 1.0))
    }
}

/// The discount factor of curve id between two dates
pub fn df(id: i32, to: Date, from: Date) -> f64 { (curve_rt(id, from) - curve_rt(id, to)).exp() }
