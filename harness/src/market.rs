//! Market data for two names, A paying on C and B paying on D, among any number of others
use crate::contracts::*;
use crate::sym::*;
use quantmath::core::factories::Qrc;
use quantmath::data::bump::{Bump, Bumper};
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::forward::{EquityForward, Forward};
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;
use quantmath::instruments::{PricingContext, RcInstrument};
use quantmath::risk::marketdata::MarketData;
use std::collections::HashMap;
use std::sync::Arc;

pub const NAMES: [&str; 2] = ["A", "B"];
pub const CREDITS: [&str; 2] = ["C", "D"];

/// What the market data hold, piece by piece
#[derive(Clone)]
pub struct Pieces {
    pub date: Date,
    pub spots: Vec<f64>,
    pub rates: Vec<RcRateCurve>,
    pub borrow: Vec<RcRateCurve>,
    pub divs: Vec<RcDividendStream>,
    pub vols: Vec<RcVolSurface>,
    /// both names pay on C
    pub shared: bool,
}

pub fn stream(n: i32, date: Date) -> RcDividendStream {
    let cash = uf("cash", &[n as f64], 0.0, 3.0);
    let relative = if n % 2 == 0 { 0.0 } else { uf("relative", &[n as f64], 0.001, 0.05) };
    assume(n % 2 == 0 || relative > 0.0);
    let zero: RcRateCurve = RcRateCurve::new(Arc::new(ZeroRateCurve::new(date)));
    RcDividendStream::new(Arc::new(DividendStream::new(&[Dividend::new(cash, relative, date + 10, date + 20)], zero)))
}

fn other_spot(k: usize) -> f64 { 70.0 + k as f64 }
fn other_rates(k: usize) -> RcRateCurve { any_rates(90 + k as i32) }
fn other_divs(k: usize) -> RcDividendStream { stream(90 + k as i32, day(20000)) }
fn other_vol(k: usize) -> RcVolSurface { any_vol(90 + k as i32, DateDayFraction::new(day(20000), 0.0), None) }

impl Pieces {
    pub fn any() -> Pieces {
        let date = mid_date("spot date");
        let mut p = Pieces { date: date, spots: Vec::new(), rates: Vec::new(), borrow: Vec::new(), divs: Vec::new(), vols: Vec::new(), shared: false };
        for k in 0..2 {
            let n = k as i32;
            p.spots.push(spot_of(n));
            p.rates.push(any_rates(10 + n));
            p.borrow.push(any_rates(20 + n));
            p.divs.push(stream(n, date));
            p.vols.push(any_vol(30 + n, DateDayFraction::new(date, 0.0), None));
        }
        p
    }

    pub fn market(&self) -> MarketData { self.market_and(true) }

    pub fn market_and(&self, more: bool) -> MarketData {
        let mut spots: HashMap<String, f64> = HashMap::new();
        let mut rates: HashMap<String, RcRateCurve> = HashMap::new();
        let mut borrow: HashMap<String, RcRateCurve> = HashMap::new();
        let mut divs: HashMap<String, RcDividendStream> = HashMap::new();
        let mut vols: HashMap<String, RcVolSurface> = HashMap::new();
        for k in 0..2 {
            spots.insert(NAMES[k].to_string(), self.spots[k]);
            rates.insert(CREDITS[k].to_string(), self.rates[k].clone());
            borrow.insert(NAMES[k].to_string(), self.borrow[k].clone());
            divs.insert(NAMES[k].to_string(), self.divs[k].clone());
            vols.insert(NAMES[k].to_string(), self.vols[k].clone());
        }
        if more {
            others(&mut spots, &["X"], other_spot);
            others(&mut rates, &["X"], other_rates);
            others(&mut borrow, &["X"], other_rates);
            others(&mut divs, &["X"], other_divs);
            others(&mut vols, &["X"], other_vol);
        }
        MarketData::new(self.date, spots, rates, borrow, divs, vols)
    }

    /// The pieces after a bump of the given kind to name k
    pub fn bumped(&self, kind: usize, k: usize, size: f64) -> Pieces {
        let mut p = self.clone();
        match kind {
            0 => p.spots[k] = self.spots[k] * (1.0 + size),
            1 => p.spots[k] = size,
            2 => p.divs[k] = BumpDivs::new_all_relative(size).apply(self.divs[k].clone()),
            3 => p.borrow[k] = BumpYield::new_flat_continuously_compounded(size).apply(self.borrow[k].clone()),
            4 => p.rates[k] = BumpYield::new_flat_continuously_compounded(size).apply(self.rates[k].clone()),
            5 => p.rates[k] = BumpYield::new_flat_annualised(size).apply(self.rates[k].clone()),
            _ => p.vols[k] = BumpVol::new_flat_additive(size).apply(self.vols[k].clone()),
        }
        p
    }

    pub fn pays_on(&self, k: usize) -> usize { if self.shared { 0 } else { k } }

    pub fn instrument(&self, k: usize) -> RcInstrument { named(k as i32, NAMES[k], CREDITS[self.pays_on(k)]) }

    /// The forward of name k built afresh
    pub fn forward(&self, k: usize, mark: Date) -> Arc<dyn Forward> {
        Arc::new(EquityForward::new(self.date, self.spots[k], any_rule(k as i32), self.rates[self.pays_on(k)].clone(), self.borrow[k].clone(), &*self.divs[k], mark).unwrap())
    }
}

pub const KINDS: usize = 7;

/// A bump of the given kind to a name: k is 0 or 1, anything else is a name that is not there
pub fn bump_of(kind: usize, k: usize, size: f64) -> Bump {
    let name = if k < 2 { NAMES[k] } else { "X" };
    let credit = if k < 2 { CREDITS[k] } else { "X" };
    match kind {
        0 => Bump::new_spot(name, BumpSpot::new_relative(size)),
        1 => Bump::new_spot(name, BumpSpot::new_replace(size)),
        2 => Bump::new_divs(name, BumpDivs::new_all_relative(size)),
        3 => Bump::new_borrow(name, BumpYield::new_flat_continuously_compounded(size)),
        4 => Bump::new_yield(credit, BumpYield::new_flat_continuously_compounded(size)),
        5 => Bump::new_yield(credit, BumpYield::new_flat_annualised(size)),
        _ => Bump::new_vol(name, BumpVol::new_flat_additive(size)),
    }
}

pub fn any_size(name: &'static str) -> f64 { any_f64(name, 0.001, 0.2) }

pub fn name_of(k: usize) -> RcInstrument { named(k as i32, NAMES[k], CREDITS[k]) }

pub fn named(n: i32, name: &'static str, credit: &'static str) -> RcInstrument {
    RcInstrument::new(Qrc::new(Arc::new(AnyInstrument { n: n, name: name, credit: credit, currency: any_currency(),
        settlement: any_rule(n), fixes: 0, spot: true })))
}

pub fn volatility(surface: &RcVolSurface, at: DateDayFraction, strike: f64) -> f64 {
    let mut out = [0.0];
    surface.volatilities(at, &[strike], &mut out).unwrap();
    out[0]
}

/// Where the market is looked at
pub struct Look { pub date: Date, pub strike: f64, pub forwards: bool }

pub fn any_look(date: Date) -> Look {
    Look { date: date + any_i32("days on", 21, 400), strike: any_f64("strike", 50.0, 150.0), forwards: true }
}

/// The market gives what the pieces say
pub fn agrees(context: &dyn PricingContext, p: &Pieces, look: &Look) {
    prove("spot date", context.spot_date() == p.date);
    for k in 0..2 {
        let instrument = p.instrument(k);
        prove_eq("spot", context.spot(NAMES[k]).unwrap(), p.spots[k]);
        prove_eq("rate", context.yield_curve(CREDITS[k], look.date).unwrap().rt(look.date).unwrap(), p.rates[k].rt(look.date).unwrap());
        if look.forwards {
            let fresh = p.forward(k, look.date);
            let forward = context.forward_curve(&*instrument, look.date).unwrap();
            prove_eq("forward", forward.forward(look.date).unwrap(), fresh.forward(look.date).unwrap());
            prove_eq("fixed dividends", forward.fixed_divs_after(p.date + 5).unwrap(), fresh.fixed_divs_after(p.date + 5).unwrap());
        }
        let vol = context.vol_surface(&*instrument, look.date, &|| Ok(p.forward(k, look.date))).unwrap();
        let at = DateDayFraction::new(look.date, 0.5);
        prove_eq("volatility", volatility(&vol, at, look.strike), volatility(&p.vols[k], at, look.strike));
    }
}
