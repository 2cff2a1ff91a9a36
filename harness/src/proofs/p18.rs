//! P18: delta, gamma, vega and volga
use crate::contracts::*;
use crate::market::*;
use crate::sym::*;
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::core::qm;
use quantmath::data::bump::{Bump, Bumper};
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::datetime::{DateDayFraction, DateTime};
use quantmath::dates::rules::RcDateRule;
use quantmath::dates::Date;
use quantmath::instruments::assets::{Currency, RcCurrency};
use quantmath::instruments::*;
use quantmath::core::dedup::InstanceId;
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::deltagamma::{DeltaGammaReport, DeltaGammaReportGenerator};
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::vegavolga::{VegaVolgaReport, VegaVolgaReportGenerator};
use quantmath::risk::*;
use serde_derive::Serialize;
use std::any::Any;
use std::sync::Arc;

/// Ghost: the price, any function of the spots and volatilities of two names
fn price_of(x: &[f64]) -> f64 {
    if symbolic() { return uf("price", x, 0.0, 0.0); }
    let mut v = uf("constant", &[], -10.0, 10.0);
    for i in 0..x.len() {
        let y = x[i] / (if i < 2 { 100.0 } else { 0.3 });
        v += uf("slope", &[i as f64], -10.0, 10.0) * y + uf("curvature", &[i as f64], -10.0, 10.0) * y * y + uf("cube", &[i as f64], -5.0, 5.0) * y * y * y;
    }
    v + uf("cross", &[], -1.0, 1.0) * x[0] * x[1] / 1e4
}

/// Where the price cannot be calculated
fn fails(x: &[f64]) -> bool {
    if symbolic() { return up("fails", x); }
    x[0] > uf("most", &[0.0], 40.0, 200.0) || x[1] < uf("least", &[0.0], 20.0, 150.0) || x[2] > uf("most", &[1.0], 0.1, 0.9) || x[3] < uf("least", &[1.0], 0.0, 0.6)
}

/// A pricer about which nothing is known but that its price depends on the spots and volatilities of
/// the two names. A third name is in its dependencies but not in its market.
struct Book { date: Date, what: DependencyCollector, at: Vec<f64>, may_fail: bool }

struct SavedBook { at: Option<Vec<f64>> }

impl Saveable for SavedBook {
    fn as_any(&self) -> &dyn Any { self }
    fn as_mut_any(&mut self) -> &mut dyn Any { self }
    fn clear(&mut self) { self.at = None; }
}

fn place(id: &str) -> usize { if id == "A" { 0 } else if id == "B" { 1 } else { 2 } }

impl Bumpable for Book {
    fn bump(&mut self, bump: &Bump, save: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> {
        let (k, size) = match bump {
            Bump::Spot(id, b) => { let k = place(id); if k > 1 { return Ok(false); } (k, b.apply(self.at[k])) },
            Bump::Vol(id, BumpVol::FlatAdditive { size }) => { let k = place(id); if k > 1 { return Ok(false); } (k + 2, self.at[k + 2] + size) },
            _ => { prove("only such bumps", false); (0, 0.0) },
        };
        if let Some(s) = save {
            let saved = s.as_mut_any().downcast_mut::<SavedBook>().unwrap();
            if saved.at.is_none() { saved.at = Some(self.at.clone()); }
        }
        self.at[k] = size;
        Ok(true)
    }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> { Ok(&self.what) }
    fn context(&self) -> &dyn PricingContext { self }
    fn new_saveable(&self) -> Box<dyn Saveable> { Box::new(SavedBook { at: None }) }
    fn restore(&mut self, saved: &dyn Saveable) -> Result<(), qm::Error> {
        if let Some(ref at) = saved.as_any().downcast_ref::<SavedBook>().unwrap().at { self.at = at.clone(); }
        Ok(())
    }
}

impl PricingContext for Book {
    fn spot_date(&self) -> Date { self.date }
    fn yield_curve(&self, _credit_id: &str, _mark: Date) -> Result<RcRateCurve, qm::Error> { panic!("not used") }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> { Ok(if place(id) < 2 { self.at[place(id)] } else { 10.0 }) }
    fn forward_curve(&self, _instrument: &dyn Instrument, _mark: Date) -> Result<Arc<dyn Forward>, qm::Error> { panic!("not used") }
    fn vol_surface(&self, _instrument: &dyn Instrument, _mark: Date,
        _forward_fn: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { panic!("not used") }
    fn correlation(&self, _first: &dyn Instrument, _second: &dyn Instrument) -> Result<f64, qm::Error> { panic!("not used") }
}

impl TimeBumpable for Book {
    fn bump_time(&mut self, _bump: &BumpTime) -> Result<(), qm::Error> { panic!("not used") }
}

impl PricerClone for Book {
    fn clone_box(&self) -> Box<dyn Pricer> { panic!("not used") }
}

impl Pricer for Book {
    fn as_bumpable(&self) -> &dyn Bumpable { self }
    fn as_mut_bumpable(&mut self) -> &mut dyn Bumpable { self }
    fn as_mut_time_bumpable(&mut self) -> &mut dyn TimeBumpable { self }
    fn price(&self) -> Result<f64, qm::Error> {
        if self.may_fail && fails(&self.at) { return Err(qm::Error::new("no price")); }
        Ok(price_of(&self.at))
    }
}

fn any_state() -> Vec<f64> {
    vec![spot_of(0), spot_of(1), any_f64("volatility", 0.1, 0.5), any_f64("volatility", 0.1, 0.5)]
}

fn book(names: usize, may_fail: bool) -> Book {
    let date = mid_date("spot date");
    let mut what = DependencyCollector::new(date);
    for k in 0..names { what.spot(&named(k as i32, ["A", "B", "K"][k], "C")); }
    Book { date: date, what: what, at: any_state(), may_fail: may_fail }
}

fn with(at: &Vec<f64>, k: usize, x: f64) -> Vec<f64> {
    let mut out = at.clone();
    out[k] = x;
    out
}

fn any_bump() -> f64 {
    let b = any_f64("bump size", -0.3, 0.3);
    assume(b > -1.0 && b < 1.0);
    assume(b > 0.001 || b < -0.001);
    b
}

/// The first and second differences of the price in coordinate k, at up and down from where it is
fn differences(at: &Vec<f64>, k: usize, up: f64, down: f64, step: f64) -> (f64, f64) {
    let (u, d, m) = (price_of(&with(at, k, up)), price_of(&with(at, k, down)), price_of(at));
    ((u - d) / (2.0 * step), (u + d - 2.0 * m) / (step * step))
}

fn unchanged(pricer: &Book, at: &Vec<f64>, saved: &dyn Saveable) {
    for i in 0..4 { prove("pricer as it was", pricer.at[i] == at[i]); }
    prove("nothing left saved", saved.as_any().downcast_ref::<SavedBook>().unwrap().at.is_none());
}

fn deltas(names: usize) {
    let mut pricer = book(names, false);
    let at = pricer.at.clone();
    let b = any_bump();
    for k in 0..2 {
        let s = at[k];
        lemma("up then down", !symbolic() | (s * (1.0 + b) * (1.0 + ((1.0 - b) / (1.0 + b) - 1.0)) == s * (1.0 - b)));
    }
    let mut saved = pricer.new_saveable();
    let report = DeltaGammaReportGenerator::new(b).generate(&mut pricer, &mut *saved, price_of(&at));
    prove("reported", report.is_ok());
    let report = report.unwrap();
    let results = report.as_any().downcast_ref::<DeltaGammaReport>().unwrap().results();
    prove("a line for each name", results.len() == names);
    for k in 0..names {
        let found = results.get(["A", "B", "K"][k]);
        prove("name in the report", found.is_some());
        let line = found.unwrap();
        if k == 2 {
            prove("no response", line.delta() == 0.0 && line.gamma() == 0.0);
        } else {
            let s = at[k];
            let (delta, gamma) = differences(&at, k, s * (1.0 + b), s * (1.0 - b), b * s);
            prove_close("delta", line.delta(), delta, 10.0);
            prove_close("gamma", line.gamma(), gamma, 100.0);
        }
    }
    unchanged(&pricer, &at, &*saved);
    cover("reported");
}

fn vegas(names: usize) {
    let mut pricer = book(names, false);
    let at = pricer.at.clone();
    let b = any_bump();
    let bump = BumpVol::new_flat_additive(b);
    let back = match bump.opposite() { BumpVol::FlatAdditive { size } => size, _ => { prove("opposite of the same kind", false); 0.0 } };
    let mut saved = pricer.new_saveable();
    let report = VegaVolgaReportGenerator::new(bump).generate(&mut pricer, &mut *saved, price_of(&at));
    prove("reported", report.is_ok());
    let report = report.unwrap();
    let results = report.as_any().downcast_ref::<VegaVolgaReport>().unwrap().results();
    prove("a line for each name", results.len() == names);
    for k in 0..names {
        let found = results.get(["A", "B", "K"][k]);
        prove("name in the report", found.is_some());
        let line = found.unwrap();
        if k == 2 {
            prove("no response", line.vega() == 0.0 && line.volga() == 0.0);
        } else {
            let v = at[k + 2];
            let (vega, volga) = differences(&at, k + 2, v + b, v + b + back, b);
            prove_close("vega", line.vega(), vega, 1e3);
            prove_close("volga", line.volga(), volga, 1e6);
        }
    }
    unchanged(&pricer, &at, &*saved);
    cover("reported");
}

fn refused(vega: bool) {
    let mut pricer = book(2, true);
    let at = pricer.at.clone();
    assume(!fails(&at));
    let b = any_bump();
    let mut saved = pricer.new_saveable();
    let report = if vega { VegaVolgaReportGenerator::new(BumpVol::new_flat_additive(b)).generate(&mut pricer, &mut *saved, price_of(&at)) }
        else { DeltaGammaReportGenerator::new(b).generate(&mut pricer, &mut *saved, price_of(&at)) };
    if report.is_err() { cover("could not be priced"); } else { cover("priced"); }
    unchanged(&pricer, &at, &*saved);
}

/// An instrument whose price is any function of what the market says of two names
#[derive(Debug, Serialize)]
struct OfMarket { currency: RcCurrency, settlement: RcDateRule, names: Vec<RcInstrument>, to: Date, strike: f64 }

impl TypeId for OfMarket { fn get_type_id(&self) -> &'static str { "OfMarket" } }
impl InstanceId for OfMarket { fn id(&self) -> &str { "OFMARKET" } }

impl OfMarket {
    fn state(&self, context: &dyn PricingContext) -> Result<Vec<f64>, qm::Error> {
        let mut x = Vec::new();
        for n in self.names.iter() { x.push(context.spot(n.id())?); }
        for n in self.names.iter() {
            let surface = context.vol_surface(&**n, self.to, &|| context.forward_curve(&**n, self.to))?;
            x.push(volatility(&surface, DateDayFraction::new(self.to, 0.0), self.strike));
        }
        Ok(x)
    }
}

impl Instrument for OfMarket {
    fn payoff_currency(&self) -> &Currency { &*self.currency }
    fn credit_id(&self) -> &str { "C" }
    fn settlement(&self) -> &RcDateRule { &self.settlement }
    fn dependencies(&self, context: &mut dyn DependencyContext) -> SpotRequirement {
        for n in self.names.iter() {
            context.spot(n);
            context.forward_curve(n, self.to);
            context.vol_surface(n, self.to);
        }
        SpotRequirement::NotRequired
    }
    fn time_to_day_fraction(&self, d: DateTime) -> Result<DateDayFraction, qm::Error> { Ok(DateDayFraction::new(d.date(), 0.0)) }
    fn as_priceable(&self) -> Option<&dyn Priceable> { Some(self) }
}

impl Priceable for OfMarket {
    fn as_instrument(&self) -> &dyn Instrument { self }
    fn prices(&self, context: &dyn PricingContext, dates: &[DateTime], out: &mut [f64]) -> Result<(), qm::Error> {
        let x = self.state(context)?;
        for i in 0..dates.len() { out[i] = price_of(&x); }
        Ok(())
    }
}

/// The same through a pricer holding an instrument, with its prefetched market data
fn through_a_pricer(vega: bool) {
    let p = Pieces::any();
    let look = any_look(p.date);
    let names = vec![p.instrument(0), p.instrument(1)];
    let instrument = OfMarket { currency: any_currency(), settlement: any_rule(3), names: names, to: look.date, strike: look.strike };
    let at = instrument.state(&p.market()).unwrap();
    let b = any_bump();
    for k in 0..2 {
        let s = at[k];
        lemma("up then down", !symbolic() | (s * (1.0 + b) * (1.0 + ((1.0 - b) / (1.0 + b) - 1.0)) == s * (1.0 - b)));
    }
    let bump = BumpVol::new_flat_additive(b);
    let back = match bump.opposite() { BumpVol::FlatAdditive { size } => size, _ => 0.0 };
    for k in 0..2 { assume(!vega || (at[k + 2] + b >= 0.0 && at[k + 2] + b + back >= 0.0)); }
    let mut pricer = SelfPricer::new(vec![(1.0, RcInstrument::new(Qrc::new(Arc::new(instrument))))], &p.market()).unwrap();
    let unbumped = pricer.price();
    prove("priced", unbumped.is_ok());
    let unbumped = unbumped.unwrap();
    let mut saved = pricer.new_saveable();
    let report = if vega { VegaVolgaReportGenerator::new(bump).generate(&mut pricer, &mut *saved, unbumped) }
        else { DeltaGammaReportGenerator::new(b).generate(&mut pricer, &mut *saved, unbumped) };
    prove("reported", report.is_ok());
    let report = report.unwrap();
    for k in 0..2 {
        if vega {
            let found = report.as_any().downcast_ref::<VegaVolgaReport>().unwrap().results().get(NAMES[k]);
            prove("name in the report", found.is_some());
            let v = at[k + 2];
            let (first, second) = differences(&at, k + 2, v + b, v + b + back, b);
            prove_close("vega", found.unwrap().vega(), first, 1e3);
            prove_close("volga", found.unwrap().volga(), second, 1e6);
        } else {
            let found = report.as_any().downcast_ref::<DeltaGammaReport>().unwrap().results().get(NAMES[k]);
            prove("name in the report", found.is_some());
            let s = at[k];
            let (first, second) = differences(&at, k, s * (1.0 + b), s * (1.0 - b), b * s);
            prove_close("delta", found.unwrap().delta(), first, 10.0);
            prove_close("gamma", found.unwrap().gamma(), second, 100.0);
        }
    }
    prove("same price as before", pricer.price().unwrap() == unbumped);
    agrees(pricer.context(), &p, &look);
    cover("reported");
}

contracts! {
fn delta_of_one() { deltas(1) }
fn delta_of_several_bounded() { deltas(3) }
fn vega_of_one() { vegas(1) }
fn vega_of_several_bounded() { vegas(3) }
fn delta_refused() { refused(false) }
fn vega_refused() { refused(true) }
fn delta_through_a_pricer() { through_a_pricer(false) }
fn vega_through_a_pricer() { through_a_pricer(true) }

/// The move down is as large as the move up
fn vega_of_equal_moves() {
    let b = any_bump();
    let mut pricer = book(1, false);
    let at = pricer.at.clone();
    let mut saved = pricer.new_saveable();
    let report = VegaVolgaReportGenerator::new(BumpVol::new_flat_additive(b)).generate(&mut pricer, &mut *saved, price_of(&at));
    let report = report.unwrap();
    let line = report.as_any().downcast_ref::<VegaVolgaReport>().unwrap().results().get("A").unwrap();
    let v = at[2];
    let (vega, _) = differences(&at, 2, v + b, v - b, b);
    prove_close("central difference", line.vega(), vega, 1e3);
    cover("reported");
}
}
