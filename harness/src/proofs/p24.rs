//! P24: comparing sets of results
use crate::contracts::*;
use crate::market::*;
use crate::sym::*;
use quantmath::core::factories::{Qbox, Qrc};
use quantmath::core::qm;
use quantmath::data::bump::{Bump, Bumper};
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::Date;
use quantmath::facade::assert_approx_eq_reports;
use quantmath::instruments::*;
use quantmath::math::numerics::approx_eq;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::deltagamma::{DeltaGammaReport, DeltaGammaReportGenerator};
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::timebumped::TimeBumpedReport;
use quantmath::risk::vegavolga::{VegaVolgaReport, VegaVolgaReportGenerator};
use quantmath::risk::*;
use std::any::Any;
use std::sync::Arc;

/// Ghost: whether two numbers count as close
fn close(a: f64, b: f64, tol: f64) -> bool { a == a && b == b && (a - b < tol) && (b - a < tol) }

/// Any number, or not a number
fn number(name: &'static str) -> f64 {
    if choose("not a number", 2) == 1 { return std::f64::NAN; }
    any_f64(name, -1.0, 1.0)
}

/// Ghost: the price in one of several markets, any function of what is bumped
fn price_of(which: usize, x: &[f64]) -> f64 {
    let mut args = vec![which as f64];
    if symbolic() { args.extend_from_slice(x); return uf("price", &args, 0.0, 0.0); }
    let mut base = vec![0.0];
    base.extend_from_slice(x);
    let p = uf("price", &base, -1.0, 1.0);
    args.extend_from_slice(x);
    if which == 0 { p } else { p + uf("difference", &args, -1.0, 1.0) * uf("size of differences", &[which as f64], 0.0, 1e-3) }
}

/// A pricer about which nothing is known
struct Book { which: usize, date: Date, what: DependencyCollector, at: Vec<f64>, known: bool }

struct SavedBook { at: Option<Vec<f64>> }

impl Saveable for SavedBook {
    fn as_any(&self) -> &dyn Any { self }
    fn as_mut_any(&mut self) -> &mut dyn Any { self }
    fn clear(&mut self) { self.at = None; }
}

const IDS: [&str; 3] = ["A", "B", "K"];

fn place(id: &str) -> usize { if id == "A" { 0 } else if id == "B" { 1 } else { 2 } }

impl Bumpable for Book {
    fn bump(&mut self, bump: &Bump, save: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> {
        let (k, x) = match bump {
            Bump::Spot(id, b) => (place(id), b.apply(self.at[place(id)])),
            Bump::Vol(id, BumpVol::FlatAdditive { size }) => (place(id), self.at[place(id)] + size),
            _ => { prove("only such bumps", false); (0, 0.0) },
        };
        if let Some(s) = save {
            let saved = s.as_mut_any().downcast_mut::<SavedBook>().unwrap();
            if saved.at.is_none() { saved.at = Some(self.at.clone()); }
        }
        self.at[k] = x;
        Ok(true)
    }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> { Ok(&self.what) }
    fn context(&self) -> &dyn PricingContext { self }
    fn new_saveable(&self) -> Box<dyn Saveable> { Box::new(SavedBook { at: None }) }
    fn restore(&mut self, saved: &dyn Saveable) -> Result<(), qm::Error> {
        if let Some(ref at) = saved.as_any().downcast_ref::<SavedBook>().unwrap().at { self.at = at.clone(); }
        Ok(())
    }
}

impl PricingContext for Book {
    fn spot_date(&self) -> Date { self.date }
    fn yield_curve(&self, _credit_id: &str, _mark: Date) -> Result<RcRateCurve, qm::Error> { panic!("not used") }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> { Ok(self.at[place(id)]) }
    fn forward_curve(&self, _instrument: &dyn Instrument, _mark: Date) -> Result<Arc<dyn Forward>, qm::Error> { panic!("not used") }
    fn vol_surface(&self, _instrument: &dyn Instrument, _mark: Date,
        _forward_fn: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { panic!("not used") }
    fn correlation(&self, _first: &dyn Instrument, _second: &dyn Instrument) -> Result<f64, qm::Error> { panic!("not used") }
}

impl TimeBumpable for Book {
    fn bump_time(&mut self, _bump: &BumpTime) -> Result<(), qm::Error> { panic!("not used") }
}

impl PricerClone for Book {
    fn clone_box(&self) -> Box<dyn Pricer> { panic!("not used") }
}

impl Pricer for Book {
    fn as_bumpable(&self) -> &dyn Bumpable { self }
    fn as_mut_bumpable(&mut self) -> &mut dyn Bumpable { self }
    fn as_mut_time_bumpable(&mut self) -> &mut dyn TimeBumpable { self }
    fn price(&self) -> Result<f64, qm::Error> {
        if !self.known { return Ok(std::f64::NAN); }
        Ok(price_of(self.which, &self.at))
    }
}

fn positive(name: &'static str, low: f64, high: f64) -> f64 {
    let x = any_f64(name, low, high);
    assume(x > 0.0);
    x
}

/// A report on the given names, from the given prices
fn report(vega: bool, which: usize, names: &[usize], bump: f64, known: bool) -> BoxReport {
    let date = mid_date("spot date");
    let mut what = DependencyCollector::new(date);
    for k in names.iter() { what.spot(&named(*k as i32, IDS[*k], "C")); }
    let at = if names.len() > 1 { vec![100.0, 50.0, 25.0] } else { vec![spot_of(0), spot_of(1), spot_of(2)] };
    let mut pricer = Book { which: which, date: date, what: what, at: at, known: known };
    let unbumped = pricer.price().unwrap();
    let mut saved = pricer.new_saveable();
    let r = if vega { VegaVolgaReportGenerator::new(BumpVol::new_flat_additive(bump)).generate(&mut pricer, &mut *saved, unbumped) }
        else { DeltaGammaReportGenerator::new(bump).generate(&mut pricer, &mut *saved, unbumped) };
    r.unwrap()
}

/// First and second derivative reported for a name
fn line(vega: bool, r: &BoxReport, id: &str) -> Option<(f64, f64)> {
    if vega { r.as_any().downcast_ref::<VegaVolgaReport>().unwrap().results().get(id).map(|x| (x.vega(), x.volga())) }
    else { r.as_any().downcast_ref::<DeltaGammaReport>().unwrap().results().get(id).map(|x| (x.delta(), x.gamma())) }
}

struct Tolerances { price: f64, currency: f64, unit: f64 }

fn any_tolerances() -> Tolerances {
    Tolerances { price: any_f64("price tolerance", 0.0, 1.0), currency: any_f64("currency risk tolerance", 0.0, 1e-3), unit: any_f64("unit risk tolerance", 0.0, 1e-5) }
}

fn same(a: &[BoxReport], b: &[BoxReport], t: &Tolerances) -> bool {
    let forth = assert_approx_eq_reports(a, b, t.price, t.currency, t.unit).is_ok();
    let back = assert_approx_eq_reports(b, a, t.price, t.currency, t.unit).is_ok();
    prove("the same the other way round", forth == back);
    forth
}

fn settled(equal: bool, found: bool) {
    if equal { cover("equal"); } else { cover("different"); }
    prove("close exactly when every number is", equal == found);
}

fn bumped(vega: bool, first: &[usize], second: &[usize]) {
    let b = if first.len() > 1 { 0.01 } else { positive("bump size", 0.001, 0.3) };
    assume(b < 1.0);
    let t = any_tolerances();
    let known = choose("not a number", 2) == 0;
    let r = vec![report(vega, 0, first, b, true)];
    let s = vec![report(vega, 1, second, b, known)];
    let tol = if vega { t.currency } else { t.unit } / b;
    let mut equal = true;
    for id in IDS.iter() {
        match (line(vega, &r[0], id), line(vega, &s[0], id)) {
            (Some(x), Some(y)) => { if !(close(x.0, y.0, tol) && close(x.1, y.1, tol / b)) { equal = false; } },
            (None, None) => {},
            _ => { equal = false; }
        }
    }
    settled(equal, same(&r, &s, &t));
}

fn any_subset() -> Vec<usize> {
    let mut v = Vec::new();
    for k in 0..3 { if choose("in the report", 2) == 1 { v.push(k); } }
    v
}

fn time(price: f64, theta: f64, inner: Vec<BoxReport>) -> BoxReport { Qbox::new(Box::new(TimeBumpedReport::new(price, theta, inner))) }

contracts! {
fn numbers() {
    let (a, b, tol) = (number("first"), number("second"), any_f64("tolerance", -1.0, 3.0));
    let found = approx_eq(a, b, tol);
    prove("close exactly when nearer than the tolerance", found == close(a, b, tol));
    prove("the same the other way round", found == approx_eq(b, a, tol));
    if found { cover("close"); } else { cover("apart"); }
}

fn time_reports() {
    let t = any_tolerances();
    let (p, q, v, w) = (number("price"), number("price"), number("theta"), number("theta"));
    let r = vec![time(p, v, Vec::new())];
    let s = vec![time(q, w, Vec::new())];
    settled(close(p, q, t.price) && close(v, w, t.price), same(&r, &s, &t));
}

fn delta_reports_of_one() { bumped(false, &[0], &[0]) }
fn vega_reports_of_one() { bumped(true, &[0], &[0]) }

/// Reports on two names, so that one may differ and the other not
fn delta_reports_of_two_bounded() { bumped(false, &[0, 1], &[1, 0]) }
fn vega_reports_of_two_bounded() { bumped(true, &[0, 1], &[1, 0]) }

/// Names in one report and not in the other
fn missing_names() {
    let vega = choose("vega", 2) == 1;
    let (first, second) = (any_subset(), any_subset());
    let t = Tolerances { price: 1e9, currency: 1e9, unit: 1e9 };
    let r = vec![report(vega, 0, &first, 0.01, true)];
    let s = vec![report(vega, 0, &second, 0.01, true)];
    let mut equal = first.len() == second.len();
    for i in 0..first.len() { if equal && first[i] != second[i] { equal = false; } }
    settled(equal, same(&r, &s, &t));
}

/// Reports of different kinds, in lists of different lengths, at the top or inside a report
fn lists_of_reports() {
    let t = any_tolerances();
    assume(t.price > 0.0 && t.currency > 0.0 && t.unit > 0.0);
    let inside = choose("inside a report", 2) == 1;
    let mut lists: Vec<Vec<BoxReport>> = Vec::new();
    let mut kinds: Vec<Vec<usize>> = Vec::new();
    let mut values: Vec<Vec<f64>> = Vec::new();
    for _ in 0..2 {
        let (mut list, mut kind, mut value) = (Vec::new(), Vec::new(), Vec::new());
        for _ in 0..choose("number of reports", 3) {
            let k = choose("kind of report", 3) as usize;
            let x = if k == 0 { any_f64("price", -1.0, 1.0) } else { 0.0 };
            list.push(if k == 0 { time(x, 0.0, Vec::new()) } else { report(k == 2, 0, &[0], 0.01, true) });
            kind.push(k);
            value.push(x);
        }
        lists.push(list);
        kinds.push(kind);
        values.push(value);
    }
    let mut equal = kinds[0].len() == kinds[1].len();
    if equal {
        for i in 0..kinds[0].len() {
            if kinds[0][i] != kinds[1][i] || !close(values[0][i], values[1][i], t.price) { equal = false; }
        }
    }
    let second = lists.pop().unwrap();
    let first = lists.pop().unwrap();
    let found = if inside { same(&[time(1.0, 0.0, first)], &[time(1.0, 0.0, second)], &t) } else { same(&first, &second, &t) };
    settled(equal, found);
}

/// Reports taken with different bump sizes
fn bump_sizes_differ() {
    let vega = choose("vega", 2) == 1;
    let (b, c) = (positive("bump size", 0.001, 0.3), positive("bump size", 0.001, 0.3));
    assume(b < 1.0 && c < 1.0);
    let t = any_tolerances();
    same(&[report(vega, 0, &[0], b, true)], &[report(vega, 1, &[0], c, true)], &t);
    cover("compared");
}
}
