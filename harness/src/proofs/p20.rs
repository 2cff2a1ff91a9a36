//! P20: root finding and implied volatility
use crate::contracts::*;
use crate::market::*;
use crate::sym::*;
use quantmath::core::qm;
use quantmath::math::brent::zbrent;
use quantmath::data::bump::Bump;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::Date;
use quantmath::instruments::*;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::*;
use quantmath::solvers::impliedvol::ImpliedVol;
use quantmath::solvers::OneDimensionalSolver;
use std::f64::EPSILON;
use std::sync::Arc;

/// Ghost: any function; for searching, continuous ones of several shapes
fn f(x: f64) -> f64 {
    if symbolic() { return uf("f", &[x], 0.0, 0.0); }
    let r = uf("root", &[], -3.0, 5.0);
    let k = uf("steepness", &[], 0.1, 20.0);
    let s = if uf("falling", &[], 0.0, 1.0) > 0.5 { -1.0 } else { 1.0 };
    let y = x - r;
    s * match ufi("shape", &[], 0, 7) {
        0 => k * y,
        1 => y * y * y,
        2 => (k * y).atan() + 0.1 * y,
        3 => (k * y).exp() - 1.0,
        4 => k * y + y * y * y + 2.0 * (5.0 * x).sin(),
        5 => y.powi(9) * 1e-3 + 1e-9 * y,
        6 => (k * y).max(-0.01) + 1e-3 * y,
        // straight lines through four points, steep at one end
        _ => {
            let z = if x < 0.5 { 25.3 - x * 20.0 } else if x < 0.96 { 15.3 - (x - 0.5) * 29.3 } else { 1.822 - (x - 0.96) * 696.5 };
            z * (1.0 + 0.01 * k) + 0.01 * r
        }
    }
}

fn fails(x: f64) -> bool { up("fails", &[x]) }

fn target() -> f64 { uf("target", &[], -10.0, 10.0) }

/// What is left of the price after the target is taken off (for searching, as rounded)
fn excess(x: f64) -> f64 { if symbolic() { f(x) } else { (f(x) + target()) - target() } }

/// A pricer whose price is any function of one volatility
struct Priced { date: Date, what: DependencyCollector, vol: f64, lo: f64, hi: f64, points: Vec<f64> }

impl Bumpable for Priced {
    fn bump(&mut self, bump: &Bump, _save: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> {
        match bump {
            Bump::Vol(id, BumpVol::Replace { vol }) => {
                prove("the volatility of that name", id == "A");
                prove("tried inside the bracket", (*vol >= self.lo) & (*vol <= self.hi));
                if !symbolic() { self.points.push(*vol); }
                self.vol = *vol;
            },
            _ => prove("only such bumps", false)
        }
        Ok(true)
    }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> { Ok(&self.what) }
    fn context(&self) -> &dyn PricingContext { self }
    fn new_saveable(&self) -> Box<dyn Saveable> { panic!("not used") }
    fn restore(&mut self, _saved: &dyn Saveable) -> Result<(), qm::Error> { panic!("not used") }
}

impl PricingContext for Priced {
    fn spot_date(&self) -> Date { self.date }
    fn yield_curve(&self, _credit_id: &str, _mark: Date) -> Result<RcRateCurve, qm::Error> { panic!("not used") }
    fn spot(&self, _id: &str) -> Result<f64, qm::Error> { panic!("not used") }
    fn forward_curve(&self, _instrument: &dyn Instrument, _mark: Date) -> Result<Arc<dyn Forward>, qm::Error> { panic!("not used") }
    fn vol_surface(&self, _instrument: &dyn Instrument, _mark: Date,
        _forward_fn: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { panic!("not used") }
    fn correlation(&self, _first: &dyn Instrument, _second: &dyn Instrument) -> Result<f64, qm::Error> { panic!("not used") }
}

impl TimeBumpable for Priced {
    fn bump_time(&mut self, _bump: &BumpTime) -> Result<(), qm::Error> { panic!("not used") }
}

impl PricerClone for Priced {
    fn clone_box(&self) -> Box<dyn Pricer> { panic!("not used") }
}

impl Pricer for Priced {
    fn as_bumpable(&self) -> &dyn Bumpable { self }
    fn as_mut_bumpable(&mut self) -> &mut dyn Bumpable { self }
    fn as_mut_time_bumpable(&mut self) -> &mut dyn TimeBumpable { self }
    fn price(&self) -> Result<f64, qm::Error> {
        Ok(f(self.vol) + target())
    }
}

fn priced(names: usize, lo: f64, hi: f64) -> Priced {
    let date = mid_date("spot date");
    let mut what = DependencyCollector::new(date);
    for k in 0..names {
        let i = named(k as i32, ["A", "B", "K"][k], "C");
        what.spot(&i);
        what.vol_surface(&i, date + any_i32("to expiry", 0, 1000));
    }
    Priced { date: date, what: what, vol: any_f64("volatility", 0.1, 0.5), lo: lo, hi: hi, points: Vec::new() }
}

contracts! {
/// The volatility found is where the price passes the target
fn implied() {
    let (x1, x2) = (any_f64("one end", -10.0, 10.0), any_f64("other end", -10.0, 10.0));
    let (lo, hi) = if x1 < x2 { (x1, x2) } else { (x2, x1) };
    let tol = any_f64("tolerance", 1e-6, 1e-3);
    assume(tol >= 0.0);
    let most = any_i32("iterations", 0, 200) as u32;
    let mut pricer = priced(1, lo, hi);
    let found = ImpliedVol::new(tol, most).solve(&mut pricer, target(), x1, x2);
    let (a, b) = (excess(x1), excess(x2));
    if (a > 0.0 && b > 0.0) || (a < 0.0 && b < 0.0) {
        cover("not a bracket");
        prove("refused", found.is_err());
    } else if found.is_err() {
        prove("only for want of iterations", symbolic() || pricer.points.len() >= most as usize);
    } else {
        cover("found");
        let x = found.unwrap();
        prove("inside the bracket", (x >= lo) & (x <= hi));
        prove_root("the price passes the target there", "f", excess, x, tol + 4.0 * EPSILON * x.abs(), &pricer.points);
    }
}

fn no_volatility() {
    let mut pricer = priced(0, 0.0, 1.0);
    prove("refused", ImpliedVol::new(1e-6, 100).solve(&mut pricer, 0.0, 0.0, 1.0).is_err());
    cover("tried");
}

fn two_volatilities() {
    let mut pricer = priced(2, 0.0, 1.0);
    prove("refused", ImpliedVol::new(1e-6, 100).solve(&mut pricer, 0.0, 0.0, 1.0).is_err());
    cover("tried");
}

fn root() {
    let (x1, x2) = (any_f64("one end", -10.0, 10.0), any_f64("other end", -10.0, 10.0));
    let tol = any_f64("tolerance", 0.0, 1e-3);
    assume(tol >= 0.0);
    let most = any_i32("iterations", 0, 200) as u32;
    let (lo, hi) = if x1 < x2 { (x1, x2) } else { (x2, x1) };
    let mut points: Vec<f64> = Vec::new();
    let found = zbrent(x1, x2, tol, most, &mut |x| {
        prove("evaluated inside the bracket", (x >= lo) & (x <= hi));
        if !symbolic() { points.push(x); }
        Ok(f(x))
    });
    let (a, b) = (f(x1), f(x2));
    if (a > 0.0 && b > 0.0) || (a < 0.0 && b < 0.0) {
        cover("not a bracket");
        prove("refused", found.is_err());
    } else if found.is_err() {
        prove("only for want of iterations", symbolic() || points.len() >= most as usize);
    } else {
        cover("found");
        let x = found.unwrap();
        prove("inside the bracket", (x >= lo) & (x <= hi));
        prove_root("the function changes sign there", "f", f, x, tol + 4.0 * EPSILON * x.abs(), &points);
    }
}

/// Errors of the function are passed on
fn errors() {
    let (x1, x2) = (any_f64("one end", -10.0, 10.0), any_f64("other end", -10.0, 10.0));
    let most = any_i32("iterations", 0, 200) as u32;
    let mut failed = false;
    let (lo, hi) = if x1 < x2 { (x1, x2) } else { (x2, x1) };
    let found = zbrent(x1, x2, 1e-10, most, &mut |x| {
        prove("evaluated inside the bracket", (x >= lo) & (x <= hi));
        if fails(x) { failed = true; return Err(qm::Error::new("cannot be evaluated")); }
        Ok(f(x))
    });
    if failed { cover("failed"); prove("passed on", found.is_err()); } else { cover("evaluated"); }
}
}
