//! P21: Monte Carlo paths
use crate::contracts::*;
use crate::market::*;
use crate::sym::*;
use ndarray::{Array2, Array3, ArrayView2};
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::data::bump::Bump;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::bumpspotdate::{BumpSpotDate, SpotDynamics};
use quantmath::data::fixings::{FixingTable, RcFixingTable};
use quantmath::data::volsurface::{FlatVolSurface, RcVolSurface};
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::instruments::assets::Equity;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::models::blackdiffusion::*;
use quantmath::models::*;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::RcMarketData;
use quantmath::risk::{Bumpable, BumpablePricingContext};
use std::sync::Arc;

/// Draw k of path p for asset a
fn draw(p: usize, k: usize, a: usize) -> f64 { uf("draw", &[p as f64, k as f64, a as f64], -2.0, 2.0) }

fn market() -> AnyContext { AnyContext { spot_date: mid_date("spot date") } }

fn schedule(n: usize) -> Vec<DateDayFraction> {
    let mut out = vec![any_moment("first")];
    for k in 1..n {
        let next = later(out[k - 1], "gap", 1, 400);
        out.push(next);
    }
    out
}

fn surface(context: &AnyContext, n: i32) -> RcVolSurface { any_vol(n, DateDayFraction::new(context.spot_date, 0.0), None) }

/// The scale of one step before each observation, none if the variance falls
fn scales(n: i32, observations: &[DateDayFraction], steps: &[usize]) -> Option<Vec<f64>> {
    let mut out = Vec::new();
    let mut before = 0.0;
    for k in 0..observations.len() {
        let now = var_at(n, observations[k], fwd_at(n, observations[k].date()));
        let each = (now - before) / (steps[k] as f64);
        if each < 0.0 { return None; }
        out.push(each.sqrt());
        before = now;
    }
    Some(out)
}

/// Path p of asset a at each observation
fn expected(context: &AnyContext, n: i32, a: usize, p: usize, observations: &[DateDayFraction], steps: &[usize], scales: &[f64], moved: bool) -> Vec<f64> {
    let mut out = Vec::new();
    let mut product = 1.0;
    let mut g = 0;
    for k in 0..observations.len() {
        for _ in 0..steps[k] {
            if moved { product = product * (1.0 + scales[k] * draw(p, g, a)); }
            g += 1;
        }
        let d = surface(context, n).displacement(observations[k].date()).unwrap();
        let f = fwd_at(n, observations[k].date());
        out.push(product * (f - d) + d);
    }
    out
}

fn follows(paths: usize, steps: &[usize], moved: bool) {
    let context = market();
    let observations = schedule(steps.len());
    let mut total = 0;
    for k in 0..steps.len() { total += steps[k]; }
    let mut draws: Array2<f64> = Array2::zeros((paths, total));
    for p in 0..paths { for k in 0..total { if moved { draws[(p, k)] = draw(p, k, 0); } } }
    let mut path: Array2<f64> = Array2::zeros((paths, steps.len()));
    for p in 0..paths { for k in 0..steps.len() { path[(p, k)] = 7.0; } }
    let instrument = any_instrument(1, "A", "C", 0);
    let done = fetch_path(&*instrument, &context, &observations, draws.view(), steps, path.view_mut());
    let scales = scales(1, &observations, steps);
    prove("refused exactly if the variance falls", done.is_err() == scales.is_none());
    if done.is_err() { cover("variance falls"); return; }
    let scales = scales.unwrap();
    for p in 0..paths {
        let e = expected(&context, 1, 0, p, &observations, steps, &scales, moved);
        for k in 0..steps.len() {
            if moved { prove_close("forward times the product of the steps", path[(p, k)], e[k], 100.0); }
            else { prove_close("the forward when no draw moves it", path[(p, k)], fwd_at(1, observations[k].date()), 100.0); }
        }
    }
    cover("followed");
}

/// A context that has been given its paths and adds up flows with arbitrary weights
struct Given { paths: Array2<f64>, context: AnyContext }

fn share(p: usize) -> f64 { uf("share", &[p as f64], 0.1, 2.0) }

impl MonteCarloContext for Given {
    fn paths(&self, instrument: &RcInstrument) -> Result<ArrayView2<f64>, qm::Error> {
        prove("paths of the underlying", instrument.id() == "A");
        Ok(self.paths.view())
    }
    fn evaluate_flows(&self, quantities: ArrayView2<f64>) -> Result<f64, qm::Error> {
        let mut total = 0.0;
        for p in 0..2 { total += share(p) * quantities[(p, 0)]; }
        Ok(total)
    }
    fn pricing_context(&self) -> &dyn PricingContext { &self.context }
}

/// What an instrument says it needs
struct Told { observations: Vec<(RcInstrument, DateDayFraction)>, flows: Vec<RcInstrument> }

impl MonteCarloDependencies for Told {
    fn observation(&mut self, instrument: &RcInstrument, at: DateDayFraction) { self.observations.push((instrument.clone(), at)); }
    fn flow(&mut self, instrument: &RcInstrument) { self.flows.push(instrument.clone()); }
}

fn put_or_call() -> PutOrCall { if choose("put", 2) == 1 { PutOrCall::Put } else { PutOrCall::Call } }

fn payoff(kind: PutOrCall, spot: f64, strike: f64) -> f64 {
    let v = match kind { PutOrCall::Call => spot - strike, PutOrCall::Put => strike - spot };
    if v > 0.0 { v } else { 0.0 }
}

fn given(columns: usize) -> Given {
    let mut paths: Array2<f64> = Array2::zeros((2, columns));
    for p in 0..2 { for k in 0..columns { paths[(p, k)] = uf("path", &[p as f64, k as f64], 50.0, 150.0); } }
    Given { paths: paths, context: market() }
}

fn pays(told: &Told, expiry: DateTime, context: &AnyContext) {
    prove("one flow", told.flows.len() == 1);
    // one unit paid at settlement of the expiry, if not yet expired
    let at = any_date_time("valued");
    let flow = told.flows[0].as_priceable().unwrap().price(context, at).unwrap();
    let unit = if at <= expiry { df(number("O"), settle(3, expiry.date()), settle(3, at.date())) } else { 0.0 };
    prove_close("one unit when the option pays", flow, unit, 1.0);
}

/// A model of name A with the given observations, and its market
fn diffusion(p: &Pieces, observations: &[DateDayFraction], flows: &[RcInstrument], substep: f64, paths: usize) -> Option<Box<dyn MonteCarloModel>> {
    let instrument = p.instrument(0);
    let mut timeline = MonteCarloTimeline::new(p.date);
    let mut needs = DependencyCollector::new(p.date);
    needs.forward_curve(&instrument, observations[observations.len() - 1].date());
    needs.vol_surface(&instrument, observations[observations.len() - 1].date());
    needs.yield_curve("C", p.date + 2000);
    for o in observations { timeline.observation(&instrument, *o); }
    for f in flows { timeline.flow(f); }
    timeline.collate().unwrap();
    let context = PricingContextPrefetch::new(&p.market_and(false), Arc::new(needs)).unwrap();
    match BlackDiffusionFactory::new(20, substep, paths).factory(&timeline, Box::new(context)) { Ok(m) => Some(m), Err(_) => None }
}

fn paths_of(model: &Box<dyn MonteCarloModel>, p: &Pieces) -> Array2<f64> { model.as_mc_context().paths(&p.instrument(0)).unwrap().to_owned() }

/// Forward, displacement and scale of the step for each observation
fn curve_of(p: &Pieces, observations: &[DateDayFraction]) -> Option<Vec<(f64, f64, f64)>> {
    let forward = p.forward(0, observations[observations.len() - 1].date());
    let mut before = 0.0;
    let mut out = Vec::new();
    for o in observations {
        let f = forward.forward(o.date()).unwrap();
        let now = p.vols[0].variance(*o, f).unwrap();
        if now < before { return None; }
        out.push((f, p.vols[0].displacement(o.date()).unwrap(), (now - before).sqrt()));
        before = now;
    }
    Some(out)
}

/// The draws that made a path, one for each observation
fn draws_of(path: &[f64], curve: &[(f64, f64, f64)]) -> Vec<f64> {
    let mut before = 1.0;
    let mut out = Vec::new();
    for k in 0..path.len() {
        let (f, d, s) = curve[k];
        let product = (path[k] - d) / (f - d);
        let g = (product / before - 1.0) / s;
        out.push(g);
        before = product;
    }
    out
}

/// Nothing so small that the draws cannot be told
fn clear(curve: &[(f64, f64, f64)]) -> bool { curve.iter().all(|&(f, d, s)| (f - d).abs() > 1.0 && s > 0.02) }

fn bump_and_restore(kind: usize) {
    let mut p = Pieces::any();
    p.shared = any_bool("shared");
    let n = 1 + choose("observations", 2);
    let mut observations = vec![DateDayFraction::new(p.date + any_i32("days on", 21, 400), 0.5)];
    if n == 2 { observations.push(DateDayFraction::new(observations[0].date() + any_i32("more days", 1, 300), 0.25)); }
    let size = if kind == 1 { any_f64("spot", 50.0, 150.0) } else { any_size("size") };
    let after = p.bumped(kind, 0, size);
    let (before_curve, after_curve) = match (curve_of(&p, &observations), curve_of(&after, &observations)) { (Some(b), Some(a)) => (b, a), _ => return };
    assume(clear(&before_curve) && clear(&after_curve));
    let mut model = diffusion(&p, &observations, &[], 10.0, 3).unwrap();
    let before = paths_of(&model, &p);
    let mut saved = model.as_bumpable().new_saveable();
    let kept = any_bool("saved");
    prove("bumped", model.as_mut_bumpable().bump(&bump_of(kind, 0, size), if kept { Some(&mut *saved) } else { None }).unwrap());
    let bumped = paths_of(&model, &p);
    for i in 0..3 {
        let row: Vec<f64> = (0..n).map(|k| before[(i, k)]).collect();
        if (0..n).any(|k| ((row[k] - before_curve[k].1) / (before_curve[k].0 - before_curve[k].1)).abs() < 0.01) { continue; }
        let draws = draws_of(&row, &before_curve);
        let mut product = 1.0;
        for k in 0..n {
            let (f, d, s) = after_curve[k];
            product *= 1.0 + draws[k] * s;
            prove_close("same draws about the bumped curve", bumped[(i, k)], product * (f - d) + d, 1000000.0);
        }
    }
    if !kept { return; }
    prove("restored", model.as_mut_bumpable().restore(&*saved).is_ok());
    let back = paths_of(&model, &p);
    for i in 0..3 { for k in 0..n { prove("the same paths", back[(i, k)] == before[(i, k)]); } }
    // and again with the same save area
    saved.clear();
    prove("bumped again", model.as_mut_bumpable().bump(&bump_of(kind, 0, size), Some(&mut *saved)).unwrap());
    let again = paths_of(&model, &p);
    for i in 0..3 { for k in 0..n { prove("the same bumped paths", again[(i, k)] == bumped[(i, k)]); } }
    prove("restored again", model.as_mut_bumpable().restore(&*saved).is_ok());
    let back = paths_of(&model, &p);
    for i in 0..3 { for k in 0..n { prove("the same paths again", back[(i, k)] == before[(i, k)]); } }
    // once cleared, nothing of the first bumps comes back
    saved.clear();
    prove("bumped for good", model.as_mut_bumpable().bump(&bump_of(kind, 0, size), None).unwrap());
    let other = Bump::new_yield("N", BumpYield::new_flat_annualised(0.01));
    if model.as_mut_bumpable().bump(&other, Some(&mut *saved)).is_ok() {
        prove("restored from nothing", model.as_mut_bumpable().restore(&*saved).is_ok());
        let kept = paths_of(&model, &p);
        for i in 0..3 { for k in 0..n { prove("the bumped paths stay", kept[(i, k)] == bumped[(i, k)]); } }
    }
    // nor comes it back with the market
    let tiny = Bump::new_spot("A", BumpSpot::new_relative(0.0));
    prove("fetched again", model.as_mut_bumpable().bump(&tiny, None).unwrap());
    let kept = paths_of(&model, &p);
    for i in 0..3 { for k in 0..n { prove_close("the market stays bumped", kept[(i, k)], bumped[(i, k)], 1000.0); } }
}

/// The draw behind a path with one observation
fn drawn(i: usize, path: f64, at: (f64, f64, f64)) -> f64 {
    if symbolic() { uf("sample", &[i as f64], 0.0, 0.0) } else { ((path - at.1) / (at.0 - at.1) - 1.0) / at.2 }
}

fn one_bump(kind: usize) {
    let p = Pieces::any();
    let date = p.date + any_i32("days on", 21, 400);
    let observations = vec![DateDayFraction::new(date, 0.5)];
    let size = if kind == 1 { any_f64("spot", 50.0, 150.0) } else { any_size("size") };
    assume(size > 0.0);
    let after = p.bumped(kind, 0, size);
    let mut at = Vec::new();
    for q in [&p, &after] {
        let f = q.forward(0, date).forward(date).unwrap();
        let v = q.vols[0].variance(observations[0], f).unwrap();
        let d = q.vols[0].displacement(date).unwrap();
        assume(v > 0.0004 && v < 10.0 && f - d > 1.0);
        at.push((f, d, v.sqrt()));
    }
    let pay = date + 20;
    let flow = RcInstrument::new(Qrc::new(Arc::new(ZeroCoupon::new("Z", "C", any_currency(), DateTime::new(pay - 1, TimeOfDay::Close), pay, any_rule(3)))));
    let model = diffusion(&p, &observations, &[flow.clone()], 10.0, 2);
    prove("a model", model.is_some());
    let mut model = model.unwrap();
    let mut before = [0.0; 2];
    let mut draws = [0.0; 2];
    {
        let paths = model.as_mc_context().paths(&p.instrument(0)).unwrap();
        for i in 0..2 {
            before[i] = paths[(i, 0)];
            draws[i] = drawn(i, before[i], at[0]);
            prove_close("the draws about the curve", before[i], (1.0 + draws[i] * at[0].2) * (at[0].0 - at[0].1) + at[0].1, 1000.0);
        }
    }
    let mut saved = model.as_bumpable().new_saveable();
    prove("bumped", model.as_mut_bumpable().bump(&bump_of(kind, 0, size), Some(&mut *saved)).unwrap());
    {
        let paths = model.as_mc_context().paths(&p.instrument(0)).unwrap();
        for i in 0..2 { prove_close("the same draws about the bumped curve", paths[(i, 0)], (1.0 + draws[i] * at[1].2) * (at[1].0 - at[1].1) + at[1].1, 1000000.0); }
    }
    let mut quantities: Array2<f64> = Array2::zeros((2, 1));
    let mut sum = 0.0;
    for i in 0..2 {
        quantities[(i, 0)] = uf("quantity", &[i as f64], -20.0, 50.0);
        sum += quantities[(i, 0)];
    }
    let unit = flow.as_priceable().unwrap().price(&after.market_and(false), DateTime::new(p.date, TimeOfDay::Open)).unwrap();
    prove_close("average over the paths of the discounted flows", model.as_mc_context().evaluate_flows(quantities.view()).unwrap(), sum / 2.0 * unit, 100.0);
    prove("restored", model.as_mut_bumpable().restore(&*saved).is_ok());
    let paths = model.as_mc_context().paths(&p.instrument(0)).unwrap();
    for i in 0..2 { prove_eq("the same paths", paths[(i, 0)], before[i]); }
    cover("restored");
}

contracts! {
fn model_spot_bounded() { one_bump(0); }
fn model_replaced_bounded() { one_bump(1); }
fn model_dividends_bounded() { one_bump(2); }
fn model_borrow_bounded() { one_bump(3); }
fn model_yield_bounded() { one_bump(4); }
fn model_volatility_bounded() { one_bump(6); }
fn one_observation_bounded() { follows(2, &[1], true); }
fn two_observations_bounded() { follows(2, &[1, 1], true); }
fn several_steps_bounded() { follows(1, &[2, 3], true); }
fn three_observations_bounded() { follows(1, &[1, 3, 2], true); }
fn no_draws_bounded() { follows(2, &[2, 1], false); }

/// Two assets in one set of paths
fn two_assets_bounded() {
    let context = market();
    let observations = schedule(2);
    let steps = [1, 2];
    let mut draws: Array3<f64> = Array3::zeros((2, 3, 2));
    for p in 0..2 { for k in 0..3 { for a in 0..2 { draws[(p, k, a)] = draw(p, k, a); } } }
    let instruments = vec![any_instrument(1, "A", "C", 0), any_instrument(2, "B", "C", 0)];
    let got = fetch_paths(&observations, &draws, &context, &instruments, &steps, 2);
    let (first, second) = (scales(1, &observations, &steps), scales(2, &observations, &steps));
    prove("refused exactly if a variance falls", got.is_err() == (first.is_none() || second.is_none()));
    if got.is_err() { cover("variance falls"); return; }
    let got = got.unwrap();
    let s = [first.unwrap(), second.unwrap()];
    for p in 0..2 { for a in 0..2 {
        let e = expected(&context, 1 + a as i32, a, p, &observations, &steps, &s[a], true);
        for k in 0..2 { prove_close("forward times the product of the steps", got[(p, k, a)], e[k], 100.0); }
    } }
    cover("followed");
}

/// At least one step before each observation
fn steps_bounded() {
    let context = market();
    let observations = schedule(2);
    let size = any_f64("size", 0.001, 1.0);
    assume(size > 0.0001);
    // the number of steps is one that can be held
    for n in 1..3 { for k in 0..2 { assume(var_at(n, observations[k], fwd_at(n, observations[k].date())) < 1000000.0); } }
    let names = 1 + choose("names", 2);
    let instruments = if names == 1 { vec![any_instrument(1, "A", "C", 0)] } else { vec![any_instrument(1, "A", "C", 0), any_instrument(2, "B", "C", 0)] };
    let got = calculate_substepping(&observations, &context, &instruments, size);
    let mut falls = scales(1, &observations, &[1, 1]).is_none();
    if names == 2 && scales(2, &observations, &[1, 1]).is_none() { falls = true; }
    prove("refused exactly if the variance falls", got.is_err() == falls);
    if got.is_err() { cover("variance falls"); return; }
    let got = got.unwrap();
    prove("one number for each observation", got.len() == 2);
    for n in 1..names + 1 {
        let mut before = 0.0;
        for k in 0..2 {
            prove("at least one step", got[k] >= 1);
            let now = var_at(n as i32, observations[k], fwd_at(n as i32, observations[k].date()));
            prove("no step carries more variance than asked", now - before <= got[k] as f64 * size * 1.000001 + 0.000001);
            before = now;
        }
    }
    cover("stepped");
}

/// Observations and flows are kept in the order they are told
fn timeline_bounded() {
    let (a, b, c) = (any_moment("a"), any_moment("b"), any_moment("c"));
    let (x, y) = (any_instrument(1, "A", "C", 0), any_instrument(2, "B", "C", 0));
    let mut timeline = MonteCarloTimeline::new(mid_date("spot date"));
    timeline.observation(&x, a);
    timeline.observation(&y, b);
    timeline.observation(&x, c);
    timeline.flow(&y);
    timeline.flow(&x);
    prove("collated", timeline.collate().is_ok());
    prove("of two names", timeline.observations().len() == 2);
    let first = &timeline.observations()[&x];
    prove("observations of the first", first.len() == 2 && first[0] == a && first[1] == c);
    let second = &timeline.observations()[&y];
    prove("observations of the second", second.len() == 1 && second[0] == b);
    prove("flows", timeline.flows().len() == 2 && timeline.flows()[0].id() == "B" && timeline.flows()[1].id() == "A");
    cover("done");
}

/// An option pays its payoff on each path
fn spot_starting_bounded() {
    let kind = put_or_call();
    let expiry = any_date_time("expiry");
    let strike = any_f64("strike", 0.0, 200.0);
    assume(strike >= 0.0);
    let option = SpotStartingEuropean::new("X", "O", any_instrument(1, "A", "O", 0), any_rule(3), expiry, strike, kind, OptionSettlement::Cash).unwrap();
    let g = given(1);
    let mut told = Told { observations: Vec::new(), flows: Vec::new() };
    prove("told", option.mc_dependencies(&[], &mut told).is_ok());
    prove("observed at expiry", told.observations.len() == 1 && told.observations[0].0.id() == "A" && told.observations[0].1 == moment_of(1, expiry));
    pays(&told, expiry, &g.context);
    let mut e = 0.0;
    for p in 0..2 { e += share(p) * payoff(kind, uf("path", &[p as f64, 0.0], 50.0, 150.0), strike); }
    prove_close("payoff on each path", option.mc_price(&g).unwrap(), e, 200.0);
    cover("done");
}

fn forward_starting_bounded() {
    let kind = put_or_call();
    let expiry = any_date_time("expiry");
    let start = DateTime::new(expiry.date() - any_i32("strike life", 0, 1000), TimeOfDay::EDSP);
    let fraction = any_f64("fraction", 0.1, 2.0);
    assume(fraction > 0.0);
    let option = ForwardStartingEuropean::new("X", "O", any_instrument(1, "A", "O", 0), any_rule(3), expiry, fraction, start, kind, OptionSettlement::Cash).unwrap();
    let g = given(2);
    let mut told = Told { observations: Vec::new(), flows: Vec::new() };
    prove("told", option.mc_dependencies(&[], &mut told).is_ok());
    prove("observed twice", told.observations.len() == 2 && told.observations[0].0.id() == "A" && told.observations[1].0.id() == "A");
    prove("at the start and at expiry", told.observations[0].1 == moment_of(1, start) && told.observations[1].1 == moment_of(1, expiry));
    pays(&told, expiry, &g.context);
    let mut e = 0.0;
    for p in 0..2 {
        let (s, x) = (uf("path", &[p as f64, 0.0], 50.0, 150.0), uf("path", &[p as f64, 1.0], 50.0, 150.0));
        e += share(p) * payoff(kind, x, fraction * s);
    }
    prove_close("payoff on each path", option.mc_price(&g).unwrap(), e, 200.0);
    cover("done");
}

/// Flows are averaged over the paths and valued at the valuation date
fn flows_run() {
    let p = Pieces::any();
    let observations = [DateDayFraction::new(p.date + any_i32("days on", 21, 400), 0.5)];
    let n = 1 + choose("paths", 5);
    let m = choose("flows", 4);
    let flows: Vec<RcInstrument> = (0..m).map(|k| {
        let pay = p.date + 20 + 100 * k as i32;
        RcInstrument::new(Qrc::new(Arc::new(ZeroCoupon::new("Z", "C", any_currency(), DateTime::new(pay - 1, TimeOfDay::Close), pay, any_rule(3)))))
    }).collect();
    let model = diffusion(&p, &observations, &flows, 0.01 + any_f64("substep", 0.0, 1.0), n).unwrap();
    let mut quantities: Array2<f64> = Array2::zeros((n, m));
    let mut sum = 0.0;
    let value = p.market_and(false);
    for k in 0..m {
        let unit = flows[k].as_priceable().unwrap().price(&value, DateTime::new(p.date, TimeOfDay::Open)).unwrap();
        for i in 0..n {
            quantities[(i, k)] = uf("quantity", &[i as f64, k as f64], -20.0, 50.0);
            sum += quantities[(i, k)] * unit / n as f64;
        }
    }
    prove_close("average over the paths of the discounted flows", model.as_mc_context().evaluate_flows(quantities.view()).unwrap(), sum, 100.0);
}

/// Any number of observations, each with its own number of steps
fn schedules_run() {
    let steps: Vec<usize> = (0..1 + choose("observations", 6)).map(|_| 1 + choose("steps", 4)).collect();
    follows(1 + choose("paths", 3), &steps, true);
}

fn spot_run() { bump_and_restore(choose("kind", 2)); }
fn dividends_run() { bump_and_restore(2); }
fn borrow_run() { bump_and_restore(3); }
fn yield_run() { bump_and_restore(4 + choose("kind", 2)); }
fn volatility_run() { bump_and_restore(6); }

/// The draws have mean zero, variance one and the correlation asked for (seven standard errors)
fn draws_run() {
    let context = market();
    let r = context.correlation(&*any_instrument(1, "A", "C", 0), &*any_instrument(2, "B", "C", 0)).unwrap();
    assume(r.abs() < 0.99);
    let n = 4000;
    let got = fetch_correlated_gaussians(&context, &vec![any_instrument(1, "A", "C", 0), any_instrument(2, "B", "C", 0)], 20, &[1, 1], n).unwrap();
    prove("one for each path, step and asset", got.shape() == [n, 2, 2]);
    let e = 7.0 / (n as f64).sqrt();
    for k in 0..2 {
        let mut s = [0.0; 5];
        for p in 0..n {
            let (x, y) = (got[(p, k, 0)], got[(p, k, 1)]);
            s[0] += x; s[1] += y; s[2] += x * x; s[3] += y * y; s[4] += x * y;
        }
        for v in s.iter_mut() { *v /= n as f64; }
        prove("mean", s[0].abs() < e && s[1].abs() < e);
        prove("variance", (s[2] - 1.0).abs() < 1.5 * e && (s[3] - 1.0).abs() < 1.5 * e);
        prove("correlation", (s[4] - r).abs() < 1.5 * e);
    }
    let mut across = 0.0;
    for p in 0..n { across += got[(p, 0, 0)] * got[(p, 1, 0)] / n as f64; }
    prove("steps are independent", across.abs() < 1.5 * e);
}

/// Without variance the pricer gives the discounted payoff at the forward, before, during and after a bump
fn pricer_run() {
    let mut p = Pieces::any();
    let flat: RcVolSurface = RcVolSurface::new(Arc::new(FlatVolSurface::new(0.0, any_time(), DateDayFraction::new(p.date, 0.0))));
    p.vols[0] = flat;
    let kind = put_or_call();
    let expiry = DateTime::new(p.date + any_i32("life", 21, 400), any_time_of_day());
    let strike = any_f64("strike", 30.0, 200.0);
    let a: RcInstrument = RcInstrument::new(Qrc::new(Arc::new(Equity::new("A", "C", any_currency(), any_rule(0)))));
    let forward_start = any_bool("forward start");
    let fraction = strike / 100.0;
    let start = DateTime::new(p.date + any_i32("start", -5, 10), TimeOfDay::Close);
    let fixing = any_f64("fixing", 50.0, 150.0);
    let option: RcInstrument = if forward_start {
        RcInstrument::new(Qrc::new(Arc::new(ForwardStartingEuropean::new("X", "C", a, any_rule(3), expiry, fraction, start, kind, OptionSettlement::Cash).unwrap())))
    } else {
        RcInstrument::new(Qrc::new(Arc::new(SpotStartingEuropean::new("X", "C", a, any_rule(3), expiry, strike, kind, OptionSettlement::Cash).unwrap())))
    };
    assume(!forward_start || start.date() != p.date);
    let table = FixingTable::from_fixings(p.date, &[("A", &[(start, fixing)])]);
    let table = if start.date() < p.date { table.unwrap() } else { FixingTable::from_fixings(p.date, &[]).unwrap() };
    let factory = MonteCarloPricerFactory::new(RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(20, 0.01, 1 + choose("paths", 3)))));
    let mut pricer = factory.new(option, RcFixingTable::new(Arc::new(table)), RcMarketData::new(Arc::new(p.market_and(false)))).unwrap();
    let value = |q: &Pieces| -> f64 {
        let f = q.forward(0, expiry.date());
        let k = if !forward_start { strike } else if start.date() < q.date { fraction * fixing } else { fraction * f.forward(start.date()).unwrap() };
        let from = settle(3, q.date);
        let to = settle(3, expiry.date());
        (q.rates[0].rt(from).unwrap() - q.rates[0].rt(to).unwrap()).exp() * payoff(kind, f.forward(expiry.date()).unwrap(), k)
    };
    let first = pricer.price().unwrap();
    prove_close("discounted payoff at the forward", first, value(&p), 200.0);
    let size = any_size("size");
    let what = choose("kind", 6);
    let size = if what == 1 { 100.0 * (1.0 + size) } else { size };
    let mut saved = pricer.as_bumpable().new_saveable();
    prove("bumped", pricer.as_mut_bumpable().bump(&bump_of(what, 0, size), Some(&mut *saved)).unwrap());
    prove_close("discounted payoff at the bumped forward", pricer.price().unwrap(), value(&p.bumped(what, 0, size)), 200.0);
    prove("restored", pricer.as_mut_bumpable().restore(&*saved).is_ok());
    prove("the same price", pricer.price().unwrap() == first);
}

/// A pricer rolled to a later date gives what a fresh one gives there
fn rolled_run() {
    let mut p = Pieces::any();
    p.vols[0] = RcVolSurface::new(Arc::new(FlatVolSurface::new(0.0, any_time(), DateDayFraction::new(p.date, 0.0))));
    let kind = put_or_call();
    let expiry = DateTime::new(p.date + any_i32("life", 21, 400), any_time_of_day());
    let fraction = any_f64("fraction", 0.3, 2.0);
    let start = DateTime::new(p.date + any_i32("start", 0, 10), TimeOfDay::Close);
    let a: RcInstrument = RcInstrument::new(Qrc::new(Arc::new(Equity::new("A", "C", any_currency(), any_rule(0)))));
    let option: RcInstrument = RcInstrument::new(Qrc::new(Arc::new(ForwardStartingEuropean::new("X", "C", a, any_rule(3), expiry, fraction, start, kind, OptionSettlement::Cash).unwrap())));
    let to = p.date + any_i32("days", 0, 9);
    let rule = if any_bool("sticky spot") { SpotDynamics::StickySpot } else { SpotDynamics::StickyForward };
    let factory = MonteCarloPricerFactory::new(RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(20, 0.01, 1 + choose("paths", 3)))));
    let nothing = FixingTable::from_fixings(p.date, &[]).unwrap();
    let mut rolled = factory.new(option.clone(), RcFixingTable::new(Arc::new(nothing)), RcMarketData::new(Arc::new(p.market_and(false)))).unwrap();
    prove("rolled", rolled.as_mut_time_bumpable().bump_time(&BumpTime::new(to, to, rule)).is_ok());
    let mut needs = DependencyCollector::new(p.date);
    needs.spot(&option);
    let mut later = PricingContextPrefetch::new(&p.market_and(false), Arc::new(needs)).unwrap();
    later.bump(&Bump::new_spot_date(BumpSpotDate::new(to, rule)), None).unwrap();
    let fixing = match rule { SpotDynamics::StickySpot => p.spots[0], SpotDynamics::StickyForward => p.forward(0, p.date + 10).forward(start.date()).unwrap() };
    let table = if start.date() < to { FixingTable::from_fixings(to, &[("A", &[(start, fixing)])]).unwrap() } else { FixingTable::from_fixings(to, &[]).unwrap() };
    let fresh = factory.new(option, RcFixingTable::new(Arc::new(table)), RcMarketData::new(Arc::new(later.raw_market_data().clone()))).unwrap();
    prove_close("as a fresh pricer", rolled.price().unwrap(), fresh.price().unwrap(), 200.0);
}
}
