//! P19: rolling the valuation date
use crate::contracts::*;
use crate::market::*;
use crate::sym::*;
use quantmath::core::dedup::InstanceId;
use quantmath::core::factories::{Qbox, Qrc, TypeId};
use quantmath::core::qm;
use quantmath::data::bump::Bump;
use quantmath::data::bumpspotdate::{BumpSpotDate, SpotDynamics};
use quantmath::data::fixings::FixingTable;
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::rules::RcDateRule;
use quantmath::dates::Date;
use quantmath::instruments::assets::{Currency, RcCurrency};
use quantmath::instruments::*;
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::MarketData;
use quantmath::risk::timebumped::{TimeBumpedReport, TimeBumpedReportGenerator};
use quantmath::risk::*;
use serde_derive::Serialize;
use std::any::Any;
use std::sync::Arc;

/// An instrument that looks at what it is told has been fixed
#[derive(Debug, Serialize)]
struct Observer { currency: RcCurrency, settlement: RcDateRule, from: Date, to: Date, sticky_spot: bool, name: usize, at: Vec<(usize, DateTime)>, answer: usize }

impl TypeId for Observer { fn get_type_id(&self) -> &'static str { "Observer" } }
impl InstanceId for Observer { fn id(&self) -> &str { ["OBSERVER", "SECOND"][self.name] } }

impl Observer {
    fn is_fixed(&self, at: DateTime) -> bool { at.date() >= self.from && at.date() < self.to }
}

impl Instrument for Observer {
    fn payoff_currency(&self) -> &Currency { &*self.currency }
    fn credit_id(&self) -> &str { "C" }
    fn settlement(&self) -> &RcDateRule { &self.settlement }
    fn dependencies(&self, context: &mut dyn DependencyContext) -> SpotRequirement {
        for (k, at) in self.at.iter() {
            context.fixing(NAMES[*k], *at);
            context.forward_curve(&name_of(*k), self.to + 100);
        }
        SpotRequirement::NotRequired
    }
    fn time_to_day_fraction(&self, d: DateTime) -> Result<DateDayFraction, qm::Error> { Ok(DateDayFraction::new(d.date(), 0.0)) }
    fn as_priceable(&self) -> Option<&dyn Priceable> { Some(self) }
    fn fix(&self, table: &FixingTable) -> Result<Option<Vec<(f64, RcInstrument)>>, qm::Error> {
        for (k, at) in self.at.iter() {
            let got = table.get(NAMES[*k], *at);
            if self.is_fixed(*at) {
                cover("observed");
                prove("fixed without error", got.is_ok());
                let got = got.unwrap();
                prove("fixed", got.is_some());
                let n = number(NAMES[*k]);
                let expected = if self.sticky_spot { spot_of(n) } else { fwd_at(n, at.date()) };
                prove_eq("fixed as the rule says", got.unwrap(), expected);
            } else {
                prove("not fixed", got.is_err() || got.unwrap().is_none());
            }
        }
        if self.answer == 0 { return Ok(None); }
        Ok(Some(vec![(becomes(0), any_instrument(10, "R", "C", 0)), (2.0, any_instrument(20, "Q", "C", 0))]))
    }
}

impl Priceable for Observer {
    fn as_instrument(&self) -> &dyn Instrument { self }
    fn prices(&self, _context: &dyn PricingContext, dates: &[DateTime], out: &mut [f64]) -> Result<(), qm::Error> {
        for i in 0..dates.len() { out[i] = value_at(self.name as i32, dates[i]); }
        Ok(())
    }
}

fn rule(sticky_spot: bool) -> SpotDynamics { if sticky_spot { SpotDynamics::StickySpot } else { SpotDynamics::StickyForward } }

fn rc(o: Observer) -> RcInstrument { RcInstrument::new(Qrc::new(Arc::new(o))) }

fn near(d: Date, name: &'static str) -> DateTime {
    DateTime::new(d + any_i32(name, -4, 12), if choose("close", 2) == 1 { TimeOfDay::Close } else { TimeOfDay::Open })
}

fn observer(name: usize, from: Date, to: Date, sticky_spot: bool, at: Vec<(usize, DateTime)>, answer: usize) -> Observer {
    Observer { currency: any_currency(), settlement: any_rule(3), from: from, to: to, sticky_spot: sticky_spot, name: name, at: at, answer: answer }
}

fn observed(sticky_spot: bool, same: bool) {
    let from = mid_date("spot date");
    let to = from + any_i32("days", 0, 10);
    let first = near(from, "first");
    let at = vec![(0, first), (if same { 0 } else { 1 }, near(from, "second"))];
    let any_known = at.iter().any(|a| a.1.date() >= from && a.1.date() < to);
    let answer = choose("changes", 2);
    let instrument = rc(observer(0, from, to, sticky_spot, at, answer));
    let mut what = DependencyCollector::new(from);
    what.spot(&instrument);
    let other = any_instrument(30, "Z", "C", 0);
    let mut holding = vec![(2.0, other), (3.0, instrument)];
    let context = AnyContext { spot_date: from };
    let changed = BumpTime::new(to, from, rule(sticky_spot)).update_instruments(&mut holding, &context, &what);
    prove("no error", changed.is_ok());
    prove("changed if anything was", changed.unwrap() == (any_known && answer == 1));
    if any_known && answer == 1 {
        cover("changed");
        prove("new holding", holding.len() == 3 && holding[0].1.id() == "Z" && holding[1].1.id() == "R" && holding[2].1.id() == "Q");
        prove("new weights", holding[0].0 == 2.0 && holding[1].0 == 3.0 * becomes(0) && holding[2].0 == 6.0);
    } else {
        cover("unchanged");
        prove("same holding", holding.len() == 2 && holding[0].1.id() == "Z" && holding[1].1.id() == "OBSERVER" && holding[0].0 == 2.0 && holding[1].0 == 3.0);
    }
}

/// The market of two names rolled by the context that prefetches for the pricer
fn market_rolled(sticky_spot: bool, forwards: bool) {
    let p = Pieces::any();
    let to = p.date + any_i32("days", 0, 15);
    let mut look = any_look(p.date);
    look.forwards = false;
    assume(look.date >= to);
    let mut what = DependencyCollector::new(p.date);
    for k in 0..2 { what.spot(&p.instrument(k)); }
    if forwards { what.forward_curve(&p.instrument(1), look.date); }
    else { what.forward_curve(&p.instrument(0), look.date); what.vol_surface(&p.instrument(0), look.date); }
    let mut context = PricingContextPrefetch::new(&p.market_and(false), Arc::new(what)).unwrap();
    let done = context.bump(&Bump::new_spot_date(BumpSpotDate::new(to, rule(sticky_spot))), None);
    prove("moved", done.unwrap() == (to != p.date));
    prove("spot date", context.spot_date() == to);
    let mut after = p.clone();
    after.date = to;
    for k in 0..2 {
        if !sticky_spot && to != p.date { after.spots[k] = p.forward(k, look.date).forward(to).unwrap(); }
        prove_eq("spot", context.spot(NAMES[k]).unwrap(), after.spots[k]);
        prove_eq("rate", context.yield_curve(CREDITS[k], look.date).unwrap().rt(look.date).unwrap(), p.rates[k].rt(look.date).unwrap());
    }
    cover("moved");
    if forwards {
        let forward = context.forward_curve(&*p.instrument(1), look.date).unwrap();
        prove_eq("forward", forward.forward(look.date).unwrap(), after.forward(1, look.date).forward(look.date).unwrap());
    } else {
        let vol = context.vol_surface(&*p.instrument(0), look.date, &|| panic!("no forward")).unwrap();
        let at = DateDayFraction::new(look.date, 0.5);
        prove_eq("volatility", volatility(&vol, at, look.strike), volatility(&p.vols[0], at, look.strike));
    }
}

/// A pricer about which nothing is known but that its price depends on its date
#[derive(Clone)]
struct Clock { now: Date, to: Date, what: Arc<DependencyCollector>, sticky_spot: bool }

struct Nothing;
impl Saveable for Nothing {
    fn as_any(&self) -> &dyn Any { self }
    fn as_mut_any(&mut self) -> &mut dyn Any { self }
    fn clear(&mut self) {}
}

fn price_on(d: Date) -> f64 { uf("price on", &[j(d) as f64], 50.0, 150.0) }

impl Bumpable for Clock {
    fn bump(&mut self, bump: &Bump, _save: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> {
        match bump {
            Bump::SpotDate(b) => {
                prove("moved as the rule says", b.spot_date() == self.to && b.spot_dynamics() == rule(self.sticky_spot));
                self.now = b.spot_date();
            },
            _ => prove("only such bumps", false),
        }
        Ok(true)
    }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> { Ok(&*self.what) }
    fn context(&self) -> &dyn PricingContext { panic!("not used") }
    fn new_saveable(&self) -> Box<dyn Saveable> { Box::new(Nothing) }
    fn restore(&mut self, _saved: &dyn Saveable) -> Result<(), qm::Error> { Ok(()) }
}

impl TimeBumpable for Clock {
    fn bump_time(&mut self, bump: &BumpTime) -> Result<(), qm::Error> {
        let context = AnyContext { spot_date: self.now };
        prove("no changes to nothing", !bump.update_instruments(&mut Vec::new(), &context, &self.what)?);
        bump.apply(&mut Vec::new(), &mut Held { clock: self, context: context })?;
        Ok(())
    }
}

/// The same with market data
struct Held<'a> { clock: &'a mut Clock, context: AnyContext }
impl<'a> Bumpable for Held<'a> {
    fn bump(&mut self, bump: &Bump, save: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> { self.clock.bump(bump, save) }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> { self.clock.dependencies() }
    fn context(&self) -> &dyn PricingContext { &self.context }
    fn new_saveable(&self) -> Box<dyn Saveable> { Box::new(Nothing) }
    fn restore(&mut self, _saved: &dyn Saveable) -> Result<(), qm::Error> { Ok(()) }
}

impl PricerClone for Clock {
    fn clone_box(&self) -> Box<dyn Pricer> { Box::new(self.clone()) }
}

impl Pricer for Clock {
    fn as_bumpable(&self) -> &dyn Bumpable { self }
    fn as_mut_bumpable(&mut self) -> &mut dyn Bumpable { self }
    fn as_mut_time_bumpable(&mut self) -> &mut dyn TimeBumpable { self }
    fn price(&self) -> Result<f64, qm::Error> { Ok(price_on(self.now)) }
}

/// A report that tells what it was given
#[derive(Debug, Serialize)]
struct Asked { n: usize }
impl TypeId for Asked { fn get_type_id(&self) -> &'static str { "Asked" } }
impl ReportGenerator for Asked {
    fn generate(&self, pricer: &mut dyn Pricer, _saveable: &mut dyn Saveable, unbumped: f64) -> Result<BoxReport, qm::Error> {
        Ok(Qbox::new(Box::new(TimeBumpedReport::new(pricer.price()?, unbumped, Vec::new()))))
    }
}

contracts! {
fn observed_at_forward() { observed(false, false) }
fn observed_at_spot() { observed(true, false) }
fn observed_twice_at_forward() { observed(false, true) }
fn observed_twice_at_spot() { observed(true, true) }
fn market_at_forward() { market_rolled(false, false) }
fn market_at_spot() { market_rolled(true, false) }
fn forwards_at_forward() { market_rolled(false, true) }
fn forwards_at_spot() { market_rolled(true, true) }

fn theta() {
    let now = mid_date("spot date");
    let to = now + any_i32("days", 0, 1000);
    let sticky_spot = choose("rule", 2) == 1;
    let mut pricer = Clock { now: now, to: to, what: Arc::new(DependencyCollector::new(now)), sticky_spot: sticky_spot };
    let mut generator = TimeBumpedReportGenerator::new(BumpTime::new(to, to, rule(sticky_spot)));
    for n in 0..2 { generator.add(RcReportGenerator::new(Arc::new(Asked { n: n }))); }
    let unbumped = any_f64("price before", 50.0, 150.0);
    let report = generator.generate(&mut pricer, &mut Nothing, unbumped);
    prove("reported", report.is_ok());
    let report = report.unwrap();
    let r = report.as_any().downcast_ref::<TimeBumpedReport>().unwrap();
    prove_eq("price after the move", r.price(), price_on(to));
    prove_eq("theta", r.theta(), price_on(to) - unbumped);
    prove("original not disturbed", pricer.now == now && pricer.price().unwrap() == price_on(now));
    prove("reports within", r.subreports().len() == 2);
    for s in r.subreports().iter() {
        let s = s.as_any().downcast_ref::<TimeBumpedReport>().unwrap();
        prove_eq("reports on what has been moved", s.price(), price_on(to));
        prove_eq("reports against the price after the move", s.theta(), price_on(to));
    }
    cover("reported");
}

/// A pricer with two instruments, of which one may be fixed
/// A market that cannot be moved makes the move fail
fn refused() {
    let p = Pieces::any();
    let mut market = Refusing { market: p.market_and(false), needs: DependencyCollector::new(p.date) };
    let mut holding = vec![(2.0, any_instrument(30, "Z", "C", 0))];
    let to = p.date + any_i32("days", 0, 9);
    prove("an error", BumpTime::new(to, to, rule(choose("rule", 2) == 1)).apply(&mut holding, &mut market).is_err());
    cover("refused");
}

fn pricer_rolled_bounded() {
    let p = Pieces::any();
    let days = any_i32("days", 0, 9);
    let to = p.date + days;
    let sticky_spot = choose("rule", 2) == 1;
    let at = near(p.date, "observation");
    let is_known = at.date() >= p.date && at.date() < to;
    let settled = Settled { inner: observer(0, p.date, to, sticky_spot, vec![(0, at)], 1) };
    let holding = vec![(2.0, any_instrument(30, "Z", "C", 0)), (3.0, RcInstrument::new(Qrc::new(Arc::new(settled))))];
    let mut pricer = SelfPricer::new(holding, &p.market_and(false)).unwrap();
    let before = DateTime::new(p.date, TimeOfDay::Open);
    prove_eq("price before", pricer.price().unwrap(), 2.0 * value_at(30, before) + 3.0 * value_at(0, before));
    let done = pricer.bump_time(&BumpTime::new(to, to, rule(sticky_spot)));
    prove("moved", done.is_ok());
    let after = DateTime::new(to, TimeOfDay::Open);
    let rest = if is_known { cover("fixed"); becomes(0) * value_at(10, after) + 2.0 * value_at(20, after) } else { cover("not fixed"); value_at(0, after) };
    prove_close("price after", pricer.price().unwrap(), 2.0 * value_at(30, after) + 3.0 * rest, 1000.0);
    prove("date moved", pricer.context().spot_date() == to);
}
}

/// An observer that changes only when it has been fixed, whatever the value
#[derive(Debug, Serialize)]
struct Settled { inner: Observer }
impl TypeId for Settled { fn get_type_id(&self) -> &'static str { "Settled" } }
impl InstanceId for Settled { fn id(&self) -> &str { "SETTLED" } }
impl Instrument for Settled {
    fn payoff_currency(&self) -> &Currency { self.inner.payoff_currency() }
    fn credit_id(&self) -> &str { "C" }
    fn settlement(&self) -> &RcDateRule { &self.inner.settlement }
    fn dependencies(&self, context: &mut dyn DependencyContext) -> SpotRequirement { self.inner.dependencies(context) }
    fn time_to_day_fraction(&self, d: DateTime) -> Result<DateDayFraction, qm::Error> { Ok(DateDayFraction::new(d.date(), 0.0)) }
    fn as_priceable(&self) -> Option<&dyn Priceable> { Some(self) }
    fn fix(&self, table: &FixingTable) -> Result<Option<Vec<(f64, RcInstrument)>>, qm::Error> {
        if table.get("A", self.inner.at[0].1)?.is_none() { return Ok(None); }
        Ok(Some(vec![(becomes(0), any_instrument(10, "R", "C", 0)), (2.0, any_instrument(20, "Q", "C", 0))]))
    }
}
impl Priceable for Settled {
    fn as_instrument(&self) -> &dyn Instrument { self }
    fn prices(&self, context: &dyn PricingContext, dates: &[DateTime], out: &mut [f64]) -> Result<(), qm::Error> { self.inner.prices(context, dates, out) }
}

/// A market that refuses to be moved
struct Refusing { market: MarketData, needs: DependencyCollector }
impl Bumpable for Refusing {
    fn bump(&mut self, _bump: &Bump, _save: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> { Err(qm::Error::new("refused")) }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> { Ok(&self.needs) }
    fn context(&self) -> &dyn PricingContext { &self.market }
    fn new_saveable(&self) -> Box<dyn Saveable> { self.market.new_saveable() }
    fn restore(&mut self, saved: &dyn Saveable) -> Result<(), qm::Error> { self.market.restore(saved) }
}
