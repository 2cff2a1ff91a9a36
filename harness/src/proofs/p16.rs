//! P16: prefetched market data
use crate::market::*;
use crate::sym::*;
use quantmath::dates::Date;
use quantmath::instruments::{DependencyContext, PricingContext};
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::{Bumpable, Saveable};
use std::sync::Arc;

/// Forwards and volatilities of both names, declared in one order or the other and more than once
fn declared(p: &Pieces, mark: Date, first: usize) -> DependencyCollector {
    let mut c = DependencyCollector::new(p.date);
    for k in 0..2 {
        let i = (k + first) % 2;
        let instrument = p.instrument(i);
        c.forward_curve(&instrument, if k == 0 { mark } else { mark - 5 });
        c.vol_surface(&instrument, mark);
    }
    for k in 0..2 { c.forward_curve(&p.instrument(k), mark); }
    c
}

fn prefetched(p: &Pieces, mark: Date, first: usize) -> PricingContextPrefetch {
    PricingContextPrefetch::new(&p.market(), Arc::new(declared(p, mark, first))).unwrap()
}

fn undeclared(context: &PricingContextPrefetch, mark: Date) {
    let x = named(5, "X", "C");
    prove("no forward that was not declared", context.forward_curve(&*x, mark).is_err());
    prove("no volatility that was not declared", context.vol_surface(&*x, mark, &|| panic!("no forward")).is_err());
}

fn one_bump(kind: usize, shared: bool) {
    let mut p = Pieces::any();
    p.shared = shared;
    let mut look = any_look(p.date);
    look.forwards = true;
    let mut context = prefetched(&p, look.date, 1);
    let k = choose("name", 3);
    let size = any_size("size");
    let bump = bump_of(kind, k, size);
    let after = if k < 2 { p.bumped(kind, k, size) } else { p.clone() };
    let mut saved = context.new_saveable();
    let done = context.bump(&bump, Some(&mut *saved));
    prove("bumped if there", done.unwrap() == (k < 2));
    agrees(&context, &after, &look);
    undeclared(&context, look.date);
    prove("restored", context.restore(&*saved).is_ok());
    agrees(&context, &p, &look);
    cover("restored");
}

/// Two bumps saved together, restored, cleared, and a third
fn three_bumps(first: usize, second: usize, third: usize, shared: bool) {
    let mut p = Pieces::any();
    p.shared = shared;
    let look = any_look(p.date);
    let mut context = prefetched(&p, look.date, 1);
    let mut saved = context.new_saveable();
    let (a, b, c) = (any_size("first"), any_size("second"), any_size("third"));
    let i = choose("name", 2);
    prove("first", context.bump(&bump_of(first, i, a), Some(&mut *saved)).unwrap());
    prove("second", context.bump(&bump_of(second, 1 - i, b), Some(&mut *saved)).unwrap());
    agrees(&context, &p.bumped(first, i, a).bumped(second, 1 - i, b), &look);
    prove("restored", context.restore(&*saved).is_ok());
    agrees(&context, &p, &look);
    saved.clear();
    prove("third", context.bump(&bump_of(third, i, c), None).unwrap());
    prove("nothing to restore", context.restore(&*saved).is_ok());
    agrees(&context, &p.bumped(third, i, c), &look);
    cover("done");
}

contracts! {
fn as_given() {
    let p = Pieces::any();
    let look = any_look(p.date);
    let context = prefetched(&p, look.date, choose("first", 2));
    agrees(&context, &p, &look);
    undeclared(&context, look.date);
    cover("done");
}

fn spot_relative() { one_bump(0, false) }
fn spot_replaced() { one_bump(1, false) }
fn dividends() { one_bump(2, false) }
fn borrow() { one_bump(3, false) }
fn yield_of_one() { one_bump(4, false) }
fn yield_of_both() { one_bump(4, true) }
fn volatility() { one_bump(6, false) }
fn sequence_spot() { three_bumps(0, 0, 1, false) }
fn sequence_rates() { three_bumps(4, 4, 0, true) }
fn sequence_volatility() { three_bumps(6, 6, 0, false) }
fn sequence_mixed() { three_bumps(2, 3, 6, false) }

/// A name of which only the spot is declared
fn spot_only() {
    let p = Pieces::any();
    let look = any_look(p.date);
    let mut d = DependencyCollector::new(p.date);
    d.forward_curve(&p.instrument(0), look.date);
    d.spot(&p.instrument(1));
    let mut context = PricingContextPrefetch::new(&p.market(), Arc::new(d)).unwrap();
    let size = any_size("size");
    let mut saved = context.new_saveable();
    let kind = [0, 2, 3, 4, 6][choose("kind", 5)];
    prove("bumped", context.bump(&bump_of(kind, 1, size), Some(&mut *saved)).ok() == Some(true));
    let q = p.bumped(kind, 1, size);
    prove_eq("spot", context.spot("B").unwrap(), q.spots[1]);
    prove_eq("rate", context.yield_curve("D", look.date).unwrap().rt(look.date).unwrap(), q.rates[1].rt(look.date).unwrap());
    prove_eq("forward of the other", context.forward_curve(&*p.instrument(0), look.date).unwrap().forward(look.date).unwrap(), p.forward(0, look.date).forward(look.date).unwrap());
    prove("restored", context.restore(&*saved).is_ok());
    prove_eq("spot back", context.spot("B").unwrap(), p.spots[1]);
    cover("done");
}
}
