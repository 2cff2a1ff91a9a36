//! P15: bumps of market data
use crate::market::*;
use crate::sym::*;
use quantmath::instruments::PricingContext;
use quantmath::risk::{Bumpable, Saveable};

/// A bump of one kind to each name in turn and to one that is not there, with and without saving
fn one_bump(kind: usize) {
    let p = Pieces::any();
    let mut look = any_look(p.date);
    look.forwards = kind != 5;
    let mut market = p.market();
    let k = choose("name", 3);
    let size = any_size("size");
    let bump = bump_of(kind, k, size);
    let after = if k < 2 { p.bumped(kind, k, size) } else { p.clone() };
    if choose("save", 2) == 1 {
        let mut saved = market.new_saveable();
        let done = market.bump(&bump, Some(&mut *saved));
        prove("bumped if there", done.unwrap() == (k < 2));
        agrees(&market, &after, &look);
        prove("restored", market.restore(&*saved).is_ok());
        agrees(&market, &p, &look);
        cover("restored");
    } else {
        let done = market.bump(&bump, None);
        prove("bumped if there", done.unwrap() == (k < 2));
        agrees(&market, &after, &look);
        cover("bumped");
    }
}

/// Two bumps saved together, restored, cleared, and a third
fn three_bumps(first: usize, second: usize, third: usize) {
    let p = Pieces::any();
    let look = any_look(p.date);
    let mut market = p.market();
    let mut saved = market.new_saveable();
    let (a, b, c) = (any_size("first"), any_size("second"), any_size("third"));
    let i = choose("name", 2);
    prove("first", market.bump(&bump_of(first, i, a), Some(&mut *saved)).unwrap());
    prove("second", market.bump(&bump_of(second, 1 - i, b), Some(&mut *saved)).unwrap());
    agrees(&market, &p.bumped(first, i, a).bumped(second, 1 - i, b), &look);
    prove("restored", market.restore(&*saved).is_ok());
    agrees(&market, &p, &look);
    saved.clear();
    prove("third", market.bump(&bump_of(third, i, c), None).unwrap());
    prove("nothing to restore", market.restore(&*saved).is_ok());
    let q = p.bumped(third, i, c);
    agrees(&market, &q, &look);
    prove("fourth", market.bump(&bump_of(first, i, b), Some(&mut *saved)).unwrap());
    agrees(&market, &q.bumped(first, i, b), &look);
    prove("restored again", market.restore(&*saved).is_ok());
    agrees(&market, &q, &look);
    cover("done");
}

contracts! {
fn spot_relative() { one_bump(0) }
fn spot_replaced() { one_bump(1) }
fn dividends() { one_bump(2) }
fn borrow() { one_bump(3) }
fn yield_continuous() { one_bump(4) }
fn yield_annualised() { one_bump(5) }
fn volatility() { one_bump(6) }
fn sequence_spot() { three_bumps(0, 0, 1) }
fn sequence_spot_rates() { three_bumps(0, 4, 3) }
fn sequence_rates() { three_bumps(4, 4, 4) }
fn sequence_dividends() { three_bumps(2, 2, 2) }
fn sequence_borrow() { three_bumps(3, 3, 3) }
fn sequence_volatility() { three_bumps(6, 6, 6) }
fn sequence_mixed() { three_bumps(6, 2, 4) }
}
