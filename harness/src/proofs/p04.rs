//! P04: date rules
use crate::contracts::*;
use crate::sym::*;
use quantmath::dates::rules::*;

contracts! {
fn null_rule() {
    let d = any_int("d", FIRST, LAST);
    prove("the date itself", NullRule::new().apply(day(d)) == day(d));
    cover("null_rule");
}

/// Business-day rules take their steps in their calendar
fn business_days() {
    let c = any_calendar();
    let d = mid_date("d");
    let n = any_i32("n", 0, 1000);
    let next = BusinessDays::new_next(c.clone());
    prove("next business day", next.apply(d) == c.step(d, 0, true));
    let prev = BusinessDays::new_prev(c.clone());
    prove("previous business day", prev.apply(d) == c.step(d, 0, false));
    let step = BusinessDays::new_step(c.clone(), n as u32);
    prove("steps forward", step.apply(d) == c.step(d, n, true));
    let back = BusinessDays::new_back(c.clone(), n as u32);
    prove("steps back", back.apply(d) == c.step(d, -n, false));
    cover("business_days");
}

/// Modified following: over any calendar, with a next business day in less than
/// a year
fn modified_following() {
    let c = any_calendar();
    let d = mid_date("d");
    let next = c.step(d, 0, true);
    let prev = c.step(d, 0, false);
    assume(j(next) - j(d) < 300);
    let r = ModifiedFollowing::new(c.clone()).apply(d);
    if !c.is_holiday(d) {
        prove("a business day stays", r == d);
        cover("business day");
    } else {
        let (y0, m0, _) = d.ymd();
        let (y1, m1, _) = next.ymd();
        if y0 == y1 && m0 == m1 {
            prove("next business day in the same month", r == next);
            cover("same month");
        } else {
            prove("previous business day otherwise", r == prev);
            cover("other month");
        }
    }
}
}
