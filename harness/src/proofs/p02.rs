//! P02: stepping business days
use crate::contracts::*;
use crate::sym::*;
use quantmath::dates::calendar::*;
use quantmath::dates::Date;

/// Preconditions under which a step of n from d stays within the valid dates
fn in_range(d: Date, n: i32) {
    assume(5 * j(d) + 7 * n >= 100 && 5 * j(d) + 7 * n <= 5 * LAST - 100);
    assume(5 * j(d) - 7 * n >= 100 && 5 * j(d) - 7 * n <= 5 * LAST - 100);
    assume(j(d) > 20 && j(d) < LAST - 20);
}

/// Precondition: the valid dates on both sides of d hold business days enough to
/// step n from d, so that stepping does not leave the supported range. Given as
/// witnesses: lo and hi are business days with more than n between them and d.
fn around(d: i32, n: i32, h: &[Date]) {
    let m = if n > 0 { n } else { -n };
    let lo = any_i32("lo", 8, LAST - 8);
    let hi = any_i32("hi", 8, LAST - 8);
    assume(lo <= d);
    assume(d <= hi);
    assume(business_before(h, lo + 1) == business_before(h, lo) + 1);
    assume(business_before(h, hi + 1) == business_before(h, hi) + 1);
    assume(business_before(h, d) - business_before(h, lo) > m + 1);
    assume(business_before(h, hi) - business_before(h, d) > m + 1);
}

contracts! {
/// Every-day calendar: all days are business days, steps are calendar days
fn every_day() {
    let c = EveryDayCalendar::new();
    let d = any_date("d");
    let n = any_i32("n", -80000, 80000);
    let f = any_bool("f");
    prove("never a holiday", !c.is_holiday(d));
    prove("step is calendar days", j(c.step(d, n, f)) == j(d) + n);
    cover("every_day");
}

/// Weekday calendar: what a holiday is
fn weekday_holidays() {
    let c = WeekdayCalendar::new();
    let d = any_date("d");
    prove("Saturday and Sunday are the holidays", c.is_holiday(d) == (wday(d) >= 5));
    cover("weekday_holidays");
}

/// Weekday calendar: a zero step keeps a business day and slips off a weekend
fn weekday_zero_step() {
    let c = WeekdayCalendar::new();
    let d = any_date("d");
    in_range(d, 0);
    let f = any_bool("f");
    let z = c.step(d, 0, f);
    prove("zero step lands on a business day", wday(z) < 5);
    if f {
        prove("zero step slips forward", j(z) >= j(d));
        prove("no business day skipped forward", weekdays_before(j(z)) == weekdays_before(j(d)));
    } else {
        prove("zero step slips backward", j(z) <= j(d));
        prove("no business day skipped backward", weekdays_before(j(z) + 1) == weekdays_before(j(d) + 1));
    }
    cover("weekday_zero_step");
}

/// Weekday calendar: n steps pass exactly n business days from the zero step
fn weekday_step() {
    let c = WeekdayCalendar::new();
    let d = any_date("d");
    let n = any_i32("n", -60000, 60000);
    in_range(d, n);
    let f = any_bool("f");
    let z = c.step(d, 0, f);
    let r = c.step(d, n, f);
    prove("lands on a business day", wday(r) < 5);
    prove("passes exactly n business days", weekdays_before(j(r)) == weekdays_before(j(z)) + n);
    cover("weekday_step");
}

/// Weekday calendar: n+1 steps are n steps and one more, in both directions
fn weekday_step_composes() {
    let c = WeekdayCalendar::new();
    let d = any_date("d");
    let n = any_i32("n", 0, 60000);
    in_range(d, n);
    let f = any_bool("f");
    let up = c.step(d, n, f);
    prove("one more forward", c.step(d, n + 1, f) == c.step(up, 1, f));
    let dn = c.step(d, -n, f);
    prove("one more backward", c.step(d, -n - 1, f) == c.step(dn, -1, f));
    cover("weekday_step_composes");
}

/// Calendar with any set of holidays: what a holiday is
fn holiday_holidays() {
    let d = any_i32("d", FIRST, LAST);
    let h = any_holidays("h");
    let c = WeekdayAndHolidayCalendar::new("X", &h);
    prove("business days are the weekdays not listed",
        !c.is_holiday(day(d)) == (business_before(&h, d + 1) > business_before(&h, d)));
    cover("holiday_holidays");
}

/// Calendar with any set of holidays: zero step
fn holiday_zero_step() {
    let d = any_i32("d", 400, LAST - 400);
    let h = any_holidays("h");
    let c = WeekdayAndHolidayCalendar::new("X", &h);
    let f = any_bool("f");
    around(d, 0, &h);
    let z = j(c.step(day(d), 0, f));
    prove("zero step lands on a business day", business_before(&h, z + 1) == business_before(&h, z) + 1);
    if f {
        prove("zero step slips forward", z >= d);
        prove("no business day skipped forward", business_before(&h, z) == business_before(&h, d));
    } else {
        prove("zero step slips backward", z <= d);
        prove("no business day skipped backward", business_before(&h, z + 1) == business_before(&h, d + 1));
    }
    cover("holiday_zero_step");
}

/// Calendar with any set of holidays: n steps forward pass exactly n business days
fn holiday_step_forward() {
    let n = any_i32("n", 1, 60000);
    holiday_step(n);
    cover("holiday_step_forward");
}

/// Calendar with any set of holidays: n steps back pass exactly n business days
fn holiday_step_back() {
    let n = any_i32("n", -60000, -1);
    holiday_step(n);
    cover("holiday_step_back");
}
}

fn holiday_step(n: i32) {
    let d = any_i32("d", 400, LAST - 400);
    in_range(day(d), n);
    let h = any_holidays("h");
    let c = WeekdayAndHolidayCalendar::new("X", &h);
    let f = any_bool("f");
    around(d, n, &h);
    let r = j(c.step(day(d), n, f));
    prove("lands on a business day", business_before(&h, r + 1) == business_before(&h, r) + 1);
    // business days passed are counted from d or, when d is no business day, from
    // the one it slips to
    let open = business_before(&h, d + 1) - business_before(&h, d);
    let slipped = if f || open == 1 { 0 } else { -1 };
    prove("passes exactly n business days", business_before(&h, r) == business_before(&h, d) + slipped + n);
}
