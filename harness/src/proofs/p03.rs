//! P03: business-day counts and volatility time
use crate::contracts::*;
use crate::sym::*;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;

/// Two moments: days and the parts of them that have passed
fn moments() -> (Date, f64, Date, f64) {
    let a = any_date("from");
    let b = any_date("to");
    (a, part("fa"), b, part("fb"))
}

fn part(name: &'static str) -> f64 {
    let f = any_f64(name, 0.0, 1.0);
    assume(f >= 0.0 && f <= 1.0);
    f
}

fn weight(hol: bool, w: f64) -> f64 { if hol { w } else { 1.0 } }

/// Total weight between two moments, given the whole weights before the days and
/// the weights of the days themselves
fn total(a: Date, fa: f64, wa: f64, b: Date, fb: f64, wb: f64, whole: f64) -> f64 {
    if j(a) > j(b) { 0.0 } else { whole + wb * fb - wa * fa }
}

fn holiday_count(ordered: bool, hol: bool) {
    let a = any_i32("from", 30, LAST - 30);
    let b = any_i32("to", 30, LAST - 30);
    let h = any_holidays("h");
    assume((a <= b) == ordered);
    let (fa, fb) = (part("fa"), part("fb"));
    let c = WeekdayAndHolidayCalendar::new("X", &h);
    let (ha, hb) = (c.is_holiday(day(a)), c.is_holiday(day(b)));
    assume(ha == hol);
    let (ba, bb) = (business_before(&h, a), business_before(&h, b));
    // slipping to a business day stays among the supported days
    let lo = any_i32("lo", 8, LAST - 8);
    let hi = any_i32("hi", 8, LAST - 8);
    assume(lo <= a && lo <= b && a <= hi && b <= hi);
    assume(business_before(&h, lo + 1) == business_before(&h, lo) + 1);
    assume(business_before(&h, hi + 1) == business_before(&h, hi) + 1);
    prove_eq("business days weigh one", c.count_business_days(day(a), fa, day(b), fb),
        total(day(a), fa, weight(ha, 0.0), day(b), fb, weight(hb, 0.0), (bb - ba) as f64));
    prove("holidays are the days that are not business days", ha == (business_before(&h, a + 1) == ba));
    prove_eq("weight of a day", c.day_weight(day(a)), weight(ha, 0.0));
    prove_eq("days per year", c.standard_basis(), 252.0);
}

contracts! {
fn every_day_count() {
    let c = EveryDayCalendar::new();
    let (a, fa, b, fb) = moments();
    prove_eq("every day weighs one", c.count_business_days(a, fa, b, fb), total(a, fa, 1.0, b, fb, 1.0, (j(b) - j(a)) as f64));
    prove_eq("weight of a day", c.day_weight(a), 1.0);
    prove_eq("days per year", c.standard_basis(), 365.0);
    cover("every_day_count");
}

fn weekday_count() {
    let c = WeekdayCalendar::new();
    let (a, fa, b, fb) = moments();
    let (wa, wb) = (weight(wday(a) > 4, 0.0), weight(wday(b) > 4, 0.0));
    let whole = (weekdays_before(j(b)) - weekdays_before(j(a))) as f64;
    prove_eq("weekdays weigh one", c.count_business_days(a, fa, b, fb), total(a, fa, wa, b, fb, wb, whole));
    prove_eq("weight of a day", c.day_weight(a), wa);
    prove_eq("days per year", c.standard_basis(), 252.0);
    cover("weekday_count");
}

/// Weekdays with any holiday list, in the case of the ends given
fn holiday_count_ordered_b() { holiday_count(true, false); cover("holiday_count"); }
fn holiday_count_ordered_h() { holiday_count(true, true); cover("holiday_count"); }
fn holiday_count_reversed() { holiday_count(false, any_bool("hol")); cover("holiday_count"); }

/// A volatility calendar over any calendar, with any weight
fn volatility_count() {
    let u = any_calendar();
    let w = any_f64("w", 0.0, 1.0);
    let c = VolatilityCalendar::new("V", u.clone(), w);
    let (a, fa, b, fb) = moments();
    let (ha, hb) = (u.is_holiday(a), u.is_holiday(b));
    let business = cal_count(b) - cal_count(a);
    let all = (j(b) - j(a)) as f64;
    let whole = business + (all - business) * w;
    prove_eq("holidays weigh the given weight", c.count_business_days(a, fa, b, fb),
        total(a, fa, weight(ha, w), b, fb, weight(hb, w), whole));
    prove_eq("weight of a day", c.day_weight(a), weight(ha, w));
    prove("same holidays", c.is_holiday(a) == ha);
    prove_eq("days per year", c.standard_basis(), u.standard_basis() + (365.0 - u.standard_basis()) * w);
    cover("volatility_count");
}

/// The count of a calendar over adjoining periods adds up, and is zero over an
/// empty period (consequence of the above, checked on the code once more)
fn additive() {
    let k = choose("calendar", 3);
    let u = any_calendar();
    let w = any_f64("w", 0.0, 1.0);
    let v = VolatilityCalendar::new("V", u, w);
    let e = EveryDayCalendar::new();
    let d = WeekdayCalendar::new();
    let c: &dyn Calendar = match k { 0 => &v, 1 => &e, _ => &d };
    let (a, fa, b, fb) = moments();
    let m = any_date("mid");
    let fm = part("fm");
    assume(j(a) <= j(m) && j(m) <= j(b));
    let whole = c.count_business_days(a, fa, b, fb);
    let first = c.count_business_days(a, fa, m, fm);
    let second = c.count_business_days(m, fm, b, fb);
    prove_eq("adjoining periods add up", first + second, whole);
    prove_eq("an empty period counts zero", c.count_business_days(m, fm, m, fm), 0.0);
    cover("additive");
}

/// A year fraction is the count over the days per year
fn year_fraction() {
    let k = choose("calendar", 3);
    let u = any_calendar();
    let w = any_f64("w", 0.0, 1.0);
    let v = VolatilityCalendar::new("V", u, w);
    let e = EveryDayCalendar::new();
    let d = WeekdayCalendar::new();
    let c: &dyn Calendar = match k { 0 => &v, 1 => &e, _ => &d };
    let (a, fa, b, fb) = moments();
    assume(fa < 1.0 && fb < 1.0);
    let basis = c.standard_basis();
    assume(basis > 0.0);
    let n = c.count_business_days(a, fa, b, fb);
    let y = c.year_fraction(DateDayFraction::new(a, fa), DateDayFraction::new(b, fb));
    prove_eq("count over days per year", y * basis, n);
    cover("year_fraction");
}
}
