//! P01: dates and their calendar form
use crate::contracts::*;
use crate::sym::*;
use quantmath::dates::Date;
use std::str::FromStr;

fn leap(y: i32) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }

/// Number of days in a month of the Gregorian calendar
pub fn days_in(y: i32, m: i32) -> i32 {
    if m == 2 { if leap(y) { 29 } else { 28 } }
    else if m == 4 || m == 6 || m == 9 || m == 11 { 30 }
    else { 31 }
}

contracts! {
/// Every supported day has a real calendar form which converts back to it
fn calendar_form_back() {
    let d = any_i32("d", FIRST, LAST);
    let (y, m, n) = day(d).ymd();
    prove("converts back", Date::from_ymd(y, m, n) == day(d));
    prove("year", y >= 1968 && y <= 2168);
    prove("month", m >= 1 && m <= 12);
    prove("day of month", n >= 1 && n <= 31);
    cover("calendar_form_back");
}

/// The day after has the next calendar form, so later days have later forms and
/// no calendar day is skipped
fn next_day() {
    let d = any_i32("d", FIRST, LAST - 1);
    let (y, m, n) = day(d).ymd();
    let (y1, m1, n1) = (day(d) + 1).ymd();
    if n < days_in(y, m) {
        prove("next day of the month", y1 == y && m1 == m && n1 == n + 1);
    } else if m < 12 {
        prove("first of the next month", n == days_in(y, m) && y1 == y && m1 == m + 1 && n1 == 1);
    } else {
        prove("first of the next year", n == 31 && y1 == y + 1 && m1 == 1 && n1 == 1);
    }
    cover("next_day");
}

/// Anchors of the calendar and of the weekdays
fn anchors() {
    let d = Date::from_ymd(2000, 2, 29);
    prove("leap day 2000", j(d) == 11604);
    prove("a Tuesday", d.day_of_week() == 1);
    let (y, m, n) = day(11604).ymd();
    prove("calendar form", y == 2000 && m == 2 && n == 29);
    prove("1970-01-01", j(Date::from_ymd(1970, 1, 1)) == 588);
    cover("anchors");
}

/// Weekdays advance by one each day
fn weekdays() {
    let d = any_i32("d", FIRST, LAST - 1);
    let w = day(d).day_of_week();
    let n = (day(d) + 1).day_of_week();
    prove("weekday range", w >= 0 && w <= 6);
    prove("weekday advances by one", n == if w == 6 { 0 } else { w + 1 });
    cover("weekdays");
}

/// Adding days and taking differences are inverse
fn day_arithmetic() {
    let d = any_i32("d", -100000, 100000);
    let n = any_i32("n", -100000, 100000);
    let e = day(d) + n;
    prove("difference undoes addition", e - day(d) == n);
    prove("subtraction undoes addition", e - n == day(d));
    let mut f = day(d);
    f += n;
    prove("in place addition", f == e);
    f -= n;
    prove("in place subtraction", f == day(d));
    prove("order", (n > 0) == (e > day(d)) && (n < 0) == (e < day(d)));
    prove("supported days", day(d).is_valid() == (d >= FIRST && d <= LAST));
    cover("day_arithmetic");
}

/// Text naming a real, supported day is read as that day
fn read_real_day() {
    let y = any_i32("y", 1968, 2168);
    let m = any_i32("m", 1, 12);
    let n = any_i32("n", 1, 31);
    assume(n <= days_in(y, m));
    let t = text(&[Piece::Number(y, 4), Piece::Number(m, 2), Piece::Number(n, 2)], "-");
    let d = Date::from_ymd(y, m, n);
    assume(d.is_valid());
    match Date::from_str(&t) {
        Ok(e) => { prove("the day named", e == d); cover("read_real_day"); }
        Err(_) => prove("is read", false)
    }
}

/// Text with three numbers that name no real day, or one not supported, is refused
fn refuse_unreal_day() {
    let y = any_int("y", 1900, 2300);
    let m = any_int("m", -1, 14);
    let n = any_int("n", -1, 33);
    // negative numbers cannot be written in this form
    assume(y >= 0 && m >= 0 && n >= 0);
    let t = text(&[Piece::Number(y, 4), Piece::Number(m, 2), Piece::Number(n, 2)], "-");
    match Date::from_str(&t) {
        Ok(e) => {
            prove("month named", m >= 1 && m <= 12);
            prove("day named", n >= 1 && n <= days_in(y, m));
            prove("supported day", e.is_valid());
            prove("year named", y >= 1968 && y <= 2168);
            prove("the day named", e == Date::from_ymd(y, m, n));
            cover("accepted");
        }
        Err(_) => cover("refused")
    }
}

/// Malformed text is refused without a crash
fn refuse_malformed() {
    let k = choose("pieces", 6);
    let p = [Piece::Number(any_i32("y", 1969, 2160), 4), Piece::Number(any_i32("m", 1, 12), 2), Piece::Number(any_i32("n", 1, 28), 2),
        Piece::Number(any_i32("x", 0, 99), 2)];
    let t = match k {
        0 => text(&[], "-"),
        1 => text(&p[..1], "-"),
        2 => text(&p[..2], "-"),
        3 => text(&p[..], "-"),
        4 => text(&[p[0], Piece::Word("Jan"), p[2]], "-"),
        _ => text(&[p[0], p[1], p[2]], "/")
    };
    prove("malformed text is refused", Date::from_str(&t).is_err());
    cover("refuse_malformed");
}

/// The printed form reads back as the same day
fn printed_form() {
    let d = any_i32("d", FIRST, LAST);
    let t = day(d).to_string();
    match Date::from_str(&t) {
        Ok(e) => { prove("reads back", e == day(d)); cover("printed_form"); }
        Err(_) => prove("is read", false)
    }
}
}
