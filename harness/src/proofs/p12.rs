//! P12: fixings
use crate::contracts::*;
use crate::sym::*;
use quantmath::data::fixings::*;
use quantmath::dates::datetime::DateTime;

/// Moments in a short stretch of days, so that some coincide
fn moment(from: quantmath::dates::Date) -> DateTime {
    DateTime::new(from + any_i32("offset", 0, 3), any_time_of_day())
}

const NAMES: [&str; 2] = ["A", "B"];

fn same(a: DateTime, b: DateTime) -> bool { a.date() == b.date() && a.time_of_day() == b.time_of_day() }

fn lookup(n: usize) {
    let start = mid_date("start");
    let known = start + any_i32("known", 0, 4);
    let mut a: Vec<(DateTime, f64)> = Vec::new();
    for _ in 0..n { a.push((moment(start), any_f64("value", 50.0, 150.0))); }
    let mut distinct = true;
    for i in 0..n { for k in 0..i { if same(a[i].0, a[k].0) { distinct = false; } } }
    let other = [(moment(start), any_f64("other", 50.0, 150.0))];
    let made = if choose("way", 2) == 0 {
        FixingTable::from_fixings(known, &[(NAMES[0], &a), (NAMES[1], &other)])
    } else {
        FixingTable::from_iter_known_until(known, vec![(NAMES[0], a.clone()), (NAMES[1], other.to_vec())])
    };
    prove("refused exactly if a moment is given twice", made.is_ok() == distinct);
    if !distinct { cover("twice"); return; }
    let t = made.unwrap();
    prove("known until", t.fixings_known_until() == known);
    let q = moment(start);
    let mut expected = None;
    for x in a.iter() { if same(x.0, q) { expected = Some(x.1); } }
    answer(&t, NAMES[0], q, expected);
    answer(&t, NAMES[1], q, if same(other[0].0, q) { Some(other[0].1) } else { None });
    answer(&t, "C", q, None);
    cover("looked up");
}

fn answer(t: &FixingTable, id: &str, q: DateTime, expected: Option<f64>) {
    let got = t.get(id, q);
    let maybe = t.get_optional(id, q);
    match expected {
        Some(v) => {
            prove("found", got.is_ok());
            let got = got.unwrap();
            prove("known", got.is_some() && maybe.is_some());
            prove_eq("recorded value", got.unwrap(), v);
            prove_eq("recorded value, optional", maybe.unwrap(), v);
        }
        None => {
            prove("absent", maybe.is_none());
            if q.date() < t.fixings_known_until() { prove("missing in the past is an error", got.is_err()); }
            else {
                prove("missing from now on is not an error", got.is_ok());
                prove("not known", got.unwrap().is_none());
            }
        }
    }
}

contracts! {
fn empty() {
    let known = mid_date("known");
    let t = FixingTable::new(known);
    answer(&t, "A", any_date_time("date"), None);
    cover("done");
}
fn one_bounded() { lookup(1); }
fn two_bounded() { lookup(2); }

/// The same name twice is refused
fn name_twice_bounded() {
    let start = mid_date("start");
    let a = [(moment(start), any_f64("value", 50.0, 150.0))];
    let b = [(moment(start), any_f64("value", 50.0, 150.0))];
    prove("refused", FixingTable::from_fixings(start, &[("A", &a), ("A", &b)]).is_err());
    cover("done");
}
}
