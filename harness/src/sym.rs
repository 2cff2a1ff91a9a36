//! The language of the contracts. Under the verifier (qmv) these functions are
//! intercepted and carry symbolic meaning. Compiled normally they read inputs
//! from a tape (a counterexample to be replayed) or draw them at random, and the
//! proof obligations become run-time checks against the real code.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

/// Deterministic generator for the concrete mode (splitmix64)
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub tape: HashMap<String, Vec<f64>>,
    pub used: HashMap<String, usize>,
    pub uf: BTreeMap<String, f64>,
    pub log: Vec<(String, f64)>,
    pub proved: u64,
    pub covered: BTreeMap<String, u64>,
    pub texts: Vec<String>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx {
        rng: Rng(0), tape: HashMap::new(), used: HashMap::new(), uf: BTreeMap::new(),
        log: Vec::new(), proved: 0, covered: BTreeMap::new(), texts: Vec::new() });
}

/// Panic payload: the inputs do not meet the precondition
pub struct Rejected;
/// Panic payload: a stated obligation failed on these inputs
pub struct Failed(pub String);

fn draw(name: &str, f: impl FnOnce(&mut Rng, &[(String, f64)]) -> f64) -> f64 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let k = { let e = c.used.entry(name.to_string()).or_insert(0); *e += 1; *e - 1 };
        let t = c.tape.get(name).and_then(|v| v.get(k).cloned());
        let c = &mut *c;
        let v = match t { Some(v) => v, None => f(&mut c.rng, &c.log) };
        c.log.push((name.to_string(), v));
        v
    })
}

fn earlier(r: &mut Rng, log: &[(String, f64)]) -> f64 {
    if log.is_empty() { f64::NAN } else { log[(r.next() % log.len() as u64) as usize].1 }
}

/// An arbitrary real number. The hint is the range searched in concrete mode; it
/// restricts nothing in a proof. Ends, round numbers and values drawn before are
/// tried more often.
pub fn any_f64(name: &'static str, lo: f64, hi: f64) -> f64 {
    draw(name, |r, log| {
        let any = lo + r.unit() * (hi - lo);
        let v = match r.next() % 20 {
            0 => lo,
            1 => hi,
            2 => 0.0,
            3 => 1.0,
            4 => any.round(),
            5 => earlier(r, log),
            6 => lo + (r.unit() * r.unit() * r.unit()) * (hi - lo),
            _ => any
        };
        if v >= lo && v <= hi { v } else { any }
    })
}

/// An arbitrary integer between lo and hi inclusive (a precondition in proofs)
pub fn any_i32(name: &'static str, lo: i32, hi: i32) -> i32 {
    draw(name, |r, log| {
        let w = (hi as i64 - lo as i64 + 1) as u64;
        let any = (lo as i64 + (r.next() % w) as i64) as f64;
        let small = (r.next() % 17) as f64 - 8.0;
        let v = match r.next() % 16 {
            0 => lo as f64,
            1 => hi as f64,
            2 => lo as f64 + small.abs(),
            3 => hi as f64 - small.abs(),
            4 | 5 => small,
            6 => small * 25.0,
            7 | 8 | 9 => earlier(r, log).round() + small,
            10 => earlier(r, log).round() + small * 50.0,
            _ => any
        };
        if v >= lo as f64 && v <= hi as f64 { v } else { any }
    }) as i32
}

/// An arbitrary integer; in concrete mode within the hinted range
pub fn any_int(name: &'static str, lo: i32, hi: i32) -> i32 {
    any_i32(name, lo, hi)
}

pub fn any_bool(name: &'static str) -> bool {
    draw(name, |r, _| (r.next() % 2) as f64) != 0.0
}

/// One of n cases, explored one by one
pub fn choose(name: &'static str, n: usize) -> usize {
    draw(name, |r, _| (r.next() % n as u64) as f64) as usize
}

/// Precondition
pub fn assume(b: bool) {
    if !b { std::panic::panic_any(Rejected); }
}

/// Proof obligation
pub fn prove(label: &'static str, b: bool) {
    CTX.with(|c| c.borrow_mut().proved += 1);
    if !b { std::panic::panic_any(Failed(label.to_string())); }
}

/// Proof obligation: equal numbers (over the reals in proofs, to rounding error
/// in concrete mode). Values that are not finite must be the same.
pub fn prove_eq(label: &'static str, a: f64, b: f64) {
    prove_close(label, a, b, 0.0)
}

/// As prove_eq; concrete mode allows for the stated magnitude of intermediate
/// results when it bounds the rounding error
pub fn prove_close(label: &'static str, a: f64, b: f64, scale: f64) {
    CTX.with(|c| c.borrow_mut().proved += 1);
    let ok = if a.is_nan() || b.is_nan() { a.is_nan() && b.is_nan() }
        else if a.is_infinite() || b.is_infinite() { a == b }
        else { (a - b).abs() <= 1e-7 * (1e-3 + a.abs() + b.abs() + scale.abs()) };
    if !ok { std::panic::panic_any(Failed(format!("{}: {:e} != {:e}", label, a, b))); }
}

/// Proof obligation: a <= b
pub fn prove_le(label: &'static str, a: f64, b: f64) {
    CTX.with(|c| c.borrow_mut().proved += 1);
    let ok = a <= b + 1e-7 * (1e-3 + a.abs() + b.abs());
    if !ok { std::panic::panic_any(Failed(format!("{}: {:e} > {:e}", label, a, b))); }
}

/// Proof obligation: the function changes sign (or is zero) within reach of x. In proofs f is the
/// uninterpreted function of that name, and some point at which it has been evaluated must bear
/// this out; in concrete mode either such a point or the ends of the interval.
pub fn prove_root(label: &'static str, _name: &'static str, f: fn(f64) -> f64, x: f64, reach: f64, points: &[f64]) {
    CTX.with(|c| c.borrow_mut().proved += 1);
    let reach = reach * (1.0 + 1e-9) + 1e-300;
    let opposite = |y: f64| (y - x).abs() <= reach && !(f(x) > 0.0 && f(y) > 0.0) && !(f(x) < 0.0 && f(y) < 0.0);
    let ok = f(x) == 0.0 || opposite(x - reach) || opposite(x + reach) || points.iter().any(|y| opposite(*y));
    if !ok { std::panic::panic_any(Failed(label.to_string())); }
}

/// This point must be reachable (guards against vacuous proofs)
pub fn cover(label: &'static str) {
    CTX.with(|c| *c.borrow_mut().covered.entry(label.to_string()).or_insert(0) += 1);
}

pub fn ufkey(name: &str, args: &[f64]) -> String {
    let mut s = String::from(name);
    for a in args { s.push_str(&format!("|{}", a)); }
    s
}

/// An arbitrary function of its arguments, the same one throughout a run. The
/// hint is the range of values in concrete mode.
pub fn uf(name: &'static str, args: &[f64], lo: f64, hi: f64) -> f64 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let key = ufkey(name, args);
        if let Some(v) = c.uf.get(&key) { return *v; }
        let u = c.rng.unit();
        let e = c.rng.next() % 8;
        let v = if e == 0 { lo } else if e == 1 { hi } else { lo + u * (hi - lo) };
        c.uf.insert(key, v);
        v
    })
}

/// An arbitrary predicate of its arguments
pub fn up(name: &'static str, args: &[f64]) -> bool {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let key = ufkey(name, args);
        if let Some(v) = c.uf.get(&key) { return *v != 0.0; }
        let v = c.rng.next() % 3 == 0;
        c.uf.insert(key, if v { 1.0 } else { 0.0 });
        v
    })
}

/// True when running under the verifier, false when running concretely
pub fn symbolic() -> bool { false }

/// A mathematical fact supplied to the prover (listed as an assumption). In
/// concrete mode it must hold to rounding error, or the run aborts: a wrong
/// lemma is a bug of the harness.
pub fn lemma(label: &'static str, b: bool) {
    if !b { panic!("lemma does not hold: {}", label); }
}

/// exp(a + b) = exp(a) exp(b)
pub fn lemma_exp_add(_a: f64, _b: f64) {}
/// ln(exp(a)) = a and, for positive b, exp(ln(b)) = b
pub fn lemma_ln_exp(_a: f64) {}
/// a <= b implies exp(a) <= exp(b)
pub fn lemma_exp_mono(_a: f64, _b: f64) {}

/// An arbitrary integer function of its arguments
pub fn ufi(name: &'static str, args: &[f64], lo: i32, hi: i32) -> i32 {
    let lo2 = lo as f64;
    let hi2 = hi as f64 + 0.999;
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let key = ufkey(name, args);
        if let Some(v) = c.uf.get(&key) { return *v as i32; }
        let v = (lo2 + c.rng.unit() * (hi2 - lo2)).floor();
        c.uf.insert(key, v);
        v as i32
    })
}

/// Any number of further entries under names other than those given
pub fn others<V>(map: &mut HashMap<String, V>, absent: &[&str], make: fn(usize) -> V) {
    let n = draw("others", |r, _| (r.next() % 3) as f64) as usize;
    for k in 0..n {
        let name = format!("other {}", k);
        if !absent.contains(&&*name) { map.insert(name, make(k)); }
    }
}

/// An arbitrary set of weekday holidays, as a list in date order without
/// duplicates. Unbounded in proofs.
pub fn any_holidays(name: &'static str) -> Vec<quantmath::dates::Date> {
    use quantmath::dates::Date;
    // tape: the days themselves
    let from_tape: Option<Vec<f64>> = CTX.with(|c| c.borrow().tape.get(name).cloned());
    let mut days: Vec<i32> = match from_tape {
        Some(v) => v.iter().map(|x| *x as i32).collect(),
        None => CTX.with(|c| {
            let mut c = c.borrow_mut();
            // clusters of holidays around the dates already drawn
            let centres: Vec<i32> = c.log.iter().map(|x| x.1 as i32).filter(|x| *x > 20 && *x < 72000).collect();
            let n = c.rng.next() % 24;
            let mut v = Vec::new();
            for _ in 0..n {
                let b = if centres.is_empty() { 20000 } else { centres[(c.rng.next() % centres.len() as u64) as usize] };
                v.push(b - 14 + (c.rng.next() % 29) as i32);
            }
            v
        })
    };
    days.sort();
    days.dedup();
    days.retain(|d| *d > 0 && (*d + 3) % 7 < 5);
    CTX.with(|c| { let mut c = c.borrow_mut(); for d in days.iter() { c.log.push((name.to_string(), *d as f64)); } });
    days.into_iter().map(Date::from_truncated_julian).collect()
}

fn curve(name: &'static str, dates: bool) -> Vec<(f64, f64)> {
    let from_tape: Option<Vec<f64>> = CTX.with(|c| c.borrow().tape.get(name).cloned());
    let v: Vec<f64> = match from_tape {
        Some(v) => v,
        None => CTX.with(|c| {
            let mut c = c.borrow_mut();
            let n = 1 + c.rng.next() % 6;
            let mut x = if dates { 20000.0 + (c.rng.next() % 300) as f64 } else { -3.0 + 3.0 * c.rng.unit() };
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(x);
                v.push(-2.0 + 6.0 * c.rng.unit());
                x += if dates { 1.0 + (c.rng.next() % 150) as f64 } else { 0.1 + 2.0 * c.rng.unit() };
            }
            v
        })
    };
    CTX.with(|c| { let mut c = c.borrow_mut(); for x in v.iter() { c.log.push((name.to_string(), *x)); } });
    v.chunks(2).map(|p| (p[0], p[1])).collect()
}

/// Any number (at least one) of points in strictly increasing order of abscissa,
/// separated by more than 1e-12. Unbounded in proofs.
pub fn any_curve(name: &'static str) -> Vec<(f64, f64)> { curve(name, false) }

/// As any_curve, by date
pub fn any_date_curve(name: &'static str) -> Vec<(quantmath::dates::Date, f64)> {
    curve(name, true).into_iter().map(|p| (quantmath::dates::Date::from_truncated_julian(p.0 as i32), p.1)).collect()
}

fn scattered(name: &'static str, dates: bool) -> Vec<(f64, f64)> {
    let from_tape: Option<Vec<f64>> = CTX.with(|c| c.borrow().tape.get(name).cloned());
    let v: Vec<f64> = match from_tape {
        Some(v) => v,
        None => CTX.with(|c| {
            let mut c = c.borrow_mut();
            let n = 1 + c.rng.next() % 7;
            let mut x = if dates { 20000.0 + (c.rng.next() % 300) as f64 } else { -3.0 + 3.0 * c.rng.unit() };
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(x);
                v.push(-2.0 + 6.0 * c.rng.unit());
                let gap = if dates { 1.0 + (c.rng.next() % 20) as f64 } else { 0.1 + 2.0 * c.rng.unit() };
                x += match c.rng.next() % 12 { 0 => 0.0, 1 => -gap, _ => gap };
            }
            v
        })
    };
    CTX.with(|c| { let mut c = c.borrow_mut(); for x in v.iter() { c.log.push((name.to_string(), *x)); } });
    v.chunks(2).map(|p| (p[0], p[1])).collect()
}

/// Any number (at least one) of points in any order. Unbounded in proofs.
pub fn any_points(name: &'static str) -> Vec<(f64, f64)> { scattered(name, false) }

/// As any_points, by date
pub fn any_date_points(name: &'static str) -> Vec<(quantmath::dates::Date, f64)> {
    scattered(name, true).into_iter().map(|p| (quantmath::dates::Date::from_truncated_julian(p.0 as i32), p.1)).collect()
}

/// Any place in the list other than the first
pub fn any_place<T>(points: &[(T, f64)]) -> usize {
    assume(points.len() > 1);
    1 + choose("place", 1000) % (points.len() - 1)
}

/// Contracts of functions are not used in place of the functions in this proof
pub fn in_full() {}

/// Ghost: how many Mondays to Fridays there are from day -3 (a Monday) up to but
/// not including day n
pub fn weekdays_before(n: i32) -> i32 {
    let k = n + 3;
    5 * k.div_euclid(7) + k.rem_euclid(7).min(5)
}

/// Ghost: how many weekdays not in the list there are before day n
pub fn business_before(list: &[quantmath::dates::Date], n: i32) -> i32 {
    weekdays_before(n) - list.iter().filter(|x| x.truncated_julian() < n).count() as i32
}

/// Piece of a text: a non-negative number written with at least that many digits,
/// or a fixed word
#[derive(Clone, Copy)]
pub enum Piece { Number(i32, usize), Word(&'static str) }

/// Text made of pieces joined by a separator
pub fn text(pieces: &[Piece], sep: &'static str) -> String {
    let v: Vec<String> = pieces.iter().map(|p| match *p {
        Piece::Number(n, w) => format!("{:01$}", n, w),
        Piece::Word(s) => s.to_string()
    }).collect();
    let t = v.join(sep);
    CTX.with(|c| c.borrow_mut().texts.push(t.clone()));
    t
}
