//! P05: interpolation and extrapolation
use crate::contracts::*;
use crate::sym::*;
use quantmath::core::qm;
use quantmath::dates::Date;
use quantmath::math::interpolation::*;

pub fn policy(name: &'static str) -> (Extrap, usize) {
    let k = choose(name, 5);
    (match k { 0 => Extrap::Flat, 1 => Extrap::Natural, 2 => Extrap::NotANumber, 3 => Extrap::Zero, _ => Extrap::Throw }, k)
}

/// Position of a query: at a point, between two neighbours, or outside
enum Where { At(usize), Between(usize), Left, Right }

/// What a policy other than natural continuation gives outside the points
fn outside(r: Result<f64, qm::Error>, policy: usize, end: f64) {
    match policy {
        0 => prove_eq("holds the end value", r.unwrap_or(f64::NAN), end),
        2 => { prove("is not an error", r.is_ok()); prove("not a number", r.unwrap().is_nan()); }
        3 => { prove("is not an error", r.is_ok()); prove_eq("zero", r.unwrap(), 0.0); }
        _ => prove("fails with an error", r.is_err())
    }
}

fn on_line(x: f64, a: (f64, f64), b: (f64, f64), y: f64) {
    prove_close("on the line through its neighbours", (y - a.1) * (b.0 - a.0), (b.1 - a.1) * (x - a.0), 10.0);
}

/// Contract of linear interpolation over any number of points. The case and the
/// position in the list are ghost inputs.
pub fn linear(x: f64, xs: &dyn Fn(usize) -> f64, ys: &dyn Fn(usize) -> f64, n: usize, left: usize, right: usize, r: Result<f64, qm::Error>) {
    let p = |i: usize| (xs(i), ys(i));
    let w = match choose("case", 4) {
        0 => Where::At(index("at", n)),
        1 => Where::Between(index("between", n)),
        2 => Where::Left,
        _ => Where::Right
    };
    match w {
        Where::At(i) => {
            assume(x == xs(i));
            prove_eq("the value given at the point", r.unwrap_or(f64::NAN), ys(i));
            cover("at");
        }
        Where::Between(i) => {
            assume(i > 0);
            assume(x > xs(i - 1) && x < xs(i));
            prove("is not an error", r.is_ok());
            on_line(x, p(i - 1), p(i), r.unwrap());
            cover("between");
        }
        Where::Left => {
            assume(x < xs(0));
            if left == 1 && n > 1 {
                prove("is not an error", r.is_ok());
                on_line(x, p(0), p(1), r.unwrap());
                cover("left natural");
            } else if left == 1 {
                prove("one point cannot be continued", r.is_err());
            } else { outside(r, left, ys(0)); cover("left"); }
        }
        Where::Right => {
            assume(x > xs(n - 1));
            if right == 1 && n > 1 {
                prove("is not an error", r.is_ok());
                on_line(x, p(n - 2), p(n - 1), r.unwrap());
                cover("right natural");
            } else if right == 1 {
                prove("one point cannot be continued", r.is_err());
            } else { outside(r, right, ys(n - 1)); cover("right"); }
        }
    }
}

fn index(name: &'static str, n: usize) -> usize {
    let i = any_int(name, 0, 6);
    assume(i >= 0 && (i as usize) < n);
    i as usize
}

/// n points, from gaps and values
fn few(n: usize) -> Vec<(f64, f64)> {
    let mut x = any_f64("x0", -2.0, 2.0);
    let mut v = Vec::new();
    for i in 0..n {
        if i > 0 {
            let g = any_f64("gap", 0.1, 2.0);
            assume(g > 0.000001);
            x += g;
        }
        v.push((x, any_f64("y", -3.0, 3.0)));
    }
    v
}

/// Slope and curvature at the start of a cubic, from four equally spaced values
fn shape(d: f64, p: [f64; 4]) -> (f64, f64) {
    ((18.0 * p[1] - 11.0 * p[0] - 9.0 * p[2] + 2.0 * p[3]) / (6.0 * d),
     (2.0 * p[0] - 5.0 * p[1] + 4.0 * p[2] - p[3]) / (d * d))
}

/// The cubic through four values at 0, 1, 2 and 3
fn cubic(t: f64, p: [f64; 4]) -> f64 {
    p[0] * (1.0 - t) * (2.0 - t) * (3.0 - t) / 6.0
        + p[1] * t * (2.0 - t) * (3.0 - t) / 2.0
        - p[2] * t * (1.0 - t) * (3.0 - t) / 2.0
        + p[3] * t * (1.0 - t) * (2.0 - t) / 6.0
}

fn value(s: &CubicSpline<f64>, x: f64) -> f64 {
    let r = s.interpolate(x);
    prove("is not an error", r.is_ok());
    r.unwrap()
}

/// Values at the ends and thirds of one section
fn section(s: &CubicSpline<f64>, a: (f64, f64), b: (f64, f64)) -> (f64, [f64; 4]) {
    let d = (b.0 - a.0) / 3.0;
    (d, [a.1, value(s, a.0 + d), value(s, a.0 + 2.0 * d), b.1])
}

fn reversed(p: [f64; 4]) -> [f64; 4] { [p[3], p[2], p[1], p[0]] }

/// A spline over n points is a smooth piecewise cubic with the right ends
fn spline(n: usize) {
    let pts = few(n);
    let ln = any_side("left natural");
    let rn = any_side("right natural");
    let made = CubicSpline::<f64>::new(&pts, if ln { Extrap::Natural } else { Extrap::Flat }, if rn { Extrap::Natural } else { Extrap::Flat });
    prove("is accepted", made.is_ok());
    let s = made.unwrap();
    let mut before: Option<(f64, f64)> = None;
    for i in 0..n - 1 {
        let (d, p) = section(&s, pts[i], pts[i + 1]);
        let (slope, curve) = shape(d, p);
        match before {
            None => if ln { prove_close("no curvature at a natural left end", curve, 0.0, 100.0) }
                    else { prove_close("no slope at a held left end", slope, 0.0, 100.0) },
            Some((s0, c0)) => {
                prove_close("slope is continuous", slope, s0, 100.0);
                prove_close("curvature is continuous", curve, c0, 100.0);
            }
        }
        let (rs, rc) = shape(d, reversed(p));
        before = Some((-rs, rc));
    }
    let (slope, curve) = before.unwrap();
    if rn { prove_close("no curvature at a natural right end", curve, 0.0, 100.0) }
    else { prove_close("no slope at a held right end", slope, 0.0, 100.0) }
    cover("done");
}

fn any_side(name: &'static str) -> bool { choose(name, 2) == 1 }

contracts! {
fn linear_numbers() {
    let pts = any_curve("pts");
    let x = any_f64("x", -5.0, 10.0);
    let (l, lk) = policy("left");
    let (rt, rk) = policy("right");
    let r = FlyweightLinear::<f64>::new(l, rt).interpolate(x, &pts);
    linear(x, &|i| pts[i].0, &|i| pts[i].1, pts.len(), lk, rk, r);
}

fn linear_dates() {
    let pts = any_date_curve("pts");
    let x = any_date("x");
    let (l, lk) = policy("left");
    let (rt, rk) = policy("right");
    let r = linear_interpolate_extrapolate(x, &pts, l, rt);
    linear(j(x) as f64, &|i| j(pts[i].0) as f64, &|i| pts[i].1, pts.len(), lk, rk, r);
}

/// The owning interpolator accepts increasing points and interpolates them
fn linear_owned_bounded() {
    let pts = few(1 + choose("points", 3));
    let x = any_f64("x", -5.0, 8.0);
    let (l, lk) = policy("left");
    let (rt, rk) = policy("right");
    let made = Linear::<f64>::new(&pts, l, rt);
    prove("is accepted", made.is_ok());
    let r = made.unwrap().interpolate(x);
    linear(x, &|i| pts[i].0, &|i| pts[i].1, pts.len(), lk, rk, r);
}

/// Exactly the increasing points are accepted
fn refuses_bounded() {
    let n = choose("points", 5);
    let mut pts = Vec::new();
    let mut good = n > 0;
    let mut bad = n == 0;
    for i in 0..n {
        pts.push((any_f64("x", -2.0, 2.0), any_f64("y", -2.0, 2.0)));
        if i > 0 {
            let gap = pts[i].0 - pts[i - 1].0;
            if !(gap > 0.00000000001) { good = false }
            if gap <= 0.0 { bad = true }
        }
    }
    let v = validate_abscissae(&pts);
    if good { prove("increasing points are accepted", v.is_ok()); cover("good"); }
    if bad {
        prove("other points are refused", v.is_err());
        prove("no linear curve", Linear::<f64>::new(&pts, Extrap::Flat, Extrap::Flat).is_err());
        prove("no spline", CubicSpline::<f64>::new(&pts, Extrap::Flat, Extrap::Flat).is_err());
        cover("bad");
    }
}

/// Points in order are accepted, however many
fn accepts_ordered() {
    in_full();
    let pts = any_curve("points");
    prove("increasing points are accepted", validate_abscissae(&pts).is_ok());
    cover("done");
}

fn accepts_ordered_dates() {
    in_full();
    let pts = any_date_curve("points");
    prove("increasing dates are accepted", validate_abscissae(&pts).is_ok());
    cover("done");
}

/// Points that are accepted are in order, however many
fn only_ordered() {
    let pts = any_points("points");
    let k = any_place(&pts);
    if validate_abscissae(&pts).is_ok() {
        prove("accepted points increase", pts[k].0 > pts[k - 1].0);
        cover("accepted");
    } else { cover("refused"); }
}

fn only_ordered_dates() {
    let pts = any_date_points("points");
    let k = any_place(&pts);
    if validate_abscissae(&pts).is_ok() {
        prove("accepted dates increase", pts[k].0 > pts[k - 1].0);
        cover("accepted");
    } else { cover("refused"); }
}

fn refuses_nan_bounded() {
    let n = 2 + choose("points", 2);
    let at = choose("at", n);
    let mut pts = few(n);
    pts[at].0 = f64::NAN;
    prove("refused", validate_abscissae(&pts).is_err());
    prove("no linear curve", Linear::<f64>::new(&pts, Extrap::Flat, Extrap::Flat).is_err());
    prove("no spline", CubicSpline::<f64>::new(&pts, Extrap::Flat, Extrap::Flat).is_err());
    cover("done");
}

fn refuses_dates_bounded() {
    let n = choose("points", 4);
    let mut pts = Vec::new();
    let mut good = n > 0;
    for i in 0..n {
        pts.push((any_date("x"), any_f64("y", -2.0, 2.0)));
        if i > 0 && pts[i].0 <= pts[i - 1].0 { good = false }
    }
    prove("accepted exactly when increasing", validate_abscissae(&pts).is_ok() == good);
    cover("done");
}

/// A spline needs two points
fn spline_one_point() {
    let pts = few(1);
    let (l, _) = policy("left");
    let (r, _) = policy("right");
    prove("refused", CubicSpline::<f64>::new(&pts, l, r).is_err());
    cover("done");
}

fn spline_two_bounded() { spline(2); }
fn spline_three_bounded() { spline(3); }
fn spline_four_bounded() { spline(4); }

/// The value at each point, between points and outside
fn spline_query_bounded() {
    let n = 2;
    let pts = few(n);
    let (l, lk) = policy("left");
    let (rt, rk) = policy("right");
    let made = CubicSpline::<f64>::new(&pts, l, rt);
    prove("is accepted", made.is_ok());
    let s = made.unwrap();
    match choose("case", 4) {
        0 => {
            let p = pts[choose("at", n)];
            let r = s.interpolate(p.0);
            prove_eq("the value given at the point", r.unwrap_or(f64::NAN), p.1);
            cover("at");
        }
        1 => {
            let i = choose("between", n - 1);
            let (d, p) = section(&s, pts[i], pts[i + 1]);
            let t = any_f64("t", 0.0, 3.0);
            assume(t > 0.0 && t < 3.0);
            prove_close("cubic", value(&s, pts[i].0 + t * d), cubic(t, p), 100.0);
            cover("between");
        }
        2 => {
            let t = any_f64("t", 0.0, 3.0);
            assume(t > 0.0);
            let (d, p) = section(&s, pts[0], pts[1]);
            let x = pts[0].0 - t * d;
            if lk == 1 { prove_close("continues", value(&s, x), cubic(-t, p), 100.0); }
            else { outside(s.interpolate(x), lk, pts[0].1); }
            cover("left");
        }
        _ => {
            let t = any_f64("t", 0.0, 3.0);
            assume(t > 0.0);
            let (d, p) = section(&s, pts[n - 2], pts[n - 1]);
            let x = pts[n - 1].0 + t * d;
            if rk == 1 { prove_close("continues", value(&s, x), cubic(3.0 + t, p), 100.0); }
            else { outside(s.interpolate(x), rk, pts[n - 1].1); }
            cover("right");
        }
    }
}
}
