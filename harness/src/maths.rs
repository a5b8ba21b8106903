//! Interpolation, root finding, option formula.
use crate::dates::{date, num, V_MAX, V_MIN};
use crate::vp::*;
use quantmath::math::brent::zbrent;
use quantmath::math::interpolation::*;
use quantmath::math::optionpricing::Black76;
use quantmath::core::qm;

pub fn policy(k: usize) -> Extrap {
    match k { 0 => Extrap::Flat, 1 => Extrap::Natural, 2 => Extrap::NotANumber, 3 => Extrap::Zero, _ => Extrap::Throw }
}
/// What a policy other than natural gives beyond an end with value `y`.
fn beyond(r: &Result<f64, qm::Error>, k: usize, y: f64, what: &str) {
    match k {
        0 => match r { Ok(v) => same(*v, y, what), Err(_) => check(false, what) },
        2 => match r { Ok(v) => check(v.is_nan(), what), Err(_) => check(false, what) },
        3 => match r { Ok(v) => same(*v, 0.0, what), Err(_) => check(false, what) },
        _ => check(r.is_err(), what),
    }
}
fn chord(a: (f64, f64), b: (f64, f64), x: f64, v: f64, what: &str) {
    // v on the line through a and b, without dividing
    same((v - a.1) * (b.0 - a.0), (b.1 - a.1) * (x - a.0), what);
}
/// The oracle for linear interpolation over sorted points.
pub fn linear(p: &[(f64, f64)], x: f64, l: usize, r: usize, got: Result<f64, qm::Error>) {
    let n = p.len();
    if x < p[0].0 {
        if l == 1 && n > 1 { match got { Ok(v) => chord(p[0], p[1], x, v, "natural on the left continues the first line"), Err(_) => check(false, "natural on the left gives a value") } }
        else { beyond(&got, l, p[0].1, "policy of the left side"); }
        cover(1);
    } else if x > p[n - 1].0 {
        if r == 1 && n > 1 { match got { Ok(v) => chord(p[n - 2], p[n - 1], x, v, "natural on the right continues the last line"), Err(_) => check(false, "natural on the right gives a value") } }
        else { beyond(&got, r, p[n - 1].1, "policy of the right side"); }
        cover(2);
    } else {
        let v = match got { Ok(v) => v, Err(_) => { check(false, "a value between the points"); return; } };
        for i in 0..n {
            if x == p[i].0 { same(v, p[i].1, "value at a point"); cover(3); return; }
            if i + 1 < n && x > p[i].0 && x < p[i + 1].0 { chord(p[i], p[i + 1], x, v, "value on the line between neighbours"); cover(4); return; }
        }
    }
}
const XN: [&str; 5] = ["x0", "x1", "x2", "x3", "x4"];
const YN: [&str; 5] = ["y0", "y1", "y2", "y3", "y4"];
fn ys(n: usize) -> Vec<f64> { (0..n).map(|i| real(YN[i], -1000.0, 1000.0)).collect() }

// ---- cubics: value and derivatives at the ends from four values at thirds
struct Seg { h: f64, v: [f64; 4] }
impl Seg {
    fn slope0(&self) -> f64 { (-5.5 * self.v[0] + 9.0 * self.v[1] - 4.5 * self.v[2] + self.v[3]) / self.h }
    fn slope1(&self) -> f64 { (-self.v[0] + 4.5 * self.v[1] - 9.0 * self.v[2] + 5.5 * self.v[3]) / self.h }
    fn curve0(&self) -> f64 { 9.0 * (2.0 * self.v[0] - 5.0 * self.v[1] + 4.0 * self.v[2] - self.v[3]) / (self.h * self.h) }
    fn curve1(&self) -> f64 { 9.0 * (-self.v[0] + 4.0 * self.v[1] - 5.0 * self.v[2] + 2.0 * self.v[3]) / (self.h * self.h) }
    /// value of the cubic at u thirds from the left end
    fn at(&self, u: f64) -> f64 {
        let v = &self.v;
        -v[0] * (u - 1.0) * (u - 2.0) * (u - 3.0) / 6.0 + v[1] * u * (u - 2.0) * (u - 3.0) / 2.0
            - v[2] * u * (u - 1.0) * (u - 3.0) / 2.0 + v[3] * u * (u - 1.0) * (u - 2.0) / 6.0
    }
}
fn segments(s: &CubicSpline<f64>, xs: &[f64]) -> Vec<Seg> {
    (0..xs.len() - 1).map(|i| {
        let h = xs[i + 1] - xs[i];
        let f = |k: f64| match s.interpolate(xs[i] + h * k / 3.0) { Ok(v) => v, Err(_) => { check(false, "a value between the points"); 0.0 } };
        // the ends through points just read back, the inside by evaluation
        Seg { h, v: [f(0.0), f(1.0), f(2.0), if i + 2 == xs.len() { f(3.0) } else { match s.interpolate(xs[i + 1]) { Ok(v) => v, Err(_) => 0.0 } }] }
    }).collect()
}
fn knots(k: usize) -> Vec<f64> {
    match k {
        0 => vec![0.0, 3.0],
        1 => vec![0.0, 3.0, 6.0],
        2 => vec![-3.0, 0.0, 1.5, 12.0],
        3 => vec![0.0, 6.0, 7.5, 9.0],
        _ => vec![-6.0, -4.5, 0.0, 0.75, 9.0],
    }
}

/// A function whose values are chosen by the solver: one fresh symbol for each new point asked.
struct Adversary { seen: Vec<(f64, f64)>, lo: f64, hi: f64, inside: bool, given: Vec<f64>, free: usize, choices: i64 }
impl Adversary {
    fn call(&mut self, x: f64) -> f64 {
        if !(x >= self.lo && x <= self.hi) { self.inside = false; }
        for p in &self.seen { if p.0 == x { return p.1; } }
        let k = self.seen.len();
        let name = ["f0", "f1", "f2", "f3", "f4", "f5", "f6"][k];
        let v = if k < self.given.len() { self.given[k] } else if k < self.free { real(name, -100.0, 100.0) } else { [-8.0, -0.01, 0.01, 8.0, -0.5, 0.5][pick(name, self.choices)] };
        self.seen.push((x, v));
        v
    }
}
fn opposite(a: f64, b: f64) -> bool { (a <= 0.0 && b >= 0.0) || (a >= 0.0 && b <= 0.0) }
fn root(lo: f64, hi: f64, tol: f64, iters: u32, adv: &mut Adversary) {
    let r = { let a = &mut *adv; zbrent(lo, hi, tol, iters, &mut |x| Ok(a.call(x))) };
    check(adv.inside, "the function is asked only inside the bracket");
    let bracketed = opposite(adv.seen[0].1, adv.seen[1].1);
    match r {
        Ok(x) => {
            check(bracketed, "no root without a bracket");
            check(x >= adv.lo && x <= adv.hi, "the root lies in the bracket");
            let mut fx = None;
            for p in &adv.seen { if p.0 == x { fx = Some(p.1); } }
            match fx {
                None => check(false, "the root is a point at which the function was asked"),
                Some(fx) => {
                    let mut ok = fx == 0.0;
                    for p in &adv.seen { if opposite(p.1, fx) && (p.0 - x).abs() <= tol * 1.000001 + 1e-9 && p.0 != x { ok = true; } }
                    check(ok, "the function is zero there or changes sign within the tolerance");
                }
            }
            cover(1);
        }
        Err(_) => {
            if !bracketed { cover(2); } else { check(adv.seen.len() as u32 >= iters, "an error for a bracketed root only when the iterations are used up"); cover(3); }
        }
    }
}
fn any_function(iters: u32) {
    let mut adv = Adversary { seen: vec![], lo: 0.0, hi: 1.0, inside: true, given: vec![], free: 9, choices: 0 };
    root(0.0, 1.0, 0.125, iters, &mut adv);
}
/// Values at the ends fixed, the next one any number, then one of a few.
fn fixed_ends(iters: u32, choices: i64) {
    let (a, b) = [(1.0, -1.0), (-1.0, 4.0), (8.0, -1.0)][pick("ends", 3)];
    let (lo, hi) = [(0.0, 1.0), (4.0, -4.0)][pick("bracket", 2)];
    let mut adv = Adversary { seen: vec![(lo, a), (hi, b)], lo: lo.min(hi), hi: lo.max(hi), inside: true, given: vec![], free: 3, choices };
    root(lo, hi, 0.125, iters, &mut adv);
}
/// The first four values given, the next any number.
fn late(iters: u32) {
    let given = match pick("history", 6) {
        0 => vec![-1.073, 1.079, 1.072, 0.6364],
        1 => vec![-1.715, 0.106, 1.0078, 0.4267],
        2 => vec![3.702, -3.716, 2.28, 1.019],
        3 => vec![0.5172, -0.512, -0.3163, -0.1405],
        4 => vec![-1.0, 3.0, 2.5, 2.0],
        _ => vec![4.0, -0.25, 2.0, 0.5],
    };
    let mut adv = Adversary { seen: vec![], lo: 0.0, hi: 1.0, inside: true, given, free: 5, choices: 4 };
    root(0.0, 1.0, 0.001, iters, &mut adv);
}

harnesses! {
    // ------------------------------------------------------------ C06
    h_c06_linear {
        let n = pick("points", 4) + 1;
        let (l, r) = (pick("left", 5), pick("right", 5));
        let y = ys(n);
        let mut p = vec![];
        let mut at = real("x0", -100.0, 100.0);
        for i in 0..n {
            if i > 0 { at += real(["", "gap1", "gap2", "gap3"][i], 0.001, 100.0); }
            p.push((at, y[i]));
        }
        let x = real("x", -500.0, 500.0);
        match Linear::new(&p, policy(l), policy(r)) {
            Ok(c) => linear(&p, x, l, r, c.interpolate(x)),
            Err(_) => check(false, "sorted points are accepted"),
        }
    }
    h_c06_flyweight {
        let n = pick("points", 2) + 2;
        let (l, r) = (pick("left", 5), pick("right", 5));
        let y = ys(n);
        let mut p = vec![];
        let mut at = real("x0", -100.0, 100.0);
        for i in 0..n {
            if i > 0 { at += real(["", "gap1", "gap2", "gap3"][i], 0.001, 100.0); }
            p.push((at, y[i]));
        }
        let x = real("x", -500.0, 500.0);
        linear(&p, x, l, r, FlyweightLinear::new(policy(l), policy(r)).interpolate(x, &p));
    }
    h_c06_dates {
        // dates as abscissae
        let (l, r) = (pick("left", 2), pick("right", 2));
        let y = ys(3);
        let d: Vec<i64> = (0..3).map(|i| int(["d0", "d1", "d2"][i], V_MIN, V_MAX)).collect();
        assume(d[0] < d[1] && d[1] < d[2]);
        let p = [(date(d[0]), y[0]), (date(d[1]), y[1]), (date(d[2]), y[2])];
        let x = int("x", V_MIN, V_MAX);
        // positions relative to the first date keep the arithmetic over small integers
        let q: Vec<(f64, f64)> = (0..3).map(|i| ((d[i] - d[0]) as f64, y[i])).collect();
        match Linear::new(&p, policy(l), policy(r)) {
            Ok(c) => linear(&q, (x - d[0]) as f64, l, r, c.interpolate(date(x))),
            Err(_) => check(false, "sorted dates are accepted"),
        }
    }
    h_c06_invalid {
        let n = pick("points", 4);
        let mut p = vec![];
        for i in 0..n { p.push((real(XN[i], -100.0, 100.0), 0.5)); }
        let mut sorted = n > 0;
        for i in 1..n { if !(p[i].0 - p[i - 1].0 > 1e-12) { sorted = false; } }
        check(Linear::new(&p, Extrap::Flat, Extrap::Flat).is_ok() == sorted, "exactly increasing points are accepted");
        if sorted { cover(1); } else { cover(2); }
        if n == 0 { check(FlyweightLinear::new(Extrap::Flat, Extrap::Flat).interpolate(0.0, &p).is_err(), "no points is an error"); }
    }

    // ------------------------------------------------------------ C07
    h_c07_smooth {
        let xs = knots(pick("knots", 5));
        let n = xs.len();
        let (l, r) = (pick("left", 2), pick("right", 2));
        let y = ys(n);
        let p: Vec<(f64, f64)> = (0..n).map(|i| (xs[i], y[i])).collect();
        let s = match CubicSpline::new(&p, policy(l), policy(r)) { Ok(s) => s, Err(_) => { check(false, "sorted points are accepted"); return; } };
        for i in 0..n { match s.interpolate(xs[i]) { Ok(v) => same(v, y[i], "value at a point"), Err(_) => check(false, "value at a point") } }
        let g = segments(&s, &xs);
        for i in 0..g.len() - 1 {
            same(g[i].slope1(), g[i + 1].slope0(), "slope is continuous");
            same(g[i].curve1(), g[i + 1].curve0(), "curvature is continuous");
        }
        let z = &g[g.len() - 1];
        if l == 1 { same(g[0].curve0(), 0.0, "no curvature at a natural left end"); } else { same(g[0].slope0(), 0.0, "no slope at a flat left end"); }
        if r == 1 { same(z.curve1(), 0.0, "no curvature at a natural right end"); } else { same(z.slope1(), 0.0, "no slope at a flat right end"); }
        // each piece is a cubic, continued outside by the natural policy
        let which = pick("piece", n as i64 + 1);
        if which == 0 {
            let x = real("x", xs[0] - 10.0, xs[0] - 0.001);
            let v = s.interpolate(x);
            if l == 1 { same(v.unwrap_or(1e9), g[0].at((x - xs[0]) * 3.0 / g[0].h), "natural on the left continues the first piece"); }
            else { beyond(&v, l, y[0], "policy of the left side"); }
            cover(2);
        } else if which == n {
            let x = real("x", xs[n - 1] + 0.001, xs[n - 1] + 10.0);
            let v = s.interpolate(x);
            if r == 1 { same(v.unwrap_or(1e9), z.at((x - xs[n - 2]) * 3.0 / z.h), "natural on the right continues the last piece"); }
            else { beyond(&v, r, y[n - 1], "policy of the right side"); }
            cover(3);
        } else {
            let i = which - 1;
            let x = real("x", xs[i], xs[i + 1]);
            same(s.interpolate(x).unwrap_or(1e9), g[i].at((x - xs[i]) * 3.0 / g[i].h), "one cubic between neighbours");
            cover(1);
        }
    }
    h_c07_policies {
        let (l, r) = (pick("left", 5), pick("right", 5));
        let y = ys(3);
        let p = [(0.0, y[0]), (2.0, y[1]), (3.0, y[2])];
        let s = CubicSpline::new(&p, policy(l), policy(r)).expect("sorted points are accepted");
        let x = real("x", -10.0, -0.01);
        if l != 1 { beyond(&s.interpolate(x), l, y[0], "policy of the left side"); } else { check(s.interpolate(x).is_ok(), "natural on the left gives a value"); }
        let x = real("z", 3.01, 10.0);
        if r != 1 { beyond(&s.interpolate(x), r, y[2], "policy of the right side"); } else { check(s.interpolate(x).is_ok(), "natural on the right gives a value"); }
        cover(1);
    }
    h_c07_line {
        let xs = knots(pick("knots", 5));
        let (a, b) = (real("a", -100.0, 100.0), real("b", -100.0, 100.0));
        let p: Vec<(f64, f64)> = xs.iter().map(|&x| (x, a + b * x)).collect();
        let s = CubicSpline::new(&p, Extrap::Natural, Extrap::Natural).expect("sorted points are accepted");
        let x = real("x", -20.0, 20.0);
        same(s.interpolate(x).unwrap_or(1e9), a + b * x, "a straight line is reproduced");
        cover(1);
    }
    h_c07_spacing {
        // three points at any spacing
        let (h, k) = (real("h", 0.1, 10.0), real("k", 0.1, 10.0));
        let y = ys(3);
        let p = [(0.0, y[0]), (h, y[1]), (h + k, y[2])];
        let s = CubicSpline::new(&p, Extrap::Natural, Extrap::Natural).expect("sorted points are accepted");
        let f = |x: f64| s.interpolate(x).unwrap_or(1e9);
        let g0 = Seg { h, v: [f(0.0), f(h / 3.0), f(2.0 * h / 3.0), f(h)] };
        let g1 = Seg { h: k, v: [f(h), f(h + k / 3.0), f(h + 2.0 * k / 3.0), f(h + k)] };
        same(g0.slope1(), g1.slope0(), "slope is continuous");
        same(g0.curve1(), g1.curve0(), "curvature is continuous");
        same(g0.curve0(), 0.0, "no curvature at the left end");
        same(g1.curve1(), 0.0, "no curvature at the right end");
        cover(1);
    }
    h_c07_invalid {
        let n = pick("points", 4);
        let mut p = vec![];
        for i in 0..n { p.push((real(XN[i], -100.0, 100.0), 0.5)); }
        let mut sorted = n > 1;
        for i in 1..n { if !(p[i].0 - p[i - 1].0 > 1e-12) { sorted = false; } }
        check(CubicSpline::new(&p, Extrap::Flat, Extrap::Flat).is_ok() == sorted, "two or more increasing points are accepted, others are an error");
        if sorted { cover(1); } else { cover(2); }
    }

    // ------------------------------------------------------------ C08
    h_c08_one { any_function(1); }
    h_c08_two { any_function(2); }
    h_c08_ends3 { fixed_ends(3, 6); }
    h_c08_ends4 { fixed_ends(4, 4); }
    h_c08_late { late(4); }
    h_c08_line {
        // a straight line: the root itself
        let (slope, at) = (real("slope", 0.1, 10.0), real("root", 0.0, 1.0));
        let mut asked_outside = false;
        let up = flag("rising");
        let r = zbrent(0.0, 1.0, 0.01, 20, &mut |x| {
            if !(x >= 0.0 && x <= 1.0) { asked_outside = true; }
            Ok(if up { slope * (x - at) } else { slope * (at - x) })
        });
        check(!asked_outside, "the function is asked only inside the bracket");
        match r { Ok(x) => check((x - at).abs() <= 0.011, "the root of a line"), Err(_) => check(false, "a line has a root") }
        cover(1);
    }
    h_c08_errors {
        // an error of the function is passed on
        let k = pick("call", 4);
        let mut calls = 0;
        let r = zbrent(0.0, 1.0, 1e-9, 50, &mut |x| { calls += 1; if calls == k + 1 { Err(qm::Error::new("no value")) } else { Ok(x * x * x - 0.3) } });
        check(r.is_err(), "an error of the function is passed on");
        cover(1);
    }

    // ------------------------------------------------------------ C09
    h_c09_parity {
        let b = Black76::new().expect("formula");
        let (f, k) = (real("forward", 0.01, 1000.0), real("strike", 0.01, 1000.0));
        let (df, s) = (real("discount", 0.0, 2.0), real("root of variance", 0.001, 10.0));
        let (c, p) = (b.call_price(df, f, k, s), b.put_price(df, f, k, s));
        same(c - p, df * (f - k), "call less put is the discounted forward less strike");
        check(c <= df * f + 1e-9 && p <= df * k + 1e-9, "a call is worth at most the forward, a put at most the strike");
        cover(1);
    }
    h_c09_formula {
        let b = Black76::new().expect("formula");
        let (f, k) = (real("forward", 0.01, 1000.0), real("strike", 0.01, 1000.0));
        let (df, s) = (real("discount", 0.0, 2.0), real("root of variance", 0.001, 10.0));
        let m = (f / k).ln();
        let (d1, d2) = (m / s + s / 2.0, m / s - s / 2.0);
        same(b.call_price(df, f, k, s), df * (f * b.cdf(d1) - k * b.cdf(d2)), "call formula");
        same(b.put_price(df, f, k, s), df * (k * b.cdf(-d2) - f * b.cdf(-d1)), "put formula");
        cover(1);
    }
    h_c09_cdf {
        let b = Black76::new().expect("formula");
        let (x, y) = (real("x", -40.0, 40.0), real("y", -40.0, 40.0));
        let (p, q) = (b.cdf(x), b.cdf(y));
        check(p >= 0.0 && p <= 1.0, "a probability");
        if x <= y { check(p <= q, "increasing"); }
        same(p + b.cdf(-x), 1.0, "symmetric");
        same(b.cdf(0.0), 0.5, "half at zero");
        same(p, 0.5 * statrs::function::erf::erfc(-x / std::f64::consts::SQRT_2), "the standard normal distribution");
        cover(1);
    }
}
