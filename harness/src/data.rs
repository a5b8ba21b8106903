//! Market data: rate curves, dividends, forwards, fixings, vol surfaces.
use crate::dates::{date, num};
use crate::fix::*;
use crate::maths::{linear, policy};
use crate::vp::*;
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::fixings::*;
use quantmath::data::forward::*;
use quantmath::data::voldecorators::*;
use quantmath::data::volsmile::*;
use quantmath::data::volsurface::*;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::*;
use quantmath::dates::Date;
use quantmath::math::interpolation::*;
use std::sync::Arc;

/// A Monday in 2017; most market data hangs on it.
pub const B: i64 = 17756;

pub fn val<T>(r: Result<T, qm::Error>, what: &str) -> T {
    match r { Ok(v) => v, Err(_) => { check(false, what); unreachable!() } }
}
pub fn curve(c: impl RateCurve + 'static) -> RcRateCurve { Qrc::new(Arc::new(c)) }
/// The same rate at all dates.
pub fn flat_curve(base: i64, r: f64) -> RcRateCurve {
    curve(RateCurveAct365::new(date(base), &[(date(base), r)], Extrap::Flat, Extrap::Flat).expect("one point"))
}
pub fn zero_curve(base: i64) -> RcRateCurve { curve(ZeroRateCurve::new(date(base))) }
fn two_point(base: i64) -> RcRateCurve {
    let p = [(date(base + 10), real("r0", -0.3, 0.3)), (date(base + 500), real("r1", -0.3, 0.3))];
    curve(RateCurveAct365::new(date(base), &p, Extrap::Flat, Extrap::Flat).expect("two points"))
}

// ---- dividends
#[derive(Clone, Copy)]
struct Div { cash: f64, rel: f64, ex: i64, pay: i64 }
fn some_divs(n: usize, relative: bool, lo: i64, hi: i64) -> Vec<Div> {
    let mut v: Vec<Div> = vec![];
    for i in 0..n {
        let ex = B + int(["ex0", "ex1", "ex2"][i], lo, hi);
        if i > 0 { assume(v[i - 1].ex <= ex); }
        let cash = real(["cash0", "cash1", "cash2"][i], 0.01, 10.0);
        let rel = if relative { real(["rel0", "rel1", "rel2"][i], 0.001, 0.1) } else { 0.0 };
        v.push(Div { cash, rel, ex, pay: ex + int(["lag0", "lag1", "lag2"][i], 0, 30) });
    }
    v
}
fn stream(v: &[Div], y: RcRateCurve) -> DividendStream {
    let d: Vec<Dividend> = v.iter().map(|d| Dividend::new(d.cash, d.rel, date(d.ex), date(d.pay))).collect();
    DividendStream::new(&d, y)
}
/// What discounts a payment at a date to day B: rates less borrow.
struct Carry { rate: RcRateCurve, borrow: RcRateCurve }
impl Carry {
    fn log(&self, t: i64) -> f64 { val(self.borrow.rt(date(t)), "rate at a date") - val(self.rate.rt(date(t)), "rate at a date") }
    fn df(&self, t: i64) -> f64 { (self.log(t) - self.log(B)).exp() }
}
fn some_carry() -> Carry {
    Carry { rate: flat_curve(B - 20, real("rate", -0.1, 0.2)), borrow: flat_curve(B - 20, real("borrow", -0.05, 0.05)) }
}
/// Amount and value today of each dividend that is not ex by day B, the relative ones of the forward before them.
fn amounts(v: &[Div], c: &Carry, spot: f64) -> Vec<(Div, f64, f64)> {
    let mut out: Vec<(Div, f64, f64)> = vec![];
    for d in v {
        if d.ex <= B { continue; }
        let mut amount = d.cash;
        if d.rel != 0.0 {
            let mut gone = 0.0;
            for p in &out { if p.0.ex < d.ex { gone += p.2; } }
            amount += d.rel * (spot - gone) / c.df(d.ex);
        }
        let df = c.df(d.pay);
        out.push((*d, amount, amount * df));
    }
    out
}

// ---- vol surfaces
pub fn weekdays() -> RcCalendar { Qrc::new(Arc::new(WeekdayCalendar::new())) }
pub fn at(t: i64, f: f64) -> DateDayFraction { DateDayFraction::new(date(t), f) }
pub fn surface(s: impl VolSurface + 'static) -> RcVolSurface { Qrc::new(Arc::new(s)) }
pub fn level(v: f64) -> Linear<Date> { Linear::new(&[(date(B), v)], Extrap::Flat, Extrap::Flat).expect("one point") }
pub fn slope(a: f64, b: f64) -> Linear<Date> { Linear::new(&[(date(B), a), (date(B + 100), b)], Extrap::Natural, Extrap::Natural).expect("two points") }
fn vol_of(s: &dyn VolSurface, d: DateDayFraction, k: f64) -> Result<(f64, f64), qm::Error> {
    let mut v = [0.0];
    let t = s.volatilities(d, &[k], &mut v)?;
    Ok((v[0], t))
}
fn flat_smiles(n: usize) -> (Vec<f64>, Result<VolByProbabilityFlatSmile, qm::Error>) {
    let v: Vec<f64> = (0..n).map(|i| real(["vol0", "vol1", "vol2"][i], 0.05, 0.8)).collect();
    let s: Vec<_> = (0..n).map(|i| (at(PILLAR[i], 0.75), FlatSmile::new(v[i]).expect("flat"))).collect();
    let r = VolByProbabilityFlatSmile::new(&s, weekdays(), at(B, 0.25), slope(100.0, 110.0), level(0.0), DivAssumptions::NoCashDivs);
    (v, r)
}
const PILLAR: [i64; 3] = [B + 14, B + 70, B + 140];
fn smiles() -> [CubicSplineSmile; 2] {
    [CubicSplineSmile::new(&[(60.0, 0.35), (100.0, 0.25), (150.0, 0.22)]).expect("points"), CubicSplineSmile::new(&[(60.0, 0.36), (100.0, 0.26), (150.0, 0.24)]).expect("points")]
}
fn smile_surface() -> VolByProbabilityCubicSplineSmile {
    let [a, b] = smiles();
    VolByProbabilityCubicSplineSmile::new(&[(at(PILLAR[0], 0.75), a), (at(PILLAR[1], 0.75), b)], weekdays(), at(B, 0.25), slope(100.0, 110.0), level(3.0), DivAssumptions::FixedDivs).expect("surface")
}
/// A surface whose volatility is linear in strike and date, with a forward and a displacement, for the decorators.
#[derive(Debug)]
pub struct Plane { a: f64, k: f64, t: f64, calendar: RcCalendar, forward: Linear<Date> }
impl serde::Serialize for Plane { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
impl quantmath::core::factories::TypeId for Plane { fn get_type_id(&self) -> &'static str { "Plane" } }
impl VolSurface for Plane {
    fn volatilities(&self, d: DateDayFraction, strikes: &[f64], out: &mut [f64]) -> Result<f64, qm::Error> {
        for i in 0..strikes.len() { out[i] = self.a + self.k * strikes[i] + self.t * (num(d.date()) - B) as f64 + 0.01 * d.day_fraction(); }
        Ok(self.calendar.year_fraction(self.base_date(), d))
    }
    fn calendar(&self) -> &RcCalendar { &self.calendar }
    fn base_date(&self) -> DateDayFraction { at(B, 0.25) }
    fn forward(&self) -> Option<&dyn Interpolate<Date>> { Some(&self.forward) }
    fn displacement(&self, d: Date) -> Result<f64, qm::Error> { if num(d) > B + 200 { Err(qm::Error::new("too far")) } else { Ok(3.0 + 0.01 * (num(d) - B) as f64) } }
    fn div_assumptions(&self) -> DivAssumptions { DivAssumptions::FixedDivs }
}
pub fn plane(a: f64) -> RcVolSurface { surface(Plane { a, k: 0.001, t: -0.0002, calendar: weekdays(), forward: slope(100.0, 110.0) }) }
fn base_surface(k: usize) -> RcVolSurface {
    match k {
        0 => surface(FlatVolSurface::new(real("vol", 0.01, 1.0), weekdays(), at(B, 0.25))),
        _ => surface(Plane { a: real("vol", 0.2, 1.0), k: 0.001, t: -0.0002, calendar: weekdays(), forward: slope(100.0, 110.0) }),
    }
}
fn same_shape(a: &dyn VolSurface, b: &dyn VolSurface, forward: bool, base: bool) {
    let d = date(B + 30);
    check(a.calendar().standard_basis() == b.calendar().standard_basis(), "calendar is kept");
    check(a.calendar().is_holiday(date(B + 5)) == b.calendar().is_holiday(date(B + 5)), "calendar is kept");
    check(a.div_assumptions() == b.div_assumptions(), "dividend assumptions are kept");
    if base { check(a.base_date() == b.base_date(), "base date is kept"); }
    if forward {
        match (a.forward(), b.forward()) {
            (None, None) => {}
            (Some(f), Some(g)) => same(val(f.interpolate(d), "forward"), val(g.interpolate(d), "forward"), "forward is kept"),
            _ => check(false, "forward is kept"),
        }
        match (a.displacement(d), b.displacement(d)) { (Ok(x), Ok(y)) => same(x, y, "displacement is kept"), (Err(_), Err(_)) => {}, _ => check(false, "displacement is kept") }
    }
}
fn pos(x: f64) -> f64 { if x > 0.0 { x } else { 0.0 } }

harnesses! {
    // ------------------------------------------------------------ C10
    h_c10_curve {
        let n = pick("points", 3) + 1;
        let (l, r) = (pick("left", 5), pick("right", 5));
        let mut p = vec![]; let mut q = vec![];
        let mut o = int("first", -400, 400);
        for i in 0..n {
            if i > 0 { o += int(["", "gap1", "gap2"][i], 1, 2000); }
            let y = real(["r0", "r1", "r2"][i], -0.5, 0.5);
            p.push((date(B + o), y)); q.push((o as f64, y));
        }
        let c = val(RateCurveAct365::new(date(B), &p, policy(l), policy(r)), "increasing dates are accepted");
        check(c.base_date() == date(B), "base date is kept");
        check(!c.is_zero(), "not the zero curve");
        let k = int("query", -500, 6000);
        let d = date(B + k);
        if k == 0 { same(val(c.rt(d), "rate times time at the base date"), 0.0, "nothing accrues by the base date"); cover(1); return; }
        match c.r_and_t(d) {
            Ok((rate, t)) => {
                same(t * 365.0, k as f64, "time is actual days over 365");
                match c.rt(d) { Ok(x) => if !rate.is_nan() { same(x, rate * t, "rate times time") }, Err(_) => check(false, "rate times time") }
                linear(&q, k as f64, l, r, Ok(rate));
                cover(2);
            }
            Err(e) => { check(c.rt(d).is_err(), "no rate, no rate times time"); linear(&q, k as f64, l, r, Err(e)); cover(3); }
        }
    }
    h_c10_df {
        let k = pick("curve", 6);
        let c = if k == 1 { two_point(B) } else { flat_curve(B - 3, real("rate", -0.3, 0.3)) };
        let y = real("bump", 0.0, 0.1);
        let c: RcRateCurve = match k {
            0 => zero_curve(B),
            1 => c,
            2 => curve(AnnualisedFlatBump::new(c, y)),
            3 => curve(ContinuouslyCompoundedFlatBump::new(c, y)),
            4 => curve(RelativeBump::new(c, y)),
            _ => curve(ContinuouslyCompoundedFlatBump::new(curve(RelativeBump::new(c, y)), y)),
        };
        let d = [date(B + int("d0", 0, 1000)), date(B + int("d1", 0, 1000)), date(B + int("d2", 0, 1000))];
        let f = |i: usize, j: usize| val(c.df(d[i], d[j]), "discount factor");
        same(f(0, 1), (val(c.rt(d[1]), "rate") - val(c.rt(d[0]), "rate")).exp(), "discount factor from the rates");
        same(f(0, 0), 1.0, "one between equal dates");
        if k == 1 { cover(2); return; }
        same(f(0, 1) * f(1, 0), 1.0, "inverse when exchanged");
        same(f(0, 1) * f(1, 2), f(0, 2), "discount factors compose");
        cover(1);
    }
    h_c10_bumps {
        let c = two_point(B);
        let (y, z) = (real("bump", -0.2, 0.2), real("again", -0.2, 0.2));
        let d = date(B + int("d", -100, 1000));
        let (r, t) = val(c.r_and_t(d), "rate");
        let kind = pick("kind", 7);
        let rates = |b: RcRateCurve| {
            check(b.base_date() == c.base_date(), "base date is kept");
            let (rb, tb) = val(b.r_and_t(d), "bumped rate");
            same(tb, t, "time is kept");
            same(val(b.rt(d), "bumped rate"), rb * t, "rate times time");
            rb
        };
        if kind == 0 || kind == 1 || kind == 5 { assume(r.exp() + y > 0.1 && r.exp() + y + z > 0.1); }
        match kind {
            0 => same(rates(curve(AnnualisedFlatBump::new(c.clone(), y))).exp(), r.exp() + y, "annualised yield is shifted"),
            1 => same(rates(BumpYield::new_flat_annualised(y).apply(c.clone())).exp(), r.exp() + y, "annualised yield is shifted"),
            2 => same(rates(curve(ContinuouslyCompoundedFlatBump::new(c.clone(), y))), r + y, "rate is shifted"),
            3 => same(rates(BumpYield::new_flat_continuously_compounded(y).apply(c.clone())), r + y, "rate is shifted"),
            4 => same(rates(curve(RelativeBump::new(c.clone(), y))), r * y, "rate is scaled"),
            5 => same(rates(BumpYield::new_flat_annualised(z).apply(BumpYield::new_flat_annualised(y).apply(c.clone()))).exp(), r.exp() + y + z, "bumps add up"),
            _ => same(rates(BumpYield::new_flat_continuously_compounded(z).apply(BumpYield::new_flat_continuously_compounded(y).apply(c.clone()))), r + y + z, "bumps add up"),
        }
        cover(1);
    }
    h_c10_zero {
        let c = ZeroRateCurve::new(date(B));
        check(c.is_zero() && c.base_date() == date(B), "the zero curve says so");
        same(val(c.rt(date(B + int("d", -1000, 10000))), "rate"), 0.0, "the zero curve is zero");
        check(!curve(ContinuouslyCompoundedFlatBump::new(zero_curve(B), 0.01)).is_zero(), "a bumped curve is not zero");
        cover(1);
    }

    // ------------------------------------------------------------ C11
    h_c11_cash {
        let v = some_divs(pick("dividends", 4), false, -5, 700);
        let c = some_carry();
        let b = val(DividendBootstrap::new(&stream(&v, zero_curve(B)), &*c.rate, &*c.borrow, 100.0, date(B), date(B + 1000)), "dividends in order are accepted");
        check(b.base_date() == date(B), "base date is kept");
        let to = B + int("to", -10, 1000);
        let (mut sum, mut pv, mut after) = (0.0, 0.0, 0.0);
        for (d, a, p) in amounts(&v, &c, 100.0) { if d.ex <= to { sum += a; pv += p; } else { after += p; } }
        same(val(b.undiscounted_sum_from_base(date(to)), "sum"), sum, "cash gone ex since the base date");
        same(val(b.discounted_sum_from_base(date(to)), "sum"), pv, "value of the cash gone ex since the base date");
        same(val(b.discounted_cash_divs_after(date(to)), "cash"), after, "cash still to come");
        if v.len() > 1 { cover(1); }
    }
    h_c11_between {
        let v = some_divs(2, false, -5, 700);
        let c = some_carry();
        let b = val(DividendBootstrap::new(&stream(&v, zero_curve(B)), &*c.rate, &*c.borrow, 100.0, date(B), date(B + 1000)), "dividends in order are accepted");
        let (from, to) = (B + int("from", -10, 1000), B + int("to", -10, 1000));
        let (mut sum, mut pv) = (0.0, 0.0);
        for (d, a, p) in amounts(&v, &c, 100.0) {
            if d.ex > from && d.ex <= to { sum += a; pv += p; cover(1); }
            if d.ex > to && d.ex <= from { sum -= a; pv -= p; cover(2); }
        }
        same(val(b.undiscounted_sum(date(from), date(to)), "sum"), sum, "cash gone ex between the dates");
        same(val(b.discounted_sum(date(from), date(to)), "sum"), pv, "value of the cash gone ex between the dates");
    }
    h_c11_relative {
        let v = some_divs(2, true, 1, 700);
        let c = some_carry();
        let spot = real("spot", 10.0, 1000.0);
        let b = val(DividendBootstrap::new(&stream(&v, zero_curve(B)), &*c.rate, &*c.borrow, spot, date(B), date(B + 1000)), "dividends in order are accepted");
        let to = B + int("to", 0, 1000);
        let (mut sum, mut pv, mut after) = (0.0, 0.0, 0.0);
        for (d, a, p) in amounts(&v, &c, spot) { if d.ex <= to { sum += a; pv += p; } else { after += d.cash * c.df(d.pay); } }
        same(val(b.undiscounted_sum_from_base(date(to)), "sum"), sum, "dividends gone ex since the base date");
        same(val(b.discounted_sum_from_base(date(to)), "sum"), pv, "value of the dividends gone ex since the base date");
        same(val(b.discounted_cash_divs_after(date(to)), "cash"), after, "cash still to come");
        cover(1);
    }
    h_c11_range {
        // as far as stated, or the last cash dividend
        let v = some_divs(2, false, 1, 700);
        let c = some_carry();
        let high = B + int("high", 0, 800);
        let q = B + int("query", 0, 900);
        let b = val(DividendBootstrap::new(&stream(&v, zero_curve(B)), &*c.rate, &*c.borrow, 100.0, date(B), date(high)), "dividends in order are accepted");
        let known = q <= high || q <= v[1].ex;
        check(b.undiscounted_sum_from_base(date(q)).is_ok() == known, "sums are known up to the stated date");
        check(b.discounted_sum_from_base(date(q)).is_ok() == known, "sums are known up to the stated date");
        check(b.discounted_cash_divs_after(date(q)).is_ok() == known, "cash to come is known up to the stated date");
        if known {
            let mut after = 0.0;
            for d in &v { if d.ex > q { after += d.cash * c.df(d.pay); } }
            same(val(b.discounted_cash_divs_after(date(q)), "cash"), after, "cash still to come");
            cover(1);
        } else { cover(2); }
    }
    h_c11_refused {
        let (x, y) = (B + int("ex0", 1, 700), B + int("ex1", 1, 700));
        let c = some_carry();
        let v = [Div { cash: 1.0, rel: 0.0, ex: x, pay: x }, Div { cash: 1.0, rel: 0.0, ex: y, pay: y }];
        let start = B + int("yield", 0, 800);
        let with_yield = flag("with yield");
        let s = stream(&v, if with_yield { flat_curve(start, 0.01) } else { zero_curve(start) });
        let b = DividendBootstrap::new(&s, &*c.rate, &*c.borrow, 100.0, date(B), date(B + 1000));
        check(b.is_ok() == (x <= y && !(with_yield && y > start)), "dividends out of order or overlapping the yield are refused");
        if b.is_ok() { cover(1); } else { cover(2); }
    }
    h_c11_bump {
        let v = some_divs(2, true, -5, 700);
        let c = two_point(B + 800);
        let s = stream(&v, c.clone());
        let bump = real("bump", -0.5, 0.5);
        let (out, last);
        if flag("by bump") {
            let r = BumpDivs::new_all_relative(bump).apply(RcDividendStream::new(Arc::new(s.clone())));
            out = (r.dividends().to_vec(), r.div_yield()); last = r.last_cash_ex_date();
        } else {
            let r = DividendStream::new_bump_all(&s, bump);
            out = (r.dividends().to_vec(), r.div_yield()); last = r.last_cash_ex_date();
        }
        check(out.0.len() == v.len(), "as many dividends");
        for (a, b) in out.0.iter().zip(&v) {
            same(a.cash(), b.cash * (1.0 + bump), "cash is scaled");
            same(a.relative(), b.rel * (1.0 + bump), "relative part is scaled");
            check(a.ex_date() == date(b.ex) && a.pay_date() == date(b.pay), "dates are kept");
        }
        let d = date(B + 800 + int("d", 0, 1000));
        same(val(out.1.rt(d), "yield"), val(c.rt(d), "yield") * (1.0 + bump), "dividend yield is scaled");
        check(last == s.last_cash_ex_date() && last == date(v[1].ex), "last cash date is kept");
        cover(1);
    }

    // ------------------------------------------------------------ C12
    h_c12_forward {
        let v = match pick("dividends", 4) { 3 => some_divs(1, true, 1, 300), n => some_divs(n, false, 1, 300) };
        let c = some_carry();
        let spot = real("spot", 10.0, 1000.0);
        let step = [0, 2][pick("settlement", 2)];
        let f = val(EquityForward::new(date(B), spot, rule(step), c.rate.clone(), c.borrow.clone(), &stream(&v, zero_curve(B)), date(B + 600)), "forward");
        let t = B + int("t", 0, 400);
        let paid = |t: i64| num(rule(step).apply(date(t)));
        let today = spot * c.df(paid(B));
        let (mut gone, mut after) = (0.0, 0.0);
        for (d, _, p) in amounts(&v, &c, today) { if d.ex <= t { gone += p; } else { after += d.cash * c.df(d.pay); } }
        same(val(f.forward(date(t)), "forward"), (today - gone) / c.df(paid(t)), "spot less dividends gone ex, grown to settlement");
        same(val(f.interpolate(date(t)), "forward"), val(f.forward(date(t)), "forward"), "the forward as an interpolator");
        same(val(f.as_interp().interpolate(date(t)), "forward"), val(f.forward(date(t)), "forward"), "the forward as an interpolator");
        same(val(f.fixed_divs_after(date(t)), "cash to come"), after, "cash dividends to come");
        if gone > 0.0 { cover(1); } else { cover(2); }
    }
    h_c12_today {
        let v = some_divs(2, true, -10, 300);
        let c = some_carry();
        let spot = real("spot", 10.0, 1000.0);
        let f = val(EquityForward::new(date(B), spot, rule([0, 2][pick("settlement", 2)]), c.rate.clone(), c.borrow.clone(), &stream(&v, zero_curve(B)), date(B + 600)), "forward");
        same(val(f.forward(date(B)), "forward"), spot, "the forward today is spot");
        cover(1);
    }
    h_c12_curve {
        // a rate curve that bends, no dividends
        let rate = curve(RateCurveAct365::new(date(B), &[(date(B), 0.01), (date(B + 100), real("r1", -0.1, 0.2)), (date(B + 400), real("r2", -0.1, 0.2))], Extrap::Flat, Extrap::Flat).expect("points"));
        let c = Carry { rate, borrow: flat_curve(B - 3, real("borrow", -0.05, 0.05)) };
        let (s0, s1) = (real("spot", 10.0, 1000.0), real("spot2", 10.0, 1000.0));
        let none = stream(&[], zero_curve(B));
        let f = |s: f64| val(EquityForward::new(date(B), s, rule(2), c.rate.clone(), c.borrow.clone(), &none, date(B + 600)), "forward");
        let t = date(B + int("t", 0, 500));
        let (a, b) = (val(f(s0).forward(t), "forward"), val(f(s1).forward(t), "forward"));
        same(a * s1, b * s0, "the forward is proportional to spot");
        same(a, s0 * c.df(num(rule(2).apply(date(B)))) / c.df(num(rule(2).apply(t))), "spot grown from settlement to settlement");
        cover(1);
    }
    h_c12_later {
        // dividends after a date do not matter to the forward at it
        let v = some_divs(2, true, 1, 300);
        let c = some_carry();
        let t = int("t", 0, 300);
        assume(v[1].ex > B + t);
        let f = |v: &[Div]| val(EquityForward::new(date(B), 100.0, rule(2), c.rate.clone(), c.borrow.clone(), &stream(v, zero_curve(B)), date(B + 600)), "forward");
        same(val(f(&v).forward(date(B + t)), "forward"), val(f(&v[..1]).forward(date(B + t)), "forward"), "later dividends do not matter");
        cover(1);
    }
    h_c12_yield {
        let y = real("yield", 0.001, 0.1);
        let c = some_carry();
        let t = B + int("t", 0, 700);
        let f = |y: RcRateCurve| val(EquityForward::new(date(B), 100.0, rule(2), c.rate.clone(), c.borrow.clone(), &stream(&[], y), date(B + 900)), "forward");
        let (with, without) = (val(f(flat_curve(B + 30, y)).forward(date(t)), "forward"), val(f(zero_curve(B)).forward(date(t)), "forward"));
        let pay = num(rule(2).apply(date(t)));
        let e = val(flat_curve(B + 30, y).rt(date(pay)), "yield");
        let diff = (with * (-e).exp() - without) * (with * e.exp() - without);
        same(diff, 0.0, "the dividend yield scales the forward");
        if pay > B + 30 { check(with < without, "a dividend yield lowers the forward"); }
        cover(1);
    }
    h_c12_others {
        let x = real("value", -1000.0, 1000.0);
        let t = date(B + int("t", -100, 5000));
        let f = DriftlessForward::new(x);
        same(val(f.forward(t), "forward"), x, "a driftless forward never moves");
        same(val(f.as_interp().interpolate(t), "forward"), x, "a driftless forward never moves");
        same(val(f.fixed_divs_after(t), "cash"), 0.0, "no dividends");
        let l = slope(100.0, x);
        let g = InterpolatedForward::new(Box::new(l.clone()));
        same(val(g.forward(t), "forward"), val(l.interpolate(t), "curve"), "an interpolated forward is its curve");
        same(val(g.as_interp().interpolate(t), "forward"), val(l.interpolate(t), "curve"), "an interpolated forward is its curve");
        cover(1);
    }

    // ------------------------------------------------------------ C13
    h_c13_lookup {
        let tod = |k: usize| match k { 0 => TimeOfDay::Open, 1 => TimeOfDay::EDSP, _ => TimeOfDay::Close };
        let (d0, d1, e0) = (B + int("d0", -20, 5), B + int("d1", -20, 5), B + int("e0", -20, 5));
        let (t0, t1, u0) = (pick("t0", 3), pick("t1", 3), pick("u0", 3));
        let (x0, x1, y0) = (real("x0", -10.0, 10.0), real("x1", -10.0, 10.0), real("y0", -10.0, 10.0));
        assume(d0 != d1 || t0 != t1);
        let when = |d: i64, t: usize| DateTime::new(date(d), tod(t));
        let known = B + int("known", -20, 5);
        let (a, b) = ([(when(d0, t0), x0), (when(d1, t1), x1)], [(when(e0, u0), y0)]);
        let table = val(if flag("by iterator") { FixingTable::from_iter_known_until(date(known), vec![("A", &a[..]), ("B", &b[..])]) } else { FixingTable::from_fixings(date(known), &[("A", &a), ("B", &b)]) }, "distinct fixings are accepted");
        check(table.fixings_known_until() == date(known), "the known date is kept");
        let (q, tq) = (B + int("q", -20, 5), pick("tq", 3));
        let id = ["A", "B", "C"][pick("id", 3)];
        let want = match id {
            "A" => if q == d0 && tq == t0 { Some(x0) } else if q == d1 && tq == t1 { Some(x1) } else { None },
            "B" => if q == e0 && tq == u0 { Some(y0) } else { None },
            _ => None,
        };
        let opt = table.get_optional(id, when(q, tq));
        match (table.get(id, when(q, tq)), want) {
            (Ok(Some(x)), Some(y)) => { same(x, y, "the stored fixing"); same(opt.unwrap_or(1e9), y, "the stored fixing, if any"); cover(1); }
            (Err(_), None) => { check(q < known, "an error only for a missing fixing in the past"); check(opt.is_none(), "no fixing"); cover(2); }
            (Ok(None), None) => { check(q >= known, "unknown only from the known date on"); check(opt.is_none(), "no fixing"); cover(3); }
            _ => check(false, "a fixing exactly where one was stored"),
        }
        check(table.get_fixings(id).is_some() == (id != "C"), "fixings of the instruments given");
    }
    h_c13_duplicates {
        let (d0, d1) = (B + int("d0", -20, 5), B + int("d1", -20, 5));
        let (t0, t1) = (pick("t0", 3), pick("t1", 3));
        let tod = |k: usize| match k { 0 => TimeOfDay::Open, 1 => TimeOfDay::EDSP, _ => TimeOfDay::Close };
        let f = [(DateTime::new(date(d0), tod(t0)), 1.0), (DateTime::new(date(d1), tod(t1)), 2.0)];
        check(Fixings::new("A", &f).is_ok() == (d0 != d1 || t0 != t1), "two fixings at one time are refused");
        let again = flag("again");
        let r = FixingTable::from_fixings(date(B), &[("A", &f[..1]), (if again { "A" } else { "B" }, &f[1..])]);
        check(r.is_ok() == !again, "two curves for one instrument are refused");
        let r = FixingTable::from_iter_known_until(date(B), vec![("A", &f[..1]), (if again { "A" } else { "B" }, &f[1..])]);
        check(r.is_ok() == !again, "two curves for one instrument are refused");
        // of four curves, any two may be of one instrument
        let mut ids = ["A", "B", "C", "D"];
        let (i, j) = (pick("one", 4), pick("other", 4));
        ids[i] = ids[j];
        let curves: Vec<(&str, &[(DateTime, f64)])> = ids.iter().map(|id| (*id, &f[..1])).collect();
        check(FixingTable::from_fixings(date(B), &curves).is_ok() == (i == j), "two curves for one instrument are refused");
        check(FixingTable::from_iter_known_until(date(B), curves).is_ok() == (i == j), "two curves for one instrument are refused");
        cover(1);
    }

    // ------------------------------------------------------------ C14
    h_c14_flat {
        let vol = real("vol", 0.0, 2.0);
        let s = FlatVolSurface::new(vol, weekdays(), at(B, 0.25));
        let (a, b) = (at(B + int("from", -5, 500), real("ffrom", 0.0, 0.999)), at(B + int("to", 0, 500), real("fto", 0.0, 0.999)));
        let (ta, tb) = (weekdays().year_fraction(at(B, 0.25), a), weekdays().year_fraction(at(B, 0.25), b));
        let (v, t) = val(vol_of(&s, b, 100.0), "volatility");
        same(v, vol, "flat"); same(t, tb, "vol time");
        same(val(s.vol_time(b), "vol time"), tb, "vol time");
        let mut out = [0.0; 3];
        val(s.variances(b, &[50.0, 100.0, 150.0], &mut out), "variances");
        for x in &out { same(*x, vol * vol * tb, "variance is vol squared times vol time"); }
        same(val(s.variance(b, 70.0), "variance"), vol * vol * tb, "variance is vol squared times vol time");
        let fwd = s.forward_variance(a, b, 100.0);
        if a <= at(B, 0.25) { same(val(fwd, "variance"), vol * vol * tb, "variance from the base date"); cover(1); }
        else {
            let want = vol * vol * (tb - ta);
            match fwd { Ok(x) => { same(x, want, "forward variance is the difference"); check(want >= -1e-9, "forward variance is not negative"); cover(2); } Err(_) => check(want < 0.0, "an error only for negative variance") }
        }
        let z = val(s.forward_variance(b, b, 100.0), "forward variance");
        if b > at(B, 0.25) { same(z, 0.0, "nothing over an empty interval"); }
    }
    h_c14_add {
        let vol = real("vol", 0.0, 2.0);
        let s = FlatVolSurface::new(vol, weekdays(), at(B, 0.25));
        let d = [at(B + int("d0", 1, 500), 0.5), at(B + int("d1", 1, 500), 0.5), at(B + int("d2", 1, 500), 0.5)];
        assume(d[0] <= d[1] && d[1] <= d[2]);
        let f = |i: usize, j: usize| val(s.forward_variance(d[i], d[j], 100.0), "forward variance");
        same(f(0, 1) + f(1, 2), f(0, 2), "forward variance adds over adjoining intervals");
        same(val(s.variance(d[0], 90.0), "variance") + f(0, 1), val(s.variance(d[1], 90.0), "variance"), "variance and forward variance add");
        cover(1);
    }
    h_c14_pillars {
        let (v, s) = flat_smiles(3);
        let base = at(B, 0.25);
        let time = |d: DateDayFraction| weekdays().year_fraction(base, d);
        let tp: Vec<f64> = (0..3).map(|i| time(at(PILLAR[i], 0.75))).collect();
        let var: Vec<f64> = (0..3).map(|i| v[i] * v[i] * tp[i]).collect();
        let s = match s { Ok(s) => s, Err(_) => { check(var[0] > var[1] || var[1] > var[2], "refused only where variance falls"); cover(1); return; } };
        check(var[0] <= var[1] + 1e-9 && var[1] <= var[2] + 1e-9, "falling variance is refused");
        let (q, fq) = (B + int("q", 1, 300), real("fq", 0.0, 0.999));
        let d = at(q, fq);
        let (x, t) = val(vol_of(&s, d, real("strike", 10.0, 1000.0)), "volatility");
        same(t, time(d), "vol time from the base date");
        same(val(s.vol_time(d), "vol time"), t, "vol time from the base date");
        for i in 0..3 { if d == at(PILLAR[i], 0.75) { same(x, v[i], "the smile's own volatility at its date"); cover(2); return; } }
        if d < at(PILLAR[0], 0.75) { same(x, v[0], "the first smile before the first date"); cover(3); }
        else if d > at(PILLAR[2], 0.75) { same(x, v[2], "the last smile after the last date"); cover(4); }
    }
    h_c14_between {
        // dates between smiles, around them and in the week
        let (v, s) = flat_smiles(3);
        let base = at(B, 0.25);
        let time = |d: DateDayFraction| weekdays().year_fraction(base, d);
        let tp: Vec<f64> = (0..3).map(|i| time(at(PILLAR[i], 0.75))).collect();
        let var: Vec<f64> = (0..3).map(|i| v[i] * v[i] * tp[i]).collect();
        let s = match s { Ok(s) => s, Err(_) => { check(var[0] > var[1] || var[1] > var[2], "refused only where variance falls"); cover(1); return; } };
        let i = pick("smile", 2);
        let n = pick("day", 12) as i64;
        let q = if n < 9 { PILLAR[i] + n } else { PILLAR[i + 1] - 3 * (n - 9) };
        let d = at(q, real("fq", 0.0, 0.999));
        assume(d > at(PILLAR[i], 0.75) && d < at(PILLAR[i + 1], 0.75));
        let (x, t) = val(vol_of(&s, d, real("strike", 10.0, 1000.0)), "volatility");
        same(t, time(d), "vol time from the base date");
        {
            same(x * x * t * (tp[i + 1] - tp[i]), var[i] * (tp[i + 1] - t) + var[i + 1] * (t - tp[i]), "variance is linear in vol time between smiles");
            cover(2);
        }
    }
    h_c14_moneyness {
        let (s, sm) = (smile_surface(), smiles());
        let base = at(B, 0.25);
        let time = |d: DateDayFraction| weekdays().year_fraction(base, d);
        let fwd = slope(100.0, 110.0);
        let f = |d: DateDayFraction| val(fwd.interpolate(d.date()), "forward");
        let vol = |i: usize, k: f64| { let mut v = [0.0]; val(sm[i].volatilities(&[k], &mut v), "smile"); v[0] };
        let pd = [at(PILLAR[0], 0.75), at(PILLAR[1], 0.75)];
        let tp = [time(pd[0]), time(pd[1])];
        let atm = [vol(0, f(pd[0])), vol(1, f(pd[1]))];
        let var = [atm[0] * atm[0] * tp[0], atm[1] * atm[1] * tp[1]];
        let k = real("strike", 80.0, 125.0);
        let which = pick("where", 5);
        let d = [pd[0], pd[1], at(B + 40, 0.5), at(B + 5, 0.5), at(B + 100, 0.5)][which];
        let got = vol_of(&s, d, k);
        let t = time(d);
        match which {
            0 | 1 => { let (x, u) = val(got, "volatility"); same(x, vol(which, k), "the smile's own volatility at its date"); same(u, t, "vol time"); cover(1); }
            2 => {
                let w = (t - tp[0]) / (tp[1] - tp[0]);
                let m = (k / f(d)).ln() / (var[0] * (1.0 - w) + var[1] * w).sqrt();
                let side = |i: usize| { let x = vol(i, (m * var[i].sqrt()).exp() * f(pd[i])); x * x * tp[i] };
                let (l, r) = (side(0), side(1));
                match got {
                    Ok((x, u)) => { same(x * x * t, l * (1.0 - w) + r * w, "variance is linear in vol time at equal moneyness"); same(u, t, "vol time"); cover(2); }
                    Err(_) => check(l > r - 1e-9, "an error only where variance falls"),
                }
            }
            _ => {
                let i = if which == 3 { 0 } else { 1 };
                let m = (k / f(d)).ln() / t.sqrt();
                let (x, u) = val(got, "volatility");
                same(x, vol(i, (m * tp[i].sqrt()).exp() * f(pd[i])), "the end smile at equal moneyness");
                same(u, t, "vol time"); cover(3);
            }
        }
        check(s.div_assumptions() == DivAssumptions::FixedDivs, "dividend assumptions are kept");
        same(val(s.displacement(date(B + 50)), "displacement"), 3.0, "cash to come displaces");
    }
    h_c14_forward_smile {
        // forward variance on a surface with a smile
        let s = smile_surface();
        let fwd = slope(100.0, 110.0);
        let (a, b) = ([at(PILLAR[0], 0.75), at(B + 5, 0.5), at(B, 0.25)][pick("from", 3)], [at(PILLAR[1], 0.75), at(PILLAR[0], 0.75), at(B + 100, 0.5)][pick("to", 3)]);
        let k = real("strike", 80.0, 120.0);
        let atm = |d: DateDayFraction| s.variance(d, fwd.interpolate(d.date())?);
        let got = s.forward_variance(a, b, k);
        if a <= at(B, 0.25) {
            match (got, s.variance(b, k)) { (Ok(x), Ok(y)) => { same(x, y, "variance from the base date"); cover(1); } (Err(_), Err(_)) => {}, _ => check(false, "variance from the base date") }
            return;
        }
        let sd = s.find_smile_date(a, b);
        let days = weekdays().count_business_days(a.date(), a.day_fraction(), b.date(), b.day_fraction());
        check(sd == DateDayFraction::new(weekdays().step_partial(date(B), days, true), b.day_fraction()), "the smile of an interval as long from the base date");
        let (va, vb, vs, vk) = (atm(a), atm(b), atm(sd), s.variance(sd, k));
        match (got, va, vb, vs, vk) {
            (Ok(x), Ok(va), Ok(vb), Ok(vs), Ok(vk)) => {
                same(x - (vk - vs), vb - va, "at the money the forward variance is the difference of the variances");
                check(x >= -1e-9 && vb - va >= -1e-9, "forward variance is not negative");
                cover(2);
            }
            (Err(_), Ok(va), Ok(vb), Ok(vs), Ok(vk)) => check(vb - va < 1e-9 || vk - vs + vb - va < 1e-9, "an error only for negative variance"),
            (Ok(_), ..) => check(false, "no forward variance without the variances"),
            _ => {}
        }
    }
    h_c14_displacement {
        let k = pick("assumption", 4);
        let a = match k { 0 => DivAssumptions::NoCashDivs, 1 => DivAssumptions::IndependentLogNormals, 2 => DivAssumptions::FixedDivs, _ => DivAssumptions::JumpDivs };
        let x = real("divs", 0.0, 10.0);
        let s = val(VolByProbabilityFlatSmile::new(&[(at(B + 14, 0.75), FlatSmile::new(0.25).expect("flat"))], weekdays(), at(B, 0.25), level(100.0), level(x), a), "surface");
        let r = s.displacement(date(B + 50));
        match k { 0 | 1 => same(val(r, "displacement"), 0.0, "no displacement"), 2 => same(val(r, "displacement"), x, "cash to come displaces"), _ => check(r.is_err(), "jumps need more care") }
        check(s.div_assumptions() == a, "dividend assumptions are kept");
        let none: [(DateDayFraction, FlatSmile); 0] = [];
        check(VolByProbabilityFlatSmile::new(&none, weekdays(), at(B, 0.25), level(100.0), level(x), a).is_err(), "no smiles is an error");
        cover(1);
    }

    // ------------------------------------------------------------ C15
    h_c15_parallel {
        let base = base_surface(pick("surface", 2));
        let bump = real("bump", -0.5, 0.5);
        let d = at(B + int("d", 1, 100), 0.5);
        let k = real("strike", 70.0, 140.0);
        let s: RcVolSurface = if flag("by bump") { BumpVol::new_flat_additive(bump).apply(base.clone()) } else { surface(ParallelBumpVol::new(base.clone(), bump)) };
        let (v, t) = val(vol_of(&*base, d, k), "volatility");
        let (x, u) = val(vol_of(&*s, d, k), "volatility");
        same(x, pos(v + bump), "volatility is shifted, not below zero");
        same(u, t, "vol time is kept");
        same_shape(&*s, &*base, true, true);
        cover(1);
    }
    h_c15_scaled {
        let base = base_surface(pick("surface", 2));
        let (bump, floor) = (real("bump", -0.5, 0.5), real("floor", 0.01, 0.2));
        let d = at(B + int("d", 1, 100), 0.5);
        let k = real("strike", 70.0, 140.0);
        let s: RcVolSurface = if flag("by bump") { BumpVol::new_time_scaled(bump, floor).apply(base.clone()) } else { surface(TimeScaledBumpVol::new(base.clone(), bump, floor)) };
        let (v, t) = val(vol_of(&*base, d, k), "volatility");
        let (x, u) = val(vol_of(&*s, d, k), "volatility");
        let m = if t > floor { t } else { floor };
        same(x, pos(v + bump / m.sqrt()), "volatility is shifted by the scaled bump, not below zero");
        same(u, t, "vol time is kept");
        same_shape(&*s, &*base, true, true);
        if t > floor { cover(1); } else { cover(2); }
    }
    h_c15_replace {
        let base = base_surface(pick("surface", 2));
        let vol = real("new", 0.0, 1.0);
        let s = BumpVol::new_replace(vol).apply(base.clone());
        let d = at(B + int("d", 1, 400), 0.5);
        let (x, t) = val(vol_of(&*s, d, real("strike", 1.0, 1000.0)), "volatility");
        same(x, vol, "volatility is replaced");
        same(t, weekdays().year_fraction(at(B, 0.25), d), "vol time is kept");
        check(s.base_date() == base.base_date(), "base date is kept");
        cover(1);
    }
    h_c15_sticky {
        let base = base_surface(pick("surface", 2));
        let new = real("forward", 50.0, 200.0);
        let d = at(B + int("d", 1, 100), 0.5);
        let k = real("strike", 70.0, 140.0);
        let s = StickyDeltaBumpVol::new(base.clone(), Arc::new(DriftlessForward::new(new)));
        let got = vol_of(&s, d, k);
        let old = base.forward().map(|f| val(f.interpolate(d.date()), "forward"));
        let kk = match old { Some(f) => k * f / new, None => k };
        match (got, vol_of(&*base, d, kk)) {
            (Ok((x, u)), Ok((v, t))) => { same(x, v, "volatility of the same moneyness"); same(u, t, "vol time is kept"); cover(1); }
            (Err(_), Err(_)) => cover(2),
            (Err(_), Ok(_)) => check(false, "no volatility where there was one"),
            (Ok(_), Err(_)) => check(false, "a volatility where there was none"),
        }
        same_shape(&s, &*base, false, true);
        if base.forward().is_some() {
            match s.forward() { Some(f) => same(val(f.interpolate(d.date()), "forward"), new, "the forward is the new one"), None => check(false, "the forward is the new one") }
            same(val(s.displacement(d.date()), "displacement"), 0.0, "displacement of the new forward");
        }
    }
    h_c15_constant_expiry {
        let mut s = base_surface(pick("surface", 2));
        let base = s.clone();
        let spot = B + int("spot", 0, 60);
        val(VolTimeDynamics::ConstantExpiry.modify(&mut s, date(spot)), "evolution");
        let d = at(B + int("d", 1, 100), 0.5);
        let k = real("strike", 70.0, 140.0);
        let (v, t) = val(vol_of(&*base, d, k), "volatility");
        let (x, u) = val(vol_of(&*s, d, k), "volatility");
        same(x, v, "volatility at an expiry is kept");
        let off = weekdays().year_fraction(at(B, 0.25), at(spot, 0.0));
        if spot == B || (off < 1e-12 && off > -1e-12) {
            same(u, t, "no evolution over no time"); check(s.base_date() == base.base_date(), "base date is kept"); cover(1);
        } else {
            same(u, pos(t - off), "vol time counts from the new date"); check(s.base_date() == at(spot, 0.0), "the new base date"); cover(2);
        }
        same_shape(&*s, &*base, true, false);
    }
    h_c15_rolling {
        let mut s = base_surface(pick("surface", 2));
        let base = s.clone();
        let days = pick("weeks", 3) as i64 * 7 + pick("days", 5) as i64;
        let spot = B + days;
        val(VolTimeDynamics::RollingExpiry.modify(&mut s, date(spot)), "evolution");
        let d = spot + int("d", 1, 60);
        let k = real("strike", 70.0, 140.0);
        let off = weekdays().year_fraction(at(B, 0.25), at(spot, 0.0)) * 252.0;
        let moved = days != 0;
        let back = if moved { num(weekdays().step_partial(date(d), -off, -off >= 0.0)) } else { d };
        let (v, t) = val(vol_of(&*base, at(back, 0.5), k), "volatility");
        let (x, u) = val(vol_of(&*s, at(d, 0.5), k), "volatility");
        same(x, v, "volatility rolls with the date");
        same(u, pos(t), "vol time rolls with the date");
        check(s.base_date() == if moved { at(spot, 0.0) } else { base.base_date() }, "the new base date");
        same_shape(&*s, &*base, true, false);
        cover(1);
    }
    h_c15_zero {
        let base = base_surface(pick("surface", 2));
        let d = at(B + int("d", 1, 100), 0.5);
        let k = real("strike", 70.0, 140.0);
        let (v, t) = val(vol_of(&*base, d, k), "volatility");
        let s: RcVolSurface = match pick("bump", 4) {
            0 => BumpVol::new_flat_additive(0.0).apply(base.clone()),
            1 => BumpVol::new_time_scaled(0.0, 0.1).apply(base.clone()),
            2 => { let mut s = base.clone(); val(VolForwardDynamics::StickyStrike.modify(&mut s, &|| Err(qm::Error::new("not needed"))), "sticky strike"); s }
            _ => { let mut s = base.clone(); val(VolForwardDynamics::StickyDelta.modify(&mut s, &|| Ok(Arc::new(InterpolatedForward::new(Box::new(slope(100.0, 110.0)))))), "sticky delta"); s }
        };
        let (x, u) = val(vol_of(&*s, d, k), "volatility");
        same(x, v, "a zero bump changes nothing"); same(u, t, "a zero bump changes nothing");
        cover(1);
    }
    h_c15_dynamics {
        check(VolForwardDynamics::StickyDelta.depends_on_forward() && !VolForwardDynamics::StickyStrike.depends_on_forward(), "only sticky delta depends on the forward");
        let base = base_surface(pick("surface", 2));
        let new = real("forward", 50.0, 200.0);
        assume(new <= 99.99 || new >= 100.01);
        let mut s = base.clone();
        val(VolForwardDynamics::StickyDelta.modify(&mut s, &|| Ok(Arc::new(DriftlessForward::new(new)))), "sticky delta");
        let d = at(B + 30, 0.5);
        let k = real("strike", 90.0, 110.0);
        let want = StickyDeltaBumpVol::new(base.clone(), Arc::new(DriftlessForward::new(new)));
        match (vol_of(&*s, d, k), vol_of(&want, d, k)) {
            (Ok((x, u)), Ok((v, t))) => { same(x, v, "volatility of the same moneyness"); same(u, t, "vol time is kept"); cover(1); }
            (Err(_), Err(_)) => {}
            _ => check(false, "volatility of the same moneyness"),
        }
        let mut s = base.clone();
        val(VolForwardDynamics::StickyStrike.modify(&mut s, &|| Ok(Arc::new(DriftlessForward::new(new)))), "sticky strike");
        same(val(vol_of(&*s, d, k), "volatility").0, val(vol_of(&*base, d, k), "volatility").0, "volatility at a strike is kept");
    }
}
