//! Risk reports, time bumps, option values, fixing and positions.
use crate::data::*;
use crate::dates::date;
use crate::fix::*;
use crate::risk::*;
use crate::vp::*;
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::core::dedup::InstanceId;
use quantmath::core::qm;
use quantmath::data::bump::*;
use quantmath::data::bumpspotdate::*;
use quantmath::data::fixings::*;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::volsurface::*;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::*;
use quantmath::instruments::assets::*;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::pricers::selfpricer::*;
use quantmath::risk::bumptime::*;
use quantmath::risk::deltagamma::*;
use quantmath::risk::dependencies::*;
use quantmath::risk::marketdata::*;
use quantmath::risk::timebumped::*;
use quantmath::risk::vegavolga::*;
use quantmath::risk::*;
use quantmath::solvers::impliedvol::ImpliedVol;
use quantmath::solvers::OneDimensionalSolver;
use std::sync::Arc;

/// An instrument worth a given function of two spots and two variances.
#[derive(Debug)]
struct Formula { a: RcInstrument, b: RcInstrument, c: [f64; 6] }
impl serde::Serialize for Formula { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
impl TypeId for Formula { fn get_type_id(&self) -> &'static str { "Formula" } }
impl InstanceId for Formula { fn id(&self) -> &str { "formula" } }
impl Instrument for Formula {
    fn payoff_currency(&self) -> &Currency { self.a.payoff_currency() }
    fn credit_id(&self) -> &str { "X" }
    fn settlement(&self) -> &RcDateRule { self.a.settlement() }
    fn dependencies(&self, c: &mut dyn DependencyContext) -> SpotRequirement {
        for i in [&self.a, &self.b].iter() { c.spot(i); c.forward_curve(i, date(END)); c.vol_surface(i, date(END)); }
        SpotRequirement::NotRequired
    }
    fn as_priceable(&self) -> Option<&dyn Priceable> { Some(self) }
}
impl Formula {
    fn value(&self, s: [f64; 2], v: [f64; 2]) -> f64 {
        let c = &self.c;
        c[0] * s[0] + c[1] * s[0] * s[0] + c[2] * s[0] * s[1] + c[3] * s[1] * s[1] * s[1] + c[4] * v[0] * s[1] + c[5] * v[1] + v[0] * v[1]
    }
    fn variance(&self, c: &dyn PricingContext, i: &RcInstrument) -> Result<f64, qm::Error> {
        c.vol_surface(&**i, date(END), &|| c.forward_curve(&**i, date(END)))?.variance(at(END, 0.5), 100.0)
    }
}
impl Priceable for Formula {
    fn as_instrument(&self) -> &dyn Instrument { self }
    fn prices(&self, c: &dyn PricingContext, _d: &[DateTime], out: &mut [f64]) -> Result<(), qm::Error> {
        let s = [c.spot("A")?, c.spot("B")?];
        let v = [self.variance(c, &self.a)?, self.variance(c, &self.b)?];
        for o in out.iter_mut() { *o = self.value(s, v); }
        Ok(())
    }
}
fn formula() -> Formula {
    let c = [real("c0", -10.0, 10.0), real("c1", -1.0, 1.0), real("c2", -1.0, 1.0), 0.01, real("c4", 1.0, 10.0), real("c5", 1.0, 100.0)];
    Formula { a: stock("A", "X"), b: stock("B", "Y"), c }
}
pub fn pricer(parts: Vec<(f64, RcInstrument)>, data: &MarketData) -> SelfPricer { val(SelfPricer::new(parts, data), "a pricer") }


fn vega(strict: bool) {
    // vega and volga, any formula increasing in volatility
    let f = formula();
    let mut inp = inputs(false);
    inp.vols.insert("B".to_string(), surface(FlatVolSurface::new(real("vol B", 0.2, 0.5), weekdays(), at(B, 0.25))));
    let data = inp.data();
    let scaled = flag("scaled by time");
    let (h, w) = (real("bump", 0.001, 0.05), real("weight", 0.1, 5.0));
    let bump = |h: f64| if scaled { BumpVol::new_time_scaled(h, 0.25) } else { BumpVol::new_flat_additive(h) };
    let value = |i: usize, h: f64| {
        let mut moved = inp.clone();
        let id = ["A", "B"][i].to_string();
        moved.vols.insert(id.clone(), bump(h).apply(inp.vols[&id].clone()));
        w * val(f.price(&moved.data(), when(B, OPEN)), "price")
    };
    let mut p = pricer(vec![(w, rc(Formula { a: f.a.clone(), b: f.b.clone(), c: f.c }))], &data);
    let base = val(p.price(), "price");
    let mut save = p.new_saveable();
    let report = val(VegaVolgaReportGenerator::new(bump(h)).generate(&mut p, &mut *save, base), "report");
    let r = report.as_any().downcast_ref::<VegaVolgaReport>().expect("kind of report").results();
    check(r.len() == 2, "one result for each underlying");
    for i in 0..2 {
        let x = r.get(["A", "B"][i]);
        check(x.is_some(), "each underlying has a result");
        let x = x.expect("result");
        // the differences say what the bumped prices were
        let (first, second) = (x.vega() * h, x.volga() * h * h / 2.0);
        same(base + first + second, value(i, h), "vega and volga use the price at the higher volatility");
        let down = base - first + second;
        if strict { same(down, value(i, -h), "vega and volga use the price at the equally lower volatility"); }
        else {
            check(down >= value(i, -h) - 1e-6, "vega and volga use the price at a lower volatility");
            check(down <= value(i, -h + 2.0 * h * h) + 1e-6, "vega and volga use the price at a lower volatility");
        }
    }
    same(val(p.price(), "price"), base, "the price afterwards");
    left_empty(&mut p, &*save, |id| Bump::new_vol(id, BumpVol::new_flat_additive(0.125)));
    cover(1);
}
/// What is left in a saved state would come back after another bump.
fn left_empty(p: &mut SelfPricer, save: &dyn Saveable, bump: impl Fn(&str) -> Bump) {
    for id in ["A", "B"].iter() { val(p.bump(&bump(id), None), "a bump"); }
    let moved = val(p.price(), "price");
    val(p.restore(save), "restoring");
    same(val(p.price(), "price"), moved, "nothing is left in the saved state");
}

/// An instrument worth a linear function of the volatilities of its underlyings, with no value beyond a limit.
#[derive(Debug)]
struct Line { on: Vec<RcInstrument>, c: [f64; 2], limit: f64 }
impl serde::Serialize for Line { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
impl TypeId for Line { fn get_type_id(&self) -> &'static str { "Line" } }
impl InstanceId for Line { fn id(&self) -> &str { "line" } }
impl Instrument for Line {
    fn payoff_currency(&self) -> &Currency { panic!("not asked") }
    fn credit_id(&self) -> &str { "X" }
    fn settlement(&self) -> &RcDateRule { panic!("not asked") }
    fn dependencies(&self, c: &mut dyn DependencyContext) -> SpotRequirement {
        for i in self.on.iter() { c.spot(i); c.forward_curve(i, date(END)); c.vol_surface(i, date(END)); }
        SpotRequirement::NotRequired
    }
    fn as_priceable(&self) -> Option<&dyn Priceable> { Some(self) }
}
impl Priceable for Line {
    fn as_instrument(&self) -> &dyn Instrument { self }
    fn prices(&self, c: &dyn PricingContext, _d: &[DateTime], out: &mut [f64]) -> Result<(), qm::Error> {
        let mut sum = self.c[0];
        for (n, i) in self.on.iter().enumerate() {
            let mut v = [0.0; 2];
            // a replaced surface has no skew and no term structure
            let s = c.vol_surface(&**i, date(END), &|| c.forward_curve(&**i, date(END)))?;
            s.volatilities(at(B + 30, 0.5), &[80.0], &mut v[..1])?;
            s.volatilities(at(END, 0.5), &[120.0], &mut v[1..])?;
            if v[0] > self.limit { return Err(qm::Error::new("too volatile")); }
            sum += self.c[1] * (v[0] + v[1]) / 2.0 * (n as f64 + 1.0);
        }
        for o in out.iter_mut() { *o = sum; }
        Ok(())
    }
}

fn dynamics(sticky: bool) -> SpotDynamics { if sticky { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot } }
const TO: [i64; 6] = [0, 1, 3, 4, 31, 40];
/// Struck when the market opens.
fn opening(id: &str, on: RcInstrument, strike: i64, expiry: i64, fraction: f64) -> ForwardStartingEuropean {
    val(ForwardStartingEuropean::new(id, "X", on, rule(2), when(expiry, CLOSE), fraction, when(strike, OPEN), PutOrCall::Put, OptionSettlement::Cash), "an option")
}
/// A position that observes A and B at several dates, a date to move to, and whether the forward is sticky.
fn rolling() -> (Vec<(f64, RcInstrument)>, Inputs, i64, bool) {
    let w = two(false, "Y");
    let inp = inputs(false);
    let to = B + TO[pick("new date", 6)];
    let sticky = flag("sticky forward");
    let weight = real("weight", -5.0, 5.0);
    let expiry = B + [3, 40][pick("expiry", 2)];
    let last = match pick("position", 4) {
        0 => vec![rc(option("o", w.a.clone(), expiry, 100.0))],
        1 => vec![rc(forward_start("f", w.a.clone(), B + 1, expiry, 1.1)), rc(option("o", w.b.clone(), B, 100.0))],
        2 => vec![rc(opening("f", w.b.clone(), B, expiry, 0.9)), w.a.clone(), w.b.clone()],
        _ => vec![rc(basket("k", vec![(2.0, rc(option("o", w.a.clone(), expiry, 100.0))), (-1.0, w.a.clone())])), rc(bond("c", "Y", B + 4, B + 50))],
    };
    (last.into_iter().map(|i| (weight, i)).collect(), inp, to, sticky)
}
/// The observations of a position at dates, with the underlying.
fn rolled(parts: &[(f64, RcInstrument)], inp: &Inputs, to: i64, sticky: bool) -> SelfPricer {
    let data = inp.data();
    let mut c = DependencyCollector::new(date(B));
    for p in parts { c.spot(&p.1); }
    let mut moved = inp.clone();
    moved.spot_date = to;
    let mut table: Vec<(String, Vec<(DateTime, f64)>)> = vec![];
    for id in ["A", "B"].iter() {
        let i = match c.instrument_by_id(id) { Some(i) => i.clone(), None => continue };
        let f = val(data.forward_curve(&*i, date(to)), "forward");
        let mut known = vec![];
        for t in c.fixings(id) {
            if t.date() < date(to) { known.push((*t, if sticky { val(f.forward(t.date()), "forward") } else { inp.spots[*id] })); }
        }
        if !known.is_empty() { table.push((id.to_string(), known)); }
        if sticky { moved.spots.insert(id.to_string(), val(f.forward(date(to)), "forward")); }
    }
    let rows: Vec<(&str, &[(DateTime, f64)])> = table.iter().map(|r| (r.0.as_str(), &r.1[..])).collect();
    let table = val(FixingTable::from_fixings(date(to), &rows), "fixings");
    let mut fixed = vec![];
    for (w, i) in parts {
        match val(i.fix(&table), "fixing") { Some(d) => for (v, j) in d { fixed.push((w * v, j)); }, None => fixed.push((*w, i.clone())) }
    }
    pricer(fixed, &moved.data())
}

harnesses! {
    // ------------------------------------------------------------ C19
    h_c19_delta {
        let f = formula();
        let inp = inputs(false);
        let data = inp.data();
        let v = [val(f.variance(&data, &f.a), "variance"), val(f.variance(&data, &f.b), "variance")];
        let s = [inp.spots["A"], inp.spots["B"]];
        let (h, w) = (real("bump", 0.001, 0.2), real("weight", -5.0, 5.0));
        let at = |x: f64, y: f64| w * f.value([x, y], v);
        let mut p = pricer(vec![(w, rc(Formula { a: f.a.clone(), b: f.b.clone(), c: f.c }))], &data);
        let base = val(p.price(), "price");
        same(base, at(s[0], s[1]), "the price before");
        let mut save = p.new_saveable();
        let g = DeltaGammaReportGenerator::new(h);
        let report = val(g.generate(&mut p, &mut *save, base), "report");
        let r = report.as_any().downcast_ref::<DeltaGammaReport>().expect("kind of report").results();
        check(r.len() == 2, "one result for each underlying");
        for i in 0..2 {
            let x = r.get(["A", "B"][i]);
            check(x.is_some(), "each underlying has a result");
            let x = x.expect("result");
            let (up, down) = if i == 0 { (at(s[0] * (1.0 + h), s[1]), at(s[0] * (1.0 - h), s[1])) } else { (at(s[0], s[1] * (1.0 + h)), at(s[0], s[1] * (1.0 - h))) };
            same(x.delta() * (2.0 * h * s[i]), up - down, "delta is the central difference");
            same(x.gamma() * (h * s[i]) * (h * s[i]), up + down - 2.0 * base, "gamma is the second difference");
        }
        same(val(p.price(), "price"), base, "the price afterwards");
        left_empty(&mut p, &*save, |id| Bump::new_spot(id, BumpSpot::new_relative(0.125)));
        cover(1);
    }
    h_c19_vega { vega(false); }
    h_c19_vega_down { vega(true); }
    h_c19_position {
        // instruments of all kinds: which underlyings there are, and the price after a move of each up
        let w = two(false, "Y");
        let inp = inputs(false);
        let data = inp.data();
        let k = pick("instrument", KINDS);
        let parts = vec![(real("weight", -5.0, 5.0), some_instrument(k, &w, B + 40))];
        let h = real("bump", 0.001, 0.2);
        let mut p = pricer(parts.clone(), &data);
        let base = val(p.price(), "price");
        let mut save = p.new_saveable();
        let report = val(DeltaGammaReportGenerator::new(h).generate(&mut p, &mut *save, base), "report");
        let r = report.as_any().downcast_ref::<DeltaGammaReport>().expect("kind of report").results();
        let on: &[&str] = match k { 0 | 1 | 3 => &[], 2 | 4 => &["A"], 5 => &["B"], _ => &["A", "B"] };
        check(r.len() == on.len(), "one result for each underlying");
        for id in on.iter() {
            let x = r.get(*id);
            check(x.is_some(), "each underlying has a result");
            let x = x.expect("result");
            let mut moved = inp.clone();
            moved.spots.insert(id.to_string(), inp.spots[*id] * (1.0 + h));
            let by = h * inp.spots[*id];
            let up = val(pricer(parts.clone(), &moved.data()).price(), "price");
            same(base + x.delta() * by + x.gamma() * by * by / 2.0, up, "delta and gamma use the price at the higher spot");
            if k == 2 || k == 6 {
                same(x.delta(), parts[0].0 * if k == 2 { 1.0 } else if *id == "A" { 2.0 } else { -1.0 }, "the delta of a holding is its amount");
                same(x.gamma(), 0.0, "a holding has no gamma");
                cover(2);
            }
        }
        let report = val(VegaVolgaReportGenerator::new(BumpVol::new_flat_additive(h / 4.0)).generate(&mut p, &mut *save, base), "report");
        let r = report.as_any().downcast_ref::<VegaVolgaReport>().expect("kind of report").results();
        check(r.len() == on.len(), "one result for each underlying");
        for id in on.iter() {
            let x = r.get(*id);
            check(x.is_some(), "each underlying has a result");
            let x = x.expect("result");
            let mut moved = inp.clone();
            moved.vols.insert(id.to_string(), BumpVol::new_flat_additive(h / 4.0).apply(inp.vols[*id].clone()));
            let by = h / 4.0;
            let up = val(pricer(parts.clone(), &moved.data()).price(), "price");
            same(base + x.vega() * by + x.volga() * by * by / 2.0, up, "vega and volga use the price at the higher volatility");
        }
        same(val(p.price(), "price"), base, "the price afterwards");
        cover(1);
    }
    // ------------------------------------------------------------ C20
    h_c20_move {
        // a position with observations before, at and after the new date
        let (parts, inp, to, sticky) = rolling();
        let mut p = pricer(parts.clone(), &inp.data());
        let expected = rolled(&parts, &inp, to, sticky);
        val(p.bump_time(&BumpTime::new(date(to), date(to), dynamics(sticky))), "moving the date");
        check(p.context().spot_date() == date(to), "the date is moved");
        same(val(p.price(), "price"), val(expected.price(), "price"), "the position prices like one built at the new date");
        for id in ["A", "B"].iter() { same(val(p.context().spot(id), "spot"), val(expected.context().spot(id), "spot"), "spots are those of the new date"); }
        cover(1);
    }
    h_c20_twice {
        // two moves are one longer move
        let (parts, inp, to, sticky) = rolling();
        assume(to <= B + 4);
        let first = B + TO[pick("first", 4)];
        assume(first <= to);
        let (mut p, mut q) = (pricer(parts.clone(), &inp.data()), pricer(parts.clone(), &inp.data()));
        val(p.bump_time(&BumpTime::new(date(first), date(first), dynamics(sticky))), "moving the date");
        val(p.bump_time(&BumpTime::new(date(to), date(to), dynamics(sticky))), "moving the date");
        val(q.bump_time(&BumpTime::new(date(to), date(to), dynamics(sticky))), "moving the date");
        same(val(p.price(), "price"), val(q.price(), "price"), "moving twice is moving once");
        cover(1);
    }
    h_c20_theta {
        // the report, and delta inside it, on a position moved by the report itself
        let (parts, inp, to, sticky) = rolling();
        let mut p = pricer(parts.clone(), &inp.data());
        let base = val(p.price(), "price");
        let h = 0.0625;
        let mut g = TimeBumpedReportGenerator::new(BumpTime::new(date(to), date(to), dynamics(sticky)));
        g.add(Qrc::new(Arc::new(DeltaGammaReportGenerator::new(h))));
        let mut save = p.new_saveable();
        let report = val(g.generate(&mut p, &mut *save, base), "report");
        let r = report.as_any().downcast_ref::<TimeBumpedReport>().expect("kind of report");
        let mut expected = rolled(&parts, &inp, to, sticky);
        let then = val(expected.price(), "price");
        same(r.price(), then, "the price at the new date");
        same(r.theta(), then - base, "theta is the change of price");
        check(r.subreports().len() == 1, "one report for each generator");
        let inner = r.subreports()[0].as_any().downcast_ref::<DeltaGammaReport>().expect("kind of report").results();
        let mut s = expected.new_saveable();
        let alone = val(DeltaGammaReportGenerator::new(h).generate(&mut expected, &mut *s, then), "report");
        let alone = alone.as_any().downcast_ref::<DeltaGammaReport>().expect("kind of report").results();
        check(inner.len() == alone.len(), "one result for each underlying");
        for id in ["A", "B"].iter() {
            check(inner.get(*id).is_some() == alone.get(*id).is_some(), "the same underlyings");
            if let (Some(x), Some(y)) = (inner.get(*id), alone.get(*id)) {
                same(x.delta(), y.delta(), "delta at the new date");
                same(x.gamma(), y.gamma(), "gamma at the new date");
                cover(2);
            }
        }
        check(p.context().spot_date() == date(B), "the date of the original is not moved");
        same(val(p.price(), "price"), base, "the original is not moved");
        cover(1);
    }
    // ------------------------------------------------------------ C29
    h_c29_line {
        // the volatility at which a line takes the target, whatever the volatility was
        let inp = inputs(flag("skew"));
        let w = [1.0, -2.0][pick("weight", 2)];
        let (c0, c1, root) = (real("constant", -10.0, 10.0), real("slope", 0.1, 10.0), real("root", 0.05, 1.05));
        let on = stock(if flag("other") { "B" } else { "A" }, "X");
        let mut p = pricer(vec![(w, rc(Line { on: vec![on], c: [c0, c1], limit: 1.0625 }))], &inp.data());
        let r = ImpliedVol::new(0.01, 20).solve(&mut p, w * (c0 + c1 * root), 0.05, 1.05);
        match r { Ok(x) => check((x - root).abs() <= 0.011, "the volatility that gives the target"), Err(_) => check(false, "a volatility between those given is found") }
        cover(1);
    }
    h_c29_bracket {
        // no volatility between those given
        let inp = inputs(false);
        let (c0, c1, target) = (real("constant", -10.0, 10.0), real("slope", 0.1, 10.0), real("target", -50.0, 50.0));
        let (lo, hi) = (c0 + 0.05 * c1, c0 + 1.05 * c1);
        assume(target < lo - 1e-6 || target > hi + 1e-6);
        let mut p = pricer(vec![(1.0, rc(Line { on: vec![stock("A", "X")], c: [c0, c1], limit: 1.0625 }))], &inp.data());
        check(ImpliedVol::new(0.01, 20).solve(&mut p, target, 0.05, 1.05).is_err(), "a target out of reach is an error");
        cover(1);
    }
    h_c29_refused {
        // nothing to solve for, too much to solve for, no value where it is asked
        let inp = inputs(false);
        let (a, b) = (stock("A", "X"), stock("B", "Y"));
        let c = [real("constant", -1.0, 1.0), 1.0];
        let parts: Vec<(f64, RcInstrument)> = match pick("case", 5) {
            0 => vec![(1.0, a.clone())],
            1 => vec![(1.0, rc(Line { on: vec![], c, limit: 9.0 }))],
            2 => vec![(1.0, rc(Line { on: vec![a.clone(), b.clone()], c, limit: 9.0 }))],
            3 => vec![(1.0, rc(Line { on: vec![a.clone()], c, limit: 9.0 })), (0.5, rc(option("o", b.clone(), END, 100.0)))],
            _ => vec![(1.0, rc(Line { on: vec![a.clone()], c, limit: real("limit", 0.6, 1.0) }))],
        };
        let mut p = pricer(parts, &inp.data());
        check(ImpliedVol::new(0.01, 20).solve(&mut p, real("target", -5.0, 5.0), 0.05, 1.05).is_err(), "without one volatility to find and a value there, an error");
        cover(1);
    }
    h_c29_option {
        // among two volatilities, the one at which a call is nearer to the target
        let inp = inputs(false);
        let o = || vec![(1.0, rc(option("o", stock("A", "X"), END, real("strike", 50.0, 150.0))))];
        let parts = o();
        let value = |v: f64| {
            let mut moved = inp.clone();
            moved.vols.insert("A".to_string(), surface(FlatVolSurface::new(v, weekdays(), at(B, 0.25))));
            val(pricer(parts.clone(), &moved.data()).price(), "price")
        };
        let target = real("target", -500.0, 500.0);
        let (lo, hi) = (value(0.25), value(0.5));
        let mut p = pricer(parts.clone(), &inp.data());
        match ImpliedVol::new(0.5, 3).solve(&mut p, target, 0.25, 0.5) {
            Ok(x) => {
                check(x >= 0.25 && x <= 0.5, "between those given");
                check((lo - target) * (hi - target) <= 1e-6, "the target is between the prices at the ends");
                cover(1);
            }
            Err(_) => { check((lo - target) * (hi - target) >= -1e-6, "a target between the prices at the ends has its volatility"); cover(2); }
        }
    }
}
