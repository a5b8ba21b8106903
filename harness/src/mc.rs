//! Monte-Carlo values and the paths behind them.
use crate::data::*;
use crate::dates::date;
use crate::fix::*;
use crate::risk::*;
use crate::vp::*;
use ndarray::*;
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::data::bump::*;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpspotdate::*;
use quantmath::data::curves::*;
use quantmath::data::fixings::*;
use quantmath::data::forward::*;
use quantmath::data::volsurface::*;
use quantmath::dates::datetime::*;
use quantmath::dates::Date;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::models::blackdiffusion::*;
use quantmath::models::*;
use quantmath::pricers::montecarlo::*;
use quantmath::pricers::PricerFactory;
use quantmath::risk::bumptime::*;
use quantmath::risk::cache::*;
use quantmath::risk::dependencies::*;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

struct Draws(RefCell<Vec<f64>>);
unsafe impl Sync for Draws {}
/// The uncorrelated draws so far, and draws to be used first.
static DRAWN: Draws = Draws(RefCell::new(Vec::new()));
static GIVEN: Draws = Draws(RefCell::new(Vec::new()));
#[no_mangle]
pub fn verif_draw() -> f64 {
    let v = match GIVEN.0.borrow_mut().pop() { Some(v) => v, None => real("draw", -4.0, 4.0) };
    DRAWN.0.borrow_mut().push(v);
    v
}
fn drawn(i: usize) -> f64 { DRAWN.0.borrow()[i] }
fn count() -> usize { DRAWN.0.borrow().len() }

/// Market data with correlations.
struct Correlated { inner: MarketData, c: [f64; 3] }
impl PricingContext for Correlated {
    fn spot_date(&self) -> Date { self.inner.spot_date() }
    fn yield_curve(&self, id: &str, d: Date) -> Result<RcRateCurve, qm::Error> { self.inner.yield_curve(id, d) }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> { self.inner.spot(id) }
    fn forward_curve(&self, i: &dyn Instrument, d: Date) -> Result<Arc<dyn Forward>, qm::Error> { self.inner.forward_curve(i, d) }
    fn vol_surface(&self, i: &dyn Instrument, d: Date, f: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { self.inner.vol_surface(i, d, f) }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> {
        match (a.id(), b.id()) {
            ("A", "B") | ("B", "A") => Ok(self.c[0]),
            ("A", "C") | ("C", "A") => Ok(self.c[1]),
            ("B", "C") | ("C", "B") => Ok(self.c[2]),
            _ => Err(qm::Error::new("no correlation")),
        }
    }
}

/// A skewed surface displaced by dividends, and a forward of any level and slope.
struct Skewed { inner: MarketData, forward: Arc<dyn Forward>, vol: RcVolSurface }
impl PricingContext for Skewed {
    fn spot_date(&self) -> Date { self.inner.spot_date() }
    fn yield_curve(&self, id: &str, d: Date) -> Result<RcRateCurve, qm::Error> { self.inner.yield_curve(id, d) }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> { self.inner.spot(id) }
    fn forward_curve(&self, _: &dyn Instrument, _: Date) -> Result<Arc<dyn Forward>, qm::Error> { Ok(self.forward.clone()) }
    fn vol_surface(&self, _: &dyn Instrument, _: Date, _: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { Ok(self.vol.clone()) }
    fn correlation(&self, _: &dyn Instrument, _: &dyn Instrument) -> Result<f64, qm::Error> { Err(qm::Error::new("no correlation")) }
}
fn context() -> Box<dyn PricingContext> {
    let inner = inputs(false).data();
    if flag("skew") { Box::new(Skewed { inner, forward: Arc::new(InterpolatedForward::new(Box::new(slope(real("level", 90.0, 110.0), real("later level", 90.0, 110.0))))), vol: plane(0.3) }) } else { Box::new(inner) }
}
/// A forward that follows from dividends only, any spot, volatility and discounting of the option.
fn calm() -> Inputs {
    let mut i = inputs(false);
    i.yields.insert("X".to_string(), flat_curve(B, 0.0));
    i.borrows.insert("A".to_string(), flat_curve(B, 0.0));
    i.divs.insert("A".to_string(), divs(&[(2.5, 0.0, B + 30), (1.0, 0.01, B + 60)]));
    i
}

/// What one path of an underlying should be at some times.
fn path(c: &dyn PricingContext, i: &RcInstrument, times: &[DateDayFraction], steps: &[usize], g: &[f64]) -> Vec<f64> { walk(c, i, times, steps, g).expect("a path") }
fn walk(c: &dyn PricingContext, i: &RcInstrument, times: &[DateDayFraction], steps: &[usize], g: &[f64]) -> Option<Vec<f64>> {
    let i: &dyn Instrument = &**i;
    let last = times[times.len() - 1].date();
    let f = val(c.forward_curve(i, last), "forward curve");
    let v = val(c.vol_surface(i, last, &|| Ok(f.clone())), "volatility");
    let (mut out, mut m, mut before, mut k) = (vec![], 1.0, 0.0, 0);
    for j in 0..times.len() {
        let forward = val(f.forward(times[j].date()), "forward");
        let total = val(v.variance(times[j], forward), "variance");
        if total < before { return None; }
        let sigma = ((total - before) / steps[j] as f64).sqrt();
        before = total;
        for _ in 0..steps[j] { m *= 1.0 + sigma * g[k]; k += 1; }
        let d = val(v.displacement(times[j].date()), "displacement");
        out.push(d + m * (forward - d));
    }
    Some(out)
}
const TIMES: [[(i64, f64); 3]; 4] = [[(1, 0.8), (40, 0.8), (41, 0.0)], [(0, 0.8), (1, 0.0), (90, 0.8)], [(30, 0.8), (60, 0.8), (90, 0.8)], [(4, 0.0), (5, 0.0), (6, 0.0)]];
fn times(n: usize) -> Vec<DateDayFraction> { TIMES[pick("times", 4)][..n].iter().map(|t| at(B + t.0, t.1)).collect() }
fn draws(n: usize) -> Vec<f64> { (0..n).map(|_| real("gaussian", -4.0, 4.0)).collect() }

fn call(id: &str, on: &RcInstrument, expiry: i64, k: f64, call: bool) -> SpotStartingEuropean {
    val(SpotStartingEuropean::new(id, "Y", on.clone(), rule(2), when(expiry, CLOSE), k, if call { PutOrCall::Call } else { PutOrCall::Put }, OptionSettlement::Cash), "an option")
}
fn start(id: &str, on: &RcInstrument, strike: i64, expiry: i64, k: f64, call: bool) -> ForwardStartingEuropean {
    val(ForwardStartingEuropean::new(id, "Y", on.clone(), rule(2), when(expiry, CLOSE), k, when(strike, CLOSE), if call { PutOrCall::Call } else { PutOrCall::Put }, OptionSettlement::Cash), "an option")
}
fn model(paths: usize) -> RcMonteCarloModelFactory { RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(20, 10.0, paths))) }
/// One unit paid when an option of this expiry pays.
fn unit(c: &MarketData, credit: &str, from: i64, expiry: i64) -> f64 {
    let y = val(c.yield_curve(credit, date(expiry + 10)), "yield curve");
    (val(y.rt(rule(2).apply(date(from))), "rate") - val(y.rt(rule(2).apply(date(expiry))), "rate")).exp()
}
fn payoff(call: bool, s: f64, k: f64) -> f64 { if call { if s > k { s - k } else { 0.0 } } else { if k > s { k - s } else { 0.0 } } }

/// A context in which the paths are given, which notes what is paid on each.
struct Given { data: MarketData, id: String, paths: Array2<f64>, paid: RefCell<Vec<f64>>, answer: f64 }
impl MonteCarloContext for Given {
    fn paths(&self, i: &RcInstrument) -> Result<ArrayView2<f64>, qm::Error> { if i.id() == self.id { Ok(self.paths.view()) } else { Err(qm::Error::new("another underlying")) } }
    fn evaluate_flows(&self, q: ArrayView2<f64>) -> Result<f64, qm::Error> {
        check(q.shape() == &[self.paths.shape()[0], 1], "one flow on each path");
        for p in 0..q.shape()[0] { self.paid.borrow_mut().push(q[[p, 0]]); }
        Ok(self.answer)
    }
    fn pricing_context(&self) -> &dyn PricingContext { &self.data }
}
/// Observations and flows asked for.
struct Asked { seen: Vec<(String, DateDayFraction)>, flows: Vec<RcInstrument> }
impl MonteCarloDependencies for Asked {
    fn observation(&mut self, i: &RcInstrument, t: DateDayFraction) { self.seen.push((i.id().to_string(), t)); }
    fn flow(&mut self, i: &RcInstrument) { self.flows.push(i.clone()); }
}
fn bump(k: usize, s: f64, i: &mut Inputs) -> Bump {
    fn apply<T: Clone>(m: &mut HashMap<String, T>, id: &str, b: &dyn Bumper<T>) { let v = b.apply(m[id].clone()); m.insert(id.to_string(), v); }
    match k {
        0 => { i.spots.insert("A".to_string(), i.spots["A"] * (1.0 + s)); Bump::new_spot("A", BumpSpot::new_relative(s)) }
        1 => { apply(&mut i.divs, "A", &BumpDivs::new_all_relative(s)); Bump::new_divs("A", BumpDivs::new_all_relative(s)) }
        2 => { apply(&mut i.borrows, "A", &BumpYield::new_flat_annualised(s)); Bump::new_borrow("A", BumpYield::new_flat_annualised(s)) }
        3 => { apply(&mut i.vols, "A", &BumpVol::new_flat_additive(s)); Bump::new_vol("A", BumpVol::new_flat_additive(s)) }
        4 => { apply(&mut i.yields, "X", &BumpYield::new_flat_continuously_compounded(s)); Bump::new_yield("X", BumpYield::new_flat_continuously_compounded(s)) }
        5 => { apply(&mut i.yields, "Y", &BumpYield::new_flat_annualised(s)); Bump::new_yield("Y", BumpYield::new_flat_annualised(s)) }
        _ => { i.spots.insert("B".to_string(), i.spots["B"] * (1.0 + s)); Bump::new_spot("B", BumpSpot::new_relative(s)) }
    }
}
/// A simulation of A at some times, with a flow at the last.
fn diffusion(data: &MarketData, a: &RcInstrument, times: &[DateDayFraction], flows: &[RcInstrument], paths: usize) -> BlackDiffusion {
    let mut t = MonteCarloTimeline::new(date(B));
    for x in times { t.observation(a, *x); }
    for f in flows { t.flow(f); }
    val(t.collate(), "a timeline");
    let mut c = DependencyCollector::new(date(B));
    c.spot(&rc(option("o", a.clone(), END, 100.0)));
    let pre = val(PricingContextPrefetch::new(data, Arc::new(c)), "prefetching");
    val(BlackDiffusion::new(&t, Box::new(pre), 20, 10.0, paths), "a simulation")
}
/// The paths of a simulation are those of the data, with the draws of the simulation.
fn simulated(m: &BlackDiffusion, data: &MarketData, a: &RcInstrument, times: &[DateDayFraction], what: &str) {
    let got = val(m.paths(a), "paths");
    let (n, k) = (got.shape()[0], times.len());
    check(got.shape()[1] == k, "one value at each time");
    for p in 0..n {
        let g: Vec<f64> = (0..k).map(|j| drawn(p * k + j)).collect();
        let expected = path(data, a, times, &vec![1; k], &g);
        for j in 0..k { same(got[[p, j]], expected[j], what); }
    }
}

harnesses! {
    // ------------------------------------------------------------ C24
    h_c24_payoff {
        // what an option pays on each of some paths
        let w = two(false, "Y");
        let (n, starts, up) = (1 + pick("paths", 3), flag("forward start"), flag("call"));
        let k = if starts { real("fraction", 0.5, 2.0) } else { real("strike", 1.0, 300.0) };
        let o: RcInstrument = if starts { rc(start("o", &w.a, B + 3, B + 40, k, up)) } else { rc(call("o", &w.a, B + 40, k, up)) };
        let m = if starts { 2 } else { 1 };
        let values = Array2::from_shape_fn((n, m), |_| real("value", 10.0, 500.0));
        let given = Given { data: inputs(false).data(), id: "A".to_string(), paths: values.clone(), paid: RefCell::new(vec![]), answer: real("answer", 0.0, 100.0) };
        let v = val(o.as_mc_priceable().expect("by simulation").mc_price(&given), "value");
        same(v, given.answer, "the value of the flows");
        let paid = given.paid.borrow();
        check(paid.len() == n, "a payment on each path");
        for p in 0..n {
            let strike = if starts { k * values[[p, 0]] } else { k };
            same(paid[p], payoff(up, values[[p, m - 1]], strike), "the payoff on the path");
        }
        cover(if starts { 2 } else { 1 });
    }
    h_c24_asked {
        // what an option asks to be simulated, and where its payment is
        let w = two(false, "Y");
        let inp = inputs(false);
        let data = inp.data();
        let (starts, close) = (flag("forward start"), flag("at close"));
        let (s, e) = (int("strike date", B, B + 20), int("expiry", B + 21, B + 60));
        let t = if close { CLOSE } else { OPEN };
        let o: RcInstrument = if starts { rc(val(ForwardStartingEuropean::new("o", "Y", w.a.clone(), rule(2), when(e, t), 1.0, when(s, t), PutOrCall::Call, OptionSettlement::Physical), "option")) }
            else { rc(val(SpotStartingEuropean::new("o", "Y", w.a.clone(), rule(2), when(e, t), 100.0, PutOrCall::Call, OptionSettlement::Physical), "option")) };
        let mut asked = Asked { seen: vec![], flows: vec![] };
        let mc = o.as_mc_priceable().expect("by simulation");
        val(mc.mc_dependencies(&[], &mut asked), "dependencies");
        let mut expected = vec![];
        if starts { expected.push(at(s, if close { 0.8 } else { 0.0 })); }
        expected.push(at(e, if close { 0.8 } else { 0.0 }));
        check(mc.start_date() == if starts { Some(expected[0]) } else { None }, "starts when the strike is seen");
        check(asked.seen.len() == expected.len(), "one observation for each fixing");
        for i in 0..expected.len() { check(asked.seen[i].0 == "A" && asked.seen[i].1 == expected[i], "observed when it fixes, in order"); }
        check(asked.flows.len() == 1 && asked.flows[0].is_pure_rates(), "one payment");
        let f = asked.flows[0].as_priceable().expect("priceable");
        same(val(f.price(&data, when(B, OPEN)), "price"), unit(&data, "Y", B, e), "a payment at settlement of expiry");
        same(val(f.price(&data, when(e, t)), "price"), 1.0, "due until expiry");
        same(val(f.price(&data, when(e + 1, OPEN)), "price"), 0.0, "not due after expiry");
        cover(1);
    }
    h_c24_flows {
        // several flows of different sizes, dates and credits on several paths
        let w = two(false, "Y");
        let data = inputs(false).data();
        let (n, k) = (1 + pick("paths", 3), 1 + pick("flows", 3));
        // the first goes ex today
        let ex = if flag("ex at close") { CLOSE } else { OPEN };
        let flows: Vec<RcInstrument> = (0..k).map(|i| rc(ZeroCoupon::new(["x", "y", "z"][i], ["X", "X", "Y"][i], currency("GBP", 2), when(B + 10 * i as i64, ex), date(B + 30 * i as i64 + 7), rule(2)))).collect();
        let m = diffusion(&data, &w.a, &[at(B + 40, 0.8)], &flows, n);
        let q = Array2::from_shape_fn((n, k), |_| real("quantity", -100.0, 100.0));
        let v = val(m.as_mc_context().evaluate_flows(q.view()), "value");
        let mut sum = 0.0;
        for i in 0..k {
            let mut total = 0.0;
            for p in 0..n { total += q[[p, i]]; }
            sum += total / n as f64 * val(flows[i].as_priceable().expect("priceable").price(&data, when(B, OPEN)), "price");
        }
        same(v, sum, "the average of each flow times its value");
        check(m.as_mc_context().paths(&w.b).is_err(), "what is not simulated has no paths");
        cover(1);
    }
    h_c24_value {
        // the pricer, from market data to value
        let w = two(false, "Y");
        let inp = calm();
        let data = inp.data();
        let (n, starts, up) = (1 + pick("paths", 2), flag("forward start"), flag("call"));
        assume(n == 1 || !starts);
        let x = real("weight", -5.0, 5.0);
        let e = B + [4, 40][pick("expiry", 2)];
        let s = at(B + 3, 0.8);
        let k = if starts { 1.25 } else { real("strike", 1.0, 300.0) };
        let o: RcInstrument = if starts { rc(start("o", &w.a, B + 3, e, k, up)) } else { rc(call("o", &w.a, e, k, up)) };
        let p = val(MonteCarloPricer::new(vec![(x, o)], model(n), &data), "a pricer");
        let times = if starts { vec![s, at(e, 0.8)] } else { vec![at(e, 0.8)] };
        let m = times.len();
        check(count() == n * m, "a draw for each time on each path");
        let mut sum = 0.0;
        for i in 0..n {
            let g: Vec<f64> = (0..m).map(|j| drawn(i * m + j)).collect();
            let v = path(&data, &w.a, &times, &vec![1; m], &g);
            sum += payoff(up, v[m - 1], if starts { k * v[0] } else { k });
        }
        same(val(p.price(), "price"), x * (sum / n as f64) * unit(&data, "Y", B, e), "the discounted average payoff");
        cover(if starts { 2 } else { 1 });
    }
    h_c24_fixed {
        // fixings apply before simulating
        let w = two(false, "Y");
        let data = calm().data();
        let s = real("fixing", 50.0, 150.0);
        let table = val(FixingTable::from_fixings(date(B), &[("A", &[(when(B - 1, CLOSE), s)])]), "fixings");
        let fixings = RcFixingTable::new(Arc::new(table));
        let market = RcMarketData::new(Arc::new(data.clone()));
        let f = MonteCarloPricerFactory::new(model(1));
        if flag("struck") {
            let p = val(f.new(rc(start("o", &w.a, B - 1, B + 40, 1.25, true)), fixings, market), "a pricer");
            let v = path(&data, &w.a, &[at(B + 40, 0.8)], &[1], &[drawn(0)]);
            same(val(p.price(), "price"), payoff(true, v[0], s * 1.25) * unit(&data, "Y", B, B + 40), "an option struck at the fixing");
            cover(1);
        } else {
            check(f.new(w.a.clone(), fixings, market).is_err(), "what cannot be simulated is refused");
            cover(2);
        }
    }
    h_c24_two {
        // a position of more than one option cannot be simulated, which is an error
        let w = two(false, "Y");
        let data = inputs(false).data();
        let o = |id: &str, k| rc(call(id, &w.a, B + 40, k, true)) as RcInstrument;
        let p = MonteCarloPricer::new(vec![(1.0, o("o", 100.0)), (real("weight", -5.0, 5.0), o("p", 120.0))], model(1), &data);
        check(p.map_or(true, |p| p.price().is_err()), "a position of several options is refused");
        cover(1);
    }
    h_c24_bumped {
        // bumps between the simulation and the value, and back
        let w = two(false, "Y");
        let inp = calm();
        let k = real("strike", 50.0, 200.0);
        let mut p = val(MonteCarloPricer::new(vec![(1.0, rc(call("o", &w.a, B + 40, k, true)))], model(1), &inp.data()), "a pricer");
        let value = |d: &MarketData| payoff(true, path(d, &w.a, &[at(B + 40, 0.8)], &[1], &[drawn(0)])[0], k) * unit(d, "Y", B, B + 40);
        let mut now = inp.clone();
        let b = bump(pick("bump", 7), real("size", -0.05, 0.05), &mut now);
        let mut save = p.new_saveable();
        val(p.bump(&b, Some(&mut *save)), "a bump");
        same(val(p.price(), "price"), value(&now.data()), "the value on the bumped data with the same draws");
        val(p.restore(&*save), "restoring");
        same(val(p.price(), "price"), value(&inp.data()), "the value as before");
        cover(1);
    }
    h_c24_later {
        // the value at a later date, before and after the strike is known
        let w = two(false, "Y");
        let inp = calm();
        let (to, sticky) = (B + [1, 3, 4][pick("to", 3)], flag("sticky forward"));
        let mut p: Box<dyn Pricer> = Box::new(val(MonteCarloPricer::new(vec![(2.0, rc(start("o", &w.a, B + 3, B + 40, 1.25, true)))], model(1), &inp.data()), "a pricer"));
        val(p.as_mut_time_bumpable().bump_time(&BumpTime::new(date(to), date(to), if sticky { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot })), "a later date");
        let mut moved = inp.clone();
        moved.spot_date = to;
        let before = inp.data();
        let f = val(before.forward_curve(&*w.a, date(to)), "forward curve");
        if sticky { moved.spots.insert("A".to_string(), val(f.forward(date(to)), "forward")); }
        let data = moved.data();
        let (s, k) = if to <= B + 3 {
            check(count() == 2, "the same draws");
            let v = path(&data, &w.a, &[at(B + 3, 0.8), at(B + 40, 0.8)], &[1, 1], &[drawn(0), drawn(1)]);
            cover(1);
            (v[1], 1.25 * v[0])
        } else {
            check(count() == 3, "a draw for what is left");
            let v = path(&data, &w.a, &[at(B + 40, 0.8)], &[1], &[drawn(2)]);
            cover(2);
            (v[0], 1.25 * if sticky { val(f.forward(date(B + 3)), "forward") } else { inp.spots["A"] })
        };
        same(val(p.price(), "price"), 2.0 * payoff(true, s, k) * unit(&data, "Y", to, B + 40), "the value at the later date");
    }
    // ------------------------------------------------------------ C25
    h_c25_path {
        let w = two(false, "Y");
        let c = context();
        let data = &*c;
        let (n, paths) = (1 + pick("number", 3), 1 + pick("paths", 2));
        let t = times(n);
        let steps: Vec<usize> = (0..n).map(|i| 1 + pick(["s0", "s1", "s2"][i], 2)).collect();
        let total: usize = steps.iter().sum();
        let g: Vec<f64> = draws(total * paths);
        let gaussians = Array2::from_shape_fn((paths, total), |(p, i)| g[p * total + i]);
        let mut out = Array2::from_elem((paths, n), 7.0);
        let r = fetch_path(&*w.a, data, &t, gaussians.view(), &steps, out.view_mut());
        for p in 0..paths {
            let expected = match walk(data, &w.a, &t, &steps, &g[p * total..(p + 1) * total]) {
                None => { check(r.is_err(), "a falling variance is refused"); cover(2); return; }
                Some(e) => { check(r.is_ok(), "a path"); e }
            };
            for j in 0..n { same(out[[p, j]], expected[j], "a step of the model's variance for each draw"); }
        }
        cover(1);
    }
    h_c25_still {
        // no draws, no deviation from the forward
        let w = two(false, "Y");
        let c = context();
        let data = &*c;
        let n = 1 + pick("number", 3);
        let t = times(n);
        let steps: Vec<usize> = (0..n).map(|i| 1 + pick(["s0", "s1", "s2"][i], 3)).collect();
        let gaussians = Array2::zeros((1, steps.iter().sum()));
        let mut out = Array2::from_elem((1, n), 7.0);
        if walk(data, &w.a, &t, &steps, &vec![0.0; steps.iter().sum()]).is_none() { return; }
        val(fetch_path(&*w.a, data, &t, gaussians.view(), &steps, out.view_mut()), "a path");
        let f = val(data.forward_curve(&*w.a, date(END)), "forward curve");
        for j in 0..n { same(out[[0, j]], val(f.forward(t[j].date()), "forward"), "the forward when nothing is drawn"); }
        cover(1);
    }
    h_c25_variance {
        // one draw in one step deviates by the standard deviation of the step
        let w = two(false, "Y");
        let data = calm().data();
        let n = 1 + pick("number", 3);
        let t = times(n);
        let steps: Vec<usize> = (0..n).map(|i| 1 + pick(["s0", "s1", "s2"][i], 3)).collect();
        let k = pick("step", n as i64);
        let first: usize = steps[..k].iter().sum();
        let g = real("gaussian", -4.0, 4.0);
        let which = pick("substep", 3);
        assume(which < steps[k]);
        let gaussians = Array2::from_shape_fn((1, steps.iter().sum()), |(_, i)| if i == first + which { g } else { 0.0 });
        let mut out = Array2::from_elem((1, n), 7.0);
        val(fetch_path(&*w.a, &data, &t, gaussians.view(), &steps, out.view_mut()), "a path");
        let f = val(data.forward_curve(&*w.a, date(END)), "forward curve");
        let v = val(data.vol_surface(&*w.a, date(END), &|| data.forward_curve(&*w.a, date(END))), "volatility");
        let var = |i: usize| val(v.variance(t[i], 100.0), "variance");
        let step = (var(k) - if k > 0 { var(k - 1) } else { 0.0 }) / steps[k] as f64;
        for j in 0..n {
            let d = out[[0, j]] / val(f.forward(t[j].date()), "forward") - 1.0;
            if j < k { same(d, 0.0, "nothing before the draw"); }
            else { same(d * d, g * g * step, "the variance of the step"); check(d * g >= 0.0, "in the direction of the draw"); }
        }
        cover(1);
    }
    h_c25_substeps {
        // as many steps as keep the variance of each within the limit
        let w = two(false, "Y");
        let data = inputs(false).data();
        let limit = real("limit", 0.01, 1.0);
        let t = times(1 + pick("number", 2));
        let both = flag("both");
        let list: Vec<RcInstrument> = if both { vec![w.a.clone(), w.b.clone()] } else { vec![w.b.clone()] };
        let steps = val(calculate_substepping(&t, &data, &list, limit), "steps");
        check(steps.len() == t.len(), "steps for each time");
        for j in 0..t.len() {
            let mut largest = 0.0;
            for i in list.iter() {
                let v = val(data.vol_surface(&**i, date(END), &|| data.forward_curve(&**i, date(END))), "volatility");
                let x = val(v.variance(t[j], 100.0), "variance") - if j > 0 { val(v.variance(t[j - 1], 100.0), "variance") } else { 0.0 };
                if x > largest { largest = x; }
            }
            check(steps[j] >= 1, "at least one step");
            check(steps[j] as f64 * limit >= largest - 1e-9, "no step has more variance than the limit");
            check(steps[j] == 1 || (steps[j] - 1) as f64 * limit <= largest + 1e-9, "no more steps than needed");
        }
        check(calculate_substepping(&[], &data, &list, limit).is_err(), "nothing to simulate is an error");
        cover(1);
    }
    h_c25_correlated {
        // unit draws show how draws are mixed
        let n = 1 + pick("assets", 3);
        let c = [real("c0", -0.9, 0.9), real("c1", -0.9, 0.9), real("c2", -0.9, 0.9)];
        assume(n < 3 || 1.0 + 2.0 * c[0] * c[1] * c[2] - c[0] * c[0] - c[1] * c[1] - c[2] * c[2] > 0.01);
        let context = Correlated { inner: inputs(false).data(), c };
        let list: Vec<RcInstrument> = ["A", "B", "C"][..n].iter().map(|i| stock(i, "X")).collect();
        for p in (0..n).rev() { for k in (0..n).rev() { GIVEN.0.borrow_mut().push(if p == k { 1.0 } else { 0.0 }); } }
        let r = val(fetch_correlated_gaussians(&context, &list, 20, &[1], n), "gaussians");
        check(r.shape() == &[n, 1, n], "a value for each path, step and asset");
        for i in 0..n { for j in 0..=i {
            let mut s = 0.0;
            for k in 0..n { s += r[[k, 0, i]] * r[[k, 0, j]]; }
            let expected = if i == j { 1.0 } else { c[i + j - 1] };
            near(s, expected, 1e-6, "draws are mixed to the correlation asked for");
        } }
        cover(n as u32);
    }
    h_c25_mixed {
        // mixing is linear and the same on every path and step
        let n = 2;
        let c = real("c", -0.9, 0.9);
        let context = Correlated { inner: inputs(false).data(), c: [c, 0.0, 0.0] };
        let list = vec![stock("A", "X"), stock("B", "X")];
        let m = |d: &[f64]| { for x in d.iter().rev() { GIVEN.0.borrow_mut().push(*x); } };
        m(&[1.0, 0.0, 0.0, 1.0]);
        let u = val(fetch_correlated_gaussians(&context, &list, 20, &[1], n), "gaussians");
        let (paths, steps) = (1 + pick("paths", 2), [vec![1], vec![2], vec![1, 2]][pick("steps", 3)].clone());
        let total: usize = steps.iter().sum();
        let before = count();
        let r = val(fetch_correlated_gaussians(&context, &list, 20, &steps, paths), "gaussians");
        check(r.shape() == &[paths, total, 2] && count() == before + paths * total * 2, "one draw for each asset, step and path");
        for p in 0..paths { for s in 0..total { for i in 0..2 {
            let d = |k: usize| drawn(before + (p * total + s) * 2 + k);
            same(r[[p, s, i]], u[[0, 0, i]] * d(0) + u[[1, 0, i]] * d(1), "each step mixes its own draws");
        } } }
        cover(1);
    }
    h_c25_assets {
        // each asset has its own draws and market
        let w = two(false, "Y");
        let data = inputs(false).data();
        let list = if flag("swapped") { vec![w.b.clone(), w.a.clone()] } else { vec![w.a.clone(), w.b.clone()] };
        let n = 1 + pick("number", 2);
        let t = times(n);
        let steps = vec![1; n];
        let g = draws(2 * 2 * n);
        let gaussians = Array3::from_shape_fn((2, n, 2), |(p, j, i)| g[(p * n + j) * 2 + i]);
        let r = val(fetch_paths(&t, &gaussians, &data, &list, &steps, 2), "paths");
        check(r.shape() == &[2, n, 2], "a value for each path, time and asset");
        for p in 0..2 { for i in 0..2 {
            let own: Vec<f64> = (0..n).map(|j| g[(p * n + j) * 2 + i]).collect();
            let expected = path(&data, &list[i], &t, &steps, &own);
            for j in 0..n { same(r[[p, j, i]], expected[j], "each asset follows its own draws"); }
        } }
        cover(1);
    }
    h_c25_bumps {
        // bumped paths are those of the bumped data with the same draws, and restoring brings the old ones back
        let w = two(false, "Y");
        let inp = calm();
        let t = [at(B + 3, 0.8), at(B + 40, 0.8)];
        let mut m = diffusion(&inp.data(), &w.a, &t, &[], 1);
        simulated(&m, &inp.data(), &w.a, &t, "paths of the market data");
        let mut save = m.new_saveable();
        let mut now = inp.clone();
        for i in 0..2 {
            let b = bump(pick(["bump 0", "bump 1"][i], 7), real(["size 0", "size 1"][i], -0.05, 0.05), &mut now);
            let r = m.bump(&b, Some(&mut *save));
            check(r.is_ok(), "a bump is applied");
            simulated(&m, &now.data(), &w.a, &t, "bumped paths follow the bumped data with the same draws");
        }
        val(m.restore(&*save), "restoring");
        simulated(&m, &inp.data(), &w.a, &t, "restoring brings back the old paths");
        cover(1);
    }
    h_c25_again {
        // a cleared save area serves again
        let w = two(false, "Y");
        let inp = calm();
        let t = [at(B + 3, 0.8), at(B + 40, 0.8)];
        let mut m = diffusion(&inp.data(), &w.a, &t, &[], 1);
        let mut save = m.new_saveable();
        for i in 0..2 {
            let mut now = inp.clone();
            let b = bump(pick(["bump 0", "bump 1"][i], 7), real(["size 0", "size 1"][i], -0.05, 0.05), &mut now);
            val(m.bump(&b, Some(&mut *save)), "a bump");
            simulated(&m, &now.data(), &w.a, &t, "bumped paths follow the bumped data with the same draws");
            val(m.restore(&*save), "restoring");
            simulated(&m, &inp.data(), &w.a, &t, "restoring brings back the old paths");
            save.clear();
        }
        cover(1);
    }
}
