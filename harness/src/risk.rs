//! Market data, its bumps, prefetched data, dependencies and risk reports.
use crate::data::*;
use crate::dates::date;
use crate::fix::*;
use crate::vp::*;
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::core::dedup::InstanceId;
use quantmath::core::qm;
use quantmath::data::bump::*;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::forward::*;
use quantmath::data::volsurface::*;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::*;
use quantmath::dates::Date;
use quantmath::instruments::assets::*;
use quantmath::instruments::basket::*;
use quantmath::instruments::bonds::*;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::risk::cache::*;
use quantmath::risk::dependencies::*;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

/// What market data is made of.
#[derive(Clone)]
pub struct Inputs {
    pub spot_date: i64,
    pub spots: HashMap<String, f64>,
    pub yields: HashMap<String, RcRateCurve>,
    pub borrows: HashMap<String, RcRateCurve>,
    pub divs: HashMap<String, RcDividendStream>,
    pub vols: HashMap<String, RcVolSurface>,
}
impl Inputs {
    pub fn data(&self) -> MarketData {
        MarketData::new(date(self.spot_date), self.spots.clone(), self.yields.clone(), self.borrows.clone(), self.divs.clone(), self.vols.clone())
    }
}
fn map<T>(a: T, b: T, ids: [&str; 2]) -> HashMap<String, T> {
    let mut m = HashMap::new();
    m.insert(ids[0].to_string(), a);
    m.insert(ids[1].to_string(), b);
    m
}
pub fn divs(v: &[(f64, f64, i64)]) -> RcDividendStream {
    let d: Vec<Dividend> = v.iter().map(|d| Dividend::new(d.0, d.1, date(d.2), date(d.2 + 7))).collect();
    RcDividendStream::new(Arc::new(DividendStream::new(&d, zero_curve(B))))
}
/// Two equities, each with spot, borrow, dividends and volatility, and two yield curves.
pub fn inputs(skew: bool) -> Inputs {
    let v = real("vol A", 0.2, 0.5);
    Inputs {
        spot_date: B,
        spots: map(real("spot A", 50.0, 200.0), real("spot B", 50.0, 200.0), ["A", "B"]),
        yields: map(flat_curve(B, real("rate X", -0.1, 0.2)), flat_curve(B, real("rate Y", -0.1, 0.2)), ["X", "Y"]),
        borrows: map(flat_curve(B, real("borrow A", -0.05, 0.05)), flat_curve(B, 0.01), ["A", "B"]),
        divs: map(divs(&[(real("cash", 0.01, 5.0), 0.0, B + 30), (1.0, 0.01, B + 60)]), divs(&[(2.0, 0.0, B + 45)]), ["A", "B"]),
        vols: map(if skew { plane(v) } else { surface(FlatVolSurface::new(v, weekdays(), at(B, 0.25))) }, surface(FlatVolSurface::new(0.3, weekdays(), at(B, 0.25))), ["A", "B"]),
    }
}
pub fn option(id: &str, on: RcInstrument, expiry: i64, k: f64) -> SpotStartingEuropean {
    SpotStartingEuropean::new(id, "X", on, rule(2), DateTime::new(date(expiry), TimeOfDay::Close), k, PutOrCall::Call, OptionSettlement::Cash).expect("option")
}
pub fn stock(id: &str, credit: &str) -> RcInstrument { rc(equity(id, credit, currency("GBP", 2), 2)) }

/// An underlying whose volatility moves with the forward.
#[derive(Debug)]
pub struct Sticky { inner: Equity }
impl serde::Serialize for Sticky { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
impl TypeId for Sticky { fn get_type_id(&self) -> &'static str { "Sticky" } }
impl InstanceId for Sticky { fn id(&self) -> &str { self.inner.id() } }
impl Instrument for Sticky {
    fn payoff_currency(&self) -> &Currency { self.inner.payoff_currency() }
    fn credit_id(&self) -> &str { self.inner.credit_id() }
    fn settlement(&self) -> &RcDateRule { self.inner.settlement() }
    fn dependencies(&self, c: &mut dyn DependencyContext) -> SpotRequirement { self.inner.dependencies(c) }
    fn time_to_day_fraction(&self, t: DateTime) -> Result<DateDayFraction, qm::Error> { self.inner.time_to_day_fraction(t) }
    fn vol_forward_dynamics(&self) -> VolForwardDynamics { VolForwardDynamics::StickyDelta }
    fn as_priceable(&self) -> Option<&dyn Priceable> { Some(self) }
}
impl Priceable for Sticky {
    fn as_instrument(&self) -> &dyn Instrument { self }
    fn prices(&self, c: &dyn PricingContext, d: &[DateTime], out: &mut [f64]) -> Result<(), qm::Error> { self.inner.prices(c, d, out) }
}

pub const END: i64 = B + 100;
/// Every kind of answer of a pricing context about one underlying and one yield curve.
fn about(c: &dyn PricingContext, i: &RcInstrument, credit: &str, out: &mut Vec<f64>) {
    let i: &dyn Instrument = &**i;
    out.push(val(c.spot(i.id()), "spot"));
    out.push(val(val(c.yield_curve(credit, date(END)), "yield curve").rt(date(END)), "rate"));
    let f = val(c.forward_curve(i, date(END)), "forward curve");
    out.push(val(f.forward(date(B + 50)), "forward"));
    out.push(val(f.forward(date(END)), "forward"));
    let v = val(c.vol_surface(i, date(END), &|| c.forward_curve(i, date(END))), "volatility");
    out.push(val(v.variance(at(B + 50, 0.5), 110.0), "variance"));
    out.push(val(v.variance(at(END, 0.5), 90.0), "variance"));
}
pub struct Two { pub a: RcInstrument, pub b: RcInstrument, pub options: [SpotStartingEuropean; 3] }
pub fn two(sticky: bool, credit_b: &str) -> Two {
    let a = if sticky { rc(Sticky { inner: equity("A", "X", currency("GBP", 2), 2) }) } else { stock("A", "X") };
    let b = stock("B", credit_b);
    let options = [option("p", a.clone(), END, 100.0), option("q", a.clone(), B + 50, 120.0), option("r", b.clone(), END, 80.0)];
    Two { a, b, options }
}
impl Two {
    fn collect(&self) -> Arc<DependencyCollector> {
        let mut c = DependencyCollector::new(date(B));
        for o in &self.options { c.spot(&rc(o.clone())); }
        Arc::new(c)
    }
    fn answers(&self, c: &dyn PricingContext) -> Vec<f64> {
        let mut v = vec![];
        about(c, &self.a, "X", &mut v);
        about(c, &self.b, "Y", &mut v);
        let t = DateTime::new(c.spot_date(), TimeOfDay::Open);
        for o in &self.options { v.push(val(o.price(c, t), "price")); }
        v
    }
}
fn all_same(a: &[f64], b: &[f64], what: &str) { for (x, y) in a.iter().zip(b) { same(*x, *y, what); } }
const SIZE: [&str; 3] = ["size 0", "size 1", "size 2"];
/// The k-th kind of bump and its effect on the inputs; false if it names nothing there.
fn bump(k: usize, s: f64, i: &mut Inputs) -> (Bump, bool) {
    fn apply<T: Clone>(m: &mut HashMap<String, T>, id: &str, b: &dyn Bumper<T>) {
        let v = b.apply(m[id].clone());
        m.insert(id.to_string(), v);
    }
    match k {
        0 => { i.spots.insert("A".to_string(), i.spots["A"] * (1.0 + s)); (Bump::new_spot("A", BumpSpot::new_relative(s)), true) }
        1 => { i.spots.insert("A".to_string(), 100.0 + s); (Bump::new_spot("A", BumpSpot::new_replace(100.0 + s)), true) }
        2 => { apply(&mut i.divs, "A", &BumpDivs::new_all_relative(s)); (Bump::new_divs("A", BumpDivs::new_all_relative(s)), true) }
        3 => { apply(&mut i.borrows, "A", &BumpYield::new_flat_annualised(s)); (Bump::new_borrow("A", BumpYield::new_flat_annualised(s)), true) }
        4 => { apply(&mut i.vols, "A", &BumpVol::new_flat_additive(s)); (Bump::new_vol("A", BumpVol::new_flat_additive(s)), true) }
        5 => { apply(&mut i.vols, "A", &BumpVol::new_replace(0.2 + s)); (Bump::new_vol("A", BumpVol::new_replace(0.2 + s)), true) }
        6 => { apply(&mut i.yields, "X", &BumpYield::new_flat_continuously_compounded(s)); (Bump::new_yield("X", BumpYield::new_flat_continuously_compounded(s)), true) }
        7 => { i.spots.insert("B".to_string(), i.spots["B"] * (1.0 + s)); (Bump::new_spot("B", BumpSpot::new_relative(s)), true) }
        8 => { apply(&mut i.yields, "Y", &BumpYield::new_flat_annualised(s)); (Bump::new_yield("Y", BumpYield::new_flat_annualised(s)), true) }
        9 => (Bump::new_spot("C", BumpSpot::new_relative(s)), false),
        10 => (Bump::new_vol("C", BumpVol::new_flat_additive(s)), false),
        _ => (Bump::new_yield("A", BumpYield::new_flat_annualised(s)), false),
    }
}
/// Bumps in any order, saving them all or only the first of each kind; answers are those of data built with the bumped inputs, and restoring brings the old ones back.
fn bumps(n: usize, kinds: i64, prefetch: bool) {
    let sticky = flag("sticky delta");
    let w = two(sticky, if flag("one yield curve") { "X" } else { "Y" });
    let original = inputs(sticky);
    let raw = original.data();
    let mut context: Box<dyn BumpablePricingContext> = if prefetch { Box::new(val(PricingContextPrefetch::new(&raw, w.collect()), "prefetching")) } else { Box::new(raw.clone()) };
    let before = w.answers(&raw);
    all_same(&w.answers(context.as_pricing_context()), &before, "prefetched data answers like the market data");
    let mut save = context.new_saveable();
    let mut now = original.clone();
    for i in 0..n {
        let (b, there) = bump(pick(["bump 0", "bump 1", "bump 2"][i], kinds), real(SIZE[i], -0.05, 0.05), &mut now);
        let done = val(context.as_mut_bumpable().bump(&b, Some(&mut *save)), "a bump is applied");
        check(done == there, "a bump says whether it changed anything");
        all_same(&w.answers(context.as_pricing_context()), &w.answers(&now.data()), "bumped data answers like data built with the bumped input");
    }
    val(context.as_mut_bumpable().restore(&*save), "restoring");
    all_same(&w.answers(context.as_pricing_context()), &before, "restoring brings back the old answers");
    all_same(&w.answers(&raw), &before, "the data it was made from is untouched");
    cover(1);
}

/// A pricing context that notes what it is asked for.
struct Spy<'a> { inner: &'a MarketData, asked: RefCell<Vec<(usize, String, Date)>> }
unsafe impl<'a> Sync for Spy<'a> {}
impl<'a> Spy<'a> { fn note(&self, kind: usize, id: &str, d: Date) { self.asked.borrow_mut().push((kind, id.to_string(), d)); } }
impl<'a> PricingContext for Spy<'a> {
    fn spot_date(&self) -> Date { self.inner.spot_date() }
    fn yield_curve(&self, id: &str, d: Date) -> Result<RcRateCurve, qm::Error> { self.note(0, id, d); self.inner.yield_curve(id, d) }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> { self.note(1, id, date(B)); self.inner.spot(id) }
    fn forward_curve(&self, i: &dyn Instrument, d: Date) -> Result<Arc<dyn Forward>, qm::Error> { self.note(2, i.id(), d); self.inner.forward_curve(i, d) }
    fn vol_surface(&self, i: &dyn Instrument, d: Date, f: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { self.note(3, i.id(), d); self.inner.vol_surface(i, d, f) }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> { self.inner.correlation(a, b) }
}
pub const OPEN: TimeOfDay = TimeOfDay::Open;
pub const CLOSE: TimeOfDay = TimeOfDay::Close;
pub fn when(t: i64, d: TimeOfDay) -> DateTime { DateTime::new(date(t), d) }
pub fn forward_start(id: &str, on: RcInstrument, strike: i64, expiry: i64, fraction: f64) -> ForwardStartingEuropean {
    ForwardStartingEuropean::new(id, "X", on, rule(2), when(expiry, CLOSE), fraction, when(strike, CLOSE), PutOrCall::Put, OptionSettlement::Cash).expect("option")
}
pub fn bond(id: &str, credit: &str, ex: i64, pay: i64) -> ZeroCoupon { ZeroCoupon::new(id, credit, currency("GBP", 2), when(ex, CLOSE), date(pay), rule(2)) }
pub fn basket(id: &str, parts: Vec<(f64, RcInstrument)>) -> Basket { Basket::new(id, "X", currency("GBP", 2), rule(2), parts).expect("basket") }
/// One instrument of each kind, some nested.
pub const KINDS: i64 = 9;
pub fn some_instrument(k: usize, w: &Two, e: i64) -> RcInstrument {
    match k {
        0 => rc(Currency::new("X", rule(2))),
        1 => rc(CreditEntity::new("Y", currency("GBP", 2), rule(2))),
        2 => w.a.clone(),
        3 => rc(bond("bond", "Y", e, e + 10)),
        4 => rc(option("option", w.a.clone(), e, 100.0)),
        5 => rc(forward_start("forward start", w.b.clone(), B + 3, e, 1.1)),
        6 => rc(basket("basket", vec![(2.0, w.a.clone()), (-1.0, w.b.clone())])),
        7 => rc(basket("basket", vec![(2.0, rc(option("option", w.b.clone(), e, 100.0))), (3.0, w.a.clone())])),
        _ => rc(basket("outer", vec![(2.0, rc(bond("bond", "X", e, e + 10))), (0.5, rc(basket("inner", vec![(1.0, w.b.clone()), (-2.0, rc(option("option", w.a.clone(), e, 80.0)))])))])),
    }
}
fn other_credit(strict: bool) {
    // an option of one credit on an underlying of another is discounted with the curve of the underlying
    let w = two(false, "Y");
    let data = inputs(false).data();
    let e = B + [5, 40, 90][pick("expiry", 3)];
    let i = if flag("forward start") { rc(forward_start("option", w.b.clone(), B + 3, e, 1.1)) } else { rc(option("option", w.b.clone(), e, 100.0)) };
    let mut c = DependencyCollector::new(date(B));
    c.spot(&i);
    let spy = Spy { inner: &data, asked: RefCell::new(vec![]) };
    val(i.as_priceable().expect("priceable").price(&spy, when(B, OPEN)), "price");
    for (kind, id, d) in spy.asked.borrow().iter() {
        if *kind == 0 {
            check(c.yield_curve_hwm(id).is_some(), "the yield curve is recorded");
            check(c.yield_curve_hwm(id).map_or(false, |h| h >= date(e)), "the yield curve is recorded to the expiry");
            cover(1);
            if strict { check(c.yield_curve_hwm(id).map_or(false, |h| h >= *d), "the curve discounting an option of another credit is recorded to its payment"); }
        }
    }
}

harnesses! {
    // ------------------------------------------------------------ C16
    h_c16_market { bumps(2, 12, false); }
    h_c16_rounds {
        // bumps with and without saving, restored, cleared and bumped again
        let w = two(false, "Y");
        let original = inputs(false);
        let mut data = original.data();
        let before = w.answers(&data);
        let mut save = data.new_saveable();
        let mut now = original.clone();
        let k = pick("bump 0", 9);
        let (b, _) = bump(k, real(SIZE[0], -0.05, 0.05), &mut now);
        val(data.bump(&b, Some(&mut *save)), "a bump is applied");
        let (b, _) = bump(k, real(SIZE[1], -0.05, 0.05), &mut now);
        val(data.bump(&b, None), "a bump is applied");
        all_same(&w.answers(&data), &w.answers(&now.data()), "bumped data answers like data built with the bumped input");
        val(data.restore(&*save), "restoring");
        all_same(&w.answers(&data), &before, "restoring brings back the old answers");
        save.clear();
        let mut now = original.clone();
        let (b, _) = bump(pick("bump 2", 9), real(SIZE[2], -0.05, 0.05), &mut now);
        let twice = flag("saved");
        val(data.bump(&b, if twice { Some(&mut *save) } else { None }), "a bump is applied");
        val(data.restore(&*save), "restoring");
        if twice { all_same(&w.answers(&data), &before, "restoring brings back the old answers"); cover(1); }
        else { all_same(&w.answers(&data), &w.answers(&now.data()), "restoring from a cleared state changes nothing"); cover(2); }
    }
    h_c16_mismatch {
        // a save area of another kind is an error, not a panic
        let w = two(false, "Y");
        let mut data = inputs(false).data();
        let mut pre = val(PricingContextPrefetch::new(&data, w.collect()), "prefetching");
        let before = w.answers(&data);
        let (mut s, mut p) = (data.new_saveable(), pre.new_saveable());
        let b = Bump::new_spot("A", BumpSpot::new_relative(real("size 0", -0.05, 0.05)));
        check(data.bump(&b, Some(&mut *p)).is_err() && data.restore(&*p).is_err(), "a save area of another kind is refused");
        check(pre.bump(&b, Some(&mut *s)).is_err() && pre.restore(&*s).is_err(), "a save area of another kind is refused");
        all_same(&w.answers(&data), &before, "nothing is changed by a refused bump");
        all_same(&w.answers(&pre), &before, "nothing is changed by a refused bump");
        cover(1);
    }
    // ------------------------------------------------------------ C17
    h_c17_spot_only {
        // dependencies without a forward or a volatility
        let w = two(false, "Y");
        let original = inputs(false);
        let raw = original.data();
        let mut c = DependencyCollector::new(date(B));
        match pick("dependencies", 3) { 0 => {} 1 => { c.spot(&w.a); } _ => { c.forward_curve(&w.a, date(END)); } }
        let forward = c.forward_curve_hwm(&w.a).is_some();
        let mut pre = val(PricingContextPrefetch::new(&raw, Arc::new(c)), "prefetching");
        let mut save = pre.new_saveable();
        let mut now = original.clone();
        let (b, there) = bump(pick("bump 0", 12), real(SIZE[0], -0.05, 0.05), &mut now);
        let answers = |c: &dyn PricingContext| {
            let mut v = vec![val(c.spot("A"), "spot"), val(c.spot("B"), "spot")];
            for id in ["X", "Y"].iter() { v.push(val(val(c.yield_curve(id, date(END)), "yield curve").rt(date(END)), "rate")); }
            if forward { v.push(val(val(c.forward_curve(&*w.a, date(END)), "forward curve").forward(date(END)), "forward")); }
            v
        };
        match pre.bump(&b, Some(&mut *save)) { Ok(done) => check(done == there, "a bump says whether it changed anything"), Err(_) => check(false, "a bump of data that is not prefetched is applied") }
        all_same(&answers(&pre), &answers(&now.data()), "bumped data answers like data built with the bumped input");
        val(pre.restore(&*save), "restoring");
        all_same(&answers(&pre), &answers(&raw), "restoring brings back the old answers");
        cover(1);
    }
    h_c17_clone {
        // a clone is bumped on its own
        let w = two(false, "Y");
        let original = inputs(false);
        let mut pre = val(PricingContextPrefetch::new(&original.data(), w.collect()), "prefetching");
        let copy = pre.clone_box();
        let before = w.answers(&pre);
        let mut now = original.clone();
        let (b, _) = bump(pick("bump 0", 9), real(SIZE[0], -0.05, 0.05), &mut now);
        val(pre.bump(&b, None), "a bump is applied");
        all_same(&w.answers(copy.as_pricing_context()), &before, "a clone is not bumped");
        all_same(&w.answers(copy.raw_market_data()), &before, "a clone is not bumped");
        all_same(&w.answers(pre.raw_market_data()), &w.answers(&now.data()), "the market data inside is bumped");
        cover(1);
    }
    h_c17_prefetch { bumps(2, 12, true); }
    // ------------------------------------------------------------ C18
    h_c18_covers {
        // everything asked for while pricing was recorded, up to the date asked for
        let w = two(false, "X");
        let data = inputs(false).data();
        let i = some_instrument(pick("instrument", KINDS), &w, B + [5, 40, 90][pick("expiry", 3)]);
        let mut c = DependencyCollector::new(date(B));
        c.spot(&i);
        let spy = Spy { inner: &data, asked: RefCell::new(vec![]) };
        val(i.as_priceable().expect("priceable").price(&spy, when(B, OPEN)), "price");
        for (kind, id, d) in spy.asked.borrow().iter() {
            match kind {
                0 => {
                    let h = c.yield_curve_hwm(id);
                    check(h.is_some(), "the yield curve is recorded");
                    check(h.map_or(true, |h| h >= *d), "the yield curve is recorded to the last date");
                    cover(1);
                }
                1 => { check(c.instrument_by_id(id).map_or(false, |i| c.has_spot(i)), "the spot is recorded"); cover(2); }
                2 => { check(c.instrument_by_id(id).map_or(false, |i| c.forward_curve_hwm(i).map_or(false, |h| h >= *d)), "the forward is recorded to the last date"); cover(3); }
                _ => { check(c.instrument_by_id(id).map_or(false, |i| c.vol_surface_hwm(i).map_or(false, |h| h >= *d)), "the volatility is recorded to the last date"); cover(4); }
            }
        }
        for (id, i) in c.instruments_iter() { check(i.id() == id.as_str(), "instruments are recorded by their id"); }
    }
    h_c18_credit { other_credit(false); }
    h_c18_discount { other_credit(true); }
    h_c18_order {
        // two options with any expiries, in either order
        let w = two(false, "Y");
        let (e, f) = (B + int("expiry 0", 1, 300), B + int("expiry 1", 1, 300));
        let on = if flag("one underlying") { w.a.clone() } else { w.b.clone() };
        let settle = |t: i64| rule(2).apply(date(t));
        let (o, p) = (rc(option("o", w.a.clone(), e, 100.0)), rc(option("p", on.clone(), f, 90.0)));
        let mut c = DependencyCollector::new(date(B));
        let swapped = flag("swapped");
        if swapped { c.spot(&p); c.spot(&o); } else { c.spot(&o); c.spot(&p); }
        if flag("again") { c.spot(&o); c.spot(&p); }
        let one = on.id() == "A";
        let last = e.max(f);
        let (la, lb) = if one { (Some(date(last)), None) } else { (Some(date(e)), Some(date(f))) };
        check(c.forward_curve_hwm(&w.a) == la && c.vol_surface_hwm(&w.a) == la, "forward and volatility to the last expiry of the underlying");
        check(c.forward_curve_hwm(&w.b) == lb && c.vol_surface_hwm(&w.b) == lb, "forward and volatility to the last expiry of the underlying");
        check(c.has_spot(&w.a) && c.has_spot(&w.b) == !one, "spots of the underlyings");
        check(!c.has_spot(&o) && !c.has_spot(&p), "no spots of the options");
        // the curve X is for options and for A, Y for B
        let pay = settle(e).max(settle(f));
        check(c.yield_curve_hwm("X").map_or(false, |h| h >= pay), "yield curve to the last payment");
        check(c.yield_curve_hwm("Y").map_or(one, |h| !one && h >= date(f)), "yield curve to the last expiry");
        let (fa, fb) = (c.fixings("A"), c.fixings("B"));
        check(fa.contains(&when(e, CLOSE)), "the expiry fixing");
        if one {
            check(fa.contains(&when(f, CLOSE)) && fb.is_empty(), "the expiry fixing");
            check(fa.len() == if e == f { 1 } else { 2 }, "no fixing is recorded twice");
            cover(1);
        } else {
            check(fa.len() == 1 && fb.len() == 1 && fb[0] == when(f, CLOSE), "the expiry fixing");
            cover(2);
        }
        check(c.fixings("o").is_empty() && c.fixings("Z").is_empty(), "no other fixings");
        let ids = c.forward_id_by_credit_id("X");
        check(ids.len() == 1 && ids[0] == "A", "forwards by yield curve");
        check(c.forward_id_by_credit_id("Y").len() == if one { 0 } else { 1 } && c.forward_id_by_credit_id("Z").is_empty(), "forwards by yield curve");
        let mut n = 0;
        for _ in c.instruments_iter() { n += 1; }
        check(n == if one { 1 } else { 2 } && c.instruments_clone().len() == n, "one entry for each underlying");
        check(c.instrument_by_id("A") == Some(&w.a) && c.instrument_by_id("Z").is_none(), "instruments by id");
    }
    h_c18_marks {
        // the latest of three dates, in any order, for each kind of dependency
        let w = two(false, "Y");
        let d = [B + int("d0", 0, 4000), B + int("d1", 0, 4000), B + int("d2", 0, 4000)];
        let mut c = DependencyCollector::new(date(B));
        let kind = pick("kind", 3);
        for t in &d { match kind { 0 => c.yield_curve("Z", date(*t)), 1 => c.forward_curve(&w.a, date(*t)), _ => c.vol_surface(&w.a, date(*t)) } }
        let last = date(d[0].max(d[1]).max(d[2]));
        match kind {
            0 => { check(c.yield_curve_hwm("Z") == Some(last), "the latest date of a yield curve"); check(c.yield_curve_hwm("X").is_none(), "no other yield curve"); }
            1 => { check(c.forward_curve_hwm(&w.a) == Some(last), "the latest date of a forward"); check(c.yield_curve_hwm("X").map_or(false, |h| h >= last), "and of its yield curve"); check(c.vol_surface_hwm(&w.a).is_none(), "no volatility"); }
            _ => { check(c.vol_surface_hwm(&w.a) == Some(last), "the latest date of a volatility"); check(c.forward_curve_hwm(&w.a).is_none(), "no forward"); }
        }
        check(c.spot_date() == date(B), "the spot date");
        cover(1);
    }
    h_c18_fixings {
        // a forward-starting option observes strike and expiry
        let w = two(false, "Y");
        let (s, e) = (B + int("strike date", 0, 300), B + int("expiry", 0, 300));
        let o = rc(forward_start("f", w.a.clone(), s, e, 1.0));
        let i = if flag("in a basket") { rc(basket("basket", vec![(1.0, o), (1.0, w.b.clone())])) } else { o };
        let mut c = DependencyCollector::new(date(B));
        c.spot(&i);
        let f = c.fixings("A");
        check(f.contains(&when(s, CLOSE)) && f.contains(&when(e, CLOSE)), "the strike and the expiry fixing");
        check(f.len() == if s == e { 1 } else { 2 }, "no fixing is recorded twice");
        check(c.fixings("B").is_empty(), "no fixings of others");
        cover(1);
    }
}
