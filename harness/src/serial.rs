//! Writing objects to the serial form and reading them back.
use crate::data::*;
use crate::dates::date;
use crate::fix::*;
use crate::risk::*;
use crate::vp::*;
use quantmath::core::dedup::*;
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::data::bumpspotdate::SpotDynamics;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::fixings::*;
use quantmath::data::voldecorators::*;
use quantmath::data::volsmile::*;
use quantmath::data::volsurface::*;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::*;
use quantmath::instruments::assets::*;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::math::interpolation::*;
use quantmath::models::*;
use quantmath::models::blackdiffusion::*;
use quantmath::pricers::montecarlo::*;
use quantmath::pricers::selfpricer::*;
use quantmath::pricers::*;
use quantmath::risk::bumptime::*;
use quantmath::risk::deltagamma::*;
use quantmath::risk::marketdata::*;
use quantmath::risk::timebumped::*;
use quantmath::risk::vegavolga::*;
use quantmath::risk::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::sync::Arc;

fn written<T: Serialize>(x: &T) -> Value {
    let v = serde_json::to_value(x);
    check(v.is_ok(), "the object can be written");
    v.expect("written")
}
fn again<T: Serialize + DeserializeOwned>(x: &T) -> T {
    let r = serde_json::from_value(written(x));
    check(r.is_ok(), "what was written can be read");
    r.expect("read")
}
fn some_curve(k: usize) -> RcRateCurve {
    let base = || curve(val(RateCurveAct365::new(date(B), &[(date(B + 3), real("rate", -0.1, 0.2)), (date(B + 50), real("rate 2", -0.1, 0.2))], [Extrap::Flat, Extrap::Natural, Extrap::Zero][pick("left", 3)], [Extrap::Flat, Extrap::Natural, Extrap::Zero][pick("right", 3)]), "curve"));
    let b = || real("bump", -0.05, 0.05);
    match k {
        0 => zero_curve(B),
        1 => base(),
        2 => curve(AnnualisedFlatBump::new(base(), b())),
        3 => curve(ContinuouslyCompoundedFlatBump::new(base(), b())),
        _ => curve(RelativeBump::new(curve(AnnualisedFlatBump::new(base(), b())), real("factor", 0.5, 2.0))),
    }
}
fn same_curve(a: &RcRateCurve, b: &RcRateCurve) {
    check(a.get_type_id() == b.get_type_id() && a.base_date() == b.base_date(), "the kind of curve and its base date");
    for d in [0, 3, 20, 50, 90].iter() {
        match (a.rt(date(B + d)), b.rt(date(B + d))) { (Ok(x), Ok(y)) => same(x, y, "the rates"), (Err(_), Err(_)) => {}, _ => check(false, "the rates") }
    }
}
fn pillars() -> (DateDayFraction, DateDayFraction) { (at(B + 10, 0.5), at(B + 60, 0.25)) }
fn base_vol(k: usize) -> RcVolSurface {
    let p = pillars();
    let v = || real("vol", 0.2, 0.4);
    let how = [DivAssumptions::NoCashDivs, DivAssumptions::FixedDivs, DivAssumptions::JumpDivs][if k == 0 { 0 } else { pick("dividends", 3) }];
    match k {
        0 => surface(FlatVolSurface::new(v(), weekdays(), at(B, 0.25))),
        1 => surface(val(VolByProbabilityFlatSmile::new(&[(p.0, val(FlatSmile::new(v()), "smile")), (p.1, val(FlatSmile::new(0.35), "smile"))], weekdays(), at(B, 0.25), slope(100.0, 110.0), level(real("fixed dividends", 0.0, 5.0)), how), "surface")),
        _ => {
            let s = |x: f64| val(CubicSplineSmile::new(&[(80.0, x + 0.05), (100.0, x), (120.0, x + 0.02)]), "smile");
            surface(val(VolByProbabilityCubicSplineSmile::new(&[(p.0, s(0.3)), (p.1, s(0.35))], weekdays(), at(B, 0.25), slope(100.0, 110.0), level(3.0), how), "surface"))
        }
    }
}
fn some_vol(k: usize) -> RcVolSurface {
    if k < 3 { return base_vol(k); }
    let on = base_vol(pick("underneath", 3));
    let d = if k == 4 { 0.0 } else { real("offset", 0.0, 0.1) };
    match k {
        3 => surface(ConstantExpiryTimeEvolution::new(on, d, at(B + 4, 0.5))),
        4 => surface(RollingExpiryTimeEvolution::new(on, [0.0, 0.01, 0.0125][pick("time gone", 3)], at(B + 4, 0.5))),
        5 => surface(ParallelBumpVol::new(on, d)),
        _ => surface(TimeScaledBumpVol::new(on, d, real("floor", 0.01, 0.3))),
    }
}
fn same_vol(a: &RcVolSurface, b: &RcVolSurface) {
    check(a.get_type_id() == b.get_type_id() && a.base_date() == b.base_date() && a.div_assumptions() == b.div_assumptions(), "the kind of surface, its base date and its dividends");
    for (d, k) in [(5, 100.0), (10, 80.0), (40, 110.0), (60, 120.0), (90, 95.0)].iter() {
        let t = at(B + d, 0.5);
        match (a.variance(t, *k), b.variance(t, *k)) { (Ok(x), Ok(y)) => same(x, y, "the variances"), (Err(_), Err(_)) => {}, _ => check(false, "the variances") }
        match (a.displacement(date(B + d)), b.displacement(date(B + d))) { (Ok(x), Ok(y)) => same(x, y, "the displacements"), (Err(_), Err(_)) => {}, _ => check(false, "the displacements") }
        match (a.forward(), b.forward()) {
            (Some(x), Some(y)) => same(val(x.interpolate(date(B + d)), "forward"), val(y.interpolate(date(B + d)), "forward"), "the forward of the surface"),
            (None, None) => {}
            _ => check(false, "the forward of the surface"),
        }
        same(a.calendar().year_fraction(at(B, 0.0), t), b.calendar().year_fraction(at(B, 0.0), t), "the calendar of the surface");
    }
}
fn some_calendar(k: usize) -> RcCalendar {
    match k {
        0 => Qrc::new(Arc::new(EveryDayCalendar::new())),
        1 => weekdays(),
        2 => Qrc::new(Arc::new(WeekdayAndHolidayCalendar::new("h", &[date(B + 2), date(B + 9), date(B + 11)]))),
        _ => Qrc::new(Arc::new(VolatilityCalendar::new("v", some_calendar(k - 3), real("weight", 0.0, 1.0)))),
    }
}
fn some_rule(k: usize, c: RcCalendar) -> RcDateRule {
    match k {
        0 => null_rule(),
        1 => Qrc::new(Arc::new(BusinessDays::new_next(c))),
        2 => Qrc::new(Arc::new(BusinessDays::new_prev(c))),
        3 => Qrc::new(Arc::new(BusinessDays::new_step(c, 2))),
        4 => Qrc::new(Arc::new(BusinessDays::new_back(c, 2))),
        _ => Qrc::new(Arc::new(ModifiedFollowing::new(c))),
    }
}
fn some_stream(k: usize) -> DividendStream {
    let y = some_curve([1, 0, 0, 2][k]);
    let d = |cash: f64, rel: f64, t: i64| Dividend::new(cash, rel, date(B + t), date(B + t + 7));
    let v = match k {
        0 => vec![],
        1 => vec![d(real("cash", 0.1, 5.0), 0.0, 10), d(1.0, real("relative", 0.0, 0.1), 20)],
        2 => vec![d(0.0, real("relative", 0.0, 0.1), 20)],
        _ => vec![d(1.0, 0.01, 10), d(0.0, 0.02, 40)],
    };
    DividendStream::new(&v, y)
}
fn same_stream(a: &DividendStream, b: &DividendStream) {
    check(a.dividends().len() == b.dividends().len() && a.last_cash_ex_date() == b.last_cash_ex_date(), "how many dividends and the last in cash");
    for (x, y) in a.dividends().iter().zip(b.dividends()) {
        check(x.ex_date() == y.ex_date() && x.pay_date() == y.pay_date(), "the dates of a dividend");
        same(x.cash(), y.cash(), "the cash of a dividend");
        same(x.relative(), y.relative(), "the relative part of a dividend");
    }
    same_curve(&a.div_yield(), &b.div_yield());
}
fn same_instrument(a: &RcInstrument, b: &RcInstrument) {
    check(a.id() == b.id() && a.get_type_id() == b.get_type_id() && a.credit_id() == b.credit_id() && a.payoff_currency().id() == b.payoff_currency().id(), "id, kind, credit and currency");
    for d in 0..7 { check(a.settlement().apply(date(B + d)) == b.settlement().apply(date(B + d)), "the settlement"); }
    check(a.is_pure_rates() == b.is_pure_rates() && a.vol_time_dynamics() == b.vol_time_dynamics() && a.vol_forward_dynamics() == b.vol_forward_dynamics(), "what it needs of volatilities");
}
fn worth(i: &RcInstrument, data: &MarketData, at: DateTime) -> Option<f64> { i.as_priceable().map(|p| val(p.price(data, at), "price")) }
fn shared() -> (RcInstrument, RcInstrument) {
    let a = stock("A", "X");
    let o = rc(option("o", a.clone(), B + 40, real("strike", 50.0, 150.0)));
    (rc(basket("b", vec![(real("weight", -5.0, 5.0), a.clone()), (2.0, o), (3.0, a.clone())])), a)
}
fn with<Q>(ccy: DedupControl, ins: DedupControl, c: &[RcCurrency], i: &[RcInstrument], f: impl FnOnce() -> Q) -> Q {
    let mut c = Dedup::<Currency, Arc<Currency>>::new(ccy, dedup_map_from_slice(c));
    let mut i = Dedup::<dyn Instrument, Qrc<dyn Instrument>>::new(ins, dedup_map_from_slice(i));
    c.with(&DEDUP_CURRENCY, || i.with(&DEDUP_INSTRUMENT, f))
}
fn at_same(a: &RcInstrument, b: &RcInstrument) -> bool { &**a as *const dyn Instrument as *const u8 == &**b as *const dyn Instrument as *const u8 }
fn parts(b: &RcInstrument) -> Vec<RcInstrument> {
    // a basket hands out its underlyings only as dependencies, in order of its parts
    struct Parts(Vec<RcInstrument>);
    impl DependencyContext for Parts {
        fn spot_date(&self) -> quantmath::dates::Date { date(B) }
        fn yield_curve(&mut self, _: &str, _: quantmath::dates::Date) {}
        fn spot(&mut self, i: &RcInstrument) { self.0.push(i.clone()); }
        fn forward_curve(&mut self, i: &RcInstrument, _: quantmath::dates::Date) { self.0.push(i.clone()); }
        fn vol_surface(&mut self, _: &RcInstrument, _: quantmath::dates::Date) {}
        fn fixing(&mut self, _: &str, _: DateTime) {}
    }
    let mut p = Parts(vec![]);
    b.dependencies(&mut p);
    p.0
}

harnesses! {
    // ------------------------------------------------------------ C27
    h_c27_curve {
        let c = some_curve(pick("kind", 5));
        same_curve(&c, &again(&c));
        cover(1);
    }
    h_c27_vol {
        let s = some_vol(pick("kind", 7));
        same_vol(&s, &again(&s));
        cover(1);
    }
    h_c27_calendar {
        let c = some_calendar(pick("kind", 6));
        let r: RcCalendar = again(&c);
        check(c.get_type_id() == r.get_type_id() && c.name() == r.name(), "the kind of calendar and its name");
        let d = date(B + int("day", 0, 14));
        check(c.is_holiday(d) == r.is_holiday(d), "the holidays");
        let e = DateDayFraction::new(d, real("fraction", 0.0, 0.96875));
        same(c.year_fraction(at(B - 3, 0.5), e), r.year_fraction(at(B - 3, 0.5), e), "the time that passes");
        cover(1);
    }
    h_c27_rule {
        let r = some_rule(pick("kind", 6), some_calendar(pick("calendar", 3)));
        let s: RcDateRule = again(&r);
        check(r.get_type_id() == s.get_type_id(), "the kind of rule");
        let d = date(B + int("day", 0, 14));
        check(r.apply(d) == s.apply(d), "the date the rule gives");
        cover(1);
    }
    h_c27_divs {
        let s = RcDividendStream::new(Arc::new(some_stream(pick("dividends", 4))));
        same_stream(&s, &again(&s));
        cover(1);
    }
    h_c27_fixings {
        let x = [real("x", 1.0, 200.0), real("y", 1.0, 200.0), real("z", 1.0, 200.0)];
        let until = date(B + 1 + pick("known", 3) as i64);
        let n = pick("curves", 3);
        let all = [("A", vec![(when(B, TimeOfDay::Close), x[0]), (when(B + 1, TimeOfDay::Open), x[1])]), ("B", vec![(when(B + 1, TimeOfDay::Close), x[2])])];
        let given: Vec<(&str, &[(DateTime, f64)])> = all[..n].iter().map(|c| (c.0, &c.1[..])).collect();
        let t = RcFixingTable::new(Arc::new(val(FixingTable::from_fixings(until, &given), "fixings")));
        let r: RcFixingTable = again(&t);
        check(t.fixings_known_until() == r.fixings_known_until(), "how far fixings are known");
        for id in ["A", "B", "C"].iter() {
            for d in 0..6 {
                for time in [TimeOfDay::Open, TimeOfDay::Close].iter() {
                    match (t.get(id, when(B + d, *time)), r.get(id, when(B + d, *time))) {
                        (Ok(Some(p)), Ok(Some(q))) => same(p, q, "the fixings"),
                        (Ok(None), Ok(None)) | (Err(_), Err(_)) => {}
                        _ => check(false, "the fixings"),
                    }
                }
            }
        }
        cover(1);
    }
    h_c27_market {
        let mut inp = inputs(false);
        inp.vols.insert("B".to_string(), some_vol(1 + pick("surface", 2)));
        inp.divs.insert("B".to_string(), RcDividendStream::new(Arc::new(some_stream(2 * pick("dividends", 2)))));
        let m = RcMarketData::new(Arc::new(inp.data()));
        let r: RcMarketData = again(&m);
        check(m.spot_date() == r.spot_date(), "the spot date");
        for (id, credit) in [("A", "X"), ("B", "Y")].iter() {
            let i = stock(id, credit);
            same(val(m.spot(id), "spot"), val(r.spot(id), "spot"), "the spots");
            same_curve(&val(m.yield_curve(credit, date(END)), "curve"), &val(r.yield_curve(credit, date(END)), "curve"));
            let (f, g) = (val(m.forward_curve(&*i, date(END)), "forward"), val(r.forward_curve(&*i, date(END)), "forward"));
            for d in [2, 35, 80].iter() { same(val(f.forward(date(B + d)), "forward"), val(g.forward(date(B + d)), "forward"), "the forwards"); }
            let (v, w) = (val(m.vol_surface(&*i, date(END), &|| m.forward_curve(&*i, date(END))), "volatility"), val(r.vol_surface(&*i, date(END), &|| r.forward_curve(&*i, date(END))), "volatility"));
            same_vol(&v, &w);
        }
        check(r.spot("C").is_err() && r.yield_curve("Z", date(END)).is_err(), "nothing is added");
        cover(1);
    }
    h_c27_instrument {
        let w = two(false, "Y");
        let inp = inputs(false);
        let data = inp.data();
        let i = match pick("kind", 11) {
            9 => rc(val(SpotStartingEuropean::new("o", "Y", w.a.clone(), rule(1), when(B + 20, TimeOfDay::Open), real("strike", 50.0, 150.0), PutOrCall::Put, OptionSettlement::Physical), "option")),
            10 => rc(val(ForwardStartingEuropean::new("o", "Y", w.a.clone(), rule(1), when(B + 20, TimeOfDay::Open), real("fraction", 0.5, 1.5), when(B + 5, TimeOfDay::Close), PutOrCall::Put, OptionSettlement::Physical), "option")),
            k => some_instrument(k, &w, B + 20),
        };
        let r = again(&i);
        same_instrument(&i, &r);
        for (d, t) in [(0, TimeOfDay::Open), (10, TimeOfDay::Close), (20, TimeOfDay::Open), (20, TimeOfDay::Close)].iter() {
            match (worth(&i, &data, when(B + d, *t)), worth(&r, &data, when(B + d, *t))) { (Some(x), Some(y)) => same(x, y, "the price"), (None, None) => {}, _ => check(false, "whether it has a price") }
        }
        // what fixing makes of it
        let t = val(FixingTable::from_fixings(date(B + 21), &[("A", &[(when(B + 5, TimeOfDay::Close), real("fixing", 50.0, 150.0)), (when(B + 20, TimeOfDay::Open), 90.0), (when(B + 20, TimeOfDay::Close), 95.0)]), ("B", &[(when(B + 20, TimeOfDay::Close), 95.0)])]), "fixings");
        match (i.fix(&t), r.fix(&t)) {
            (Ok(Some(x)), Ok(Some(y))) => {
                check(x.len() == y.len(), "what fixing gives");
                for (x, y) in x.iter().zip(y.iter()) { same(x.0, y.0, "the amounts fixing gives"); same_instrument(&x.1, &y.1); }
                cover(2);
            }
            (Ok(None), Ok(None)) | (Err(_), Err(_)) => {}
            _ => check(false, "what fixing gives"),
        }
        cover(1);
    }
    h_c27_shared {
        // each object is written once at most, and read back it is one object
        let (b, a) = shared();
        let data = inputs(false).data();
        let (once, inline) = (DedupControl::WriteOnce, DedupControl::Inline);
        let v = with(inline, once, &[], &[], || written(&b));
        let r = with(inline, once, &[], &[], || serde_json::from_value(v));
        check(r.is_ok(), "what was written can be read");
        let r: RcInstrument = r.expect("read");
        same_instrument(&b, &r);
        same(worth(&b, &data, when(B, TimeOfDay::Open)).expect("price"), worth(&r, &data, when(B, TimeOfDay::Open)).expect("price"), "the price");
        let p = parts(&r);
        let of = |id: &str| -> Vec<&RcInstrument> { p.iter().filter(|i| i.id() == id).collect() };
        check(parts(&b).len() == p.len() && of("A").len() >= 2, "the parts");
        for x in of("A") { check(at_same(x, of("A")[0]), "an object that was shared is shared"); check(!at_same(x, &a), "and it was read"); }
        cover(1);
    }
    h_c27_text {
        // the same as text, where currencies are shared as well
        let a = stock("A", "X");
        let b = rc(bond("z", "Y", B + 20, B + 22));
        let ins = [a.clone(), b.clone(), rc(option("o", a.clone(), B + 40, 100.0)), rc(basket("inner", vec![(0.5, b.clone()), (1.5, a.clone())]))];
        let all: Vec<(f64, RcInstrument)> = (0..3).map(|i| ([2.0, -0.75, 3.0][i], ins[if i == 2 { 0 } else { pick("part", 4) }].clone())).collect();
        let b = rc(basket("b", all));
        let how = |k: usize| if k == 0 { DedupControl::Inline } else { DedupControl::WriteOnce };
        let (c, i) = (pick("currencies once", 2), pick("instruments once", 2));
        let v = with(how(c), how(i), &[], &[], || serde_json::to_string(&b));
        check(v.is_ok(), "the object can be written");
        let v = v.expect("written");
        let r = with(how(c), how(i), &[], &[], || serde_json::from_str(&v));
        check(r.is_ok(), "what was written can be read");
        let r: RcInstrument = r.expect("read");
        same_instrument(&b, &r);
        let (p, q) = (parts(&b), parts(&r));
        check(p.len() == q.len(), "the parts");
        for (x, y) in p.iter().zip(q.iter()) {
            same_instrument(x, y);
            if c == 1 { check(y.payoff_currency() as *const Currency == r.payoff_currency() as *const Currency, "one currency"); cover(2); }
            if i == 1 { for z in q.iter() { check((y.id() == z.id()) == at_same(y, z), "an object that was shared is shared"); } cover(3); }
        }
        let again = with(how(c), how(i), &[], &[], || serde_json::to_string(&r));
        check(again.map_or(false, |w| w == v), "written again it is the same text");
        cover(1);
    }
    h_c27_given {
        // objects that are known already need not be written
        let (b, a) = shared();
        let known = [rc(option("o", a.clone(), B + 40, 100.0)), a.clone(), b.clone()];
        let n = pick("known", 4);
        let missing = DedupControl::ErrorIfMissing;
        let ccy = currency("GBP", 2);
        let v = with(missing, missing, &[ccy.clone()], &known[..n], || serde_json::to_value(&b));
        check(v.is_ok() == (n == 3), "only what is known can be left out");
        let r: Result<RcInstrument, _> = with(missing, missing, &[ccy.clone()], &known[..n], || serde_json::from_value(Value::String("b".to_string())));
        match r { Ok(r) => { check(n == 3 && at_same(&r, &b), "the known object"); cover(1); } Err(_) => { check(n < 3, "a known object is found"); cover(2); } }
        // an instrument given in full whose currency is known
        let w: Result<Value, _> = with(missing, DedupControl::Inline, if flag("currency known") { cover(3); std::slice::from_ref(&ccy) } else { &[] }, &[], || serde_json::to_value(&a));
        if let Ok(w) = w {
            let known = flag("still known");
            let r: Result<RcInstrument, _> = with(missing, DedupControl::Inline, if known { std::slice::from_ref(&ccy) } else { &[] }, &[], || serde_json::from_value(w));
            check(r.is_ok() == known, "a missing currency is an error");
            if let Ok(r) = r { same_instrument(&a, &r); check(r.payoff_currency() as *const Currency == &*ccy as *const Currency, "the known currency"); cover(4); }
        }
    }
    h_c27_nothing_left {
        // what was known for one reading or writing is not known to the next
        let (b, a) = shared();
        let missing = DedupControl::ErrorIfMissing;
        let ok = with(DedupControl::WriteOnce, DedupControl::WriteOnce, &[], &[], || serde_json::to_value(&b).is_ok());
        check(ok, "the object can be written");
        if flag("failed") {
            let v = with(missing, missing, &[], &[], || serde_json::to_value(&a));
            check(v.is_err(), "an unknown object");
        }
        let r: Result<RcInstrument, _> = serde_json::from_value(Value::String("A".to_string()));
        check(r.is_err(), "nothing is known afterwards");
        same_instrument(&b, &again(&b));
        for x in parts(&again(&b)) { check(!at_same(&x, &a), "objects are read anew"); }
        cover(1);
    }
    h_c27_unknown {
        // every registry refuses a tag it does not know, and a tag of another registry
        let tag = ["Nothing", "", "Equity", "ZeroRateCurve", "FlatVolSurface", "NullRule", "EveryDayCalendar", "DeltaGammaReport", "DeltaGammaReportGenerator", "SelfPricerFactory", "BlackDiffusionFactory"];
        let k = pick("tag", tag.len() as i64);
        let mut m = serde_json::Map::new();
        m.insert(tag[k].to_string(), Value::Object(serde_json::Map::new()));
        let v = Value::Object(m);
        let into = pick("into", 9);
        let bad = match into {
            0 => serde_json::from_value::<RcInstrument>(v).is_err(),
            1 => serde_json::from_value::<RcRateCurve>(v).is_err(),
            2 => serde_json::from_value::<RcVolSurface>(v).is_err(),
            3 => serde_json::from_value::<RcDateRule>(v).is_err(),
            4 => serde_json::from_value::<RcCalendar>(v).is_err(),
            5 => serde_json::from_value::<BoxReport>(v).is_err(),
            6 => serde_json::from_value::<RcReportGenerator>(v).is_err(),
            7 => serde_json::from_value::<RcPricerFactory>(v).is_err(),
            _ => serde_json::from_value::<RcMonteCarloModelFactory>(v).is_err(),
        };
        check(bad || (k >= 2 && k - 2 == into), "an unknown tag is an error");
        cover(1);
    }
    h_c27_generator {
        // a generator read back makes the same report, and the report itself reads back
        let inp = inputs(false);
        let data = inp.data();
        let h = real("bump", 0.01, 0.1);
        let kind = pick("kind", 4);
        let moved = |sub: Option<RcReportGenerator>| {
            let t = BumpTime::new(date(B + 1), date(B), if flag("sticky forward") { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot });
            let mut g = TimeBumpedReportGenerator::new(t);
            if let Some(s) = sub { g.add(s); }
            g
        };
        let g: RcReportGenerator = match kind {
            0 => Qrc::new(Arc::new(DeltaGammaReportGenerator::new(h))),
            1 => Qrc::new(Arc::new(VegaVolgaReportGenerator::new(if flag("scaled") { BumpVol::new_time_scaled(h, 0.25) } else { BumpVol::new_flat_additive(h) }))),
            2 => Qrc::new(Arc::new(moved(None))),
            _ => Qrc::new(Arc::new(moved(Some(Qrc::new(Arc::new(DeltaGammaReportGenerator::new(h))))))),
        };
        let r: RcReportGenerator = again(&g);
        check(g.get_type_id() == r.get_type_id(), "the kind of generator");
        let a = stock("A", "X");
        let parts = vec![(2.0, a.clone()), (1.0, rc(bond("z", "Y", B + 10, B + 12)))];
        let make = |g: &RcReportGenerator| {
            let mut p = crate::pricing::pricer(parts.clone(), &data);
            let base = val(p.price(), "price");
            let mut save = p.new_saveable();
            val(g.generate(&mut p, &mut *save, base), "report")
        };
        let (x, y) = (make(&g), make(&r));
        let z: BoxReport = again(&x);
        for y in [&y, &z].iter() {
            check(x.get_type_id() == y.get_type_id(), "the kind of report");
            match kind {
                0 => same_delta(&x, y),
                1 => {
                    let (x, y) = (x.as_any().downcast_ref::<VegaVolgaReport>().expect("report").results(), y.as_any().downcast_ref::<VegaVolgaReport>().expect("report").results());
                    check(x.len() == y.len(), "the underlyings");
                    for (id, x) in x { let y = y.get(id); check(y.is_some(), "the underlyings"); same(x.vega(), y.expect("result").vega(), "vega"); same(x.volga(), y.expect("result").volga(), "volga"); }
                }
                _ => {
                    let (x, y) = (x.as_any().downcast_ref::<TimeBumpedReport>().expect("report"), y.as_any().downcast_ref::<TimeBumpedReport>().expect("report"));
                    same(x.price(), y.price(), "the price");
                    same(x.theta(), y.theta(), "theta");
                    check(x.subreports().len() == kind - 2 && y.subreports().len() == kind - 2, "the reports within");
                    if kind == 3 { same_delta(&x.subreports()[0], &y.subreports()[0]); }
                }
            }
        }
        cover(1);
    }
    h_c27_factory {
        // a pricer factory read back makes the same pricer
        let data = RcMarketData::new(Arc::new(inputs(false).data()));
        let t = RcFixingTable::new(Arc::new(val(FixingTable::from_fixings(date(B), &[]), "fixings")));
        let o = rc(option("o", stock("A", "X"), B + 20, real("strike", 50.0, 150.0)));
        let f: RcPricerFactory = Qrc::new(Arc::new(SelfPricerFactory::new()));
        let r: RcPricerFactory = again(&f);
        check(f.get_type_id() == r.get_type_id(), "the kind of factory");
        same(val(val(f.new(o.clone(), t.clone(), data.clone()), "pricer").price(), "price"), val(val(r.new(o, t, data), "pricer").price(), "price"), "the price");
        cover(1);
    }
    h_c27_simulation {
        // the settings of a simulation
        let (n, s) = (int("paths", 1, 100000) as usize, int("steps", 1, 1000) as usize);
        let step = real("length of step", 0.1, 100.0);
        let m = RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(s, step, n)));
        let f: RcPricerFactory = Qrc::new(Arc::new(MonteCarloPricerFactory::new(m.clone())));
        let (v, w) = (written(&again(&m)), written(&again(&f)));
        let at = |v: &Value, path: &[&str]| { let mut v = v.clone(); for p in path { v = v[*p].clone(); } v };
        for v in [at(&v, &["BlackDiffusionFactory"]), at(&w, &["MonteCarloPricerFactory", "model_factory", "BlackDiffusionFactory"])].iter() {
            check(v["number_of_paths"].as_u64() == Some(n as u64), "the number of paths");
            check(v["correlation_substep"].as_u64() == Some(s as u64), "the number of steps");
            same(v["path_substep"].as_f64().expect("a number"), step, "the length of a step");
        }
        cover(1);
    }
}
fn same_delta(x: &BoxReport, y: &BoxReport) {
    let (x, y) = (x.as_any().downcast_ref::<DeltaGammaReport>().expect("report").results(), y.as_any().downcast_ref::<DeltaGammaReport>().expect("report").results());
    check(x.len() == y.len(), "the underlyings");
    for (id, x) in x { let y = y.get(id); check(y.is_some(), "the underlyings"); same(x.delta(), y.expect("result").delta(), "delta"); same(x.gamma(), y.expect("result").gamma(), "gamma"); }
}
