//! Handles to objects, the calls made through them, and comparisons of results.
use crate::data::*;
use crate::fix::*;
use crate::risk::*;
use crate::vp::*;
use quantmath::core::factories::{Qbox, Qrc};
use quantmath::core::dedup::InstanceId;
use quantmath::core::qm;
use quantmath::data::fixings::*;
use quantmath::dates::datetime::*;
use quantmath::facade;
use quantmath::facade::c_interface::*;
use quantmath::facade::handle::extern_handle as eh;
use quantmath::facade::handle::Handle;
use quantmath::instruments::*;
use quantmath::instruments::assets::*;
use quantmath::pricers::selfpricer::*;
use quantmath::pricers::*;
use quantmath::risk::deltagamma::*;
use quantmath::risk::marketdata::*;
use quantmath::risk::timebumped::*;
use quantmath::risk::*;
use serde_json::{json, Value};
use std::error::Error;
use std::ffi::CStr;
use std::sync::Arc;

const EMPTY: usize = 0;
const INSTRUMENT: usize = 1;
const CURRENCY: usize = 2;
const MARKET: usize = 3;
const FIXINGS: usize = 4;
const PRICER: usize = 5;
const GENERATOR: usize = 6;
const REPORTS: usize = 7;
const ERROR: usize = 8;
const KINDS: i64 = 9;
/// What is said of a panic caught while an object was made.
const PANICKED: &str = "Caught panic when creating handle";
const SAID: &str = "what went wrong";

/// One object of each kind.
struct Objects { instrument: RcInstrument, currency: RcCurrency, market: RcMarketData, fixings: RcFixingTable, pricer: RcPricerFactory, generator: RcReportGenerator, figure: f64 }
fn objects() -> Objects {
    Objects {
        instrument: stock("A", "X"),
        currency: currency("GBP", 2),
        market: RcMarketData::new(Arc::new(inputs(false).data())),
        fixings: RcFixingTable::new(Arc::new(val(FixingTable::from_fixings(crate::dates::date(B), &[]), "fixings"))),
        pricer: Qrc::new(Arc::new(SelfPricerFactory::new())),
        generator: Qrc::new(Arc::new(DeltaGammaReportGenerator::new(0.01))),
        figure: real("figure", -1000.0, 1000.0),
    }
}
impl Objects {
    fn reports(&self) -> Vec<BoxReport> { vec![Qbox::new(Box::new(TimeBumpedReport::new(self.figure, 1.0, vec![])))] }
    /// A handle of the given kind, made from the object or from a failure to make it.
    fn handle(&self, kind: usize) -> Handle {
        match kind {
            EMPTY => Handle::from_empty(Ok(())),
            INSTRUMENT => Handle::from_instrument(Ok(self.instrument.clone())),
            CURRENCY => Handle::from_currency(Ok(self.currency.clone())),
            MARKET => Handle::from_market_data(Ok(self.market.clone())),
            FIXINGS => Handle::from_fixing_table(Ok(self.fixings.clone())),
            PRICER => Handle::from_pricer_factory(Ok(self.pricer.clone())),
            GENERATOR => Handle::from_report_generator(Ok(self.generator.clone())),
            REPORTS => Handle::from_reports(Ok(self.reports())),
            _ => Handle::from_error(qm::Error::new(SAID)),
        }
    }
    fn raw(&self, kind: usize) -> u64 { eh::from_handle(if kind == ERROR { Err(qm::Error::new(SAID)) } else { Ok(self.handle(kind)) }) }
    /// Whether what came back is the object that was put in.
    fn is(&self, got: &Got) -> bool {
        match got {
            Got::Nothing => true,
            Got::Instrument(x) => at_same(&**x, &*self.instrument),
            Got::Currency(x) => at_same(&**x, &*self.currency),
            Got::Market(x) => at_same(&**x, &*self.market),
            Got::Fixings(x) => at_same(&**x, &*self.fixings),
            Got::Pricer(x) => at_same(&**x, &*self.pricer),
            Got::Generator(x) => at_same(&**x, &*self.generator),
            Got::Reports(x) => x.len() == 1 && match x[0].as_any().downcast_ref::<TimeBumpedReport>() { Some(t) => t.price() == self.figure && t.theta() == 1.0, None => false },
        }
    }
}
enum Got { Nothing, Instrument(RcInstrument), Currency(RcCurrency), Market(RcMarketData), Fixings(RcFixingTable), Pricer(RcPricerFactory), Generator(RcReportGenerator), Reports(Vec<BoxReport>) }
fn at_same<T: ?Sized, U: ?Sized>(a: &T, b: &U) -> bool { a as *const T as *const u8 == b as *const U as *const u8 }
/// Asks for a kind; reports are moved out of the handle.
fn ask(h: Handle, kind: usize) -> Result<Got, qm::Error> {
    match kind {
        EMPTY => h.as_empty().map(|_| Got::Nothing),
        INSTRUMENT => h.as_instrument().map(Got::Instrument),
        CURRENCY => h.as_currency().map(Got::Currency),
        MARKET => h.as_market_data().map(Got::Market),
        FIXINGS => h.as_fixing_table().map(Got::Fixings),
        PRICER => h.as_pricer_factory().map(Got::Pricer),
        GENERATOR => h.as_report_generator().map(Got::Generator),
        REPORTS => h.as_reports().map(Got::Reports),
        _ => Err(h.as_error()),
    }
}
/// The same with a handle as other languages have it, left alive unless it is asked for reports.
fn ask_raw(h: u64, kind: usize) -> Result<Got, qm::Error> {
    match kind {
        INSTRUMENT => eh::as_instrument(h).map(Got::Instrument),
        CURRENCY => eh::as_currency(h).map(Got::Currency),
        MARKET => eh::as_market_data(h).map(Got::Market),
        FIXINGS => eh::as_fixing_table(h).map(Got::Fixings),
        PRICER => eh::as_pricer_factory(h).map(Got::Pricer),
        GENERATOR => eh::as_report_generator(h).map(Got::Generator),
        REPORTS => eh::as_reports(h).map(Got::Reports),
        _ => Err(eh::as_error(h)),
    }
}
fn judge(o: &Objects, made: usize, asked: usize, got: Result<Got, qm::Error>) {
    match got {
        Ok(x) => { check(made == asked && made != ERROR, "an object comes back only as the kind it is"); check(o.is(&x), "the object that was put in"); }
        Err(e) => {
            check(made != asked || made == ERROR, "a handle gives its object when asked for that kind");
            check((e.description() == SAID) == (made == ERROR), "an error handle keeps what it says, and no other handle says it");
            check(!e.description().is_empty(), "errors say something");
        }
    }
}
fn said(p: *mut std::os::raw::c_char) -> String {
    let s = unsafe { CStr::from_ptr(p) }.to_str().expect("text").to_string();
    qm_free_string(p);
    s
}
/// What a handle of that kind is worth to its holder.
fn holds(o: &Objects, h: u64, kind: usize) {
    check(qm_is_error(h) == (kind == ERROR), "only error handles are errors");
    if kind != EMPTY && kind != REPORTS { judge(o, kind, kind, ask_raw(h, kind)); }
}

/// A report whose figures are given: 0 delta and gamma, 1 vega and volga, 2 moved in time.
#[derive(Clone, Copy)]
struct Shape { kind: usize, ids: usize }
fn report(s: Shape, bump: f64, x: [f64; 2], nested: Option<Value>) -> Value {
    let one = |a: &str, b: &str| { let mut m = serde_json::Map::new(); m.insert(a.to_string(), json!(x[0])); m.insert(b.to_string(), json!(x[1])); Value::Object(m) };
    let all = |a: &str, b: &str| {
        let mut m = serde_json::Map::new();
        // which underlyings: A, B, or both
        if s.ids != 1 { m.insert("A".to_string(), one(a, b)); }
        if s.ids != 0 { m.insert("B".to_string(), one(a, b)); }
        Value::Object(m)
    };
    match s.kind {
        0 => json!({ "DeltaGammaReport": { "bumpsize": bump, "results": all("delta", "gamma") } }),
        1 => json!({ "VegaVolgaReport": { "bumpsize": bump, "results": all("vega", "volga") } }),
        _ => json!({ "TimeBumpedReport": { "price": x[0], "theta": x[1], "subreports": nested.map_or(vec![], |n| vec![n]) } }),
    }
}
fn read(v: Vec<Value>) -> Vec<BoxReport> { serde_json::from_value(Value::Array(v)).expect("reports") }
fn figures(names: [&str; 2]) -> [f64; 2] { [real(names[0], -100.0, 100.0), real(names[1], -100.0, 100.0)] }
fn apart(x: [f64; 2], y: [f64; 2], tol: [f64; 2]) -> [f64; 2] { [(x[0] - y[0]).abs() - tol[0], (x[1] - y[1]).abs() - tol[1]] }

/// A text that reads as an object of the kind given; one letter of a name is given.
fn text(kind: usize, c: u8) -> Vec<u8> {
    let rule = r#"{"BusinessDays": {"calendar": {"WeekdayCalendar": []}, "step": 2, "slip_forward": true}}"#;
    let t = match kind {
        INSTRUMENT => format!(r#"{{"Equity": {{"id": "A@C", "credit_id": "X", "currency": {{"id": "GBP", "settlement": {}}}, "settlement": {}}}}}"#, rule, rule),
        CURRENCY => format!(r#"{{"id": "A@C", "settlement": {}}}"#, rule),
        MARKET => r#"{"spot_date": "2018-06-04", "spots": {"A@C": 12.5}, "yield_curves": {}, "borrow_curves": {}, "dividends": {}, "vol_surfaces": {}}"#.to_string(),
        FIXINGS => r#"{"fixings_known_until": "2018-01-01", "fixings_by_id": {"A@C": {"fixing_by_date": [[{"date": "2017-12-25", "time_of_day": "Close"}, 12.5]]}}}"#.to_string(),
        PRICER => r#"{"SelfPricerFactory": {}}"#.to_string(),
        GENERATOR => r#"{"DeltaGammaReportGenerator": {"bumpsize": 0.01}}"#.to_string(),
        _ => r#"[{"DeltaGammaReport": {"bumpsize": 0.01, "results": {"A@C": {"delta": 12.5, "gamma": 0.0}}}}]"#.to_string(),
    };
    t.bytes().map(|b| if b == b'@' { c } else { b }).collect()
}
/// Reads a text as an object of the kind given.
fn read_text(kind: usize, text: &[u8]) -> u64 {
    let mut bytes = text.to_vec();
    bytes.push(0);
    let p = bytes.as_ptr() as *const std::os::raw::c_char;
    match kind {
        INSTRUMENT => { let none = [0u64]; qm_instrument_from_json_string(p, QmDedupControl::QmInline, 0, none.as_ptr(), QmDedupControl::QmInline, 0, none.as_ptr()) }
        CURRENCY => qm_currency_from_json_string(p),
        MARKET => qm_market_data_from_json_string(p),
        FIXINGS => qm_fixing_table_from_json_string(p),
        PRICER => qm_pricer_factory_from_json_string(p),
        GENERATOR => qm_report_generator_from_json_string(p),
        _ => qm_reports_from_json_string(p),
    }
}
fn refused(h: u64, what: &str) {
    check(qm_is_error(h), what);
    let e = eh::as_error(h);
    check(!e.description().is_empty() && e.description() != PANICKED, "the error says what is wrong");
    qm_free_handle(h);
}

harnesses! {
    // ------------------------------------------------------------ C26
    h_c26_kinds {
        let o = objects();
        let (made, asked) = (pick("made", KINDS), pick("asked", KINDS));
        judge(&o, made, asked, ask(o.handle(made), asked));
        cover(1);
    }
    h_c26_raw {
        let o = objects();
        let (made, asked) = (pick("made", KINDS), 1 + pick("asked", KINDS - 1));
        let h = o.raw(made);
        check(qm_is_error(h) == (made == ERROR), "only error handles are errors");
        judge(&o, made, asked, ask_raw(h, asked));
        if asked != REPORTS {
            // asking leaves the handle as it was, and it can be freed once
            holds(&o, h, made);
            qm_free_handle(h);
        }
        cover(1);
    }
    h_c26_failed {
        // a failure to make an object is an error handle, whatever was to be made
        let e = || qm::Error::new(SAID);
        let made = pick("made", 8);
        let h = match made {
            EMPTY => Handle::from_empty(Err(e())),
            INSTRUMENT => Handle::from_instrument(Err(e())),
            CURRENCY => Handle::from_currency(Err(e())),
            MARKET => Handle::from_market_data(Err(e())),
            FIXINGS => Handle::from_fixing_table(Err(e())),
            PRICER => Handle::from_pricer_factory(Err(e())),
            GENERATOR => Handle::from_report_generator(Err(e())),
            _ => Handle::from_reports(Err(e())),
        };
        let asked = pick("asked", KINDS);
        match ask(h.clone(), asked) { Ok(_) => check(false, "an error handle stays an error"), Err(x) => check(x.description() == SAID, "an error handle keeps what it says") }
        let raw = eh::from_handle(Ok(h));
        check(qm_is_error(raw), "an error handle stays an error");
        check(said(qm_error_string(raw)) == SAID, "an error handle keeps what it says");
        check(said(qm_reports_as_json_string(raw)) == SAID, "an error handle keeps what it says");
        let c = qm_clone(raw);
        qm_free_handle(raw);
        check(qm_is_error(c) && said(qm_error_string(c)) == SAID, "a clone of an error handle says the same");
        qm_free_handle(c);
        cover(1);
    }
    h_c26_clone {
        // up to three handles, cloned and freed in any order
        let o = objects();
        let kind = pick("made", KINDS);
        let mut held = vec![(o.raw(kind), kind)];
        for _ in 0..3 {
            let i = pick("which", held.len() as i64);
            if flag("clone") {
                let k = if held[i].1 == REPORTS { ERROR } else { held[i].1 };
                let c = qm_clone(held[i].0);
                check(c != held[i].0, "a clone is a handle of its own");
                if kind == REPORTS {
                    check(qm_is_error(c) && !said(qm_error_string(c)).is_empty(), "reports cannot be cloned");
                    check(!qm_is_error(held[i].0) || held[i].1 == ERROR, "the reports are still there");
                    qm_free_handle(c);
                } else { held.push((c, k)); }
            } else {
                qm_free_handle(held.remove(i).0);
                if held.is_empty() { cover(1); return; }
            }
            for h in held.iter() { holds(&o, h.0, h.1); }
        }
        for h in held.iter() {
            if h.1 == REPORTS { judge(&o, REPORTS, REPORTS, ask_raw(h.0, REPORTS)); } else { qm_free_handle(h.0); }
        }
        cover(2);
    }
    h_c26_text {
        // asking any handle for the text of its error or of its reports
        let o = objects();
        let made = pick("made", KINDS);
        assume(o.figure == 2.5);
        let h = o.raw(made);
        let e = said(qm_error_string(h));
        check((e == SAID) == (made == ERROR) && !e.is_empty(), "the text of the error");
        if made != REPORTS {
            let t = said(qm_reports_as_json_string(h));
            check((t == SAID) == (made == ERROR) && !t.is_empty(), "no text of reports");
            // reports are not there to be compared
            let r = o.raw(REPORTS);
            let first = flag("first");
            let c = if first { qm_assert_approx_eq_reports(h, r, 0.1, 0.1, 0.1) } else { qm_assert_approx_eq_reports(r, h, 0.1, 0.1, 0.1) };
            check(qm_is_error(c), "only reports are compared");
            check((said(qm_error_string(c)) == SAID) == (made == ERROR), "an error handle keeps what it says");
            qm_free_handle(c);
            cover(1);
        } else {
            holds(&o, h, REPORTS);
            let c = qm_assert_approx_eq_reports(h, o.raw(REPORTS), 0.1, 0.1, 0.1);
            check(!qm_is_error(c), "reports are as themselves");
            qm_free_handle(c);
            cover(2);
        }
    }
    h_c26_calculate {
        // one of the handles given may be of any kind
        let o = objects();
        let right = [PRICER, INSTRUMENT, FIXINGS, MARKET, GENERATOR, GENERATOR];
        let mut kinds = right;
        let n = pick("generators", 3);
        let at = pick("wrong at", 4 + n as i64);
        kinds[at] = pick("given", KINDS);
        let h: Vec<u64> = kinds.iter().map(|k| o.raw(*k)).collect();
        let made = qm_calculate(h[0], h[1], h[2], h[3], n as u32, h[4..].as_ptr());
        let ok = kinds == right;
        check(qm_is_error(made) == !ok, "results just when every handle is of the kind needed");
        if kinds[at] == ERROR { check(said(qm_error_string(made)) == SAID, "an error handle keeps what it says"); }
        if ok {
            let got = val(eh::as_reports(made), "reports");
            let direct = val(facade::calculate(o.pricer.clone(), o.instrument.clone(), o.fixings.clone(), o.market.clone(), &vec![o.generator.clone(); n]), "reports");
            check(got.len() == n && direct.len() == n, "one report for each generator");
            for i in 0..n {
                let (a, b) = (got[i].as_any().downcast_ref::<DeltaGammaReport>().expect("report"), direct[i].as_any().downcast_ref::<DeltaGammaReport>().expect("report"));
                check(a.results().len() == 1, "one underlying");
                same(a.results()["A"].delta(), b.results()["A"].delta(), "the figures that were calculated");
                same(a.results()["A"].delta(), 1.0, "a share moves with its spot");
            }
            cover(1);
        } else { cover(2); qm_free_handle(made); }
        for i in 0..6 { holds(&o, h[i], kinds[i]); qm_free_handle(h[i]); }
    }
    // ------------------------------------------------------------ C28
    h_c28_figures {
        // every figure matters, to within the tolerance of its kind
        let s = Shape { kind: pick("kind", 3), ids: pick("underlyings", 3) };
        let (x, y) = (figures(["x", "x2"]), figures(["y", "y2"]));
        let (h, price, ccy, unit) = (real("bump", 0.001, 0.5), real("price tolerance", 0.001, 1.0), real("currency tolerance", 0.001, 1.0), real("unit tolerance", 0.001, 1.0));
        let tol = match s.kind { 0 => [unit / h, unit / (h * h)], 1 => [ccy / h, ccy / (h * h)], _ => [price, price] };
        let r = facade::assert_approx_eq_reports(&read(vec![report(s, h, x, None)]), &read(vec![report(s, h, y, None)]), price, ccy, unit);
        let d = apart(x, y, tol);
        if d[0] > 0.0 || d[1] > 0.0 { check(r.is_err(), "a difference beyond tolerance is found"); cover(1); }
        if d[0] < 0.0 && d[1] < 0.0 { check(r.is_ok(), "differences within tolerance are none"); cover(2); }
    }
    h_c28_shape {
        // the kinds of report, their number and their underlyings must agree
        let n = [pick("reports", 3), pick("expected", 3)];
        let x = figures(["x", "x2"]);
        let mut all = vec![];
        for i in 0..2 {
            let mut v = vec![];
            for j in 0..n[i] { v.push(Shape { kind: pick("kind", 3), ids: if j == 0 { pick("underlyings", 3) } else { 2 } }); }
            all.push(v);
        }
        let made: Vec<Vec<BoxReport>> = all.iter().map(|v| read(v.iter().map(|s| report(*s, 0.01, x, None)).collect())).collect();
        let same_shape = n[0] == n[1] && (0..n[0]).all(|i| all[0][i].kind == all[1][i].kind && (all[0][i].kind == 2 || all[0][i].ids == all[1][i].ids));
        let r = facade::assert_approx_eq_reports(&made[0], &made[1], 0.1, 0.1, 0.1);
        check(r.is_ok() == same_shape, "the same reports on the same underlyings");
        if same_shape { cover(1) } else { cover(2) }
    }
    h_c28_nested {
        // reports within a report for a later time are compared as well
        let kinds = [pick("kind", 4), pick("expected kind", 4)];
        let (x, y) = (figures(["x", "x2"]), figures(["y", "y2"]));
        let inner = |k: usize, f: [f64; 2]| if k == 3 { None } else { Some(report(Shape { kind: k, ids: 2 }, 0.1, f, None)) };
        let outer = Shape { kind: 2, ids: 0 };
        let (price, ccy, unit) = (real("price tolerance", 0.001, 1.0), real("currency tolerance", 0.001, 1.0), real("unit tolerance", 0.001, 1.0));
        let r = facade::assert_approx_eq_reports(&read(vec![report(outer, 0.1, [1.0, 2.0], inner(kinds[0], x))]), &read(vec![report(outer, 0.1, [1.0, 2.0], inner(kinds[1], y))]), price, ccy, unit);
        if kinds[0] != kinds[1] { check(r.is_err(), "different kinds of report"); cover(1); return; }
        let tol = match kinds[0] { 0 => [unit * 10.0, unit * 100.0], 1 => [ccy * 10.0, ccy * 100.0], _ => [price, price] };
        let d = apart(x, y, tol);
        if kinds[0] == 3 { check(r.is_ok(), "nothing within"); return; }
        if d[0] > 1e-6 || d[1] > 1e-6 { check(r.is_err(), "a difference beyond tolerance is found"); cover(2); }
        if d[0] < -1e-6 && d[1] < -1e-6 { check(r.is_ok(), "differences within tolerance are none"); cover(3); }
    }
    // ------------------------------------------------------------ C30
    h_c30_short {
        // short texts of any printable letters
        let kind = 1 + pick("kind", 7);
        let n = 1 + pick("length", 3);
        let t: Vec<u8> = (0..n).map(|_| int("letter", 32, 126) as u8).collect();
        if kind == REPORTS { assume(t[0] != b'[' && t[0] != b' '); }
        // no fractions, whose digits would be printed in the error
        if n == 3 { assume(t[1] != b'.' && t[1] != b'e' && t[1] != b'E'); }
        refused(read_text(kind, &t), "a few letters are no object");
        cover(1);
    }
    h_c30_read {
        // a text read as the kind it is for, or another
        let c = int("letter", 32, 126) as u8;
        assume(c != b'"' && c != b'\\');
        let (made, asked) = (1 + pick("made", 7), 1 + pick("asked", 7));
        let h = read_text(asked, &text(made, c));
        if made != asked { refused(h, "a text for another kind is refused"); cover(2); return; }
        check(!qm_is_error(h), "the text can be read");
        let id = [b'A', c, b'C'];
        let id = std::str::from_utf8(&id).expect("a name");
        match ask_raw(h, asked) {
            Ok(Got::Instrument(x)) => { check(x.id() == id && x.credit_id() == "X" && x.payoff_currency().id() == "GBP", "the instrument described"); cover(1); }
            Ok(Got::Currency(x)) => { check(x.id() == id, "the currency described"); cover(1); }
            Ok(Got::Market(x)) => {
                same(val(x.spot(id), "spot"), 12.5, "the market data described");
                check(x.spot("A").is_err() && x.spot_date() == quantmath::dates::Date::from_ymd(2018, 6, 4), "the market data described");
                cover(1);
            }
            Ok(Got::Fixings(x)) => {
                let t = |d: u32| DateTime::new(quantmath::dates::Date::from_ymd(2017, 12, d as u16 as _), TimeOfDay::Close);
                match x.get(id, t(25)) { Ok(Some(v)) => same(v, 12.5, "the fixings described"), _ => check(false, "the fixings described") }
                check(x.get(id, t(24)).is_err() && x.get("A", t(25)).is_err(), "the fixings described");
                cover(1);
            }
            Ok(Got::Reports(x)) => {
                let r = x[0].as_any().downcast_ref::<DeltaGammaReport>().expect("report");
                check(x.len() == 1 && r.results().len() == 1, "the reports described");
                same(r.results()[id].delta(), 12.5, "the reports described");
                cover(1);
            }
            Ok(_) => cover(1),
            Err(_) => check(false, "the kind asked for"),
        }
        if made != REPORTS { qm_free_handle(h); }
    }
    h_c30_cut {
        // a text that ends too early
        let kind = 1 + pick("kind", 7);
        let t = text(kind, b'B');
        let n = pick("length", t.len() as i64);
        refused(read_text(kind, &t[..n]), "a text that was cut is refused");
        cover(1);
    }
    h_c30_wrong {
        // a letter that is not the one wanted, outside of names and white space
        let kind = 1 + pick("kind", 7);
        let mut t = text(kind, b'B');
        let at = pick("at", 15.min(t.len() as i64));
        let c = int("letter", 33, 126) as u8;
        // not in names that the user chooses
        assume(t[at] != b' ' && (at < 7 || kind != CURRENCY) && c != t[at]);
        // an empty list of reports is one, whatever follows it
        if kind == REPORTS && at == 1 { assume(c != b']'); }
        t[at] = c;
        refused(read_text(kind, &t), "a text with a wrong letter is refused");
        cover(1);
    }
    h_c30_shared {
        // parts named by their ids: those given, or those met before where that is asked for
        let rule = r#"{"BusinessDays": {"calendar": {"WeekdayCalendar": []}, "step": 2, "slip_forward": true}}"#;
        let ccy = [format!(r#"{{"id": "GBP", "settlement": {}}}"#, rule), r#""GBP""#.to_string()];
        let equity = |id: &str, c: usize| format!(r#"{{"Equity": {{"id": "{}", "credit_id": "X", "currency": {}, "settlement": {}}}}}"#, id, ccy[c], rule);
        let ids = [pick("currency of the basket", 2), pick("currency of the first", 2), pick("currency of the second", 2)];
        let again = flag("second by id");
        let t = format!(r#"{{"Basket": {{"id": "K", "credit_id": "Y", "currency": {}, "settlement": {}, "basket": [[2.0, {}], [0.5, {}]]}}}}"#,
            ccy[ids[0]], rule, equity("A", ids[1]), if again { r#""A""#.to_string() } else { equity("B", ids[2]) });
        let how = |k: usize| match k { 0 => QmDedupControl::QmErrorIfMissing, 1 => QmDedupControl::QmInline, _ => QmDedupControl::QmWriteOnce };
        let (c, i) = (pick("currencies", 3), pick("instruments", 3));
        // what is given: currencies EUR and GBP, instruments B and A, from the first
        let (nc, ni) = (pick("currencies given", 3), pick("instruments given", 3));
        let (eur, gbp) = (currency("EUR", 2), currency("GBP", 2));
        let (a, b) = (stock("A", "X"), stock("B", "X"));
        let cs = [eh::from_handle(Ok(Handle::from_currency(Ok(eur.clone())))), eh::from_handle(Ok(Handle::from_currency(Ok(gbp.clone()))))];
        let is = [eh::from_handle(Ok(Handle::from_instrument(Ok(b.clone())))), eh::from_handle(Ok(Handle::from_instrument(Ok(a.clone()))))];
        let mut bytes = t.into_bytes();
        bytes.push(0);
        let h = qm_instrument_from_json_string(bytes.as_ptr() as *const std::os::raw::c_char, how(c), nc as u32, cs.as_ptr(), how(i), ni as u32, is.as_ptr());
        let mut known = nc == 2;
        let mut ok = true;
        let seen = if again { &ids[..2] } else { &ids[..] };
        for by_id in seen.iter() {
            if *by_id == 1 { ok = ok && known; } else if c == 2 { known = true; }
        }
        if again { ok = ok && (ni == 2 || i == 2); }
        check(qm_is_error(h) == !ok, "read just when every part named by its id is known");
        if ok {
            let x = val(eh::as_instrument(h), "instrument");
            check(x.id() == "K" && x.payoff_currency().id() == "GBP", "the instrument described");
            if ids[0] == 1 { check(at_same(x.payoff_currency(), &*gbp), "the currency given"); cover(3); }
            cover(1);
        } else { check(said(qm_error_string(h)) != PANICKED, "the error says what is wrong"); cover(2); }
        for k in [h, cs[0], cs[1], is[0], is[1]].iter() { qm_free_handle(*k); }
    }
}
