//! Values of options, holdings and positions, and what fixing turns them into.
use quantmath::core::dedup::InstanceId;
use crate::data::*;
use crate::dates::date;
use crate::fix::*;
use crate::pricing::pricer;
use crate::risk::*;
use crate::vp::*;
use quantmath::data::fixings::*;
use quantmath::data::volsurface::*;
use quantmath::dates::datetime::*;
use quantmath::instruments::assets::*;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::math::optionpricing::Black76;
use quantmath::pricers::selfpricer::*;
use quantmath::pricers::PricerFactory;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use std::sync::Arc;

/// Market data of one or two equities, with a displaced and skewed surface or a flat one.
fn market() -> (Inputs, MarketData) {
    let inp = inputs(flag("skew"));
    let data = inp.data();
    (inp, data)
}
fn time(name: &str) -> TimeOfDay { if flag(name) { CLOSE } else { OPEN } }
fn european(id: &str, on: &RcInstrument, expiry: DateTime, k: f64, call: bool, cash: bool) -> SpotStartingEuropean {
    val(SpotStartingEuropean::new(id, "X", on.clone(), rule(2), expiry, k, if call { PutOrCall::Call } else { PutOrCall::Put }, if cash { OptionSettlement::Cash } else { OptionSettlement::Physical }), "an option")
}
fn starting(id: &str, on: &RcInstrument, strike: DateTime, expiry: DateTime, k: f64, call: bool, cash: bool) -> ForwardStartingEuropean {
    val(ForwardStartingEuropean::new(id, "X", on.clone(), rule(2), expiry, k, strike, if call { PutOrCall::Call } else { PutOrCall::Put }, if cash { OptionSettlement::Cash } else { OptionSettlement::Physical }), "an option")
}
fn price(i: &dyn Priceable, c: &dyn PricingContext, t: DateTime) -> f64 { val(i.price(c, t), "a price") }
fn day(t: DateTime) -> DateDayFraction { DateDayFraction::new(t.date(), if t.time_of_day() == CLOSE { 0.8 } else { 0.0 }) }
/// From the payment of a trade at one time to that of a trade at another.
fn discount(inp: &Inputs, credit: &str, from: DateTime, to: DateTime) -> f64 {
    let c = &inp.yields[credit];
    let (s, p) = (rule(2).apply(from.date()), rule(2).apply(to.date()));
    (val(c.rt(s), "rate") - val(c.rt(p), "rate")).exp()
}
/// What the Black formula is given: discount, displaced forward and strike, and the surface.
fn black(inp: &Inputs, data: &MarketData, on: &RcInstrument, seen: DateTime, from: DateTime, expiry: DateTime, k: f64) -> (f64, f64, f64, f64) {
    let f = val(data.forward_curve(&**on, expiry.date()), "forward curve");
    let s = &inp.vols[on.id()];
    let d = val(s.displacement(expiry.date()), "displacement");
    let start = if day(from) > day(seen) { day(from) } else { day(seen) };
    let v = val(s.forward_variance(start, day(expiry), k), "variance");
    (discount(inp, "X", seen, expiry), val(f.forward(expiry.date()), "forward") - d, k - d, v)
}
const EXPIRY: [i64; 4] = [0, 3, 40, 90];
const VAL: [i64; 4] = [0, 1, 3, 41];

harnesses! {
    // ------------------------------------------------------------ C21
    h_c21_value {
        let (inp, data) = market();
        let a = stock("A", "X");
        let expiry = when(B + EXPIRY[pick("expiry", 4)], time("expires at close"));
        let seen = when(B + VAL[pick("valued", 4)], time("valued at close"));
        assume(expiry > when(B, OPEN));
        let k = real("strike", 0.5, 500.0);
        let call = flag("call");
        let o = european("o", &a, expiry, k, call, true);
        if seen <= expiry && inp.vols["A"].forward_variance(day(seen), day(expiry), k).is_err() {
            check(o.price(&data, seen).is_err(), "no price without a variance");
            return;
        }
        let p = price(&o, &data, seen);
        if seen > expiry { same(p, 0.0, "nothing after expiry"); cover(1); return; }
        let (df, f, k, v) = black(&inp, &data, &a, seen, seen, expiry, k);
        if k < 0.0 {
            same(p, if call { df * (f - k) } else { 0.0 }, "a strike below all possible spots");
            cover(4);
        } else if v == 0.0 {
            // f > k is the sign of the logarithm, which the code looks at as well
            let (x, l) = (if call { f - k } else { k - f }, (f / k).ln());
            if l == 0.0 { assume(f == k); }
            same(p, df * if l == 0.0 || (l > 0.0) != call { 0.0 } else { x }, "with no variance left the payoff");
            cover(2);
        } else {
            let b = val(Black76::new(), "black");
            same(p, if call { b.call_price(df, f, k, v.sqrt()) } else { b.put_price(df, f, k, v.sqrt()) }, "the Black value on the forward");
            cover(3);
        }
    }
    h_c21_settle {
        // premium and payoff settle by the rule of the option, not that of the underlying
        let inp = inputs(false);
        let data = inp.data();
        let a = stock("A", "X");
        let r = rule([0, 1, 5][pick("lag", 3)]);
        let (strike, expiry) = (when(B + 3, CLOSE), when(B + EXPIRY[2 + pick("expiry", 2)], time("expires at close")));
        let seen = when(B + VAL[pick("valued", 3)], OPEN);
        let k = real("strike", 50.0, 200.0);
        let (put, cash) = (PutOrCall::Put, OptionSettlement::Cash);
        let (o, other): (RcInstrument, RcInstrument) = if flag("forward start") {
            (rc(val(ForwardStartingEuropean::new("o", "X", a.clone(), r.clone(), expiry, 1.25, strike, put, cash), "an option")), rc(starting("o", &a, strike, expiry, 1.25, false, true)))
        } else { (rc(val(SpotStartingEuropean::new("o", "X", a.clone(), r.clone(), expiry, k, put, cash), "an option")), rc(european("o", &a, expiry, k, false, true))) };
        let (p, q) = (price(o.as_priceable().expect("priceable"), &data, seen), price(other.as_priceable().expect("priceable"), &data, seen));
        let c = &inp.yields["X"];
        let df = (val(c.rt(r.apply(seen.date())), "rate") - val(c.rt(r.apply(expiry.date())), "rate")).exp();
        same(p * discount(&inp, "X", seen, expiry), q * df, "discounted between the dates of its own settlement");
        cover(1);
    }
    h_c21_parity {
        // a call less a put is a forward, at any strike, for both kinds of option
        let (inp, data) = market();
        let a = stock("A", "X");
        let expiry = when(B + EXPIRY[1 + pick("expiry", 3)], time("expires at close"));
        let seen = when(B + VAL[pick("valued", 3)], OPEN);
        let f = val(val(data.forward_curve(&*a, expiry.date()), "forward curve").forward(expiry.date()), "forward");
        let df = discount(&inp, "X", seen, expiry);
        let k = real("strike", 10.0, 500.0);
        assume(inp.vols["A"].forward_variance(day(seen), day(expiry), k).is_ok());
        let (c, p) = (price(&european("c", &a, expiry, k, true, true), &data, seen), price(&european("p", &a, expiry, k, false, false), &data, seen));
        same(c - p, df * (f - k), "call less put");
        cover(1);
    }
    h_c21_start {
        // a strike that is a fraction of the forward, variance from the strike date only
        let mut inp = inputs(false);
        if flag("skew") { inp.vols.insert("A".to_string(), plane(0.3)); }
        let data = inp.data();
        let a = stock("A", "X");
        let expiry = when(B + EXPIRY[1 + pick("expiry", 3)], CLOSE);
        let strike = when(B + [0, 2, 30][pick("strike date", 3)], time("strikes at close"));
        assume(strike <= expiry && strike > when(B, OPEN));
        let seen = when(B + VAL[pick("valued", 4)], OPEN);
        let fraction = real("fraction", 0.5, 2.0);
        let call = flag("call");
        let o = starting("o", &a, strike, expiry, fraction, call, true);
        let fc = val(data.forward_curve(&*a, expiry.date()), "forward curve");
        let k = fraction * val(fc.forward(strike.date()), "forward");
        let start = if strike > seen { strike } else { seen };
        if seen <= expiry {
            match inp.vols["A"].forward_variance(day(start), day(expiry), k) {
                Err(_) => { check(o.price(&data, seen).is_err(), "no price without a variance"); return; }
                Ok(v) => assume(v > 0.0),
            }
        }
        let p = price(&o, &data, seen);
        if seen > expiry { same(p, 0.0, "nothing after expiry"); cover(1); return; }
        let (df, f, k, v) = black(&inp, &data, &a, seen, start, expiry, k);
        let b = val(Black76::new(), "black");
        same(p, if call { b.call_price(df, f, k, v.sqrt()) } else { b.put_price(df, f, k, v.sqrt()) }, "the Black value with the forward strike");
        cover(2);
    }
    h_c21_spot_start {
        // once the variance starts at the valuation, a forward start is a spot start at the fraction of the forward
        let inp = inputs(false);
        let data = inp.data();
        let a = stock("A", "X");
        let expiry = when(B + EXPIRY[2 + pick("expiry", 2)], CLOSE);
        let strike = when(B, CLOSE);
        let seen = when(B + [0, 1][pick("valued", 2)], CLOSE);
        let fraction = real("fraction", 0.2, 3.0);
        let (call, cash) = (flag("call"), flag("cash"));
        let k = fraction * inp.spots["A"];
        same(price(&starting("o", &a, strike, expiry, fraction, call, cash), &data, seen), price(&european("o", &a, expiry, k, call, cash), &data, seen), "a forward start is a spot start at its strike");
        cover(1);
    }
    h_c21_refused {
        let data = inputs(false).data();
        let a = stock("A", "X");
        let expiry = when(B + 40, CLOSE);
        let k = real("strike", -10.0, 10.0);
        let made = SpotStartingEuropean::new("o", "X", a.clone(), rule(2), expiry, k, PutOrCall::Put, OptionSettlement::Cash).is_ok();
        check(made == (k >= 0.0), "a strike is at least zero");
        let made = ForwardStartingEuropean::new("o", "X", a.clone(), rule(2), expiry, k, when(B, CLOSE), PutOrCall::Put, OptionSettlement::Cash).is_ok();
        check(made == (k > 0.0), "a strike fraction is above zero");
        let start = B + [-5, -1, 0, 5][pick("strike date", 4)];
        let o = starting("o", &a, when(start, CLOSE), expiry, 1.0, true, true);
        if start < B { check(o.price(&data, when(B, OPEN)).is_err(), "a forward start of the past has no price before it is fixed"); cover(1); }
        else { val(o.price(&data, when(B, OPEN)), "a forward start of today or later has a price"); cover(2); }
    }
    h_c21_dates {
        // many valuation dates at once give what each gives alone
        let data = inputs(false).data();
        let a = stock("A", "X");
        let expiry = when(B + 40, time("expires at close"));
        let k = 100.0;
        let o: RcInstrument = if flag("forward start") { rc(starting("o", &a, when(B + 3, CLOSE), expiry, 1.1, true, true)) } else { rc(european("o", &a, expiry, k, false, true)) };
        let t: Vec<DateTime> = (0..3).map(|i| when(B + [[0, 1, 40], [1, 40, 50], [40, 41, 42]][pick(["d0", "d1", "d2"][i], 3)][i], OPEN)).collect();
        let p = o.as_priceable().expect("priceable");
        let mut all = [0.0; 3];
        val(p.prices(&data, &t, &mut all), "prices");
        for i in 0..3 { same(all[i], price(p, &data, t[i]), "each of many dates"); }
        val(p.prices(&data, &[], &mut []), "no dates");
        cover(1);
    }
    // ------------------------------------------------------------ C22
    h_c22_option {
        // known, missing or not yet due at expiry
        let inp = inputs(false);
        let data = inp.data();
        let a = stock("A", "X");
        let (expiry, at_close) = (B + [0, 4][pick("expiry", 2)], flag("expires at close"));
        let expiry = when(expiry, if at_close { CLOSE } else { OPEN });
        let (call, cash) = (flag("call"), flag("cash"));
        let (k, s) = (real("strike", 1.0, 300.0), real("fixing", 1.0, 300.0));
        let o = european("o", &a, expiry, k, call, cash);
        // the time of the fixing there is, and the last date fully known
        let there = [expiry, when(B, if at_close { OPEN } else { CLOSE }), when(B - 7, CLOSE)][pick("fixing at", 3)];
        let until = B + [-1, 0, 1, 4, 5][pick("known until", 5)];
        let table = val(FixingTable::from_fixings(date(until), &[("A", &[(there, s)]), ("B", &[(expiry, 7.0)])]), "fixings");
        let r = o.fix(&table);
        if there != expiry {
            if expiry.date() < date(until) { check(r.is_err(), "a missing fixing of the past is an error"); cover(1); }
            else { check(val(r, "fixing").is_none(), "nothing changes before the fixing"); cover(2); }
            return;
        }
        let parts = val(r, "fixing");
        check(parts.is_some(), "an option fixes at its expiry");
        let parts = parts.expect("parts");
        let up = if call { s > k } else { k > s };
        check(parts.len() == if !up { 0 } else if cash { 1 } else { 2 }, "the flows of the settlement");
        let sign = if call { 1.0 } else { -1.0 };
        let (mut paid, mut stock) = (0.0, 0.0);
        for (w, i) in parts.iter() {
            if i.id() == "A" { stock += *w; }
            else {
                check(i.id() == "o:payment" && i.credit_id() == "X" && i.payoff_currency().id() == "GBP", "a payment of the option");
                paid += *w;
                let t = when(B, OPEN);
                let p = i.as_priceable().expect("priceable");
                same(price(p, &data, t), discount(&inp, "X", t, expiry), "paid when the option settles");
                same(price(p, &data, when(B + 30, OPEN)), 0.0, "gone after expiry");
                cover(3);
            }
        }
        if !up { same(paid, 0.0, "nothing out of the money"); cover(4); }
        else if cash { same(paid, sign * (s - k), "the payoff in cash"); }
        else { same(paid, -sign * k, "the strike against the stock"); same(stock, sign, "the stock against the strike"); cover(5); }
    }
    h_c22_start {
        // a forward start becomes a spot start, which may itself be fixed
        let a = stock("A", "X");
        let data = inputs(false).data();
        let (strike, expiry) = (when(B - 3, time("strikes at close")), when(B + [-1, 4][pick("expiry", 2)], CLOSE));
        let (call, cash) = (flag("call"), flag("cash"));
        let fraction = real("fraction", 0.5, 2.0);
        let (s, e) = (real("strike fixing", 50.0, 150.0), real("expiry fixing", 50.0, 150.0));
        let o = starting("o", &a, strike, expiry, fraction, call, cash);
        let until = B + [-4, -3, -2, 0][pick("known until", 4)];
        let (has_strike, has_expiry) = (flag("strike known"), flag("expiry known"));
        let mut f = vec![];
        if has_strike { f.push((strike, s)); }
        if has_expiry { f.push((expiry, e)); }
        let table = val(FixingTable::from_fixings(date(until), &[("A", &f[..])]), "fixings");
        let r = o.fix(&table);
        if !has_strike {
            if strike.date() < date(until) { check(r.is_err(), "a missing strike of the past is an error"); cover(1); }
            else { check(val(r, "fixing").is_none(), "nothing changes before the strike is known"); cover(2); }
            return;
        }
        let spot = european("o", &a, expiry, s * fraction, call, cash);
        let later = spot.fix(&table);
        if later.is_err() { check(r.is_err(), "a missing fixing of the past is an error"); cover(3); return; }
        let parts = val(r, "fixing").expect("parts");
        match val(later, "fixing") {
            None => {
                check(parts.len() == 1 && parts[0].1.id() == "o", "a forward start becomes a spot start");
                same(parts[0].0, 1.0, "one spot start");
                if expiry.date() > date(B) {
                    let t = when(B, OPEN);
                    same(price(parts[0].1.as_priceable().expect("priceable"), &data, t), price(&spot, &data, t), "of the known strike");
                    cover(4);
                }
                // nothing is left to fix until expiry
                check(val(parts[0].1.fix(&table), "fixing").is_none(), "fixed once");
            }
            Some(x) => {
                check(x.len() == parts.len(), "both fixings at once");
                for i in 0..x.len() { same(parts[i].0, x[i].0, "both fixings at once"); check(parts[i].1.id() == x[i].1.id(), "both fixings at once"); }
                cover(5);
            }
        }
    }
    h_c22_still {
        // instruments with nothing to observe do not change
        let w = two(false, "Y");
        let k = pick("instrument", 4);
        let i = some_instrument(k, &w, B - 10);
        let table = val(FixingTable::from_fixings(date(B), &[("A", &[(when(B - 10, CLOSE), 100.0)]), ("bond", &[(when(B - 10, CLOSE), 100.0)])]), "fixings");
        check(val(i.fix(&table), "fixing").is_none(), "nothing to fix");
        cover(1);
    }
    h_c22_all {
        // positions: what changes is replaced where it stands, with its weight
        let w = two(false, "Y");
        let s = real("fixing", 50.0, 150.0);
        let table = val(FixingTable::from_fixings(date(B), &[("A", &[(when(B - 1, CLOSE), s)])]), "fixings");
        let n = 1 + pick("number", 4);
        let mut parts: Vec<(f64, RcInstrument)> = vec![];
        let mut expected: Vec<(f64, &str)> = vec![];
        let mut any = false;
        for i in 0..n {
            let x = real(["w0", "w1", "w2", "w3"][i], -10.0, 10.0);
            match pick(["k0", "k1", "k2", "k3"][i], 4) {
                0 => { parts.push((x, w.a.clone())); expected.push((x, "A")); }
                1 => { parts.push((x, rc(european("late", &w.a, when(B + 4, CLOSE), 100.0, true, true)))); expected.push((x, "late")); }
                2 => { parts.push((x, rc(european("cash", &w.a, when(B - 1, CLOSE), 25.0, true, true)))); expected.push((x * (s - 25.0), "cash:payment")); any = true; }
                _ => { parts.push((x, rc(european("both", &w.a, when(B - 1, CLOSE), 200.0, false, false)))); expected.push((x * 200.0, "both:payment")); expected.push((-x, "A")); any = true; }
            }
        }
        match val(fix_all(&parts, &table), "fixing") {
            None => { check(!any, "a position with an expired option changes"); cover(1); }
            Some(r) => {
                check(any, "a position with nothing to fix does not change");
                check(r.len() == expected.len(), "each part is replaced by what it fixes to");
                for i in 0..r.len() { check(r[i].1.id() == expected[i].1, "in order"); same(r[i].0, expected[i].0, "with its weight"); }
                cover(2);
            }
        }
    }
    h_c22_basket {
        // a basket fixes inside, also in depth, and keeps its value
        let w = two(false, "Y");
        let data = inputs(false).data();
        let (x, y, z, s) = (real("x", -5.0, 5.0), real("y", -5.0, 5.0), real("z", -5.0, 5.0), real("fixing", 50.0, 150.0));
        let start = |id: &str| rc(starting(id, &w.a, when(B - 1, CLOSE), when(B + 40, CLOSE), 1.25, true, true));
        let known = flag("known");
        let inner = flag("inside");
        let first = rc(basket("inner", vec![(y, w.b.clone()), (z, start("o"))]));
        let i = if inner { basket("outer", vec![(2.0, w.a.clone()), (x, first)]) } else { basket("outer", vec![(x, start("o")), (y, w.a.clone()), (z, rc(bond("c", "Y", B + 20, B + 30)))]) };
        let f = [(when(B - 1, CLOSE), s)];
        let table = val(FixingTable::from_fixings(date(B - if known { 0 } else { 1 }), &[("A", &f[..if known { 1 } else { 0 }])]), "fixings");
        let r = val(i.fix(&table), "fixing");
        if !known { check(r.is_none(), "nothing changes before the fixing"); cover(1); return; }
        check(r.is_some(), "the basket changes");
        let r = r.expect("parts");
        check(r.len() == 1 && r[0].1.id() == "outer:fixed", "one basket in place of the other");
        check(r[0].1.credit_id() == i.credit_id() && r[0].1.payoff_currency().id() == i.payoff_currency().id(), "of the same credit and currency");
        same(r[0].0, 1.0, "one of it");
        let t = when(B, OPEN);
        let o = price(&european("o", &w.a, when(B + 40, CLOSE), s * 1.25, true, true), &data, t);
        let (a, b) = (price(w.a.as_priceable().expect("priceable"), &data, t), price(w.b.as_priceable().expect("priceable"), &data, t));
        let c = price(&bond("c", "Y", B + 20, B + 30), &data, t);
        let v = price(r[0].1.as_priceable().expect("priceable"), &data, t);
        same(v, if inner { 2.0 * a + x * (y * b + z * o) } else { x * o + y * a + z * c }, "the value of its parts as fixed");
        cover(2);
    }
    h_c22_twice {
        // fixing by steps is fixing at once
        let w = two(false, "Y");
        let (s, e) = (real("strike fixing", 50.0, 150.0), real("expiry fixing", 50.0, 150.0));
        let (call, cash) = (flag("call"), flag("cash"));
        let (strike, expiry) = (when(B - 3, CLOSE), when(B - 1, CLOSE));
        let parts = vec![(real("x", -5.0, 5.0), w.b.clone()), (real("y", -5.0, 5.0), rc(starting("o", &w.a, strike, expiry, 1.25, call, cash)))];
        let early = val(FixingTable::from_fixings(date(B - 2), &[("A", &[(strike, s)])]), "fixings");
        let late = val(FixingTable::from_fixings(date(B), &[("A", &[(strike, s), (expiry, e)])]), "fixings");
        let step = val(fix_all(&parts, &early), "fixing").expect("struck");
        let two = val(fix_all(&step, &late), "fixing").expect("expired");
        let one = val(fix_all(&parts, &late), "fixing").expect("expired");
        check(one.len() == two.len(), "by steps as at once");
        for i in 0..one.len() { check(one[i].1.id() == two[i].1.id(), "by steps as at once"); same(one[i].0, two[i].0, "by steps as at once"); }
        cover(1);
    }
    // ------------------------------------------------------------ C23
    h_c23_basket {
        // a basket is the sum of its parts at any of several dates
        let w = two(false, "Y");
        let data = inputs(false).data();
        let n = 1 + pick("number", 3);
        let t: Vec<DateTime> = [[0, 1, 3], [0, 0, 40], [3, 40, 41], [1, 50, 90]][pick("dates", 4)][..n].iter().map(|&d| when(B + d, OPEN)).collect();
        let nested = flag("nested");
        let x: Vec<f64> = (0..3).map(|i| real(["w0", "w1", "w2"][i], -10.0, 10.0)).collect();
        let k = pick("instrument", KINDS);
        assume(k != 1);
        let i = some_instrument(k, &w, B + 40);
        let parts = vec![(x[0], w.a.clone()), (x[1], i.clone()), (x[2], w.b.clone())];
        let b = if nested { basket("outer", vec![(x[0], w.a.clone()), (2.0, rc(basket("inner", vec![(x[1] / 2.0, i.clone()), (x[2] / 2.0, w.b.clone())])))]) } else { basket("k", parts.clone()) };
        let mut all = [7.0; 3];
        val(b.prices(&data, &t, &mut all[..n]), "prices");
        for j in 0..n {
            let sum: f64 = parts.iter().map(|p| p.0 * price(p.1.as_priceable().expect("priceable"), &data, t[j])).sum();
            same(all[j], sum, "the weighted sum of the parts");
        }
        for j in n..3 { same(all[j], 7.0, "nothing beyond the dates"); }
        cover(1);
    }
    h_c23_position {
        // a pricer on several instruments, each of any kind
        let w = two(false, "Y");
        let data = inputs(false).data();
        let n = pick("number", 4);
        let x: Vec<f64> = (0..n).map(|i| real(["w0", "w1", "w2"][i], -10.0, 10.0)).collect();
        let first = pick("first", KINDS);
        assume(first != 1);
        let parts: Vec<(f64, RcInstrument)> = (0..n).map(|i| (x[i], some_instrument([first, 4, 6][i], &w, B + 40))).collect();
        let p = val(pricer(parts.clone(), &data).price(), "price");
        let t = when(B, OPEN);
        let sum: f64 = parts.iter().map(|p| p.0 * price(p.1.as_priceable().expect("priceable"), &data, t)).sum();
        same(p, sum, "the weighted sum of the instruments");
        cover(1);
    }
    h_c23_factory {
        // the pricer of one instrument, fixed first
        let w = two(false, "Y");
        let data = inputs(false).data();
        let s = real("fixing", 50.0, 150.0);
        let table = val(FixingTable::from_fixings(date(B), &[("A", &[(when(B - 1, CLOSE), s)])]), "fixings");
        let x = real("w", -5.0, 5.0);
        let i: RcInstrument = match pick("instrument", 5) {
            0 => w.a.clone(),
            1 => rc(starting("o", &w.a, when(B - 1, CLOSE), when(B + 40, CLOSE), 1.25, true, true)),
            2 => rc(european("o", &w.a, when(B - 1, CLOSE), 100.0, flag("call"), flag("cash"))),
            3 => rc(basket("k", vec![(x, w.b.clone()), (3.0, rc(starting("o", &w.a, when(B - 1, CLOSE), when(B + 40, CLOSE), 1.25, true, true)))])),
            _ => rc(bond("c", "X", B + 4, B + 9)),
        };
        let parts = match val(i.fix(&table), "fixing") { Some(v) => v, None => vec![(1.0, i.clone())] };
        let made = SelfPricerFactory::new().new(i.clone(), RcFixingTable::new(Arc::new(table)), RcMarketData::new(Arc::new(data.clone())));
        let p = val(val(made, "a pricer").price(), "price");
        let t = when(B, OPEN);
        let sum: f64 = parts.iter().map(|p| p.0 * price(p.1.as_priceable().expect("priceable"), &data, t)).sum();
        same(p, sum, "the weighted sum of what the instrument fixes to");
        cover(1);
    }
    h_c23_simple {
        // cash, stock and bonds, at any date
        let inp = inputs(false);
        let data = inp.data();
        let d = int("valued", B, B + 60);
        let t = when(d, time("valued at close"));
        let m: Vec<DateTime> = vec![when(B, OPEN), t];
        let mut two = [0.0; 2];
        let c = Currency::new("X", rule(2));
        val(c.prices(&data, &m, &mut two), "prices");
        same(two[0], 1.0, "cash is worth one");
        same(two[1], 1.0, "cash is worth one");
        let (ex, close) = (int("ex", B, B + 60), flag("ex at close"));
        let z = quantmath::instruments::bonds::ZeroCoupon::new("z", "Y", currency("GBP", 2), when(ex, if close { CLOSE } else { OPEN }), date(B + 70), rule(2));
        val(z.prices(&data, &m, &mut two), "prices");
        let gone = d > ex || (d == ex && t.time_of_day() == CLOSE && !close);
        if gone { same(two[1], 0.0, "nothing after it goes ex"); cover(1); }
        else {
            let y = &inp.yields["Y"];
            same(two[1], (val(y.rt(rule(2).apply(date(d))), "rate") - val(y.rt(date(B + 70)), "rate")).exp(), "discounted from payment to settlement");
            cover(2);
        }
    }
    h_c23_stock {
        let inp = inputs(false);
        let data = inp.data();
        let a = stock("A", "X");
        let p = a.as_priceable().expect("priceable");
        let d: Vec<i64> = (0..3).map(|i| B + [[0, 1, 2], [0, 30, 31], [1, 31, 90]][pick(["d0", "d1", "d2"][i], 3)][i]).collect();
        let f = val(data.forward_curve(&*a, date(B + 90)), "forward curve");
        let n = 1 + pick("number", 3);
        let t: Vec<DateTime> = (0..n).map(|i| when(d[i], time(["c0", "c1", "c2"][i]))).collect();
        let mut all = [0.0; 3];
        val(p.prices(&data, &t, &mut all[..n]), "prices");
        for i in 0..n {
            same(all[i], if d[i] == B { inp.spots["A"] } else { val(f.forward(date(d[i])), "forward") }, "spot today and the forward later");
        }
        cover(1);
    }
}
