//! Dates: Gregorian conversion, text, calendars, rules, day fractions.
use crate::vp::*;
use quantmath::core::factories::Qrc;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::*;
use quantmath::dates::Date;
use std::cmp::Ordering;
use std::str::FromStr;
use std::sync::Arc;

// ---- oracle: proleptic Gregorian calendar, counted from 0001-01-01 = day 1 (a Monday)
pub fn leap(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub fn month_len(y: i64, m: i64) -> i64 {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
pub fn days_before(m: i64) -> i64 {
    match m { 1 => 0, 2 => 31, 3 => 59, 4 => 90, 5 => 120, 6 => 151, 7 => 181, 8 => 212, 9 => 243, 10 => 273, 11 => 304, _ => 334 }
}
pub fn day_number(y: i64, m: i64, d: i64) -> i64 {
    let p = y - 1;
    365 * p + p / 4 - p / 100 + p / 400 + days_before(m) + (if m > 2 && leap(y) { 1 } else { 0 }) + d
}
/// 1968-05-24 is day 1 of the library's count.
pub const EPOCH: i64 = 718576 - 1;
/// 0001-01-01 .. 9999-12-31 in the library's count
pub const T_MIN: i64 = 1 - EPOCH;
pub const T_MAX: i64 = 3652059 - EPOCH;
/// dates the library calls valid
pub const V_MIN: i64 = 1;
pub const V_MAX: i64 = 200 * 365 - 1;

pub fn date(t: i64) -> Date { Date::from_truncated_julian(t as i32) }
pub fn num(d: Date) -> i64 { d.truncated_julian() as i64 }
/// 0 = Monday; for days after the epoch
pub fn weekday(t: i64) -> i64 { (t + (EPOCH - 1)) % 7 }
/// number of Mondays to Fridays before day t (up to a constant)
pub fn weekdays_before(t: i64) -> i64 { let u = t + 3; let r = u % 7; 5 * (u / 7) + if r < 5 { r } else { 5 } }

fn slipped(t: i64, forward: bool) -> i64 {
    let w = weekday(t);
    if w < 5 { t } else if forward { t + 7 - w } else { t + 4 - w }
}
fn b2i(b: bool) -> i64 { if b { 1 } else { 0 } }

/// Oracle for a calendar with weekends and a sorted list of weekday holidays.
struct Hol { h: Vec<i64> }
impl Hol {
    fn business(&self, t: i64) -> bool { weekday(t) < 5 && !self.h.iter().any(|&x| x == t) }
    fn before(&self, t: i64) -> i64 { let mut n = weekdays_before(t); for &x in &self.h { n -= b2i(x < t); } n }
    fn slip(&self, t: i64, forward: bool) -> i64 { let mut x = t; while !self.business(x) { x += if forward { 1 } else { -1 }; } x }
}
fn some_holidays(k: usize, lo: i64, hi: i64) -> Hol {
    let mut h = vec![];
    for i in 0..k {
        let x = int(["hol0", "hol1", "hol2"][i], lo, hi);
        assume(weekday(x) < 5);
        if i > 0 { assume(h[i - 1] < x); }
        h.push(x);
    }
    Hol { h }
}
fn holiday_calendar(h: &Hol) -> WeekdayAndHolidayCalendar {
    let v: Vec<Date> = h.h.iter().map(|&x| date(x)).collect();
    WeekdayAndHolidayCalendar::new("XXX", &v)
}

fn tod(k: usize) -> TimeOfDay { match k { 0 => TimeOfDay::Open, 1 => TimeOfDay::EDSP, _ => TimeOfDay::Close } }

harnesses! {
    // ------------------------------------------------------------ C01
    h_c01_to_ymd {
        let t = int("t", T_MIN, T_MAX);
        let date = Date::from_truncated_julian(t as i32);
        check(date.truncated_julian() as i64 == t, "day count is kept");
        let (y, m, d) = date.ymd();
        let (y, m, d) = (y as i64, m as i64, d as i64);
        check(1 <= y && y <= 9999, "year in range");
        check(1 <= m && m <= 12, "month in range");
        check(1 <= d && d <= 31, "day in range");
        check(d <= month_len(y, m), "day exists in its month");
        check(day_number(y, m, d) - EPOCH == t, "year, month and day are those of the Gregorian calendar");
        cover(1);
    }
    h_c01_from_ymd {
        let y = int("y", 1, 9999);
        let m = int("m", 1, 12);
        let d = int("d", 1, 31);
        assume(d <= month_len(y, m));
        let t = num(Date::from_ymd(y as i32, m as i32, d as i32));
        check(t == day_number(y, m, d) - EPOCH, "date of a year, month and day");
        cover(1);
    }
    h_c01_arithmetic {
        let t = int("t", T_MIN, T_MAX);
        let n = int("n", -5_000_000, 5_000_000);
        let d = date(t);
        check(num(d + n as i32) == t + n, "adding days");
        check(num(d - n as i32) == t - n, "subtracting days");
        let mut e = d; e += n as i32;
        check(e == d + n as i32, "adding in place");
        e -= n as i32;
        check(e == d, "subtracting in place");
        let u = int("u", T_MIN, T_MAX);
        let o = date(u);
        check((o - d) as i64 == u - t, "difference of dates");
        check((d < o) == (t < u) && (d > o) == (t > u) && (d == o) == (t == u) && (d <= o) == (t <= u), "order is chronological");
        check(d.cmp(&o) == t.cmp(&u), "total order is chronological");
        cover(1);
    }
    h_c01_weekday {
        let t = int("t", -1000, V_MAX + 1000);
        let d = date(t);
        check(d.is_valid() == (t >= V_MIN && t <= V_MAX), "valid dates are those of the documented range");
        if d.is_valid() {
            check(d.day_of_week() as i64 == weekday(t), "day of the week");
            cover(1);
        }
    }

    // ------------------------------------------------------------ C02
    h_c02_iso {
        // YYYY-MM-DD with arbitrary digits
        let mut b = *b"0000-00-00";
        let mut v = [0i64; 8];
        let at = [0, 1, 2, 3, 5, 6, 8, 9];
        for i in 0..8 { v[i] = int(["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7"][i], 0, 9); b[at[i]] = b'0' + v[i] as u8; }
        let (y, m, d) = (v[0] * 1000 + v[1] * 100 + v[2] * 10 + v[3], v[4] * 10 + v[5], v[6] * 10 + v[7]);
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        let exists = m >= 1 && m <= 12 && d >= 1 && d <= month_len(y, m);
        match Date::from_str(s) {
            Ok(r) => {
                check(exists, "text of a date that does not exist is an error");
                let t = day_number(y, m, d) - EPOCH;
                check(num(r) == t, "parsing gives the date written");
                check(t >= V_MIN && t <= V_MAX, "parsing accepts only dates of the supported range");
                cover(1);
            }
            Err(_) => {
                if exists { let t = day_number(y, m, d) - EPOCH; check(!(t >= V_MIN && t <= V_MAX), "well-formed text of a valid date is accepted"); }
                cover(2);
            }
        }
    }
    h_c02_print {
        // the printed text is the digits of year, month and day; that this text parses to the
        // same date is the subject of the harness above
        let t = int("t", V_MIN, V_MAX);
        let s = format!("{}", date(t));
        let (y, m, d) = date(t).ymd();
        let b = s.as_bytes();
        check(b.len() == 10, "printed date has the ISO length");
        check(b[4] == b'-' && b[7] == b'-', "printed date has hyphens");
        let dig = |i: usize| (b[i] - b'0') as i32;
        check(dig(0) * 1000 + dig(1) * 100 + dig(2) * 10 + dig(3) == y, "printed year");
        check(dig(5) * 10 + dig(6) == m, "printed month");
        check(dig(8) * 10 + dig(9) == d, "printed day");
        for i in 0..10 { if i != 4 && i != 7 { check(b[i] >= b'0' && b[i] <= b'9', "printed digits"); } }
        cover(1);
    }
    h_c02_print_parse {
        let t = int("t", 17900, 18300);
        let s = format!("{}", date(t));
        match Date::from_str(&s) {
            Ok(r) => { check(num(r) == t, "a printed date parses to itself"); cover(1); }
            Err(_) => check(false, "a printed date parses"),
        }
    }
    h_c02_short {
        // any text of up to 4 bytes: too short for any supported date, so an error (and no panic)
        let n = pick("len", 5);
        let mut b = [0u8; 4];
        for i in 0..n { b[i] = int(["b0", "b1", "b2", "b3"][i], 32, 126) as u8; }
        let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
        check(Date::from_str(s).is_err(), "text too short for a date is an error");
        cover(1);
    }
    h_c02_components {
        // up to five components of a few bytes each, any bytes that are not the separator
        let n = pick("components", 6);
        let mut b: Vec<u8> = Vec::new();
        let bad = pick("damaged component", 6);
        for i in 0..n {
            if i > 0 { b.push(b'-'); }
            if i == bad {
                let x = int("x", 32, 126);
                assume(x != b'-' as i64 && !(x >= b'0' as i64 && x <= b'9' as i64));
                let y = int("y", b'0' as i64, b'9' as i64);
                match pick("shape", 3) { 0 => {} 1 => { assume(x != b'+' as i64); b.push(x as u8); b.push(y as u8); } _ => { b.push(y as u8); b.push(x as u8); } }
            } else {
                let digits: &[u8] = if i == 0 { b"2017" } else { b"11" };
                b.extend_from_slice(digits);
            }
        }
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        let r = Date::from_str(s);
        if n == 3 && bad >= 3 {
            check(r.is_ok(), "three numeric components of a valid date are accepted");
            cover(2);
        } else {
            check(r.is_err(), "text that is not three numeric components is an error");
            cover(1);
        }
    }
    h_c02_damaged {
        // a good date with one character inserted or replaced
        let good = b"2017-11-08";
        let x = int("x", 32, 126);
        assume(!(x >= b'0' as i64 && x <= b'9' as i64));
        let insert = flag("insert");
        let at = pick("at", 11);
        let mut b: Vec<u8> = Vec::new();
        for i in 0..11 {
            if i == at { b.push(x as u8); if !insert { continue; } }
            if i < 10 { b.push(good[i]); }
        }
        if !insert && at == 10 { assume(false); }
        // a hyphen for a hyphen is no damage; a plus sign before a number is part of the number
        if !insert && (at == 4 || at == 7) { assume(x != b'-' as i64); }
        assume(x != b'+' as i64);
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        check(Date::from_str(s).is_err(), "a date with a foreign character is an error");
        cover(1);
    }
    h_c02_large {
        // numeric components of any size fitting the digits given
        let mut b = Vec::new();
        let big = pick("which", 3);
        for i in 0..3 {
            if i > 0 { b.push(b'-'); }
            if i == big {
                let k = pick("digits", 6);
                for j in 0..k + 5 { let x = int(["e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10"][j], 0, 9); if j == 0 { assume(x > 0); } b.push(b'0' + x as u8); }
            } else { let digits: &[u8] = if i == 0 { b"2017" } else { b"11" }; b.extend_from_slice(digits); }
        }
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        check(Date::from_str(s).is_err(), "components far out of range are an error");
        cover(1);
    }

    // ------------------------------------------------------------ C03
    h_c03_lemma {
        // the closed-form count used by the oracle is the day-by-day count
        let t = int("t", 1, 100_000);
        check(weekdays_before(t + 1) - weekdays_before(t) == b2i(weekday(t) < 5), "closed form counts day by day");
        cover(1);
    }
    h_c03_every {
        let cal = EveryDayCalendar::new();
        let (t, n) = (int("t", V_MIN, V_MAX), int("n", -70000, 70000));
        check(num(cal.step(date(t), n as i32, flag("forward"))) == t + n, "every day is a business day");
        check(!cal.is_holiday(date(t)), "no holidays");
        let u = int("u", V_MIN, V_MAX);
        let (f, g) = (real("from fraction", 0.0, 1.0), real("to fraction", 0.0, 1.0));
        let c = cal.count_business_days(date(t), f, date(u), g);
        same(c, if t > u { 0.0 } else { (u - t) as f64 + g - f }, "count of days");
        cover(1);
    }
    h_c03_weekday_step {
        let cal = WeekdayCalendar::new();
        let t = int("t", V_MIN + 3, V_MAX - 3);
        let n = int("n", -52000, 52000);
        let fwd = flag("forward");
        let adj = slipped(t, fwd);
        // stay inside the supported dates
        let rough = adj + n + 2 * (n / 5);
        assume(rough > V_MIN + 10 && rough < V_MAX - 10);
        let r = num(cal.step(date(t), n as i32, fwd));
        check(weekday(r) < 5, "a step ends on a business day");
        check(weekdays_before(r) - weekdays_before(adj) == n, "a step moves the asked number of business days");
        cover(1);
    }
    h_c03_weekday_count {
        let cal = WeekdayCalendar::new();
        let (t, u) = (int("t", V_MIN + 3, V_MAX - 3), int("u", V_MIN + 3, V_MAX - 3));
        let (f, g) = (real("from fraction", 0.0, 1.0), real("to fraction", 0.0, 1.0));
        let c = cal.count_business_days(date(t), f, date(u), g);
        check(cal.is_holiday(date(t)) == (weekday(t) > 4), "weekends are holidays");
        let expected = if t > u { 0.0 } else {
            (weekdays_before(u) - weekdays_before(t)) as f64 + (if weekday(u) < 5 { g } else { 0.0 }) - (if weekday(t) < 5 { f } else { 0.0 })
        };
        same(c, expected, "count of business days with partial end days");
        let w = cal.day_weight(date(t));
        same(w, if weekday(t) < 5 { 1.0 } else { 0.0 }, "weight of a day");
        cover(1);
    }
    h_c03_holiday_step {
        let base = 18000;
        let h = some_holidays(2, base, base + 400);
        let cal = holiday_calendar(&h);
        let t = int("t", base - 300, base + 700);
        let n = int("n", -400, 400);
        let fwd = flag("forward");
        let adj = h.slip(t, fwd);
        let r = num(cal.step(date(t), n as i32, fwd));
        check(h.business(r), "a step ends on a business day");
        check(h.before(r) - h.before(adj) == n, "a step moves the asked number of business days");
        cover(1);
    }
    h_c03_holiday_run {
        // three adjoining or nearby holidays, so that steps land on and cross runs of them
        let base = 18000;
        let h = some_holidays(3, base, base + 12);
        let cal = holiday_calendar(&h);
        let t = int("t", base - 4, base + 16);
        let n = int("n", -7, 7);
        let fwd = flag("forward");
        let adj = h.slip(t, fwd);
        let r = num(cal.step(date(t), n as i32, fwd));
        check(h.business(r), "a step ends on a business day");
        check(h.before(r) - h.before(adj) == n, "a step moves the asked number of business days");
        cover(1);
    }
    h_c03_holiday_count {
        let base = 18000;
        let h = some_holidays(2, base, base + 400);
        let cal = holiday_calendar(&h);
        let (t, u) = (int("t", base - 300, base + 700), int("u", base - 300, base + 700));
        let (f, g) = (real("from fraction", 0.0, 1.0), real("to fraction", 0.0, 1.0));
        check(cal.is_holiday(date(t)) == !h.business(t), "weekends and listed days are holidays");
        let c = cal.count_business_days(date(t), f, date(u), g);
        let expected = if t > u { 0.0 } else {
            (h.before(u) - h.before(t)) as f64 + (if h.business(u) { g } else { 0.0 }) - (if h.business(t) { f } else { 0.0 })
        };
        same(c, expected, "count of business days with partial end days");
        cover(1);
    }
    h_c03_few {
        // no holiday or one, steps and counts close to it
        let base = 18000;
        let k = pick("holidays", 2);
        let h = some_holidays(k, base, base + 14);
        let cal = holiday_calendar(&h);
        let (t, u) = (int("t", base - 7, base + 21), int("u", base - 7, base + 21));
        check(cal.is_holiday(date(t)) == !h.business(t), "weekends and listed days are holidays");
        let n = int("n", -12, 12);
        let fwd = flag("forward");
        let adj = h.slip(t, fwd);
        let r = num(cal.step(date(t), n as i32, fwd));
        check(h.business(r), "a step ends on a business day");
        check(h.before(r) - h.before(adj) == n, "a step moves the asked number of business days");
        let c = cal.count_business_days(date(t), 0.25, date(u), 0.5);
        let expected = if t > u { 0.0 } else {
            (h.before(u) - h.before(t)) as f64 + (if h.business(u) { 0.5 } else { 0.0 }) - (if h.business(t) { 0.25 } else { 0.0 })
        };
        same(c, expected, "count of business days with partial end days");
        cover(1);
    }
    h_c03_year_fraction {
        let (t, u) = (int("t", V_MIN + 3, V_MAX - 3), int("u", V_MIN + 3, V_MAX - 3));
        let (f, g) = (real("from fraction", 0.0, 0.999), real("to fraction", 0.0, 0.999));
        let (p, q) = (DateDayFraction::new(date(t), f), DateDayFraction::new(date(u), g));
        let every = EveryDayCalendar::new();
        same(every.year_fraction(p, q), if t > u { 0.0 } else { ((u - t) as f64 + g - f) / 365.0 }, "year fraction over all days");
        let week = WeekdayCalendar::new();
        same(week.year_fraction(p, q), if t > u { 0.0 } else {
            ((weekdays_before(u) - weekdays_before(t)) as f64 + (if weekday(u) < 5 { g } else { 0.0 }) - (if weekday(t) < 5 { f } else { 0.0 })) / 252.0
        }, "year fraction over weekdays");
        cover(1);
    }
    h_c03_vol_count {
        let w = real("holiday weight", 0.0, 1.0);
        let cal = VolatilityCalendar::new("VOL", Qrc::new(Arc::new(WeekdayCalendar::new())), w);
        let (t, u) = (int("t", V_MIN + 3, V_MAX - 3), int("u", V_MIN + 3, V_MAX - 3));
        let (f, g) = (real("from fraction", 0.0, 1.0), real("to fraction", 0.0, 1.0));
        let c = cal.count_business_days(date(t), f, date(u), g);
        let wt = |x: i64| if weekday(x) < 5 { 1.0 } else { w };
        // business days count 1 (their number is the subject of the harness above), other days w
        let whole = WeekdayCalendar::new().count_business_days(date(t), f, date(u), g);
        let all = if t > u { 0.0 } else { (u - t) as f64 + g - f };
        same(c, whole + w * (all - whole), "weighted count of days with partial end days");
        same(cal.day_weight(date(t)), wt(t), "weight of a day");
        same(cal.standard_basis(), 252.0 * (1.0 - w) + 365.0 * w, "basis");
        let (p, q) = (DateDayFraction::new(date(t), 0.25), DateDayFraction::new(date(u), 0.5));
        let c2 = cal.count_business_days(date(t), 0.25, date(u), 0.5);
        same(cal.year_fraction(p, q) * cal.standard_basis(), c2, "year fraction is the count over the basis");
        cover(1);
    }
    h_c03_vol_step {
        // stepping by weighted days lands on the date whose weighted count is closest to the step
        let w = real("holiday weight", 0.05, 1.0);
        let cal = VolatilityCalendar::new("VOL", Qrc::new(Arc::new(WeekdayCalendar::new())), w);
        let t = int("t", 18000, 18006);
        let n = int("n", 1, 6);
        let wt = |x: i64| if weekday(x) < 5 { 1.0 } else { w };
        let fwd = flag("forward");
        let r = num(cal.step(date(t), if fwd { n as i32 } else { -(n as i32) }, fwd));
        check(if fwd { r >= t } else { r <= t }, "steps go the way asked");
        // walk day by day
        let mut x = t; let mut s = 0.0;
        while x != r { if fwd { s += wt(x); x += 1; } else { s += wt(x); x -= 1; } }
        let gap = (s - n as f64).abs();
        let after = s + wt(r);
        let before = if r != t { s - wt(if fwd { r - 1 } else { r + 1 }) } else { -1e3 };
        check(gap <= (after - n as f64).abs() + 1e-9 && gap <= (before - n as f64).abs() + 1e-9, "no neighbouring date is closer to the weighted step");
        cover(1);
    }

    // ------------------------------------------------------------ C04
    h_c04_rules {
        let base = 18000;
        let h = some_holidays(2, base, base + 60);
        let t = int("t", base - 10, base + 70);
        let cal: RcCalendar = Qrc::new(Arc::new(holiday_calendar(&h)));
        let next = num(BusinessDays::new_next(cal.clone()).apply(date(t)));
        check(h.business(next) && next >= t && h.before(next) == h.before(t), "next is the first business day on or after");
        let prev = num(BusinessDays::new_prev(cal.clone()).apply(date(t)));
        check(h.business(prev) && prev <= t && h.before(prev + 1) == h.before(t + 1), "previous is the last business day on or before");
        let n = int("n", 0, 20);
        let s = num(BusinessDays::new_step(cal.clone(), n as u32).apply(date(t)));
        check(h.business(s) && h.before(s) - h.before(next) == n, "step moves forward from the next business day");
        let b = num(BusinessDays::new_back(cal.clone(), n as u32).apply(date(t)));
        check(h.business(b) && h.before(prev) - h.before(b) == n, "back moves backward from the previous business day");
        check(num(NullRule::new().apply(date(t))) == t, "the null rule changes nothing");
        cover(1);
    }
    h_c04_modified {
        let base = 18000;
        let h = some_holidays(2, base, base + 370);
        let t = int("t", base - 10, base + 380);
        let cal: RcCalendar = Qrc::new(Arc::new(holiday_calendar(&h)));
        let next = num(BusinessDays::new_next(cal.clone()).apply(date(t)));
        let prev = num(BusinessDays::new_prev(cal.clone()).apply(date(t)));
        let r = num(ModifiedFollowing::new(cal.clone()).apply(date(t)));
        let (y1, m1, _) = date(t).ymd();
        let (y2, m2, _) = date(next).ymd();
        let expected = if y1 == y2 && m1 == m2 { next } else { prev };
        check(r == expected, "forward unless that leaves the month, then back");
        if h.business(t) { check(r == t, "a business day is unchanged"); cover(2); }
        cover(1);
    }
    h_c04_weekday {
        let t = int("t", V_MIN + 10, V_MAX - 200);
        let cal: RcCalendar = Qrc::new(Arc::new(WeekdayCalendar::new()));
        let next = num(BusinessDays::new_next(cal.clone()).apply(date(t)));
        let prev = num(BusinessDays::new_prev(cal.clone()).apply(date(t)));
        check(next == slipped(t, true) && prev == slipped(t, false), "nearest weekday in the direction of the rule");
        let n = int("n", 0, 100);
        let s = num(BusinessDays::new_step(cal.clone(), n as u32).apply(date(t)));
        check(weekday(s) < 5 && weekdays_before(s) - weekdays_before(next) == n, "step moves that many weekdays");
        let r = num(ModifiedFollowing::new(cal.clone()).apply(date(t)));
        check(r == next || r == prev, "modified following is one of the neighbours");
        let (_, m, d) = date(t).ymd();
        let (_, m2, _) = date(r).ymd();
        if d > 3 { check(m == m2, "modified following stays in the month"); }
        if d < 27 { check(r == next, "modified following goes forward inside the month"); }
        cover(1);
    }

    // ------------------------------------------------------------ C05
    h_c05_datetime {
        let (t, u) = (int("t", T_MIN, T_MAX), int("u", T_MIN, T_MAX));
        let (i, j) = (pick("time", 3), pick("other time", 3));
        let (a, b) = (DateTime::new(date(t), tod(i)), DateTime::new(date(u), tod(j)));
        let expected = if t < u { Ordering::Less } else if t > u { Ordering::Greater } else { i.cmp(&j) };
        check(a.cmp(&b) == expected && a.partial_cmp(&b) == Some(expected), "order by date, then by time of day");
        check((a == b) == (expected == Ordering::Equal), "equality agrees with the order");
        check((a < b) == (expected == Ordering::Less) && (a <= b) == (expected != Ordering::Greater), "comparisons agree with the order");
        let n = int("n", -100000, 100000);
        let c = a + n as i32;
        check(num(c.date()) == t + n && c.time_of_day() == tod(i), "adding days keeps the time of day");
        let mut d = a; d += n as i32;
        check(d == c, "adding in place");
        cover(1);
    }
    h_c05_equity {
        let (t, u) = (int("t", V_MIN, V_MAX), int("u", V_MIN, V_MAX));
        let (i, j) = (pick("time", 3), pick("other time", 3));
        let (a, b) = (DateTime::new(date(t), tod(i)), DateTime::new(date(u), tod(j)));
        let e = crate::fix::equity("X", "Y", crate::fix::currency("GBP", 2), 2);
        use quantmath::instruments::Instrument;
        let (p, q) = (e.time_to_day_fraction(a).expect("fraction"), e.time_to_day_fraction(b).expect("fraction"));
        check(num(p.date()) == t, "the date is kept");
        same(p.day_fraction(), if i == 2 { 0.8 } else { 0.0 }, "open and settlement price are at the start of the day, close at 0.8 of it");
        if a <= b { check(p <= q, "a later time never has an earlier fraction"); cover(2); }
        cover(1);
    }
    h_c05_fraction {
        let (t, u) = (int("t", T_MIN, T_MAX), int("u", T_MIN, T_MAX));
        let (f, g) = (real("f", 0.0, 1.0), real("g", 0.0, 1.0));
        assume(f < 1.0 && g < 1.0);
        let (a, b) = (DateDayFraction::new(date(t), f), DateDayFraction::new(date(u), g));
        let less = t < u || (t == u && f < g);
        let equal = t == u && f == g;
        let expected = if less { Ordering::Less } else if equal { Ordering::Equal } else { Ordering::Greater };
        use quantmath::math::interpolation::Interpolable;
        check(a.cmp(&b) == expected && a.interp_cmp(b) == expected, "order by date, then by fraction");
        check((a == b) == equal && (a < b) == less, "equality and comparison agree with the order");
        same(a.interp_diff(b), (u - t) as f64 + g - f, "distance in days");
        same(a.day_fraction(), f, "fraction is kept");
        check(num(a.date()) == t, "date is kept");
        let n = int("n", -100000, 100000);
        let c = a + n as i32;
        check(num(c.date()) == t + n && c.day_fraction() == f, "adding days keeps the fraction");
        let mut d = a; d += n as i32;
        check(d == c, "adding in place");
        cover(1);
    }
}
