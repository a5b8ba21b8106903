//! Primitives of the harnesses.  The symbolic engine intercepts the extern functions
//! by name; their bodies here are what the native replay runs.
use std::cell::RefCell;

enum V { I(i64), F(f64) }
struct Replay { vals: Vec<V>, pos: usize }
thread_local! { static REPLAY: RefCell<Replay> = RefCell::new(Replay { vals: Vec::new(), pos: 0 }); }

pub fn load_replay(path: &str) -> String {
    let text = std::fs::read_to_string(path).expect("replay file");
    let mut lines = text.lines();
    let harness = lines.next().expect("harness name").trim().to_string();
    let mut vals = Vec::new();
    for l in lines {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 2 { continue; }
        match p[0] {
            "i" => vals.push(V::I(p[1].parse().expect("int"))),
            "f" => vals.push(V::F(f64::from_bits(u64::from_str_radix(p[1], 16).expect("bits")))),
            _ => {}
        }
    }
    REPLAY.with(|r| *r.borrow_mut() = Replay { vals, pos: 0 });
    harness
}
fn next() -> Option<V> {
    REPLAY.with(|r| {
        let mut r = r.borrow_mut();
        let k = r.pos; r.pos += 1;
        r.vals.get(k).map(|v| match *v { V::I(x) => V::I(x), V::F(x) => V::F(x) })
    })
}
fn text(p: *const u8, n: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() } }

#[no_mangle] #[inline(never)]
pub extern "C" fn vp_i64(_p: *const u8, _n: usize, lo: i64, hi: i64) -> i64 {
    let v = match next() { Some(V::I(x)) => x, _ => lo };
    if v < lo || v > hi { println!("OUT-OF-RANGE"); std::process::exit(78); }
    v
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_f64(_p: *const u8, _n: usize, lo: f64, hi: f64) -> f64 {
    let v = match next() { Some(V::F(x)) => x, _ => lo };
    if !(v >= lo && v <= hi) { println!("OUT-OF-RANGE"); std::process::exit(78); }
    v
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_bool(_p: *const u8, _n: usize) -> bool { matches!(next(), Some(V::I(1))) }
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_pick(_p: *const u8, _n: usize, k: i64) -> i64 {
    let v = match next() { Some(V::I(x)) => x, _ => 0 };
    if v < 0 || v >= k { println!("OUT-OF-RANGE"); std::process::exit(78); }
    v
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_assume(c: bool) { if !c { println!("ASSUMPTION-NOT-MET"); std::process::exit(78); } }
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_check(c: bool, p: *const u8, n: usize) { if !c { println!("VPFAIL {}", text(p, n)); std::process::exit(77); } }
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_near(a: f64, b: f64, tol: f64, p: *const u8, n: usize) {
    let m = text(p, n);
    println!("OBS {}/a {:016x}", m, a.to_bits());
    println!("OBS {}/b {:016x}", m, b.to_bits());
    let ok = (a - b).abs() <= tol * (1.0 + a.abs() + b.abs());
    if !ok { println!("VPFAIL {} ({} against {})", m, a, b); std::process::exit(77); }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_cover(_id: u32) {}
#[no_mangle] #[inline(never)]
pub extern "C" fn vp_obs(v: f64, p: *const u8, n: usize) { println!("OBS {} {:016x}", text(p, n), v.to_bits()); }

/// A symbolic integer, bounds inclusive.
pub fn int(name: &str, lo: i64, hi: i64) -> i64 { vp_i64(name.as_ptr(), name.len(), lo, hi) }
/// A symbolic real, bounds inclusive.
pub fn real(name: &str, lo: f64, hi: f64) -> f64 { vp_f64(name.as_ptr(), name.len(), lo, hi) }
pub fn flag(name: &str) -> bool { vp_bool(name.as_ptr(), name.len()) }
/// One of 0..n, each explored as its own path.
pub fn pick(name: &str, n: i64) -> usize { vp_pick(name.as_ptr(), name.len(), n) as usize }
pub fn assume(c: bool) { vp_assume(c) }
pub fn check(c: bool, what: &str) { vp_check(c, what.as_ptr(), what.len()) }
/// Equal: exactly over the reals, or failing that within `tol` relative to 1+|a|+|b|.
pub fn near(a: f64, b: f64, tol: f64, what: &str) { vp_near(a, b, tol, what.as_ptr(), what.len()) }
pub fn same(a: f64, b: f64, what: &str) { near(a, b, 1e-9, what) }
pub fn cover(id: u32) { vp_cover(id) }
pub fn obs(v: f64, what: &str) { vp_obs(v, what.as_ptr(), what.len()) }
