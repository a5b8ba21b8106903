//! SMT back end: prints queries, runs z3 and cvc5, parses verdicts and models.
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res { Sat(HashMap<u32, f64>), Unsat, Unknown(String) }

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64,
    pub time: f64, pub max_time: f64, pub by_z3: u64, pub by_cvc5: u64, pub by_race: u64,
    pub slow: Vec<(f64, String)>,
}

struct Proc { child: Child, inp: ChildStdin, out: BufReader<ChildStdout> }

impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub struct Solver {
    z3: Option<Proc>,
    pub stats: Stats,
    cache: HashMap<Vec<T>, Res>,
    pub quick_ms: u64,
    pub long_ms: u64,
    pub dump: Option<String>,
    dumpn: u32,
}

pub fn real_lit(x: f64) -> String {
    let neg = x < 0.0;
    let bits = x.abs().to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) };
    if m == 0 { return "0.0".to_string(); }
    let mut m = m; let mut e = e - 1075;
    while m & 1 == 0 { m >>= 1; e += 1; }
    let s = if e >= 0 { format!("{}.0", bigshift(m, e as u32)) }
        else { format!("(/ {}.0 {}.0)", m, bigshift(1, (-e) as u32)) };
    if neg { format!("(- {})", s) } else { s }
}
fn bigshift(m: u64, e: u32) -> String {
    // decimal digits of m * 2^e
    let mut d: Vec<u32> = vec![];
    let mut m = m;
    while m > 0 { d.push((m % 1_000_000_000) as u32); m /= 1_000_000_000; }
    for _ in 0..e {
        let mut c = 0u64;
        for x in d.iter_mut() { let v = *x as u64 * 2 + c; *x = (v % 1_000_000_000) as u32; c = v / 1_000_000_000; }
        if c > 0 { d.push(c as u32); }
    }
    let mut s = String::new();
    for (i, x) in d.iter().rev().enumerate() { if i == 0 { s += &x.to_string(); } else { s += &format!("{:09}", x); } }
    if s.is_empty() { s = "0".into(); }
    s
}
fn int_lit(k: i128) -> String { if k < 0 { format!("(- {})", k.unsigned_abs()) } else { k.to_string() } }

/// outward rounding to a short binary fraction
fn round_sig(x: f64, up: bool) -> f64 {
    let e = x.abs().log2().floor() as i32;
    let u = 2f64.powi(e - 10);
    if up { (x / u).ceil() * u } else { (x / u).floor() * u }
}

pub struct Script { pub text: String, pub vars: Vec<u32>, pub has_int: bool, pub nonlinear: bool, pub vis: Vec<String> }

/// Render a conjunction of assertions, with the axioms of the real functions in it.
pub fn render(ar: &mut Arena, asserts: &[T]) -> Script {
    // collect function atoms and close under axioms (axioms mention only existing atoms)
    let mut seen: HashSet<T> = HashSet::new();
    let mut stack: Vec<T> = asserts.to_vec();
    let mut fns: Vec<(F1, T, T)> = vec![];
    let mut fn2s: Vec<(u32, T, T, T)> = vec![];
    while let Some(t) = stack.pop() {
        if !seen.insert(t) { continue; }
        if let Node::Fn1(k, a) = *ar.node(t) { fns.push((k, a, t)); }
        if let Node::Fn2(k, a, b) = *ar.node(t) { fn2s.push((k, a, b, t)); }
        stack.extend(ar.children(t));
    }
    fns.sort_by_key(|x| x.2);
    let zero = ar.realc(0.0);
    let one = ar.realc(1.0);
    let two = ar.realc(2.0);
    let mut ax: Vec<T> = vec![];
    for &(k, a, t) in &fns {
        if let Some(c) = ar.const_rat(a).map(|r| r.to_f64()) {
            let v = match k { F1::Exp => c.exp(), F1::Ln => c.ln(), F1::Sqrt => c.sqrt(), F1::Erf => erf(c), F1::Erfc => erfc(c), F1::Arb(_) => f64::NAN };
            if v.is_finite() {
                let e = v.abs() * 1e-12 + 1e-290;
                let lo = ar.realc(v - e); let hi = ar.realc(v + e);
                let x = ar.raw_le(lo, t); ax.push(x);
                let x = ar.raw_le(t, hi); ax.push(x);
            }
        }
        let (lo, hi) = ar.ri(t);
        if lo.is_finite() && lo != 0.0 && lo.abs() > 1e-9 { let c = ar.realc(round_sig(lo, false)); let e = ar.raw_le(c, t); ax.push(e); }
        if hi.is_finite() && hi != 0.0 && hi.abs() < 1e9 { let c = ar.realc(round_sig(hi, true)); let e = ar.raw_le(t, c); ax.push(e); }
        match k {
            F1::Exp => {
                let raw = ar_raw_lt(ar, zero, t); ax.push(raw);
                let p = ar.raw_lt(a, zero); let q = ar.raw_lt(t, one); let e = ar.eq(p, q); ax.push(e);
                let p = ar.raw_lt(zero, a); let q = ar.raw_lt(one, t); let e = ar.eq(p, q); ax.push(e);
                let s = ar.add(one, a); let e = ar.raw_le(s, t); ax.push(e);
            }
            F1::Ln => {
                let g = ar.raw_le(a, zero);
                let p = ar.raw_lt(a, one); let q = ar.raw_lt(t, zero); let e = ar.eq(p, q); let e = ar.or(g, e); ax.push(e);
                let p = ar.raw_lt(one, a); let q = ar.raw_lt(zero, t); let e = ar.eq(p, q); let e = ar.or(g, e); ax.push(e);
                let s = ar.sub(a, one); let e = ar.raw_le(t, s); let e = ar.or(g, e); ax.push(e);
            }
            F1::Sqrt => {
                let g = ar.raw_lt(a, zero);
                let e = ar_raw_le(ar, zero, t); ax.push(e);
                let m = ar.mul(t, t); let e = ar.eq(m, a); let e = ar.or(g, e); ax.push(e);
            }
            F1::Erf => {
                let m1 = ar.realc(-1.0);
                let e = ar_raw_lt(ar, m1, t); ax.push(e);
                let e = ar_raw_lt(ar, t, one); ax.push(e);
                let p = ar.raw_lt(a, zero); let q = ar.raw_lt(t, zero); let e = ar.eq(p, q); ax.push(e);
                let p = ar.raw_lt(zero, a); let q = ar.raw_lt(zero, t); let e = ar.eq(p, q); ax.push(e);
            }
            F1::Erfc => {
                let e = ar_raw_lt(ar, zero, t); ax.push(e);
                let e = ar_raw_lt(ar, t, two); ax.push(e);
                let p = ar.raw_lt(a, zero); let q = ar.raw_lt(one, t); let e = ar.eq(p, q); ax.push(e);
                let p = ar.raw_lt(zero, a); let q = ar.raw_lt(t, one); let e = ar.eq(p, q); ax.push(e);
            }
            F1::Arb(_) => {}
        }
    }
    let mut bykind: BTreeMap<u64, Vec<(F1, T, T)>> = BTreeMap::new();
    for &(k, a, t) in &fns {
        let key = match k { F1::Exp => 0, F1::Ln => 1, F1::Sqrt => 2, F1::Erf => 3, F1::Erfc => 4, F1::Arb(i) => 10 + i as u64 };
        bykind.entry(key).or_default().push((k, a, t));
    }
    for (_, v) in &bykind {
        if v.len() > 14 { continue; }
        for i in 0..v.len() { for j in i + 1..v.len() {
            let (k, a, s) = v[i]; let (_, b, t) = v[j];
            match k {
                F1::Exp | F1::Erf => {
                    let p = ar.raw_lt(a, b); let q = ar.raw_lt(s, t); let e = ar.eq(p, q); ax.push(e);
                    let p = ar.raw_lt(b, a); let q = ar.raw_lt(t, s); let e = ar.eq(p, q); ax.push(e);
                    if k == F1::Erf {
                        let sm = ar.add(a, b); let p = ar.eq(sm, zero); let np = ar.not(p);
                        let sv = ar.add(s, t); let q = ar.eq(sv, zero); let e = ar.or(np, q); ax.push(e);
                    }
                }
                F1::Erfc => {
                    let p = ar.raw_lt(a, b); let q = ar.raw_lt(t, s); let e = ar.eq(p, q); ax.push(e);
                    let p = ar.raw_lt(b, a); let q = ar.raw_lt(s, t); let e = ar.eq(p, q); ax.push(e);
                    let sm = ar.add(a, b); let p = ar.eq(sm, zero); let np = ar.not(p);
                    let sv = ar.add(s, t); let q = ar.eq(sv, two); let e = ar.or(np, q); ax.push(e);
                }
                F1::Ln => {
                    let g1 = ar.raw_le(a, zero); let g2 = ar.raw_le(b, zero); let g = ar.or(g1, g2);
                    let p = ar.raw_lt(a, b); let q = ar.raw_lt(s, t); let e = ar.eq(p, q); let e = ar.or(g, e); ax.push(e);
                    let p = ar.raw_lt(b, a); let q = ar.raw_lt(t, s); let e = ar.eq(p, q); let e = ar.or(g, e); ax.push(e);
                }
                F1::Sqrt => {}
                F1::Arb(_) => {
                    let p = ar.eq(a, b); let np = ar.not(p); let q = ar.eq(s, t); let e = ar.or(np, q); ax.push(e);
                }
            }
        } }
    }
    for i in 0..fn2s.len() { for j in i + 1..fn2s.len() {
        let (k, a, b, s) = fn2s[i]; let (l, c, d, t) = fn2s[j];
        if k != l { continue; }
        let p = ar.eq(a, c); let q = ar.eq(b, d); let pq = ar.and(p, q); let n = ar.not(pq);
        let e = ar.eq(s, t); let e = ar.or(n, e); ax.push(e);
    } }

    let mut roots: Vec<T> = asserts.to_vec();
    for a in ax { if ar.const_bool(a) != Some(true) { roots.push(a); } }

    // reference counts
    let mut refs: HashMap<T, u32> = HashMap::new();
    let mut order: Vec<T> = vec![];
    {
        let mut state: HashMap<T, u8> = HashMap::new();
        let mut st: Vec<(T, bool)> = roots.iter().map(|&t| (t, false)).collect();
        for &r in &roots { *refs.entry(r).or_insert(0) += 1; }
        while let Some((t, done)) = st.pop() {
            if done { if state.insert(t, 2) != Some(2) { order.push(t); } continue; }
            if state.contains_key(&t) { continue; }
            state.insert(t, 1);
            st.push((t, true));
            for c in ar.children(t) { *refs.entry(c).or_insert(0) += 1; if !state.contains_key(&c) { st.push((c, false)); } }
        }
    }
    let mut text = String::new();
    let mut vars = vec![];
    let mut has_int = false; let mut nonlinear = false;
    let mut body = String::new();
    let mut name: HashMap<T, String> = HashMap::new();
    let mut vis = vec![];
    // re-derive a proper topological order (children first)
    let mut topo: Vec<T> = vec![];
    {
        let mut done: HashSet<T> = HashSet::new();
        fn go(ar: &Arena, t: T, done: &mut HashSet<T>, topo: &mut Vec<T>) {
            if !done.insert(t) { return; }
            for c in ar.children(t) { go(ar, c, done, topo); }
            topo.push(t);
        }
        for &r in &roots { go(ar, r, &mut done, &mut topo); }
    }
    let _ = order;
    for &t in &topo {
        let s = match *ar.node(t) {
            Node::BoolC(b) => b.to_string(),
            Node::IntC(k) => { int_lit(k) }
            Node::RealC(b) => real_lit(f64::from_bits(b)),
            Node::RatC(n, d) => if n < 0 { format!("(- (/ {}.0 {}.0))", -n, d) } else { format!("(/ {}.0 {}.0)", n, d) },
            Node::Var(v) => {
                let vi = &ar.vars[v as usize];
                let nm = format!("v{}", v);
                match vi.sort {
                    Sort::Bool => text += &format!("(declare-const {} Bool)\n", nm),
                    Sort::Int => {
                        has_int = true;
                        text += &format!("(declare-const {} Int)\n(assert (<= {} {} {}))\n", nm, int_lit(vi.ilo), nm, int_lit(vi.ihi));
                    }
                    Sort::Real => {
                        text += &format!("(declare-const {} Real)\n", nm);
                        if vi.lo.is_finite() { text += &format!("(assert (<= {} {}))\n", real_lit(vi.lo), nm); }
                        if vi.hi.is_finite() { text += &format!("(assert (<= {} {}))\n", nm, real_lit(vi.hi)); }
                    }
                }
                vars.push(v);
                vis.push(nm.clone());
                nm
            }
            Node::Fn1(..) | Node::Fn2(..) => { nonlinear = true; text += &format!("(declare-const f{} Real)\n", t); format!("f{}", t) }
            Node::Not(a) => format!("(not {})", name[&a]),
            Node::And(a, b) => format!("(and {} {})", name[&a], name[&b]),
            Node::Or(a, b) => format!("(or {} {})", name[&a], name[&b]),
            Node::Ite(a, b, c) => format!("(ite {} {} {})", name[&a], name[&b], name[&c]),
            Node::Eq(a, b) => format!("(= {} {})", name[&a], name[&b]),
            Node::Lt(a, b) => format!("(< {} {})", name[&a], name[&b]),
            Node::Le(a, b) => format!("(<= {} {})", name[&a], name[&b]),
            Node::Add(a, b) => format!("(+ {} {})", name[&a], name[&b]),
            Node::Sub(a, b) => format!("(- {} {})", name[&a], name[&b]),
            Node::Neg(a) => format!("(- {})", name[&a]),
            Node::Mul(a, b) => {
                let ca = matches!(ar.node(a), Node::IntC(_) | Node::RealC(_) | Node::RatC(..));
                let cb = matches!(ar.node(b), Node::IntC(_) | Node::RealC(_) | Node::RatC(..));
                if !ca && !cb { nonlinear = true; }
                format!("(* {} {})", name[&a], name[&b])
            }
            Node::Div(a, b) => {
                if !matches!(ar.node(b), Node::RealC(_) | Node::RatC(..)) { nonlinear = true; }
                format!("(/ {} {})", name[&a], name[&b])
            }
            Node::IDiv(a, b) => { has_int = true; format!("(div {} {})", name[&a], name[&b]) }
            Node::IMod(a, b) => { has_int = true; format!("(mod {} {})", name[&a], name[&b]) }
            Node::ToReal(a) => { has_int = true; format!("(to_real {})", name[&a]) }
            Node::Floor(a) => { has_int = true; format!("(to_int {})", name[&a]) }
        };
        let leaf = matches!(ar.node(t), Node::BoolC(_) | Node::IntC(_) | Node::RealC(_) | Node::RatC(..) | Node::Var(_) | Node::Fn1(..) | Node::Fn2(..));
        if !leaf && (*refs.get(&t).unwrap_or(&1) > 1 || s.len() > 2000) {
            let so = match ar.sort(t) { Sort::Bool => "Bool", Sort::Int => "Int", Sort::Real => "Real" };
            body += &format!("(define-fun t{} () {} {})\n", t, so, s);
            name.insert(t, format!("t{}", t));
        } else { name.insert(t, s); }
    }
    for r in &roots { body += &format!("(assert {})\n", name[r]); }
    text += &body;
    Script { text, vars, has_int, nonlinear, vis }
}
fn ar_raw_lt(ar: &mut Arena, a: T, b: T) -> T { ar.raw_lt(a, b) }
fn ar_raw_le(ar: &mut Arena, a: T, b: T) -> T { ar.raw_le(a, b) }

impl Solver {
    pub fn close(&mut self) { self.z3 = None; }
    /// after a fork: the solver process belongs to the parent
    pub fn forget_process(&mut self) { if let Some(p) = self.z3.take() { std::mem::forget(p); } }
    pub fn new(quick_ms: u64, long_ms: u64) -> Solver {
        Solver { z3: None, stats: Stats::default(), cache: HashMap::new(), quick_ms, long_ms, dump: std::env::var("QSYM_DUMP").ok(), dumpn: 0 }
    }

    fn z3_persistent(&mut self, script: &Script, ms: u64) -> Res {
        if self.z3.is_none() {
            let mut child = match Command::new("z3-new").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                Ok(c) => c, Err(e) => return Res::Unknown(format!("cannot start z3-new: {}", e)) };
            let inp = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            self.z3 = Some(Proc { child, inp, out });
        }
        let full = z3_script(script, ms, true) + "(echo \"--done--\")\n(reset)\n";
        let p = self.z3.as_mut().unwrap();
        if p.inp.write_all(full.as_bytes()).and_then(|_| p.inp.flush()).is_err() { self.z3 = None; return Res::Unknown("z3 pipe".into()); }
        // guard against a hung process: the soft timeout is normally honoured
        let pid = p.child.id();
        let (tx, rx) = mpsc::channel::<()>();
        let hard = Duration::from_millis(ms * 3 + 2000);
        let h = std::thread::spawn(move || { if rx.recv_timeout(hard) == Err(mpsc::RecvTimeoutError::Timeout) { unsafe { kill(pid as i32, 9); } } });
        let mut out = String::new();
        loop {
            let mut l = String::new();
            match p.out.read_line(&mut l) { Ok(0) | Err(_) => { out += "(error \"eof\")"; break; } _ => {} }
            if l.trim() == "--done--" { break; }
            out += &l;
        }
        let _ = tx.send(());
        let _ = h.join();
        let r = parse_answer(&out, script);
        if out.contains("eof") { self.z3 = None; }
        r
    }

    fn race(&mut self, script: &Script, ms: u64) -> (Res, &'static str) {
        let (tx, rx) = mpsc::channel::<(usize, String)>();
        let mut pids = vec![];
        let mut joins = vec![];
        let secs = ms / 1000 + 1;
        let pure_real = !script.has_int;
        let mut cfgs: Vec<(&'static str, Vec<String>, String)> = vec![];
        cfgs.push(("z3", vec!["-in".into(), "-smt2".into(), format!("-T:{}", secs)], z3_script(script, ms, false)));
        cfgs.push(("cvc5", vec!["--lang=smt2".into(), "--produce-models".into(), format!("--tlimit={}", ms)], cvc5_script(script)));
        if script.nonlinear && pure_real {
            cfgs.push(("z3b", vec!["-in".into(), "-smt2".into(), format!("-T:{}", secs)], z3_script_nologic(script, ms)));
            cfgs.push(("cvc5b", vec!["--lang=smt2".into(), "--produce-models".into(), "--nl-cov".into(), format!("--tlimit={}", ms)], cvc5_script(script)));
        } else if script.has_int {
            cfgs.push(("z3b", vec!["-in".into(), "-smt2".into(), "smt.arith.solver=2".into(), format!("-T:{}", secs)], z3_script_nologic(script, ms)));
        }
        for (i, (nm, args, txt)) in cfgs.iter().enumerate() {
            let bin = if nm.starts_with("z3") { "z3-new" } else { "cvc5" };
            let mut child = match Command::new(bin).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() { Ok(c) => c, Err(_) => continue };
            pids.push(child.id());
            let tx = tx.clone();
            let txt = txt.clone();
            joins.push(std::thread::spawn(move || {
                let mut inp = child.stdin.take().unwrap();
                let _ = inp.write_all(txt.as_bytes());
                drop(inp);
                let mut s = String::new();
                let _ = child.stdout.take().unwrap().read_to_string(&mut s);
                let _ = child.wait();
                let _ = tx.send((i, s));
            }));
        }
        drop(tx);
        let mut best = (Res::Unknown("no solver answered".into()), "none");
        let deadline = Instant::now() + Duration::from_millis(ms + 3000);
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match rx.recv_timeout(left) {
                Ok((i, s)) => {
                    let r = parse_answer(&s, script);
                    match r { Res::Unknown(e) => { if let Res::Unknown(ref mut b) = best.0 { *b = format!("{}; {}: {}", b, cfgs[i].0, e); } }
                        r => { best = (r, cfgs[i].0); break; } }
                }
                Err(_) => break,
            }
        }
        for p in pids { unsafe { kill(p as i32, 9); } }
        for j in joins { let _ = j.join(); }
        best
    }

    /// Satisfiability of the conjunction.  `long` selects the time cap for hard queries.
    pub fn check(&mut self, ar: &mut Arena, asserts: &[T], long: bool) -> Res {
        let mut key: Vec<T> = asserts.iter().cloned().filter(|&t| ar.const_bool(t) != Some(true)).collect();
        if key.iter().any(|&t| ar.const_bool(t) == Some(false)) { return Res::Unsat; }
        key.sort(); key.dedup();
        if key.is_empty() { return Res::Sat(HashMap::new()); }
        for &t in &key { let n = ar.not(t); if key.binary_search(&n).is_ok() { return Res::Unsat; } }
        if let Some(r) = self.cache.get(&key) {
            match r { Res::Unknown(_) if long => {}, r => { self.stats.cached += 1; return r.clone(); } }
        }
        let t0 = Instant::now();
        let script = render(ar, &key);
        if let Some(d) = &self.dump {
            self.dumpn += 1;
            let _ = std::fs::write(format!("{}/q{:05}.smt2", d, self.dumpn), format!("{}(check-sat)\n", script.text));
        }
        let mut who = "z3";
        let mut r = self.z3_persistent(&script, self.quick_ms);
        if matches!(r, Res::Unknown(_)) && self.long_ms > 0 {
            let (r2, w) = self.race(&script, if long { self.long_ms } else { (self.long_ms / 4).min(15000).max(self.quick_ms) });
            r = r2; who = w;
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time { self.stats.max_time = dt; }
        if dt > 1.0 { self.stats.slow.push((dt, format!("q{} {} {}", self.dumpn, who, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }))); }
        match &r { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown(_) => self.stats.unknown += 1 }
        match who { "z3" => self.stats.by_z3 += 1, "cvc5" | "cvc5b" => self.stats.by_cvc5 += 1, _ => self.stats.by_race += 1 }
        self.cache.insert(key, r.clone());
        r
    }
}

extern "C" { fn kill(pid: i32, sig: i32) -> i32; }

fn logic(script: &Script) -> Option<&'static str> {
    match (script.has_int, script.nonlinear) {
        (false, true) => Some("QF_NRA"),
        (false, false) => Some("QF_LRA"),
        _ => None,
    }
}
fn getvals(script: &Script) -> String {
    if script.vis.is_empty() { String::new() } else { format!("(get-value ({}))\n", script.vis.join(" ")) }
}
fn z3_script(script: &Script, ms: u64, _p: bool) -> String {
    let mut s = format!("(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n(set-option :model.completion true)\n", ms);
    if let Some(l) = logic(script) { s += &format!("(set-logic {})\n", l); }
    s += &script.text;
    s += "(check-sat)\n";
    s += &getvals(script);
    s
}
fn z3_script_nologic(script: &Script, ms: u64) -> String {
    let mut s = format!("(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n(set-option :model.completion true)\n", ms);
    s += &script.text;
    s += "(check-sat)\n";
    s += &getvals(script);
    s
}
fn cvc5_script(script: &Script) -> String {
    let l = match (script.has_int, script.nonlinear) { (false, true) => "QF_NRA", (false, false) => "QF_LRA", _ => "ALL" };
    format!("(set-logic {})\n{}(check-sat)\n{}", l, script.text, getvals(script))
}

fn parse_answer(out: &str, script: &Script) -> Res {
    let mut it = out.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
    let first = match it.next() { Some(l) => l, None => return Res::Unknown("no output".into()) };
    match first {
        "unsat" => Res::Unsat,     // get-value after unsat reports an error; expected
        "sat" => {
            let rest: String = it.collect::<Vec<_>>().join(" ");
            if script.vis.is_empty() { return Res::Sat(HashMap::new()); }
            match parse_model(&rest) {
                Some(m) => {
                    let mut h = HashMap::new();
                    for v in &script.vars { if let Some(x) = m.get(&format!("v{}", v)) { h.insert(*v, *x); } }
                    Res::Sat(h)
                }
                None => Res::Unknown(format!("unparsable model: {}", &rest[..rest.len().min(200)])),
            }
        }
        o => Res::Unknown(o.chars().take(120).collect()),
    }
}

#[derive(Debug, Clone)]
enum Sx { A(String), L(Vec<Sx>) }
fn parse_sx(s: &str) -> Option<Sx> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut stack: Vec<Vec<Sx>> = vec![];
    while i < b.len() {
        match b[i] {
            b'(' => { stack.push(vec![]); i += 1; }
            b')' => { let l = Sx::L(stack.pop()?); i += 1; match stack.last_mut() { Some(p) => p.push(l), None => return Some(l) } }
            c if c.is_ascii_whitespace() => i += 1,
            _ => { let j = i; while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'(' && b[i] != b')' { i += 1; } stack.last_mut()?.push(Sx::A(s[j..i].to_string())); }
        }
    }
    None
}
fn sxval(x: &Sx) -> Option<f64> {
    match x {
        Sx::A(s) => match s.as_str() { "true" => Some(1.0), "false" => Some(0.0), s => s.trim_end_matches('?').parse::<f64>().ok() },
        Sx::L(v) => {
            let op = match v.first()? { Sx::A(s) => s.as_str(), _ => return None };
            match (op, v.len()) {
                ("-", 2) => Some(-sxval(&v[1])?),
                ("-", 3) => Some(sxval(&v[1])? - sxval(&v[2])?),
                ("+", 3) => Some(sxval(&v[1])? + sxval(&v[2])?),
                ("*", 3) => Some(sxval(&v[1])? * sxval(&v[2])?),
                ("/", 3) => ratio(&v[1], &v[2]),
                ("to_real", 2) => sxval(&v[1]),
                _ => None,
            }
        }
    }
}
fn ratio(a: &Sx, b: &Sx) -> Option<f64> {
    let (x, y) = (sxval(a)?, sxval(b)?);
    if x.is_finite() && y.is_finite() { return Some(x / y); }
    // very long numerals: scale by digit counts
    fn digits(s: &Sx) -> Option<(f64, f64, i32)> { match s { Sx::A(t) => { let t = t.split('.').next()?; let n = t.len(); let k = n.min(17); Some((1.0, t[..k].parse().ok()?, (n - k) as i32)) }
        Sx::L(v) if v.len() == 2 => { let (s, m, e) = digits(&v[1])?; Some((-s, m, e)) } _ => None } }
    let (s1, m1, e1) = digits(a)?; let (s2, m2, e2) = digits(b)?;
    Some(s1 * s2 * m1 / m2 * 10f64.powi(e1 - e2))
}
fn parse_model(s: &str) -> Option<HashMap<String, f64>> {
    let x = parse_sx(s)?;
    let mut m = HashMap::new();
    if let Sx::L(items) = x {
        for it in items { if let Sx::L(kv) = it { if kv.len() == 2 { if let Sx::A(k) = &kv[0] {
            m.insert(k.clone(), sxval(&kv[1])?);
        } } } }
    }
    Some(m)
}
