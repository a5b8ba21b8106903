//! qsym: bounded symbolic execution of LLVM IR with an SMT back end.
mod exec;
mod ir;
mod solver;
mod term;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

extern "C" { fn _exit(code: i32) -> !; }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o + "\""
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let ll = get("--ir").expect("--ir");
    let harness = get("--harness").expect("--harness");
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let outdir = get("--outdir").unwrap_or("/tmp".into());
    let secs: u64 = get("--time").map(|s| s.parse().unwrap()).unwrap_or(300);
    let quick: u64 = get("--quick-ms").map(|s| s.parse().unwrap()).unwrap_or(400);
    let long: u64 = get("--long-ms").map(|s| s.parse().unwrap()).unwrap_or(120000);
    let validate: usize = get("--validate").map(|s| s.parse().unwrap()).unwrap_or(4);
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ir");
    let m = ir::Module::load(text);
    let load_s = t0.elapsed().as_secs_f64();
    let cfg = exec::Cfg { max_steps_path: 400_000_000, max_paths: 200_000, deadline: t0 + Duration::from_secs(secs), native: get("--native"), harness: harness.clone(), outdir, validate, progress: args.iter().any(|a| a == "-v"), max_viol: 2, jobs: get("--jobs").map(|s| s.parse().unwrap()).unwrap_or(1) };
    let mut e = exec::Engine::new(m, solver::Solver::new(quick, long), cfg);
    e.run(&harness);
    if e.cfg.progress { let mut v: Vec<_> = e.fcalls.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, n) in v.iter().take(25) { eprintln!("fork {} {}", n, k); } }
    let wall = t0.elapsed().as_secs_f64();
    let mut fns: BTreeMap<String, u64> = BTreeMap::new();
    let mut nfn = 0u64;
    for f in &e.m.fns { if f.calls > 0 { nfn += 1; if f.name.contains("9quantmath") { *fns.entry(exec::demangle(&f.name)).or_insert(0) += f.calls; } } }
    let r = &e.rep; let s = &e.sol.stats;
    let viol: Vec<String> = r.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"confirmed\":{},\"values\":{},\"replay\":{},\"trace\":{},\"native\":{}}}", js(&v.kind), js(&v.msg), v.confirmed, js(&exec::short(&v.values)), js(&v.replay), jl(&v.trace), js(&v.native_out.chars().rev().take(1500).collect::<String>().chars().rev().collect::<String>()))).collect();
    let ids: Vec<String> = r.check_ids.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let fl: Vec<String> = fns.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let mut slow = s.slow.clone(); slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap()); slow.truncate(5);
    let json = format!("{{\"children\":{},\"cut_short\":{},\"harness\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"checks_trivial\":{},\"checks_solver\":{},\"tol_checks\":{},\"norm_checks\":{},\"check_ids\":{{{}}},\"covers\":[{}],\"violations\":[{}],\"errors\":{},\"inconclusive\":{},\"validated\":{},\"validate_failed\":{},\"samples\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"slow\":{},\"by_z3\":{},\"by_cvc5\":{},\"by_other\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"functions_executed\":{},\"repo_functions\":{{{}}}}}\n",
        r.children, r.cut_short, js(&harness), r.paths_done, r.paths_infeasible, r.forks, r.steps, r.checks, r.checks_trivial, r.checks_solver, r.tol_checks, r.norm_checks, ids.join(","), r.covers.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), viol.join(","), jl(&r.errors), jl(&r.inconclusive), r.validated, jl(&r.validate_failed), jl(&r.samples),
        s.queries, s.sat, s.unsat, s.unknown, s.cached, s.time, s.max_time, jl(&slow.iter().map(|x| format!("{:.2}s {}", x.0, x.1)).collect::<Vec<_>>()), s.by_z3, s.by_cvc5, s.by_race, wall, load_s, nfn, fl.join(","));
    match e.child {
        None => std::fs::write(&out, json).unwrap(),
        Some(k) => {
            std::fs::write(format!("{}.{}", out, k), json).unwrap();
            let code = if e.rep.violations.iter().any(|v| v.confirmed) { 10 } else { 0 };
            e.sol.close();
            unsafe { _exit(code) }
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() { std::process::exit(3); }
}
