//! Symbolic interpreter for LLVM IR.
use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517cc1b727220a95); } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
}
type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

const PAGE: usize = 4096;
#[derive(Clone)]
pub struct Page { data: Box<[u8; PAGE]>, sym: BTreeMap<u16, (u8, T)> }

pub const HEAP_BASE: u64 = 0x20_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone)]
pub struct Frame { func: Rc<Func>, fid: u32, base: usize, block: u32, ip: u32, dst: u32, sp: u64, inv: Option<(u32, u32)> }

#[derive(Clone, Debug)]
pub enum InVal { Term(T), Conc(f64, bool) }
#[derive(Clone, Debug)]
pub struct Input { pub name: String, pub is_int: bool, pub v: InVal }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    pages: FxMap<u64, Rc<Page>>,
    heap: u64,
    sizes: Rc<FxMap<u64, u64>>,
    sp: u64,
    pub pc: Vec<T>,
    known: FxMap<u32, bool>,
    bounds: FxMap<u32, (i128, i128)>,
    pub model: Option<Rc<HashMap<u32, f64>>>,
    pub inputs: Vec<Input>,
    pub obs: Vec<(String, Val)>,
    pub covers: BTreeSet<u32>,
    nchecks: u32,
    steps: u64,
}

pub enum Stop { Done, Infeasible, Panic(String), Error(String), Violation }

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub values: Vec<(String, bool, f64)>, pub trace: Vec<String>, pub confirmed: bool, pub native_out: String, pub replay: String }

#[derive(Default)]
pub struct Report {
    pub paths_done: u64, pub paths_infeasible: u64, pub forks: u64, pub steps: u64,
    pub checks: u64, pub checks_trivial: u64, pub checks_solver: u64, pub check_ids: BTreeMap<String, u64>,
    pub covers: BTreeSet<u32>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub inconclusive: Vec<String>,
    pub validated: u64, pub validate_failed: Vec<String>,
    pub samples: Vec<String>,
    pub tol_checks: u64,
    pub norm_checks: u64,
    pub children: usize, pub cut_short: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sp {
    None, Llvm, Panic, Alloc, AllocZ, Dealloc, Realloc, Print, HashKeys, HashFinish, FloatFmt, Erf, Erfc, Memcmp, Strlen, Nop, RetZero, Abort, Libm,
    VI64, VF64, VBool, VPick, VAssume, VCheck, VNear, VCover, VObs, VSymbolic, Memcpy, Memset, CatchUnwindStub,
}

pub struct Cfg { pub max_steps_path: u64, pub max_paths: u64, pub deadline: Instant, pub native: Option<String>, pub harness: String, pub outdir: String, pub validate: usize, pub progress: bool, pub max_viol: usize, pub jobs: usize }

extern "C" { fn fork() -> i32; fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32; fn kill(pid: i32, sig: i32) -> i32; }

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub sol: Solver,
    sp: Vec<Sp>,
    work: Vec<State>,
    pub rep: Report,
    pub cfg: Cfg,
    pub fcalls: BTreeMap<String, u64>,
    cur: Option<State>,
    pub child: Option<usize>,
    show_forms: bool,
}

fn big(v: &Val) -> Option<u128> { match v { Val::C(x) => Some(*x as u128), Val::Big(b) => Some(**b), Val::Undef => Some(0), _ => None } }
fn bmask(x: u128, w: u32) -> u128 { if w >= 128 { x } else { x & ((1u128 << w) - 1) } }
fn bsext(x: u128, w: u32) -> i128 { if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) } }
fn mkint(x: u128, w: u32) -> Val { if w <= 64 { Val::C(bmask(x, w) as u64) } else { Val::Big(Box::new(bmask(x, w))) } }

type R<X> = Result<X, Stop>;
fn err<X>(s: impl Into<String>) -> R<X> { Err(Stop::Error(s.into())) }

impl Engine {
    pub fn new(m: Module, sol: Solver, cfg: Cfg) -> Engine {
        let mut sp = vec![];
        for f in &m.fns { sp.push(classify(&f.name, f.span.is_some())); }
        Engine { m, ar: Arena::new(), sol, sp, work: vec![], rep: Report::default(), cfg, fcalls: BTreeMap::new(), cur: None, child: None, show_forms: std::env::var("QSYM_FORMS").is_ok() }
    }

    // ------------------------------------------------------------ memory
    fn page_mut<'a>(st: &'a mut State, no: u64) -> &'a mut Page {
        let p = st.pages.entry(no).or_insert_with(|| Rc::new(Page { data: Box::new([0; PAGE]), sym: BTreeMap::new() }));
        Rc::make_mut(p)
    }
    fn valid(st: &State, a: u64, n: u64) -> bool {
        (a >= GLOB_BASE && a < HEAP_BASE) || (a >= HEAP_BASE && a + n <= st.heap) || (a >= STACK_BASE && a + n <= st.sp + 64)
    }
    fn read_bytes(&self, st: &State, a: u64, out: &mut [u8]) -> R<()> {
        if !Self::valid(st, a, out.len() as u64) { return err(format!("invalid read of {} bytes at {:#x}", out.len(), a)); }
        let mut a = a; let mut i = 0;
        while i < out.len() {
            let off = (a as usize) % PAGE; let n = (PAGE - off).min(out.len() - i);
            match st.pages.get(&(a / PAGE as u64)) { Some(p) => out[i..i + n].copy_from_slice(&p.data[off..off + n]), None => for x in &mut out[i..i + n] { *x = 0; } }
            a += n as u64; i += n;
        }
        Ok(())
    }
    fn clear_sym(&mut self, st: &mut State, a: u64, n: u64) -> R<()> {
        // remove symbolic entries overlapping [a, a+n), splitting those that stick out
        let mut splits: Vec<(u64, u8, T)> = vec![];
        let p0 = a.saturating_sub(15) / PAGE as u64; let p1 = (a + n.max(1) - 1) / PAGE as u64;
        for pn in p0..=p1 {
            let has = match st.pages.get(&pn) { Some(p) => !p.sym.is_empty(), None => false };
            if !has { continue; }
            let base = pn * PAGE as u64;
            let pg = st.pages.get(&pn).unwrap();
            let hits: Vec<(u16, u8, T)> = pg.sym.range(..).filter(|(o, (s, _))| { let lo = base + **o as u64; lo < a + n && lo + *s as u64 > a }).map(|(o, (s, t))| (*o, *s, *t)).collect();
            if hits.is_empty() { continue; }
            let pm = Self::page_mut(st, pn);
            for (o, s, t) in hits {
                pm.sym.remove(&o);
                let lo = base + o as u64;
                if lo < a || lo + s as u64 > a + n { splits.push((lo, s, t)); }
            }
        }
        for (lo, s, t) in splits {
            if self.ar.sort(t) == Sort::Real {
                // what is left of a double may be copied about, but not read
                for x in lo..lo + s as u64 { if x < a || x >= a + n { self.put_sym(st, x, 1, t); } }
                continue;
            }
            let u = self.as_u(st, t, s as u32 * 8)?;
            for k in 0..s as u64 {
                let x = lo + k;
                if x >= a && x < a + n { continue; }
                let d = self.ar.idiv(u, 1i128 << (8 * k)); let b = self.ar.imod(d, 256);
                self.put_sym(st, x, 1, b);
            }
        }
        Ok(())
    }
    fn has_sym(st: &State, a: u64, n: u64) -> bool {
        let p0 = a.saturating_sub(15) / PAGE as u64; let p1 = (a + n.max(1) - 1) / PAGE as u64;
        for pn in p0..=p1 { if let Some(p) = st.pages.get(&pn) { if !p.sym.is_empty() {
            let base = pn * PAGE as u64;
            let lo = if a > base + 15 { (a - base - 15) as u16 } else { 0 };
            let hi = (a + n - base).min(PAGE as u64) as u16;
            if lo >= hi { continue; }
            for (o, (s, _)) in p.sym.range(lo..hi) { let x = base + *o as u64; if x < a + n && x + *s as u64 > a { return true; } }
        } } }
        false
    }
    fn put_sym(&mut self, st: &mut State, a: u64, size: u8, t: T) {
        if let Some(k) = self.ar.const_int(t) {
            let b = (k as u128).to_le_bytes();
            for i in 0..size as u64 { let pm = Self::page_mut(st, (a + i) / PAGE as u64); pm.data[((a + i) as usize) % PAGE] = b[i as usize]; }
            return;
        }
        let pm = Self::page_mut(st, a / PAGE as u64);
        pm.sym.insert(((a as usize) % PAGE) as u16, (size, t));
    }
    fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        if !Self::valid(st, a, b.len() as u64) { return err(format!("invalid write of {} bytes at {:#x}", b.len(), a)); }
        if Self::has_sym(st, a, b.len() as u64) { self.clear_sym(st, a, b.len() as u64)?; }
        let mut x = a; let mut i = 0;
        while i < b.len() {
            let off = (x as usize) % PAGE; let n = (PAGE - off).min(b.len() - i);
            let pm = Self::page_mut(st, x / PAGE as u64);
            pm.data[off..off + n].copy_from_slice(&b[i..i + n]);
            x += n as u64; i += n;
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: &Ty, a: u64) -> R<Val> {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                if let (Ty::Vec(..), Ty::Int(1)) = (ty, &**t) {
                    let x = self.load(st, &Ty::Int(((*n + 7) / 8 * 8) as u32), a)?;
                    let x = big(&x).unwrap_or(0);
                    return Ok(Val::Agg(Rc::new((0..*n).map(|i| Val::C((x >> i & 1) as u64)).collect())));
                }
                let s = t.size(); let mut v = vec![]; for i in 0..*n { v.push(self.load(st, t, a + i * s)?); } Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Struct(f, _) => { let mut v = vec![]; for i in 0..f.len() { v.push(self.load(st, &f[i], a + ty.field_offset(i))?); } Ok(Val::Agg(Rc::new(v))) }
            _ => {
                let n = ty.size(); let w = ty.width();
                if !Self::valid(st, a, n) { return err(format!("invalid read of {} bytes at {:#x}", n, a)); }
                let pn = a / PAGE as u64; let off = (a as usize) % PAGE;
                if off + n as usize <= PAGE {
                    match st.pages.get(&pn) {
                        None => return Ok(mkint(0, w)),
                        Some(p) if p.sym.is_empty() => {
                            let mut b = [0u8; 16];
                            b[..n as usize].copy_from_slice(&p.data[off..off + n as usize]);
                            return Ok(if n <= 8 { let mut c = [0u8; 8]; c.copy_from_slice(&b[..8]); Val::C(mask(u64::from_le_bytes(c), w)) } else { mkint(u128::from_le_bytes(b), w) });
                        }
                        Some(p) => if let Some(&(s, t)) = p.sym.get(&(off as u16)) { if s as u64 == n {
                            if n != 8 && self.ar.sort(t) == Sort::Real { return err("read of a part of a symbolic double"); }
                            if w == 1 && self.ar.sort(t) == Sort::Int { let b = self.to_bool(t); return Ok(Val::S(b)); }
                            return Ok(Val::S(t));
                        } }
                    }
                }
                if !Self::has_sym(st, a, n) {
                    let mut b = [0u8; 16]; self.read_bytes(st, a, &mut b[..n as usize])?;
                    return Ok(mkint(u128::from_le_bytes(b), w));
                }
                self.load_mixed(st, a, n)
            }
        }
    }
    fn load_mixed(&mut self, st: &mut State, a: u64, n: u64) -> R<Val> {
        let mut sum: Option<T> = None;
        let mut k = 0;
        while k < n {
            let x = a + k;
            // entry containing x?
            let mut found = None;
            for back in 0..16u64 {
                if x < back { break; }
                let y = x - back;
                if let Some(p) = st.pages.get(&(y / PAGE as u64)) { if let Some(&(s, t)) = p.sym.get(&(((y as usize) % PAGE) as u16)) { if y + s as u64 > x { found = Some((y, s, t)); } break; } }
            }
            let (term, len) = match found {
                None => { let mut b = [0u8; 1]; self.read_bytes(st, x, &mut b)?; (self.ar.intc(b[0] as i128), 1) }
                Some((y, s, t)) => {
                    if self.ar.sort(t) == Sort::Real { return err(format!("partial read of a symbolic double ({} bytes)", n)); }
                    let skip = x - y; let len = (s as u64 - skip).min(n - k);
                    let u = self.as_u(st, t, s as u32 * 8)?;
                    let d = self.ar.idiv(u, 1i128 << (8 * skip));
                    let b = if skip + len < s as u64 { self.ar.imod(d, 1i128 << (8 * len)) } else { d };
                    (b, len)
                }
            };
            let sc = self.ar.intc(1i128 << (8 * k)); let m = self.ar.mul(term, sc);
            sum = Some(match sum { None => m, Some(s) => self.ar.add(s, m) });
            k += len;
        }
        Ok(Val::S(sum.unwrap()))
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, a: u64) -> R<()> {
        match (ty, v) {
            (Ty::Arr(_, t), Val::Agg(xs)) | (Ty::Vec(_, t), Val::Agg(xs)) => {
                if let (Ty::Vec(n, _), Ty::Int(1)) = (ty, &**t) {
                    let mut x = 0u128; for i in 0..*n as usize { if let Val::C(1) = xs[i] { x |= 1 << i; } }
                    return self.store(st, &Ty::Int(((*n + 7) / 8 * 8) as u32), &mkint(x, 128), a);
                }
                let s = t.size(); for (i, x) in xs.iter().enumerate() { self.store(st, t, x, a + i as u64 * s)?; } Ok(()) }
            (Ty::Struct(f, _), Val::Agg(xs)) => { for i in 0..f.len() { self.store(st, &f[i], &xs[i], a + ty.field_offset(i))?; } Ok(()) }
            (_, Val::S(t)) => {
                let n = ty.size();
                if !Self::valid(st, a, n) { return err(format!("invalid write of {} bytes at {:#x}", n, a)); }
                let t = if self.ar.sort(*t) == Sort::Bool { let o = self.ar.intc(1); let z = self.ar.intc(0); self.ar.ite(*t, o, z) } else { *t };
                self.clear_sym(st, a, n)?;
                if (a as usize) % PAGE + n as usize > PAGE { return err("symbolic store across a page"); }
                self.put_sym(st, a, n as u8, t);
                Ok(())
            }
            (_, Val::Undef) => Ok(()),
            (_, v) => {
                let n = ty.size() as usize;
                let x = match big(v) { Some(x) => x, None => return err("store of aggregate as scalar") };
                let b = x.to_le_bytes();
                if n <= 16 {
                    let off = (a as usize) % PAGE;
                    if off + n <= PAGE && Self::valid(st, a, n as u64) {
                        let pm = Self::page_mut(st, a / PAGE as u64);
                        if pm.sym.is_empty() && off >= 16 { pm.data[off..off + n].copy_from_slice(&b[..n]); return Ok(()); }
                    }
                    self.write_bytes(st, a, &b[..n])
                } else { err("wide store") }
            }
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        if n > 1 << 26 { return err("huge memcpy"); }
        let mut buf = vec![0u8; n as usize];
        self.read_bytes(st, s, &mut buf)?;
        let mut ents: Vec<(u64, u8, T)> = vec![];
        if Self::has_sym(st, s, n) {
            let p0 = s.saturating_sub(15) / PAGE as u64; let p1 = (s + n - 1) / PAGE as u64;
            let mut partial = vec![];
            for pn in p0..=p1 { if let Some(p) = st.pages.get(&pn) { let base = pn * PAGE as u64; for (o, (sz, t)) in p.sym.iter() {
                let lo = base + *o as u64; let hi = lo + *sz as u64;
                if lo >= s && hi <= s + n { ents.push((lo - s, *sz, *t)); }
                else if lo < s + n && hi > s { partial.push((lo, *sz, *t)); }
            } } }
            for (lo, sz, t) in partial {
                if self.ar.sort(t) == Sort::Real { for x in lo..lo + sz as u64 { if x >= s && x < s + n { ents.push((x - s, 1, t)); } } continue; }
                let u = self.as_u(st, t, sz as u32 * 8)?;
                for k in 0..sz as u64 { let x = lo + k; if x >= s && x < s + n { let dd = self.ar.idiv(u, 1i128 << (8 * k)); let b = self.ar.imod(dd, 256); ents.push((x - s, 1, b)); } }
            }
        }
        self.write_bytes(st, d, &buf)?;
        for (o, sz, t) in ents {
            if ((d + o) as usize) % PAGE + sz as usize > PAGE { return err("symbolic copy across a page"); }
            self.put_sym(st, d + o, sz, t);
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (st.heap + al - 1) / al * al;
        // keep 8-byte values inside one page: allocations start 16-aligned, so this holds
        st.heap = a + size.max(1) + 16;
        Rc::make_mut(&mut st.sizes).insert(a, size);
        a
    }

    // ------------------------------------------------------------ integers
    fn range(&self, st: &State, t: T, d: u32) -> (i128, i128) {
        let (mut lo, mut hi) = self.ar.ii(t);
        if let Some(&(l, h)) = st.bounds.get(&t) { lo = lo.max(l); hi = hi.min(h); }
        if d > 0 {
            let r = match *self.ar.node(t) {
                Node::Add(a, b) => { let x = self.range(st, a, d - 1); let y = self.range(st, b, d - 1); Some((x.0 + y.0, x.1 + y.1)) }
                Node::Sub(a, b) => { let x = self.range(st, a, d - 1); let y = self.range(st, b, d - 1); Some((x.0 - y.1, x.1 - y.0)) }
                Node::Neg(a) => { let x = self.range(st, a, d - 1); Some((-x.1, -x.0)) }
                Node::Mul(a, b) => match self.ar.const_int(b) { Some(k) if k.abs() < 1 << 40 => { let x = self.range(st, a, d - 1); if x.0 > IMIN && x.1 < IMAX && x.0.abs() < 1 << 80 && x.1.abs() < 1 << 80 { let p = x.0 * k; let q = x.1 * k; Some((p.min(q), p.max(q))) } else { None } } _ => None },
                Node::IDiv(a, b) => match self.ar.const_int(b) { Some(k) if k > 0 => { let x = self.range(st, a, d - 1); Some((x.0.div_euclid(k), x.1.div_euclid(k))) } _ => None },
                Node::Ite(_, a, b) => { let x = self.range(st, a, d - 1); let y = self.range(st, b, d - 1); Some((x.0.min(y.0), x.1.max(y.1))) }
                _ => None,
            };
            if let Some((l, h)) = r { lo = lo.max(l); hi = hi.min(h); }
        }
        (lo, hi)
    }
    fn fits_by_solver(&mut self, st: &mut State, t: T, lo: i128, hi: i128) -> bool {
        let a = self.ar.intc(lo); let b = self.ar.intc(hi);
        let x = self.ar.lt(t, a); let y = self.ar.lt(b, t); let o = self.ar.or(x, y);
        match self.ar.const_bool(o) { Some(false) => return true, Some(true) => return false, None => {} }
        match self.query(st, &[o], false) { Res::Unsat => { st.bounds.insert(t, (lo, hi)); true } _ => false }
    }
    fn as_s(&mut self, st: &mut State, t: T, w: u32) -> R<T> {
        if self.ar.sort(t) == Sort::Bool { let o = self.ar.intc(-1); let z = self.ar.intc(0); return Ok(self.ar.ite(t, o, z)); }
        if self.ar.sort(t) == Sort::Real { return err("integer operation on a symbolic double"); }
        let (lo, hi) = self.range(st, t, 5);
        let m = 1i128 << (w - 1);
        if lo >= -m && hi < m { return Ok(t); }
        if lo >= 0 && hi < 2 * m { let c = self.ar.intc(m); let k = self.ar.intc(2 * m); let g = self.ar.le(c, t); let s = self.ar.sub(t, k); return Ok(self.ar.ite(g, s, t)); }
        if w >= 16 && self.fits_by_solver(st, t, -m, m - 1) { return Ok(t); }
        let md = self.ar.imod(t, 2 * m);
        let c = self.ar.intc(m); let k = self.ar.intc(2 * m); let g = self.ar.le(c, md); let s = self.ar.sub(md, k);
        Ok(self.ar.ite(g, s, md))
    }
    fn as_u(&mut self, st: &mut State, t: T, w: u32) -> R<T> {
        if self.ar.sort(t) == Sort::Bool { let o = self.ar.intc(1); let z = self.ar.intc(0); return Ok(self.ar.ite(t, o, z)); }
        if self.ar.sort(t) == Sort::Real { return err("integer operation on a symbolic double"); }
        let (lo, hi) = self.range(st, t, 5);
        let m = 1i128 << w;
        if lo >= 0 && hi < m { return Ok(t); }
        if w >= 16 && self.fits_by_solver(st, t, 0, m - 1) { return Ok(t); }
        if lo >= -m / 2 && hi < m / 2 { let z = self.ar.intc(0); let k = self.ar.intc(m); let g = self.ar.lt(t, z); let s = self.ar.add(t, k); return Ok(self.ar.ite(g, s, t)); }
        Ok(self.ar.imod(t, m))
    }
    fn iterm(&mut self, v: &Val, w: u32) -> R<T> {
        Ok(match v {
            Val::S(t) => *t,
            Val::C(x) => if w == 1 { self.ar.boolc(x & 1 == 1) } else { self.ar.intc(sext(*x, w) as i128) },
            Val::Big(b) => self.ar.intc(bsext(**b, w)),
            Val::Undef => if w == 1 { self.ar.boolc(false) } else { self.ar.intc(0) },
            Val::Agg(_) => return err("aggregate in scalar operation"),
        })
    }
    fn to_bool(&mut self, t: T) -> T {
        if self.ar.sort(t) == Sort::Bool { return t; }
        let one = self.ar.intc(1);
        let (lo, hi) = self.ar.ii(t);
        if lo >= 0 && hi <= 1 { return self.ar.eq(t, one); }
        let m = self.ar.imod(t, 2);
        self.ar.eq(m, one)
    }
    fn boolv(&mut self, t: T) -> Val { match self.ar.const_bool(t) { Some(b) => Val::C(b as u64), None => Val::S(t) } }
    fn intv(&mut self, t: T, w: u32) -> Val {
        if self.ar.sort(t) == Sort::Bool { return self.boolv(t); }
        match self.ar.const_int(t) { Some(k) => mkint(k as u128, w), None => Val::S(t) }
    }
    fn realv(&mut self, t: T) -> Val { match self.ar.is_real_const(t) { Some(x) => Val::C(x.to_bits()), None => Val::S(t) } }

    fn binop(&mut self, st: &mut State, o: BinOp, ty: &Ty, a: &Val, b: &Val, disjoint: bool) -> R<Val> {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = (lanes(a, *n), lanes(b, *n));
            let mut v = vec![];
            for i in 0..*n as usize { v.push(self.binop(st, o, t, &x[i], &y[i], disjoint)?); }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let w = ty.width();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 64 {
                let r = match o {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::UDiv => { if y == 0 { return err("udiv by zero"); } x / y }
                    BinOp::URem => { if y == 0 { return err("urem by zero"); } x % y }
                    BinOp::SDiv => { if y == 0 { return err("sdiv by zero"); } sext(x, w).wrapping_div(sext(y, w)) as u64 }
                    BinOp::SRem => { if y == 0 { return err("srem by zero"); } sext(x, w).wrapping_rem(sext(y, w)) as u64 }
                    BinOp::Shl => if y >= 64 { 0 } else { x << y },
                    BinOp::LShr => if y >= 64 { 0 } else { x >> y },
                    BinOp::AShr => if y >= 64 { 0 } else { (sext(x, w) >> y) as u64 },
                };
                return Ok(Val::C(mask(r, w)));
            }
        }
        if let (Some(x), Some(y)) = (big(a), big(b)) {
            let (sx, sy) = (bsext(x, w), bsext(y, w));
            let r = match o {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return err("division by zero"),
                BinOp::UDiv => x / y, BinOp::URem => x % y, BinOp::SDiv => sx.wrapping_div(sy) as u128, BinOp::SRem => sx.wrapping_rem(sy) as u128,
                BinOp::Shl => if y >= 128 { 0 } else { x << y }, BinOp::LShr => if y >= 128 { 0 } else { x >> y }, BinOp::AShr => if y >= 128 { 0 } else { (sx >> y) as u128 },
            };
            return Ok(mkint(r, w));
        }
        let x = self.iterm(a, w)?; let y = self.iterm(b, w)?;
        if w == 1 {
            let x = self.to_bool(x); let y = self.to_bool(y);
            let r = match o { BinOp::And | BinOp::Mul => self.ar.and(x, y), BinOp::Or => self.ar.or(x, y), BinOp::Xor | BinOp::Add | BinOp::Sub => self.ar.xor(x, y), _ => return err("boolean op") };
            return Ok(self.boolv(r));
        }
        // abs through the sign bit etc.
        if self.ar.sort(x) == Sort::Real || self.ar.sort(y) == Sort::Real { return self.bits_of_real(st, o, a, b, x, y); }
        let r = match o {
            BinOp::Add => self.ar.add(x, y),
            BinOp::Sub => self.ar.sub(x, y),
            BinOp::Mul => self.ar.mul(x, y),
            BinOp::SDiv | BinOp::SRem => {
                let p = self.as_s(st, x, w)?; let q = self.as_s(st, y, w)?;
                let (q, negq) = match self.ar.const_int(q) {
                    Some(0) => return err("sdiv by zero"),
                    Some(k) if k > 0 => (k, false), Some(k) => (-k, true),
                    None => { let k = self.concretize(st, q)?; if k == 0 { return err("sdiv by zero"); } (k.abs(), k < 0) }
                };
                let z = self.ar.intc(0);
                let quot = if self.range(st, p, 4).0 >= 0 { self.ar.idiv(p, q) } else {
                    let c = self.ar.le(z, p); let d1 = self.ar.idiv(p, q); let n = self.ar.neg(p); let d2 = self.ar.idiv(n, q); let d2 = self.ar.neg(d2); self.ar.ite(c, d1, d2) };
                if o == BinOp::SDiv { if negq { self.ar.neg(quot) } else { quot } }
                else if self.range(st, p, 4).0 >= 0 { self.ar.imod(p, q) }
                else { let k = self.ar.intc(q); let m = self.ar.mul(quot, k); self.ar.sub(p, m) }
            }
            BinOp::UDiv | BinOp::URem => {
                let p = self.as_u(st, x, w)?; let q = self.as_u(st, y, w)?;
                let k = match self.ar.const_int(q) { Some(k) => k, None => self.concretize(st, q)? };
                if k == 0 { return err("udiv by zero"); }
                if o == BinOp::UDiv { self.ar.idiv(p, k) } else { self.ar.imod(p, k) }
            }
            BinOp::Shl | BinOp::LShr if self.ar.const_int(x).is_some() && self.ar.const_int(y).is_none() && { let r = self.range(st, y, 4); r.0 >= 0 && r.1 < w as i128 } => {
                let r = self.range(st, y, 4); let c = bmask(self.ar.const_int(x).unwrap() as u128, w);
                let val = |k: i128| if o == BinOp::Shl { bmask(c << k, w) } else { c >> k };
                let mut t = self.ar.intc(val(r.1) as i128);
                for k in (r.0..r.1).rev() { let kk = self.ar.intc(k); let e = self.ar.eq(y, kk); let v = self.ar.intc(val(k) as i128); t = self.ar.ite(e, v, t); }
                t
            }
            BinOp::Shl => { let k = self.conc_amount(st, y)?; let c = self.ar.intc(1i128 << k); let m = self.ar.mul(x, c); self.wrap(st, m, w) }
            BinOp::LShr => { let k = self.conc_amount(st, y)?; let p = self.as_u(st, x, w)?; self.ar.idiv(p, 1i128 << k) }
            BinOp::AShr => { let k = self.conc_amount(st, y)?; let p = self.as_s(st, x, w)?; self.ar.idiv(p, 1i128 << k) }
            BinOp::And => {
                let (t, k) = match (self.ar.const_int(x), self.ar.const_int(y)) { (_, Some(k)) => (x, k), (Some(k), _) => (y, k), _ => { let k = self.concretize(st, y)?; (x, k) } };
                let k = bmask(k as u128, w);
                if k == 0 { return Ok(mkint(0, w)); }
                let u = self.as_u(st, t, w)?;
                if k == bmask(u128::MAX, w) { u }
                else if (k & (k + 1)) == 0 { self.ar.imod(u, k as i128 + 1) }
                else {
                    self.and_const(u, k, w)
                }
            }
            BinOp::Or => {
                if disjoint { self.ar.add(x, y) } else {
                    let p = self.as_u(st, x, w)?; let q = self.as_u(st, y, w)?;
                    let rp = self.range(st, p, 4); let rq = self.range(st, q, 4);
                    if self.low_zero(p, rq.1) || self.low_zero(q, rp.1) { self.ar.add(p, q) }
                    else if self.ar.const_int(q) == Some(0) { p } else if self.ar.const_int(p) == Some(0) { q }
                    else if let Some(k) = self.ar.const_int(q) { let m = self.and_const(p, k as u128, w); let s = self.ar.add(p, q); self.ar.sub(s, m) }
                    else if let Some(k) = self.ar.const_int(p) { let m = self.and_const(q, k as u128, w); let s = self.ar.add(p, q); self.ar.sub(s, m) }
                    else { let v = self.concretize(st, p)?; let u = self.concretize(st, q)?; return Ok(mkint((v | u) as u128, w)); }
                }
            }
            BinOp::Xor => {
                let (t, k) = match (self.ar.const_int(x), self.ar.const_int(y)) { (_, Some(k)) => (x, Some(k)), (Some(k), _) => (y, Some(k)), _ => (x, None) };
                match k {
                    Some(0) => t,
                    Some(-1) => { let m = self.ar.intc(-1); self.ar.sub(m, t) }
                    Some(1) if { let r = self.range(st, t, 4); r.0 >= 0 && r.1 <= 1 } => { let o = self.ar.intc(1); self.ar.sub(o, t) }
                    Some(k) => {
                        // constant with bits disjoint from the value: a plain addition
                        let ku = bmask(k as u128, w);
                        let u = self.as_u(st, t, w)?; let r = self.range(st, u, 4);
                        let tz = ku.trailing_zeros();
                        if tz < 120 && r.1 < (1i128 << tz) { let c = self.ar.intc(ku as i128); self.ar.add(u, c) }
                        else if ku == 1u128 << (w - 1) { let s = self.as_s(st, t, w)?; let c = self.ar.intc(1i128 << (w - 1)); self.ar.add(s, c) }
                        else { let m = self.and_const(u, ku, w); let two = self.ar.intc(2); let m2 = self.ar.mul(m, two); let c = self.ar.intc(ku as i128); let s = self.ar.add(u, c); self.ar.sub(s, m2) }
                    }
                    None => { let p = self.as_u(st, x, w)?; let q = self.as_u(st, y, w)?;
                        if p == q { return Ok(mkint(0, w)); }
                        // keep equality tests cheap: x ^ y is zero exactly when equal
                        let v = self.concretize(st, p)?; let u = self.concretize(st, q)?; return Ok(mkint((v ^ u) as u128, w)); }
                }
            }
        };
        Ok(self.intv(r, w))
    }
    /// u & k for an unsigned value and a constant, as a sum over the runs of ones of k
    fn and_const(&mut self, u: T, k: u128, w: u32) -> T {
        let (_, hi) = self.ar.ii(u);
        let mut acc = self.ar.intc(0);
        let mut at = 0;
        while at < w {
            if k >> at & 1 == 0 { at += 1; continue; }
            let mut end = at; while end < w && k >> end & 1 == 1 { end += 1; }
            if hi >= 0 && at < 120 && (hi >> at) == 0 { break; }
            let d = self.ar.idiv(u, 1i128 << at);
            let m = if end >= w { d } else { self.ar.imod(d, 1i128 << (end - at)) };
            let c = self.ar.intc(1i128 << at); let p = self.ar.mul(m, c);
            acc = self.ar.add(acc, p);
            at = end;
        }
        acc
    }
    fn wrap(&mut self, st: &State, t: T, w: u32) -> T { let (lo, hi) = self.range(st, t, 3); let m = 1i128 << w; if lo < -m || hi > m { self.ar.imod(t, m) } else { t } }
    fn low_zero(&self, t: T, below: i128) -> bool {
        // t is a multiple of 2^k with below < 2^k
        if below < 0 { return false; }
        match *self.ar.node(t) { Node::Mul(_, c) => match self.ar.const_int(c) { Some(c) if c > 0 => (1i128 << c.trailing_zeros().min(100)) > below, _ => false },
            Node::IntC(c) => c != 0 && (1i128 << c.trailing_zeros().min(100)) > below,
            Node::Add(a, b) => self.low_zero(a, below) && self.low_zero(b, below), _ => false }
    }
    fn conc_amount(&mut self, st: &mut State, t: T) -> R<u32> { let k = match self.ar.const_int(t) { Some(k) => k, None => self.concretize(st, t)? }; Ok((k as u32).min(100)) }
    fn bits_of_real(&mut self, st: &mut State, o: BinOp, a: &Val, b: &Val, x: T, y: T) -> R<Val> {
        let _ = st;
        let (r, k) = match (a, b) { (Val::S(_), Val::C(k)) => (x, *k), (Val::C(k), Val::S(_)) => (y, *k), _ => return err("bit operation on symbolic doubles") };
        if self.ar.sort(r) != Sort::Real { return err("bit operation on symbolic double"); }
        match (o, k) {
            (BinOp::And, 0x7fff_ffff_ffff_ffff) => { let t = self.fabs(r); Ok(self.realv(t)) }
            (BinOp::Xor, 0x8000_0000_0000_0000) => { let t = self.ar.neg(r); Ok(self.realv(t)) }
            (BinOp::And, 0x8000_0000_0000_0000) => { let z = self.ar.realc(0.0); let c = self.ar.lt(r, z); let h = self.ar.intc(i64::MIN as i128); let zi = self.ar.intc(0); let t = self.ar.ite(c, h, zi); Ok(self.intv(t, 64)) }
            (BinOp::LShr, 63) => { let z = self.ar.realc(0.0); let c = self.ar.lt(r, z); let h = self.ar.intc(1); let zi = self.ar.intc(0); let t = self.ar.ite(c, h, zi); Ok(self.intv(t, 64)) }
            (BinOp::AShr, 63) => { let z = self.ar.realc(0.0); let c = self.ar.lt(r, z); let h = self.ar.intc(-1); let zi = self.ar.intc(0); let t = self.ar.ite(c, h, zi); Ok(self.intv(t, 64)) }
            _ => err(format!("bit operation {:?} {:#x} on a symbolic double", o, k)),
        }
    }
    fn fabs(&mut self, r: T) -> T { let z = self.ar.realc(0.0); let c = self.ar.le(z, r); let n = self.ar.neg(r); self.ar.ite(c, r, n) }

    fn icmp(&mut self, st: &mut State, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = (lanes(a, *n), lanes(b, *n));
            let mut v = vec![];
            for i in 0..*n as usize { v.push(self.icmp(st, p, t, &x[i], &y[i])?); }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let w = ty.width();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Ok(Val::C(r as u64));
        }
        if let (Some(x), Some(y)) = (big(a), big(b)) {
            let (sx, sy) = (bsext(x, w), bsext(y, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Ok(Val::C(r as u64));
        }
        let x = self.iterm(a, w)?; let y = self.iterm(b, w)?;
        if self.ar.sort(x) == Sort::Real || self.ar.sort(y) == Sort::Real {
            // comparisons on the bit pattern of a finite double
            let conv = |s: &mut Engine, v: &Val, t: T| -> R<T> { match v { Val::C(k) => { let f = f64::from_bits(*k); if f.is_finite() { Ok(s.ar.realc(f)) } else { err("bit comparison with a non-finite constant") } } _ => Ok(t) } };
            let r = match p {
                Pred::Eq | Pred::Ne => { let x = conv(self, a, x)?; let y = conv(self, b, y)?; if self.ar.sort(x) != self.ar.sort(y) { return err("mixed bit comparison"); } let e = self.ar.eq(x, y); if p == Pred::Eq { e } else { self.ar.not(e) } }
                Pred::Slt if matches!(b, Val::C(0)) => { let z = self.ar.realc(0.0); self.ar.lt(x, z) }
                Pred::Sge if matches!(b, Val::C(0)) => { let z = self.ar.realc(0.0); self.ar.le(z, x) }
                Pred::Sgt if matches!(b, Val::C(k) if *k == u64::MAX) => { let z = self.ar.realc(0.0); self.ar.le(z, x) }
                _ => return err(format!("bit comparison {:?} on symbolic double", p)),
            };
            return Ok(self.boolv(r));
        }
        let r = match p {
            Pred::Eq | Pred::Ne => {
                let e = if w == 1 { let x = self.to_bool(x); let y = self.to_bool(y); self.ar.eq(x, y) } else {
                    let (rx, ry) = (self.range(st, x, 5), self.range(st, y, 5));
                    let m = 1i128 << (w - 1);
                    if rx.0 >= -m && rx.1 < m && ry.0 >= -m && ry.1 < m { self.ar.eq(x, y) }
                    else if rx.0 >= 0 && rx.1 < 2 * m && ry.0 >= 0 && ry.1 < 2 * m { self.ar.eq(x, y) }
                    else if rx.0 >= 0 && rx.1 < 2 * m || ry.0 >= 0 && ry.1 < 2 * m { let p = self.as_u(st, x, w)?; let q = self.as_u(st, y, w)?; self.ar.eq(p, q) }
                    else { let p = self.as_s(st, x, w)?; let q = self.as_s(st, y, w)?; self.ar.eq(p, q) }
                };
                if p == Pred::Eq { e } else { self.ar.not(e) }
            }
            _ if w == 1 => {
                let x = self.to_bool(x); let y = self.to_bool(y); let nx = self.ar.not(x); let ny = self.ar.not(y);
                match p { Pred::Ugt | Pred::Slt => self.ar.and(x, ny), Pred::Ult | Pred::Sgt => self.ar.and(nx, y), Pred::Uge | Pred::Sle => self.ar.or(x, ny), _ => self.ar.or(nx, y) }
            }
            Pred::Sgt => { let p = self.as_s(st, x, w)?; let q = self.as_s(st, y, w)?; self.ar.lt(q, p) }
            Pred::Sge => { let p = self.as_s(st, x, w)?; let q = self.as_s(st, y, w)?; self.ar.le(q, p) }
            Pred::Slt => { let p = self.as_s(st, x, w)?; let q = self.as_s(st, y, w)?; self.ar.lt(p, q) }
            Pred::Sle => { let p = self.as_s(st, x, w)?; let q = self.as_s(st, y, w)?; self.ar.le(p, q) }
            Pred::Ugt => { let p = self.as_u(st, x, w)?; let q = self.as_u(st, y, w)?; self.ar.lt(q, p) }
            Pred::Uge => { let p = self.as_u(st, x, w)?; let q = self.as_u(st, y, w)?; self.ar.le(q, p) }
            Pred::Ult => { let p = self.as_u(st, x, w)?; let q = self.as_u(st, y, w)?; self.ar.lt(p, q) }
            Pred::Ule => { let p = self.as_u(st, x, w)?; let q = self.as_u(st, y, w)?; self.ar.le(p, q) }
        };
        let r = self.by_bounds(st, r);
        Ok(self.boolv(r))
    }
    /// decide integer comparisons that the path's bounds already settle
    fn by_bounds(&mut self, st: &State, c: T) -> T {
        match *self.ar.node(c) {
            Node::Lt(a, b) if self.ar.sort(a) == Sort::Int => { let x = self.range(st, a, 4); let y = self.range(st, b, 4); if x.1 < y.0 { self.ar.boolc(true) } else if x.0 >= y.1 { self.ar.boolc(false) } else { c } }
            Node::Le(a, b) if self.ar.sort(a) == Sort::Int => { let x = self.range(st, a, 4); let y = self.range(st, b, 4); if x.1 <= y.0 { self.ar.boolc(true) } else if x.0 > y.1 { self.ar.boolc(false) } else { c } }
            Node::Eq(a, b) if self.ar.sort(a) == Sort::Int => { let x = self.range(st, a, 4); let y = self.range(st, b, 4); if x.1 < y.0 || y.1 < x.0 { self.ar.boolc(false) } else if x.0 == x.1 && y.0 == y.1 && x.0 == y.0 { self.ar.boolc(true) } else { c } }
            _ => c,
        }
    }

    // ------------------------------------------------------------ floats
    fn fconst(v: &Val) -> Option<f64> { match v { Val::C(x) => Some(f64::from_bits(*x)), Val::Undef => Some(0.0), _ => None } }
    fn rterm(&mut self, v: &Val) -> R<T> {
        match v {
            Val::S(t) => if self.ar.sort(*t) == Sort::Real { Ok(*t) } else { err("double operation on symbolic integer bits") },
            Val::C(x) => { let f = f64::from_bits(*x); if f.is_finite() { Ok(self.ar.realc(f)) } else { err("non-finite constant in symbolic term") } }
            Val::Undef => Ok(self.ar.realc(0.0)),
            _ => err("aggregate as double"),
        }
    }
    fn fbin(&mut self, st: &mut State, o: FOp, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = (lanes(a, *n), lanes(b, *n));
            let mut v = vec![];
            for i in 0..*n as usize { v.push(self.fbin(st, o, t, &x[i], &y[i])?); }
            return Ok(Val::Agg(Rc::new(v)));
        }
        if *ty == Ty::Float {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                let r = match o { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y };
                return Ok(Val::C(r.to_bits() as u64));
            }
            return err("symbolic f32");
        }
        let (ca, cb) = (Self::fconst(a), Self::fconst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match o { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y };
            return Ok(Val::C(r.to_bits()));
        }
        // non-finite constant with a finite symbolic value
        for (c, other, left) in [(ca, b, true), (cb, a, false)] {
            if let Some(x) = c { if !x.is_finite() {
                if x.is_nan() { return Ok(Val::C(f64::NAN.to_bits())); }
                return match o {
                    FOp::Add => Ok(Val::C(x.to_bits())),
                    FOp::Sub => Ok(Val::C((if left { x } else { -x }).to_bits())),
                    FOp::Div if !left => Ok(Val::C(0f64.to_bits())),
                    FOp::Mul | FOp::Div => {
                        let t = self.rterm(other)?; let z = self.ar.realc(0.0);
                        let e = self.ar.eq(t, z);
                        if self.decide(st, e)? { return Ok(Val::C((if o == FOp::Mul { f64::NAN } else { x }).to_bits())); }
                        let n = self.ar.lt(t, z);
                        Ok(Val::C((if self.decide(st, n)? { -x } else { x }).to_bits()))
                    }
                    _ => err("remainder with infinity"),
                };
            } }
        }
        let x = self.rterm(a)?; let y = self.rterm(b)?;
        let r = match o {
            FOp::Add => self.ar.add(x, y), FOp::Sub => self.ar.sub(x, y), FOp::Mul => self.ar.mul(x, y),
            FOp::Div => {
                let (lo, hi) = self.ar.ri(y);
                if !(lo > 0.0 || hi < 0.0) {
                    let z = self.ar.realc(0.0); let e = self.ar.eq(y, z);
                    if self.decide(st, e)? {
                        // x / 0 with an exact zero divisor (sign of zero taken as +)
                        let xz = self.ar.eq(x, z);
                        if self.decide(st, xz)? { return Ok(Val::C(f64::NAN.to_bits())); }
                        let n = self.ar.lt(x, z);
                        return Ok(Val::C((if self.decide(st, n)? { f64::NEG_INFINITY } else { f64::INFINITY }).to_bits()));
                    }
                }
                self.ar.div(x, y)
            }
            FOp::Rem => return err("symbolic frem"),
        };
        Ok(self.realv(r))
    }
    fn fcmp(&mut self, st: &mut State, p: FPred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = (lanes(a, *n), lanes(b, *n));
            let mut v = vec![];
            for i in 0..*n as usize { v.push(self.fcmp(st, p, t, &x[i], &y[i])?); }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let f = |x: f64, y: f64| { let un = x.is_nan() || y.is_nan(); match p {
            FPred::False => false, FPred::True => true, FPred::Ord => !un, FPred::Uno => un,
            FPred::Oeq => x == y, FPred::Ogt => x > y, FPred::Oge => x >= y, FPred::Olt => x < y, FPred::Ole => x <= y, FPred::One => !un && x != y,
            FPred::Ueq => un || x == y, FPred::Ugt => un || x > y, FPred::Uge => un || x >= y, FPred::Ult => un || x < y, FPred::Ule => un || x <= y, FPred::Une => un || x != y } };
        if *ty == Ty::Float {
            if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(f(f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) as u64)); }
            return err("symbolic f32");
        }
        let (ca, cb) = (Self::fconst(a), Self::fconst(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return Ok(Val::C(f(x, y) as u64)),
            (Some(x), None) if !x.is_finite() => return Ok(Val::C(f(x, 0.0) as u64)),
            (None, Some(y)) if !y.is_finite() => return Ok(Val::C(f(0.0, y) as u64)),
            _ => {}
        }
        let x = self.rterm(a)?; let y = self.rterm(b)?;
        let r = match p {
            FPred::False | FPred::Uno => self.ar.boolc(false), FPred::True | FPred::Ord => self.ar.boolc(true),
            FPred::Oeq | FPred::Ueq => self.ar.eq(x, y),
            FPred::One | FPred::Une => { let e = self.ar.eq(x, y); self.ar.not(e) }
            FPred::Ogt | FPred::Ugt => self.ar.lt(y, x), FPred::Oge | FPred::Uge => self.ar.le(y, x),
            FPred::Olt | FPred::Ult => self.ar.lt(x, y), FPred::Ole | FPred::Ule => self.ar.le(x, y),
        };
        Ok(self.boolv(r))
    }
    fn trunc_term(&mut self, t: T) -> T {
        let (lo, hi) = self.ar.ri(t);
        if lo >= 0.0 { return self.ar.floor(t); }
        if hi <= 0.0 { let n = self.ar.neg(t); let f = self.ar.floor(n); return self.ar.neg(f); }
        let z = self.ar.realc(0.0); let c = self.ar.le(z, t); let f = self.ar.floor(t); let n = self.ar.neg(t); let g = self.ar.floor(n); let g = self.ar.neg(g);
        self.ar.ite(c, f, g)
    }
    fn cast(&mut self, st: &mut State, c: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if let (Ty::Vec(n, f), Ty::Vec(m, t)) = (from, to) { if n == m && c != Cast::Bitcast {
            let x = lanes(v, *n); let mut o = vec![];
            for i in 0..*n as usize { o.push(self.cast(st, c, f, t, &x[i])?); }
            return Ok(Val::Agg(Rc::new(o)));
        } }
        let (wf, wt) = (from.width(), to.width());
        match c {
            Cast::Zext => match v { Val::S(t) => { let u = self.as_u(st, *t, wf)?; Ok(self.intv(u, wt)) } v => Ok(mkint(bmask(big(v).unwrap(), wf), wt)) },
            Cast::Sext => match v { Val::S(t) => { let u = self.as_s(st, *t, wf)?; Ok(self.intv(u, wt)) } v => Ok(mkint(bsext(big(v).unwrap(), wf) as u128, wt)) },
            Cast::Trunc => match v {
                Val::S(t) => {
                    if wt == 1 { let b = self.to_bool(*t); return Ok(self.boolv(b)); }
                    if self.ar.sort(*t) == Sort::Real { return err("truncation of symbolic double bits"); }
                    Ok(Val::S(*t))
                }
                v => Ok(mkint(big(v).unwrap(), wt)),
            },
            Cast::PtrToInt | Cast::IntToPtr => Ok(v.clone()),
            Cast::Bitcast => {
                match (from, to) {
                    (Ty::Vec(n, f), t) if !matches!(t, Ty::Vec(..)) => {
                        let x = lanes(v, *n); let wl = f.width(); let mut acc = 0u128; let mut symb: Option<T> = None;
                        for i in (0..*n as usize).rev() {
                            match &x[i] { Val::S(s) => {
                                    let u = self.as_u(st, *s, wl)?; let k = self.ar.intc(1i128 << (wl as usize * i)); let m = self.ar.mul(u, k);
                                    symb = Some(match symb { None => m, Some(y) => self.ar.add(y, m) }); }
                                xv => { acc |= bmask(big(xv).unwrap(), wl) << (wl as usize * i); } }
                        }
                        match symb { None => Ok(mkint(acc, t.width())), Some(s) => { let k = self.ar.intc(acc as i128); let r = self.ar.add(s, k); Ok(self.intv(r, t.width())) } }
                    }
                    (f, Ty::Vec(n, t)) if !matches!(f, Ty::Vec(..)) => {
                        let x = match big(v) { Some(x) => x, None => return err("bitcast of symbolic scalar to vector") };
                        let wl = t.width();
                        Ok(Val::Agg(Rc::new((0..*n).map(|i| mkint(bmask(x >> (wl as u64 * i), wl), wl)).collect())))
                    }
                    (Ty::Vec(n, f), Ty::Vec(m, t)) => {
                        if n == m { return Ok(v.clone()); }
                        let x = lanes(v, *n); let wl = f.width(); let mut bytes: Vec<u8> = vec![];
                        for i in 0..*n as usize { let b = match big(&x[i]) { Some(b) => b, None => return err("bitcast of symbolic vector") }; bytes.extend(&b.to_le_bytes()[..(wl / 8) as usize]); }
                        let wt = t.width() as usize / 8;
                        Ok(Val::Agg(Rc::new((0..*m as usize).map(|i| { let mut b = [0u8; 16]; b[..wt].copy_from_slice(&bytes[i * wt..(i + 1) * wt]); mkint(u128::from_le_bytes(b), wt as u32 * 8) }).collect())))
                    }
                    _ => Ok(v.clone()),
                }
            }
            Cast::SiToFp | Cast::UiToFp => {
                match v {
                    Val::S(t) => { let t = if c == Cast::SiToFp { self.as_s(st, *t, wf)? } else { self.as_u(st, *t, wf)? }; let r = self.ar.to_real(t); Ok(self.realv(r)) }
                    v => { let x = big(v).unwrap(); let f = if c == Cast::SiToFp { bsext(x, wf) as f64 } else { bmask(x, wf) as f64 };
                        if *to == Ty::Float { let f32v = if c == Cast::SiToFp { bsext(x, wf) as f32 } else { bmask(x, wf) as f32 }; return Ok(Val::C(f32v.to_bits() as u64)); }
                        Ok(Val::C(f.to_bits())) }
                }
            }
            Cast::FpToSi | Cast::FpToUi => match v {
                Val::S(t) => { let r = self.trunc_term(*t); Ok(self.intv(r, wt)) }
                v => { let f = if *from == Ty::Float { f32::from_bits(cval(v) as u32) as f64 } else { f64::from_bits(cval(v)) }; Ok(mkint(if c == Cast::FpToSi { f as i128 as u128 } else { f as u128 }, wt)) }
            },
            Cast::FpExt => match v { Val::C(x) => Ok(Val::C((f32::from_bits(*x as u32) as f64).to_bits())), _ => err("symbolic fpext") },
            Cast::FpTrunc => match v { Val::C(x) => Ok(Val::C((f64::from_bits(*x) as f32).to_bits() as u64)), _ => err("symbolic fptrunc") },
        }
    }

    // ------------------------------------------------------------ path conditions
    fn slice(&self, pc: &[T], extra: &[T]) -> Vec<T> {
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for &e in extra { vars.extend(self.ar.vsets[e as usize].iter()); }
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let vs = &self.ar.vsets[c as usize];
                if vs.iter().any(|v| vars.contains(v)) { used[i] = true; vars.extend(vs.iter()); ch = true; }
            }
            if !ch { break; }
        }
        let mut r: Vec<T> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &c)| c).collect();
        r.extend_from_slice(extra);
        r
    }
    fn query(&mut self, st: &State, extra: &[T], long: bool) -> Res {
        let q = self.slice(&st.pc, extra);
        self.sol.check(&mut self.ar, &q, long)
    }
    fn merge_model(st: &State, m: HashMap<u32, f64>) -> Rc<HashMap<u32, f64>> {
        let mut base = match &st.model { Some(b) => (**b).clone(), None => HashMap::new() };
        for (k, v) in m { base.insert(k, v); }
        Rc::new(base)
    }
    fn add_pc(&mut self, st: &mut State, c: T) {
        match *self.ar.node(c) {
            Node::BoolC(true) => return,
            Node::And(a, b) => { self.add_pc(st, a); self.add_pc(st, b); st.known.insert(c, true); return; }
            _ => {}
        }
        if let Some(true) = st.known.get(&c) { return; }
        st.pc.push(c);
        st.known.insert(c, true);
        let n = self.ar.not(c);
        st.known.insert(n, false);
        // integer bounds
        let ints = |s: &Engine, a: T| s.ar.sort(a) == Sort::Int;
        match *self.ar.node(c) {
            Node::Lt(a, b) if ints(self, a) => { if let Some(k) = self.ar.const_int(b) { upd(st, a, IMIN, k - 1); } if let Some(k) = self.ar.const_int(a) { upd(st, b, k + 1, IMAX); } }
            Node::Le(a, b) if ints(self, a) => { if let Some(k) = self.ar.const_int(b) { upd(st, a, IMIN, k); } if let Some(k) = self.ar.const_int(a) { upd(st, b, k, IMAX); } }
            Node::Eq(a, b) if ints(self, a) => { if let Some(k) = self.ar.const_int(b) { upd(st, a, k, k); } if let Some(k) = self.ar.const_int(a) { upd(st, b, k, k); } }
            _ => {}
        }
    }
    fn known(&mut self, st: &State, c: T) -> Option<bool> {
        if let Some(b) = self.ar.const_bool(c) { return Some(b); }
        if let Some(&b) = st.known.get(&c) { return Some(b); }
        let r = self.by_bounds(st, c);
        if let Some(b) = self.ar.const_bool(r) { return Some(b); }
        match *self.ar.node(c) {
            Node::Not(x) => { if let Some(&b) = st.known.get(&x) { return Some(!b); } let r = self.by_bounds(st, x); self.ar.const_bool(r).map(|b| !b) }
            Node::And(a, b) => match (self.known(st, a), self.known(st, b)) { (Some(true), Some(true)) => Some(true), (Some(false), _) | (_, Some(false)) => Some(false), _ => None },
            Node::Or(a, b) => match (self.known(st, a), self.known(st, b)) { (Some(false), Some(false)) => Some(false), (Some(true), _) | (_, Some(true)) => Some(true), _ => None },
            _ => None,
        }
    }
    /// Branch on a condition: explores both sides if both are feasible.
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(b) = self.known(st, c) { return Ok(b); }
        let nc = self.ar.not(c);
        let hint = st.model.as_ref().map(|m| { let mut memo = HashMap::new(); self.ar.eval(c, m, &mut memo) });
        let (first, first_model): (bool, Option<Rc<HashMap<u32, f64>>>) = match hint {
            Some(v) if !v.is_nan() => (v != 0.0, st.model.clone()),
            _ => match self.query(st, &[c], false) {
                Res::Sat(m) => (true, Some(Self::merge_model(st, m))),
                Res::Unsat => { self.add_known(st, c, false); return Ok(false); }
                Res::Unknown(_) => (true, None),
            },
        };
        let other = if first { nc } else { c };
        match self.query(st, &[other], false) {
            Res::Unsat => { self.add_known(st, c, first); st.model = first_model; return Ok(first); }
            r => {
                let mut s2 = st.clone();
                self.add_pc(&mut s2, other);
                s2.model = if let Res::Sat(m) = r { Some(Self::merge_model(st, m)) } else { None };
                self.work.push(s2);
                self.rep.forks += 1;
                if self.cfg.progress { let k = format!("{}:{} {}", st.frames.last().unwrap().block, st.frames.last().unwrap().ip, self.trace(st).into_iter().take(4).collect::<Vec<_>>().join(" < ")); *self.fcalls.entry(k).or_insert(0) += 1; }
                let mine = if first { c } else { nc };
                self.add_pc(st, mine);
                st.model = first_model;
                Ok(first)
            }
        }
    }
    fn add_known(&mut self, st: &mut State, c: T, v: bool) {
        st.known.insert(c, v);
        let n = self.ar.not(c);
        st.known.insert(n, !v);
        // implied bounds may be used by the width analysis
        let e = if v { c } else { n };
        let mut tmp = vec![]; std::mem::swap(&mut tmp, &mut st.pc);
        let had = st.known.remove(&e);
        self.add_pc(st, e);
        st.pc = tmp;
        st.known.insert(e, had.unwrap_or(true));
    }
    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        match self.known(st, c) { Some(true) => return Ok(()), Some(false) => return Err(Stop::Infeasible), None => {} }
        let ok = match &st.model { Some(m) => { let mut memo = HashMap::new(); let v = self.ar.eval(c, m, &mut memo); v == 1.0 } None => false };
        if !ok {
            match self.query(st, &[c], false) {
                Res::Sat(m) => { st.model = Some(Self::merge_model(st, m)); }
                Res::Unsat => return Err(Stop::Infeasible),
                Res::Unknown(_) => { st.model = None; }
            }
        }
        self.add_pc(st, c);
        Ok(())
    }
    /// Make an integer term concrete, exploring every feasible value.
    fn concretize(&mut self, st: &mut State, t: T) -> R<i128> {
        let mut tries = 0;
        loop {
            if let Some(k) = self.ar.const_int(t) { return Ok(k); }
            let (lo, hi) = self.range(st, t, 5);
            if lo == hi { return Ok(lo); }
            if st.model.is_none() {
                let tr = self.ar.eq(t, t); let _ = tr;
                let vs: Vec<u32> = self.ar.vsets[t as usize].to_vec();
                let z = self.ar.intc(0); let e1 = self.ar.le(z, t); let e2 = self.ar.not(e1); let dummy = self.ar.or(e1, e2);
                let _ = (vs, dummy);
                // any model of the slice will do
                let q: Vec<T> = { let c = self.ar.eq(t, z); let mut s = self.slice(&st.pc, &[c]); s.pop(); s };
                match self.sol.check(&mut self.ar, &q, false) { Res::Sat(m) => st.model = Some(Self::merge_model(st, m)), Res::Unsat => return Err(Stop::Infeasible), Res::Unknown(e) => return err(format!("cannot concretise: {}", e)) }
            }
            let m = st.model.clone().unwrap();
            let mut memo = HashMap::new();
            let v = self.ar.eval(t, &m, &mut memo) as i128;
            let k = self.ar.intc(v);
            let c = self.ar.eq(t, k);
            if self.decide(st, c)? { return Ok(v); }
            tries += 1;
            if tries > 4000 { return err("too many values while concretising"); }
            if self.known(st, c) == Some(false) { st.model = None; }
        }
    }
    fn addr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v { Val::C(x) => Ok(*x), Val::Undef => Ok(0), Val::S(t) => { let t = self.as_u(st, *t, 64)?; Ok(self.concretize(st, t)? as u64) } _ => err("bad address") }
    }
    fn cint(&mut self, st: &mut State, v: &Val) -> R<u64> { self.addr(st, v) }

    // ------------------------------------------------------------ driver
    pub fn init_globals(&mut self, st: &mut State) -> R<()> {
        for g in 0..self.m.globals.len() {
            let (addr, ty, init) = { let g = &self.m.globals[g]; (g.addr, g.ty.clone(), g.init) };
            if let Some((s, e)) = init {
                let v = { let text = &self.m.text[s..e]; let mut l = Lex::new(text); self.m.parse_const(&mut l, &ty) };
                self.store_global(st, &ty, &v, addr)?;
            }
        }
        Ok(())
    }
    fn store_global(&mut self, st: &mut State, ty: &Ty, v: &Val, a: u64) -> R<()> {
        if let (Ty::Arr(_, t), Val::Agg(xs)) = (ty, v) { if **t == Ty::Int(8) {
            let b: Vec<u8> = xs.iter().map(|x| match x { Val::C(k) => *k as u8, _ => 0 }).collect();
            return self.write_bytes(st, a, &b);
        } }
        match (ty, v) {
            (Ty::Arr(_, t), Val::Agg(xs)) => { let s = t.size(); for (i, x) in xs.iter().enumerate() { self.store_global(st, t, x, a + i as u64 * s)?; } Ok(()) }
            (Ty::Struct(f, _), Val::Agg(xs)) => { for i in 0..f.len() { self.store_global(st, &f[i], &xs[i], a + ty.field_offset(i))?; } Ok(()) }
            _ => self.store(st, ty, v, a),
        }
    }

    pub fn run(&mut self, entry: &str) {
        let mut st = State { frames: vec![], regs: vec![], pages: Default::default(), heap: HEAP_BASE, sizes: Rc::new(Default::default()), sp: STACK_BASE, pc: vec![], known: Default::default(), bounds: Default::default(),
            model: Some(Rc::new(HashMap::new())), inputs: vec![], obs: vec![], covers: BTreeSet::new(), nchecks: 0, steps: 0 };
        if let Err(Stop::Error(e)) = self.init_globals(&mut st) { self.rep.errors.push(e); return; }
        let f = match self.m.fn_by_name.get(entry) { Some(&f) => f, None => { self.rep.errors.push(format!("no function {}", entry)); return; } };
        if let Err(Stop::Error(e)) = self.push_frame(&mut st, f, vec![], NODST, None) { self.rep.errors.push(e); return; }
        self.work.push(st);
        let mut vstates: Vec<State> = vec![];
        loop {
            // with several jobs: explore breadth first until there is work for all, then divide it
            if self.cfg.jobs > 1 && self.work.len() >= self.cfg.jobs * 12 { if self.divide() { vstates.clear(); } }
            let st = if self.cfg.jobs > 1 { if self.work.is_empty() { None } else { Some(self.work.remove(0)) } } else { self.work.pop() };
            let st = match st { Some(st) => st, None => break };
            if Instant::now() > self.cfg.deadline { self.rep.errors.push(format!("time limit reached with {} states left", self.work.len() + 1)); break; }
            if self.rep.paths_done > self.cfg.max_paths { self.rep.errors.push("path limit reached".into()); break; }
            let mut st = st;
            let r = self.run_path(&mut st);
            self.rep.steps += st.steps;
            match r {
                Stop::Done => {
                    self.rep.paths_done += 1;
                    self.rep.covers.extend(st.covers.iter());
                    let n = self.rep.paths_done;
                    // keep a spread of completed paths for native validation
                    if vstates.len() < self.cfg.validate { vstates.push(slim(&st)); }
                    else if self.cfg.validate > 0 && n.is_power_of_two() { let k = (n.trailing_zeros() as usize) % self.cfg.validate; vstates[k] = slim(&st); }
                    if self.cfg.progress && n % 200 == 0 { eprintln!("  .. {} paths, {} queries, {} pending", n, self.sol.stats.queries, self.work.len()); }
                }
                Stop::Infeasible => self.rep.paths_infeasible += 1,
                Stop::Panic(msg) => {
                    let q = st.pc.clone();
                    match self.sol.check(&mut self.ar, &q, true) {
                        Res::Unsat => self.rep.paths_infeasible += 1,
                        Res::Sat(m) => { let model = Self::merge_model(&st, m); let trace = self.trace(&st); self.violation(&st, "panic", &msg, model, None, trace); }
                        Res::Unknown(e) => { let trace = self.trace(&st); let mdl = st.model.clone().unwrap_or_default();
                            if !self.violation(&st, "panic", &msg, mdl, None, trace) { self.rep.inconclusive.push(format!("panic path feasibility: {} ({})", msg, e)); self.rep.violations.pop(); } }
                    }
                }
                Stop::Violation => {}
                Stop::Error(e) => { let t = self.trace(&st); self.rep.errors.push(format!("{} @ {}", e, t.join(" < "))); if self.rep.errors.len() > 20 { break; } }
            }
            if self.rep.violations.len() >= self.cfg.max_viol { break; }
        }
        if self.rep.violations.is_empty() { for st in vstates { self.validate(&st); } }
    }

    /// Fork one child process per job, each with its share of the pending states.  The
    /// children write their own reports; the parent waits for them.  True in a child.
    fn divide(&mut self) -> bool {
        let n = self.cfg.jobs;
        self.cfg.jobs = 1;
        let mut work = std::mem::take(&mut self.work);
        let mut pids = vec![];
        for k in 0..n {
            let pid = unsafe { fork() };
            if pid == 0 {
                self.sol.forget_process();
                self.sol.stats = Default::default();
                self.rep = Default::default();
                for f in self.m.fns.iter_mut() { f.calls = 0; }
                self.fcalls.clear();
                let mut i = 0;
                work.retain(|_| { i += 1; (i - 1) % n == k });
                self.work = work;
                self.child = Some(k);
                self.cfg.validate = (self.cfg.validate + n - 1) / n;
                return true;
            }
            if pid < 0 { self.rep.errors.push("fork failed".into()); return false; }
            pids.push(pid);
        }
        self.rep.children = n;
        while !pids.is_empty() {
            let mut status = 0i32;
            let done = pids.iter().cloned().find(|&p| unsafe { waitpid(p, &mut status, 1) } != 0);
            let p = match done { Some(p) => p, None => { std::thread::sleep(std::time::Duration::from_millis(20)); continue; } };
            pids.retain(|&x| x != p);
            if status == 10 << 8 { for &q in &pids { unsafe { kill(q, 9); } } self.rep.cut_short = true; }
            else if status != 0 && !self.rep.cut_short { self.rep.errors.push(format!("worker ended with status {}", status)); }
        }
        false
    }

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| demangle(&f.func.name)).collect()
    }

    fn values(&self, st: &State, model: &HashMap<u32, f64>) -> Vec<(String, bool, f64)> {
        let mut memo = HashMap::new();
        st.inputs.iter().map(|i| (i.name.clone(), i.is_int, match i.v { InVal::Term(t) => { let v = self.ar.eval(t, model, &mut memo); if i.is_int { v.round() } else { v } } InVal::Conc(x, _) => x })).collect()
    }

    fn native(&self, vals: &[(String, bool, f64)], file: &str) -> Option<(i32, String)> {
        let bin = self.cfg.native.as_ref()?;
        let mut s = format!("{}\n", self.cfg.harness);
        for (n, is_int, v) in vals { if *is_int { s += &format!("i {} {}\n", *v as i64, n); } else { s += &format!("f {:016x} {} {:e}\n", v.to_bits(), n, v); } }
        if std::fs::write(file, &s).is_err() { return None; }
        let o = std::process::Command::new("timeout").args(["60", bin, "--replay", file]).output().ok()?;
        Some((o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr)))
    }

    /// Validate a completed path: run its model natively and compare every observation.
    fn validate(&mut self, st: &State) {
        if self.cfg.native.is_none() { return; }
        let mut models: Vec<Rc<HashMap<u32, f64>>> = vec![];
        if let Some(m) = &st.model { models.push(m.clone()); }
        let q = st.pc.clone();
        match self.sol.check(&mut self.ar, &q, false) { Res::Sat(m) => models.push(Self::merge_model(st, m)), Res::Unsat => { return; } _ => {} }
        let file = format!("{}/validate-{}-{}.txt", self.cfg.outdir, self.cfg.harness, std::process::id());
        for m in models {
            let mut memo = HashMap::new();
            // only models that satisfy the path condition in double arithmetic
            if st.pc.iter().any(|&c| self.ar.eval(c, &m, &mut memo) != 1.0) { continue; }
            let vals = self.values(st, &m);
            if let Some((code, out)) = self.native(&vals, &file) {
                if code != 0 { self.rep.validate_failed.push(format!("native run of a verified path exits {}: {} {:?}", code, out.lines().last().unwrap_or(""), short(&vals))); break; }
                let nat: Vec<(String, f64)> = out.lines().filter_map(|l| l.strip_prefix("OBS ")).filter_map(|l| { let mut p = l.rsplitn(2, ' '); let v = u64::from_str_radix(p.next()?, 16).ok()?; Some((p.next()?.to_string(), f64::from_bits(v))) }).collect();
                let mut bad = None;
                if nat.len() != st.obs.len() { bad = Some(format!("{} observations natively, {} predicted", nat.len(), st.obs.len())); }
                else { for (i, (n, v)) in st.obs.iter().enumerate() {
                    let pv = match v { Val::C(b) => f64::from_bits(*b), Val::S(t) => self.ar.eval(*t, &m, &mut memo), _ => f64::NAN };
                    let nv = nat[i].1;
                    let ok = (pv.is_nan() && nv.is_nan()) || pv == nv || (pv - nv).abs() <= 1e-6 * (1.0 + pv.abs().max(nv.abs()));
                    if !ok { bad = Some(format!("{}: predicted {} native {}", n, pv, nv)); break; }
                } }
                match bad { Some(b) => self.rep.validate_failed.push(format!("{} {:?}", b, short(&vals))), None => { self.rep.validated += 1; if self.rep.samples.len() < 4 { self.rep.samples.push(format!("{:?}", short(&vals))); } } }
                break;
            }
        }
        let _ = std::fs::remove_file(&file);
    }

    /// Record a violation and try to reproduce it natively. Returns true if confirmed.
    fn violation(&mut self, st: &State, kind: &str, msg: &str, model: Rc<HashMap<u32, f64>>, cond: Option<T>, trace: Vec<String>) -> bool {
        let n = self.rep.violations.len();
        let file = format!("{}/cex-{}-{}.txt", self.cfg.outdir, self.cfg.harness, n);
        let mut tried = 0;
        let mut best: Option<(Vec<(String, bool, f64)>, String)> = None;
        let mut confirmed = false;
        let vals0 = self.values(st, &model);
        let mut cands: Vec<Vec<(String, bool, f64)>> = vec![vals0.clone()];
        // further candidates: numeric search for points on this path that break the check
        if self.cfg.native.is_some() {
            let mut rng = 0x9E3779B97F4A7C15u64 ^ (n as u64 + 1).wrapping_mul(0xD1B54A32D192ED03);
            let mut rnd = || { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; (rng >> 11) as f64 / (1u64 << 53) as f64 };
            let mut vars: BTreeSet<u32> = BTreeSet::new();
            for &c in &st.pc { vars.extend(self.ar.vsets[c as usize].iter()); }
            if let Some(c) = cond { vars.extend(self.ar.vsets[c as usize].iter()); }
            let vars: Vec<u32> = vars.into_iter().collect();
            let t0 = Instant::now();
            let mut it = 0u64;
            while cands.len() < 24 && t0.elapsed().as_secs_f64() < 8.0 && it < 400000 {
                it += 1;
                let mut env: HashMap<u32, f64> = (*model).clone();
                let mode = it % 4;
                for &v in &vars {
                    let vi = &self.ar.vars[v as usize];
                    let cur = *env.get(&v).unwrap_or(&0.0);
                    let change = mode == 0 || rnd() < 0.4;
                    if !change { continue; }
                    let nv = match vi.sort {
                        Sort::Int => { let span = (vi.ihi - vi.ilo) as f64; if mode <= 1 { (vi.ilo as f64 + (rnd() * (span + 1.0)).floor()).min(vi.ihi as f64) } else { (cur + (rnd() * 7.0).floor() - 3.0).max(vi.ilo as f64).min(vi.ihi as f64) } }
                        Sort::Real => { let lo = if vi.lo.is_finite() { vi.lo } else { -1e3 }; let hi = if vi.hi.is_finite() { vi.hi } else { 1e3 };
                            if mode <= 1 { lo + rnd() * (hi - lo) } else { (cur + (rnd() - 0.5) * (hi - lo) * 10f64.powi(-((it / 4 % 6) as i32))).max(lo).min(hi) } }
                        Sort::Bool => if rnd() < 0.5 { 0.0 } else { 1.0 },
                    };
                    env.insert(v, nv);
                }
                let mut memo = HashMap::new();
                if st.pc.iter().any(|&c| self.ar.eval(c, &env, &mut memo) != 1.0) { continue; }
                if let Some(c) = cond { if self.ar.eval(c, &env, &mut memo) != 0.0 { continue; } }
                cands.push(self.values(st, &env));
            }
        }
        for vals in cands {
            tried += 1;
            match self.native(&vals, &file) {
                None => break,
                Some((code, out)) => {
                    if code == 77 { confirmed = true; best = Some((vals, out)); break; }
                    if best.is_none() { best = Some((vals, out)); }
                }
            }
        }
        let (values, native_out) = best.unwrap_or((vals0, format!("not run ({} tried)", tried)));
        if confirmed { self.native(&values, &file); }
        self.rep.violations.push(Violation { kind: kind.into(), msg: msg.into(), values, trace, confirmed, native_out, replay: file });
        confirmed
    }

    fn check_cond(&mut self, st: &mut State, c: T, msg: &str, weak: Option<T>) -> R<()> {
        st.nchecks += 1;
        self.rep.checks += 1;
        *self.rep.check_ids.entry(msg.to_string()).or_insert(0) += 1;
        if self.known(st, c) == Some(true) { self.rep.checks_trivial += 1; return Ok(()); }
        let nc = self.ar.not(c);
        self.rep.checks_solver += 1;
        let mut first = self.query(st, &[nc], weak.is_none());
        // a branch whose feasibility was not decided may have been taken: ask about the whole path
        if let Res::Sat(_) = first { let mut q = st.pc.clone(); q.push(nc); first = self.sol.check(&mut self.ar, &q, weak.is_none()); }
        match (first, weak) {
            (Res::Unsat, _) => { self.add_known(st, c, true); Ok(()) }
            (Res::Sat(m), None) => { let model = Self::merge_model(st, m); let tr = self.trace(st); self.violation(st, "check", msg, model, Some(c), tr); Err(Stop::Violation) }
            (Res::Unknown(e), None) => {
                let tr = self.trace(st); let mdl = st.model.clone().unwrap_or_default();
                if self.violation(st, "check", msg, mdl, Some(c), tr) { return Err(Stop::Violation); }
                self.rep.violations.pop();
                self.rep.inconclusive.push(format!("{}: {}", msg, e));
                Err(Stop::Infeasible)
            }
            (_, Some(w)) => { self.rep.tol_checks += 1; self.rep.checks -= 1; self.check_cond(st, w, msg, None) }
        }
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: u32, inv: Option<(u32, u32)>) -> R<()> {
        if self.m.fns[f as usize].span.is_none() { return err(format!("call of external {}", self.m.fns[f as usize].name)); }
        self.m.fns[f as usize].calls += 1;
        let func = self.m.decode(f);
        if st.frames.len() > 2000 { return err("call depth"); }
        let base = st.regs.len();
        st.regs.resize(base + func.nregs as usize, Val::Undef);
        for (i, a) in args.into_iter().enumerate() { if (i as u32) < func.nparams { st.regs[base + i] = a; } }
        st.frames.push(Frame { func, fid: f, base, block: 0, ip: 0, dst, sp: st.sp, inv });
        Ok(())
    }

    #[inline]
    fn get(st: &State, base: usize, o: &Op) -> Val { match o { Op::R(r) => st.regs[base + *r as usize].clone(), Op::K(v) => v.clone() } }

    fn jump(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        let prev = fr.block;
        fr.block = b; fr.ip = 0;
        let func = fr.func.clone(); let base = fr.base;
        let blk = &func.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                for (p, o) in inc { if *p == prev { vals.push((*d, Self::get(st, base, o))); break; } }
            }
            for (d, v) in vals { st.regs[base + d as usize] = v; }
        }
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) { Ok(()) => {} Err(s) => return s }
            st.steps += 1;
            if st.steps & 0xfffff == 0 {
                if st.steps > self.cfg.max_steps_path { return Stop::Error("step limit on a path".into()); }
                if Instant::now() > self.cfg.deadline { return Stop::Error("time limit".into()); }
            }
        }
    }

    fn set(st: &mut State, base: usize, dst: u32, v: Val) { if dst != NODST { st.regs[base + dst as usize] = v; } }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (func, base, block, ip) = { let f = st.frames.last().unwrap(); (f.func.clone(), f.base, f.block, f.ip) };
        let inst = &func.blocks[block as usize].insts[ip as usize];
        let dst = inst.dst;
        macro_rules! adv { ($v:expr) => {{ let v = $v; Self::set(st, base, dst, v); st.frames.last_mut().unwrap().ip += 1; return Ok(()); }}; }
        match &inst.k {
            K::Bin(o, ty, a, b, dj) => { let (a, b) = (Self::get(st, base, a), Self::get(st, base, b)); adv!(self.binop(st, *o, ty, &a, &b, *dj)?) }
            K::ICmp(p, ty, a, b) => { let (a, b) = (Self::get(st, base, a), Self::get(st, base, b)); adv!(self.icmp(st, *p, ty, &a, &b)?) }
            K::Load(ty, p) => { let p = Self::get(st, base, p); let a = self.addr_for_load(st, &p, ty)?; match a { Ok(a) => adv!(self.load(st, ty, a)?), Err(v) => adv!(v) } }
            K::Store(ty, v, p) => { let p = Self::get(st, base, p); let v = Self::get(st, base, v); let a = self.addr(st, &p)?; self.store(st, ty, &v, a)?; adv!(Val::Undef) }
            K::Gep(b, off, dynv) => {
                let b = Self::get(st, base, b);
                let mut acc = match &b { Val::C(x) => Ok(x.wrapping_add(*off as u64)), Val::Undef => Ok(*off as u64), Val::S(t) => { let k = self.ar.intc(*off as i128); Err(self.ar.add(*t, k)) } _ => return err("gep base") };
                for (o, w, sc) in dynv {
                    let v = Self::get(st, base, o);
                    match (&mut acc, &v) {
                        (Ok(a), Val::C(x)) => *a = a.wrapping_add((sext(*x, *w).wrapping_mul(*sc)) as u64),
                        (Ok(_), Val::Undef) => {}
                        _ => {
                            let t = self.iterm(&v, *w)?; let t = self.as_s(st, t, *w)?; let k = self.ar.intc(*sc as i128); let m = self.ar.mul(t, k);
                            let bt = match acc { Ok(a) => self.ar.intc(a as i128), Err(t) => t };
                            acc = Err(self.ar.add(bt, m));
                        }
                    }
                }
                adv!(match acc { Ok(a) => Val::C(a), Err(t) => self.intv(t, 64) })
            }
            K::Br(b) => { self.jump(st, *b); Ok(()) }
            K::CondBr(c, a, b) => {
                let c = Self::get(st, base, c);
                let t = match c { Val::C(x) => x & 1 == 1, Val::Undef => false, Val::S(t) => { let t = self.to_bool(t); self.decide(st, t)? } _ => return err("branch") };
                self.jump(st, if t { *a } else { *b }); Ok(())
            }
            K::Switch(c, w, d, cases) => {
                let c = Self::get(st, base, c);
                let mut target = *d;
                match c {
                    Val::C(x) => { for (k, b) in cases { if *k == x { target = *b; break; } } }
                    Val::S(t) => {
                        let u = if *w == 1 { self.to_bool(t) } else { t };
                        for (k, b) in cases {
                            let e = if *w == 1 { if *k == 1 { u } else { self.ar.not(u) } } else {
                                let v = self.icmp(st, Pred::Eq, &Ty::Int(*w), &Val::S(u), &Val::C(*k))?; match v { Val::C(x) => self.ar.boolc(x == 1), Val::S(t) => t, _ => return err("switch") } };
                            if self.decide(st, e)? { target = *b; break; }
                        }
                    }
                    Val::Undef => {}
                    _ => return err("switch"),
                }
                self.jump(st, target); Ok(())
            }
            K::Cast(c, f, t, v) => { let v = Self::get(st, base, v); let v = if let Val::Undef = v { zero_val(f) } else { v }; adv!(self.cast(st, *c, f, t, &v)?) }
            K::Select(c, ty, a, b, vecc) => {
                let c = Self::get(st, base, c); let (a, b) = (Self::get(st, base, a), Self::get(st, base, b));
                if *vecc {
                    let n = if let Ty::Vec(n, _) = ty { *n } else { 0 };
                    let (cc, x, y) = (lanes(&c, n), lanes(&a, n), lanes(&b, n));
                    let mut v = vec![];
                    for i in 0..n as usize { v.push(match &cc[i] { Val::C(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, _ => return err("symbolic vector select") }); }
                    adv!(Val::Agg(Rc::new(v)))
                }
                match c {
                    Val::C(x) => adv!(if x & 1 == 1 { a } else { b }),
                    Val::Undef => adv!(b),
                    Val::S(t) => { let t = self.to_bool(t); if let Some(k) = self.known(st, t) { adv!(if k { a } else { b }) } let v = self.ite_val(st, t, ty, &a, &b)?; adv!(v) }
                    _ => err("select"),
                }
            }
            K::Alloca(sz, al, n) => {
                let n = Self::get(st, base, n); let n = self.cint(st, &n)?;
                let al = (*al).max(16);
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + sz * n + 16;
                // fresh stack memory: forget stale symbolic contents
                if Self::has_sym(st, a, (sz * n).max(1)) { self.clear_sym(st, a, sz * n)?; }
                adv!(Val::C(a))
            }
            K::FBin(o, ty, a, b) => { let (a, b) = (Self::get(st, base, a), Self::get(st, base, b)); adv!(self.fbin(st, *o, ty, &a, &b)?) }
            K::FCmp(p, ty, a, b) => { let (a, b) = (Self::get(st, base, a), Self::get(st, base, b)); adv!(self.fcmp(st, *p, ty, &a, &b)?) }
            K::FNeg(ty, a) => {
                let a = Self::get(st, base, a);
                if *ty == Ty::Double { match a { Val::C(x) => adv!(Val::C((-f64::from_bits(x)).to_bits())), Val::S(t) => { let r = self.ar.neg(t); adv!(self.realv(r)) } _ => {} } }
                if *ty == Ty::Float { if let Val::C(x) = a { adv!(Val::C((-f32::from_bits(x as u32)).to_bits() as u64)) } }
                if let Ty::Vec(n, _) = ty { let x = lanes(&a, *n); let mut v = vec![]; for e in x { v.push(match e { Val::C(b) => Val::C((-f64::from_bits(b)).to_bits()), Val::S(t) => { let r = self.ar.neg(t); self.realv(r) } e => e }); } adv!(Val::Agg(Rc::new(v))) }
                err("fneg")
            }
            K::ExtractValue(a, ix) => { let mut v = Self::get(st, base, a); for i in ix { v = match v { Val::Agg(x) => x[*i as usize].clone(), Val::Undef => Val::Undef, _ => return err("extractvalue") }; } adv!(v) }
            K::InsertValue(a, v, ix, ty) => { let a = Self::get(st, base, a); let v = Self::get(st, base, v); let a = if let Val::Undef = a { undef_val(ty) } else { a }; adv!(insert(&a, &v, ix)) }
            K::ExtractElem(a, i) => { let a = Self::get(st, base, a); let i = Self::get(st, base, i); let i = self.cint(st, &i)?; adv!(match a { Val::Agg(x) => x[i as usize].clone(), _ => Val::Undef }) }
            K::InsertElem(a, v, i, n) => { let a = Self::get(st, base, a); let v = Self::get(st, base, v); let i = Self::get(st, base, i); let i = self.cint(st, &i)?; let mut l = lanes(&a, *n); l[i as usize] = v; adv!(Val::Agg(Rc::new(l))) }
            K::Shuffle(a, b, n, ix) => { let a = Self::get(st, base, a); let b = Self::get(st, base, b); let (x, y) = (lanes(&a, *n), lanes(&b, *n)); adv!(Val::Agg(Rc::new(ix.iter().map(|&i| if i < 0 { Val::Undef } else if (i as u64) < *n { x[i as usize].clone() } else { y[i as usize - *n as usize].clone() }).collect()))) }
            K::Copy(a) => { let v = Self::get(st, base, a); adv!(if let Val::Undef = v { Val::C(0) } else { v }) }
            K::Nop => adv!(Val::Undef),
            K::Rmw(o, ty, p, v) => {
                let p = Self::get(st, base, p); let a = self.addr(st, &p)?; let v = Self::get(st, base, v);
                let old = self.load(st, ty, a)?;
                let new = match o.as_str() { "xchg" => v, "add" => self.binop(st, BinOp::Add, ty, &old, &v, false)?, "sub" => self.binop(st, BinOp::Sub, ty, &old, &v, false)?, "and" => self.binop(st, BinOp::And, ty, &old, &v, false)?, "or" => self.binop(st, BinOp::Or, ty, &old, &v, false)?, "xor" => self.binop(st, BinOp::Xor, ty, &old, &v, false)?,
                    "umax" => if cval(&old) > cval(&v) { old.clone() } else { v }, "umin" => if cval(&old) < cval(&v) { old.clone() } else { v }, s => return err(format!("atomicrmw {}", s)) };
                self.store(st, ty, &new, a)?;
                adv!(old)
            }
            K::CmpXchg(ty, p, c, n) => {
                let p = Self::get(st, base, p); let a = self.addr(st, &p)?; let c = Self::get(st, base, c); let n = Self::get(st, base, n);
                let old = self.load(st, ty, a)?;
                let same = match (big(&old), big(&c)) { (Some(x), Some(y)) => x == y, _ => return err("symbolic cmpxchg") };
                if same { self.store(st, ty, &n, a)?; }
                adv!(Val::Agg(Rc::new(vec![old, Val::C(same as u64)])))
            }
            K::Ret(v) => {
                let v = v.as_ref().map(|o| Self::get(st, base, o)).unwrap_or(Val::Undef);
                let fr = st.frames.pop().unwrap();
                st.regs.truncate(fr.base);
                st.sp = fr.sp;
                match st.frames.last_mut() {
                    None => Err(Stop::Done),
                    Some(p) => {
                        let pb = p.base;
                        if let Some((n, _)) = fr.inv { Self::set(st, pb, fr.dst, v); self.jump(st, n); }
                        else { p.ip += 1; Self::set(st, pb, fr.dst, v); }
                        Ok(())
                    }
                }
            }
            K::Call(callee, args, rt, inv) => {
                let f = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => { let v = Self::get(st, base, o); let a = self.addr(st, &v)?; match self.m.fn_at(a) { Some(f) => f, None => return err(format!("indirect call to {:#x}", a)) } }
                    Callee::Asm => return err("inline asm"),
                };
                let sp = self.sp[f as usize];
                let mut av: Vec<Val> = Vec::with_capacity(args.len());
                for a in args { av.push(Self::get(st, base, a)); }
                if sp == Sp::None { return self.push_frame(st, f, av, dst, *inv); }
                match self.special(st, sp, f, &av, rt, dst)? {
                    Some(v) => { Self::set(st, base, dst, v); if let Some((n, _)) = inv { self.jump(st, *n); } else { st.frames.last_mut().unwrap().ip += 1; } Ok(()) }
                    None => Ok(()),
                }
            }
            K::Unreachable => Err(Stop::Panic("reached unreachable code".into())),
            K::LandingPad | K::Resume => err("unwinding"),
            K::Unsupported(s) => err(format!("unsupported: {}", s)),
        }
    }

    /// Loads through a symbolic address: small constant tables become ite chains, others fork.
    fn addr_for_load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Result<u64, Val>> {
        let t = match p { Val::C(x) => return Ok(Ok(*x)), Val::Undef => return Ok(Ok(0)), Val::S(t) => *t, _ => return err("bad address") };
        let n = ty.size() as i128;
        let (lo, hi) = self.range(st, t, 5);
        if matches!(ty, Ty::Int(_)) && hi - lo <= 256 * n && hi - lo >= 0 && lo >= GLOB_BASE as i128 {
            // stride of the index
            let stride = match *self.ar.node(t) { Node::Add(a, _) => match *self.ar.node(a) { Node::Mul(_, k) => self.ar.const_int(k).unwrap_or(1), _ => 1 }, Node::Mul(_, k) => self.ar.const_int(k).unwrap_or(1), _ => 1 };
            let mut ok = true; let mut items = vec![];
            let mut a = lo;
            let w = ty.width();
            while a <= hi {
                if !Self::valid(st, a as u64, n as u64) || Self::has_sym(st, a as u64, n as u64) { ok = false; break; }
                let v = self.load(st, ty, a as u64)?;
                match v { Val::C(x) => items.push((a, x)), _ => { ok = false; break; } }
                a += stride.max(1);
            }
            if ok && items.len() > 4 {
                // tables of digits and the like: c + (i / p) mod q
                let lo_t = self.ar.intc(lo); let off = self.ar.sub(t, lo_t); let idx = self.ar.idiv(off, stride.max(1));
                let c0 = sext(items[0].1, w) as i128;
                for p in [1i128, 2, 5, 10, 100] { for q in [10i128, 1 << 40] {
                    if items.iter().enumerate().all(|(i, x)| sext(x.1, w) as i128 == c0 + (i as i128 / p) % q) {
                        let d = self.ar.idiv(idx, p); let d = self.ar.imod(d, q); let c = self.ar.intc(c0); let r = self.ar.add(d, c);
                        return Ok(Err(self.intv(r, w)));
                    }
                } }
            }
            if ok && !items.is_empty() && items.len() <= 260 {
                let mut r = self.ar.intc(sext(items[items.len() - 1].1, w) as i128);
                for i in (0..items.len() - 1).rev() {
                    let k = self.ar.intc(items[i].0); let e = self.ar.eq(t, k); let v = self.ar.intc(sext(items[i].1, w) as i128);
                    r = self.ar.ite(e, v, r);
                }
                return Ok(Err(self.intv(r, w)));
            }
        }
        let a = self.concretize(st, t)?;
        Ok(Ok(a as u64))
    }

    fn ite_val(&mut self, st: &mut State, c: T, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                let x = self.iterm(a, *w)?; let y = self.iterm(b, *w)?;
                if self.ar.sort(x) != self.ar.sort(y) {
                    if *w == 1 { let x = self.to_bool(x); let y = self.to_bool(y); let r = self.ar.ite(c, x, y); return Ok(self.boolv(r)); }
                    return Ok(if self.decide(st, c)? { a.clone() } else { b.clone() });
                }
                // the two sides must use the same representative range
                let r = self.ar.ite(c, x, y); Ok(self.intv(r, *w))
            }
            Ty::Double => {
                let fin = |v: &Val| match v { Val::C(x) => f64::from_bits(*x).is_finite(), _ => true };
                if fin(a) && fin(b) { let x = self.rterm(a)?; let y = self.rterm(b)?; let r = self.ar.ite(c, x, y); Ok(self.realv(r)) }
                else { Ok(if self.decide(st, c)? { a.clone() } else { b.clone() }) }
            }
            _ => {
                if let (Val::C(x), Val::C(y)) = (a, b) { if x == y { return Ok(a.clone()); } }
                Ok(if self.decide(st, c)? { a.clone() } else { b.clone() })
            }
        }
    }

    fn read_str(&self, st: &State, p: &Val, n: &Val) -> String {
        let mut b = vec![0u8; cval(n).min(4096) as usize];
        let _ = self.read_bytes(st, cval(p), &mut b);
        String::from_utf8_lossy(&b).into_owned()
    }

    fn special(&mut self, st: &mut State, sp: Sp, f: u32, a: &[Val], rt: &Ty, dst: u32) -> R<Option<Val>> {
        match sp {
            Sp::Llvm => return self.intrinsic(st, f, a, rt).map(Some),
            Sp::Panic => {
                // the last pointer argument is usually the source location
                let mut msg = demangle(&self.m.fns[f as usize].name);
                if let Some(Val::C(loc)) = a.last() {
                    let mut b = [0u8; 24];
                    if self.read_bytes(st, *loc, &mut b).is_ok() {
                        let p = u64::from_le_bytes(b[0..8].try_into().unwrap()); let n = u64::from_le_bytes(b[8..16].try_into().unwrap()); let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                        if n < 300 { let s = self.read_str(st, &Val::C(p), &Val::C(n)); if s.contains(".rs") { msg = format!("panic at {}:{}", s, line); } }
                    }
                }
                return Err(Stop::Panic(msg));
            }
            Sp::Abort => return Err(Stop::Panic("abort".into())),
            Sp::Alloc => { let n = self.cint(st, &a[0])?; let al = if a.len() > 1 { self.cint(st, &a[1])? } else { 16 }; return Ok(Some(Val::C(self.alloc(st, n, al)))); }
            Sp::AllocZ => { let n = self.cint(st, &a[0])?; let al = self.cint(st, &a[1])?; return Ok(Some(Val::C(self.alloc(st, n, al)))); }
            Sp::Dealloc => {
                let p = self.cint(st, &a[0])?;
                if p != 0 { if Rc::make_mut(&mut st.sizes).remove(&p).is_none() { return Err(Stop::Panic(format!("free of memory that is not allocated ({:#x})", p))); } }
                return Ok(Some(Val::Undef));
            }
            Sp::Realloc => {
                let p = self.cint(st, &a[0])?; let old = self.cint(st, &a[1])?; let al = self.cint(st, &a[2])?; let n = self.cint(st, &a[3])?;
                let q = self.alloc(st, n, al);
                self.memcpy(st, q, p, old.min(n))?;
                Rc::make_mut(&mut st.sizes).remove(&p);
                return Ok(Some(Val::C(q)));
            }
            Sp::Print | Sp::Nop | Sp::CatchUnwindStub => return Ok(Some(Val::Undef)),
            Sp::RetZero => return Ok(Some(zero_val(rt))),
            Sp::FloatFmt => {
                // the digits of a symbolic number are left out of the text
                let p = self.cint(st, &a[0])?;
                if let Val::S(_) = self.load(st, &Ty::Double, p)? { return Ok(Some(Val::C(0))); }
                self.push_frame(st, f, a.to_vec(), dst, None)?;
                return Ok(None);
            }
            Sp::HashFinish => return Ok(Some(Val::C(0x0101010101010101))),
            Sp::HashKeys => return Ok(Some(Val::Agg(Rc::new(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)])))),
            Sp::Erf | Sp::Erfc => {
                if let Val::S(t) = a[0] { let r = if sp == Sp::Erf { self.ar.erf(t) } else { self.ar.erfc(t) }; return Ok(Some(Val::S(r))); }
                self.push_frame(st, f, a.to_vec(), dst, None)?;
                return Ok(None);
            }
            Sp::Memcmp => {
                let (p, q, n) = (self.cint(st, &a[0])?, self.cint(st, &a[1])?, self.cint(st, &a[2])?);
                if !Self::has_sym(st, p, n.max(1)) && !Self::has_sym(st, q, n.max(1)) {
                    let mut x = vec![0u8; n as usize]; let mut y = vec![0u8; n as usize];
                    self.read_bytes(st, p, &mut x)?; self.read_bytes(st, q, &mut y)?;
                    let r = match x.cmp(&y) { std::cmp::Ordering::Less => -1i32, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1 };
                    return Ok(Some(Val::C(r as u32 as u64)));
                }
                for i in 0..n {
                    let x = self.load(st, &Ty::Int(8), p + i)?; let y = self.load(st, &Ty::Int(8), q + i)?;
                    let e = self.icmp(st, Pred::Eq, &Ty::Int(8), &x, &y)?;
                    let eq = match e { Val::C(k) => k == 1, Val::S(t) => self.decide(st, t)?, _ => return err("memcmp") };
                    if !eq { let l = self.icmp(st, Pred::Ult, &Ty::Int(8), &x, &y)?; let lt = match l { Val::C(k) => k == 1, Val::S(t) => self.decide(st, t)?, _ => return err("memcmp") };
                        return Ok(Some(Val::C(if lt { u32::MAX as u64 } else { 1 }))); }
                }
                return Ok(Some(Val::C(0)));
            }
            Sp::Strlen => {
                let p = self.cint(st, &a[0])?;
                let mut n = 0;
                loop {
                    let x = self.load(st, &Ty::Int(8), p + n)?;
                    let e = self.icmp(st, Pred::Eq, &Ty::Int(8), &x, &Val::C(0))?;
                    if match e { Val::C(k) => k == 1, Val::S(t) => self.decide(st, t)?, _ => return err("strlen") } { break; }
                    n += 1;
                }
                return Ok(Some(Val::C(n)));
            }
            Sp::Memcpy => { let (d, s, n) = (self.cint(st, &a[0])?, self.cint(st, &a[1])?, self.cint(st, &a[2])?); self.memcpy(st, d, s, n)?; return Ok(Some(Val::C(d))); }
            Sp::Memset => { let (d, n) = (self.cint(st, &a[0])?, self.cint(st, &a[2])?); let b = self.cint(st, &a[1])? as u8; self.write_bytes(st, d, &vec![b; n as usize])?; return Ok(Some(Val::C(d))); }
            Sp::Libm => { let nm = self.m.fns[f as usize].name.clone(); return self.libm(st, &nm, a).map(Some); }
            Sp::VSymbolic => return Ok(Some(Val::C(1))),
            Sp::VI64 => {
                let name = self.read_str(st, &a[0], &a[1]);
                let (lo, hi) = (cval(&a[2]) as i64 as i128, cval(&a[3]) as i64 as i128);
                if lo == hi { st.inputs.push(Input { name, is_int: true, v: InVal::Conc(lo as f64, true) }); return Ok(Some(Val::C(lo as u64))); }
                let t = self.ar.var(name.clone(), Sort::Int, f64::NEG_INFINITY, f64::INFINITY, lo, hi);
                st.inputs.push(Input { name, is_int: true, v: InVal::Term(t) });
                if let Some(m) = st.model.clone() { let mut m = (*m).clone(); if let Node::Var(v) = *self.ar.node(t) { m.insert(v, ((lo + hi) / 2) as f64); } st.model = Some(Rc::new(m)); }
                return Ok(Some(Val::S(t)));
            }
            Sp::VF64 => {
                let name = self.read_str(st, &a[0], &a[1]);
                let (lo, hi) = (f64::from_bits(cval(&a[2])), f64::from_bits(cval(&a[3])));
                let t = self.ar.var(name.clone(), Sort::Real, lo, hi, IMIN, IMAX);
                st.inputs.push(Input { name, is_int: false, v: InVal::Term(t) });
                if let Some(m) = st.model.clone() { let mut m = (*m).clone(); if let Node::Var(v) = *self.ar.node(t) {
                    let k = st.inputs.len() as f64;
                    let x = if lo.is_finite() && hi.is_finite() { lo + (hi - lo) * (0.3 + 0.37 * (k * 0.618).fract()) } else { 1.0 + 0.1 * k };
                    m.insert(v, x); } st.model = Some(Rc::new(m)); }
                return Ok(Some(Val::S(t)));
            }
            Sp::VBool => {
                let name = self.read_str(st, &a[0], &a[1]);
                let t = self.ar.var(name.clone(), Sort::Int, 0.0, 1.0, 0, 1);
                st.inputs.push(Input { name, is_int: true, v: InVal::Term(t) });
                let o = self.ar.intc(1);
                if let Some(m) = st.model.clone() { let mut m = (*m).clone(); if let Node::Var(v) = *self.ar.node(t) { m.insert(v, 0.0); } st.model = Some(Rc::new(m)); }
                let b = self.ar.eq(t, o);
                return Ok(Some(Val::S(b)));
            }
            Sp::VPick => {
                let name = self.read_str(st, &a[0], &a[1]);
                let n = cval(&a[2]);
                let base = st.frames.last().unwrap().base;
                for k in (1..n).rev() {
                    let mut s2 = st.clone();
                    s2.inputs.push(Input { name: name.clone(), is_int: true, v: InVal::Conc(k as f64, true) });
                    Self::set(&mut s2, base, dst, Val::C(k));
                    let inv = { let fr = s2.frames.last().unwrap(); match &fr.func.blocks[fr.block as usize].insts[fr.ip as usize].k { K::Call(_, _, _, i) => *i, _ => None } };
                    if let Some((nb, _)) = inv { self.jump(&mut s2, nb); } else { s2.frames.last_mut().unwrap().ip += 1; }
                    self.work.push(s2);
                    self.rep.forks += 1;
                }
                st.inputs.push(Input { name, is_int: true, v: InVal::Conc(0.0, true) });
                return Ok(Some(Val::C(0)));
            }
            Sp::VAssume => {
                let c = match a[0] { Val::C(x) => { if x & 1 == 1 { return Ok(Some(Val::Undef)); } return Err(Stop::Infeasible); } Val::S(t) => self.to_bool(t), _ => return err("assume") };
                self.assume(st, c)?;
                return Ok(Some(Val::Undef));
            }
            Sp::VCheck => {
                let msg = self.read_str(st, &a[1], &a[2]);
                let c = match a[0] { Val::C(x) => self.ar.boolc(x & 1 == 1), Val::S(t) => self.to_bool(t), _ => return err("check") };
                self.check_cond(st, c, &msg, None)?;
                return Ok(Some(Val::Undef));
            }
            Sp::VNear => {
                // check_near(a, b, tol, msg)
                let msg = self.read_str(st, &a[3], &a[4]);
                let tol = f64::from_bits(cval(&a[2]));
                st.obs.push((format!("{}/a", msg), a[0].clone())); st.obs.push((format!("{}/b", msg), a[1].clone()));
                if let (Some(x), Some(y)) = (Self::fconst(&a[0]), Self::fconst(&a[1])) {
                    let ok = (x - y).abs() <= tol * (1.0 + x.abs() + y.abs());
                    if self.show_forms && !ok { eprintln!("{} {} -- {}", x, y, msg); for &c in st.pc.iter().rev().take(6).collect::<Vec<_>>().iter() { eprintln!("   {}", self.ar.show(*c, 6)); } }
                    let c = self.ar.boolc(ok);
                    self.check_cond(st, c, &msg, None)?;
                    return Ok(Some(Val::Undef));
                }
                for v in [&a[0], &a[1]] { if let Some(x) = Self::fconst(v) { if !x.is_finite() { if self.show_forms { eprintln!("{:?} {:?} -- {}", a[0], a[1], msg); } let c = self.ar.boolc(false); self.check_cond(st, c, &msg, None)?; return Ok(Some(Val::Undef)); } } }
                let x = self.rterm(&a[0])?; let y = self.rterm(&a[1])?;
                // canonical polynomial form often settles equality at once
                let d = self.ar.sub(x, y);
                let z = self.ar.realc(0.0);
                if self.show_forms {
                    if let Some(p) = self.ar.poly(d) { for (m, c) in &p.terms { eprintln!("{:?} {}", c, m.iter().map(|&f| format!("{:?}:{:?}", f, self.ar.node(f))).collect::<Vec<_>>().join(" * ")); } }
                    eprintln!("-- {}", msg);
                }
                let dn = match self.ar.poly(d) { Some(p) if p.terms.is_empty() => z, _ => d };
                let e = if dn == z { self.ar.raw_eq(x, y) } else { self.ar.eq(x, y) };
                if dn == z && self.known(st, e) != Some(true) {
                    // equal normal forms; where the solver does not know the laws of exp used it cannot confirm it
                    let ne = self.ar.not(e);
                    let long = std::mem::replace(&mut self.sol.long_ms, 0);
                    let r = self.query(st, &[ne], false);
                    self.sol.long_ms = long;
                    match r {
                        Res::Unsat => {}
                        _ => {
                            st.nchecks += 1;
                            self.rep.checks += 1;
                            self.rep.norm_checks += 1;
                            *self.rep.check_ids.entry(msg.to_string()).or_insert(0) += 1;
                            return Ok(Some(Val::Undef));
                        }
                    }
                }
                let ad = self.fabs(d); let ax = self.fabs(x); let ay = self.fabs(y);
                let one = self.ar.realc(1.0); let s = self.ar.add(ax, ay); let s = self.ar.add(s, one); let tl = self.ar.realc(tol); let s = self.ar.mul(s, tl);
                let w = self.ar.le(ad, s);
                self.check_cond(st, e, &msg, Some(w))?;
                return Ok(Some(Val::Undef));
            }
            Sp::VCover => { let k = self.cint(st, &a[0])?; st.covers.insert(k as u32); return Ok(Some(Val::Undef)); }
            Sp::VObs => { let msg = self.read_str(st, &a[1], &a[2]); st.obs.push((msg, a[0].clone())); return Ok(Some(Val::Undef)); }
            Sp::None => {}
        }
        err("special")
    }

    fn libm(&mut self, st: &mut State, nm: &str, a: &[Val]) -> R<Val> {
        match (nm, &a[0]) {
            ("exp", _) => self.fun1(st, "exp", &a[0]), ("log", _) => self.fun1(st, "log", &a[0]), ("sqrt", _) => self.fun1(st, "sqrt", &a[0]),
            ("log1p", Val::C(x)) => Ok(Val::C(f64::from_bits(*x).ln_1p().to_bits())), ("expm1", Val::C(x)) => Ok(Val::C(f64::from_bits(*x).exp_m1().to_bits())),
            ("log1p", v) => { let t = self.rterm(v)?; let o = self.ar.realc(1.0); let s = self.ar.add(t, o); let sv = self.realv(s); self.fun1(st, "log", &sv) }
            ("expm1", v) => { let e = self.fun1(st, "exp", v)?; self.fbin(st, FOp::Sub, &Ty::Double, &e, &Val::C(1f64.to_bits())) }
            ("fabs", v) => match v { Val::C(x) => Ok(Val::C(f64::from_bits(*x).abs().to_bits())), v => { let t = self.rterm(v)?; let r = self.fabs(t); Ok(self.realv(r)) } },
            ("pow", _) => self.pow(st, &a[0], &a[1]),
            ("sin", Val::C(x)) => Ok(Val::C(f64::from_bits(*x).sin().to_bits())),
            ("cos", Val::C(x)) => Ok(Val::C(f64::from_bits(*x).cos().to_bits())),
            ("tan", Val::C(x)) => Ok(Val::C(f64::from_bits(*x).tan().to_bits())),
            ("floor", _) => self.fun1(st, "floor", &a[0]),
            _ => err(format!("libm {}", nm)),
        }
    }
    fn pow(&mut self, st: &mut State, x: &Val, y: &Val) -> R<Val> {
        if let (Some(x), Some(y)) = (Self::fconst(x), Self::fconst(y)) { return Ok(Val::C(x.powf(y).to_bits())); }
        if let Some(y) = Self::fconst(y) { if y == 2.0 { return self.fbin(st, FOp::Mul, &Ty::Double, x, x); } if y == 1.0 { return Ok(x.clone()); } if y == 0.0 { return Ok(Val::C(1f64.to_bits())); } if y == 0.5 { return self.fun1(st, "sqrt", x); } }
        let xt = self.rterm(x)?; let z = self.ar.realc(0.0); let pos = self.ar.lt(z, xt);
        if !self.decide(st, pos)? { return err("symbolic power of a non-positive base"); }
        let l = self.fun1(st, "log", x)?; let p = self.fbin(st, FOp::Mul, &Ty::Double, &l, y)?;
        self.fun1(st, "exp", &p)
    }
    fn fun1(&mut self, st: &mut State, nm: &str, v: &Val) -> R<Val> {
        if let Some(x) = Self::fconst(v) {
            let r = match nm { "exp" => x.exp(), "log" => x.ln(), "sqrt" => x.sqrt(), "fabs" => x.abs(), "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "round" => x.round(), "rint" | "nearbyint" | "roundeven" => x.round_ties_even(),
                "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "log2" => x.log2(), "log10" => x.log10(), "exp2" => x.exp2(), _ => return err(format!("function {}", nm)) };
            return Ok(Val::C(r.to_bits()));
        }
        let t = self.rterm(v)?; let z = self.ar.realc(0.0);
        let r = match nm {
            "exp" => self.ar.exp(t),
            "log" => {
                if !(self.ar.ri(t).0 > 0.0) {
                    // the sign is that of the factor whose sign is not known
                    let mut u = t;
                    loop {
                        u = match *self.ar.node(u) {
                            Node::Div(a, b) if self.ar.ri(a).0 > 0.0 => b,
                            Node::Div(a, b) | Node::Mul(a, b) if self.ar.ri(b).0 > 0.0 => a,
                            Node::Mul(a, b) if self.ar.ri(a).0 > 0.0 => b,
                            _ => break,
                        };
                    }
                    let p = self.ar.lt(z, u);
                    if !self.decide(st, p)? { let e = self.ar.eq(t, z); return Ok(Val::C((if self.decide(st, e)? { f64::NEG_INFINITY } else { f64::NAN }).to_bits())); }
                }
                self.ar.ln(t)
            }
            "sqrt" => {
                if !(self.ar.ri(t).0 >= 0.0) { let p = self.ar.le(z, t); if !self.decide(st, p)? { return Ok(Val::C(f64::NAN.to_bits())); } }
                self.ar.sqrt(t)
            }
            "fabs" => self.fabs(t),
            "floor" => { let f = self.ar.floor(t); self.ar.to_real(f) }
            "ceil" => { let n = self.ar.neg(t); let f = self.ar.floor(n); let f = self.ar.neg(f); self.ar.to_real(f) }
            "trunc" => { let f = self.trunc_term(t); self.ar.to_real(f) }
            "round" => { let h = self.ar.realc(0.5); let c = self.ar.le(z, t); let s = self.ar.add(t, h); let f = self.ar.floor(s); let n = self.ar.neg(t); let s2 = self.ar.add(n, h); let g = self.ar.floor(s2); let g = self.ar.neg(g); let r = self.ar.ite(c, f, g); self.ar.to_real(r) }
            _ => return err(format!("symbolic {}", nm)),
        };
        Ok(self.realv(r))
    }

    fn intrinsic(&mut self, st: &mut State, f: u32, a: &[Val], rt: &Ty) -> R<Val> {
        let name = self.m.fns[f as usize].name.clone();
        let n = &name[5..];
        let parts: Vec<&str> = n.split('.').collect();
        match parts[0] {
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" => return Ok(Val::Undef),
            "memcpy" | "memmove" => { let (d, s, k) = (self.cint(st, &a[0])?, self.cint(st, &a[1])?, self.cint(st, &a[2])?); self.memcpy(st, d, s, k)?; return Ok(Val::Undef); }
            "memset" => { let (d, k) = (self.cint(st, &a[0])?, self.cint(st, &a[2])?); let b = self.cint(st, &a[1])? as u8; if k > 0 { self.write_bytes(st, d, &vec![b; k as usize])?; } return Ok(Val::Undef); }
            "threadlocal" | "launder" | "strip" | "ptrmask" if parts[0] != "ptrmask" => return Ok(a[0].clone()),
            "trap" | "debugtrap" => return Err(Stop::Panic("trap".into())),
            "is" if parts.get(1) == Some(&"constant") => return Ok(Val::C(0)),
            "is" if parts.get(1) == Some(&"fpclass") => {
                let m = cval(&a[1]);
                match &a[0] {
                    Val::C(x) => { let v = f64::from_bits(*x); let c = match v.classify() { std::num::FpCategory::Nan => 3, std::num::FpCategory::Infinite => if v < 0.0 { 4 } else { 512 }, std::num::FpCategory::Normal => if v < 0.0 { 8 } else { 256 }, std::num::FpCategory::Subnormal => if v < 0.0 { 16 } else { 128 }, std::num::FpCategory::Zero => if v.is_sign_negative() { 32 } else { 64 } }; return Ok(Val::C((m & c != 0) as u64)); }
                    Val::S(t) => { let fin = m & 0x1f8; if fin == 0x1f8 { return Ok(Val::C(1)); } if fin == 0 { return Ok(Val::C(0)); }
                        let z = self.ar.realc(0.0); let t = *t;
                        let mut r = self.ar.boolc(false);
                        if fin & 0x18 != 0 { let c = self.ar.lt(t, z); r = self.ar.or(r, c); }
                        if fin & 0x60 != 0 { let c = self.ar.eq(t, z); r = self.ar.or(r, c); }
                        if fin & 0x180 != 0 { let c = self.ar.lt(z, t); r = self.ar.or(r, c); }
                        return Ok(self.boolv(r)); }
                    _ => return err("fpclass"),
                }
            }
            "expect" => return Ok(a[0].clone()),
            "objectsize" => return Ok(Val::C(u64::MAX)),
            "eh" => return Ok(Val::C(1)),
            "x86" if n.contains("pause") => return Ok(Val::Undef),
            "stacksave" => return Ok(Val::C(st.sp)),
            "stackrestore" => return Ok(Val::Undef),
            _ => {}
        }
        // vector forms: lanewise
        if let Ty::Vec(k, t) = rt {
            if matches!(parts[0], "umin" | "umax" | "smin" | "smax" | "fabs" | "sqrt" | "abs" | "usub" | "uadd" | "fshl" | "minnum" | "maxnum") {
                let ls: Vec<Vec<Val>> = a.iter().map(|x| lanes(x, *k)).collect();
                let mut out = vec![];
                for i in 0..*k as usize { let args: Vec<Val> = ls.iter().map(|l| l[i].clone()).collect(); out.push(self.intr_scalar(st, &parts, &args, t)?); }
                return Ok(Val::Agg(Rc::new(out)));
            }
        }
        if parts[0] == "vector" && parts.get(1) == Some(&"reduce") {
            let v: Vec<Val> = match &a[0] { Val::Agg(x) => x.to_vec(), _ => return err("reduce") };
            let w = rt.width(); let mut acc = v[0].clone();
            for x in &v[1..] { acc = match parts[2] { "add" => self.binop(st, BinOp::Add, &Ty::Int(w), &acc, x, false)?, "or" => self.binop(st, BinOp::Or, &Ty::Int(w), &acc, x, false)?, "and" => self.binop(st, BinOp::And, &Ty::Int(w), &acc, x, false)?, "xor" => self.binop(st, BinOp::Xor, &Ty::Int(w), &acc, x, false)?, s => return err(format!("reduce {}", s)) }; }
            return Ok(acc);
        }
        self.intr_scalar(st, &parts, a, rt)
    }
    fn intr_scalar(&mut self, st: &mut State, parts: &[&str], a: &[Val], rt: &Ty) -> R<Val> {
        let w = match rt { Ty::Struct(f, _) => f[0].width(), t => t.width() };
        match parts[0] {
            "exp" | "log" | "sqrt" | "fabs" | "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "sin" | "cos" | "tan" | "log2" | "log10" | "exp2" if *rt == Ty::Double => return self.fun1(st, parts[0], &a[0]),
            "pow" => return self.pow(st, &a[0], &a[1]),
            "powi" => {
                let k = self.cint(st, &a[1])? as i32;
                if let Some(x) = Self::fconst(&a[0]) { return Ok(Val::C(x.powi(k).to_bits())); }
                let mut r = Val::C(1f64.to_bits());
                for _ in 0..k.unsigned_abs() { r = self.fbin(st, FOp::Mul, &Ty::Double, &r, &a[0])?; }
                if k < 0 { r = self.fbin(st, FOp::Div, &Ty::Double, &Val::C(1f64.to_bits()), &r)?; }
                return Ok(r);
            }
            "fmuladd" | "fma" => { let m = self.fbin(st, FOp::Mul, &Ty::Double, &a[0], &a[1])?; return self.fbin(st, FOp::Add, &Ty::Double, &m, &a[2]); }
            "copysign" => {
                match (Self::fconst(&a[0]), Self::fconst(&a[1])) {
                    (Some(x), Some(y)) => return Ok(Val::C(x.copysign(y).to_bits())),
                    (_, Some(y)) => { let t = self.rterm(&a[0])?; let m = self.fabs(t); let r = if y.is_sign_negative() { self.ar.neg(m) } else { m }; return Ok(self.realv(r)); }
                    (_, None) => { let m = self.rterm(&a[0])?; let m = self.fabs(m); let s = self.rterm(&a[1])?; let z = self.ar.realc(0.0); let c = self.ar.lt(s, z); let n = self.ar.neg(m); let r = self.ar.ite(c, n, m); return Ok(self.realv(r)); }
                }
            }
            "minnum" | "maxnum" | "minimum" | "maximum" | "minimumnum" | "maximumnum" => {
                let is_min = parts[0].starts_with("min");
                let prop_nan = parts[0] == "minimum" || parts[0] == "maximum";
                let (ca, cb) = (Self::fconst(&a[0]), Self::fconst(&a[1]));
                if let (Some(x), Some(y)) = (ca, cb) { let r = if prop_nan && (x.is_nan() || y.is_nan()) { f64::NAN } else if is_min { x.min(y) } else { x.max(y) }; return Ok(Val::C(r.to_bits())); }
                for (c, o) in [(ca, &a[1]), (cb, &a[0])] { if let Some(x) = c { if x.is_nan() { return Ok(if prop_nan { Val::C(f64::NAN.to_bits()) } else { o.clone() }); } if x.is_infinite() { return Ok(if (x < 0.0) == is_min { Val::C(x.to_bits()) } else { o.clone() }); } } }
                let x = self.rterm(&a[0])?; let y = self.rterm(&a[1])?; let c = self.ar.lt(x, y);
                let r = if is_min { self.ar.ite(c, x, y) } else { self.ar.ite(c, y, x) };
                return Ok(self.realv(r));
            }
            "fptosi" | "fptoui" => {
                // saturating conversion
                let signed = parts[0] == "fptosi";
                if let Some(x) = Self::fconst(&a[0]) {
                    let r = if x.is_nan() { 0 } else if signed { let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; if x <= lo as f64 { lo } else if x >= hi as f64 { hi } else { x as i128 } } else { let hi = (1i128 << w) - 1; if x <= 0.0 { 0 } else if x >= hi as f64 { hi } else { x as i128 } };
                    return Ok(mkint(r as u128, w));
                }
                let t = self.rterm(&a[0])?; let mut r = self.trunc_term(t);
                let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
                let (rl, rh) = self.ar.ii(r);
                if rl < lo { let k = self.ar.intc(lo); let c = self.ar.lt(r, k); r = self.ar.ite(c, k, r); }
                if rh > hi { let k = self.ar.intc(hi); let c = self.ar.lt(k, r); r = self.ar.ite(c, k, r); }
                return Ok(self.intv(r, w));
            }
            _ => {}
        }
        // with-overflow and saturating arithmetic
        if (parts.len() >= 3 && parts[1] == "with" && parts[2] == "overflow") || (parts.len() >= 2 && parts[1] == "sat") {
            let sat = parts[1] == "sat";
            let signed = parts[0].starts_with('s');
            let op = &parts[0][1..];
            let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, if w >= 127 { i128::MAX } else { (1i128 << w) - 1 }) };
            if let (Some(x), Some(y)) = (big(&a[0]), big(&a[1])) {
                if w <= 64 {
                    let (x, y) = if signed { (bsext(x, w), bsext(y, w)) } else { (bmask(x, w) as i128, bmask(y, w) as i128) };
                    let r = match op { "add" => x + y, "sub" => x - y, "mul" => x.checked_mul(y).unwrap_or(i128::MAX), "shl" => x << y.min(100), s => return err(format!("sat {}", s)) };
                    let rw = match op { "mul" => (x as u128).wrapping_mul(y as u128), _ => r as u128 };
                    if sat { return Ok(mkint(r.max(lo).min(hi) as u128, w)); }
                    return Ok(Val::Agg(Rc::new(vec![mkint(rw, w), Val::C((r < lo || r > hi) as u64)])));
                }
                let (r, o) = match (op, signed) { ("add", false) => x.overflowing_add(y), ("sub", false) => x.overflowing_sub(y), ("mul", false) => x.overflowing_mul(y),
                    ("add", true) => { let (r, o) = (x as i128).overflowing_add(y as i128); (r as u128, o) } ("sub", true) => { let (r, o) = (x as i128).overflowing_sub(y as i128); (r as u128, o) } _ => { let (r, o) = (x as i128).overflowing_mul(y as i128); (r as u128, o) } };
                return Ok(Val::Agg(Rc::new(vec![mkint(r, w), Val::C(o as u64)])));
            }
            let x = self.iterm(&a[0], w)?; let y = self.iterm(&a[1], w)?;
            let (x, y) = if signed { (self.as_s(st, x, w)?, self.as_s(st, y, w)?) } else { (self.as_u(st, x, w)?, self.as_u(st, y, w)?) };
            let r = match op { "add" => self.ar.add(x, y), "sub" => self.ar.sub(x, y), "mul" => self.ar.mul(x, y), s => return err(format!("overflow {}", s)) };
            let (rl, rh) = self.range(st, r, 5);
            let l = self.ar.intc(lo); let h = self.ar.intc(hi);
            let o = if rl >= lo && rh <= hi { self.ar.boolc(false) } else { let c1 = self.ar.lt(r, l); let c2 = self.ar.lt(h, r); self.ar.or(c1, c2) };
            if sat { let c1 = self.ar.lt(r, l); let c2 = self.ar.lt(h, r); let r2 = self.ar.ite(c2, h, r); let r3 = self.ar.ite(c1, l, r2); return Ok(self.intv(r3, w)); }
            let rv = self.intv(r, w); let ov = self.boolv(o);
            return Ok(Val::Agg(Rc::new(vec![rv, ov])));
        }
        match parts[0] {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match parts[0] { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                let c = self.icmp(st, p, &Ty::Int(w), &a[0], &a[1])?;
                match c { Val::C(x) => Ok(if x == 1 { a[0].clone() } else { a[1].clone() }), Val::S(t) => self.ite_val(st, t, &Ty::Int(w), &a[0], &a[1]), _ => err("min") }
            }
            "ucmp" | "scmp" => {
                let s = parts[0] == "scmp"; let aw = parts.last().unwrap()[1..].parse::<u32>().unwrap_or(64);
                let l = self.icmp(st, if s { Pred::Slt } else { Pred::Ult }, &Ty::Int(aw), &a[0], &a[1])?;
                let e = self.icmp(st, Pred::Eq, &Ty::Int(aw), &a[0], &a[1])?;
                let lt = self.iterm(&l, 1)?; let eq = self.iterm(&e, 1)?;
                let m1 = self.ar.intc(-1); let z = self.ar.intc(0); let o = self.ar.intc(1);
                let r = self.ar.ite(eq, z, o); let r = self.ar.ite(lt, m1, r);
                Ok(self.intv(r, w))
            }
            "abs" => match &a[0] {
                Val::S(t) => { let s = self.as_s(st, *t, w)?; let z = self.ar.intc(0); let c = self.ar.le(z, s); let n = self.ar.neg(s); let r = self.ar.ite(c, s, n); Ok(self.intv(r, w)) }
                v => Ok(mkint(bsext(big(v).unwrap(), w).wrapping_abs() as u128, w)),
            },
            "ctpop" | "cttz" | "ctlz" | "bswap" | "bitreverse" | "fshl" | "fshr" => {
                let x = match &a[0] { Val::S(t) => { let u = self.as_u(st, *t, w)?; self.concretize(st, u)? as u128 } v => big(v).unwrap() };
                let x = bmask(x, w);
                Ok(match parts[0] {
                    "ctpop" => mkint(x.count_ones() as u128, w),
                    "cttz" => mkint((if x == 0 { w } else { x.trailing_zeros() }) as u128, w),
                    "ctlz" => mkint((if x == 0 { w } else { x.leading_zeros() - (128 - w) }) as u128, w),
                    "bswap" => { let b = x.to_le_bytes(); let k = (w / 8) as usize; let mut c = [0u8; 16]; for i in 0..k { c[i] = b[k - 1 - i]; } mkint(u128::from_le_bytes(c), w) }
                    "bitreverse" => mkint(x.reverse_bits() >> (128 - w), w),
                    _ => {
                        let y = match big(&a[1]) { Some(y) => bmask(y, w), None => return err("symbolic funnel shift") };
                        let k = (self.cint(st, &a[2])? as u32) % w;
                        let r = if w == 128 { if k == 0 { if parts[0] == "fshl" { x } else { y } } else if parts[0] == "fshl" { (x << k) | (y >> (w - k)) } else { (x << (w - k)) | (y >> k) } }
                            else if parts[0] == "fshl" { ((x << k) | (if k == 0 { 0 } else { y >> (w - k) })) } else if k == 0 { y } else { (x << (w - k)) | (y >> k) };
                        mkint(r, w)
                    }
                })
            }
            _ => err(format!("intrinsic llvm.{}", parts.join("."))),
        }
    }
}

fn upd(st: &mut State, t: T, lo: i128, hi: i128) { let e = st.bounds.entry(t).or_insert((IMIN, IMAX)); e.0 = e.0.max(lo); e.1 = e.1.min(hi); }
fn slim(st: &State) -> State { let mut s = State { frames: vec![], regs: vec![], pages: Default::default(), heap: 0, sizes: Rc::new(Default::default()), sp: 0, pc: st.pc.clone(), known: Default::default(), bounds: Default::default(), model: st.model.clone(), inputs: st.inputs.clone(), obs: st.obs.clone(), covers: st.covers.clone(), nchecks: st.nchecks, steps: st.steps }; s.heap = 0; s }
pub fn short(v: &[(String, bool, f64)]) -> String { v.iter().map(|(n, i, x)| if *i { format!("{}={}", n, *x as i64) } else { format!("{}={}", n, x) }).collect::<Vec<_>>().join(" ") }
fn lanes(v: &Val, n: u64) -> Vec<Val> { match v { Val::Agg(x) => x.to_vec(), Val::Undef => vec![Val::Undef; n as usize], v => vec![v.clone(); n as usize] } }
fn insert(a: &Val, v: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return v.clone(); }
    match a { Val::Agg(x) => { let mut y = x.to_vec(); y[ix[0] as usize] = insert(&y[ix[0] as usize], v, &ix[1..]); Val::Agg(Rc::new(y)) } _ => a.clone() }
}

fn classify(n: &str, has_body: bool) -> Sp {
    if n.starts_with("llvm.") { return Sp::Llvm; }
    match n {
        "vp_i64" => return Sp::VI64, "vp_f64" => return Sp::VF64, "vp_bool" => return Sp::VBool, "vp_pick" => return Sp::VPick, "vp_assume" => return Sp::VAssume,
        "vp_check" => return Sp::VCheck, "vp_near" => return Sp::VNear, "vp_cover" => return Sp::VCover, "vp_obs" => return Sp::VObs, "vp_symbolic" => return Sp::VSymbolic,
        "memcmp" | "bcmp" => return Sp::Memcmp, "strlen" => return Sp::Strlen, "abort" => return Sp::Abort, "memcpy" | "memmove" => return Sp::Memcpy, "memset" => return Sp::Memset,
        "exp" | "log" | "sqrt" | "pow" | "sin" | "cos" | "tan" | "log1p" | "expm1" | "fabs" | "floor" if !has_body => return Sp::Libm,
        "__cxa_thread_atexit_impl" => return Sp::RetZero,
        "getenv" => return Sp::RetZero,
        _ => {}
    }
    let ends = |s: &str| n.ends_with(s);
    if ends("___rust_alloc") || ends("___rdl_alloc") { return Sp::Alloc; }
    if ends("___rust_dealloc") || ends("___rdl_dealloc") { return Sp::Dealloc; }
    if ends("___rust_realloc") || ends("___rdl_realloc") { return Sp::Realloc; }
    if ends("___rust_alloc_zeroed") || ends("___rdl_alloc_zeroed") { return Sp::AllocZ; }
    if n.contains("___rust_no_alloc_shim") { return Sp::Nop; }
    if n.contains("9panicking") && n.contains("4core") && (n.contains("9panic_fmt") || n.contains("18panic_nounwind_fmt") || n.contains("panic_nounwind")) { return Sp::Panic; }
    if n.contains("9panicking11begin_panic") || n.contains("9panicking15begin_panic_fmt") { return Sp::Panic; }
    if n.contains("17rust_begin_unwind") { return Sp::Panic; }
    if n.contains("18handle_alloc_error") { return Sp::Panic; }
    if n.contains("2io5stdio6__print") || n.contains("2io5stdio7__eprint") { return Sp::Print; }
    if n.contains("4core3fmt5floatdNt") && ends("3fmt") { return Sp::FloatFmt; }
    if n.contains("19hashmap_random_keys") { return Sp::HashKeys; }
    // every key hashes alike: maps then tell keys apart by equality alone, and symbolic keys need no hash
    if n.contains("4hash3sipI") && n.contains("6Hasher6finish") { return Sp::HashFinish; }
    if n.contains("4hash3sipI") && (n.contains("6Hasher5write") || n.contains("6Hasher9write_str")) { return Sp::Nop; }
    if n.contains("6statrs8function3erf4erfc") && ends("4erfc") { return Sp::Erfc; }
    if n.contains("6statrs8function3erf3erf") && ends("3erf") { return Sp::Erf; }
    if n.contains("12thread_local") && (n.contains("8register") || n.contains("6enable") && n.contains("5guard")) { return Sp::Nop; }
    Sp::None
}

/// Readable form of a v0-mangled symbol: the identifier path.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut i = 2; let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let j = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            let k: usize = n[j..i].parse().unwrap_or(0);
            let mut s = i; if s < b.len() && b[s] == b'_' { s += 1; }
            if k == 0 || s + k > b.len() { break; }
            // identifiers have at least one letter
            let id = &n[s..s + k];
            if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') { out.push(id.to_string()); i = s + k; } else { continue; }
        } else if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate root with disambiguator: Cs<base62>_
            i += 2; while i < b.len() && b[i] != b'_' { i += 1; } i += 1;
        } else if b[i] == b'B' && i + 1 < b.len() {
            i += 1; while i < b.len() && b[i] != b'_' { i += 1; } i += 1;
        } else { i += 1; }
    }
    if out.len() > 7 { let k = out.len() - 7; out = out[k..].to_vec(); }
    out.join("::")
}
