//! Hash-consed SMT terms over Bool, Int (mathematical integers) and Real,
//! with light simplification and static interval tracking.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort { Bool, Int, Real }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F1 { Exp, Ln, Sqrt, Erf, Erfc, Arb(u32) }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    BoolC(bool),
    IntC(i128),
    RealC(u64),          // exact value of this f64
    RatC(i128, i128),    // exact rational (normalised, den > 1)
    Var(u32),
    Not(T), And(T, T), Or(T, T), Ite(T, T, T),
    Eq(T, T), Lt(T, T), Le(T, T),
    Add(T, T), Sub(T, T), Mul(T, T), Neg(T), Div(T, T),
    IDiv(T, T), IMod(T, T),   // SMT-LIB euclidean div / mod
    ToReal(T), Floor(T),
    Fn1(F1, T),
    Fn2(u32, T, T),           // uninterpreted binary real functions (0 = pow)
}

pub struct VarInfo { pub name: String, pub sort: Sort, pub lo: f64, pub hi: f64, pub ilo: i128, pub ihi: i128 }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sorts: Vec<Sort>,
    pub iint: Vec<(i128, i128)>,
    pub rint: Vec<(f64, f64)>,
    pub vars: Vec<VarInfo>,
    pub vsets: Vec<std::rc::Rc<Vec<u32>>>,
    map: HashMap<Node, T>,
    poly_memo: HashMap<T, Option<std::rc::Rc<Poly>>>,
    exp_memo: HashMap<T, T>,
    canon: HashMap<std::rc::Rc<Poly>, T>,
    partial_memo: HashMap<T, std::rc::Rc<std::collections::BTreeSet<T>>>,
}

pub const IMIN: i128 = -(1i128 << 100);
pub const IMAX: i128 = 1i128 << 100;

fn clampi(x: i128) -> i128 { if x < IMIN { IMIN } else if x > IMAX { IMAX } else { x } }

fn down(x: f64) -> f64 { if x.is_nan() { f64::NEG_INFINITY } else if x.is_infinite() || x == 0.0 { x } else { x - x.abs() * 4e-16 } }
fn up(x: f64) -> f64 { if x.is_nan() { f64::INFINITY } else if x.is_infinite() || x == 0.0 { x } else { x + x.abs() * 4e-16 } }

// ---------------------------------------------------------------- rationals

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Rat { pub n: i128, pub d: i128 }

fn gcd(mut a: u128, mut b: u128) -> u128 { while b != 0 { let t = a % b; a = b; b = t; } a }

impl Rat {
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 || n == i128::MIN || d == i128::MIN { return None; }
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        let g = gcd(n.unsigned_abs(), d as u128) as i128;
        if g == 0 { return Some(Rat { n: 0, d: 1 }); }
        Some(Rat { n: n / g, d: d / g })
    }
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() { return None; }
        if x == 0.0 { return Some(Rat { n: 0, d: 1 }); }
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i32;
        let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) };
        let mut m = m as i128;
        let mut e = e - 1075;
        while m & 1 == 0 { m >>= 1; e += 1; }
        if bits >> 63 != 0 { m = -m; }
        if e >= 0 { if e > 60 { return None; } Rat::new(m << e, 1) }
        else { if e < -120 { return None; } Rat::new(m, 1i128 << (-e)) }
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d as u128, o.d as u128) as i128;
        let l = self.d.checked_mul(o.d / g)?;
        let a = self.n.checked_mul(o.d / g)?;
        let b = o.n.checked_mul(self.d / g)?;
        Rat::new(a.checked_add(b)?, l)
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        let g1 = gcd(self.n.unsigned_abs(), o.d as u128).max(1) as i128;
        let g2 = gcd(o.n.unsigned_abs(), self.d as u128).max(1) as i128;
        Rat::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
    }
    pub fn inv(self) -> Option<Rat> { Rat::new(self.d, self.n) }
    pub fn neg(self) -> Rat { Rat { n: -self.n, d: self.d } }
    pub fn is_zero(self) -> bool { self.n == 0 }
    pub fn to_f64(self) -> f64 {
        // good enough for evaluation purposes
        (self.n as f64) / (self.d as f64)
    }
    /// The f64 with exactly this value, if there is one.
    pub fn exact_f64(self) -> Option<f64> {
        if self.d & (self.d - 1) != 0 { return None; }
        let x = self.to_f64();
        if Rat::from_f64(x) == Some(self) { Some(x) } else { None }
    }
}

/// Polynomial: sorted monomials (sorted atom lists) with rational coefficients.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Poly { pub terms: std::collections::BTreeMap<Vec<T>, RatKey> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RatKey(pub Rat);

impl Poly {
    fn constant(r: Rat) -> Poly {
        let mut p = Poly { terms: Default::default() };
        if !r.is_zero() { p.terms.insert(vec![], RatKey(r)); }
        p
    }
    fn atom(t: T) -> Poly {
        let mut p = Poly { terms: Default::default() };
        p.terms.insert(vec![t], RatKey(Rat { n: 1, d: 1 }));
        p
    }
    fn add(&self, o: &Poly, k: Rat) -> Option<Poly> {
        let mut p = self.clone();
        for (m, c) in &o.terms {
            let c2 = c.0.mul(k)?;
            let e = match p.terms.get(m) { Some(x) => x.0.add(c2)?, None => c2 };
            if e.is_zero() { p.terms.remove(m); } else { p.terms.insert(m.clone(), RatKey(e)); }
        }
        if p.terms.len() > 80 { return None; }
        Some(p)
    }
    fn mul(&self, o: &Poly) -> Option<Poly> {
        if self.terms.len() * o.terms.len() > 200 { return None; }
        let mut p = Poly { terms: Default::default() };
        for (m1, c1) in &self.terms { for (m2, c2) in &o.terms {
            let mut m: Vec<T> = m1.iter().chain(m2.iter()).cloned().collect();
            if m.len() > 10 { return None; }
            m.sort();
            let c = c1.0.mul(c2.0)?;
            let e = match p.terms.get(&m) { Some(x) => x.0.add(c)?, None => c };
            if e.is_zero() { p.terms.remove(&m); } else { p.terms.insert(m, RatKey(e)); }
        } }
        Some(p)
    }
    fn scale(&self, k: Rat) -> Option<Poly> { Poly { terms: Default::default() }.add(self, k) }
    pub fn as_const(&self) -> Option<Rat> {
        if self.terms.is_empty() { return Some(Rat { n: 0, d: 1 }); }
        if self.terms.len() == 1 { if let Some(c) = self.terms.get(&vec![]) { return Some(c.0); } }
        None
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { nodes: vec![], sorts: vec![], iint: vec![], rint: vec![], vars: vec![], vsets: vec![], map: HashMap::new(),
            poly_memo: HashMap::new(), exp_memo: HashMap::new(), canon: HashMap::new(), partial_memo: HashMap::new() };
        a.boolc(false);
        a.boolc(true);
        a
    }
    pub fn node(&self, t: T) -> &Node { &self.nodes[t as usize] }
    pub fn sort(&self, t: T) -> Sort { self.sorts[t as usize] }
    pub fn ii(&self, t: T) -> (i128, i128) { self.iint[t as usize] }
    pub fn ri(&self, t: T) -> (f64, f64) { self.rint[t as usize] }

    pub fn children(&self, t: T) -> Vec<T> {
        match *self.node(t) {
            Node::BoolC(_) | Node::IntC(_) | Node::RealC(_) | Node::RatC(..) | Node::Var(_) => vec![],
            Node::Not(a) | Node::Neg(a) | Node::ToReal(a) | Node::Floor(a) | Node::Fn1(_, a) => vec![a],
            Node::And(a, b) | Node::Or(a, b) | Node::Eq(a, b) | Node::Lt(a, b) | Node::Le(a, b) |
            Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::IDiv(a, b) |
            Node::IMod(a, b) | Node::Fn2(_, a, b) => vec![a, b],
            Node::Ite(a, b, c) => vec![a, b, c],
        }
    }

    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let (s, ii, ri) = self.infer(&n);
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.sorts.push(s);
        self.iint.push(ii);
        self.rint.push(ri);
        let vs = match n {
            Node::Var(v) => vec![v],
            _ => {
                let ch = self.children(t);
                let mut v: Vec<u32> = vec![];
                for c in ch { v.extend(self.vsets[c as usize].iter()); }
                v.sort(); v.dedup(); v
            }
        };
        self.vsets.push(std::rc::Rc::new(vs));
        self.map.insert(n, t);
        t
    }

    fn infer(&self, n: &Node) -> (Sort, (i128, i128), (f64, f64)) {
        let any_i = (IMIN, IMAX);
        let any_r = (f64::NEG_INFINITY, f64::INFINITY);
        match *n {
            Node::BoolC(_) | Node::Not(_) | Node::And(..) | Node::Or(..) | Node::Eq(..) | Node::Lt(..) | Node::Le(..) => (Sort::Bool, any_i, any_r),
            Node::IntC(k) => (Sort::Int, (k, k), any_r),
            Node::RealC(b) => { let x = f64::from_bits(b); (Sort::Real, any_i, (x, x)) }
            Node::RatC(n, d) => { let x = (n as f64) / (d as f64); (Sort::Real, any_i, (down(x), up(x))) }
            Node::Var(v) => { let vi = &self.vars[v as usize]; (vi.sort, (vi.ilo, vi.ihi), (vi.lo, vi.hi)) }
            Node::Ite(_, a, b) => {
                let (a1, a2) = self.ii(a); let (b1, b2) = self.ii(b);
                let (c1, c2) = self.ri(a); let (d1, d2) = self.ri(b);
                (self.sort(a), (a1.min(b1), a2.max(b2)), (c1.min(d1), c2.max(d2)))
            }
            Node::Add(a, b) => if self.sort(a) == Sort::Int {
                let (a1, a2) = self.ii(a); let (b1, b2) = self.ii(b);
                (Sort::Int, (clampi(a1 + b1), clampi(a2 + b2)), any_r)
            } else {
                let (a1, a2) = self.ri(a); let (b1, b2) = self.ri(b);
                (Sort::Real, any_i, (down(a1 + b1), up(a2 + b2)))
            },
            Node::Sub(a, b) => if self.sort(a) == Sort::Int {
                let (a1, a2) = self.ii(a); let (b1, b2) = self.ii(b);
                (Sort::Int, (clampi(a1 - b2), clampi(a2 - b1)), any_r)
            } else {
                let (a1, a2) = self.ri(a); let (b1, b2) = self.ri(b);
                (Sort::Real, any_i, (down(a1 - b2), up(a2 - b1)))
            },
            Node::Neg(a) => { let (x, y) = self.ii(a); let (u, v) = self.ri(a); (self.sort(a), (-y, -x), (-v, -u)) }
            Node::Mul(a, b) => if self.sort(a) == Sort::Int {
                let (a1, a2) = self.ii(a); let (b1, b2) = self.ii(b);
                let c = |x: i128, y: i128| clampi(x.checked_mul(y).unwrap_or(if (x < 0) != (y < 0) { IMIN } else { IMAX }));
                let ps = [c(a1, b1), c(a1, b2), c(a2, b1), c(a2, b2)];
                (Sort::Int, (*ps.iter().min().unwrap(), *ps.iter().max().unwrap()), any_r)
            } else if a == b {
                let (a1, a2) = self.ri(a);
                let hi = up((a1 * a1).max(a2 * a2));
                let lo = if a1 > 0.0 { down(a1 * a1) } else if a2 < 0.0 { down(a2 * a2) } else { 0.0 };
                (Sort::Real, any_i, (lo, hi))
            } else {
                let (a1, a2) = self.ri(a); let (b1, b2) = self.ri(b);
                let c = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
                let ps = [c(a1, b1), c(a1, b2), c(a2, b1), c(a2, b2)];
                let lo = ps.iter().cloned().fold(f64::INFINITY, f64::min);
                let hi = ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                (Sort::Real, any_i, (down(lo), up(hi)))
            },
            Node::Div(a, b) => {
                let (a1, a2) = self.ri(a); let (b1, b2) = self.ri(b);
                if b1 > 0.0 || b2 < 0.0 {
                    let c = |x: f64, y: f64| if x == 0.0 || y.is_infinite() { 0.0 } else { x / y };
                    let mut ps = vec![c(a1, b1), c(a1, b2), c(a2, b1), c(a2, b2)];
                    if (a1.is_infinite() || a2.is_infinite()) && (b1.is_infinite() || b2.is_infinite()) {
                        if a1.is_infinite() { ps.push(if b1 > 0.0 { f64::NEG_INFINITY } else { f64::INFINITY }); }
                        if a2.is_infinite() { ps.push(if b1 > 0.0 { f64::INFINITY } else { f64::NEG_INFINITY }); }
                    }
                    let lo = ps.iter().cloned().fold(f64::INFINITY, f64::min);
                    let hi = ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                    (Sort::Real, any_i, (down(lo), up(hi)))
                } else if b1 >= 0.0 && a1 >= 0.0 { (Sort::Real, any_i, (0.0, f64::INFINITY)) }
                else { (Sort::Real, any_i, any_r) }
            }
            Node::IDiv(a, b) => {
                let (a1, a2) = self.ii(a); let (b1, b2) = self.ii(b);
                if b1 == b2 && b1 > 0 { (Sort::Int, (a1.div_euclid(b1), a2.div_euclid(b1)), any_r) }
                else if b1 > 0 { let m = a1.abs().max(a2.abs()); (Sort::Int, (if a1 >= 0 { 0 } else { -m }, m), any_r) }
                else { (Sort::Int, any_i, any_r) }
            }
            Node::IMod(a, b) => {
                let (a1, a2) = self.ii(a); let (b1, b2) = self.ii(b);
                if b1 > 0 {
                    if a1 >= 0 && a2 < b1 { (Sort::Int, (a1, a2), any_r) }
                    else { (Sort::Int, (0, if a1 >= 0 { a2.min(b2 - 1) } else { b2 - 1 }), any_r) }
                } else { (Sort::Int, any_i, any_r) }
            }
            Node::ToReal(a) => { let (x, y) = self.ii(a);
                let lo = if x <= IMIN { f64::NEG_INFINITY } else { down(x as f64) };
                let hi = if y >= IMAX { f64::INFINITY } else { up(y as f64) };
                let (lo, hi) = if x > -(1 << 52) && y < (1 << 52) { (x as f64, y as f64) } else { (lo, hi) };
                (Sort::Real, any_i, (lo, hi)) }
            Node::Floor(a) => { let (x, y) = self.ri(a);
                let lo = if x.abs() < 1e30 { x.floor() as i128 } else { IMIN };
                let hi = if y.abs() < 1e30 { y.floor() as i128 } else { IMAX };
                (Sort::Int, (lo, hi), any_r) }
            Node::Fn1(k, a) => { let (x, y) = self.ri(a); (Sort::Real, any_i, match k {
                F1::Exp => { let l = down(down(x.exp())); (if l > 0.0 { l } else { f64::MIN_POSITIVE }, up(up(y.exp()))) }
                F1::Ln => (if x > 0.0 { down(down(x.ln())) - 1e-300 } else { f64::NEG_INFINITY }, if y > 0.0 { up(up(y.ln())) + 1e-300 } else { f64::INFINITY }),
                F1::Sqrt => (if x > 0.0 { down(down(x.sqrt())) } else { 0.0 }, if y >= 0.0 { up(up(y.sqrt())) } else { f64::INFINITY }),
                F1::Erf => (-1.0, 1.0),
                F1::Erfc => (0.0, 2.0),
                F1::Arb(_) => any_r,
            }) }
            Node::Fn2(..) => (Sort::Real, any_i, any_r),
        }
    }

    // ------------------------------------------------------------ constructors
    pub fn boolc(&mut self, b: bool) -> T { self.mk(Node::BoolC(b)) }
    pub fn intc(&mut self, k: i128) -> T { self.mk(Node::IntC(k)) }
    pub fn realc(&mut self, x: f64) -> T {
        debug_assert!(x.is_finite());
        self.mk(Node::RealC(if x == 0.0 { 0 } else { x.to_bits() }))
    }
    pub fn ratc(&mut self, r: Rat) -> T {
        if let Some(x) = r.exact_f64() { return self.realc(x); }
        self.mk(Node::RatC(r.n, r.d))
    }
    pub fn var(&mut self, name: String, sort: Sort, lo: f64, hi: f64, ilo: i128, ihi: i128) -> T {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name, sort, lo, hi, ilo, ihi });
        self.mk(Node::Var(v))
    }
    pub fn const_bool(&self, t: T) -> Option<bool> { if let Node::BoolC(b) = *self.node(t) { Some(b) } else { None } }
    pub fn const_int(&self, t: T) -> Option<i128> { if let Node::IntC(k) = *self.node(t) { Some(k) } else { None } }
    pub fn const_rat(&self, t: T) -> Option<Rat> {
        match *self.node(t) { Node::RealC(b) => Rat::from_f64(f64::from_bits(b)), Node::RatC(n, d) => Some(Rat { n, d }), _ => None }
    }
    pub fn is_real_const(&self, t: T) -> Option<f64> {
        match *self.node(t) { Node::RealC(b) => Some(f64::from_bits(b)), _ => None }
    }

    pub fn not(&mut self, a: T) -> T {
        match *self.node(a) {
            Node::BoolC(b) => self.boolc(!b),
            Node::Not(x) => x,
            Node::Lt(x, y) => self.mk(Node::Le(y, x)),
            Node::Le(x, y) => self.mk(Node::Lt(y, x)),
            _ => self.mk(Node::Not(a)),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b { return a; }
        if let Some(x) = self.const_bool(a) { return if x { b } else { a }; }
        if let Some(x) = self.const_bool(b) { return if x { a } else { b }; }
        if self.not(a) == b { return self.boolc(false); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::And(a, b))
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b { return a; }
        if let Some(x) = self.const_bool(a) { return if x { a } else { b }; }
        if let Some(x) = self.const_bool(b) { return if x { b } else { a }; }
        if self.not(a) == b { return self.boolc(true); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Or(a, b))
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(x) = self.const_bool(c) { return if x { a } else { b }; }
        if a == b { return a; }
        if self.sort(a) == Sort::Bool {
            match (self.const_bool(a), self.const_bool(b)) {
                (Some(true), Some(false)) => return c,
                (Some(false), Some(true)) => return self.not(c),
                (Some(true), None) => return self.or(c, b),
                (Some(false), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(true)) => { let n = self.not(c); return self.or(n, a); }
                (None, Some(false)) => return self.and(c, a),
                _ => {}
            }
        }
        if let Node::Not(c2) = *self.node(c) { return self.mk(Node::Ite(c2, b, a)); }
        self.mk(Node::Ite(c, a, b))
    }
    /// true if the term is an ite tree with constant leaves (bounded depth)
    fn const_leaves(&self, t: T, d: u32) -> bool {
        match *self.node(t) {
            Node::IntC(_) | Node::RealC(_) => true,
            Node::Ite(_, a, b) => d > 0 && self.const_leaves(a, d - 1) && self.const_leaves(b, d - 1),
            _ => false,
        }
    }
    fn cmp_push(&mut self, a: T, b: T, f: &dyn Fn(&mut Arena, T, T) -> T) -> Option<T> {
        if let Node::Ite(c, x, y) = *self.node(a) {
            if self.const_leaves(b, 0) && self.const_leaves(a, 6) {
                let l = f(self, x, b);
                let r = f(self, y, b);
                return Some(self.ite(c, l, r));
            }
        }
        if let Node::Ite(c, x, y) = *self.node(b) {
            if self.const_leaves(a, 0) && self.const_leaves(b, 6) {
                let l = f(self, a, x);
                let r = f(self, a, y);
                return Some(self.ite(c, l, r));
            }
        }
        None
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return self.boolc(true); }
        if self.sort(a) == Sort::Bool {
            if let Some(x) = self.const_bool(a) { return if x { b } else { self.not(b) }; }
            if let Some(x) = self.const_bool(b) { return if x { a } else { self.not(a) }; }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.mk(Node::Eq(a, b));
        }
        if self.sort(a) == Sort::Int {
            let (a1, a2) = self.ii(a); let (b1, b2) = self.ii(b);
            if a2 < b1 || b2 < a1 { return self.boolc(false); }
            if a1 == a2 && b1 == b2 && a1 == b1 { return self.boolc(true); }
        } else {
            let (a1, a2) = self.ri(a); let (b1, b2) = self.ri(b);
            if a2 < b1 || b2 < a1 { return self.boolc(false); }
            if let (Some(x), Some(y)) = (self.is_real_const(a), self.is_real_const(b)) { return self.boolc(x == y); }
            // a root is zero where its argument is
            for (x, y) in [(a, b), (b, a)] {
                if self.is_real_const(x) == Some(0.0) { if let Node::Fn1(F1::Sqrt, u) = *self.node(y) { return self.eq(x, u); } }
            }
        }
        if let Some(t) = self.cmp_push(a, b, &|s, x, y| s.eq(x, y)) { return t; }
        if let Some((a2, b2)) = self.int_shift(a, b) { return self.eq(a2, b2); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Eq(a, b))
    }
    /// x + c1 ? c2  ==>  x ? c2 - c1
    fn int_shift(&mut self, a: T, b: T) -> Option<(T, T)> {
        if self.sort(a) != Sort::Int { return None; }
        if let (Node::Add(x, y), Some(k)) = (self.node(a).clone(), self.const_int(b)) {
            if let Some(c) = self.const_int(y) { let r = self.intc(k - c); return Some((x, r)); }
        }
        if let (Some(k), Node::Add(x, y)) = (self.const_int(a), self.node(b).clone()) {
            if let Some(c) = self.const_int(y) { let r = self.intc(k - c); return Some((r, x)); }
        }
        None
    }
    pub fn lt(&mut self, a: T, b: T) -> T {
        if a == b { return self.boolc(false); }
        if self.sort(a) == Sort::Int {
            let (a1, a2) = self.ii(a); let (b1, b2) = self.ii(b);
            if a2 < b1 { return self.boolc(true); }
            if a1 >= b2 { return self.boolc(false); }
        } else {
            let (a1, a2) = self.ri(a); let (b1, b2) = self.ri(b);
            if a2 < b1 { return self.boolc(true); }
            if a1 >= b2 && a1.is_finite() && b2.is_finite() { return self.boolc(false); }
        }
        if let Some(t) = self.cmp_push(a, b, &|s, x, y| s.lt(x, y)) { return t; }
        if let Some((a2, b2)) = self.int_shift(a, b) { return self.lt(a2, b2); }
        self.mk(Node::Lt(a, b))
    }
    pub fn le(&mut self, a: T, b: T) -> T { let l = self.lt(b, a); self.not(l) }
    /// comparisons kept even when the static interval already implies them (axioms for the solver)
    pub fn raw_lt(&mut self, a: T, b: T) -> T { self.mk(Node::Lt(a, b)) }
    pub fn raw_eq(&mut self, a: T, b: T) -> T { if a == b { return self.boolc(true); } let (a, b) = if a < b { (a, b) } else { (b, a) }; self.mk(Node::Eq(a, b)) }
    pub fn raw_le(&mut self, a: T, b: T) -> T { self.mk(Node::Le(a, b)) }

    pub fn add(&mut self, a: T, b: T) -> T {
        if self.sort(a) == Sort::Int {
            if let (Some(x), Some(y)) = (self.const_int(a), self.const_int(b)) { return self.intc(x + y); }
            let (a, b) = if self.const_int(a).is_some() { (b, a) } else { (a, b) };
            if let Some(y) = self.const_int(b) {
                if y == 0 { return a; }
                if let Node::Add(p, q) = *self.node(a) {
                    if let Some(x) = self.const_int(q) { let c = self.intc(x + y); return self.add(p, c); }
                }
                if self.const_leaves(a, 4) { if let Node::Ite(c, p, q) = *self.node(a) { let l = self.add(p, b); let r = self.add(q, b); return self.ite(c, l, r); } }
            }
            // (x - y) + y
            if let Node::Sub(p, q) = *self.node(a) { if q == b { return p; } }
            if let Node::Sub(p, q) = *self.node(b) { if q == a { return p; } }
            return self.mk(Node::Add(a, b));
        }
        if self.is_real_const(a) == Some(0.0) { return b; }
        if self.is_real_const(b) == Some(0.0) { return a; }
        if let Node::Neg(x) = *self.node(b) { return self.sub(a, x); }
        if let Node::Neg(x) = *self.node(a) { return self.sub(b, x); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Add(a, b))
    }
    pub fn neg(&mut self, a: T) -> T {
        if let Some(k) = self.const_int(a) { return self.intc(-k); }
        if let Some(x) = self.is_real_const(a) { return self.realc(-x); }
        if let Node::Neg(x) = *self.node(a) { return x; }
        if let Node::Sub(x, y) = *self.node(a) { return self.sub(y, x); }
        self.mk(Node::Neg(a))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if self.sort(a) == Sort::Int {
            if let Some(y) = self.const_int(b) { let c = self.intc(-y); return self.add(a, c); }
            if a == b { return self.intc(0); }
            if let Node::Add(p, q) = *self.node(a) {
                if p == b { return q; }
                if q == b { return p; }
                if let (Node::Add(r, s), Some(k)) = (self.node(b).clone(), self.const_int(q)) {
                    if let Some(l) = self.const_int(s) { let d = self.sub(p, r); let c = self.intc(k - l); return self.add(d, c); }
                }
            }
            return self.mk(Node::Sub(a, b));
        }
        if a == b { return self.realc(0.0); }
        if self.is_real_const(b) == Some(0.0) { return a; }
        if self.is_real_const(a) == Some(0.0) { return self.neg(b); }
        if let Node::Neg(x) = *self.node(b) { return self.add(a, x); }
        self.mk(Node::Sub(a, b))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if self.sort(a) == Sort::Int {
            if let (Some(x), Some(y)) = (self.const_int(a), self.const_int(b)) { if let Some(p) = x.checked_mul(y) { return self.intc(p); } }
            let (a, b) = if self.const_int(a).is_some() { (b, a) } else { (a, b) };
            match self.const_int(b) { Some(0) => return b, Some(1) => return a, _ => {} }
            if let Some(y) = self.const_int(b) {
                if let Node::Mul(p, q) = *self.node(a) {
                    if let Some(x) = self.const_int(q) { if let Some(z) = x.checked_mul(y) { let c = self.intc(z); return self.mul(p, c); } }
                }
            }
            return self.mk(Node::Mul(a, b));
        }
        for (x, y) in [(a, b), (b, a)] {
            match self.is_real_const(x) { Some(v) if v == 0.0 => return x, Some(v) if v == 1.0 => return y, Some(v) if v == -1.0 => return self.neg(y), _ => {} }
        }
        if let Node::Neg(x) = *self.node(a) { let m = self.mul(x, b); return self.neg(m); }
        if let Node::Neg(x) = *self.node(b) { let m = self.mul(a, x); return self.neg(m); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Mul(a, b))
    }
    /// real division; the caller guarantees that the divisor is not zero on this path
    pub fn div(&mut self, a: T, b: T) -> T {
        match self.is_real_const(b) { Some(v) if v == 1.0 => return a, Some(v) if v == -1.0 => return self.neg(a), _ => {} }
        if self.is_real_const(a) == Some(0.0) { return a; }
        if a == b { return self.realc(1.0); }
        if let Node::Neg(x) = *self.node(a) { let m = self.div(x, b); return self.neg(m); }
        self.mk(Node::Div(a, b))
    }
    pub fn idiv(&mut self, a: T, k: i128) -> T {
        debug_assert!(k > 0);
        if k == 1 { return a; }
        if let Some(x) = self.const_int(a) { return self.intc(x.div_euclid(k)); }
        let (lo, hi) = self.ii(a);
        if lo > IMIN && hi < IMAX && lo.div_euclid(k) == hi.div_euclid(k) { return self.intc(lo.div_euclid(k)); }
        if let Node::Ite(c, x, y) = *self.node(a) { if self.const_leaves(a, 140) { let l = self.idiv(x, k); let r = self.idiv(y, k); return self.ite(c, l, r); } }
        // (x*m + r) div k with k | m
        if let Node::Mul(x, c) = *self.node(a) { if let Some(c) = self.const_int(c) { if c % k == 0 { let m = self.intc(c / k); return self.mul(x, m); } } }
        if let Node::Add(x, y) = *self.node(a) {
            for (p, q) in [(x, y), (y, x)] {
                if let Some((u, c)) = self.as_scaled(p) { if c % k == 0 {
                    let m = self.intc(c / k); let l = self.mul(u, m); let r = self.idiv(q, k); return self.add(l, r);
                } }
            }
        }
        let kk = self.intc(k);
        self.mk(Node::IDiv(a, kk))
    }
    fn as_scaled(&self, t: T) -> Option<(T, i128)> {
        if let Node::Mul(x, c) = *self.node(t) { if let Some(c) = self.const_int(c) { return Some((x, c)); } }
        None
    }
    pub fn imod(&mut self, a: T, k: i128) -> T {
        debug_assert!(k > 0);
        if k == 1 { return self.intc(0); }
        if let Some(x) = self.const_int(a) { return self.intc(x.rem_euclid(k)); }
        let (lo, hi) = self.ii(a);
        if lo >= 0 && hi < k { return a; }
        if lo > IMIN && hi < IMAX && lo.div_euclid(k) == hi.div_euclid(k) { let c = self.intc(lo.div_euclid(k) * k); return self.sub(a, c); }
        if let Node::Ite(c, x, y) = *self.node(a) { if self.const_leaves(a, 140) { let l = self.imod(x, k); let r = self.imod(y, k); return self.ite(c, l, r); } }
        if let Some((_, c)) = self.as_scaled(a) { if c % k == 0 { return self.intc(0); } }
        if let Node::Add(x, y) = *self.node(a) {
            for (p, q) in [(x, y), (y, x)] {
                if let Some((_, c)) = self.as_scaled(p) { if c % k == 0 { return self.imod(q, k); } }
            }
        }
        if let Node::IMod(x, y) = *self.node(a) { if let Some(y) = self.const_int(y) { if y % k == 0 { return self.imod(x, k); } } }
        let kk = self.intc(k);
        self.mk(Node::IMod(a, kk))
    }
    pub fn raw_idiv(&mut self, a: T, b: T) -> T { self.mk(Node::IDiv(a, b)) }
    pub fn raw_imod(&mut self, a: T, b: T) -> T { self.mk(Node::IMod(a, b)) }
    pub fn to_real(&mut self, a: T) -> T {
        if let Some(k) = self.const_int(a) { if k.abs() < (1 << 53) { return self.realc(k as f64); } }
        if let Node::Ite(c, x, y) = *self.node(a) { if self.const_leaves(a, 3) { let l = self.to_real(x); let r = self.to_real(y); return self.ite(c, l, r); } }
        self.mk(Node::ToReal(a))
    }
    pub fn floor(&mut self, a: T) -> T {
        if let Some(x) = self.is_real_const(a) { return self.intc(x.floor() as i128); }
        if let Node::ToReal(x) = *self.node(a) { return x; }
        self.mk(Node::Floor(a))
    }
    pub fn fn2(&mut self, k: u32, a: T, b: T) -> T { self.mk(Node::Fn2(k, a, b)) }
    pub fn arb(&mut self, k: u32, a: T) -> T { self.mk(Node::Fn1(F1::Arb(k), a)) }

    // ------------------------------------------------------------ polynomials
    pub fn poly(&mut self, t: T) -> Option<std::rc::Rc<Poly>> {
        if let Some(p) = self.poly_memo.get(&t) { return p.clone(); }
        // what cannot be normalised (too large) is a factor of its own
        let r = Some(std::rc::Rc::new(self.poly0(t).unwrap_or_else(|| Poly::atom(t))));
        self.poly_memo.insert(t, r.clone());
        r
    }
    fn poly0(&mut self, t: T) -> Option<Poly> {
        let one = Rat { n: 1, d: 1 };
        match *self.node(t) {
            Node::RealC(b) => Some(Poly::constant(Rat::from_f64(f64::from_bits(b))?)),
            Node::RatC(n, d) => Some(Poly::constant(Rat { n, d })),
            Node::Add(a, b) => { let x = self.poly(a)?; let y = self.poly(b)?; x.add(&y, one) }
            Node::Sub(a, b) => { let x = self.poly(a)?; let y = self.poly(b)?; x.add(&y, one.neg()) }
            Node::Neg(a) => { let x = self.poly(a)?; x.scale(one.neg()) }
            Node::Mul(a, b) => {
                let x = self.poly(a)?; let y = self.poly(b)?;
                match x.mul(&y) {
                    Some(p) => self.cancel(p),
                    None => { let x = self.factor(a)?; let y = self.factor(b)?; let p = x.mul(&y)?; self.cancel(p) }
                }
            }
            Node::Div(a, b) => {
                let y = self.poly(b)?;
                if let Some(c) = y.as_const() { if !c.is_zero() { let x = self.poly(a)?; return x.scale(c.inv()?); } }
                // a / b = a * (1 / b), factor by factor if b is one product
                let o = self.realc(1.0);
                let x = self.poly(a)?;
                let inv = if y.terms.len() == 1 {
                    let (m, c) = y.terms.iter().next().map(|(m, c)| (m.clone(), c.0))?;
                    let mut im: Vec<T> = vec![];
                    for f in m { let g = match self.inverse(f) { Some(d) => d, None => self.div(o, f) }; im.push(g); }
                    im.sort();
                    let mut p = Poly { terms: Default::default() };
                    p.terms.insert(im, RatKey(c.inv()?));
                    p
                } else { let b = self.canonical(b); Poly::atom(self.div(o, b)) };
                match x.mul(&inv) {
                    Some(p) => self.cancel(p),
                    None => { let x = self.factor(a)?; let p = x.mul(&inv)?; self.cancel(p) }
                }
            }
            Node::Fn1(k, x) => { let c = self.canonical(x); Some(Poly::atom(self.mk(Node::Fn1(k, c)))) }
            _ => Some(Poly::atom(t)),
        }
    }
    /// a product as it is, a sum as one factor
    fn factor(&mut self, t: T) -> Option<Poly> {
        let p = self.poly(t)?;
        if p.terms.len() <= 1 { return Some((*p).clone()); }
        Some(Poly::atom(self.canonical(t)))
    }
    /// for people
    pub fn show(&self, t: T, depth: u32) -> String {
        match *self.node(t) {
            Node::Var(v) => self.vars[v as usize].name.clone(),
            Node::RealC(b) => format!("{}", f64::from_bits(b)),
            Node::IntC(x) => format!("{}", x),
            Node::BoolC(b) => format!("{}", b),
            ref n => {
                let name = format!("{:?}", n);
                let name = name.split('(').next().unwrap_or("").to_string();
                if depth == 0 { return format!("{}#{:?}", name, t); }
                let kids: Vec<String> = self.children(t).iter().map(|&c| self.show(c, depth - 1)).collect();
                format!("{}({})", name, kids.join(", "))
            }
        }
    }
    /// d of the factor 1 / d
    fn inverse(&self, f: T) -> Option<T> {
        match *self.node(f) { Node::Div(n, d) if self.is_real_const(n) == Some(1.0) => Some(d), _ => None }
    }
    /// the exponent of a factor exp(c m) or 1 / exp(c m)
    fn exponent(&mut self, f: T) -> Option<(Vec<T>, Rat)> {
        let (e, neg) = match self.inverse(f) { Some(d) => (d, true), None => (f, false) };
        let x = match *self.node(e) { Node::Fn1(F1::Exp, x) => x, _ => return None };
        let p = self.poly(x)?;
        if p.terms.len() != 1 { return None; }
        p.terms.iter().next().map(|(m, c)| (m.clone(), if neg { c.0.neg() } else { c.0 }))
    }
    /// x * (1 / x) = 1 as a divisor is never zero; sqrt(x)^2 = x as its argument is never negative; exp(a m) * exp(b m) = exp((a + b) m)
    fn cancel(&mut self, p: Poly) -> Option<Poly> {
        if !p.terms.keys().any(|m| m.len() > 1 && m.iter().any(|&f| self.inverse(f).is_some() || matches!(*self.node(f), Node::Fn1(F1::Exp, _) | Node::Fn1(F1::Sqrt, _)))) { return Some(p); }
        let o = self.realc(1.0);
        let mut r = Poly { terms: Default::default() };
        for (m, c) in &p.terms {
            let mut rest: Vec<T> = vec![];
            let mut exps: std::collections::BTreeMap<Vec<T>, (Rat, usize, T)> = Default::default();
            for &f in m {
                match self.exponent(f) {
                    Some((b, x)) => match exps.get(&b).cloned() {
                        Some((y, n, _)) => { exps.insert(b, (x.add(y)?, n + 1, f)); }
                        None => { exps.insert(b, (x, 1, f)); }
                    },
                    None => rest.push(f),
                }
            }
            loop {
                let hit = rest.iter().enumerate().find_map(|(i, &f)| self.inverse(f).and_then(|d| rest.iter().position(|&g| g == d)).map(|j| (i, j)));
                match hit { Some((i, j)) => { rest.remove(i.max(j)); rest.remove(i.min(j)); } None => break }
            }
            for (b, (x, n, f)) in exps {
                if n == 1 { rest.push(f); continue; }
                if x.is_zero() { continue; }
                let ca = if x.n < 0 { x.neg() } else { x };
                let arg = self.monomial(&b, ca);
                let e = self.mk(Node::Fn1(F1::Exp, arg));
                rest.push(if x.n < 0 { self.div(o, e) } else { e });
            }
            rest.sort();
            // a root times itself is its argument
            let twin = (1..rest.len()).find(|&i| rest[i] == rest[i - 1] && matches!(*self.node(rest[i]), Node::Fn1(F1::Sqrt, _)));
            if let Some(i) = twin {
                if let Node::Fn1(_, u) = *self.node(rest[i]) {
                    rest.drain(i - 1..=i);
                    let u = self.poly(u)?;
                    let mut one = Poly { terms: Default::default() };
                    one.terms.insert(rest, *c);
                    let q = one.mul(&u)?;
                    let q = self.cancel(q)?;
                    r = r.add(&q, Rat { n: 1, d: 1 })?;
                    continue;
                }
            }
            let e = match r.terms.get(&rest) { Some(x) => x.0.add(c.0)?, None => c.0 };
            if e.is_zero() { r.terms.remove(&rest); } else { r.terms.insert(rest, RatKey(e)); }
        }
        Some(r)
    }
    /// the first term seen with the same polynomial; it may be undefined where this one is defined, so it serves only to compare
    fn canonical(&mut self, t: T) -> T {
        match self.poly(t) { Some(p) => *self.canon.entry(p).or_insert(t), None => t }
    }
    /// the same, if it is defined wherever this term is
    fn stand_in(&mut self, t: T) -> T {
        let c = self.canonical(t);
        if c == t || self.no_less_defined(c, t) { c } else { t }
    }
    fn no_less_defined(&mut self, c: T, t: T) -> bool {
        let (p, q) = (self.partials(c), self.partials(t));
        p.is_subset(&q)
    }
    fn never_zero(&self, t: T) -> bool {
        match *self.node(t) {
            Node::Fn1(F1::Exp, _) => true,
            Node::Mul(a, b) | Node::Div(a, b) => self.never_zero(a) && self.never_zero(b),
            _ => { let (l, h) = self.ri(t); l > 0.0 || h < 0.0 }
        }
    }
    /// divisors, roots and logarithms in a term
    fn partials(&mut self, t: T) -> std::rc::Rc<std::collections::BTreeSet<T>> {
        let mut todo = vec![t];
        while let Some(&x) = todo.last() {
            if self.partial_memo.contains_key(&x) { todo.pop(); continue; }
            let kids = self.children(x);
            let left: Vec<T> = kids.iter().filter(|k| !self.partial_memo.contains_key(k)).cloned().collect();
            if !left.is_empty() { todo.extend(left); continue; }
            let own = match *self.node(x) {
                Node::Div(_, d) if !self.never_zero(d) => Some(d),
                Node::Fn1(F1::Sqrt, _) | Node::Fn1(F1::Ln, _) => Some(x),
                _ => None,
            };
            let sets: Vec<_> = kids.iter().map(|k| self.partial_memo[k].clone()).filter(|s| !s.is_empty()).collect();
            let r = match (own, sets.len()) {
                (None, 0) => Default::default(),
                (None, 1) => sets[0].clone(),
                _ => {
                    let mut u: std::collections::BTreeSet<T> = Default::default();
                    for s in &sets { u.extend(s.iter().cloned()); }
                    u.extend(own);
                    std::rc::Rc::new(u)
                }
            };
            self.partial_memo.insert(x, r);
            todo.pop();
        }
        self.partial_memo[&t].clone()
    }
    fn monomial(&mut self, m: &[T], c: Rat) -> T {
        let mut r: Option<T> = None;
        for &x in m { r = Some(match r { None => x, Some(y) => self.mul(y, x) }); }
        let k = self.ratc(c);
        match r { None => k, Some(y) => self.mul(y, k) }
    }

    // ------------------------------------------------------------ transcendentals
    pub fn exp(&mut self, a: T) -> T {
        if let Some(&t) = self.exp_memo.get(&a) { return t; }
        let mut r = self.exp0(a);
        if !self.no_less_defined(r, a) { r = self.mk(Node::Fn1(F1::Exp, a)); }
        self.exp_memo.insert(a, r);
        r
    }
    fn exp0(&mut self, a: T) -> T {
        let p = match self.poly(a) { Some(p) => p, None => return self.mk(Node::Fn1(F1::Exp, a)) };
        if p.terms.is_empty() { return self.realc(1.0); }
        let mut num: Option<T> = None;
        let mut den: Option<T> = None;
        let items: Vec<(Vec<T>, Rat)> = p.terms.iter().map(|(m, c)| (m.clone(), c.0)).collect();
        for (m, c) in items {
            let neg = c.n < 0;
            let ca = if neg { c.neg() } else { c };
            let mut e: Option<T> = None;
            if m.len() == 1 {
                if let Node::Fn1(F1::Ln, x) = *self.node(m[0]) {
                    if ca.d == 1 && ca.n <= 4 {
                        let mut r = x;
                        for _ in 1..ca.n { r = self.mul(r, x); }
                        e = Some(r);
                    } else if ca.d == 2 && ca.n == 1 { e = Some(self.sqrt(x)); }
                }
            }
            let e = match e { Some(e) => e, None => { let arg = self.monomial(&m, ca); self.mk(Node::Fn1(F1::Exp, arg)) } };
            let slot = if neg { &mut den } else { &mut num };
            *slot = Some(match *slot { None => e, Some(y) => self.mul(y, e) });
        }
        match (num, den) {
            (Some(n), None) => n,
            (None, Some(d)) => { let o = self.realc(1.0); self.div(o, d) }
            (Some(n), Some(d)) => self.div(n, d),
            (None, None) => self.realc(1.0),
        }
    }
    pub fn ln(&mut self, a: T) -> T {
        if self.is_real_const(a) == Some(1.0) { return self.realc(0.0); }
        match *self.node(a) {
            Node::Fn1(F1::Exp, x) => return x,
            Node::Mul(x, y) if self.ri(x).0 > 0.0 && self.ri(y).0 > 0.0 => { let l = self.ln(x); let r = self.ln(y); return self.add(l, r); }
            Node::Div(x, y) if self.ri(x).0 > 0.0 && self.ri(y).0 > 0.0 => { let l = self.ln(x); let r = self.ln(y); return self.sub(l, r); }
            Node::Fn1(F1::Sqrt, x) if self.ri(x).0 > 0.0 => { let l = self.ln(x); let h = self.realc(0.5); return self.mul(l, h); }
            _ => {}
        }
        let a = self.stand_in(a);
        self.mk(Node::Fn1(F1::Ln, a))
    }
    pub fn sqrt(&mut self, a: T) -> T {
        if let Some(x) = self.is_real_const(a) { let s = x.sqrt(); if s * s == x && Rat::from_f64(s).and_then(|r| r.mul(r)) == Rat::from_f64(x) { return self.realc(s); } }
        if let Node::Mul(x, y) = *self.node(a) {
            if x == y {
                let z = self.realc(0.0);
                let c = self.le(z, x);
                let n = self.neg(x);
                return self.ite(c, x, n);
            }
        }
        let a = self.stand_in(a);
        self.mk(Node::Fn1(F1::Sqrt, a))
    }
    /// erf(-x) = -erf(x) and erfc(-x) = 2 - erfc(x): the first coefficient of the argument is positive
    pub fn erf(&mut self, a: T) -> T {
        if self.negative(a) { let b = self.neg(a); let b = self.stand_in(b); let e = self.mk(Node::Fn1(F1::Erf, b)); return self.neg(e); }
        let a = self.stand_in(a); self.mk(Node::Fn1(F1::Erf, a))
    }
    pub fn erfc(&mut self, a: T) -> T {
        if self.negative(a) { let b = self.neg(a); let b = self.stand_in(b); let e = self.mk(Node::Fn1(F1::Erfc, b)); let two = self.realc(2.0); return self.sub(two, e); }
        let a = self.stand_in(a); self.mk(Node::Fn1(F1::Erfc, a))
    }
    fn negative(&mut self, a: T) -> bool { self.poly(a).map_or(false, |p| p.terms.values().next().map_or(false, |c| c.0.n < 0)) }
    pub fn raw_fn1(&mut self, k: F1, a: T) -> T { self.mk(Node::Fn1(k, a)) }

    // ------------------------------------------------------------ evaluation
    pub fn eval(&self, t: T, env: &HashMap<u32, f64>, memo: &mut HashMap<T, f64>) -> f64 {
        if let Some(&v) = memo.get(&t) { return v; }
        let b = |x: bool| if x { 1.0 } else { 0.0 };
        let v = match *self.node(t) {
            Node::BoolC(x) => b(x),
            Node::IntC(k) => k as f64,
            Node::RealC(k) => f64::from_bits(k),
            Node::RatC(n, d) => (n as f64) / (d as f64),
            Node::Var(v) => *env.get(&v).unwrap_or(&{
                let vi = &self.vars[v as usize];
                match vi.sort { Sort::Int => if vi.ilo <= 0 && vi.ihi >= 0 { 0.0 } else { vi.ilo as f64 },
                    Sort::Real => if vi.lo <= 0.0 && vi.hi >= 0.0 { 0.0 } else if vi.lo.is_finite() { vi.lo } else { vi.hi }, Sort::Bool => 0.0 }
            }),
            Node::Not(a) => b(self.eval(a, env, memo) == 0.0),
            Node::And(x, y) => b(self.eval(x, env, memo) != 0.0 && self.eval(y, env, memo) != 0.0),
            Node::Or(x, y) => b(self.eval(x, env, memo) != 0.0 || self.eval(y, env, memo) != 0.0),
            Node::Ite(c, x, y) => if self.eval(c, env, memo) != 0.0 { self.eval(x, env, memo) } else { self.eval(y, env, memo) },
            Node::Eq(x, y) => b(self.eval(x, env, memo) == self.eval(y, env, memo)),
            Node::Lt(x, y) => b(self.eval(x, env, memo) < self.eval(y, env, memo)),
            Node::Le(x, y) => b(self.eval(x, env, memo) <= self.eval(y, env, memo)),
            Node::Add(x, y) => self.eval(x, env, memo) + self.eval(y, env, memo),
            Node::Sub(x, y) => self.eval(x, env, memo) - self.eval(y, env, memo),
            Node::Mul(x, y) => self.eval(x, env, memo) * self.eval(y, env, memo),
            Node::Neg(x) => -self.eval(x, env, memo),
            Node::Div(x, y) => self.eval(x, env, memo) / self.eval(y, env, memo),
            Node::IDiv(x, y) => { let p = self.eval(x, env, memo); let q = self.eval(y, env, memo); (p as i128).checked_div_euclid(q as i128).unwrap_or(0) as f64 }
            Node::IMod(x, y) => { let p = self.eval(x, env, memo); let q = self.eval(y, env, memo); (p as i128).checked_rem_euclid(q as i128).unwrap_or(0) as f64 }
            Node::ToReal(x) => self.eval(x, env, memo),
            Node::Floor(x) => self.eval(x, env, memo).floor(),
            Node::Fn1(k, x) => { let x = self.eval(x, env, memo); match k {
                F1::Exp => x.exp(), F1::Ln => x.ln(), F1::Sqrt => x.sqrt(), F1::Erf => erf(x), F1::Erfc => erfc(x),
                F1::Arb(_) => f64::NAN } }
            Node::Fn2(_, x, y) => { let p = self.eval(x, env, memo); let q = self.eval(y, env, memo); p.powf(q) }
        };
        memo.insert(t, v);
        v
    }
}

pub fn erfc(x: f64) -> f64 {
    // series / continued fraction, accurate to ~1e-14 relative
    if x < 0.0 { return 2.0 - erfc(-x); }
    if x < 2.5 { return 1.0 - erf(x); }
    // continued fraction (Lentz)
    let tiny = 1e-300;
    let mut f = x; let mut c = x; let mut d = 0.0;
    for i in 1..500 {
        let a = i as f64 * 0.5;
        d = x + a * d; if d == 0.0 { d = tiny; }
        c = x + a / c; if c == 0.0 { c = tiny; }
        d = 1.0 / d;
        let delta = c * d;
        f *= delta;
        if (delta - 1.0).abs() < 1e-16 { break; }
    }
    (-x * x).exp() / (f * std::f64::consts::PI.sqrt())
}
pub fn erf(x: f64) -> f64 {
    if x < 0.0 { return -erf(-x); }
    if x >= 2.5 { return 1.0 - erfc(x); }
    let mut sum = x; let mut term = x;
    for n in 1..200 {
        term *= -x * x / n as f64;
        let t = term / (2 * n + 1) as f64;
        sum += t;
        if t.abs() < 1e-18 * sum.abs() { break; }
    }
    sum * 2.0 / std::f64::consts::PI.sqrt()
}
