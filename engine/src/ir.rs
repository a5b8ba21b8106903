//! Textual LLVM IR reader.  Functions are decoded lazily on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Double, Float, Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Other(String) }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => { if let Ty::Int(1) = **t { (n + 7) / 8 } else { n * t.size() } }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Other(t) => if t.contains("::") { panic!("size of type {}", t) } else { 0 },
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => Ty::Void }
    }
    pub fn is_fp(&self) -> bool { matches!(self, Ty::Double | Ty::Float) }
    pub fn width(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, _ => 0 } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Word(String), Local(String), Global(String), Num(String), Str(Vec<u8>), Bytes(Vec<u8>), P(char), Meta, Attr }

#[derive(Clone, Debug)]
pub enum Val { C(u64), S(u32), Big(Box<u128>), Agg(Rc<Vec<Val>>), Undef }

#[derive(Clone, Debug)]
pub enum Op { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Zext, Sext, Trunc, PtrToInt, IntToPtr, Bitcast, SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Op), Asm }

#[derive(Clone, Debug)]
pub enum K {
    Bin(BinOp, Ty, Op, Op, bool),
    FBin(FOp, Ty, Op, Op),
    FNeg(Ty, Op),
    ICmp(Pred, Ty, Op, Op),
    FCmp(FPred, Ty, Op, Op),
    Select(Op, Ty, Op, Op, bool),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u64, u64, Op),
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    Cast(Cast, Ty, Ty, Op),
    Call(Callee, Vec<Op>, Ty, Option<(u32, u32)>),
    Ret(Option<Op>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Vec<(u64, u32)>),
    Unreachable,
    ExtractValue(Op, Vec<u32>),
    InsertValue(Op, Op, Vec<u32>, Ty),
    ExtractElem(Op, Op),
    InsertElem(Op, Op, Op, u64),
    Shuffle(Op, Op, u64, Vec<i32>),
    Copy(Op),
    Rmw(String, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    LandingPad, Resume,
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub k: K }
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op)>)>, pub insts: Vec<Inst> }
#[derive(Debug)]
pub struct Func { pub name: String, pub nparams: u32, pub nregs: u32, pub blocks: Vec<Block> }

pub struct FnInfo { pub name: String, pub span: Option<(usize, usize)>, pub addr: u64, pub code: Option<Rc<Func>>, pub calls: u64 }

pub struct GlobalInfo { pub name: String, pub addr: u64, pub ty: Ty, pub init: Option<(usize, usize)>, pub size: u64 }

pub struct Module {
    pub text: String,
    pub fns: Vec<FnInfo>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub glob_by_name: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x1_0000_0000;

pub struct Lex<'a> { pub s: &'a [u8], pub i: usize, pub peeked: Option<Tok>, pub pstart: usize }

fn is_word(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Lex<'a> { Lex { s: s.as_bytes(), i: 0, peeked: None, pstart: 0 } }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else { v.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1;
        v
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' { return String::from_utf8_lossy(&self.quoted()).into_owned(); }
        let j = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[j..self.i]).into_owned()
    }
    fn raw(&mut self) -> Option<Tok> {
        while self.i < self.s.len() && (self.s[self.i].is_ascii_whitespace()) { self.i += 1; }
        if self.i >= self.s.len() { return None; }
        let c = self.s[self.i];
        Some(match c {
            b';' => { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } return self.raw(); }
            b'%' => { self.i += 1; Tok::Local(self.name()) }
            b'@' => { self.i += 1; Tok::Global(self.name()) }
            b'#' => { self.i += 1; while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; } Tok::Attr }
            b'!' => { self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'"' { self.quoted(); Tok::Meta }
                else { while self.i < self.s.len() && is_word(self.s[self.i]) { self.i += 1; } Tok::Meta } }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => { self.i += 1; Tok::Bytes(self.quoted()) }
            c if c.is_ascii_digit() || (c == b'-' && self.i + 1 < self.s.len() && self.s[self.i + 1].is_ascii_digit()) => {
                let j = self.i; self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' ||
                    ((self.s[self.i] == b'+' || self.s[self.i] == b'-') && matches!(self.s[self.i - 1], b'e' | b'E') && !self.s[j..].starts_with(b"0x"))) { self.i += 1; }
                Tok::Num(String::from_utf8_lossy(&self.s[j..self.i]).into_owned())
            }
            c if is_word(c) => { let j = self.i; while self.i < self.s.len() && is_word(self.s[self.i]) { self.i += 1; }
                let w = std::str::from_utf8(&self.s[j..self.i]).unwrap().to_string();
                if w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") { Tok::Num(w) } else { Tok::Word(w) } }
            c => { self.i += 1; Tok::P(c as char) }
        })
    }
    pub fn next(&mut self) -> Option<Tok> { if let Some(t) = self.peeked.take() { return Some(t); } self.raw() }
    pub fn peek(&mut self) -> Option<&Tok> { if self.peeked.is_none() { self.pstart = self.i; self.peeked = self.raw(); } self.peeked.as_ref() }
    pub fn is_p(&mut self, c: char) -> bool { matches!(self.peek(), Some(Tok::P(d)) if *d == c) }
    pub fn eat(&mut self, c: char) -> bool { if self.is_p(c) { self.next(); true } else { false } }
    pub fn is_w(&mut self, w: &str) -> bool { matches!(self.peek(), Some(Tok::Word(d)) if d == w) }
    pub fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.next(); true } else { false } }
    pub fn word(&mut self) -> String { match self.next() { Some(Tok::Word(w)) => w, t => panic!("expected word, got {:?} near {}", t, self.near()) } }
    pub fn num(&mut self) -> i128 { match self.next() { Some(Tok::Num(n)) => n.parse().unwrap(), t => panic!("expected number, got {:?} near {}", t, self.near()) } }
    pub fn expect(&mut self, c: char) { if !self.eat(c) { let p = self.peek().cloned(); panic!("expected {:?}, got {:?} near {}", c, p, self.near()) } }
    pub fn near(&self) -> String { let a = self.i.saturating_sub(120); let b = (self.i + 60).min(self.s.len()); String::from_utf8_lossy(&self.s[a..b]).into_owned() }
    pub fn skip_parens(&mut self) {
        // at '('
        self.expect('(');
        let mut d = 1;
        while d > 0 { match self.next() { Some(Tok::P('(')) => d += 1, Some(Tok::P(')')) => d -= 1, None => return, _ => {} } }
    }
}

const TYPE_WORDS: &[&str] = &["void", "ptr", "double", "float", "half", "x86_fp80", "fp128", "label", "metadata", "token", "bfloat"];
pub fn word_is_type(w: &str) -> bool {
    TYPE_WORDS.contains(&w) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn parse_ty(&self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            Some(Tok::Word(w)) => match w.as_str() {
                "void" => Ty::Void, "double" => Ty::Double, "float" => Ty::Float,
                "ptr" => { if l.eat_w("addrspace") { l.skip_parens(); } Ty::Ptr }
                s if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().unwrap()),
                s => Ty::Other(s.to_string()),
            },
            Some(Tok::P('[')) => { let n = l.num(); let x = l.word(); assert!(x == "x"); let t = self.parse_ty(l); l.expect(']'); Ty::Arr(n as u64, Rc::new(t)) }
            Some(Tok::P('<')) => {
                if l.eat('{') { let f = self.parse_fields(l); l.expect('>'); Ty::Struct(Rc::new(f), true) }
                else { let n = l.num(); let x = l.word(); assert!(x == "x"); let t = self.parse_ty(l); l.expect('>'); Ty::Vec(n as u64, Rc::new(t)) }
            }
            Some(Tok::P('{')) => { let f = self.parse_fields(l); Ty::Struct(Rc::new(f), false) }
            Some(Tok::Local(n)) => self.types.get(&n).cloned().unwrap_or(Ty::Other(n)),
            t => panic!("expected type, got {:?} near {}", t, l.near()),
        };
        t
    }
    fn parse_fields(&self, l: &mut Lex) -> Vec<Ty> {
        let mut v = vec![];
        if l.eat('}') { return v; }
        loop { v.push(self.parse_ty(l)); if l.eat('}') { break; } l.expect(','); }
        v
    }

    pub fn addr_of(&self, name: &str) -> u64 {
        let mut name = name;
        if let Some(a) = self.aliases.get(name) { name = a; }
        if let Some(&f) = self.fn_by_name.get(name) { return self.fns[f as usize].addr; }
        if let Some(&g) = self.glob_by_name.get(name) { return self.globals[g as usize].addr; }
        0
    }

    /// Parse a constant of the given type into a value.
    pub fn parse_const(&self, l: &mut Lex, ty: &Ty) -> Val {
        match l.next() {
            Some(Tok::Num(n)) => num_val(&n, ty),
            Some(Tok::Global(g)) => Val::C(self.addr_of(&g)),
            Some(Tok::Bytes(b)) => Val::Agg(Rc::new(b.iter().map(|&x| Val::C(x as u64)).collect())),
            Some(Tok::Word(w)) => match w.as_str() {
                "true" => Val::C(1), "false" => Val::C(0), "null" | "none" => Val::C(0),
                "zeroinitializer" => zero_val(ty),
                "undef" | "poison" => undef_val(ty),
                "splat" => { l.expect('('); let t = self.parse_ty(l); let v = self.parse_const(l, &t); l.expect(')');
                    let n = if let Ty::Vec(n, _) = ty { *n } else { 1 }; Val::Agg(Rc::new(vec![v; n as usize])) }
                "getelementptr" => {
                    while let Some(Tok::Word(w)) = l.peek() { let inr = w == "inrange"; l.next(); if inr { l.skip_parens(); } }
                    l.expect('(');
                    let bt = self.parse_ty(l); l.expect(',');
                    let pt = self.parse_ty(l); let b = self.parse_const(l, &pt);
                    let mut a = cval(&b) as i64; let mut cur = bt; let mut first = true;
                    while l.eat(',') {
                        let it = self.parse_ty(l); let iv = self.parse_const(l, &it);
                        let i = sext(cval(&iv), it.width());
                        if first { a = a.wrapping_add(i.wrapping_mul(cur.size() as i64)); first = false; }
                        else { let o = match &cur { Ty::Struct(..) => cur.field_offset(i as usize) as i64, Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() as i64 * i, _ => 0 };
                            a = a.wrapping_add(o); cur = cur.field_ty(if let Ty::Struct(..) = cur { i as usize } else { 0 }); }
                    }
                    l.expect(')');
                    Val::C(a as u64)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "trunc" | "addrspacecast" => {
                    l.expect('('); let t = self.parse_ty(l); let v = self.parse_const(l, &t); let _ = l.eat_w("to"); let to = self.parse_ty(l); l.expect(')');
                    if w == "trunc" { Val::C(mask(cval(&v), to.width())) } else { v }
                }
                "add" | "sub" | "xor" => {
                    while let Some(Tok::Word(_)) = l.peek() { l.next(); }
                    l.expect('('); let t = self.parse_ty(l); let a = self.parse_const(l, &t); l.expect(','); let t2 = self.parse_ty(l); let b = self.parse_const(l, &t2); l.expect(')');
                    let (a, b) = (cval(&a), cval(&b));
                    Val::C(mask(match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b }, t.width()))
                }
                "blockaddress" | "dso_local_equivalent" | "no_cfi" => { if l.is_p('(') { l.skip_parens(); } else { l.next(); } Val::C(0) }
                "inf" | "-inf" | "qnan" | "-qnan" | "nan" | "-nan" => {
                    if l.is_p('(') { l.skip_parens(); }
                    let x = if w.ends_with("inf") { f64::INFINITY } else { f64::NAN };
                    let x = if w.starts_with('-') { -x } else { x };
                    if ty.width() == 32 { Val::C((x as f32).to_bits() as u64) } else { Val::C(x.to_bits()) }
                }
                s => panic!("unknown constant {} near {}", s, l.near()),
            },
            Some(Tok::P('[')) => { let mut v = vec![]; if !l.eat(']') { loop { let t = self.parse_ty(l); v.push(self.parse_const(l, &t)); if l.eat(']') { break; } l.expect(','); } } Val::Agg(Rc::new(v)) }
            Some(Tok::P('{')) => { let mut v = vec![]; if !l.eat('}') { loop { let t = self.parse_ty(l); v.push(self.parse_const(l, &t)); if l.eat('}') { break; } l.expect(','); } } Val::Agg(Rc::new(v)) }
            Some(Tok::P('<')) => {
                if l.eat('{') { let mut v = vec![]; if !l.eat('}') { loop { let t = self.parse_ty(l); v.push(self.parse_const(l, &t)); if l.eat('}') { break; } l.expect(','); } } l.expect('>'); Val::Agg(Rc::new(v)) }
                else { let mut v = vec![]; loop { let t = self.parse_ty(l); v.push(self.parse_const(l, &t)); if l.eat('>') { break; } l.expect(','); } Val::Agg(Rc::new(v)) }
            }
            Some(Tok::P(sign)) if sign == '+' || sign == '-' => {
                let w = match l.next() { Some(Tok::Word(w)) => w, t => panic!("unknown constant {:?} near {}", t, l.near()) };
                let x = match w.as_str() { "inf" => f64::INFINITY, "qnan" | "nan" => f64::NAN, w => panic!("unknown constant {} near {}", w, l.near()) };
                if l.is_p('(') { l.skip_parens(); }
                let x = if sign == '-' { -x } else { x };
                if ty.width() == 32 { Val::C((x as f32).to_bits() as u64) } else { Val::C(x.to_bits()) }
            }
            t => panic!("unknown constant {:?} near {}", t, l.near()),
        }
    }

    pub fn load(text: String) -> Module {
        let mut m = Module { text: String::new(), fns: vec![], fn_by_name: HashMap::new(), globals: vec![], glob_by_name: HashMap::new(), types: HashMap::new(), aliases: HashMap::new() };
        let b = text.as_bytes();
        let mut pos = 0;
        let mut gaddr = GLOB_BASE;
        let mut pending: Vec<(usize, usize)> = vec![]; let mut types: Vec<(usize, usize)> = vec![];
        while pos < b.len() {
            let eol = memchr(b, pos);
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                // find the end "\n}\n"
                let end = text[eol..].find("\n}\n").map(|k| eol + k + 2).unwrap_or(b.len());
                let nm = fn_name(line);
                m.add_fn(nm, Some((pos, end)));
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let nm = fn_name(line);
                m.add_fn(nm, None);
            } else if line.starts_with('@') {
                pending.push((pos, eol));
            } else if line.starts_with('%') {
                types.push((pos, eol));
            }
            pos = eol + 1;
        }
        // a named type may use others that come after it
        for _ in 0..types.len() {
            let before = m.types.clone();
            for &(s, e) in &types {
                let mut l = Lex::new(&text[s..e]);
                if let Some(Tok::Local(n)) = l.next() { l.expect('='); if l.eat_w("type") { if !l.is_w("opaque") { let t = m.parse_ty(&mut l); m.types.insert(n, t); } } }
            }
            if m.types == before { break; }
        }
        for (s, e) in pending {
            let line = &text[s..e];
            let mut l = Lex::new(line);
            let nm = match l.next() { Some(Tok::Global(n)) => n, _ => continue };
            l.expect('=');
            let mut external = false;
            loop {
                match l.next() {
                    Some(Tok::Word(w)) => match w.as_str() {
                        "constant" | "global" => break,
                        "alias" => {
                            let _ = m.parse_ty(&mut l); l.expect(','); let _ = m.parse_ty(&mut l);
                            if let Some(Tok::Global(t)) = l.next() { m.aliases.insert(nm.clone(), t); }
                            external = true; break;
                        }
                        "external" | "extern_weak" => external = true,
                        "addrspace" => l.skip_parens(),
                        "thread_local" => if l.is_p('(') { l.skip_parens() },
                        _ => {}
                    },
                    Some(_) => {}
                    None => break,
                }
            }
            if m.aliases.contains_key(&nm) { continue; }
            let ty = m.parse_ty(&mut l);
            let at = s + if l.peeked.is_some() { l.pstart } else { l.i };
            let size = ty.size().max(1);
            let mut align = ty.align().max(16);
            if let Some(k) = line.rfind(", align ") { if let Ok(a) = line[k + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>() { align = align.max(a); } }
            gaddr = (gaddr + align - 1) / align * align;
            let id = m.globals.len() as u32;
            m.globals.push(GlobalInfo { name: nm.clone(), addr: gaddr, ty, init: if external { None } else { Some((at, e)) }, size });
            m.glob_by_name.insert(nm, id);
            gaddr += size + 16;
        }
        m.text = text;
        m
    }
    fn add_fn(&mut self, name: String, span: Option<(usize, usize)>) {
        let id = self.fns.len() as u32;
        self.fns.push(FnInfo { name: name.clone(), span, addr: FN_BASE + id as u64 * 16, code: None, calls: 0 });
        self.fn_by_name.insert(name, id);
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr < FN_BASE || (addr - FN_BASE) % 16 != 0 { return None; }
        let i = (addr - FN_BASE) / 16;
        if (i as usize) < self.fns.len() { Some(i as u32) } else { None }
    }

    pub fn decode(&mut self, f: u32) -> Rc<Func> {
        if let Some(c) = &self.fns[f as usize].code { return c.clone(); }
        let (s, e) = self.fns[f as usize].span.expect("function without body");
        let text = &self.text[s..e];
        let d = Dec { m: self, regs: HashMap::new(), blocks: HashMap::new() };
        let func = Rc::new(d.run(text, &self.fns[f as usize].name));
        self.fns[f as usize].code = Some(func.clone());
        func
    }
}

fn memchr(b: &[u8], p: usize) -> usize { let mut i = p; while i < b.len() && b[i] != b'\n' { i += 1; } i }

fn fn_name(line: &str) -> String {
    // first '@' that starts the function name (attributes never contain '@' before it)
    let i = line.find('@').unwrap();
    let mut l = Lex::new(&line[i..]);
    match l.next() { Some(Tok::Global(n)) => n, _ => panic!() }
}

pub fn mask(x: u64, w: u32) -> u64 { if w >= 64 { x } else { x & ((1u64 << w) - 1) } }
pub fn sext(x: u64, w: u32) -> i64 { if w >= 64 || w == 0 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) } }
pub fn cval(v: &Val) -> u64 { match v { Val::C(x) => *x, Val::Big(b) => **b as u64, Val::Undef => 0, _ => panic!("constant expected") } }

fn num_val(n: &str, ty: &Ty) -> Val {
    match ty {
        Ty::Double => {
            let n2 = n.strip_prefix("f").unwrap_or(n);
            if let Some(h) = n2.strip_prefix("0x") { Val::C(u64::from_str_radix(h, 16).unwrap()) }
            else { Val::C(n.parse::<f64>().unwrap().to_bits()) }
        }
        Ty::Float => {
            if let Some(h) = n.strip_prefix("f0x") { Val::C(u64::from_str_radix(h, 16).unwrap()) }
            else if let Some(h) = n.strip_prefix("0x") { Val::C((f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64) }
            else { Val::C((n.parse::<f64>().unwrap() as f32).to_bits() as u64) }
        }
        Ty::Int(w) => {
            let v: i128 = if let Some(h) = n.strip_prefix("u0x").or(n.strip_prefix("s0x")) { u128::from_str_radix(h, 16).unwrap() as i128 }
                else if let Ok(k) = n.parse::<i128>() { k } else { n.parse::<u128>().unwrap() as i128 };
            if *w <= 64 { Val::C(mask(v as u64, *w)) } else { Val::Big(Box::new(if *w >= 128 { v as u128 } else { (v as u128) & ((1u128 << w) - 1) })) }
        }
        _ => Val::C(n.parse::<i128>().unwrap_or(0) as u64),
    }
}
pub fn zero_val(ty: &Ty) -> Val {
    match ty {
        Ty::Arr(n, t) | Ty::Vec(n, t) => Val::Agg(Rc::new(vec![zero_val(t); *n as usize])),
        Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(zero_val).collect())),
        Ty::Int(w) if *w > 64 => Val::Big(Box::new(0)),
        _ => Val::C(0),
    }
}
pub fn undef_val(ty: &Ty) -> Val {
    match ty {
        Ty::Arr(n, t) | Ty::Vec(n, t) => Val::Agg(Rc::new(vec![undef_val(t); *n as usize])),
        Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(undef_val).collect())),
        Ty::Int(w) if *w > 64 => Val::Big(Box::new(0)),
        _ => Val::Undef,
    }
}

struct Dec<'m> { m: &'m Module, regs: HashMap<String, u32>, blocks: HashMap<String, u32> }

impl<'m> Dec<'m> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn op(&mut self, l: &mut Lex, ty: &Ty) -> Op {
        if let Some(Tok::Local(_)) = l.peek() { if let Some(Tok::Local(n)) = l.next() { return Op::R(self.reg(&n)); } }
        if let Ty::Other(s) = ty { if s == "metadata" { // skip metadata operand
            l.next(); if l.is_p('(') { l.skip_parens(); } if l.is_p('{') { while !l.eat('}') { l.next(); } } return Op::K(Val::Undef); } }
        Op::K(self.m.parse_const(l, ty))
    }
    fn tyop(&mut self, l: &mut Lex) -> (Ty, Op) { let t = self.m.parse_ty(l); self.skip_attrs(l); let o = self.op(l, &t); (t, o) }
    fn skip_attrs(&mut self, l: &mut Lex) {
        loop {
            match l.peek() {
                Some(Tok::Word(w)) => {
                    match w.as_str() { "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "splat" | "add" | "sub" | "xor" | "trunc" | "blockaddress" => return, _ => {} }
                    let w = w.clone();
                    l.next();
                    if w == "align" { l.next(); }
                    else if l.is_p('(') { l.skip_parens(); }
                }
                Some(Tok::Attr) => { l.next(); }
                Some(Tok::Str(_)) => { l.next(); if l.eat('=') { l.next(); } }
                _ => return,
            }
        }
    }
    fn block(&mut self, l: &mut Lex) -> u32 {
        let w = l.word(); assert!(w == "label");
        match l.next() { Some(Tok::Local(n)) => self.blocks[&n], t => panic!("label {:?}", t) }
    }

    fn run(mut self, text: &str, name: &str) -> Func {
        let hdr_end = text.find("{\n").unwrap();
        // the header may contain "{" inside types; the body opens with " {\n" at the end of the first line
        let first_line_end = text.find('\n').unwrap();
        let _ = hdr_end;
        let hdr = &text[..first_line_end];
        let at = hdr.find('@').unwrap();
        let mut l = Lex::new(&hdr[at..]);
        l.next();
        let mut np = 0;
        l.expect('(');
        if !l.eat(')') {
            loop {
                if l.eat('.') { while !l.is_p(')') { l.next(); } l.expect(')'); break; }
                if let Some(Tok::Word(w)) = l.peek() { if w.starts_with("...") { l.next(); l.expect(')'); break; } }
                let _t = self.m.parse_ty(&mut l);
                self.skip_attrs(&mut l);
                match l.peek() { Some(Tok::Local(_)) => { if let Some(Tok::Local(n)) = l.next() { let r = self.reg(&n); assert!(r == np); } }
                    _ => { let r = self.reg(&format!("#{}", np)); assert!(r == np); } }
                np += 1;
                if l.eat(')') { break; }
                l.expect(',');
            }
        }
        // split the body in blocks
        let body = &text[first_line_end + 1..text.len()];
        let mut lines: Vec<(u32, String)> = vec![];
        let mut cur: u32 = 0;
        let mut nblocks = 0u32;
        let mut unnamed_first = true;
        let mut acc: Option<String> = None;
        for line in body.lines() {
            if line == "}" { break; }
            if line.is_empty() { continue; }
            if !line.starts_with(' ') {
                // label
                let mut l = Lex::new(line);
                let nm = if line.starts_with('"') { match l.next() { Some(Tok::Str(s)) => String::from_utf8_lossy(&s).into_owned(), _ => panic!() } }
                    else { line[..line.find(':').unwrap()].to_string() };
                if nblocks == 0 { unnamed_first = false; }
                self.blocks.insert(nm, nblocks);
                cur = nblocks; nblocks += 1;
                continue;
            }
            if nblocks == 0 { nblocks = 1; cur = 0; }
            let tl = line.trim_start();
            if let Some(a) = acc.as_mut() {
                // inside a switch table
                a.push(' '); a.push_str(tl);
                if tl.starts_with(']') { lines.push((cur, acc.take().unwrap())); }
                continue;
            }
            if tl.starts_with("switch ") && !tl.contains(']') { acc = Some(tl.to_string()); continue; }
            if tl.starts_with("cleanup") || tl.starts_with("catch ") || tl.starts_with("filter ") { continue; }
            lines.push((cur, tl.to_string()));
        }
        if unnamed_first {
            // the entry block gets the next unnamed number: the number of unnamed parameters
            let mut k = 0; while self.regs.contains_key(&k.to_string()) { k += 1; }
            self.blocks.entry(k.to_string()).or_insert(0);
        }
        let mut blocks: Vec<Block> = (0..nblocks).map(|_| Block { phis: vec![], insts: vec![] }).collect();
        for (b, line) in lines {
            let mut l = Lex::new(&line);
            let mut dst = NODST;
            if line.starts_with('%') {
                if let Some(Tok::Local(n)) = l.next() { dst = self.reg(&n); }
                l.expect('=');
            }
            let mut opw = l.word();
            while matches!(opw.as_str(), "tail" | "musttail" | "notail") { opw = l.word(); }
            if opw == "phi" {
                while let Some(Tok::Word(w)) = l.peek() { if word_is_type(w) { break; } l.next(); }
                let t = self.m.parse_ty(&mut l);
                let mut v = vec![];
                loop {
                    l.expect('[');
                    let o = self.op(&mut l, &t);
                    l.expect(',');
                    let p = match l.next() { Some(Tok::Local(n)) => self.blocks[&n], x => panic!("phi {:?}", x) };
                    l.expect(']');
                    v.push((p, o));
                    if !l.eat(',') { break; }
                    if let Some(Tok::Meta) = l.peek() { break; }
                }
                blocks[b as usize].phis.push((dst, v));
                continue;
            }
            let k = self.inst(&opw, &mut l, &line);
            blocks[b as usize].insts.push(Inst { dst, k });
        }
        Func { name: name.to_string(), nparams: np, nregs: self.regs.len() as u32, blocks }
    }

    fn flags(&mut self, l: &mut Lex) -> bool {
        let mut disjoint = false;
        while let Some(Tok::Word(w)) = l.peek() { if word_is_type(w) { break; } if w == "disjoint" { disjoint = true; } l.next(); }
        disjoint
    }

    fn inst(&mut self, opw: &str, l: &mut Lex, line: &str) -> K {
        let bin = |s: &str| Some(match s { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, _ => return None });
        if let Some(o) = bin(opw) {
            let dj = self.flags(l);
            let t = self.m.parse_ty(l); let a = self.op(l, &t); l.expect(','); let b = self.op(l, &t);
            return K::Bin(o, t, a, b, dj);
        }
        match opw {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let o = match opw { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
                self.flags(l);
                let t = self.m.parse_ty(l); let a = self.op(l, &t); l.expect(','); let b = self.op(l, &t);
                K::FBin(o, t, a, b)
            }
            "fneg" => { self.flags(l); let t = self.m.parse_ty(l); let a = self.op(l, &t); K::FNeg(t, a) }
            "icmp" => {
                let mut p = l.word(); if p == "samesign" { p = l.word(); }
                let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, s => panic!("pred {}", s) };
                let t = self.m.parse_ty(l); let a = self.op(l, &t); l.expect(','); let b = self.op(l, &t);
                K::ICmp(p, t, a, b)
            }
            "fcmp" => {
                let p = loop { let w = l.word(); break match w.as_str() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt,
                    "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult,
                    "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, _ => continue } };
                let t = self.m.parse_ty(l); let a = self.op(l, &t); l.expect(','); let b = self.op(l, &t);
                K::FCmp(p, t, a, b)
            }
            "select" => {
                self.flags(l);
                let (ct, c) = self.tyop(l); l.expect(','); let (t, a) = self.tyop(l); l.expect(','); let (_, b) = self.tyop(l);
                K::Select(c, t, a, b, matches!(ct, Ty::Vec(..)))
            }
            "load" => {
                l.eat_w("atomic"); l.eat_w("volatile");
                let t = self.m.parse_ty(l); l.expect(','); let (_, p) = self.tyop(l);
                K::Load(t, p)
            }
            "store" => {
                l.eat_w("atomic"); l.eat_w("volatile");
                let (t, v) = self.tyop(l); l.expect(','); let (_, p) = self.tyop(l);
                K::Store(t, v, p)
            }
            "alloca" => {
                l.eat_w("inalloca");
                let t = self.m.parse_ty(l);
                let mut n = Op::K(Val::C(1)); let mut al = t.align();
                while l.eat(',') {
                    if l.eat_w("align") { al = l.num() as u64; }
                    else if l.eat_w("addrspace") { l.skip_parens(); }
                    else if let Some(Tok::Meta) = l.peek() { break; }
                    else { let (_, o) = self.tyop(l); n = o; }
                }
                K::Alloca(t.size(), al, n)
            }
            "getelementptr" => {
                self.flags_gep(l);
                let bt = self.m.parse_ty(l); l.expect(','); let (_, b) = self.tyop(l);
                let mut off = 0i64; let mut dynv = vec![]; let mut cur = bt; let mut first = true;
                while l.eat(',') {
                    if let Some(Tok::Meta) = l.peek() { break; }
                    let (it, o) = self.tyop(l);
                    let scale = if first { cur.size() as i64 } else { match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() as i64, _ => 0 } };
                    match (&cur, first) {
                        (Ty::Struct(..), false) => {
                            let i = match &o { Op::K(v) => cval(v) as usize, _ => panic!("dynamic struct index") };
                            off += cur.field_offset(i) as i64; cur = cur.field_ty(i);
                        }
                        _ => {
                            match &o { Op::K(v) => off = off.wrapping_add(sext(cval(v), it.width()).wrapping_mul(scale)), _ => dynv.push((o, it.width(), scale)) }
                            if !first { cur = cur.field_ty(0); }
                        }
                    }
                    first = false;
                }
                K::Gep(b, off, dynv)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                let c = match opw { "zext" => Cast::Zext, "sext" => Cast::Sext, "trunc" => Cast::Trunc, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr,
                    "bitcast" | "addrspacecast" => Cast::Bitcast, "sitofp" => Cast::SiToFp, "uitofp" => Cast::UiToFp, "fptosi" => Cast::FpToSi, "fptoui" => Cast::FpToUi, "fpext" => Cast::FpExt, _ => Cast::FpTrunc };
                self.flags(l);
                let t = self.m.parse_ty(l); let a = self.op(l, &t); let w = l.word(); assert!(w == "to"); let to = self.m.parse_ty(l);
                K::Cast(c, t, to, a)
            }
            "call" | "invoke" => {
                // [cc] [ret attrs] type callee(args)
                loop {
                    match l.peek() {
                        Some(Tok::Word(w)) => { if word_is_type(w) { break; } let w = w.clone(); l.next(); if w == "align" { l.next(); } else if l.is_p('(') { l.skip_parens(); } }
                        Some(Tok::P(_)) | Some(Tok::Local(_)) => break,
                        Some(Tok::Attr) => { l.next(); }
                        _ => break,
                    }
                }
                let rt = self.m.parse_ty(l);
                // optional function type
                if l.is_p('(') { l.skip_parens(); }
                if l.is_w("asm") {
                    // inline assembly: only barriers are understood, and a comment that hands back its operand
                    if line.contains("0:q}*/\", \"=&r,0,") || line.contains("0:k}*/\", \"=&r,0,") {
                        while !l.is_p('(') { if l.next().is_none() { return K::Unsupported(line.to_string()); } }
                        l.expect('(');
                        let (_, o) = self.tyop(l);
                        return K::Copy(o);
                    }
                    return if line.contains("asm sideeffect \"\"") || rt == Ty::Void { K::Nop } else { K::Unsupported(line.to_string()) };
                }
                let callee = match l.next() {
                    Some(Tok::Global(n)) => {
                        let n = self.m.aliases.get(&n).cloned().unwrap_or(n);
                        match self.m.fn_by_name.get(&n) { Some(&f) => Callee::Fn(f), None => return K::Unsupported(format!("call of unknown @{}", n)) }
                    }
                    Some(Tok::Local(n)) => Callee::Ind(Op::R(self.reg(&n))),
                    Some(Tok::Word(w)) if w == "null" || w == "undef" || w == "poison" => Callee::Ind(Op::K(Val::C(0))),
                    t => return K::Unsupported(format!("callee {:?} in {}", t, line)),
                };
                l.expect('(');
                let mut args = vec![];
                if !l.eat(')') {
                    loop { let (_, o) = self.tyop(l); args.push(o); if l.eat(')') { break; } l.expect(','); }
                }
                let mut inv = None;
                if opw == "invoke" {
                    while !l.is_w("to") { if l.next().is_none() { break; } }
                    l.next();
                    let a = self.block(l); let w = l.word(); assert!(w == "unwind"); let b = self.block(l);
                    inv = Some((a, b));
                }
                K::Call(callee, args, rt, inv)
            }
            "ret" => { let t = self.m.parse_ty(l); if t == Ty::Void { K::Ret(None) } else { let o = self.op(l, &t); K::Ret(Some(o)) } }
            "br" => {
                if l.is_w("label") { return K::Br(self.block(l)); }
                let (_, c) = self.tyop(l); l.expect(','); let a = self.block(l); l.expect(','); let b = self.block(l);
                K::CondBr(c, a, b)
            }
            "switch" => {
                let (t, c) = self.tyop(l); l.expect(','); let d = self.block(l); l.expect('[');
                let mut v = vec![];
                while !l.eat(']') { let t2 = self.m.parse_ty(l); let k = self.m.parse_const(l, &t2); l.expect(','); let b = self.block(l); v.push((cval(&k), b)); }
                K::Switch(c, t.width(), d, v)
            }
            "unreachable" => K::Unreachable,
            "extractvalue" => { let (_, a) = self.tyop(l); let mut ix = vec![]; while l.eat(',') { if let Some(Tok::Meta) = l.peek() { break; } ix.push(l.num() as u32); } K::ExtractValue(a, ix) }
            "insertvalue" => { let (t, a) = self.tyop(l); l.expect(','); let (_, v) = self.tyop(l); let mut ix = vec![]; while l.eat(',') { if let Some(Tok::Meta) = l.peek() { break; } ix.push(l.num() as u32); } K::InsertValue(a, v, ix, t) }
            "extractelement" => { let (_, a) = self.tyop(l); l.expect(','); let (_, i) = self.tyop(l); K::ExtractElem(a, i) }
            "insertelement" => { let (t, a) = self.tyop(l); l.expect(','); let (_, v) = self.tyop(l); l.expect(','); let (_, i) = self.tyop(l);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 }; K::InsertElem(a, v, i, n) }
            "shufflevector" => { let (t, a) = self.tyop(l); l.expect(','); let (_, b) = self.tyop(l); l.expect(','); let (mt, mv) = self.tyop(l);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                let mn = if let Ty::Vec(n, _) = mt { n } else { 0 };
                let ix = match mv { Op::K(Val::Agg(v)) => v.iter().map(|x| match x { Val::C(k) => *k as i32, _ => -1 }).collect(), _ => vec![-1; mn as usize] };
                K::Shuffle(a, b, n, ix) }
            "freeze" => { let (_, a) = self.tyop(l); K::Copy(a) }
            "fence" => K::Nop,
            "atomicrmw" => { l.eat_w("volatile"); let o = l.word(); let (_, p) = self.tyop(l); l.expect(','); let (t, v) = self.tyop(l); K::Rmw(o, t, p, v) }
            "cmpxchg" => { l.eat_w("weak"); l.eat_w("volatile"); let (_, p) = self.tyop(l); l.expect(','); let (t, c) = self.tyop(l); l.expect(','); let (_, n) = self.tyop(l); K::CmpXchg(t, p, c, n) }
            "landingpad" => K::LandingPad,
            "resume" => K::Resume,
            _ => K::Unsupported(line.to_string()),
        }
    }
    fn flags_gep(&mut self, l: &mut Lex) {
        while let Some(Tok::Word(w)) = l.peek() { if word_is_type(w) { break; } l.next(); if l.is_p('(') { l.skip_parens(); } }
    }
}
