//! Parser for the textual LLVM IR that rustc emits after fat LTO.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}
fn align_up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 / 8).max(1).next_power_of_two(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => panic!("bits of {:?}", self) }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => align_up((*n as u64 * t.bits() as u64 + 7) / 8, self.align()),
            Ty::Struct(..) => { let (_, s) = self.layout(); s }
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, packed) = self {
            let mut off = 0;
            let mut v = vec![];
            for t in f.iter() {
                if !*packed { off = align_up(off, t.align()); }
                v.push(off);
                off += t.size();
            }
            if !*packed { off = align_up(off, self.align()); }
            (v, off)
        } else { panic!("layout of {:?}", self) }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, _) => (self.layout().0[i as usize], f[i as usize].clone()),
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    G(String),      // @name
    L(String),      // %name
    W(String),      // word
    I(i128),        // integer
    F(String),      // float literal text
    S(Vec<u8>),     // "..."
    C(Vec<u8>),     // c"..."
    M,              // !...
    H,              // #n
    P(char),        // punctuation
    Dots,
}

fn unq(b: &[u8], i: &mut usize) -> Vec<u8> {
    // at opening quote
    *i += 1;
    let mut o = vec![];
    while b[*i] != b'"' {
        if b[*i] == b'\\' {
            if b[*i + 1] == b'\\' { o.push(b'\\'); *i += 2; continue; }
            let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            *i += 3;
        } else { o.push(b[*i]); *i += 1; }
    }
    *i += 1;
    o
}
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'@' | b'%' => {
                i += 1;
                let n = if b[i] == b'"' { String::from_utf8_lossy(&unq(b, &mut i)).into_owned() } else {
                    let st = i;
                    while i < b.len() && idch(b[i]) { i += 1; }
                    s[st..i].to_string()
                };
                o.push(if c == b'@' { Tok::G(n) } else { Tok::L(n) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && idch(b[i]) { i += 1; }
                o.push(Tok::M);
            }
            b'#' => { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1; } o.push(Tok::H); }
            b'"' => o.push(Tok::S(unq(b, &mut i))),
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { i += 1; o.push(Tok::C(unq(b, &mut i))); }
            b'.' if s[i..].starts_with("...") => { i += 3; o.push(Tok::Dots); }
            b'0'..=b'9' | b'-' if c != b'-' || (i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || (b[i] == b'+' && b[i - 1] == b'e') || (b[i] == b'-' && b[i - 1] == b'e')) { i += 1; }
                let t = &s[st..i];
                if let Ok(v) = t.parse::<i128>() { o.push(Tok::I(v)); }
                else if let Ok(v) = t.parse::<u128>() { o.push(Tok::I(v as i128)); }
                else { o.push(Tok::F(t.to_string())); }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = i;
                while i < b.len() && idch(b[i]) { i += 1; }
                o.push(Tok::W(s[st..i].to_string()));
            }
            _ => { o.push(Tok::P(c as char)); i += 1; }
        }
    }
    o
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Zero,
    Undef,
    Global(String, i64),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Expr(Box<CE>),
}
#[derive(Clone, Debug)]
pub enum CE {
    Gep(Ty, Cst, Vec<i128>),
    Bin(String, Ty, Cst, Cst),
    Cast(String, Ty, Ty, Cst),
}

/// Run-time value: concrete bits, symbolic expression, or aggregate/vector.
#[derive(Clone, Debug)]
pub enum V { C(u128), E(crate::expr::Ex), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Ty, Cst), V(V) }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, ty: Ty, a: Opd, b: Opd },
    ICmp { pred: Pred, ty: Ty, a: Opd, b: Opd },
    Select { cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd },
    Cast { op: CastOp, from: Ty, to: Ty, a: Opd },
    Load { ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { p: Opd, off: i64, idx: Vec<(Opd, u16, u64)> },
    Alloca { size: u64, n: Option<(Ty, Opd)> },
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue { a: Opd, idx: Vec<u32> },
    InsertValue { aty: Ty, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElement { a: Opd, i: Opd },
    InsertElement { a: Opd, v: Opd, i: Opd, n: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, m: Vec<Option<u32>> },
    AtomicRmw { op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { ty: Ty, p: Opd, c: Opd, n: Opd },
    Nop,
    Copy(Opd),
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast }
#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Ind(Opd), Asm, Fn(u32), Bi(crate::exec::Bi) }

#[derive(Debug)]
pub struct Inst { pub dst: Option<u32>, pub ins: Ins, pub line: u32, pub dbg: u32 }
#[derive(Debug)]
pub struct Phi { pub dst: u32, pub ty: Ty, pub inc: Vec<(u32, Opd)> }
#[derive(Debug)]
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<Inst> }
#[derive(Debug)]
pub struct Func { pub name: String, pub demangled: String, pub nregs: u32, pub params: Vec<u32>, pub ret: Ty, pub blocks: Vec<Block> }

pub struct FnSrc { pub demangled: String, pub first: usize, pub last: usize }
pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Cst>, pub constant: bool }

pub struct Module {
    pub lines: Vec<String>,
    pub fns: HashMap<String, FnSrc>,
    pub decls: HashMap<String, ()>,
    pub globals: Vec<Global>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

pub struct Ps<'a> { t: Vec<Tok>, i: usize, types: &'a HashMap<String, Ty>, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nregs: u32 }

impl<'a> Ps<'a> {
    fn new(t: Vec<Tok>, types: &'a HashMap<String, Ty>) -> Self { Ps { t, i: 0, types, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 } }
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> Tok { let t = self.t[self.i].clone(); self.i += 1; t }
    fn isp(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if x == w) }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn expp(&mut self, c: char) { if !self.eatp(c) { panic!("expected {} at {:?} in {:?}", c, self.i, self.t) } }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::L(_)) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => { if self.eatw("addrspace") { self.balanced(); } Ty::Ptr }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" | "x86_fp80" => Ty::Float(128),
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
            },
            Tok::P('[') => {
                let n = self.int(); self.eatw("x"); let t = self.ty(); self.expp(']');
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::P('{') => { let f = self.tys('}'); Ty::Struct(Rc::new(f), false) }
            Tok::P('<') => {
                if self.eatp('{') { let f = self.tys('}'); self.expp('>'); return Ty::Struct(Rc::new(f), true); }
                let n = self.int(); self.eatw("x"); let t = self.ty(); self.expp('>');
                Ty::Vec(n as u32, Rc::new(t))
            }
            Tok::L(n) => self.types.get(&n).cloned().unwrap_or_else(|| panic!("type %{}", n)),
            t => panic!("type expected, got {:?} in {:?}", t, self.t),
        }
    }
    fn tys(&mut self, close: char) -> Vec<Ty> {
        let mut v = vec![];
        while !self.eatp(close) { v.push(self.ty()); self.eatp(','); }
        v
    }
    fn int(&mut self) -> i128 { match self.next() { Tok::I(v) => v, t => panic!("int expected, got {:?}", t) } }
    /// skip a balanced (...) group
    fn balanced(&mut self) {
        self.expp('(');
        let mut d = 1;
        while d > 0 { match self.next() { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, _ => {} } }
    }
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "splat" | "blockaddress" | "dso_local_equivalent" | "asm") { return; }
                    if self.is_type() { return; }
                    let al = w == "align";
                    self.i += 1;
                    if self.isp('(') { self.balanced(); } else if al { self.i += 1; }
                }
                Some(Tok::S(_)) | Some(Tok::H) => { self.i += 1; }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if let Some(Tok::L(n)) = self.peek() { let n = n.clone(); self.i += 1; return Opd::R(self.reg(&n)); }
        Opd::K(ty.clone(), self.cst(ty))
    }
    fn tyopd(&mut self) -> (Ty, Opd) { let t = self.ty(); self.attrs(); let o = self.opd(&t); (t, o) }
    fn tycst(&mut self) -> (Ty, Cst) { let t = self.ty(); let c = self.cst(&t); (t, c) }
    fn cst(&mut self, ty: &Ty) -> Cst {
        match self.next() {
            Tok::I(v) => { let w = match ty { Ty::Int(w) => *w, _ => 128 }; Cst::Int((v as u128) & crate::expr::mask(w)) }
            Tok::F(f) => {
                let bits = if let Some(h) = f.strip_prefix("0x") {
                    let d = u64::from_str_radix(h.trim_start_matches(|c: char| c == 'K' || c == 'L' || c == 'M' || c == 'H'), 16).unwrap_or(0);
                    if *ty == Ty::Float(32) { (f64::from_bits(d) as f32).to_bits() as u128 } else { d as u128 }
                } else { let d: f64 = f.parse().unwrap_or(0.0); if *ty == Ty::Float(32) { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 } };
                Cst::Int(bits)
            }
            Tok::G(n) => Cst::Global(n, 0),
            Tok::C(b) => Cst::Bytes(b),
            Tok::P('{') => { let v = self.csts('}'); Cst::Agg(v) }
            Tok::P('[') => { let v = self.csts(']'); Cst::Agg(v) }
            Tok::P('<') => {
                if self.eatp('{') { let v = self.csts('}'); self.expp('>'); Cst::Agg(v) }
                else { let v = self.csts('>'); Cst::Agg(v) }
            }
            Tok::W(w) => match w.as_str() {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" | "zeroinitializer" | "none" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "splat" => {
                    self.expp('('); let (t, c) = self.tycst(); self.expp(')');
                    let n = match ty { Ty::Vec(n, _) => *n, Ty::Arr(n, _) => *n as u32, _ => panic!("splat") };
                    Cst::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::W(_))) { self.i += 1; if self.isp('(') && self.t.get(self.i - 1).map_or(false, |t| matches!(t, Tok::W(w) if w == "inrange")) { self.balanced(); } }
                    self.expp('(');
                    let bt = self.ty(); self.expp(',');
                    let (_, b) = self.tycst();
                    let mut ix = vec![];
                    while self.eatp(',') { let _ = self.ty(); ix.push(self.int()); }
                    self.expp(')');
                    Cst::Expr(Box::new(CE::Gep(bt, b, ix)))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                    self.expp('('); let (t, c) = self.tycst(); self.eatw("to"); let t2 = self.ty(); self.expp(')');
                    Cst::Expr(Box::new(CE::Cast(w, t, t2, c)))
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), Some(Tok::W(_))) { self.i += 1; }
                    self.expp('('); let (t, a) = self.tycst(); self.expp(','); let (_, b) = self.tycst(); self.expp(')');
                    Cst::Expr(Box::new(CE::Bin(w, t, a, b)))
                }
                _ => panic!("constant {} in {:?}", w, self.t),
            },
            Tok::M => Cst::Zero,
            t => panic!("constant expected, got {:?} in {:?}", t, self.t),
        }
    }
    fn csts(&mut self, close: char) -> Vec<(Ty, Cst)> {
        let mut v = vec![];
        while !self.eatp(close) { v.push(self.tycst()); self.eatp(','); }
        v
    }
    fn flags(&mut self) {
        while let Some(Tok::W(w)) = self.peek() {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "disjoint" | "nneg" | "volatile" | "atomic" | "samesign" | "weak" | "tail" | "musttail" | "notail"
                | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => { self.i += 1; }
                "inrange" => { self.i += 1; self.balanced(); }
                _ => return,
            }
        }
    }
    fn label(&mut self) -> u32 {
        self.eatw("label");
        match self.next() { Tok::L(n) => self.blk(&n), t => panic!("label expected {:?}", t) }
    }
    fn blk(&mut self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("block {}", n))
    }
    fn call(&mut self) -> (Callee, Vec<(Ty, Opd)>, Ty) {
        self.flags();
        // calling convention + return attributes
        loop {
            if self.is_type() { break; }
            match self.peek() {
                Some(Tok::W(_)) => { let al = self.isw("align"); self.i += 1; if self.isp('(') { self.balanced(); } else if al { self.i += 1; } }
                Some(Tok::I(_)) | Some(Tok::S(_)) => self.i += 1,
                _ => panic!("call {:?}", self.t),
            }
        }
        let ret = self.ty();
        if self.isp('(') { self.balanced(); }
        let callee = match self.next() {
            Tok::G(n) => Callee::Direct(n),
            Tok::L(n) => Callee::Ind(Opd::R(self.reg(&n))),
            Tok::W(w) if w == "asm" => {
                while !self.isp('(') { self.i += 1; }
                Callee::Asm
            }
            Tok::W(w) if w == "null" || w == "undef" || w == "poison" => Callee::Ind(Opd::K(Ty::Ptr, Cst::Zero)),
            t => panic!("callee {:?} in {:?}", t, self.t),
        };
        self.expp('(');
        let mut args = vec![];
        while !self.eatp(')') {
            let t = self.ty();
            if t == Ty::Meta {
                // metadata operand: skip to , or )
                let mut d = 0;
                loop {
                    match self.peek() { Some(Tok::P(',')) | Some(Tok::P(')')) if d == 0 => break, Some(Tok::P('(')) => d += 1, Some(Tok::P(')')) => d -= 1, _ => {} }
                    self.i += 1;
                }
                self.eatp(',');
                continue;
            }
            self.attrs();
            let o = self.opd(&t);
            args.push((t, o));
            self.eatp(',');
        }
        // function attributes and operand bundles
        while let Some(Tok::H) = self.peek() { self.i += 1; }
        if self.isp('[') {
            let mut d = 0;
            loop { match self.next() { Tok::P('[') => d += 1, Tok::P(']') => { d -= 1; if d == 0 { break; } } _ => {} } }
        }
        (callee, args, ret)
    }
}

fn binop(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor,
        "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, _ => return None,
    })
}

impl Ins {
    pub fn opds(&mut self, f: &mut dyn FnMut(&mut Opd)) {
        match self {
            Ins::Bin { a, b, .. } | Ins::ICmp { a, b, .. } | Ins::Shuffle { a, b, .. } => { f(a); f(b) }
            Ins::Select { c, a, b, .. } => { f(c); f(a); f(b) }
            Ins::Cast { a, .. } | Ins::ExtractValue { a, .. } | Ins::Copy(a) => f(a),
            Ins::Load { p, .. } => f(p),
            Ins::Store { v, p, .. } | Ins::AtomicRmw { p, v, .. } => { f(v); f(p) }
            Ins::Gep { p, idx, .. } => { f(p); for (o, _, _) in idx { f(o) } }
            Ins::Alloca { n, .. } => if let Some((_, o)) = n { f(o) },
            Ins::Call { callee, args, .. } => { if let Callee::Ind(o) = callee { f(o) } for (_, o) in args { f(o) } }
            Ins::CondBr(o, ..) | Ins::Switch(_, o, ..) => f(o),
            Ins::Ret(Some((_, o))) => f(o),
            Ins::InsertValue { a, v, .. } => { f(a); f(v) }
            Ins::ExtractElement { a, i } => { f(a); f(i) }
            Ins::InsertElement { a, v, i, .. } => { f(a); f(v); f(i) }
            Ins::CmpXchg { p, c, n, .. } => { f(p); f(c); f(n) }
            _ => {}
        }
    }
}

impl Module {
    pub fn parse(text: &str) -> Module {
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module { lines: vec![], fns: HashMap::new(), decls: HashMap::new(), globals: vec![], types: HashMap::new(), aliases: HashMap::new() };
        // named types first
        for l in &lines {
            if l.starts_with('%') {
                let t = lex(l);
                if let Tok::L(n) = &t[0] {
                    let mut p = Ps::new(t.clone(), &m.types);
                    p.i = 3; // %n = type
                    if p.isw("opaque") { continue; }
                    let ty = p.ty();
                    m.types.insert(n.clone(), ty);
                }
            }
        }
        let mut i = 0;
        let mut last_comment = String::new();
        while i < lines.len() {
            let l = &lines[i];
            if let Some(c) = l.strip_prefix("; ") { last_comment = c.to_string(); i += 1; continue; }
            if l.starts_with("define ") {
                let name = fn_name(l);
                let first = i;
                while lines[i] != "}" { i += 1; }
                m.fns.insert(name, FnSrc { demangled: std::mem::take(&mut last_comment), first, last: i });
            } else if l.starts_with("declare ") {
                m.decls.insert(fn_name(l), ());
            } else if l.starts_with('@') {
                let t = lex(l);
                let mut p = Ps::new(t, &m.types);
                let name = match p.next() { Tok::G(n) => n, _ => unreachable!() };
                p.expp('=');
                let mut ext = false;
                let mut kind = String::new();
                while let Some(Tok::W(w)) = p.peek() {
                    let w = w.clone();
                    if w == "global" || w == "constant" || w == "alias" { kind = w; p.i += 1; break; }
                    if w == "external" || w == "extern_weak" { ext = true; }
                    p.i += 1;
                    if p.isp('(') { p.balanced(); }
                }
                if kind == "alias" {
                    let _ = p.ty();
                    p.expp(',');
                    let (_, c) = p.tycst();
                    if let Cst::Global(n, _) = c { m.aliases.insert(name, n); }
                } else {
                    let ty = p.ty();
                    let init = if ext { None } else { Some(p.cst(&ty)) };
                    m.globals.push(Global { name, ty, init, constant: kind == "constant" });
                }
            }
            i += 1;
        }
        m.lines = lines;
        m
    }

    pub fn func(&self, name: &str) -> Option<Func> {
        let src = self.fns.get(name)?;
        let mut p = Ps::new(lex(&self.lines[src.first]), &self.types);
        // header
        p.i = 1;
        loop {
            if p.is_type() { break; }
            let al = p.isw("align");
            p.i += 1;
            if p.isp('(') { p.balanced(); } else if al { p.i += 1; }
        }
        let ret = p.ty();
        p.i += 1; // @name
        p.expp('(');
        let mut params = vec![];
        let mut numbered = 0;
        while !p.eatp(')') {
            if p.peek() == Some(&Tok::Dots) { p.i += 1; continue; }
            let _ = p.ty();
            p.attrs();
            match p.next() { Tok::L(n) => { if n.bytes().all(|c| c.is_ascii_digit()) { numbered += 1; } let r = p.reg(&n); params.push(r); } t => panic!("param {:?} in {}", t, name) }
            p.eatp(',');
        }
        // pass 1: blocks
        let body = &self.lines[src.first + 1..src.last];
        let mut labels = vec![];
        let mut entry_named = false;
        for (k, l) in body.iter().enumerate() {
            if let Some(n) = label_of(l) { if k == 0 { entry_named = true; } labels.push(n); }
        }
        if !entry_named { labels.insert(0, format!("{}", numbered)); }
        for (k, n) in labels.iter().enumerate() { p.blocks.insert(n.clone(), k as u32); }
        let mut blocks: Vec<Block> = vec![];
        if !entry_named { blocks.push(Block { phis: vec![], ins: vec![] }); }
        let mut k = 0;
        while k < body.len() {
            let l = &body[k];
            let lineno = (src.first + 1 + k + 1) as u32;
            k += 1;
            if l.is_empty() { continue; }
            if label_of(l).is_some() { blocks.push(Block { phis: vec![], ins: vec![] }); continue; }
            let tl = l.trim_start();
            if tl.starts_with(';') || tl.starts_with("#dbg") { continue; }
            let mut text = l.clone();
            // multi-line: switch, landingpad clauses, invoke
            if tl.starts_with("switch") && !l.contains(']') {
                while !body[k].trim_start().starts_with(']') { text.push(' '); text.push_str(&body[k]); k += 1; }
                text.push_str(" ]");
                k += 1;
            } else if tl.contains("invoke ") {
                if !text.contains(" unwind label ") { text.push(' '); text.push_str(&body[k]); k += 1; }
            } else if tl.contains("landingpad ") {
                while k < body.len() && { let t = body[k].trim_start(); t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter") } { k += 1; }
            }
            let dbg = text.rfind("!dbg !").and_then(|i| { let r = &text[i + 6..]; let e = r.bytes().take_while(|c| c.is_ascii_digit()).count(); r[..e].parse().ok() }).unwrap_or(0u32);
            p.t = lex(&text);
            p.i = 0;
            let dst = if let (Some(Tok::L(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) { p.i = 2; Some(p.reg(&n)) } else { None };
            let cur = blocks.last_mut().unwrap();
            let op = match p.next() { Tok::W(w) => w, t => panic!("opcode {:?}: {}", t, text) };
            if op == "phi" {
                p.flags();
                let ty = p.ty();
                let mut inc = vec![];
                loop {
                    p.expp('[');
                    let o = p.opd(&ty);
                    p.expp(',');
                    let b = p.label();
                    p.expp(']');
                    inc.push((b, o));
                    if !(p.isp(',') && p.t.get(p.i + 1) == Some(&Tok::P('['))) { break; }
                    p.i += 1;
                }
                cur.phis.push(Phi { dst: dst.unwrap(), ty, inc });
                continue;
            }
            let mut push_br: Option<u32> = None;
            let ins = match op.as_str() {
                _ if binop(&op).is_some() => {
                    p.flags();
                    let ty = p.ty();
                    let a = p.opd(&ty); p.expp(','); let b = p.opd(&ty);
                    Ins::Bin { op: binop(&op).unwrap(), ty, a, b }
                }
                "icmp" => {
                    p.flags();
                    let pr = match p.next() { Tok::W(w) => w, _ => panic!() };
                    let pred = match pr.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => panic!("pred {}", pr) };
                    let ty = p.ty();
                    let a = p.opd(&ty); p.expp(','); let b = p.opd(&ty);
                    Ins::ICmp { pred, ty, a, b }
                }
                "select" => {
                    p.flags();
                    let (cty, c) = p.tyopd(); p.expp(',');
                    let (ty, a) = p.tyopd(); p.expp(',');
                    let (_, b) = p.tyopd();
                    Ins::Select { cty, ty, c, a, b }
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                    p.flags();
                    let (from, a) = p.tyopd();
                    p.eatw("to");
                    let to = p.ty();
                    let op = match op.as_str() { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, _ => CastOp::Bitcast };
                    Ins::Cast { op, from, to, a }
                }
                "load" => {
                    p.flags();
                    let ty = p.ty(); p.expp(',');
                    let (_, a) = p.tyopd();
                    Ins::Load { ty, p: a }
                }
                "store" => {
                    p.flags();
                    let (ty, v) = p.tyopd(); p.expp(',');
                    let (_, a) = p.tyopd();
                    Ins::Store { ty, v, p: a }
                }
                "getelementptr" => {
                    p.flags();
                    let bt = p.ty(); p.expp(',');
                    let (pt, a) = p.tyopd();
                    if pt != Ty::Ptr { Ins::Unsupported("vector gep".into()) } else {
                        let mut off: i64 = 0;
                        let mut idx = vec![];
                        let mut cur_ty: Option<Ty> = None;
                        while p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::M)) {
                            p.i += 1;
                            let (it, o) = p.tyopd();
                            let stride_ty = match &cur_ty { None => bt.clone(), Some(t) => t.clone() };
                            match (&cur_ty, &o) {
                                (None, Opd::K(_, Cst::Int(v))) => { off += crate::expr::sext128(*v, it.bits()) as i64 * bt.size() as i64; }
                                (None, Opd::K(_, Cst::Zero)) => {}
                                (None, _) => idx.push((o.clone(), it.bits(), bt.size())),
                                (Some(t), Opd::K(_, Cst::Int(v))) => {
                                    if let Ty::Struct(..) = t { off += t.field(*v as u64).0 as i64; }
                                    else { let (es, _) = (t.field(0).1.size(), 0); off += crate::expr::sext128(*v, it.bits()) as i64 * es as i64; }
                                }
                                (Some(_), Opd::K(_, Cst::Zero)) => {}
                                (Some(t), _) => { let es = t.field(0).1.size(); idx.push((o.clone(), it.bits(), es)); }
                            }
                            cur_ty = Some(match &cur_ty {
                                None => stride_ty,
                                Some(t) => match (t, &o) {
                                    (Ty::Struct(..), Opd::K(_, Cst::Int(v))) => t.field(*v as u64).1,
                                    (Ty::Struct(..), _) => t.field(0).1,
                                    _ => t.field(0).1,
                                },
                            });
                        }
                        Ins::Gep { p: a, off, idx }
                    }
                }
                "alloca" => {
                    p.eatw("inalloca");
                    let ty = p.ty();
                    let mut n = None;
                    if p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::M)) && !matches!(p.t.get(p.i + 1), Some(Tok::W(w)) if w == "align" || w == "addrspace") {
                        p.i += 1;
                        n = Some(p.tyopd());
                    }
                    Ins::Alloca { size: ty.size(), n }
                }
                "call" | "tail" | "musttail" | "notail" => {
                    if op != "call" { p.eatw("call"); }
                    let (callee, args, ret) = p.call();
                    Ins::Call { callee, args, ret }
                }
                "invoke" => {
                    let (callee, args, ret) = p.call();
                    p.eatw("to");
                    push_br = Some(p.label());
                    Ins::Call { callee, args, ret }
                }
                "br" => {
                    if p.isw("label") { Ins::Br(p.label()) } else {
                        let (_, c) = p.tyopd(); p.expp(',');
                        let t = p.label(); p.expp(','); let f = p.label();
                        Ins::CondBr(c, t, f)
                    }
                }
                "switch" => {
                    let (ty, v) = p.tyopd(); p.expp(',');
                    let d = p.label();
                    p.expp('[');
                    let mut cases = vec![];
                    while !p.eatp(']') {
                        let t = p.ty();
                        let c = match p.cst(&t) { Cst::Int(v) => v, Cst::Zero => 0, c => panic!("switch {:?}", c) };
                        p.expp(',');
                        cases.push((c, p.label()));
                    }
                    Ins::Switch(ty, v, d, cases)
                }
                "ret" => {
                    if p.isw("void") { Ins::Ret(None) } else { Ins::Ret(Some(p.tyopd())) }
                }
                "unreachable" => Ins::Unreachable,
                "resume" => Ins::Unsupported("resume".into()),
                "landingpad" => Ins::Unsupported("landingpad".into()),
                "extractvalue" => {
                    let (_, a) = p.tyopd();
                    let mut idx = vec![];
                    while p.isp(',') && matches!(p.t.get(p.i + 1), Some(Tok::I(_))) { p.i += 1; idx.push(p.int() as u32); }
                    Ins::ExtractValue { a, idx }
                }
                "insertvalue" => {
                    let (aty, a) = p.tyopd(); p.expp(',');
                    let (_, v) = p.tyopd();
                    let mut idx = vec![];
                    while p.isp(',') && matches!(p.t.get(p.i + 1), Some(Tok::I(_))) { p.i += 1; idx.push(p.int() as u32); }
                    Ins::InsertValue { aty, a, v, idx }
                }
                "extractelement" => { let (_, a) = p.tyopd(); p.expp(','); let (_, i) = p.tyopd(); Ins::ExtractElement { a, i } }
                "insertelement" => {
                    let (t, a) = p.tyopd(); p.expp(','); let (_, v) = p.tyopd(); p.expp(','); let (_, i) = p.tyopd();
                    let n = if let Ty::Vec(n, _) = t { n } else { panic!() };
                    Ins::InsertElement { a, v, i, n }
                }
                "shufflevector" => {
                    let (t, a) = p.tyopd(); p.expp(','); let (_, b) = p.tyopd(); p.expp(',');
                    let n = if let Ty::Vec(n, _) = t { n } else { panic!() };
                    let mt = p.ty();
                    let mn = if let Ty::Vec(n, _) = mt { n } else { panic!() };
                    let c = p.cst(&mt);
                    let m = match c {
                        Cst::Agg(v) => v.iter().map(|(_, c)| match c { Cst::Int(v) => Some(*v as u32), Cst::Zero => Some(0), _ => None }).collect(),
                        Cst::Zero => vec![Some(0); mn as usize],
                        _ => vec![None; mn as usize],
                    };
                    Ins::Shuffle { a, b, n, m }
                }
                "atomicrmw" => {
                    p.flags();
                    let o = match p.next() { Tok::W(w) => w, _ => panic!() };
                    let (_, a) = p.tyopd(); p.expp(',');
                    let (ty, v) = p.tyopd();
                    Ins::AtomicRmw { op: o, ty, p: a, v }
                }
                "cmpxchg" => {
                    p.flags();
                    let (_, a) = p.tyopd(); p.expp(',');
                    let (ty, c) = p.tyopd(); p.expp(',');
                    let (_, n) = p.tyopd();
                    Ins::CmpXchg { ty, p: a, c, n }
                }
                "fence" => Ins::Nop,
                "freeze" => { let (_, a) = p.tyopd(); Ins::Copy(a) }
                _ => Ins::Unsupported(op.clone()),
            };
            cur.ins.push(Inst { dst, ins, line: lineno, dbg });
            if let Some(b) = push_br { cur.ins.push(Inst { dst: None, ins: Ins::Br(b), line: lineno, dbg: 0 }); }
        }
        Some(Func { name: name.to_string(), demangled: src.demangled.clone(), nregs: p.nregs, params, ret, blocks })
    }
}

fn label_of(l: &str) -> Option<String> {
    if l.starts_with(' ') || l.is_empty() || l.starts_with(';') { return None; }
    if l.starts_with('"') {
        let b = l.as_bytes();
        let mut i = 0;
        let s = String::from_utf8_lossy(&unq(b, &mut i)).into_owned();
        return Some(s);
    }
    let e = l.find(':')?;
    if l[..e].bytes().all(idch) { Some(l[..e].to_string()) } else { None }
}
fn fn_name(l: &str) -> String {
    let i = l.find('@').unwrap();
    let b = l.as_bytes();
    if b[i + 1] == b'"' { let mut j = i + 1; return String::from_utf8_lossy(&unq(b, &mut j)).into_owned(); }
    let mut j = i + 1;
    while idch(b[j]) { j += 1; }
    l[i + 1..j].to_string()
}
