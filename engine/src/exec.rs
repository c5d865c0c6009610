//! Path-forking symbolic executor over the LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bi {
    Nop, Ident, Memcpy, Memset, Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc,
    Memcmp, Bcmp, Strlen, Syscall, Errno,
    Ovf(BinOp, bool), Sat(BinOp, bool), MinMax(bool, bool), Cmp3(bool), Ctlz, Cttz, Ctpop, Fshl, Fshr, Abs, Bswap, Bitrev, FalseC, Trap,
    Panic, AllocError,
    Nd, NdBytes, Assume, Assert, Reach, ExpectPanic, Observe, Crc, Pick, Known, Surely, Stop,
    Unsupported(u32),
}

#[derive(Clone)]
pub struct Obj { pub size: u64, pub bytes: Vec<u8>, pub sym: BTreeMap<u32, Ex>, pub ro: bool }

#[derive(Clone)]
pub struct Frame { f: Rc<Func>, fid: u32, bb: u32, ip: u32, regs: Vec<V>, allocas: Vec<u32>, ret_to: Option<u32> }

pub struct Model { m: HashMap<u32, u128>, memo: RefCell<HashMap<Ex, u128>> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pc: Vec<Ex>,
    bounds: Rc<crate::expr::Bounds>,
    model: Rc<Model>,
    nds: Vec<Ex>,
    nrand: u32,
    crcs: Rc<Vec<(Rc<Vec<V>>, Ex)>>,
    obs: Vec<Ex>,
    expect_panic: bool,
    reached: Vec<Rc<str>>,
    steps: u64,
    errno: Option<u64>,
}

#[derive(Clone)]
pub struct Viol { pub kind: String, pub msg: String, pub loc: String, pub nd: Vec<(u16, u128)>, pub stack: Vec<String> }

enum End { Ok, Pruned, Panicked, Err(String) }
enum Ctl { Next, Jump, End(End), Retry }
type R<T> = Result<T, Ctl>;

pub struct Limits { pub steps_per_path: u64, pub total_steps: u64, pub wall_s: f64, pub max_paths: u64, /// seconds the exploration goes on after the first (unlisted) violation
    pub grace_s: f64 }

pub struct Engine {
    first_viol: Option<f64>,
    pub p: Pool,
    pub s: Solver,
    m: Module,
    fn_addr: HashMap<String, u64>,
    fn_names: Vec<String>,
    funcs: HashMap<u32, Rc<Func>>,
    fn_idx: HashMap<String, u32>,
    gaddr: HashMap<String, u64>,
    unsup: Vec<String>,
    base: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub covered: HashSet<u32>,
    pub entered: HashSet<u32>,
    pub lim: Limits,
    pub steps: u64,
    pub forks: u64,
    pub paths_ok: u64,
    pub paths_pruned: u64,
    pub paths_panic: u64,
    pub viols: Vec<Viol>,
    pub inconclusive: Vec<String>,
    pub reach: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(u16, u128)>, Vec<u64>)>,
    pub sample_skipped: u64,
    pub sample_every: u64,
    pub max_samples: usize,
    pub asserts_checked: u64,
    pub asserts_symbolic: u64,
    pub by_range: u64,
    pub prof: Option<HashMap<String, (u64, f64)>>,
    pub fix: HashMap<usize, u128>,
    viol_seen: HashMap<String, u32>,
    /// assertions whose message starts with one of these belong to another property
    pub skip: Vec<String>,
    sample_sigs: HashSet<u64>,
    t0: std::time::Instant,
}

const FN_BASE: u64 = 0x7f00_0000_0000_0000;

fn oid(addr: u64) -> usize { ((addr >> 32) as usize).wrapping_sub(1) }
fn obase(id: u32) -> u64 { ((id as u64) + 1) << 32 }

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for &x in b {
        c ^= x as u32;
        for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 }; }
    }
    !c
}

fn builtin(name: &str, unsup: &mut Vec<String>) -> Bi {
    if let Some(n) = name.strip_prefix("llvm.") {
        let n0 = n.split('.').next().unwrap();
        if n.contains(".with.overflow.") {
            let op = match &n0[1..] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
            return Bi::Ovf(op, n0.starts_with('s'));
        }
        if n.contains(".sat.") { return Bi::Sat(if &n0[1..] == "add" { BinOp::Add } else { BinOp::Sub }, n0.starts_with('s')); }
        return match n0 {
            "memcpy" | "memmove" => Bi::Memcpy,
            "memset" => Bi::Memset,
            "umin" => Bi::MinMax(false, false), "umax" => Bi::MinMax(false, true),
            "smin" => Bi::MinMax(true, false), "smax" => Bi::MinMax(true, true),
            "ucmp" => Bi::Cmp3(false), "scmp" => Bi::Cmp3(true),
            "ctlz" => Bi::Ctlz, "cttz" => Bi::Cttz, "ctpop" => Bi::Ctpop, "fshl" => Bi::Fshl, "fshr" => Bi::Fshr,
            "abs" => Bi::Abs, "bswap" => Bi::Bswap, "bitreverse" => Bi::Bitrev,
            "lifetime" | "assume" | "dbg" | "donothing" | "prefetch" | "sideeffect" | "invariant" | "x86" | "var" => Bi::Nop,
            "experimental" if n.contains("noalias.scope.decl") => Bi::Nop,
            "expect" | "threadlocal" | "launder" | "strip" | "ssa" => Bi::Ident,
            "is" => Bi::FalseC,
            "trap" | "debugtrap" | "ubsantrap" => Bi::Trap,
            _ => { unsup.push(name.into()); Bi::Unsupported(unsup.len() as u32 - 1) }
        };
    }
    match name {
        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign, "aligned_alloc" => Bi::AlignedAlloc,
        "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset, "memcmp" => Bi::Memcmp, "bcmp" => Bi::Bcmp, "strlen" => Bi::Strlen,
        "syscall" => Bi::Syscall, "__errno_location" => Bi::Errno, "abort" => Bi::Trap,
        "rs_nd" => Bi::Nd, "rs_nd_bytes" => Bi::NdBytes, "rs_assume" => Bi::Assume, "rs_assert" => Bi::Assert, "rs_reach" => Bi::Reach,
        "rs_expect_panic" => Bi::ExpectPanic, "rs_observe" => Bi::Observe, "rs_crc" => Bi::Crc, "rs_pick" => Bi::Pick, "rs_known" => Bi::Known, "rs_surely" => Bi::Surely, "rs_stop" => Bi::Stop,
        _ => { unsup.push(name.into()); Bi::Unsupported(unsup.len() as u32 - 1) }
    }
}
/// defined functions that are replaced by built-ins
fn intercept(name: &str) -> Option<Bi> {
    if name.contains("4core9panicking") || name.contains("3std9panicking") { return Some(Bi::Panic); }
    if name.contains("18handle_alloc_error") || name.contains("rust_oom") { return Some(Bi::AllocError); }
    match name { "memcpy" | "memmove" => Some(Bi::Memcpy), "memset" => Some(Bi::Memset), "memcmp" => Some(Bi::Memcmp), "bcmp" => Some(Bi::Bcmp), _ => None }
}

impl Engine {
    pub fn new(m: Module, s: Solver, lim: Limits) -> Engine {
        let mut e = Engine {
            p: Pool::new(), s, m, fn_addr: HashMap::new(), fn_names: vec![], funcs: HashMap::new(), fn_idx: HashMap::new(), gaddr: HashMap::new(), unsup: vec![],
            base: vec![], work: vec![], covered: HashSet::new(), entered: HashSet::new(), lim, steps: 0, forks: 0, paths_ok: 0, paths_pruned: 0, paths_panic: 0,
            viols: vec![], inconclusive: vec![], reach: BTreeMap::new(), samples: vec![], sample_skipped: 0, sample_every: 1, max_samples: 200, asserts_checked: 0, asserts_symbolic: 0, by_range: 0, prof: std::env::var("RSYM_PROF").ok().map(|_| HashMap::new()),
            fix: HashMap::new(), first_viol: None, viol_seen: HashMap::new(), skip: vec![], sample_sigs: HashSet::new(), t0: std::time::Instant::now(),
        };
        let mut names: Vec<String> = e.m.fns.keys().chain(e.m.decls.keys()).cloned().collect();
        names.sort();
        for (i, n) in names.iter().enumerate() {
            e.fn_addr.insert(n.clone(), FN_BASE + 16 * i as u64);
            e.fn_idx.insert(n.clone(), i as u32);
        }
        e.fn_names = names;
        for i in 0..e.m.globals.len() {
            let g = &e.m.globals[i];
            let sz = g.ty.size();
            let a = obase(e.base.len() as u32);
            e.gaddr.insert(g.name.clone(), a);
            e.base.push(Some(Rc::new(Obj { size: sz, bytes: vec![0; sz as usize], sym: BTreeMap::new(), ro: g.constant })));
        }
        let als: Vec<(String, String)> = e.m.aliases.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for (a, b) in als {
            if let Some(&x) = e.gaddr.get(&b) { e.gaddr.insert(a, x); }
            else if let Some(&x) = e.fn_addr.get(&b) { let i = e.fn_idx[&b]; e.fn_addr.insert(a.clone(), x); e.fn_idx.insert(a, i); }
        }
        for i in 0..e.m.globals.len() {
            let g = &e.m.globals[i];
            if let Some(init) = &g.init {
                let mut buf = vec![0u8; g.ty.size() as usize];
                e.emit(&g.ty, init, &mut buf, 0);
                let ro = g.constant;
                let sz = g.ty.size();
                e.base[i] = Some(Rc::new(Obj { size: sz, bytes: buf, sym: BTreeMap::new(), ro }));
            }
        }
        e
    }
    fn emit(&self, ty: &Ty, c: &Cst, buf: &mut [u8], off: usize) {
        match c {
            Cst::Zero | Cst::Undef => {}
            Cst::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            Cst::Agg(v) => for (i, (t, x)) in v.iter().enumerate() { let (o, _) = ty.field(i as u64); self.emit(t, x, buf, off + o as usize); },
            _ => {
                let v = self.cval(c, ty);
                let n = ty.size().min(16) as usize;
                for i in 0..n { buf[off + i] = (v >> (8 * i)) as u8; }
            }
        }
    }
    fn cval(&self, c: &Cst, ty: &Ty) -> u128 {
        match c {
            Cst::Int(v) => *v,
            Cst::Zero | Cst::Undef => 0,
            Cst::Global(n, o) => {
                let a = self.gaddr.get(n).or_else(|| self.fn_addr.get(n)).copied().unwrap_or(0);
                (a as i64 + o) as u64 as u128
            }
            Cst::Expr(e) => match &**e {
                CE::Gep(t, b, ix) => {
                    let mut a = self.cval(b, &Ty::Ptr) as u64 as i64;
                    let mut cur = t.clone();
                    for (k, i) in ix.iter().enumerate() {
                        if k == 0 { a += *i as i64 * t.size() as i64; }
                        else if let Ty::Struct(..) = cur { let (o, t2) = cur.field(*i as u64); a += o as i64; cur = t2; }
                        else { let (_, t2) = cur.field(0); a += *i as i64 * t2.size() as i64; cur = t2; }
                    }
                    a as u64 as u128
                }
                CE::Cast(op, _f, t, c) => { let v = self.cval(c, t); let w = t.bits(); let _ = op; v & mask(w) }
                CE::Bin(op, t, a, b) => {
                    let (x, y) = (self.cval(a, t), self.cval(b, t));
                    (match op.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), _ => x ^ y }) & mask(t.bits())
                }
            },
            Cst::Bytes(_) | Cst::Agg(_) => panic!("aggregate constant as scalar {:?}", ty),
        }
    }
    fn cv(&self, c: &Cst, ty: &Ty) -> V {
        match ty {
            Ty::Struct(f, _) => match c {
                Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, x)| self.cv(x, t)).collect())),
                _ => V::A(Rc::new(f.iter().map(|t| self.cv(&Cst::Zero, t)).collect())),
            },
            Ty::Arr(n, t) => match c {
                Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, x)| self.cv(x, t)).collect())),
                Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
                _ => V::A(Rc::new((0..*n).map(|_| self.cv(&Cst::Zero, t)).collect())),
            },
            Ty::Vec(n, t) => match c {
                Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, x)| self.cv(x, t)).collect())),
                _ => V::A(Rc::new((0..*n).map(|_| self.cv(&Cst::Zero, t)).collect())),
            },
            Ty::Void | Ty::Label | Ty::Meta => V::C(0),
            _ => V::C(self.cval(c, ty)),
        }
    }
    fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(&id) { return Some(f.clone()); }
        let name = self.fn_names[id as usize].clone();
        let mut f = self.m.func(&name)?;
        for b in f.blocks.iter_mut() {
            for ph in b.phis.iter_mut() { for (_, o) in ph.inc.iter_mut() { if let Opd::K(t, c) = o { *o = Opd::V(self.cv(c, t)); } } }
            for i in b.ins.iter_mut() {
                i.ins.opds(&mut |o| if let Opd::K(t, c) = o { *o = Opd::V(self.cv(c, t)); });
                if let Ins::Call { callee, .. } = &mut i.ins {
                    if let Callee::Direct(n) = callee { *callee = self.target(&n.clone()); }
                }
            }
        }
        let f = Rc::new(f);
        self.funcs.insert(id, f.clone());
        Some(f)
    }
    fn target(&mut self, n: &str) -> Callee {
        if let Some(b) = intercept(n) { return Callee::Bi(b); }
        let n2 = self.m.aliases.get(n).cloned().unwrap_or(n.to_string());
        if self.m.fns.contains_key(&n2) { return Callee::Fn(self.fn_idx[&n2]); }
        Callee::Bi(builtin(&n2, &mut self.unsup))
    }

    // ---------- values ----------
    fn lift(&mut self, v: &V, w: u16) -> Ex { match v { V::C(c) => self.p.c(*c, w), V::E(e) => *e, V::A(_) => panic!("lift aggregate") } }
    fn low(&self, e: Ex) -> V { match self.p.cv(e) { Some(c) => V::C(c), None => V::E(e) } }
    fn bin(&mut self, op: BinOp, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                BinOp::UDiv if y != 0 => x / y, BinOp::URem if y != 0 => x % y,
                BinOp::SDiv if y != 0 => sext128(x, w).wrapping_div(sext128(y, w)) as u128,
                BinOp::SRem if y != 0 => sext128(x, w).wrapping_rem(sext128(y, w)) as u128,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => 0,
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u128 { 0 } else { x << y },
                BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
                BinOp::AShr => (sext128(x, w) >> y.min(w as u128 - 1)) as u128,
            };
            return V::C(r & mask(w));
        }
        let (x, y) = (self.lift(a, w), self.lift(b, w));
        let e = match op {
            BinOp::Add => self.p.add(x, y), BinOp::Sub => self.p.sub(x, y), BinOp::Mul => self.p.mul(x, y),
            BinOp::UDiv => self.p.udiv(x, y), BinOp::URem => self.p.urem(x, y), BinOp::SDiv => self.p.sdiv(x, y), BinOp::SRem => self.p.srem(x, y),
            BinOp::And => self.p.and(x, y), BinOp::Or => self.p.or(x, y), BinOp::Xor => self.p.xor(x, y),
            BinOp::Shl => self.p.shl(x, y), BinOp::LShr => self.p.lshr(x, y), BinOp::AShr => self.p.ashr(x, y),
        };
        self.low(e)
    }
    fn icmp(&mut self, pr: Pred, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let r = match pr {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy,
            };
            return V::C(r as u128);
        }
        let (x, y) = (self.lift(a, w), self.lift(b, w));
        let p = &mut self.p;
        let e = match pr {
            Pred::Eq => p.eq(x, y), Pred::Ne => { let t = p.eq(x, y); p.not1(t) }
            Pred::Ult => p.ult(x, y), Pred::Ule => p.ule(x, y), Pred::Ugt => p.ult(y, x), Pred::Uge => p.ule(y, x),
            Pred::Slt => p.slt(x, y), Pred::Sle => p.sle(x, y), Pred::Sgt => p.slt(y, x), Pred::Sge => p.sle(y, x),
        };
        self.low(e)
    }
    fn ite(&mut self, c: Ex, ty: &Ty, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let v = (0..x.len()).map(|i| { let t = ty.field(i as u64).1; self.ite(c, &t, &x[i], &y[i]) }).collect();
                V::A(Rc::new(v))
            }
            _ => { let w = ty.bits(); let (x, y) = (self.lift(a, w), self.lift(b, w)); let e = self.p.ite(c, x, y); self.low(e) }
        }
    }

    // ---------- solver glue ----------
    fn slice(&mut self, st: &State, c: Ex) -> Vec<Ex> {
        let mut vars: HashSet<u32> = self.p.vset(c).iter().copied().collect();
        let mut inn = vec![false; st.pc.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, &k) in st.pc.iter().enumerate() {
                if inn[i] { continue; }
                let vs = self.p.vset(k);
                if vs.iter().any(|v| vars.contains(v)) { inn[i] = true; ch = true; vars.extend(vs.iter()); out.push(k); }
            }
            if !ch { break; }
        }
        out
    }
    fn eval(&self, st: &State, e: Ex) -> u128 { let mut m = st.model.memo.borrow_mut(); self.p.eval(e, &st.model.m, &mut m) }
    /// Is pc /\ c satisfiable? Some(model) if so.
    fn feasible(&mut self, st: &State, c: Ex) -> Result<Option<Rc<Model>>, ()> {
        if let Some(v) = self.p.cv(c) { return Ok(if v != 0 { Some(st.model.clone()) } else { None }); }
        if self.eval(st, c) == 1 { return Ok(Some(st.model.clone())); }
        let r = st.bounds.range(&self.p, c);
        if r.1 == 0 { self.by_range += 1; return Ok(None); }
        let q = self.slice(st, c);
        let (q0, t0) = (self.s.queries, self.s.time);
        let r = self.s.check(&mut self.p, q);
        if self.prof.is_some() && self.s.queries > q0 {
            let k = self.stack(st).into_iter().take(2).collect::<Vec<_>>().join(" < ");
            let dt = self.s.time - t0;
            let x = self.prof.as_mut().unwrap().entry(k).or_insert((0, 0.0));
            x.0 += 1; x.1 += dt;
        }
        match r {
            Res::Sat(m) => {
                let mut mm = st.model.m.clone();
                mm.extend(m);
                Ok(Some(Rc::new(Model { m: mm, memo: RefCell::new(HashMap::new()) })))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(()),
        }
    }
    fn add_pc(&mut self, st: &mut State, c: Ex) {
        if self.p.cv(c).is_some() { return; }
        // split conjunctions for better slicing
        if let K::And(a, b) = self.p.k(c) { self.add_pc(st, a); self.add_pc(st, b); return; }
        if !st.pc.contains(&c) { st.pc.push(c); Rc::make_mut(&mut st.bounds).learn(&self.p, c, true); }
    }
    /// settle a condition by interval facts of the path
    fn decide(&self, st: &State, c: V) -> V {
        if let V::E(e) = &c { if self.p.w(*e) == 1 { let r = st.bounds.range(&self.p, *e); if r.0 == r.1 { return V::C(r.0); } } }
        c
    }
    fn incon(&mut self, m: String) { if self.inconclusive.len() < 20 { self.inconclusive.push(m); } }

    /// Pick the model's value for `e`; other values are explored by re-executing the instruction.
    fn concretize(&mut self, st: &mut State, snap: &State, e: Ex) -> u128 {
        if let Some(v) = self.p.cv(e) { return v; }
        let v = self.eval(st, e);
        let k = self.p.c(v, self.p.w(e));
        let eq = self.p.eq(e, k);
        let ne = self.p.not1(eq);
        match self.feasible(st, ne) {
            Ok(Some(m)) => {
                let mut o = snap.clone();
                o.pc = st.pc.clone();
                o.bounds = st.bounds.clone();
                o.model = m;
                self.add_pc(&mut o, ne);
                self.forks += 1;
                self.work.push(o);
            }
            Ok(None) => {}
            Err(()) => self.incon("solver gave no answer on a concretisation".into()),
        }
        self.add_pc(st, eq);
        v
    }
    fn conc(&mut self, st: &mut State, snap: &State, v: &V) -> u128 {
        match v { V::C(c) => *c, V::E(e) => { let r = self.concretize(st, snap, *e); let e = *e;
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            for x in fr.regs.iter_mut() { if let V::E(y) = x { if *y == e { *x = V::C(r); } } }
            r }, V::A(_) => panic!("conc aggregate") }
    }

    // ---------- memory ----------
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Some(Rc::new(Obj { size, bytes: vec![0; size as usize], sym: BTreeMap::new(), ro: false }));
        if let Some(i) = st.free.pop() { st.objs[i as usize] = o; obase(i) } else { st.objs.push(o); obase(st.objs.len() as u32 - 1) }
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) -> bool {
        let i = oid(addr);
        if addr & 0xffff_ffff != 0 || i >= st.objs.len() || st.objs[i].is_none() { return false; }
        st.objs[i] = None;
        st.free.push(i as u32);
        true
    }
    fn inb(&self, st: &State, a: u64, n: u64) -> bool {
        let i = oid(a);
        i < st.objs.len() && st.objs[i].as_ref().map_or(false, |o| (a & 0xffff_ffff) + n <= o.size)
    }
    fn oob(&mut self, st: &State, a: u64, n: u64, what: &str) -> Ctl {
        self.violation(st, "memory", &format!("invalid {} of {} bytes at {:#x}", what, n, a), None);
        Ctl::End(End::Err("memory".into()))
    }
    fn read_byte(&self, o: &Obj, off: u32) -> V { if let Some(e) = o.sym.get(&off) { V::E(*e) } else { V::C(o.bytes[off as usize] as u128) } }
    fn read_n(&mut self, st: &State, a: u64, n: u64) -> V {
        let o = st.objs[oid(a)].clone().unwrap();
        let off = (a & 0xffff_ffff) as u32;
        if o.sym.is_empty() || o.sym.range(off..off + n as u32).next().is_none() {
            let mut v = 0u128;
            for i in 0..n as usize { v |= (o.bytes[off as usize + i] as u128) << (8 * i); }
            return V::C(v);
        }
        let mut acc: Option<Ex> = None;
        for i in 0..n as u32 {
            let b = match o.sym.get(&(off + i)) { Some(e) => *e, None => self.p.c(o.bytes[(off + i) as usize] as u128, 8) };
            acc = Some(match acc { None => b, Some(l) => self.p.concat(b, l) });
        }
        self.low(acc.unwrap())
    }
    fn write_n(&mut self, st: &mut State, a: u64, n: u64, v: &V) {
        let off = (a & 0xffff_ffff) as u32;
        let i = oid(a);
        match v {
            V::C(c) => {
                let o = Rc::make_mut(st.objs[i].as_mut().unwrap());
                for k in 0..n as usize { o.bytes[off as usize + k] = (*c >> (8 * k)) as u8; }
                if !o.sym.is_empty() { for k in 0..n as u32 { o.sym.remove(&(off + k)); } }
            }
            V::E(e) => {
                let w = self.p.w(*e);
                let e = if (w as u64) < n * 8 { self.p.zext(*e, (n * 8) as u16) } else { *e };
                let bs: Vec<Ex> = (0..n as u16).map(|k| self.p.extract(e, 8 * k, 8)).collect();
                let o = Rc::make_mut(st.objs[i].as_mut().unwrap());
                for (k, b) in bs.into_iter().enumerate() {
                    let k = off + k as u32;
                    match self.p.cv(b) { Some(c) => { o.bytes[k as usize] = c as u8; o.sym.remove(&k); } None => { o.sym.insert(k, b); } }
                }
            }
            V::A(_) => panic!("write aggregate"),
        }
    }
    fn leaves(&self, e: Ex, cap: usize) -> Option<Vec<u128>> {
        let w = self.p.w(e);
        let mut r: Vec<u128> = match self.p.k(e) {
            K::Const(v) => vec![v],
            K::Ite(_, a, b) => { let mut x = self.leaves(a, cap)?; x.extend(self.leaves(b, cap)?); x }
            K::ZExt(a) => self.leaves(a, cap)?,
            K::SExt(a) => { let aw = self.p.w(a); self.leaves(a, cap)?.into_iter().map(|v| (sext128(v, aw) as u128) & mask(w)).collect() }
            K::Add(a, b) | K::Sub(a, b) => {
                let (x, y) = (self.leaves(a, cap)?, self.leaves(b, cap)?);
                if x.len() * y.len() > cap { return None; }
                let sub = matches!(self.p.k(e), K::Sub(..));
                let mut o = vec![];
                for i in &x { for j in &y { o.push(if sub { i.wrapping_sub(*j) } else { i.wrapping_add(*j) } & mask(w)); } }
                o
            }
            K::Concat(h, l) => {
                let (x, y) = (self.leaves(h, cap)?, self.leaves(l, cap)?);
                if x.len() * y.len() > cap { return None; }
                let lw = self.p.w(l);
                let mut o = vec![];
                for i in &x { for j in &y { o.push((i << lw) | j); } }
                o
            }
            K::And(a, b) | K::Xor(a, b) | K::Or(a, b) if self.leaves(a, cap).is_some() && self.leaves(b, cap).is_some() => {
                let (x, y) = (self.leaves(a, cap)?, self.leaves(b, cap)?);
                if x.len() * y.len() > cap { return None; }
                let mut o = vec![];
                for i in &x { for j in &y { o.push(match self.p.k(e) { K::And(..) => i & j, K::Or(..) => i | j, _ => i ^ j }); } }
                o
            }
            _ if w <= 2 => (0..1u128 << w).collect(),
            _ => return None,
        };
        r.sort_unstable();
        r.dedup();
        if r.len() > cap { return None; }
        Some(r)
    }
    fn low_zeros(&self, e: Ex) -> u32 {
        match self.p.k(e) {
            K::Const(0) => 64,
            K::Const(v) => v.trailing_zeros(),
            K::Concat(h, l) => if self.p.cv(l) == Some(0) { self.p.w(l) as u32 + self.low_zeros(h).min(0) } else { self.low_zeros(l).min(self.p.w(l) as u32) },
            K::Add(a, b) | K::Sub(a, b) => self.low_zeros(a).min(self.low_zeros(b)),
            K::ZExt(a) => self.low_zeros(a),
            K::Ite(_, a, b) => self.low_zeros(a).min(self.low_zeros(b)),
            _ => 0,
        }
    }
    /// Candidate addresses for a symbolic pointer; exact: the pointer equals one of them on this path.
    fn targets(&mut self, st: &mut State, snap: &State, e: Ex, n: u64) -> R<Vec<u64>> {
        if let Some(l) = self.leaves(e, 64) {
            let mut ok = vec![];
            let mut bad: Option<Ex> = None;
            for v in l {
                let a = v as u64;
                if self.inb(st, a, n) { ok.push(a); } else {
                    let k = self.p.c(v, 64);
                    let q = self.p.eq(e, k);
                    bad = Some(match bad { None => q, Some(b) => self.p.or(b, q) });
                }
            }
            if let Some(b) = bad {
                match self.feasible(st, b) {
                    Ok(None) => {}
                    Ok(Some(m)) => { st.model = m; let a = self.eval(st, e) as u64; return Err(self.oob(st, a, n, "access")); }
                    Err(()) => self.incon("solver gave no answer on an address".into()),
                }
            }
            return Ok(ok);
        }
        // one object, symbolic offset
        let mv = self.eval(st, e) as u64;
        if !self.inb(st, mv, n) { return Err(self.oob(st, mv, n, "access")); }
        let id = oid(mv);
        let sz = st.objs[id].as_ref().unwrap().size;
        let base = obase(id as u32);
        let kb = self.p.c(base as u128, 64);
        let off = self.p.sub(e, kb);
        let lim = self.p.c((sz - n) as u128, 64);
        let inr = self.p.ule(off, lim);
        let ninr = self.p.not1(inr);
        match self.feasible(st, ninr) {
            Ok(Some(m)) => {
                let mut o = snap.clone();
                o.pc = st.pc.clone();
                o.bounds = st.bounds.clone();
                o.model = m;
                self.add_pc(&mut o, ninr);
                self.forks += 1;
                self.work.push(o);
                self.add_pc(st, inr);
            }
            Ok(None) => {}
            Err(()) => self.incon("solver gave no answer on an address".into()),
        }
        let step = 1u64 << self.low_zeros(off).min(12);
        if (sz - n) / step > 4096 {
            let v = self.concretize(st, snap, e) as u64;
            return Ok(vec![v]);
        }
        Ok((0..=(sz - n) / step).map(|i| base + i * step).collect())
    }
    fn load_scalar(&mut self, st: &mut State, snap: &State, p: &V, n: u64) -> R<V> {
        match p {
            V::C(a) => {
                let a = *a as u64;
                if !self.inb(st, a, n) { return Err(self.oob(st, a, n, "read")); }
                Ok(self.read_n(st, a, n))
            }
            V::E(e) => {
                let e = *e;
                let ts = self.targets(st, snap, e, n)?;
                let mut acc: Option<Ex> = None;
                // group equal neighbours
                let vals: Vec<V> = ts.iter().map(|&a| self.read_n(st, a, n)).collect();
                let w = (n * 8) as u16;
                let mut i = ts.len();
                let contiguous = ts.len() > 64 || ts.windows(2).all(|x| x[1] > x[0]) && ts.len() > 8;
                while i > 0 {
                    let mut j = i - 1;
                    let v = self.lift(&vals[j], w);
                    if contiguous { while j > 0 && self.lift(&vals[j - 1], w) == v { j -= 1; } }
                    // entries j..i have value v
                    acc = Some(match acc {
                        None => v,
                        Some(x) => {
                            let c = if i - j == 1 { let k = self.p.c(ts[j] as u128, 64); self.p.eq(e, k) }
                            else { let k = self.p.c(ts[i] as u128, 64); self.p.ult(e, k) };
                            // for the range case, lower ranges are tested first
                            self.p.ite(c, v, x)
                        }
                    });
                    i = j;
                }
                Ok(self.low(acc.unwrap()))
            }
            V::A(_) => panic!("load through aggregate"),
        }
    }
    fn load(&mut self, st: &mut State, snap: &State, ty: &Ty, p: &V) -> R<V> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = match ty { Ty::Struct(f, _) => f.len() as u64, Ty::Arr(n, _) => *n, Ty::Vec(n, _) => *n as u64, _ => 0 };
                if let Ty::Vec(_, t) = ty { if t.bits() % 8 != 0 {
                    let w = ty.size() * 8;
                    let v = self.load_scalar(st, snap, p, ty.size())?;
                    let mut o = vec![];
                    for i in 0..n { let x = self.lift(&v, w as u16); let e = self.p.extract(x, (i * t.bits() as u64) as u16, t.bits()); o.push(self.low(e)); }
                    return Ok(V::A(Rc::new(o)));
                } }
                let mut o = vec![];
                for i in 0..n {
                    let (off, t) = ty.field(i);
                    let q = self.bin(BinOp::Add, 64, p, &V::C(off as u128));
                    o.push(self.load(st, snap, &t, &q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => {
                let w = ty.bits();
                let n = (w as u64 + 7) / 8;
                let v = self.load_scalar(st, snap, p, n)?;
                if n * 8 != w as u64 {
                    return Ok(match v { V::C(c) => V::C(c & mask(w)), V::E(e) => { let x = self.p.trunc(e, w); self.low(x) } _ => unreachable!() });
                }
                Ok(v)
            }
        }
    }
    fn store(&mut self, st: &mut State, snap: &State, ty: &Ty, p: &V, v: &V) -> R<()> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let V::A(x) = v {
                    if let Ty::Vec(_, t) = ty { if t.bits() % 8 != 0 { return Err(Ctl::End(End::Err("store of bit vector".into()))); } }
                    for (i, y) in x.iter().enumerate() {
                        let (off, t) = ty.field(i as u64);
                        let q = self.bin(BinOp::Add, 64, p, &V::C(off as u128));
                        self.store(st, snap, &t, &q, y)?;
                    }
                }
                Ok(())
            }
            _ => {
                let n = (ty.bits() as u64 + 7) / 8;
                match p {
                    V::C(a) => {
                        let a = *a as u64;
                        if !self.inb(st, a, n) { return Err(self.oob(st, a, n, "write")); }
                        if st.objs[oid(a)].as_ref().unwrap().ro { return Err(self.oob(st, a, n, "write to constant")); }
                        self.write_n(st, a, n, v);
                    }
                    V::E(e) => {
                        let e = *e;
                        let ts = self.targets(st, snap, e, n)?;
                        let w = (n * 8) as u16;
                        for a in ts {
                            let old = self.read_n(st, a, n);
                            let k = self.p.c(a as u128, 64);
                            let c = self.p.eq(e, k);
                            if self.p.cv(c) == Some(0) { continue; }
                            let mut nv = self.lift(v, ty.bits());
                            if self.p.w(nv) < w { nv = self.p.zext(nv, w); }
                            let ov = self.lift(&old, w);
                            let r = self.p.ite(c, nv, ov);
                            let r = self.low(r);
                            self.write_n(st, a, n, &r);
                        }
                    }
                    V::A(_) => panic!(),
                }
                Ok(())
            }
        }
    }
    fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> Vec<V> {
        let o = st.objs[oid(a)].clone().unwrap();
        let off = (a & 0xffff_ffff) as u32;
        (0..n as u32).map(|i| self.read_byte(&o, off + i)).collect()
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        if !self.inb(st, s, n) { return Err(self.oob(st, s, n, "copy source")); }
        if !self.inb(st, d, n) { return Err(self.oob(st, d, n, "copy destination")); }
        let so = st.objs[oid(s)].clone().unwrap();
        let (sf, df) = ((s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize);
        let n = n as usize;
        let dst = Rc::make_mut(st.objs[oid(d)].as_mut().unwrap());
        if dst.ro { return Err(self.oob(st, d, n as u64, "copy to constant")); }
        dst.bytes[df..df + n].copy_from_slice(&so.bytes[sf..sf + n]);
        if !dst.sym.is_empty() {
            let ks: Vec<u32> = dst.sym.range(df as u32..(df + n) as u32).map(|(k, _)| *k).collect();
            for k in ks { dst.sym.remove(&k); }
        }
        for (k, e) in so.sym.range(sf as u32..(sf + n) as u32) { dst.sym.insert(*k - sf as u32 + df as u32, *e); }
        Ok(())
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> String {
        if !self.inb(st, a, n) { return "?".into(); }
        let o = st.objs[oid(a)].as_ref().unwrap();
        let off = (a & 0xffff_ffff) as usize;
        String::from_utf8_lossy(&o.bytes[off..off + n as usize]).into_owned()
    }

    // ---------- reporting ----------
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| format!("{} (ir line {})", f.f.name, f.f.blocks[f.bb as usize].ins.get(f.ip as usize).map_or(0, |i| i.line))).collect()
    }
    /// Find a model of pc (+ extra) in which every modelled checksum has its real CRC-32 value.
    fn realize(&mut self, st: &State, extra: Option<Ex>) -> Option<Rc<Model>> {
        let mut t = st.clone();
        if let Some(x) = extra {
            match self.feasible(&t, x) { Ok(Some(m)) => t.model = m, _ => return None }
            self.add_pc(&mut t, x);
        }
        for _ in 0..6 {
            let mut pins: Vec<Ex> = vec![];
            for (content, cv) in t.crcs.clone().iter() {
                if self.p.cv(*cv).is_some() { continue; }
                let bytes: Vec<u8> = content.iter().map(|v| match v { V::C(c) => *c as u8, V::E(e) => self.eval(&t, *e) as u8, _ => 0 }).collect();
                let real = crc32(&bytes);
                if self.eval(&t, *cv) as u32 == real { continue; }
                for v in content.iter() { if let V::E(e) = v { let val = self.eval(&t, *e); let k = self.p.c(val, 8); let q = self.p.eq(*e, k); pins.push(q); } }
                let k = self.p.c(real as u128, 32);
                let q = self.p.eq(*cv, k);
                pins.push(q);
                break;
            }
            if pins.is_empty() { return Some(t.model.clone()); }
            let mut all = pins[0];
            for q in &pins[1..] { all = self.p.and(all, *q); }
            match self.feasible(&t, all) {
                Ok(Some(m)) => { t.model = m; for q in pins { self.add_pc(&mut t, q); } }
                _ => return None,
            }
        }
        None
    }
    fn nd_values(&self, st: &State, m: &Rc<Model>) -> Vec<(u16, u128)> {
        let mut memo = m.memo.borrow_mut();
        st.nds.iter().map(|&e| (self.p.w(e), self.p.eval(e, &m.m, &mut memo))).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str, extra: Option<Ex>) {
        let key = format!("{}|{}", kind, msg);
        let n = self.viol_seen.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 { return; }
        let (m, note) = match self.realize(st, extra) {
            Some(m) => (Some(m), ""),
            None => match extra { Some(x) => match self.feasible(st, x) { Ok(Some(m)) => (Some(m), " [checksum values not realisable]"), _ => (None, "") }, None => (Some(st.model.clone()), " [checksum values not realisable]") },
        };
        let m = match m { Some(m) => m, None => { self.incon("no model for violation".into()); return; } };
        let nd = self.nd_values(st, &m);
        let stack = self.stack(st);
        if self.first_viol.is_none() && !msg.starts_with("kf:") { self.first_viol = Some(self.t0.elapsed().as_secs_f64()); }
        self.viols.push(Viol { kind: kind.into(), msg: msg.into(), loc: note.into(), nd, stack });
    }

    // ---------- running ----------
    pub fn run(&mut self, entry: &str, arg: u64) {
        let id = match self.fn_idx.get(entry) { Some(&i) if self.m.fns.contains_key(entry) => i, _ => { self.incon(format!("no entry point {}", entry)); return; } };
        let f = self.func(id).unwrap();
        let mut regs = vec![V::C(0); f.nregs as usize];
        if !f.params.is_empty() { regs[f.params[0] as usize] = V::C(arg as u128); }
        let fr = Frame { fid: id, bb: 0, ip: 0, regs, allocas: vec![], ret_to: None, f };
        let st = State {
            frames: vec![Rc::new(fr)], objs: self.base.clone(), free: vec![], pc: vec![], bounds: Rc::new(Default::default()), model: Rc::new(Model { m: HashMap::new(), memo: RefCell::new(HashMap::new()) }),
            nds: vec![], nrand: 0, crcs: Rc::new(vec![]), obs: vec![], expect_panic: false, reached: vec![], steps: 0, errno: None,
        };
        self.entered.insert(id);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.enough() { break; }
            if self.t0.elapsed().as_secs_f64() > self.lim.wall_s { self.incon(format!("time limit reached with {} states left", self.work.len() + 1)); break; }
            if self.steps > self.lim.total_steps { self.incon("step limit reached".into()); break; }
            if self.paths_ok + self.paths_pruned + self.paths_panic > self.lim.max_paths { self.incon("path limit reached".into()); break; }
            let r = self.run_state(&mut st);
            match r {
                End::Ok => { self.paths_ok += 1; self.finish(&st); }
                End::Panicked => { self.paths_panic += 1; self.finish(&st); }
                End::Pruned => self.paths_pruned += 1,
                End::Err(m) => if m != "memory" && m != "violation" { let s = self.stack(&st); self.incon(format!("{} at {:?}", m, &s[..s.len().min(6)])); },
            }
        }
    }
    /// a violation was found and the time to look for further ones is over
    fn enough(&self) -> bool { self.first_viol.map_or(false, |t| self.t0.elapsed().as_secs_f64() > t + self.lim.grace_s) }
    fn finish(&mut self, st: &State) {
        for l in &st.reached { *self.reach.entry(l.to_string()).or_insert(0) += 1; }
        if self.samples.len() >= self.max_samples { return; }
        // distinct by reached labels + number of observations, then every n-th path
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        st.reached.hash(&mut h);
        st.obs.len().hash(&mut h);
        let sig = h.finish();
        let n = self.paths_ok + self.paths_panic;
        if self.sample_sigs.insert(sig) || n % self.sample_every == 0 {
            match self.realize(st, None) {
                Some(m) => {
                    let nd = self.nd_values(st, &m);
                    let mut memo = m.memo.borrow_mut();
                    let obs = st.obs.iter().map(|&e| self.p.eval(e, &m.m, &mut memo) as u64).collect();
                    self.samples.push((nd, obs));
                }
                None => self.sample_skipped += 1,
            }
        }
    }
    fn run_state(&mut self, st: &mut State) -> End {
        let mut n = 0u64;
        loop {
            n += 1;
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.lim.steps_per_path { return End::Err("path step limit".into()); }
            if n % 65536 == 0 && self.enough() { return End::Pruned; }
            if n % 65536 == 0 && self.t0.elapsed().as_secs_f64() > self.lim.wall_s { return End::Err("time limit".into()); }
            match self.step(st) {
                Ok(Ctl::Next) => { let f = Rc::make_mut(st.frames.last_mut().unwrap()); f.ip += 1; }
                Ok(Ctl::Jump) => {}
                Ok(Ctl::Retry) => {}
                Ok(Ctl::End(e)) | Err(Ctl::End(e)) => return e,
                Err(_) => {}
            }
        }
    }
    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<V> = b.phis.iter().map(|ph| {
                let (_, o) = ph.inc.iter().find(|(x, _)| *x == from).unwrap_or_else(|| panic!("phi has no edge from {} in {}", from, f.name));
                match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::V(v) => v.clone(), _ => panic!() }
            }).collect();
            for (ph, v) in b.phis.iter().zip(vals) { fr.regs[ph.dst as usize] = v; }
        }
        fr.bb = to;
        fr.ip = 0;
    }
    fn set(&self, st: &mut State, d: Option<u32>, v: V) {
        if let Some(d) = d { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; }
    }
    fn elementwise(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u16, &V, &V) -> V) -> V {
        if let Ty::Vec(_, t) = ty {
            if let (V::A(x), V::A(y)) = (a, b) { return V::A(Rc::new((0..x.len()).map(|i| f(self, t.bits(), &x[i], &y[i])).collect())); }
            panic!("vector op on scalar");
        }
        f(self, ty.bits(), a, b)
    }
    fn cast1(&mut self, op: CastOp, fw: u16, tw: u16, a: &V) -> V {
        match a {
            V::C(c) => V::C(match op { CastOp::SExt => (sext128(*c, fw) as u128) & mask(tw), _ => *c & mask(tw) }),
            V::E(e) => {
                let x = match op {
                    CastOp::SExt => self.p.sext(*e, tw),
                    _ => if tw < fw { self.p.trunc(*e, tw) } else if tw > fw { self.p.zext(*e, tw) } else { *e },
                };
                self.low(x)
            }
            V::A(_) => panic!("cast aggregate"),
        }
    }
    fn step(&mut self, st: &mut State) -> R<Ctl> {
        let frc = st.frames.last().unwrap().clone();
        let f = frc.f.clone();
        drop(frc);
        let (bb, ip) = { let fr = st.frames.last().unwrap(); (fr.bb, fr.ip) };
        let inst = &f.blocks[bb as usize].ins[ip as usize];
        if inst.dbg != 0 { self.covered.insert(inst.dbg); }
        macro_rules! v { ($o:expr) => { match $o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::V(v) => v.clone(), Opd::K(..) => panic!("unresolved constant") } } }
        let dst = inst.dst;
        match &inst.ins {
            Ins::Bin { op, ty, a, b } => {
                let (a, b) = (v!(a), v!(b));
                let op = *op;
                let r = self.elementwise(ty, &a, &b, &mut |s, w, x, y| s.bin(op, w, x, y));
                self.set(st, dst, r);
            }
            Ins::ICmp { pred, ty, a, b } => {
                let (a, b) = (v!(a), v!(b));
                let pr = *pred;
                let r = self.elementwise(ty, &a, &b, &mut |s, w, x, y| s.icmp(pr, w, x, y));
                self.set(st, dst, r);
            }
            Ins::Select { cty, ty, c, a, b } => {
                let (c, a, b) = (v!(c), v!(a), v!(b));
                let c = self.decide(st, c);
                let r = match &c {
                    V::C(x) => if *x != 0 { a } else { b },
                    V::E(e) => self.ite(*e, ty, &a, &b),
                    V::A(cs) => {
                        let _ = cty;
                        let (x, y) = match (&a, &b) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => panic!() };
                        let t = ty.field(0).1;
                        V::A(Rc::new((0..cs.len()).map(|i| match &cs[i] { V::C(k) => if *k != 0 { x[i].clone() } else { y[i].clone() }, V::E(e) => self.ite(*e, &t, &x[i], &y[i]), _ => panic!() }).collect()))
                    }
                };
                self.set(st, dst, r);
            }
            Ins::Cast { op, from, to, a } => {
                let a = v!(a);
                let r = match (from, to) {
                    (Ty::Vec(_, x), Ty::Vec(_, y)) if *op != CastOp::Bitcast => {
                        let xs = match &a { V::A(v) => v.clone(), _ => panic!() };
                        V::A(Rc::new(xs.iter().map(|v| self.cast1(*op, x.bits(), y.bits(), v)).collect()))
                    }
                    (Ty::Vec(n, x), _) if *op == CastOp::Bitcast => {
                        // vector -> scalar (or vector)
                        let xs = match &a { V::A(v) => v.clone(), _ => panic!() };
                        let ew = x.bits();
                        if *n as u64 * ew as u64 > 128 { return Err(Ctl::End(End::Err("wide bitcast".into()))); }
                        let mut acc: Option<Ex> = None;
                        for v in xs.iter() { let l = self.lift(v, ew); acc = Some(match acc { None => l, Some(a) => self.p.concat(l, a) }); }
                        let e = acc.unwrap();
                        match to {
                            Ty::Vec(m, y) => { let yw = y.bits(); V::A(Rc::new((0..*m).map(|i| { let q = self.p.extract(e, i as u16 * yw, yw); self.low(q) }).collect())) }
                            _ => self.low(e),
                        }
                    }
                    (_, Ty::Vec(m, y)) if *op == CastOp::Bitcast => {
                        let e = self.lift(&a, from.bits());
                        let yw = y.bits();
                        V::A(Rc::new((0..*m).map(|i| { let q = self.p.extract(e, i as u16 * yw, yw); self.low(q) }).collect()))
                    }
                    _ => self.cast1(*op, from.bits(), to.bits(), &a),
                };
                self.set(st, dst, r);
            }
            Ins::Load { ty, p } => {
                let p = v!(p);
                if let V::C(_) = p {
                    let r = self.load_c(st, ty, &p)?;
                    self.set(st, dst, r);
                } else {
                    let snap = st.clone();
                    let r = self.load(st, &snap, ty, &p)?;
                    self.set(st, dst, r);
                }
            }
            Ins::Store { ty, v, p } => {
                let (x, p) = (v!(v), v!(p));
                let snap = if let V::C(_) = p { None } else { Some(st.clone()) };
                match snap {
                    None => { let dummy = self.dummy(); self.store(st, &dummy, ty, &p, &x)?; }
                    Some(s) => self.store(st, &s, ty, &p, &x)?,
                }
            }
            Ins::Gep { p, off, idx } => {
                let mut a = v!(p);
                for (o, w, sz) in idx {
                    let i = v!(o);
                    let i = if *w < 64 { self.cast1(CastOp::SExt, *w, 64, &i) } else { i };
                    let m = self.bin(BinOp::Mul, 64, &i, &V::C(*sz as u128));
                    a = self.bin(BinOp::Add, 64, &a, &m);
                }
                if *off != 0 { a = self.bin(BinOp::Add, 64, &a, &V::C(*off as u64 as u128)); }
                self.set(st, dst, a);
            }
            Ins::Alloca { size, n } => {
                let mut sz = *size;
                if let Some((_, o)) = n { let x = v!(o); if let V::C(c) = x { sz *= c as u64; } else { return Err(Ctl::End(End::Err("symbolic alloca".into()))); } }
                let a = self.alloc(st, sz);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(oid(a) as u32);
                self.set(st, dst, V::C(a as u128));
            }
            Ins::Call { callee, args, ret } => {
                let avs: Vec<V> = args.iter().map(|(_, o)| v!(o)).collect();
                let tgt = match callee {
                    Callee::Fn(i) => Ok(*i),
                    Callee::Bi(b) => Err(*b),
                    Callee::Asm => Err(Bi::Nop),
                    Callee::Ind(o) => {
                        let x = v!(o);
                        let a = match &x { V::C(c) => *c as u64, _ => { let snap = st.clone(); self.conc(st, &snap, &x) as u64 } };
                        if a < FN_BASE || (a - FN_BASE) / 16 >= self.fn_names.len() as u64 || a % 16 != 0 { return Err(self.oob(st, a, 0, "call")); }
                        let id = ((a - FN_BASE) / 16) as u32;
                        let n = self.fn_names[id as usize].clone();
                        match self.target(&n) { Callee::Fn(i) => Ok(i), Callee::Bi(b) => Err(b), _ => unreachable!() }
                    }
                    Callee::Direct(_) => unreachable!(),
                };
                match tgt {
                    Ok(id) => {
                        let g = self.func(id).unwrap();
                        if st.frames.len() > 400 { return Err(Ctl::End(End::Err("call depth".into()))); }
                        self.entered.insert(id);
                        let mut regs = vec![V::C(0); g.nregs as usize];
                        for (i, r) in g.params.iter().enumerate() { if i < avs.len() { regs[*r as usize] = avs[i].clone(); } }
                        { let fr = Rc::make_mut(st.frames.last_mut().unwrap()); fr.ip += 1; }
                        st.frames.push(Rc::new(Frame { fid: id, bb: 0, ip: 0, regs, allocas: vec![], ret_to: dst, f: g }));
                        return Ok(Ctl::Jump);
                    }
                    Err(b) => {
                        let at: Vec<Ty> = args.iter().map(|(t, _)| t.clone()).collect();
                        let r = self.builtin(st, b, &avs, &at, ret)?;
                        self.set(st, dst, r);
                    }
                }
            }
            Ins::Br(t) => { self.goto(st, *t); return Ok(Ctl::Jump); }
            Ins::CondBr(c, t, e) => {
                let x = v!(c);
                let x = self.decide(st, x);
                let (t, e) = (*t, *e);
                let b = match x {
                    V::C(c) => c != 0,
                    V::E(c) => {
                        // evaluate; queue the other side
                        let val = self.eval(st, c) == 1;
                        let (yes, no) = { let n = self.p.not1(c); if val { (c, n) } else { (n, c) } };
                        match self.feasible(st, no) {
                            Ok(Some(m)) => {
                                let mut o = st.clone();
                                o.model = m;
                                self.add_pc(&mut o, no);
                                self.goto(&mut o, if val { e } else { t });
                                self.forks += 1;
                                self.work.push(o);
                                self.add_pc(st, yes);
                            }
                            Ok(None) => {}
                            Err(()) => { self.incon("solver gave no answer on a branch".into()); self.add_pc(st, yes); }
                        }
                        val
                    }
                    V::A(_) => panic!(),
                };
                self.goto(st, if b { t } else { e });
                return Ok(Ctl::Jump);
            }
            Ins::Switch(ty, c, d, cases) => {
                let x = v!(c);
                let w = ty.bits();
                let to = match x {
                    V::C(v) => cases.iter().find(|(k, _)| *k == v).map_or(*d, |(_, b)| *b),
                    V::E(e) => {
                        // group by target block: one symbolic edge per distinct target
                        let mut by: Vec<(u32, Ex)> = vec![];
                        let mut dflt = self.p.c(1, 1);
                        for (k, b) in cases {
                            let kc = self.p.c(*k, w);
                            let q = self.p.eq(e, kc);
                            let n = self.p.not1(q);
                            dflt = self.p.and(dflt, n);
                            if let Some(x) = by.iter_mut().find(|(y, _)| y == b) { x.1 = self.p.or(x.1, q); } else { by.push((*b, q)); }
                        }
                        if let Some(x) = by.iter_mut().find(|(y, _)| y == d) { x.1 = self.p.or(x.1, dflt); } else { by.push((*d, dflt)); }
                        let mut taken = None;
                        let base = st.clone();
                        for (b, q) in by {
                            if taken.is_none() && self.eval(st, q) == 1 { taken = Some((b, q)); continue; }
                            match self.feasible(&base, q) {
                                Ok(Some(m)) => {
                                    let mut o = base.clone();
                                    o.model = m;
                                    self.add_pc(&mut o, q);
                                    self.goto(&mut o, b);
                                    self.forks += 1;
                                    self.work.push(o);
                                }
                                Ok(None) => {}
                                Err(()) => self.incon("solver gave no answer on a switch".into()),
                            }
                        }
                        let (b, q) = taken.expect("switch under model");
                        self.add_pc(st, q);
                        b
                    }
                    V::A(_) => panic!(),
                };
                self.goto(st, to);
                return Ok(Ctl::Jump);
            }
            Ins::Ret(o) => {
                let r = o.as_ref().map(|(_, o)| v!(o));
                let fr = st.frames.pop().unwrap();
                for &a in &fr.allocas { st.objs[a as usize] = None; st.free.push(a); }
                if st.frames.is_empty() { return Ok(Ctl::End(End::Ok)); }
                if let Some(v) = r { self.set(st, fr.ret_to, v); }
                return Ok(Ctl::Jump);
            }
            Ins::Unreachable => {
                self.violation(st, "unreachable", "unreachable code reached", None);
                return Ok(Ctl::End(End::Err("violation".into())));
            }
            Ins::ExtractValue { a, idx } => {
                let mut x = v!(a);
                for i in idx { x = match &x { V::A(v) => v[*i as usize].clone(), _ => panic!("extractvalue") }; }
                self.set(st, dst, x);
            }
            Ins::InsertValue { a, v, idx, .. } => {
                let (a, x) = (v!(a), v!(v));
                fn ins(a: &V, idx: &[u32], x: V) -> V {
                    if idx.is_empty() { return x; }
                    if let V::A(v) = a { let mut n = (**v).clone(); n[idx[0] as usize] = ins(&v[idx[0] as usize], &idx[1..], x); V::A(Rc::new(n)) } else { panic!("insertvalue") }
                }
                let r = ins(&a, idx, x);
                self.set(st, dst, r);
            }
            Ins::ExtractElement { a, i } => {
                let (a, i) = (v!(a), v!(i));
                let r = match (&a, &i) { (V::A(v), V::C(i)) => v[*i as usize].clone(), _ => return Err(Ctl::End(End::Err("symbolic extractelement".into()))) };
                self.set(st, dst, r);
            }
            Ins::InsertElement { a, v, i, .. } => {
                let (a, x, i) = (v!(a), v!(v), v!(i));
                let r = match (&a, &i) { (V::A(v), V::C(i)) => { let mut n = (**v).clone(); n[*i as usize] = x; V::A(Rc::new(n)) } _ => return Err(Ctl::End(End::Err("symbolic insertelement".into()))) };
                self.set(st, dst, r);
            }
            Ins::Shuffle { a, b, n, m } => {
                let (a, b) = (v!(a), v!(b));
                let (x, y) = match (&a, &b) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => panic!() };
                let n = *n as usize;
                let r = V::A(Rc::new(m.iter().map(|k| match k { Some(k) if (*k as usize) < n => x[*k as usize].clone(), Some(k) => y[*k as usize - n].clone(), None => V::C(0) }).collect()));
                self.set(st, dst, r);
            }
            Ins::AtomicRmw { op, ty, p, v } => {
                let (x, p) = (v!(v), v!(p));
                let snap = st.clone();
                let old = self.load(st, &snap, ty, &p)?;
                let w = ty.bits();
                let n = match op.as_str() {
                    "xchg" => x, "add" => self.bin(BinOp::Add, w, &old, &x), "sub" => self.bin(BinOp::Sub, w, &old, &x),
                    "and" => self.bin(BinOp::And, w, &old, &x), "or" => self.bin(BinOp::Or, w, &old, &x), "xor" => self.bin(BinOp::Xor, w, &old, &x),
                    _ => return Err(Ctl::End(End::Err(format!("atomicrmw {}", op)))),
                };
                self.store(st, &snap, ty, &p, &n)?;
                self.set(st, dst, old);
            }
            Ins::CmpXchg { ty, p, c, n } => {
                let (c, n, p) = (v!(c), v!(n), v!(p));
                let snap = st.clone();
                let old = self.load(st, &snap, ty, &p)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let nv = match &eq { V::C(1) => n, V::C(_) => old.clone(), V::E(e) => self.ite(*e, ty, &n, &old), _ => panic!() };
                self.store(st, &snap, ty, &p, &nv)?;
                self.set(st, dst, V::A(Rc::new(vec![old, eq])));
            }
            Ins::Nop => {}
            Ins::Copy(a) => { let x = v!(a); self.set(st, dst, x); }
            Ins::Unsupported(s) => return Err(Ctl::End(End::Err(format!("unsupported instruction {}", s)))),
        }
        Ok(Ctl::Next)
    }
    fn dummy(&self) -> State {
        State { frames: vec![], objs: vec![], free: vec![], pc: vec![], bounds: Rc::new(Default::default()), model: EMPTY.with(|m| m.clone()), nds: vec![], nrand: 0, crcs: NOCRC.with(|c| c.clone()), obs: vec![], expect_panic: false, reached: vec![], steps: 0, errno: None }
    }
    fn load_c(&mut self, st: &mut State, ty: &Ty, p: &V) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits();
                let n = (w as u64 + 7) / 8;
                let a = if let V::C(a) = p { *a as u64 } else { unreachable!() };
                if !self.inb(st, a, n) { return Err(self.oob(st, a, n, "read")); }
                let v = self.read_n(st, a, n);
                if n * 8 != w as u64 {
                    return Ok(match v { V::C(c) => V::C(c & mask(w)), V::E(e) => { let x = self.p.trunc(e, w); self.low(x) } _ => unreachable!() });
                }
                Ok(v)
            }
            _ => { let d = self.dummy(); self.load(st, &d, ty, p) }
        }
    }
    fn builtin(&mut self, st: &mut State, b: Bi, a: &[V], at: &[Ty], ret: &Ty) -> R<V> {
        // concretise pointer/length operands first (before any side effect)
        macro_rules! conc { ($i:expr) => { match &a[$i] { V::C(c) => *c as u64, x => { let x = x.clone(); let snap = st.clone(); self.conc(st, &snap, &x) as u64 } } } }
        let w = match ret { Ty::Int(w) => *w, _ => 64 };
        match b {
            Bi::Nop => {}
            Bi::Ident => return Ok(a[0].clone()),
            Bi::FalseC => return Ok(V::C(0)),
            Bi::Memcpy => {
                let n = conc!(2); let d = conc!(0); let s = conc!(1);
                self.copy(st, d, s, n)?;
                return Ok(V::C(d as u128));
            }
            Bi::Memset => {
                let n = conc!(2); let d = conc!(0);
                if n > 0 {
                    if !self.inb(st, d, n) { return Err(self.oob(st, d, n, "memset")); }
                    match &a[1] {
                        V::C(c) => {
                            let o = Rc::make_mut(st.objs[oid(d)].as_mut().unwrap());
                            let f = (d & 0xffff_ffff) as usize;
                            for x in &mut o.bytes[f..f + n as usize] { *x = *c as u8; }
                            if !o.sym.is_empty() { let ks: Vec<u32> = o.sym.range(f as u32..f as u32 + n as u32).map(|(k, _)| *k).collect(); for k in ks { o.sym.remove(&k); } }
                        }
                        V::E(e) => { let e = { let ww = self.p.w(*e); if ww > 8 { self.p.trunc(*e, 8) } else { *e } }; for i in 0..n { self.write_n(st, d + i, 1, &V::E(e)); } }
                        _ => panic!(),
                    }
                }
                return Ok(V::C(d as u128));
            }
            Bi::Malloc | Bi::Calloc | Bi::AlignedAlloc => {
                let n = match b { Bi::Malloc => conc!(0), Bi::AlignedAlloc => conc!(1), _ => { let x = conc!(0); let y = conc!(1); match x.checked_mul(y) { Some(v) => v, None => return Ok(V::C(0)) } } };
                if n > 1 << 36 { return Ok(V::C(0)); }
                if n > 1 << 27 { return Err(Ctl::End(End::Err(format!("allocation of {} bytes", n)))); }
                return Ok(V::C(self.alloc(st, n) as u128));
            }
            Bi::PosixMemalign => {
                let p = conc!(0); let n = conc!(2);
                if n > 1 << 27 { return Err(Ctl::End(End::Err(format!("allocation of {} bytes", n)))); }
                if !self.inb(st, p, 8) { return Err(self.oob(st, p, 8, "write")); }
                let x = self.alloc(st, n);
                self.write_n(st, p, 8, &V::C(x as u128));
                return Ok(V::C(0));
            }
            Bi::Realloc => {
                let p = conc!(0); let n = conc!(1);
                if n > 1 << 36 { return Ok(V::C(0)); }
                if n > 1 << 27 { return Err(Ctl::End(End::Err(format!("allocation of {} bytes", n)))); }
                if p == 0 { return Ok(V::C(self.alloc(st, n) as u128)); }
                if !self.inb(st, p, 0) { return Err(self.oob(st, p, 0, "realloc")); }
                let old = st.objs[oid(p)].as_ref().unwrap().size;
                let q = self.alloc(st, n);
                self.copy(st, q, p, old.min(n))?;
                self.dealloc(st, p);
                return Ok(V::C(q as u128));
            }
            Bi::Free => { let p = conc!(0); if p != 0 && !self.dealloc(st, p) { return Err(self.oob(st, p, 0, "free")); } }
            Bi::Memcmp | Bi::Bcmp => {
                let n = conc!(2); let x = conc!(0); let y = conc!(1);
                if n == 0 { return Ok(V::C(0)); }
                if !self.inb(st, x, n) { return Err(self.oob(st, x, n, "read")); }
                if !self.inb(st, y, n) { return Err(self.oob(st, y, n, "read")); }
                let xs = self.read_bytes(st, x, n);
                let ys = self.read_bytes(st, y, n);
                // last to first
                let mut acc = self.p.c(0, 32);
                if b == Bi::Bcmp {
                    let mut eq = self.p.c(1, 1);
                    for (p, q) in xs.iter().zip(&ys) {
                        let e = self.icmp(Pred::Eq, 8, p, q);
                        match e { V::C(1) => {} V::C(_) => return Ok(V::C(1)), V::E(e) => eq = self.p.and(eq, e), _ => {} }
                    }
                    let one = self.p.c(1, 32);
                    let r = self.p.ite(eq, acc, one);
                    return Ok(self.low(r));
                }
                for (p, q) in xs.iter().zip(&ys).rev() {
                    let (p, q) = (self.lift(p, 8), self.lift(q, 8));
                    let lt = self.p.ult(p, q);
                    let eq = self.p.eq(p, q);
                    let m1 = self.p.c(mask(32), 32);
                    let one = self.p.c(1, 32);
                    let ne = self.p.ite(lt, m1, one);
                    acc = self.p.ite(eq, acc, ne);
                }
                return Ok(self.low(acc));
            }
            Bi::Strlen => {
                let x = conc!(0);
                let mut n = 0;
                loop {
                    if !self.inb(st, x + n, 1) { return Err(self.oob(st, x + n, 1, "strlen")); }
                    match self.read_n(st, x + n, 1) { V::C(0) => break, V::C(_) => n += 1, _ => return Err(Ctl::End(End::Err("symbolic strlen".into()))) }
                }
                return Ok(V::C(n as u128));
            }
            Bi::Syscall => {
                let nr = conc!(0);
                if nr != 318 { return Err(Ctl::End(End::Err(format!("syscall {}", nr)))); }
                let p = conc!(1); let n = conc!(2);
                if n > 0 && !self.inb(st, p, n) { return Err(self.oob(st, p, n, "getrandom")); }
                let draw = st.nrand;
                for i in 0..n {
                    // draws differ from each other: the first bytes number them
                    if n >= 16 && i < 4 { st.nrand += 1; self.write_n(st, p + i, 1, &V::C([0x5e, 0xed, (draw >> 12) as u128 & 255, (draw >> 4) as u128 & 255][i as usize])); continue; }
                    let name = format!("rnd{}", st.nrand);
                    st.nrand += 1;
                    let e = self.p.var(&name, 8);
                    self.write_n(st, p + i, 1, &V::E(e));
                }
                return Ok(V::C(n as u128));
            }
            Bi::Errno => {
                if st.errno.is_none() { let x = self.alloc(st, 4); st.errno = Some(x); }
                return Ok(V::C(st.errno.unwrap() as u128));
            }
            Bi::Ovf(op, signed) => {
                let w = at[0].bits();
                let r = self.bin(op, w, &a[0], &a[1]);
                let o = if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    if w > 64 && (signed || op == BinOp::Mul && x.checked_mul(y).is_none()) { return Err(Ctl::End(End::Err("128-bit overflow op".into()))); }
                    let ov = if signed {
                        let (sx, sy) = (sext128(x, w), sext128(y, w));
                        let t = match op { BinOp::Add => sx + sy, BinOp::Sub => sx - sy, _ => sx * sy };
                        t != sext128(t as u128 & mask(w), w)
                    } else {
                        match op { BinOp::Add => x.checked_add(y).map_or(true, |t| t > mask(w)), BinOp::Sub => x < y, _ => x * y > mask(w) }
                    };
                    V::C(ov as u128)
                } else {
                    let (x, y) = (self.lift(&a[0], w), self.lift(&a[1], w));
                    let rr = self.lift(&r, w);
                    let e = match (op, signed) {
                        (BinOp::Add, false) => self.p.ult(rr, x),
                        (BinOp::Sub, false) => self.p.ult(x, y),
                        (BinOp::Mul, false) if self.p.sig_bits(x) + self.p.sig_bits(y) <= w => self.p.c(0, 1),
                        _ => {
                            let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
                            if ww > 128 { return Err(Ctl::End(End::Err("wide overflow op".into()))); }
                            let (bx, by) = if signed { (self.p.sext(x, ww), self.p.sext(y, ww)) } else { (self.p.zext(x, ww), self.p.zext(y, ww)) };
                            let t = match op { BinOp::Add => self.p.add(bx, by), BinOp::Sub => self.p.sub(bx, by), _ => self.p.mul(bx, by) };
                            if signed { let br = self.p.sext(rr, ww); let q = self.p.eq(t, br); self.p.not1(q) }
                            else { let hi = self.p.extract(t, w, w); let z = self.p.c(0, w); let q = self.p.eq(hi, z); self.p.not1(q) }
                        }
                    };
                    self.low(e)
                };
                return Ok(V::A(Rc::new(vec![r, o])));
            }
            Bi::Sat(op, signed) => {
                if signed { return Err(Ctl::End(End::Err("signed saturating op".into()))); }
                let mut f = |s: &mut Self, w: u16, x: &V, y: &V| {
                    let r = s.bin(op, w, x, y);
                    let c = if op == BinOp::Add { s.icmp(Pred::Ult, w, &r, x) } else { s.icmp(Pred::Ult, w, x, y) };
                    let lim = V::C(if op == BinOp::Add { mask(w) } else { 0 });
                    match s.decide(st, c) { V::C(0) => r, V::C(_) => lim, V::E(e) => s.ite(e, &Ty::Int(w), &lim, &r), _ => panic!() }
                };
                return Ok(self.elementwise(&at[0], &a[0], &a[1], &mut f));
            }
            Bi::MinMax(signed, max) => {
                let mut f = |s: &mut Self, w: u16, x: &V, y: &V| {
                    let c = s.icmp(if signed { Pred::Slt } else { Pred::Ult }, w, x, y);
                    let (lo, hi) = (x, y);
                    match s.decide(st, c) {
                        V::C(0) => if max { lo.clone() } else { hi.clone() },
                        V::C(_) => if max { hi.clone() } else { lo.clone() },
                        V::E(e) => if max { s.ite(e, &Ty::Int(w), hi, lo) } else { s.ite(e, &Ty::Int(w), lo, hi) },
                        _ => panic!(),
                    }
                };
                return Ok(self.elementwise(&at[0], &a[0], &a[1], &mut f));
            }
            Bi::Cmp3(signed) => {
                let aw = at[0].bits();
                let lt = self.icmp(if signed { Pred::Slt } else { Pred::Ult }, aw, &a[0], &a[1]);
                let eq = self.icmp(Pred::Eq, aw, &a[0], &a[1]);
                let lt = self.lift(&lt, 1); let eq = self.lift(&eq, 1);
                let m1 = self.p.c(mask(w), w); let z = self.p.c(0, w); let one = self.p.c(1, w);
                let t = self.p.ite(eq, z, one);
                let r = self.p.ite(lt, m1, t);
                return Ok(self.low(r));
            }
            Bi::Ctlz | Bi::Cttz => {
                let lead = b == Bi::Ctlz;
                return Ok(match &a[0] {
                    V::C(c) => V::C(if lead { w as u128 - (128 - c.leading_zeros() as u128) } else { (c.trailing_zeros() as u128).min(w as u128) }),
                    V::E(e) => {
                        let mut r = self.p.c(w as u128, w);
                        for k in 0..w {
                            // highest priority evaluated last
                            let bit = if lead { k } else { w - 1 - k };
                            let x = self.p.extract(*e, bit, 1);
                            let val = self.p.c(if lead { w - 1 - bit } else { bit } as u128, w);
                            r = self.p.ite(x, val, r);
                        }
                        self.low(r)
                    }
                    _ => return Err(Ctl::End(End::Err("vector ctlz".into()))),
                });
            }
            Bi::Ctpop => {
                return Ok(match &a[0] {
                    V::C(c) => V::C(c.count_ones() as u128),
                    V::E(e) => { let mut r = self.p.c(0, w); for k in 0..w { let x = self.p.extract(*e, k, 1); let z = if w > 1 { self.p.zext(x, w) } else { x }; r = self.p.add(r, z); } self.low(r) }
                    _ => return Err(Ctl::End(End::Err("vector ctpop".into()))),
                });
            }
            Bi::Fshl | Bi::Fshr => {
                let s = match &a[2] { V::C(c) => (*c % w as u128) as u16, _ => return Err(Ctl::End(End::Err("symbolic funnel shift".into()))) };
                let s = if b == Bi::Fshl { s } else { (w - s) % w };
                if s == 0 { return Ok(if b == Bi::Fshl { a[0].clone() } else { a[1].clone() }); }
                let x = self.bin(BinOp::Shl, w, &a[0], &V::C(s as u128));
                let y = self.bin(BinOp::LShr, w, &a[1], &V::C((w - s) as u128));
                return Ok(self.bin(BinOp::Or, w, &x, &y));
            }
            Bi::Abs => {
                let n = self.bin(BinOp::Sub, w, &V::C(0), &a[0]);
                let c = self.icmp(Pred::Slt, w, &a[0], &V::C(0));
                return Ok(match c { V::C(0) => a[0].clone(), V::C(_) => n, V::E(e) => self.ite(e, &Ty::Int(w), &n, &a[0]), _ => panic!() });
            }
            Bi::Bswap => {
                let e = self.lift(&a[0], w);
                let mut acc: Option<Ex> = None;
                for i in 0..w / 8 { let x = self.p.extract(e, 8 * i, 8); acc = Some(match acc { None => x, Some(h) => self.p.concat(h, x) }); }
                return Ok(self.low(acc.unwrap()));
            }
            Bi::Bitrev => {
                let e = self.lift(&a[0], w);
                let mut acc: Option<Ex> = None;
                for i in 0..w { let x = self.p.extract(e, i, 1); acc = Some(match acc { None => x, Some(h) => self.p.concat(h, x) }); }
                return Ok(self.low(acc.unwrap()));
            }
            Bi::Trap => {
                if st.expect_panic { return Err(Ctl::End(End::Panicked)); }
                self.violation(st, "abort", "abort", None);
                return Err(Ctl::End(End::Err("violation".into())));
            }
            Bi::Panic | Bi::AllocError => {
                if st.expect_panic { return Err(Ctl::End(End::Panicked)); }
                let mut loc = String::new();
                if b == Bi::Panic {
                    if let Some(V::C(p)) = a.last() {
                        let p = *p as u64;
                        if self.inb(st, p, 24) && at.last() == Some(&Ty::Ptr) {
                            if let (V::C(fp), V::C(fl), V::C(ln), V::C(col)) = (self.read_n(st, p, 8), self.read_n(st, p + 8, 8), self.read_n(st, p + 16, 4), self.read_n(st, p + 20, 4)) {
                                if fl < 500 { loc = format!("{}:{}:{}", self.cstr(st, fp as u64, fl as u64), ln, col); }
                            }
                        }
                    }
                }
                let k = if b == Bi::Panic { "panic" } else { "allocation failure" };
                self.violation(st, "panic", &format!("{} at {}", k, loc), None);
                return Err(Ctl::End(End::Err("violation".into())));
            }
            Bi::Nd => {
                let bits = conc!(0) as u16;
                let idx = st.nds.len();
                let e = self.p.var(&format!("nd{}_{}", idx, bits), bits);
                st.nds.push(e);
                if let Some(&v) = self.fix.get(&idx) {
                    let k = self.p.c(v, bits);
                    let q = self.p.eq(e, k);
                    match self.feasible(st, q) { Ok(Some(m)) => { st.model = m; self.add_pc(st, q); } _ => return Err(Ctl::End(End::Pruned)) }
                    return Ok(V::C(v));
                }
                let z = if bits < 64 { self.p.zext(e, 64) } else { e };
                return Ok(self.low(z));
            }
            Bi::NdBytes => {
                let p = conc!(0); let n = conc!(1);
                if n > 0 && !self.inb(st, p, n) { return Err(self.oob(st, p, n, "nd_bytes")); }
                for i in 0..n {
                    let idx = st.nds.len();
                    let e = self.p.var(&format!("nd{}_8", idx), 8);
                    st.nds.push(e);
                    if let Some(&v) = self.fix.get(&idx) { self.write_n(st, p + i, 1, &V::C(v)); let k = self.p.c(v, 8); let q = self.p.eq(e, k); if let Ok(Some(m)) = self.feasible(st, q) { st.model = m; self.add_pc(st, q); } continue; }
                    self.write_n(st, p + i, 1, &V::E(e));
                }
            }
            Bi::Assume => {
                match &a[0] {
                    V::C(c) => if *c == 0 { return Err(Ctl::End(End::Pruned)); },
                    V::E(e) => {
                        match self.feasible(st, *e) {
                            Ok(Some(m)) => { st.model = m; self.add_pc(st, *e); }
                            Ok(None) => return Err(Ctl::End(End::Pruned)),
                            Err(()) => { self.incon("solver gave no answer on an assumption".into()); return Err(Ctl::End(End::Pruned)); }
                        }
                    }
                    _ => panic!(),
                }
            }
            Bi::Assert => {
                let p = conc!(1); let n = conc!(2);
                let msg = self.cstr(st, p, n);
                if self.skip.iter().any(|x| msg.starts_with(x.as_str())) { return Ok(V::C(0)); }
                self.asserts_checked += 1;
                match &a[0] {
                    V::C(c) => if *c == 0 { self.violation(st, "assert", &msg, None); return Err(Ctl::End(End::Err("violation".into()))); },
                    V::E(e) => {
                        self.asserts_symbolic += 1;
                        let ne = self.p.not1(*e);
                        match self.feasible(st, ne) {
                            Ok(Some(_)) => {
                                self.violation(st, "assert", &msg, Some(ne));
                                match self.feasible(st, *e) { Ok(Some(m)) => { st.model = m; self.add_pc(st, *e); } _ => return Err(Ctl::End(End::Err("violation".into()))) }
                            }
                            Ok(None) => {}
                            Err(()) => { self.incon(format!("solver gave no answer on assertion {}", msg)); }
                        }
                    }
                    _ => panic!(),
                }
            }
            Bi::Reach => {
                let p = conc!(0); let n = conc!(1);
                let l = self.cstr(st, p, n);
                if !st.reached.iter().any(|x| **x == *l) { st.reached.push(l.as_str().into()); }
            }
            Bi::ExpectPanic => { st.expect_panic = conc!(0) != 0; }
            Bi::Observe => { let e = self.lift(&a[0], 64); st.obs.push(e); }
            // whether a condition is a constant, without asking the solver
            Bi::Known => { let k = match &a[0] { V::C(c) => *c & 1, V::E(e) => self.p.cv(*e).unwrap_or(0) & 1, _ => 0 }; return Ok(V::C(k)); }
            // whether a condition holds for all values of the path
            Bi::Surely => {
                let k = match &a[0] {
                    V::E(e) => match self.decide(st, V::E(*e)) {
                        V::C(c) => c & 1,
                        _ => { let n = self.p.not1(*e); matches!(self.feasible(st, n), Ok(None)) as u128 }
                    },
                    V::C(c) => *c & 1,
                    V::A(_) => panic!(),
                };
                return Ok(V::C(k));
            }
            Bi::Pick => { let v = conc!(0); return Ok(V::C(v as u128)); }
            Bi::Stop => return Err(Ctl::End(End::Ok)),
            Bi::Crc => {
                let p = conc!(0); let n = conc!(1);
                if n > 0 && !self.inb(st, p, n) { return Err(self.oob(st, p, n, "crc")); }
                let content = if n > 0 { self.read_bytes(st, p, n) } else { vec![] };
                return Ok(self.crc(st, content));
            }
            Bi::Unsupported(i) => return Err(Ctl::End(End::Err(format!("unsupported external {}", self.unsup[i as usize])))),
        }
        Ok(V::C(0))
    }
    /// Checksum model: a collision-free function of the content that agrees with CRC-32 on concrete contents.
    fn crc(&mut self, st: &mut State, content: Vec<V>) -> V {
        let conc: Option<Vec<u8>> = content.iter().map(|v| if let V::C(c) = v { Some(*c as u8) } else { None }).collect();
        for (c, v) in st.crcs.iter() {
            if c.len() == content.len() && c.iter().zip(&content).all(|(x, y)| match (x, y) { (V::C(a), V::C(b)) => a == b, (V::E(a), V::E(b)) => a == b, _ => false }) { return self.low(*v); }
        }
        let mut cons = vec![];
        let val;
        let id;
        if let Some(b) = &conc {
            let real = crc32(b);
            val = real;
            id = self.p.c(real as u128, 32);
        } else {
            let name = format!("crc{}_{}", st.crcs.len(), content.len());
            id = self.p.var(&name, 32);
            let b: Vec<u8> = content.iter().map(|v| match v { V::C(c) => *c as u8, V::E(e) => self.eval(st, *e) as u8, _ => 0 }).collect();
            val = crc32(&b);
        }
        let mut chosen = val;
        for (c, v) in st.crcs.clone().iter() {
            if c.len() != content.len() { continue; }
            let mut eq = self.p.c(1, 1);
            for (x, y) in c.iter().zip(&content) {
                let q = self.icmp(Pred::Eq, 8, x, y);
                let q = self.lift(&q, 1);
                eq = self.p.and(eq, q);
                if self.p.cv(eq) == Some(0) { break; }
            }
            let veq = self.p.eq(*v, id);
            let iff = self.p.eq(eq, veq);
            cons.push(iff);
            if self.p.cv(eq) != Some(0) && self.eval(st, eq) == 1 { chosen = self.eval(st, *v) as u32; }
        }
        if let K::Var(vn) = self.p.k(id) {
            // keep the model consistent with the new variable
            let mut m = st.model.m.clone();
            m.insert(vn, chosen as u128);
            st.model = Rc::new(Model { m, memo: RefCell::new(HashMap::new()) });
            for _ in 0..4 {
                let bad = cons.iter().any(|&q| self.eval(st, q) != 1);
                if !bad { break; }
                let mut m = st.model.m.clone();
                let nv = m[&vn].wrapping_add(0x9e3779b1) & 0xffff_ffff;
                m.insert(vn, nv);
                st.model = Rc::new(Model { m, memo: RefCell::new(HashMap::new()) });
            }
        }
        for q in cons {
            if self.eval(st, q) != 1 { // model repair by the solver
                match self.feasible(st, q) { Ok(Some(m)) => st.model = m, _ => { self.incon("checksum model inconsistent".into()); } }
            }
            self.add_pc(st, q);
        }
        let mut cs = (*st.crcs).clone();
        cs.push((Rc::new(content), id));
        st.crcs = Rc::new(cs);
        self.low(id)
    }
    pub fn fn_name(&self, id: u32) -> String { self.fn_names[id as usize].clone() }
    pub fn lines(&self) -> &Vec<String> { &self.m.lines }
}
thread_local! {
    static EMPTY: Rc<Model> = Rc::new(Model { m: HashMap::new(), memo: RefCell::new(HashMap::new()) });
    static NOCRC: Rc<Vec<(Rc<Vec<V>>, Ex)>> = Rc::new(vec![]);
}
