//! Thin binding to the Z3 C API (loaded with dlopen so the library can be chosen at run time).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}

type P = *mut c_void;
macro_rules! api {
    ($($f:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($f: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            fn load(lib: &str) -> Api {
                unsafe {
                    let n = CString::new(lib).unwrap();
                    let h = dlopen(n.as_ptr(), 2);
                    if h.is_null() { eprintln!("rsym: cannot load {}", lib); std::process::exit(2); }
                    $(
                        let s = CString::new(stringify!($f)).unwrap();
                        let p = dlsym(h, s.as_ptr());
                        if p.is_null() { eprintln!("rsym: no symbol {}", stringify!($f)); std::process::exit(2); }
                        let $f: unsafe extern "C" fn($($a),*) $(-> $r)? = std::mem::transmute(p);
                    )*
                    Api { $($f,)* }
                }
            }
        }
    };
}
api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context_rc: fn(P) -> P;
    Z3_set_error_handler: fn(P, Option<unsafe extern "C" fn(P, c_int)>);
    Z3_get_error_code: fn(P) -> c_int;
    Z3_inc_ref: fn(P, P);
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_reset: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P);
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_mk_int_sort: fn(P) -> P;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_iff: fn(P, P, P) -> P;
    Z3_mk_add: fn(P, c_uint, *const P) -> P;
    Z3_mk_sub: fn(P, c_uint, *const P) -> P;
    Z3_mk_mul: fn(P, c_uint, *const P) -> P;
    Z3_mk_le: fn(P, P, P) -> P;
    Z3_mk_lt: fn(P, P, P) -> P;
    Z3_dec_ref: fn(P, P);
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_get_full_version: fn() -> *const c_char;
}

pub enum Res { Sat(HashMap<u32, u128>), Unsat, Unknown }

pub struct Solver {
    a: Api,
    ctx: P,
    sol: P,
    lsol: P,
    isort: P,
    pub lia_ok: u64,
    pub lia_tried: u64,
    pub use_lia: bool,
    pub lia_time: f64,
    terms: HashMap<Ex, P>,
    one1: P,
    zero1: P,
    cache: HashMap<Vec<Ex>, Option<HashMap<u32, u128>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub version: String,
}
unsafe extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("rsym: z3 error {}", code);
    std::process::exit(2);
}

impl Solver {
    pub fn new(lib: &str, timeout_ms: u32) -> Solver {
        let a = Api::load(lib);
        unsafe {
            let cfg = (a.Z3_mk_config)();
            let ctx = (a.Z3_mk_context_rc)(cfg);
            (a.Z3_set_error_handler)(ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sym = (a.Z3_mk_string_symbol)(ctx, l.as_ptr());
            let sol = (a.Z3_mk_solver_for_logic)(ctx, sym);
            (a.Z3_solver_inc_ref)(ctx, sol);
            let p = (a.Z3_mk_params)(ctx);
            (a.Z3_params_inc_ref)(ctx, p);
            let t = CString::new("timeout").unwrap();
            let ts = (a.Z3_mk_string_symbol)(ctx, t.as_ptr());
            (a.Z3_params_set_uint)(ctx, p, ts, timeout_ms);
            (a.Z3_solver_set_params)(ctx, sol, p);
            let l2 = CString::new("QF_LIA").unwrap();
            let sym2 = (a.Z3_mk_string_symbol)(ctx, l2.as_ptr());
            let lsol = (a.Z3_mk_solver_for_logic)(ctx, sym2);
            (a.Z3_solver_inc_ref)(ctx, lsol);
            let p2 = (a.Z3_mk_params)(ctx);
            (a.Z3_params_inc_ref)(ctx, p2);
            (a.Z3_params_set_uint)(ctx, p2, ts, timeout_ms.min(4000));
            (a.Z3_solver_set_params)(ctx, lsol, p2);
            let isort = (a.Z3_mk_int_sort)(ctx);
            (a.Z3_inc_ref)(ctx, isort);
            let s1 = (a.Z3_mk_bv_sort)(ctx, 1);
            (a.Z3_inc_ref)(ctx, s1);
            let n = CString::new("1").unwrap();
            let one1 = (a.Z3_mk_numeral)(ctx, n.as_ptr(), s1);
            (a.Z3_inc_ref)(ctx, one1);
            let n0 = CString::new("0").unwrap();
            let zero1 = (a.Z3_mk_numeral)(ctx, n0.as_ptr(), s1);
            (a.Z3_inc_ref)(ctx, zero1);
            let version = std::ffi::CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
            Solver { a, ctx, sol, lsol, isort, lia_ok: 0, lia_tried: 0, use_lia: true, lia_time: 0.0, terms: HashMap::new(), one1, zero1, cache: HashMap::new(), queries: 0, cache_hits: 0, unsat: 0, sat: 0, unknown: 0, time: 0.0, max_time: 0.0, version }
        }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            let s = (self.a.Z3_mk_bv_sort)(self.ctx, w as c_uint);
            let n = CString::new(v.to_string()).unwrap();
            (self.a.Z3_mk_numeral)(self.ctx, n.as_ptr(), s)
        }
    }
    fn term(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&t) = self.terms.get(&e) { return t; }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.terms.contains_key(&x) { st.pop(); continue; }
            let (ch, n) = p.children(x);
            let mut ready = true;
            for i in 0..n { if !self.terms.contains_key(&ch[i]) { st.push(ch[i]); ready = false; } }
            if !ready { continue; }
            st.pop();
            let c = self.ctx;
            let w = p.w(x);
            let g = |i: usize| self.terms[&ch[i]];
            let a = &self.a;
            unsafe {
                let b2b = |t: P| (a.Z3_mk_ite)(c, t, self.one1, self.zero1);
                let t = match p.k(x) {
                    K::Const(v) => self.num(v, w),
                    K::Var(v) => {
                        let s = (a.Z3_mk_bv_sort)(c, w as c_uint);
                        let n = CString::new(format!("v{}", v)).unwrap();
                        let sy = (a.Z3_mk_string_symbol)(c, n.as_ptr());
                        (a.Z3_mk_const)(c, sy, s)
                    }
                    K::Add(..) => (a.Z3_mk_bvadd)(c, g(0), g(1)),
                    K::Sub(..) => (a.Z3_mk_bvsub)(c, g(0), g(1)),
                    K::Mul(..) => (a.Z3_mk_bvmul)(c, g(0), g(1)),
                    K::UDiv(..) => (a.Z3_mk_bvudiv)(c, g(0), g(1)),
                    K::SDiv(..) => (a.Z3_mk_bvsdiv)(c, g(0), g(1)),
                    K::URem(..) => (a.Z3_mk_bvurem)(c, g(0), g(1)),
                    K::SRem(..) => (a.Z3_mk_bvsrem)(c, g(0), g(1)),
                    K::And(..) => (a.Z3_mk_bvand)(c, g(0), g(1)),
                    K::Or(..) => (a.Z3_mk_bvor)(c, g(0), g(1)),
                    K::Xor(..) => (a.Z3_mk_bvxor)(c, g(0), g(1)),
                    K::Shl(..) => (a.Z3_mk_bvshl)(c, g(0), g(1)),
                    K::LShr(..) => (a.Z3_mk_bvlshr)(c, g(0), g(1)),
                    K::AShr(..) => (a.Z3_mk_bvashr)(c, g(0), g(1)),
                    K::Eq(..) => b2b((a.Z3_mk_eq)(c, g(0), g(1))),
                    K::Ult(..) => b2b((a.Z3_mk_bvult)(c, g(0), g(1))),
                    K::Slt(..) => b2b((a.Z3_mk_bvslt)(c, g(0), g(1))),
                    K::Ite(..) => { let b = (a.Z3_mk_eq)(c, g(0), self.one1); (a.Z3_mk_ite)(c, b, g(1), g(2)) }
                    K::Concat(..) => (a.Z3_mk_concat)(c, g(0), g(1)),
                    K::Extract(_, lo) => (a.Z3_mk_extract)(c, (lo + w - 1) as c_uint, lo as c_uint, g(0)),
                    K::ZExt(y) => (a.Z3_mk_zero_ext)(c, (w - p.w(y)) as c_uint, g(0)),
                    K::SExt(y) => (a.Z3_mk_sign_ext)(c, (w - p.w(y)) as c_uint, g(0)),
                };
                (a.Z3_inc_ref)(c, t);
                self.terms.insert(x, t);
            }
        }
        self.terms[&e]
    }
    /// Decide the conjunction of `cs`.
    pub fn check(&mut self, p: &mut Pool, mut cs: Vec<Ex>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let mut vars: Vec<u32> = vec![];
        for &e in &cs { vars.extend(p.vset(e).iter()); }
        vars.sort_unstable();
        vars.dedup();
        if self.use_lia {
            let t1 = Instant::now();
            let r = self.lia(p, &cs, &vars);
            self.lia_time += t1.elapsed().as_secs_f64();
            if let Some(r) = r {
                self.lia_ok += 1;
                match &r { Res::Sat(m) => { self.sat += 1; self.cache.insert(cs, Some(m.clone())); } _ => { self.unsat += 1; self.cache.insert(cs, None); } }
                let dt = t0.elapsed().as_secs_f64();
                self.time += dt;
                if dt > self.max_time { self.max_time = dt; }
                return r;
            }
        }
        let ts: Vec<P> = cs.iter().map(|&e| self.term(p, e)).collect();
        let r = unsafe {
            (self.a.Z3_solver_reset)(self.ctx, self.sol);
            for t in ts {
                let b = (self.a.Z3_mk_eq)(self.ctx, t, self.one1);
                (self.a.Z3_solver_assert)(self.ctx, self.sol, b);
            }
            (self.a.Z3_solver_check)(self.ctx, self.sol)
        };
        let res = match r {
            -1 => { self.unsat += 1; self.cache.insert(cs, None); Res::Unsat }
            1 => {
                self.sat += 1;
                let mut m = HashMap::new();
                unsafe {
                    let md = (self.a.Z3_solver_get_model)(self.ctx, self.sol);
                    (self.a.Z3_model_inc_ref)(self.ctx, md);
                    for v in vars {
                        let name = p.vars[v as usize].0.clone();
                        let e = p.var(&name, p.vars[v as usize].1);
                        let t = self.term(p, e);
                        let mut out: P = std::ptr::null_mut();
                        if !(self.a.Z3_model_eval)(self.ctx, md, t, true, &mut out) { eprintln!("rsym: model eval failed"); std::process::exit(2); }
                        let s = std::ffi::CStr::from_ptr((self.a.Z3_get_numeral_string)(self.ctx, out)).to_str().unwrap().to_string();
                        m.insert(v, s.parse::<u128>().unwrap());
                    }
                    (self.a.Z3_model_dec_ref)(self.ctx, md);
                }
                // the model must satisfy the constraints under our own evaluator (encoding self-check)
                let mut memo = HashMap::new();
                for &e in &cs {
                    if p.eval(e, &m, &mut memo) != 1 { eprintln!("rsym: solver model does not satisfy constraint"); std::process::exit(2); }
                }
                self.cache.insert(cs, Some(m.clone()));
                Res::Sat(m)
            }
            _ => { self.unknown += 1; Res::Unknown }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if dt > 1.0 { if let Ok(d) = std::env::var("RSYM_DUMP") {
            let t = unsafe { std::ffi::CStr::from_ptr((self.a.Z3_solver_to_string)(self.ctx, self.sol)).to_string_lossy().into_owned() };
            let _ = std::fs::write(format!("{}/q{}_{:.0}s.smt2", d, self.queries, dt), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t));
        } }
        res
    }
}

/// Exact translation of bit-vector constraints into linear integer arithmetic, where they allow it.
/// Every bit-vector model of the constraints gives a model of the translation, so "unsat" carries
/// over; models are checked against the original constraints before they are used.
struct Lia<'a> { s: &'a Solver, p: &'a Pool, b: Bounds, ints: HashMap<Ex, P>, bools: HashMap<Ex, P>, side: Vec<P>, keep: Vec<P>, vars: HashMap<u32, P>, fresh: u32, splits: u32, divs: HashMap<(Ex, u128), (P, P)>, sdivs: HashMap<(Ex, Ex), (P, P, P)>, force: HashMap<Ex, u128>, sym: Vec<Ex> }
impl<'a> Lia<'a> {
    fn k(&mut self, t: P) -> P { unsafe { (self.s.a.Z3_inc_ref)(self.s.ctx, t) }; self.keep.push(t); t }
    fn num(&mut self, v: u128) -> P { let n = CString::new(v.to_string()).unwrap(); let t = unsafe { (self.s.a.Z3_mk_numeral)(self.s.ctx, n.as_ptr(), self.s.isort) }; self.k(t) }
    fn pow2(&mut self, w: u16) -> P {
        if w < 128 { return self.num(1u128 << w); }
        let n = CString::new("340282366920938463463374607431768211456").unwrap();
        let t = unsafe { (self.s.a.Z3_mk_numeral)(self.s.ctx, n.as_ptr(), self.s.isort) };
        self.k(t)
    }
    fn add(&mut self, x: P, y: P) -> P { let v = [x, y]; let t = unsafe { (self.s.a.Z3_mk_add)(self.s.ctx, 2, v.as_ptr()) }; self.k(t) }
    fn sub(&mut self, x: P, y: P) -> P { let v = [x, y]; let t = unsafe { (self.s.a.Z3_mk_sub)(self.s.ctx, 2, v.as_ptr()) }; self.k(t) }
    fn mul(&mut self, x: P, y: P) -> P { let v = [x, y]; let t = unsafe { (self.s.a.Z3_mk_mul)(self.s.ctx, 2, v.as_ptr()) }; self.k(t) }
    fn le(&mut self, x: P, y: P) -> P { let t = unsafe { (self.s.a.Z3_mk_le)(self.s.ctx, x, y) }; self.k(t) }
    fn lt(&mut self, x: P, y: P) -> P { let t = unsafe { (self.s.a.Z3_mk_lt)(self.s.ctx, x, y) }; self.k(t) }
    fn eqt(&mut self, x: P, y: P) -> P { let t = unsafe { (self.s.a.Z3_mk_eq)(self.s.ctx, x, y) }; self.k(t) }
    fn ite(&mut self, c: P, x: P, y: P) -> P { let t = unsafe { (self.s.a.Z3_mk_ite)(self.s.ctx, c, x, y) }; self.k(t) }
    fn not(&mut self, x: P) -> P { let t = unsafe { (self.s.a.Z3_mk_not)(self.s.ctx, x) }; self.k(t) }
    fn newint(&mut self, lo: u128, hi: u128) -> P {
        self.fresh += 1;
        let n = CString::new(format!("k{}", self.fresh)).unwrap();
        let t = unsafe { let sy = (self.s.a.Z3_mk_string_symbol)(self.s.ctx, n.as_ptr()); (self.s.a.Z3_mk_const)(self.s.ctx, sy, self.s.isort) };
        self.k(t);
        self.bound(t, lo, hi);
        t
    }
    fn bound(&mut self, t: P, lo: u128, hi: u128) { let l = self.num(lo); let x = self.le(l, t); self.side.push(x); let h = self.num(hi); let x = self.le(t, h); self.side.push(x); }
    fn int(&mut self, e: Ex) -> Option<P> {
        if let Some(&t) = self.ints.get(&e) { return Some(t); }
        if self.ints.len() > 3000 { return None; }
        let p = self.p;
        let w = p.w(e);
        let m = mask(w);
        let r = self.b.range(p, e);
        let t = if let Some(v) = p.cv(e) { self.num(v) } else if r.0 == r.1 && w > 1 && !matches!(p.k(e), K::Var(_)) {
            // keep the defining constraint as well
            match self.int0(e, w, m) { Some(t) => { let v = self.num(r.0); let q = self.eqt(t, v); self.side.push(q); v } None => self.num(r.0) }
        } else { self.int0(e, w, m)? };
        self.ints.insert(e, t);
        Some(t)
    }
    fn divmod(&mut self, x: Ex, c: u128) -> Option<(P, P)> {
        if let Some(&t) = self.divs.get(&(x, c)) { return Some(t); }
        self.splits += 1;
        if self.splits > 40 { return None; }
        let xt = self.int(x)?;
        let r = self.b.range(self.p, x);
        let q = self.newint(r.0 / c, r.1 / c);
        let m = self.newint(0, c - 1);
        let ct = self.num(c);
        let qc = self.mul(ct, q);
        let s = self.add(qc, m);
        let d = self.eqt(xt, s);
        self.side.push(d);
        // quotients of the same divisor: let the search branch on their order
        let others: Vec<P> = self.divs.iter().filter(|(k, _)| k.1 == c).map(|(_, v)| v.0).take(6).collect();
        let one = self.num(1);
        for o in others {
            let o1 = self.add(o, one);
            let q1 = self.add(q, one);
            let (a, b, e) = (self.le(o1, q), self.le(q1, o), self.eqt(o, q));
            let v = [a, b, e];
            let t = unsafe { (self.s.a.Z3_mk_or)(self.s.ctx, 3, v.as_ptr()) };
            self.k(t);
            self.side.push(t);
        }
        self.divs.insert((x, c), (q, m));
        Some((q, m))
    }
    fn or(&mut self, v: &[P]) -> P { let t = unsafe { (self.s.a.Z3_mk_or)(self.s.ctx, v.len() as c_uint, v.as_ptr()) }; self.k(t) }
    /// division by a symbolic divisor, abstracted by what multiples of it satisfy (t is the multiple)
    fn sdivmod(&mut self, x: Ex, d: Ex) -> Option<(P, P)> {
        if let Some(&c) = self.force.get(&d) {
            if c == 0 { return None; }
            return self.divmod(x, c);
        }
        if let Some(&(q, r, _)) = self.sdivs.get(&(x, d)) { return Some((q, r)); }
        let (rx, rd) = (self.b.range(self.p, x), self.b.range(self.p, d));
        if rd.0 == 0 { return None; }
        self.splits += 1;
        if self.splits > 20 { return None; }
        let (xt, dt) = (self.int(x)?, self.int(d)?);
        let q = self.newint(rx.0 / rd.1, rx.1 / rd.0);
        let r = self.newint(0, rd.1 - 1);
        let t = self.newint(0, rx.1);
        let s = self.add(t, r);
        let e = self.eqt(xt, s); self.side.push(e);
        let e = self.lt(r, dt); self.side.push(e);
        let (z, one) = (self.num(0), self.num(1));
        // x < d -> t = 0, q = 0 ; d <= x < 2d -> t = d, q = 1 ; else t >= 2d, q >= 2
        let d2 = self.add(dt, dt);
        let two = self.num(2);
        let small = self.lt(xt, dt); let big = self.le(d2, xt);
        let (nsmall, nbig) = (self.not(small), self.not(big));
        let (t0, q0, t1, q1, t2, q2) = (self.eqt(t, z), self.eqt(q, z), self.eqt(t, dt), self.eqt(q, one), self.le(d2, t), self.le(two, q));
        for c in [[nsmall, t0], [nsmall, q0], [nbig, t2], [nbig, q2]] { let o = self.or(&c); self.side.push(o); }
        let o = self.or(&[small, big, t1]); self.side.push(o);
        let o = self.or(&[small, big, q1]); self.side.push(o);
        let others: Vec<(P, P)> = self.sdivs.iter().filter(|(k, _)| k.1 == d).map(|(_, v)| (v.0, v.2)).take(6).collect();
        for (oq, ot) in others {
            let (td, otd) = (self.add(t, dt), self.add(ot, dt));
            let (lt1, gt1, eq1) = (self.le(td, ot), self.le(otd, t), self.eqt(t, ot));
            let (lt2, gt2, eq2) = (self.lt(q, oq), self.lt(oq, q), self.eqt(q, oq));
            let o = self.or(&[lt1, gt1, eq1]); self.side.push(o);
            for (a, b) in [(lt1, lt2), (gt1, gt2), (eq1, eq2)] { let i = self.eqt(a, b); self.side.push(i); }
        }
        self.sdivs.insert((x, d), (q, r, t));
        if !self.sym.contains(&d) { self.sym.push(d); }
        Some((q, r))
    }
    fn int0(&mut self, e: Ex, w: u16, m: u128) -> Option<P> {
        let p = self.p;
        if w == 1 {
            if let K::Var(_) = p.k(e) {} else {
                let b = self.boolean(e)?;
                let (o, z) = (self.num(1), self.num(0));
                return Some(self.ite(b, o, z));
            }
        }
        Some(match p.k(e) {
            K::Const(v) => self.num(v),
            K::Var(v) => {
                let n = CString::new(format!("i{}", v)).unwrap();
                let t = unsafe { let sy = (self.s.a.Z3_mk_string_symbol)(self.s.ctx, n.as_ptr()); (self.s.a.Z3_mk_const)(self.s.ctx, sy, self.s.isort) };
                self.k(t);
                self.bound(t, 0, m);
                self.vars.insert(v, t);
                t
            }
            K::Add(a, b) => {
                let (ra, rb) = (self.b.range(p, a), self.b.range(p, b));
                let (x, y) = (self.int(a)?, self.int(b)?);
                let s = self.add(x, y);
                if ra.1.checked_add(rb.1).map_or(false, |h| h <= m) { s } else {
                    let pw = self.pow2(w);
                    let d = self.sub(s, pw);
                    if ra.0.checked_add(rb.0).map_or(true, |l| l > m) { d } else { let c = self.le(pw, s); self.ite(c, d, s) }
                }
            }
            K::Sub(a, b) => {
                let (ra, rb) = (self.b.range(p, a), self.b.range(p, b));
                let (x, y) = (self.int(a)?, self.int(b)?);
                let s = self.sub(x, y);
                if ra.0 >= rb.1 { s } else { let pw = self.pow2(w); let d = self.add(s, pw); if ra.1 < rb.0 { d } else { let c = self.lt(x, y); self.ite(c, d, s) } }
            }
            K::Mul(a, b) => {
                let (a, b) = if p.cv(a).is_some() { (b, a) } else { (a, b) };
                let c = p.cv(b)?;
                let ra = self.b.range(p, a);
                let x = self.int(a)?;
                let ct = self.num(c);
                let s = self.mul(ct, x);
                if ra.1.checked_mul(c).map_or(false, |h| h <= m) { s } else {
                    let k = self.newint(0, c - 1);
                    let t = self.newint(0, m);
                    let pw = self.pow2(w);
                    let kp = self.mul(pw, k);
                    let u = self.add(t, kp);
                    let q = self.eqt(u, s);
                    self.side.push(q);
                    t
                }
            }
            K::UDiv(a, b) if p.cv(b).is_none() => self.sdivmod(a, b)?.0,
            K::URem(a, b) if p.cv(b).is_none() => self.sdivmod(a, b)?.1,
            K::UDiv(a, b) => { let c = p.cv(b)?; if c == 0 { return None; } self.divmod(a, c)?.0 }
            K::URem(a, b) => { let c = p.cv(b)?; if c == 0 { return None; } self.divmod(a, c)?.1 }
            K::Ite(c, a, b) => {
                let rc = self.b.range(p, c);
                if rc.0 == 1 { self.boolean(c)?; return self.int(a); }
                if rc.1 == 0 { self.boolean(c)?; return self.int(b); }
                let (c, x, y) = (self.boolean(c)?, self.int(a)?, self.int(b)?);
                self.ite(c, x, y)
            }
            K::Concat(h, l) => { let (x, y) = (self.int(h)?, self.int(l)?); let pw = self.pow2(p.w(l)); let t = self.mul(pw, x); self.add(t, y) }
            K::ZExt(a) => self.int(a)?,
            K::SExt(a) => {
                let aw = p.w(a);
                let half = 1u128 << (aw - 1);
                let ra = self.b.range(p, a);
                let x = self.int(a)?;
                if ra.1 < half { x } else { let h = self.num(half); let c = self.le(h, x); let d = self.num(m - mask(aw)); let y = self.add(x, d); self.ite(c, y, x) }
            }
            K::Extract(a, lo) => {
                let aw = p.w(a);
                let ra = self.b.range(p, a);
                let top = lo + w;
                let above = top < aw && (ra.1 >> top) != 0;
                if !above { if lo == 0 { self.int(a)? } else { self.divmod(a, 1u128 << lo)?.0 } }
                else if lo == 0 { self.divmod(a, 1u128 << w)?.1 }
                else {
                    let (q, _) = self.divmod(a, 1u128 << lo)?;
                    let hi = self.newint(0, ra.1 >> top);
                    let r = self.newint(0, m);
                    let pw = self.pow2(w);
                    let t = self.mul(pw, hi);
                    let u = self.add(t, r);
                    let d = self.eqt(q, u);
                    self.side.push(d);
                    r
                }
            }
            K::And(a, b) => {
                let (a, b) = if p.cv(a).is_some() { (b, a) } else { (a, b) };
                let c = p.cv(b)?;
                if c & c.wrapping_add(1) == 0 { self.divmod(a, c + 1)?.1 } else { return None }
            }
            K::Xor(a, b) => { let (a, b) = if p.cv(a).is_some() { (b, a) } else { (a, b) }; if p.cv(b)? != m { return None; } let x = self.int(a)?; let n = self.num(m); self.sub(n, x) }
            _ => return None,
        })
    }
    fn boolean(&mut self, e: Ex) -> Option<P> {
        if let Some(&t) = self.bools.get(&e) { return Some(t); }
        let p = self.p;
        let c = self.s.ctx;
        let t = match p.k(e) {
            K::Const(v) => { let t = unsafe { if v != 0 { (self.s.a.Z3_mk_true)(c) } else { (self.s.a.Z3_mk_false)(c) } }; self.k(t) }
            K::Eq(a, b) => if p.w(a) == 1 { let (x, y) = (self.boolean(a)?, self.boolean(b)?); self.eqt(x, y) } else { let (x, y) = (self.int(a)?, self.int(b)?); self.eqt(x, y) },
            K::Ult(a, b) => { let (x, y) = (self.int(a)?, self.int(b)?); self.lt(x, y) }
            K::Slt(a, b) => {
                let w = p.w(a);
                let half = 1u128 << (w - 1);
                let mut f = |s: &mut Self, a: Ex| -> Option<P> {
                    let r = s.b.range(p, a);
                    let x = s.int(a)?;
                    if r.1 < half { return Some(x); }
                    let h = s.num(half); let c = s.le(h, x); let pw = s.pow2(w); let d = s.sub(x, pw);
                    Some(s.ite(c, d, x))
                };
                let (x, y) = (f(self, a)?, f(self, b)?);
                self.lt(x, y)
            }
            K::And(a, b) => { let v = [self.boolean(a)?, self.boolean(b)?]; let t = unsafe { (self.s.a.Z3_mk_and)(c, 2, v.as_ptr()) }; self.k(t) }
            K::Or(a, b) => { let v = [self.boolean(a)?, self.boolean(b)?]; let t = unsafe { (self.s.a.Z3_mk_or)(c, 2, v.as_ptr()) }; self.k(t) }
            K::Xor(a, b) => {
                if let Some(x) = p.is_not(e) { let x = self.boolean(x)?; self.not(x) }
                else { let (x, y) = (self.boolean(a)?, self.boolean(b)?); let q = self.eqt(x, y); self.not(q) }
            }
            K::Ite(k, a, b) => { let (k, x, y) = (self.boolean(k)?, self.boolean(a)?, self.boolean(b)?); self.ite(k, x, y) }
            K::Var(_) | K::Extract(..) => { let x = if let K::Var(_) = p.k(e) { self.int(e)? } else { self.int_extract1(e)? }; let o = self.num(1); self.eqt(x, o) }
            _ => return None,
        };
        self.bools.insert(e, t);
        Some(t)
    }
    fn int_extract1(&mut self, e: Ex) -> Option<P> {
        if let K::Extract(a, lo) = self.p.k(e) {
            let aw = self.p.w(a);
            let q = if lo == 0 { None } else { Some(self.divmod(a, 1u128 << lo)?.0) };
            if lo + 1 == aw { return q; }
            if lo == 0 { return Some(self.divmod(a, 2)?.1); }
            let hi = self.newint(0, mask(aw - lo - 1));
            let r = self.newint(0, 1);
            let two = self.num(2);
            let t = self.mul(two, hi);
            let u = self.add(t, r);
            let d = self.eqt(q.unwrap(), u);
            self.side.push(d);
            return Some(r);
        }
        None
    }
}
impl Solver {
    fn lia(&mut self, p: &Pool, cs: &[Ex], vars: &[u32]) -> Option<Res> {
        let mut force = HashMap::new();
        for _ in 0..3 {
            let mut redo = vec![];
            let r = self.lia1(p, cs, vars, &force, &mut redo);
            if r.is_some() || redo.is_empty() { return match r { Some(Res::Unsat) if !force.is_empty() => None, r => r }; }
            for (d, v) in redo { force.insert(d, v); }
        }
        None
    }
    fn lia1(&mut self, p: &Pool, cs: &[Ex], vars: &[u32], force: &HashMap<Ex, u128>, redo: &mut Vec<(Ex, u128)>) -> Option<Res> {
        let mut b = Bounds::default();
        for _ in 0..3 { let n = b.b.clone(); for &c in cs { b.learn(p, c, true); } if n == b.b { break; } }
        let mut l = Lia { s: self, p, b, ints: HashMap::new(), bools: HashMap::new(), side: vec![], keep: vec![], vars: HashMap::new(), fresh: 0, splits: 0, divs: HashMap::new(), sdivs: HashMap::new(), force: force.clone(), sym: vec![] };
        let mut ok = true;
        let mut top = vec![];
        for &c in cs { match l.boolean(c) { Some(t) => top.push(t), None => { ok = false; break; } } }
        for (&d, &v) in force { if let Some(t) = l.int(d) { let n = l.num(v); let q = l.eqt(t, n); l.side.push(q); } }
        let sym = std::mem::take(&mut l.sym);
        let (side, keep, lv) = (std::mem::take(&mut l.side), std::mem::take(&mut l.keep), std::mem::take(&mut l.vars));
        drop(l);
        let mut res = None;
        if ok {
            self.lia_tried += 1;
            unsafe {
                (self.a.Z3_solver_reset)(self.ctx, self.lsol);
                for t in top.iter().chain(&side) { (self.a.Z3_solver_assert)(self.ctx, self.lsol, *t); }
                let r = (self.a.Z3_solver_check)(self.ctx, self.lsol);
                if r == -1 { res = Some(Res::Unsat); }
                else if r == 1 {
                    let md = (self.a.Z3_solver_get_model)(self.ctx, self.lsol);
                    (self.a.Z3_model_inc_ref)(self.ctx, md);
                    let mut m = HashMap::new();
                    for &v in vars {
                        let val = match lv.get(&v) {
                            Some(&t) => {
                                let mut out: P = std::ptr::null_mut();
                                if !(self.a.Z3_model_eval)(self.ctx, md, t, true, &mut out) { eprintln!("rsym: model eval failed"); std::process::exit(2); }
                                std::ffi::CStr::from_ptr((self.a.Z3_get_numeral_string)(self.ctx, out)).to_str().unwrap().parse::<u128>().unwrap_or(0)
                            }
                            None => 0,
                        };
                        m.insert(v, val);
                    }
                    (self.a.Z3_model_dec_ref)(self.ctx, md);
                    let mut memo = HashMap::new();
                    if cs.iter().all(|&e| p.eval(e, &m, &mut memo) == 1) { res = Some(Res::Sat(m)); }
                    else if !sym.is_empty() { for d in sym { let v = p.eval(d, &m, &mut memo); redo.push((d, v)); } }
                    else if std::env::var("RSYM_DEBUG").is_ok() { eprintln!("lia model rejected"); }
                }
                (self.a.Z3_solver_reset)(self.ctx, self.lsol);
            }
        }
        for t in keep { unsafe { (self.a.Z3_dec_ref)(self.ctx, t); } }
        res
    }
}
