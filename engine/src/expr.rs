//! Hash-consed bit-vector expressions (width 1..=128) with eager simplification.
use std::collections::HashMap;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Add(Ex, Ex),
    Sub(Ex, Ex),
    Mul(Ex, Ex),
    UDiv(Ex, Ex),
    SDiv(Ex, Ex),
    URem(Ex, Ex),
    SRem(Ex, Ex),
    And(Ex, Ex),
    Or(Ex, Ex),
    Xor(Ex, Ex),
    Shl(Ex, Ex),
    LShr(Ex, Ex),
    AShr(Ex, Ex),
    Eq(Ex, Ex),
    Ult(Ex, Ex),
    Slt(Ex, Ex),
    Ite(Ex, Ex, Ex),
    Concat(Ex, Ex),       // hi, lo
    Extract(Ex, u16),     // low bit; width from node
    ZExt(Ex),
    SExt(Ex),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Ex>,
    pub vars: Vec<(String, u16)>,
    var_by_name: HashMap<String, Ex>,
    vsets: HashMap<Ex, std::rc::Rc<Vec<u32>>>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let sh = 128 - w as u32;
    ((v << sh) as i128) >> sh
}

impl Pool {
    pub fn new() -> Self {
        Pool { nodes: vec![], map: HashMap::new(), vars: vec![], var_by_name: HashMap::new(), vsets: HashMap::new() }
    }
    fn mk(&mut self, k: K, w: u16) -> Ex {
        let n = Node { k, w };
        if let Some(&e) = self.map.get(&n) { return e; }
        let id = self.nodes.len() as Ex;
        self.nodes.push(n);
        self.map.insert(n, id);
        id
    }
    #[inline] pub fn w(&self, e: Ex) -> u16 { self.nodes[e as usize].w }
    #[inline] pub fn k(&self, e: Ex) -> K { self.nodes[e as usize].k }
    pub fn c(&mut self, v: u128, w: u16) -> Ex { self.mk(K::Const(v & mask(w)), w) }
    pub fn cv(&self, e: Ex) -> Option<u128> {
        if let K::Const(v) = self.k(e) { Some(v) } else { None }
    }
    pub fn var(&mut self, name: &str, w: u16) -> Ex {
        if let Some(&e) = self.var_by_name.get(name) {
            assert_eq!(self.w(e), w, "var width clash {}", name);
            return e;
        }
        let id = self.vars.len() as u32;
        self.vars.push((name.to_string(), w));
        let e = self.mk(K::Var(id), w);
        self.var_by_name.insert(name.to_string(), e);
        e
    }
    pub fn tru(&mut self) -> Ex { self.c(1, 1) }

    pub fn add(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (_, Some(0)) => return a,
            (None, Some(y)) => {
                if let K::Add(p, q) = self.k(a) {
                    if let Some(z) = self.cv(q) { let s = self.c(z.wrapping_add(y), w); return self.add(p, s); }
                }
                if let K::Ite(c, t, f) = self.k(a) {
                    if self.cv(t).is_some() && self.cv(f).is_some() {
                        let t2 = self.add(t, b); let f2 = self.add(f, b); return self.ite(c, t2, f2);
                    }
                }
            }
            _ => {
                if let K::Add(p, q) = self.k(a) {
                    if self.cv(q).is_some() { let s = self.add(p, b); return self.add(s, q); }
                }
                if let K::Add(p, q) = self.k(b) {
                    if self.cv(q).is_some() { let s = self.add(a, p); return self.add(s, q); }
                }
                if let K::Sub(p, q) = self.k(a) { if q == b { return p; } }
                if let K::Sub(p, q) = self.k(b) { if q == a { return p; } }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Add(a, b), w)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        if let Some(y) = self.cv(b) { let n = self.c(0u128.wrapping_sub(y), w); return self.add(a, n); }
        if let K::Add(p, q) = self.k(a) {
            if p == b { return q; }
            if q == b { return p; }
            if self.cv(q).is_some() { let s = self.sub(p, b); return self.add(s, q); }
        }
        if let K::Add(p, q) = self.k(b) {
            if let Some(y) = self.cv(q) { let s = self.sub(a, p); let n = self.c(0u128.wrapping_sub(y), w); return self.add(s, n); }
            if p == a { let z = self.c(0, w); return self.sub(z, q); }
            if q == a { let z = self.c(0, w); return self.sub(z, p); }
        }
        self.mk(K::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => { let s = self.c(y.trailing_zeros() as u128, w); return self.shl(a, s); }
            _ => {}
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x / y, w),
            (_, Some(1)) => return a,
            (_, Some(y)) if y.is_power_of_two() => { let s = self.c(y.trailing_zeros() as u128, w); return self.lshr(a, s); }
            _ => {}
        }
        self.mk(K::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x % y, w),
            (_, Some(1)) => return self.c(0, w),
            (_, Some(y)) if y.is_power_of_two() => { let s = self.c(y - 1, w); return self.and(a, s); }
            _ => {}
        }
        self.mk(K::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 { return self.c(sext128(x, w).wrapping_div(sext128(y, w)) as u128, w); }
        }
        self.mk(K::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 { return self.c(sext128(x, w).wrapping_rem(sext128(y, w)) as u128, w); }
        }
        self.mk(K::SRem(a, b), w)
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return a; }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == mask(w) => return a,
            (None, Some(y)) => {
                // low mask
                if (y + 1).is_power_of_two() {
                    let n = (y + 1).trailing_zeros() as u16;
                    let x = self.extract(a, 0, n);
                    return self.zext(x, w);
                }
                // high mask (clears low bits)
                let tz = y.trailing_zeros() as u16;
                if tz > 0 && y == (mask(w) & !mask(tz)) {
                    let hi = self.extract(a, tz, w - tz);
                    let z = self.c(0, tz);
                    return self.concat(hi, z);
                }
                // single contiguous run
                let run = y >> tz;
                if (run + 1).is_power_of_two() {
                    let n = (run + 1).trailing_zeros() as u16;
                    let mid = self.extract(a, tz, n);
                    let z = self.c(0, tz);
                    let r = if tz > 0 { self.concat(mid, z) } else { mid };
                    return self.zext(r, w);
                }
            }
            _ => {}
        }
        if w == 1 {
            if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(0, 1); }
            // absorption: a & (a & x) ; (p&q)&p
            if let K::And(p, q) = self.k(a) { if p == b || q == b { return a; } }
            if let K::And(p, q) = self.k(b) { if p == a || q == a { return b; } }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::And(a, b), w)
    }
    fn known_low_zeros(&self, e: Ex) -> u16 {
        match self.k(e) {
            K::Const(0) => self.w(e),
            K::Const(v) => v.trailing_zeros() as u16,
            K::Concat(h, l) => { if self.cv(l) == Some(0) { self.w(l) + self.known_low_zeros(h).min(0) } else { 0 } }
            _ => 0,
        }
    }
    /// number of significant low bits (all higher bits known zero)
    pub fn sig_bits(&self, e: Ex) -> u16 {
        match self.k(e) {
            K::Const(v) => 128 - v.leading_zeros() as u16,
            K::ZExt(x) => self.sig_bits(x),
            K::Concat(h, l) => { let h = self.sig_bits(h); if h == 0 { self.sig_bits(l) } else { h + self.w(l) } }
            K::Ite(_, a, b) => self.sig_bits(a).max(self.sig_bits(b)),
            K::And(a, b) => self.sig_bits(a).min(self.sig_bits(b)),
            K::Or(a, b) | K::Xor(a, b) => self.sig_bits(a).max(self.sig_bits(b)),
            _ => self.w(e),
        }
    }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return a; }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return b,
            _ => {}
        }
        if w == 1 {
            if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(1, 1); }
        } else {
            // disjoint halves -> concat
            for (x, y) in [(a, b), (b, a)] {
                let lz = self.known_low_zeros(x);
                if lz > 0 && lz < w && self.sig_bits(y) <= lz {
                    let hi = self.extract(x, lz, w - lz);
                    let lo = self.extract(y, 0, lz);
                    return self.concat(hi, lo);
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Or(a, b), w)
    }
    pub fn is_not(&self, a: Ex) -> Option<Ex> {
        if self.w(a) == 1 {
            if let K::Xor(x, c) = self.k(a) { if self.cv(c) == Some(1) { return Some(x); } }
        }
        None
    }
    pub fn not1(&mut self, a: Ex) -> Ex { let t = self.tru(); self.xor(a, t) }
    pub fn xor(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                if let K::Xor(p, q) = self.k(a) {
                    if let Some(z) = self.cv(q) { let s = self.c(z ^ y, w); return self.xor(p, s); }
                }
            }
            _ => {}
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s >= w as u128 { return self.c(0, w); }
            if s == 0 { return a; }
            if let Some(x) = self.cv(a) { return self.c(x << s, w); }
            let lo = self.extract(a, 0, w - s as u16);
            let z = self.c(0, s as u16);
            return self.concat(lo, z);
        }
        if self.cv(a) == Some(0) { return a; }
        self.mk(K::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s >= w as u128 { return self.c(0, w); }
            if s == 0 { return a; }
            if let Some(x) = self.cv(a) { return self.c(x >> s, w); }
            let hi = self.extract(a, s as u16, w - s as u16);
            return self.zext(hi, w);
        }
        if self.cv(a) == Some(0) { return a; }
        self.mk(K::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 { return a; }
            let s = (s.min(w as u128 - 1)) as u16;
            if let Some(x) = self.cv(a) { return self.c((sext128(x, w) >> s) as u128, w); }
            let hi = self.extract(a, s, w - s);
            return self.sext(hi, w);
        }
        self.mk(K::AShr(a, b), w)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b { return self.tru(); }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c((x == y) as u128, 1),
            (Some(_), None) => return self.eq(b, a),
            (None, Some(y)) => {
                if w == 1 { return if y == 1 { a } else { self.not1(a) }; }
                match self.k(a) {
                    K::ZExt(x) => {
                        let xw = self.w(x);
                        if y & !mask(xw) != 0 { return self.c(0, 1); }
                        let c = self.c(y, xw);
                        return self.eq(x, c);
                    }
                    K::SExt(x) => {
                        let xw = self.w(x);
                        let t = y & mask(xw);
                        if (sext128(t, xw) as u128) & mask(w) != y { return self.c(0, 1); }
                        let c = self.c(t, xw);
                        return self.eq(x, c);
                    }
                    K::Concat(h, l) => {
                        let lw = self.w(l); let hw = self.w(h);
                        let ch = self.c(y >> lw, hw); let cl = self.c(y, lw);
                        let eh = self.eq(h, ch);
                        if self.cv(eh) == Some(0) { return eh; }
                        let el = self.eq(l, cl);
                        return self.and(eh, el);
                    }
                    K::Add(p, q) => {
                        if let Some(z) = self.cv(q) { let c = self.c(y.wrapping_sub(z), w); return self.eq(p, c); }
                    }
                    K::Xor(p, q) => {
                        if let Some(z) = self.cv(q) { let c = self.c(y ^ z, w); return self.eq(p, c); }
                    }
                    K::Ite(c, t, f) => {
                        let (tv, fv) = (self.cv(t), self.cv(f));
                        if tv.is_some() || fv.is_some() {
                            let et = self.eq(t, b); let ef = self.eq(f, b);
                            return self.ite(c, et, ef);
                        }
                    }
                    _ => {}
                }
            }
            _ => {
                match (self.k(a), self.k(b)) {
                    (K::ZExt(x), K::ZExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                    (K::Concat(h1, l1), K::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                        let eh = self.eq(h1, h2);
                        if self.cv(eh) == Some(0) { return eh; }
                        let el = self.eq(l1, l2);
                        return self.and(eh, el);
                    }
                    (K::Add(p, q), K::Add(r, s)) if q == s => return self.eq(p, r),
                    (K::Add(p, q), K::Add(r, s)) if self.cv(q).is_some() && self.cv(s).is_some() => {
                        if p == r { return self.c(0, 1); }
                    }
                    (K::Add(p, q), _) if p == b && self.cv(q).is_some() => return self.c(0, 1),
                    (_, K::Add(r, s)) if r == a && self.cv(s).is_some() => return self.c(0, 1),
                    _ => {}
                }
                if w == 1 { let x = self.xor(a, b); return self.not1(x); }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b { return self.c(0, 1); }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c((x < y) as u128, 1),
            (_, Some(0)) => return self.c(0, 1),
            (_, Some(1)) => { let z = self.c(0, w); return self.eq(a, z); }
            (Some(0), _) => { let z = self.c(0, w); let e = self.eq(b, z); return self.not1(e); }
            (Some(x), _) if x == mask(w) => return self.c(0, 1),
            (None, Some(y)) => {
                let sb = self.sig_bits(a);
                if sb < 128 && y > mask(sb) { return self.tru(); }
                if let K::ZExt(x) = self.k(a) {
                    let xw = self.w(x);
                    let c = self.c(y, xw);
                    return self.ult(x, c);
                }
            }
            (Some(x), None) => {
                let sb = self.sig_bits(b);
                if sb < 128 && x >= mask(sb) { return self.c(0, 1); }
                if let K::ZExt(y) = self.k(b) {
                    let yw = self.w(y);
                    let c = self.c(x, yw);
                    return self.ult(c, y);
                }
            }
            _ => {
                if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
                    if self.w(x) == self.w(y) { return self.ult(x, y); }
                }
            }
        }
        self.mk(K::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex { let x = self.ult(b, a); self.not1(x) }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b { return self.c(0, 1); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.c((sext128(x, w) < sext128(y, w)) as u128, 1); }
        if self.sig_bits(a) < w && self.sig_bits(b) < w { return self.ult(a, b); }
        self.mk(K::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: Ex, b: Ex) -> Ex { let x = self.slt(b, a); self.not1(x) }
    pub fn ite(&mut self, c: Ex, t: Ex, f: Ex) -> Ex {
        if t == f { return t; }
        if let Some(v) = self.cv(c) { return if v != 0 { t } else { f }; }
        if let Some(n) = self.is_not(c) { return self.ite(n, f, t); }
        let w = self.w(t);
        if w == 1 {
            match (self.cv(t), self.cv(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or(c, f),
                (Some(0), None) => { let n = self.not1(c); return self.and(n, f); }
                (None, Some(0)) => return self.and(c, t),
                (None, Some(1)) => { let n = self.not1(c); return self.or(n, t); }
                _ => {}
            }
        }
        if let K::Ite(c2, t2, _) = self.k(t) { if c2 == c { return self.ite(c, t2, f); } }
        if let K::Ite(c2, _, f2) = self.k(f) { if c2 == c { return self.ite(c, t, f2); } }
        self.mk(K::Ite(c, t, f), w)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w <= 128, "concat too wide");
        match (self.cv(h), self.cv(l)) {
            (Some(x), Some(y)) => return self.c((x << lw) | y, w),
            (Some(0), _) => return self.zext(l, w),
            _ => {}
        }
        if let (K::Extract(x, lo1), K::Extract(y, lo2)) = (self.k(h), self.k(l)) {
            if x == y && lo1 == lo2 + lw { return self.extract(x, lo2, w); }
        }
        // Extract(x,lw..) : x  where l is x's low part not Extract node (l==whole?) handled above.
        if let K::Concat(h2, l2) = self.k(l) {
            // merge h with h2 if adjacent extracts
            if let (K::Extract(x, lo1), K::Extract(y, lo2)) = (self.k(h), self.k(h2)) {
                if x == y && lo1 == lo2 + self.w(h2) {
                    let m = self.extract(x, lo2, hw + self.w(h2));
                    return self.concat(m, l2);
                }
            }
            if self.cv(h).is_some() && self.cv(h2).is_some() {
                let m = self.concat(h, h2);
                return self.concat(m, l2);
            }
        }
        if let K::Concat(h2, l2) = self.k(h) {
            if self.cv(l2).is_some() && self.cv(l).is_some() {
                let m = self.concat(l2, l);
                return self.concat(h2, m);
            }
            if let (K::Extract(x, lo1), K::Extract(y, lo2)) = (self.k(l2), self.k(l)) {
                if x == y && lo1 == lo2 + lw {
                    let m = self.extract(x, lo2, lw + self.w(l2));
                    return self.concat(h2, m);
                }
            }
        }
        if let K::ZExt(x) = self.k(h) {
            let m = self.concat(x, l);
            return self.zext(m, w);
        }
        // undo byte-wise splitting of conditional values
        if let K::Ite(c, t1, f1) = self.k(h) {
            match self.k(l) {
                K::Ite(c2, t2, f2) if c2 == c => { let t = self.concat(t1, t2); let f = self.concat(f1, f2); return self.ite(c, t, f); }
                K::Concat(h2, l2) => if let K::Ite(c2, _, _) = self.k(h2) { if c2 == c { let m = self.concat(h, h2); return self.concat(m, l2); } },
                _ => {}
            }
        }
        if let K::Concat(h2, l2) = self.k(h) {
            if let (K::Ite(c, _, _), K::Ite(c2, _, _)) = (self.k(l2), self.k(l)) { if c == c2 { let m = self.concat(l2, l); return self.concat(h2, m); } }
        }
        self.mk(K::Concat(h, l), w)
    }
    pub fn extract(&mut self, a: Ex, lo: u16, n: u16) -> Ex {
        let w = self.w(a);
        debug_assert!(lo + n <= w);
        if lo == 0 && n == w { return a; }
        match self.k(a) {
            K::Const(v) => return self.c(v >> lo, n),
            K::Extract(x, l2) => return self.extract(x, l2 + lo, n),
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.extract(h, lo - lw, n); }
                if lo + n <= lw { return self.extract(l, lo, n); }
                let hh = self.extract(h, 0, lo + n - lw);
                let ll = self.extract(l, lo, lw - lo);
                return self.concat(hh, ll);
            }
            K::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.c(0, n); }
                if lo + n <= xw { return self.extract(x, lo, n); }
                let e = self.extract(x, lo, xw - lo);
                return self.zext(e, n);
            }
            K::SExt(x) => {
                let xw = self.w(x);
                if lo + n <= xw { return self.extract(x, lo, n); }
                if lo == 0 && n > xw { return self.sext(x, n); }
            }
            K::Ite(c, t, f) => {
                if self.cv(t).is_some() || self.cv(f).is_some() || lo == 0 {
                    let t2 = self.extract(t, lo, n); let f2 = self.extract(f, lo, n);
                    return self.ite(c, t2, f2);
                }
            }
            K::And(x, y) => { let p = self.extract(x, lo, n); let q = self.extract(y, lo, n); return self.and(p, q); }
            K::Or(x, y) => { let p = self.extract(x, lo, n); let q = self.extract(y, lo, n); return self.or(p, q); }
            K::Xor(x, y) => { let p = self.extract(x, lo, n); let q = self.extract(y, lo, n); return self.xor(p, q); }
            _ => {}
        }
        self.mk(K::Extract(a, lo), n)
    }
    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        debug_assert!(w > aw);
        match self.k(a) {
            K::Const(v) => return self.c(v, w),
            K::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.mk(K::ZExt(a), w)
    }
    pub fn sext(&mut self, a: Ex, w: u16) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.k(a) {
            K::Const(v) => return self.c(sext128(v, aw) as u128, w),
            K::SExt(x) => return self.sext(x, w),
            K::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.mk(K::SExt(a), w)
    }
    pub fn trunc(&mut self, a: Ex, w: u16) -> Ex { self.extract(a, 0, w) }

    pub fn children(&self, e: Ex) -> ([Ex; 3], usize) {
        match self.k(e) {
            K::Const(_) | K::Var(_) => ([0; 3], 0),
            K::Add(a, b) | K::Sub(a, b) | K::Mul(a, b) | K::UDiv(a, b) | K::SDiv(a, b) | K::URem(a, b) | K::SRem(a, b)
            | K::And(a, b) | K::Or(a, b) | K::Xor(a, b) | K::Shl(a, b) | K::LShr(a, b) | K::AShr(a, b) | K::Eq(a, b)
            | K::Ult(a, b) | K::Slt(a, b) | K::Concat(a, b) => ([a, b, 0], 2),
            K::Ite(a, b, c) => ([a, b, c], 3),
            K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => ([a, 0, 0], 1),
        }
    }
    /// sorted set of variables of e (iterative, memoised)
    pub fn vset(&mut self, e: Ex) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = self.vsets.get(&e) { return s.clone(); }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.vsets.contains_key(&x) { stack.pop(); continue; }
            let (ch, n) = self.children(x);
            let mut ready = true;
            for i in 0..n { if !self.vsets.contains_key(&ch[i]) { stack.push(ch[i]); ready = false; } }
            if !ready { continue; }
            stack.pop();
            let s = if let K::Var(v) = self.k(x) { vec![v] } else if n == 0 { vec![] } else if n == 1 {
                let r = self.vsets[&ch[0]].clone(); self.vsets.insert(x, r); continue;
            } else {
                let mut s: Vec<u32> = Vec::new();
                for i in 0..n { s.extend(self.vsets[&ch[i]].iter()); }
                s.sort_unstable(); s.dedup(); s
            };
            self.vsets.insert(x, std::rc::Rc::new(s));
        }
        self.vsets[&e].clone()
    }
    /// evaluate under an assignment (missing variables are 0)
    pub fn eval(&self, e: Ex, m: &HashMap<u32, u128>, memo: &mut HashMap<Ex, u128>) -> u128 {
        if let K::Const(v) = self.k(e) { return v; }
        if let Some(&v) = memo.get(&e) { return v; }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) { stack.pop(); continue; }
            let (ch, n) = self.children(x);
            let mut ready = true;
            for i in 0..n { if !memo.contains_key(&ch[i]) { stack.push(ch[i]); ready = false; } }
            if !ready { continue; }
            stack.pop();
            let w = self.w(x);
            let g = |i: usize| memo[&ch[i]];
            let cw = if n > 0 { self.w(ch[0]) } else { 0 };
            let v = match self.k(x) {
                K::Const(v) => v,
                K::Var(v) => m.get(&v).copied().unwrap_or(0),
                K::Add(..) => g(0).wrapping_add(g(1)),
                K::Sub(..) => g(0).wrapping_sub(g(1)),
                K::Mul(..) => g(0).wrapping_mul(g(1)),
                K::UDiv(..) => if g(1) == 0 { mask(w) } else { g(0) / g(1) },
                K::URem(..) => if g(1) == 0 { g(0) } else { g(0) % g(1) },
                K::SDiv(..) => { let (a, b) = (sext128(g(0), w), sext128(g(1), w)); if b == 0 { if a < 0 { 1 } else { mask(w) } } else { a.wrapping_div(b) as u128 } }
                K::SRem(..) => { let (a, b) = (sext128(g(0), w), sext128(g(1), w)); if b == 0 { a as u128 } else { a.wrapping_rem(b) as u128 } }
                K::And(..) => g(0) & g(1),
                K::Or(..) => g(0) | g(1),
                K::Xor(..) => g(0) ^ g(1),
                K::Shl(..) => if g(1) >= w as u128 { 0 } else { g(0) << g(1) },
                K::LShr(..) => if g(1) >= w as u128 { 0 } else { g(0) >> g(1) },
                K::AShr(..) => (sext128(g(0), w) >> g(1).min(w as u128 - 1)) as u128,
                K::Eq(..) => (g(0) == g(1)) as u128,
                K::Ult(..) => (g(0) < g(1)) as u128,
                K::Slt(..) => (sext128(g(0), cw) < sext128(g(1), cw)) as u128,
                K::Ite(..) => if g(0) != 0 { g(1) } else { g(2) },
                K::Concat(_, l) => (g(0) << self.w(l)) | g(1),
                K::Extract(_, lo) => g(0) >> lo,
                K::ZExt(_) => g(0),
                K::SExt(_) => sext128(g(0), cw) as u128,
            } & mask(w);
            memo.insert(x, v);
        }
        memo[&e]
    }
}

/// Interval facts about expressions, derived from a conjunction of constraints.
#[derive(Clone, Default)]
pub struct Bounds { pub b: HashMap<Ex, (u128, u128)>, memo: std::cell::RefCell<HashMap<Ex, (u128, u128)>> }
impl Bounds {
    fn meet(&mut self, p: &Pool, e: Ex, lo: u128, hi: u128) {
        if p.cv(e).is_some() { return; }
        let (a, b) = self.range(p, e);
        let (l, h) = (lo.max(a), hi.min(b));
        if l > h || (l, h) == (a, b) { return; }
        self.b.insert(e, (l, h));
        self.memo.borrow_mut().clear();
        // push through invertible wrappers
        match p.k(e) {
            K::ZExt(x) => self.meet(p, x, l, h),
            K::Add(x, c) => if let Some(c) = p.cv(c) {
                // x + c in [l,h] without wrapping
                let m = mask(p.w(e));
                let (xl, xh) = self.range(p, x);
                if xh.checked_add(c).map_or(false, |t| t <= m) { if h >= c { self.meet(p, x, l.saturating_sub(c), h - c); } let _ = xl; }
                else { let nc = (m - c).wrapping_add(1) & m; if xl >= nc && nc != 0 { self.meet(p, x, (l + nc).min(m), (h.saturating_add(nc)).min(m)); } }
            },
            K::Concat(hh, ll) => { let lw = p.w(ll); self.meet(p, hh, l >> lw, h >> lw); }
            K::Extract(x, lo) if lo + p.w(e) == p.w(x) => { let m = if lo == 0 { 0 } else { mask(lo) }; self.meet(p, x, l << lo, (h << lo) | m); }
            _ => {}
        }
    }
    /// record that the 1-bit expression e has value v
    pub fn learn(&mut self, p: &Pool, e: Ex, v: bool) {
        match p.k(e) {
            K::And(a, b) if v => { self.learn(p, a, true); self.learn(p, b, true); }
            K::Or(a, b) if !v => { self.learn(p, a, false); self.learn(p, b, false); }
            K::Xor(..) => if let Some(x) = p.is_not(e) { self.learn(p, x, !v); return; },
            K::Ult(a, b) => {
                let (ra, rb) = (self.range(p, a), self.range(p, b));
                if v {
                    if rb.1 > 0 { self.meet(p, a, 0, rb.1 - 1); }
                    self.meet(p, b, ra.0.saturating_add(1), u128::MAX);
                } else { self.meet(p, a, rb.0, u128::MAX); self.meet(p, b, 0, ra.1); }
            }
            K::Eq(a, b) => {
                let (ra, rb) = (self.range(p, a), self.range(p, b));
                if v { self.meet(p, a, rb.0, rb.1); self.meet(p, b, ra.0, ra.1); }
                else if rb.0 == rb.1 { if ra.0 == rb.0 { self.meet(p, a, ra.0.saturating_add(1), ra.1); } else if ra.1 == rb.0 && ra.1 > 0 { self.meet(p, a, ra.0, ra.1 - 1); } }
            }
            _ => {}
        }
        if p.cv(e).is_none() { self.b.insert(e, (v as u128, v as u128)); self.memo.borrow_mut().clear(); }
    }
    pub fn range(&self, p: &Pool, e: Ex) -> (u128, u128) {
        let mut memo = self.memo.borrow_mut();
        self.rng(p, e, &mut memo)
    }
    fn rng(&self, p: &Pool, e: Ex, memo: &mut HashMap<Ex, (u128, u128)>) -> (u128, u128) {
        if let K::Const(v) = p.k(e) { return (v, v); }
        if let Some(&r) = memo.get(&e) { return r; }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) || p.cv(x).is_some() { st.pop(); continue; }
            let (ch, n) = p.children(x);
            let mut ready = true;
            for i in 0..n { if p.cv(ch[i]).is_none() && !memo.contains_key(&ch[i]) { st.push(ch[i]); ready = false; } }
            if !ready { continue; }
            st.pop();
            let g = |i: usize| match p.k(ch[i]) { K::Const(v) => (v, v), _ => memo[&ch[i]] };
            let w = p.w(x);
            let m = mask(w);
            let full = (0u128, m);
            let mut r = match p.k(x) {
                K::Add(..) => { let (a, b) = (g(0), g(1)); match (a.1.checked_add(b.1), a.0.checked_add(b.0)) {
                    (Some(h), _) if h <= m => (a.0 + b.0, h),
                    (Some(h), Some(l)) if l > m && h <= m.saturating_add(m) && m < u128::MAX => (l - m - 1, h - m - 1),
                    _ => full } }
                K::Sub(..) => { let (a, b) = (g(0), g(1)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
                K::Mul(..) => { let (a, b) = (g(0), g(1)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => full } }
                K::UDiv(..) => { let (a, b) = (g(0), g(1)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
                K::URem(..) => { let (a, b) = (g(0), g(1)); if b.0 > 0 { if a.1 < b.0 { a } else { (0, a.1.min(b.1 - 1)) } } else { full } }
                K::And(..) => (0, g(0).1.min(g(1).1)),
                K::Or(..) => { let (a, b) = (g(0), g(1)); let h = a.1 | b.1; let bits = 128 - h.leading_zeros(); (a.0.max(b.0), if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }) }
                K::Xor(..) => { let (a, b) = (g(0), g(1)); if a.0 == a.1 && b.0 == b.1 { (a.0 ^ b.0, a.0 ^ b.0) } else if w == 1 { full } else { let h = a.1 | b.1; let bits = 128 - h.leading_zeros(); (0, if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }) } }
                K::LShr(..) => { let (a, b) = (g(0), g(1)); if b.0 == b.1 && b.0 < w as u128 { (a.0 >> b.0, a.1 >> b.0) } else { (0, a.1) } }
                K::Eq(..) => { let (a, b) = (g(0), g(1)); if a.1 < b.0 || b.1 < a.0 { (0, 0) } else if a.0 == a.1 && a == b { (1, 1) } else { full } }
                K::Ult(..) => { let (a, b) = (g(0), g(1)); if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { full } }
                K::Slt(a0, _) => { let (a, b) = (g(0), g(1)); let half = 1u128 << (p.w(a0) - 1); if a.1 < half && b.1 < half { if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { full } } else { full } }
                K::Ite(..) => { let (c, a, b) = (g(0), g(1), g(2)); if c.0 == 1 { a } else if c.1 == 0 { b } else { (a.0.min(b.0), a.1.max(b.1)) } }
                K::Concat(_, l) => { let (a, b) = (g(0), g(1)); let lw = p.w(l); ((a.0 << lw) + b.0, (a.1 << lw) + b.1) }
                K::Extract(_, lo) => { let a = g(0); if (a.0 >> lo) & !m == (a.1 >> lo) & !m { ((a.0 >> lo) & m, (a.1 >> lo) & m) } else { full } }
                K::ZExt(_) => g(0),
                K::SExt(y) => { let a = g(0); let yw = p.w(y); if a.1 < 1u128 << (yw - 1) { a } else { full } }
                _ => full,
            };
            if let Some(&(l, h)) = self.b.get(&x) { let t = (r.0.max(l), r.1.min(h)); if t.0 <= t.1 { r = t; } }
            memo.insert(x, r);
        }
        memo[&e]
    }
}
