//! Hash-consed bit-vector terms (floats are bit vectors with IEEE operations) with a simplifier
//! and an evaluator.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

/// Index of a term in the pool.
pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FOlt,
    FOle,
    FOeq,
    FUno,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Uop {
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRound,
    FRne,
    /// unsigned integer -> float of the node's width
    UToF,
    SToF,
    /// saturating float -> unsigned integer of the node's width
    FToU,
    FToS,
    /// float -> float of the node's width
    FCvt,
    /// exp (libm), uninterpreted for the solver
    FExp,
    FLn,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Sym(u32),
    Bin(Bop, E, E),
    Un(Uop, E),
    Ite(E, E, E),
    Extract(E, u16), // low bit
    ZExt(E),
    SExt(E),
    Concat(E, E), // high, low
    Pow(E, E),
    /// a * b + c, rounded once
    Fma(E, E, E),
    Agg(Box<[E]>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    /// bits that may be one
    pub maybe: Vec<u128>,
    map: FxMap<Node, E>,
    pub syms: Vec<(E, u16)>,
    vars: FxMap<E, std::rc::Rc<[u32]>>,
    empty: std::rc::Rc<[u32]>,
    has_fp: Vec<bool>,
    pub monos: FxMap<E, Option<crate::mono::Mono>>,
    pub dyadics: FxMap<E, Option<crate::mono::Dyadic>>,
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: vec![],
            maybe: vec![],
            map: Default::default(),
            syms: vec![],
            vars: Default::default(),
            empty: std::rc::Rc::from(vec![]),
            has_fp: vec![],
            monos: Default::default(),
            dyadics: Default::default(),
        };
        p.c(0, 1);
        p.c(1, 1);
        p
    }

    fn put(&mut self, k: K, w: u16) -> E {
        let n = Node { k, w };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let m = self.maybe_of(&n);
        let fp = self.fp_of(&n);
        self.nodes.push(n.clone());
        self.maybe.push(m);
        self.has_fp.push(fp);
        self.map.insert(n, e);
        e
    }

    fn fp_of(&self, n: &Node) -> bool {
        let h = |e: &E| self.has_fp[*e as usize];
        match &n.k {
            K::Const(_) | K::Sym(_) => false,
            K::Bin(op, a, b) => {
                matches!(
                    op,
                    Bop::FAdd
                        | Bop::FSub
                        | Bop::FMul
                        | Bop::FDiv
                        | Bop::FOlt
                        | Bop::FOle
                        | Bop::FOeq
                        | Bop::FUno
                ) || h(a)
                    || h(b)
            }
            K::Un(..) | K::Pow(..) | K::Fma(..) => true,
            K::Ite(a, b, c) => h(a) || h(b) || h(c),
            K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => h(a),
            K::Concat(a, b) => h(a) || h(b),
            K::Agg(v) => v.iter().any(h),
        }
    }

    pub fn is_fp(&self, e: E) -> bool {
        self.has_fp[e as usize]
    }

    fn maybe_of(&self, n: &Node) -> u128 {
        let m = mask(n.w);
        let g = |e: E| self.maybe[e as usize];
        let r = match &n.k {
            K::Const(v) => *v,
            K::Sym(_) | K::Un(..) | K::Pow(..) | K::Fma(..) => m,
            K::Agg(_) => 0,
            K::Ite(_, a, b) => g(*a) | g(*b),
            K::Extract(a, lo) => g(*a) >> lo,
            K::ZExt(a) => g(*a),
            K::SExt(a) => {
                let wa = self.w(*a);
                if g(*a) >> (wa - 1) & 1 == 1 {
                    m
                } else {
                    g(*a)
                }
            }
            K::Concat(a, b) => (g(*a) << self.w(*b)) | g(*b),
            K::Bin(op, a, b) => {
                let (a, b) = (*a, *b);
                let top = |v: u128| 128 - v.leading_zeros();
                match op {
                    Bop::And => g(a) & g(b),
                    Bop::Or | Bop::Xor => g(a) | g(b),
                    Bop::Shl => match self.cv(b) {
                        Some(k) if k < 128 => g(a) << k,
                        Some(_) => 0,
                        None => {
                            if g(a) == 0 {
                                0
                            } else {
                                m & !((1u128 << g(a).trailing_zeros()) - 1)
                            }
                        }
                    },
                    Bop::LShr => match self.cv(b) {
                        Some(k) if k < 128 => g(a) >> k,
                        Some(_) => 0,
                        None => {
                            let t = top(g(a));
                            mask(t as u16)
                        }
                    },
                    Bop::Add => {
                        let t = top(g(a)).max(top(g(b))) + 1;
                        let z = (g(a) | g(b)).trailing_zeros().min(127);
                        mask(t.min(128) as u16) & !((1u128 << z) - 1)
                    }
                    Bop::Mul => {
                        let t = top(g(a)) + top(g(b));
                        let z = (g(a).trailing_zeros() + g(b).trailing_zeros()).min(127);
                        mask(t.min(128) as u16) & !((1u128 << z) - 1)
                    }
                    Bop::UDiv => match self.cv(b) {
                        Some(v) if v != 0 => mask(top(g(a)) as u16),
                        _ => m,
                    },
                    Bop::URem => mask(top(g(a)).max(1) as u16),
                    _ => m,
                }
            }
        };
        r & m
    }

    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn k(&self, e: E) -> &K {
        &self.nodes[e as usize].k
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].k {
            K::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn c(&mut self, v: u128, w: u16) -> E {
        self.put(K::Const(v & mask(w)), w)
    }
    pub fn c64(&mut self, v: u64) -> E {
        self.put(K::Const(v as u128), 64)
    }
    pub fn agg(&mut self, v: Vec<E>) -> E {
        self.put(K::Agg(v.into_boxed_slice()), 0)
    }
    pub fn agg_items(&self, e: E) -> &[E] {
        match self.k(e) {
            K::Agg(v) => v,
            k => panic!("aggregate expected, got {:?}", k),
        }
    }
    /// The symbol with this index (created on first use).
    pub fn sym(&mut self, idx: u32, w: u16) -> E {
        let e = self.put(K::Sym(idx << 8 | w as u32), w);
        if !self.vars.contains_key(&e) {
            self.vars
                .insert(e, std::rc::Rc::from(vec![idx << 8 | w as u32]));
        }
        e
    }

    pub fn vars(&mut self, e: E) -> std::rc::Rc<[u32]> {
        if let Some(v) = self.vars.get(&e) {
            return v.clone();
        }
        let kids: Vec<E> = match self.k(e) {
            K::Const(_) => return self.empty.clone(),
            K::Sym(_) => unreachable!(),
            K::Bin(_, a, b) | K::Concat(a, b) | K::Pow(a, b) => vec![*a, *b],
            K::Un(_, a) | K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => vec![*a],
            K::Ite(a, b, c) | K::Fma(a, b, c) => vec![*a, *b, *c],
            K::Agg(v) => v.to_vec(),
        };
        let mut r: Vec<u32> = vec![];
        for k in kids {
            let v = self.vars(k);
            if r.is_empty() {
                r = v.to_vec();
            } else {
                r.extend_from_slice(&v);
                r.sort_unstable();
                r.dedup();
            }
        }
        let r: std::rc::Rc<[u32]> = r.into();
        self.vars.insert(e, r.clone());
        r
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.bin(Bop::Xor, a, m)
    }
    pub fn is_not(&self, e: E) -> Option<E> {
        if let K::Bin(Bop::Xor, a, b) = self.k(e) {
            if self.cv(*b) == Some(mask(self.w(e))) {
                return Some(*a);
            }
        }
        None
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Bop::Eq, a, b)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        assert!(w >= wa);
        if w == wa {
            return a;
        }
        match self.k(a) {
            K::Const(v) => {
                let v = *v;
                self.c(v, w)
            }
            K::ZExt(b) => {
                let b = *b;
                self.zext(b, w)
            }
            _ => self.put(K::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        assert!(w >= wa);
        if w == wa {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(sext(v, wa) as u128, w);
        }
        if self.maybe[a as usize] >> (wa - 1) & 1 == 0 {
            return self.zext(a, w);
        }
        if let K::SExt(b) = self.k(a) {
            let b = *b;
            return self.sext(b, w);
        }
        self.put(K::SExt(a), w)
    }
    /// bits lo .. lo+w
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        if lo == 0 && w == wa {
            return a;
        }
        let m = self.maybe[a as usize];
        if (m >> lo) & mask(w) == 0 {
            return self.c(0, w);
        }
        match self.k(a).clone() {
            K::Const(v) => self.c(v >> lo, w),
            K::Extract(b, l2) => self.extract(b, lo + l2, w),
            K::ZExt(b) => {
                let wb = self.w(b);
                if lo >= wb {
                    self.c(0, w)
                } else if lo + w <= wb {
                    self.extract(b, lo, w)
                } else {
                    let x = self.extract(b, lo, wb - lo);
                    self.zext(x, w)
                }
            }
            K::SExt(b) if lo + w <= self.w(b) => self.extract(b, lo, w),
            K::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    self.extract(l, lo, w)
                } else if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else {
                    let x = self.extract(l, lo, wl - lo);
                    let y = self.extract(h, 0, w - (wl - lo));
                    self.concat(y, x)
                }
            }
            K::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.bin(op, x, y)
            }
            K::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                self.bin(op, x, y)
            }
            K::Bin(Bop::LShr, x, s) if self.cv(s).is_some() => {
                let s = self.cv(s).unwrap();
                if s + lo as u128 + w as u128 <= wa as u128 {
                    self.extract(x, lo + s as u16, w)
                } else {
                    self.put(K::Extract(a, lo), w)
                }
            }
            K::Ite(c, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.ite(c, x, y)
            }
            _ => self.put(K::Extract(a, lo), w),
        }
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E {
        self.extract(a, 0, w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        let wl = self.w(l);
        match (self.cv(h), self.cv(l)) {
            (Some(a), Some(b)) => return self.c(a << wl | b, w),
            (Some(0), _) => return self.zext(l, w),
            _ => {}
        }
        // adjacent extracts
        if let (K::Extract(x, lh), K::Extract(y, ll)) = (self.k(h), self.k(l)) {
            if x == y && *lh == ll + wl {
                let (x, ll) = (*x, *ll);
                return self.extract(x, ll, w);
            }
        }
        if let K::Extract(x, lh) = self.k(h) {
            if *x == l && *lh == wl {
                let x = *x;
                return self.extract(x, 0, w);
            }
            // high part of x above its low part l = extract(x,0)
        }
        // concat(zext(h'), l)  => zext(concat(h', l))
        if let K::ZExt(h2) = self.k(h) {
            let h2 = *h2;
            let x = self.concat(h2, l);
            return self.zext(x, w);
        }
        // concat(concat(a, b), l) with b,l mergeable
        if let K::Concat(a, b) = self.k(h).clone() {
            if let (K::Extract(x, lh), K::Extract(y, ll)) = (self.k(b), self.k(l)) {
                if x == y && *lh == ll + wl {
                    let x = self.concat(b, l);
                    return self.concat(a, x);
                }
            }
            if self.cv(b).is_some() && self.cv(l).is_some() {
                let x = self.concat(b, l);
                return self.concat(a, x);
            }
        }
        self.put(K::Concat(h, l), w)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.cv(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        if let Some(n) = self.is_not(c) {
            return self.ite(n, b, a);
        }
        let w = self.w(a);
        if let K::Agg(x) = self.k(a).clone() {
            let y = self.agg_items(b).to_vec();
            let v = x
                .iter()
                .zip(y)
                .map(|(&p, q)| self.ite(c, p, q))
                .collect::<Vec<_>>();
            return self.agg(v);
        }
        assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Bop::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Bop::And, n, b);
                }
                (_, Some(0)) => return self.bin(Bop::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Bop::Or, n, a);
                }
                _ => {}
            }
        }
        if let K::Ite(c2, x, y) = self.k(a).clone() {
            if c2 == c {
                return self.ite(c, x, b);
            }
            if x == b {
                // ite(c, ite(c2, b, y), b) = ite(c & !c2, y, b)
                let n = self.not(c2);
                let k = self.bin(Bop::And, c, n);
                return self.ite(k, y, b);
            }
            if y == b {
                let k = self.bin(Bop::And, c, c2);
                return self.ite(k, x, b);
            }
        }
        if let K::Ite(c2, x, y) = self.k(b).clone() {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let k = self.bin(Bop::Or, c, c2);
                return self.ite(k, a, y);
            }
        }
        // both zero-extensions
        if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
            let (x, y) = (*x, *y);
            let m = self.w(x).max(self.w(y));
            let x = self.zext(x, m);
            let y = self.zext(y, m);
            let r = self.ite(c, x, y);
            return self.zext(r, w);
        }
        if let (K::ZExt(x), Some(v)) = (self.k(a), self.cv(b)) {
            let x = *x;
            if v <= mask(self.w(x)) {
                let y = self.c(v, self.w(x));
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        if let (Some(v), K::ZExt(y)) = (self.cv(a), self.k(b)) {
            let y = *y;
            if v <= mask(self.w(y)) {
                let x = self.c(v, self.w(y));
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        self.put(K::Ite(c, a, b), w)
    }

    pub fn cbin(op: Bop, a: u128, b: u128, w: u16) -> u128 {
        let m = mask(w);
        let bb = |x: bool| x as u128;
        match op {
            Bop::Add => a.wrapping_add(b) & m,
            Bop::Sub => a.wrapping_sub(b) & m,
            Bop::Mul => a.wrapping_mul(b) & m,
            Bop::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Bop::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Bop::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128 & m
                }
            }
            Bop::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128 & m
                }
            }
            Bop::And => a & b,
            Bop::Or => a | b,
            Bop::Xor => a ^ b,
            Bop::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Bop::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Bop::AShr => {
                let x = sext(a, w);
                let s = if b >= w as u128 { 127 } else { b as u32 };
                (x >> s) as u128 & m
            }
            Bop::Eq => bb(a == b),
            Bop::Ult => bb(a < b),
            Bop::Ule => bb(a <= b),
            Bop::Slt => bb(sext(a, w) < sext(b, w)),
            Bop::Sle => bb(sext(a, w) <= sext(b, w)),
            Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv => {
                if w == 64 {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    let r = match op {
                        Bop::FAdd => x + y,
                        Bop::FSub => x - y,
                        Bop::FMul => x * y,
                        _ => x / y,
                    };
                    canon64(r) as u128
                } else {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    let r = match op {
                        Bop::FAdd => x + y,
                        Bop::FSub => x - y,
                        Bop::FMul => x * y,
                        _ => x / y,
                    };
                    canon32(r) as u128
                }
            }
            Bop::FOlt | Bop::FOle | Bop::FOeq | Bop::FUno => {
                let (x, y) = if w == 64 {
                    (f64::from_bits(a as u64), f64::from_bits(b as u64))
                } else {
                    (
                        f32::from_bits(a as u32) as f64,
                        f32::from_bits(b as u32) as f64,
                    )
                };
                bb(match op {
                    Bop::FOlt => x < y,
                    Bop::FOle => x <= y,
                    Bop::FOeq => x == y,
                    _ => x.is_nan() || y.is_nan(),
                })
            }
        }
    }

    pub fn is_cmp(op: Bop) -> bool {
        matches!(
            op,
            Bop::Eq
                | Bop::Ult
                | Bop::Ule
                | Bop::Slt
                | Bop::Sle
                | Bop::FOlt
                | Bop::FOle
                | Bop::FOeq
                | Bop::FUno
        )
    }

    fn ite_consts(&self, e: E, depth: u32) -> bool {
        match self.k(e) {
            K::Const(_) => true,
            // a chain (at most one side nests), so that pushing into it stays linear
            K::Ite(_, a, b) if depth > 0 => {
                (self.cv(*a).is_some() && self.ite_consts(*b, depth - 1))
                    || (self.cv(*b).is_some() && self.ite_consts(*a, depth - 1))
            }
            _ => false,
        }
    }

    pub fn bin(&mut self, op: Bop, a: E, b: E) -> E {
        use Bop::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?} {:?} {:?}", op, self.k(a), self.k(b));
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = Self::cbin(op, x, y, w);
            return self.c(r, rw);
        }
        // commutative: constant to the right, else ordered
        let comm = matches!(op, Add | Mul | And | Or | Xor | Eq | FAdd | FMul | FOeq | FUno);
        let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        let m = mask(w);
        let (ma, mb) = (self.maybe[a as usize], self.maybe[b as usize]);
        match op {
            SDiv | SRem => {}
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (K::Bin(Add, x, y), Some(v)) = (self.k(a).clone(), cb) {
                    if let Some(u) = self.cv(y) {
                        let s = self.c(u.wrapping_add(v), w);
                        return self.bin(Add, x, s);
                    }
                }
                // (x + k) + y => (x + y) + k
                if cb.is_none() {
                    if let K::Bin(Add, x, y) = self.k(a).clone() {
                        if self.cv(y).is_some() {
                            let s = self.bin(Add, x, b);
                            return self.bin(Add, s, y);
                        }
                    }
                    if let K::Bin(Add, x, y) = self.k(b).clone() {
                        if self.cv(y).is_some() {
                            let s = self.bin(Add, a, x);
                            return self.bin(Add, s, y);
                        }
                    }
                }
                if ma & mb == 0 && w > 1 {
                    return self.bin(Or, a, b);
                }
                if let (K::Concat(h, l), Some(v)) = (self.k(a).clone(), cb) {
                    let wl = self.w(l);
                    if v & mask(wl) == 0 {
                        let k = self.c(v >> wl, w - wl);
                        let h = self.bin(Add, h, k);
                        return self.concat(h, l);
                    }
                }
                // x + (y - x)
                if let K::Bin(Sub, p, q) = self.k(b).clone() {
                    if q == a {
                        return p;
                    }
                }
                if let K::Bin(Sub, p, q) = self.k(a).clone() {
                    if q == b {
                        return p;
                    }
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
            }
            Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(v) = cb {
                    let n = self.c(v.wrapping_neg(), w);
                    return self.bin(Add, a, n);
                }
                // (b + x) - b
                if let K::Bin(Add, x, y) = self.k(a).clone() {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    if self.cv(y).is_some() {
                        let s = self.bin(Sub, x, b);
                        return self.bin(Add, s, y);
                    }
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
            }
            Mul => {
                match cb {
                    Some(0) => return b,
                    Some(1) => return a,
                    Some(v) if v.is_power_of_two() => {
                        let s = self.c(v.trailing_zeros() as u128, w);
                        return self.bin(Shl, a, s);
                    }
                    _ => {}
                }
                if w == 1 {
                    return self.bin(And, a, b);
                }
            }
            UDiv => {
                if let Some(v) = cb {
                    if v == 1 {
                        return a;
                    }
                    if v.is_power_of_two() {
                        let s = self.c(v.trailing_zeros() as u128, w);
                        return self.bin(LShr, a, s);
                    }
                }
            }
            URem => {
                if let Some(v) = cb {
                    if v.is_power_of_two() {
                        let s = self.c(v - 1, w);
                        return self.bin(And, a, s);
                    }
                    if v > ma {
                        return a;
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if ma & mb == 0 {
                    return self.c(0, w);
                }
                if let Some(v) = cb {
                    // all bits a may have are kept
                    if ma & !v == 0 {
                        return a;
                    }
                    // contiguous low mask
                    if v & (v + 1) == 0 && v != 0 {
                        let k = v.count_ones() as u16;
                        if k < w {
                            let x = self.extract(a, 0, k);
                            return self.zext(x, w);
                        }
                    }
                    if let K::ZExt(x) = self.k(a).clone() {
                        let wx = self.w(x);
                        let c2 = self.c(v, wx);
                        let r = self.bin(And, x, c2);
                        return self.zext(r, w);
                    }
                    if let K::Bin(And, x, y) = self.k(a).clone() {
                        if let Some(u) = self.cv(y) {
                            let c2 = self.c(u & v, w);
                            return self.bin(And, x, c2);
                        }
                    }
                    if let K::Concat(h, l) = self.k(a).clone() {
                        let wl = self.w(l);
                        let kl = self.c(v, wl);
                        let kh = self.c(v >> wl, w - wl);
                        let l = self.bin(And, l, kl);
                        let h = self.bin(And, h, kh);
                        return self.concat(h, l);
                    }
                }
                if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
                    if self.w(*x) == self.w(*y) {
                        let (x, y) = (*x, *y);
                        let r = self.bin(And, x, y);
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.c(0, 1);
                    }
                    if let K::Bin(And, x, y) = self.k(a) {
                        if *x == b || *y == b {
                            return a;
                        }
                    }
                    if let K::Bin(And, x, y) = self.k(b) {
                        if *x == a || *y == a {
                            return b;
                        }
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if ma & mb == 0 && w > 1 {
                    // disjoint: try to form a concatenation at a split point
                    let (hi, lo, mh, ml) = if ma > mb {
                        (a, b, ma, mb)
                    } else {
                        (b, a, mb, ma)
                    };
                    if mh != 0 && ml != 0 {
                        let k = 128 - ml.leading_zeros() as u16;
                        if mh.trailing_zeros() as u16 >= k && k < w {
                            let h = self.extract(hi, k, w - k);
                            let l = self.extract(lo, 0, k);
                            return self.concat(h, l);
                        }
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.c(1, 1);
                    }
                    if let K::Bin(Or, x, y) = self.k(a) {
                        if *x == b || *y == b {
                            return a;
                        }
                    }
                }
                if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
                    if self.w(*x) == self.w(*y) {
                        let (x, y) = (*x, *y);
                        let r = self.bin(Or, x, y);
                        return self.zext(r, w);
                    }
                }
                if let (K::ZExt(x), Some(v)) = (self.k(a), cb) {
                    let x = *x;
                    if v <= mask(self.w(x)) {
                        let y = self.c(v, self.w(x));
                        let r = self.bin(Or, x, y);
                        return self.zext(r, w);
                    }
                }
                // or of two concats with the same split
                if let (K::Concat(h, l), K::Concat(h2, l2)) = (self.k(a).clone(), self.k(b).clone())
                {
                    if self.w(l) == self.w(l2) {
                        let x = self.bin(Or, h, h2);
                        let y = self.bin(Or, l, l2);
                        return self.concat(x, y);
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(v) = cb {
                    if let K::Bin(Xor, x, y) = self.k(a).clone() {
                        if let Some(u) = self.cv(y) {
                            let k = self.c(u ^ v, w);
                            return self.bin(Xor, x, k);
                        }
                    }
                    if w == 1 {
                        // v == 1: negation of comparisons
                        match self.k(a).clone() {
                            K::Bin(Ult, x, y) => return self.bin(Ule, y, x),
                            K::Bin(Ule, x, y) => return self.bin(Ult, y, x),
                            K::Bin(Slt, x, y) => return self.bin(Sle, y, x),
                            K::Bin(Sle, x, y) => return self.bin(Slt, y, x),
                            _ => {}
                        }
                    }
                    if let K::ZExt(x) = self.k(a).clone() {
                        if v <= mask(self.w(x)) {
                            let y = self.c(v, self.w(x));
                            let r = self.bin(Xor, x, y);
                            return self.zext(r, w);
                        }
                    }
                }
                if ma & mb == 0 && w > 1 {
                    return self.bin(Or, a, b);
                }
            }
            Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(a, 0, w - k as u16);
                    let z = self.c(0, k as u16);
                    return self.concat(x, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(a, k as u16, w - k as u16);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ma >> (w - 1) & 1 == 0 {
                    return self.bin(LShr, a, b);
                }
                if let Some(k) = cb {
                    let k = k.min(w as u128 - 1) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if w == 1 {
                    if let Some(v) = cb {
                        return if v == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(v) = cb {
                    if v & !ma != 0 {
                        return self.c(0, 1);
                    }
                    match self.k(a).clone() {
                        K::ZExt(x) => {
                            let y = self.c(v, self.w(x));
                            return self.bin(Eq, x, y);
                        }
                        K::SExt(x) => {
                            let wx = self.w(x);
                            let y = self.c(v, wx);
                            if sext(v & mask(wx), wx) as u128 & m != v {
                                return self.c(0, 1);
                            }
                            return self.bin(Eq, x, y);
                        }
                        K::Concat(h, l) => {
                            let wl = self.w(l);
                            let kl = self.c(v, wl);
                            let kh = self.c(v >> wl, w - wl);
                            let x = self.bin(Eq, h, kh);
                            let y = self.bin(Eq, l, kl);
                            return self.bin(And, x, y);
                        }
                        K::Bin(Add, x, y) if self.cv(y).is_some() => {
                            let u = self.cv(y).unwrap();
                            let k = self.c(v.wrapping_sub(u), w);
                            return self.bin(Eq, x, k);
                        }
                        K::Bin(Xor, x, y) if self.cv(y).is_some() => {
                            let u = self.cv(y).unwrap();
                            let k = self.c(v ^ u, w);
                            return self.bin(Eq, x, k);
                        }
                        K::Bin(Sub, x, y) if v == 0 => return self.bin(Eq, x, y),
                        K::Bin(Xor, x, y) if v == 0 => return self.bin(Eq, x, y),
                        K::Bin(Or, x, y) if v == 0 => {
                            let p = self.bin(Eq, x, b);
                            let q = self.bin(Eq, y, b);
                            return self.bin(And, p, q);
                        }
                        K::Ite(c, x, y) => {
                            if self.ite_consts(a, 24) || self.cv(x).is_some() || self.cv(y).is_some()
                            {
                                let p = self.bin(Eq, x, b);
                                let q = self.bin(Eq, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        K::Un(Uop::UToF, x) => {
                            // equality of bit patterns, exact for small integers
                            let wx = self.w(x);
                            let top = 128 - self.maybe[x as usize].leading_zeros();
                            if w == 64 && top <= 53 {
                                let f = f64::from_bits(v as u64);
                                if f >= 0.0 && f.fract() == 0.0 && f < 9007199254740992.0 && v != 1 << 63 && (f as u128) <= mask(wx) {
                                    let k = self.c(f as u128, wx);
                                    return self.bin(Eq, x, k);
                                }
                                return self.c(0, 1);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.k(a).clone(), self.k(b).clone()) {
                        (K::ZExt(x), K::ZExt(y)) => {
                            let k = self.w(x).max(self.w(y));
                            let x = self.zext(x, k);
                            let y = self.zext(y, k);
                            if k < w {
                                return self.bin(Eq, x, y);
                            }
                        }
                        (K::Un(Uop::UToF, x), K::Un(Uop::UToF, y)) if w == 64 => {
                            let top = |s: &Self, e: E| 128 - s.maybe[e as usize].leading_zeros();
                            if top(self, x) <= 53 && top(self, y) <= 53 {
                                let k = self.w(x).max(self.w(y));
                                let x = self.zext(x, k);
                                let y = self.zext(y, k);
                                return self.bin(Eq, x, y);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Ult => {
                if a == b {
                    return self.c(0, 1);
                }
                if let Some(v) = cb {
                    if v == 0 {
                        return self.c(0, 1);
                    }
                    if ma < v {
                        return self.c(1, 1);
                    }
                    if v == 1 {
                        let z = self.c(0, w);
                        return self.bin(Eq, a, z);
                    }
                }
                if let Some(v) = ca {
                    if v >= mb {
                        return self.c(0, 1);
                    }
                    if v == 0 {
                        let z = self.bin(Eq, b, a);
                        return self.not(z);
                    }
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(And, n, b);
                }
            }
            Ule => {
                if a == b {
                    return self.c(1, 1);
                }
                if let Some(v) = cb {
                    if ma <= v {
                        return self.c(1, 1);
                    }
                    if v < m {
                        let k = self.c(v + 1, w);
                        return self.bin(Ult, a, k);
                    }
                }
                if let Some(v) = ca {
                    if v == 0 {
                        return self.c(1, 1);
                    }
                    if v > mb {
                        return self.c(0, 1);
                    }
                    let k = self.c(v - 1, w);
                    return self.bin(Ult, k, b);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(Or, n, b);
                }
            }
            Slt | Sle => {
                if a == b {
                    return self.c((op == Sle) as u128, 1);
                }
                let sb = w - 1;
                if ma >> sb & 1 == 0 && mb >> sb & 1 == 0 {
                    return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                }
                if w == 1 {
                    // signed: 1 is -1
                    return self.bin(if op == Slt { Ult } else { Ule }, b, a);
                }
                // sign test of an IEEE value etc: a < 0
                if op == Slt && cb == Some(0) {
                    return self.extract(a, sb, 1);
                }
                if let (K::SExt(x), K::SExt(y)) = (self.k(a).clone(), self.k(b).clone()) {
                    if self.w(x) == self.w(y) {
                        return self.bin(op, x, y);
                    }
                }
            }
            FOlt | FOle | FOeq | FUno => {
                if let Some(r) = self.fcmp(op, a, b, w).or_else(|| if w == 64 { self.mono_cmp(op, a, b) } else { None }) {
                    return r;
                }
            }
            FMul => {
                if cb == Some(1.0f64.to_bits() as u128) && w == 64 && self.not_nan(a) {
                    return a;
                }
            }
            FSub => {}
            FDiv => {
                if cb == Some(1.0f64.to_bits() as u128) && w == 64 && self.not_nan(a) {
                    return a;
                }
            }
            FAdd => {
                // -0.0 is the neutral element; 0.0 is for values that cannot be -0.0
                if w == 64 && self.not_nan(a) {
                    if cb == Some((-0.0f64).to_bits() as u128) {
                        return a;
                    }
                    if cb == Some(0) && self.non_negative(a) {
                        return a;
                    }
                    // exact sums of small integers
                    if let Some(r) = self.int_sum(a, b) {
                        return r;
                    }
                }
            }
        }
        // push into an ite with constant leaves
        if cb.is_some() && !matches!(op, FAdd | FSub | FMul | FDiv) || matches!(op, FAdd | FSub | FMul | FDiv) && cb.is_some() {
            if let K::Ite(c, x, y) = self.k(a).clone() {
                if self.ite_consts(a, 24) {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if ca.is_some() {
            if let K::Ite(c, x, y) = self.k(b).clone() {
                if self.ite_consts(b, 24) {
                    let p = self.bin(op, a, x);
                    let q = self.bin(op, a, y);
                    return self.ite(c, p, q);
                }
            }
        }
        self.put(K::Bin(op, a, b), rw)
    }

    /// x as a small non-negative integer (term, at most 40 significant bits) if it is one
    fn as_int(&mut self, e: E) -> Option<E> {
        match self.k(e).clone() {
            K::Un(Uop::UToF, x) => {
                let top = 128 - self.maybe[x as usize].leading_zeros();
                if top <= 40 {
                    return Some(if self.w(x) < 52 {
                        self.zext(x, 52)
                    } else {
                        self.extract(x, 0, 52)
                    });
                }
                None
            }
            K::Const(v) => {
                let f = f64::from_bits(v as u64);
                if f >= 0.0 && f.fract() == 0.0 && f < 1e12 && v != 1 << 63 {
                    return Some(self.c(f as u128, 52));
                }
                None
            }
            _ => None,
        }
    }

    fn int_sum(&mut self, a: E, b: E) -> Option<E> {
        let x = self.as_int(a)?;
        let y = self.as_int(b)?;
        let s = self.bin(Bop::Add, x, y);
        Some(self.un(Uop::UToF, s, 64))
    }

    pub fn not_nan(&self, e: E) -> bool {
        self.not_nan_d(e, 8)
    }
    fn not_nan_d(&self, e: E, d: u32) -> bool {
        match self.k(e) {
            K::Un(Uop::UToF | Uop::SToF, _) => true,
            K::Const(v) => !f64::from_bits(*v as u64).is_nan(),
            K::Ite(_, a, b) => d > 0 && self.not_nan_d(*a, d - 1) && self.not_nan_d(*b, d - 1),
            K::Bin(Bop::FMul, a, b) => {
                // finite constant times an integer value
                matches!(self.k(*a), K::Un(Uop::UToF | Uop::SToF, _))
                    && self.cv(*b).map_or(false, |v| f64::from_bits(v as u64).is_finite())
            }
            _ => false,
        }
    }
    fn non_negative(&self, e: E) -> bool {
        self.non_negative_d(e, 8)
    }
    fn non_negative_d(&self, e: E, d: u32) -> bool {
        match self.k(e) {
            K::Un(Uop::UToF, _) => true,
            K::Const(v) => v >> 63 == 0,
            K::Ite(_, a, b) => d > 0 && self.non_negative_d(*a, d - 1) && self.non_negative_d(*b, d - 1),
            _ => false,
        }
    }

    /// Comparison of zero-extended values at the smaller width.
    fn cmp_narrow(&mut self, op: Bop, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let part = |s: &Self, e: E| match s.k(e) {
            K::ZExt(x) => Some(s.w(*x)),
            K::Const(v) => Some((128 - v.leading_zeros()).max(1) as u16),
            _ => None,
        };
        let k = part(self, a)?.max(part(self, b)?);
        if k >= w {
            return None;
        }
        let get = |s: &mut Self, e: E| match s.k(e).clone() {
            K::ZExt(x) => s.zext(x, k),
            K::Const(v) => s.c(v, k),
            _ => unreachable!(),
        };
        let x = get(self, a);
        let y = get(self, b);
        Some(self.bin(op, x, y))
    }

    /// The integer (not negative, at most 53 bits) that a float term is the conversion of.
    fn int_view(&mut self, e: E, depth: u32) -> Option<E> {
        if depth == 0 {
            return None;
        }
        match self.k(e).clone() {
            K::Un(Uop::UToF, x) if 128 - self.maybe[x as usize].leading_zeros() <= 53 => Some(x),
            K::Const(c) => {
                let f = f64::from_bits(c as u64);
                if f >= 0.0 && f < 9e15 && f.fract() == 0.0 && c as u64 >> 63 == 0 {
                    Some(self.c(f as u128, 53))
                } else {
                    None
                }
            }
            K::Ite(c, x, y) => {
                let x = self.int_view(x, depth - 1)?;
                let y = self.int_view(y, depth - 1)?;
                let k = self.w(x).max(self.w(y));
                let x = self.zext(x, k);
                let y = self.zext(y, k);
                Some(self.ite(c, x, y))
            }
            _ => None,
        }
    }

    /// The divisor c of a term x / c.
    fn ratio_of(&self, e: E, depth: u32) -> Option<u64> {
        match self.k(e) {
            K::Bin(Bop::FDiv, x, c) => {
                let K::Un(Uop::UToF, x) = self.k(*x) else { return None };
                let f = f64::from_bits(self.cv(*c)? as u64);
                if self.maybe[*x as usize] < 1 << 24 && f >= 1.0 && f <= 65536.0 && f.fract() == 0.0 {
                    Some(f as u64)
                } else {
                    None
                }
            }
            K::Ite(_, x, y) if depth > 0 => self.ratio_of(*x, depth - 1).or_else(|| self.ratio_of(*y, depth - 1)),
            _ => None,
        }
    }

    /// The x of a term x / c, whose order is that of the quotients: those of different whole
    /// numbers, none of them large, differ by more than they are rounded.
    fn ratio_view(&mut self, e: E, c: u64, depth: u32) -> Option<E> {
        match self.k(e).clone() {
            K::Bin(Bop::FDiv, x, _) if self.ratio_of(e, 0) == Some(c) => match self.k(x) {
                K::Un(Uop::UToF, x) => Some(*x),
                _ => None,
            },
            K::Const(k) => {
                let f = f64::from_bits(k as u64);
                let t = (f * c as f64).round();
                if t >= 0.0 && t < 16777216.0 && (t / c as f64).to_bits() == k as u64 {
                    Some(self.c(t as u128, 24))
                } else {
                    None
                }
            }
            K::Ite(q, x, y) if depth > 0 => {
                let x = self.ratio_view(x, c, depth - 1)?;
                let y = self.ratio_view(y, c, depth - 1)?;
                let k = self.w(x).max(self.w(y));
                let x = self.zext(x, k);
                let y = self.zext(y, k);
                Some(self.ite(q, x, y))
            }
            _ => None,
        }
    }

    /// Float comparisons that are really integer comparisons.
    fn fcmp(&mut self, op: Bop, a: E, b: E, w: u16) -> Option<E> {
        if w != 64 {
            return None;
        }
        if op == Bop::FUno {
            let na = self.not_nan(a);
            let nb = self.not_nan(b);
            if na && nb {
                return Some(self.c(0, 1));
            }
            if let Some(r) = self.tab_cmp(op, a, b) {
                return Some(r);
            }
            if nb {
                if a != b {
                    return Some(self.bin(Bop::FUno, a, a));
                }
                // isnan of a bit pattern
                if !self.is_fp(a) {
                    let x = self.extract(a, 0, 63);
                    let inf = self.c(0x7ff0_0000_0000_0000, 63);
                    return Some(self.bin(Bop::Ult, inf, x));
                }
                return None;
            }
            if na {
                return Some(self.bin(Bop::FUno, b, b));
            }
            if a == b {
                if let K::Ite(c, x, y) = self.k(a).clone() {
                    if self.ite_consts(a, 24) {
                        let x = self.bin(op, x, x);
                        let y = self.bin(op, y, y);
                        return Some(self.ite(c, x, y));
                    }
                }
                if !self.is_fp(a) {
                    let x = self.extract(a, 0, 63);
                    let inf = self.c(0x7ff0_0000_0000_0000, 63);
                    return Some(self.bin(Bop::Ult, inf, x));
                }
                return None;
            }
            let x = self.bin(op, a, a);
            let y = self.bin(op, b, b);
            return Some(self.bin(Bop::Or, x, y));
        }
        if a == b && self.not_nan(a) {
            return Some(self.c((op != Bop::FOlt) as u128, 1));
        }
        // both integers
        let int = |s: &Self, e: E| match s.k(e) {
            K::Un(Uop::UToF, x) if 128 - s.maybe[*x as usize].leading_zeros() <= 53 => Some(*x),
            _ => None,
        };
        let iop = match op {
            Bop::FOlt => Bop::Ult,
            Bop::FOle => Bop::Ule,
            _ => Bop::Eq,
        };
        if w == 64 {
            if let (Some(x), Some(y)) = (self.int_view(a, 24), self.int_view(b, 24)) {
                let k = self.w(x).max(self.w(y));
                let x = self.zext(x, k);
                let y = self.zext(y, k);
                return Some(self.bin(iop, x, y));
            }
            if let Some(c) = self.ratio_of(a, 24).or_else(|| self.ratio_of(b, 24)) {
                if let (Some(x), Some(y)) = (self.ratio_view(a, c, 24), self.ratio_view(b, c, 24)) {
                    let k = self.w(x).max(self.w(y));
                    let x = self.zext(x, k);
                    let y = self.zext(y, k);
                    return Some(self.bin(iop, x, y));
                }
            }
        }
        // c vs UToF(x) * 2^-k
        let scaled = |s: &Self, e: E| -> Option<(E, f64)> {
            if let Some(x) = int(s, e) {
                return Some((x, 1.0));
            }
            if let K::Bin(Bop::FMul, p, q) = s.k(e) {
                let x = int(s, *p)?;
                let f = f64::from_bits(s.cv(*q)? as u64);
                let bits = f.to_bits();
                // a power of two not too small or large: the product is exact
                if f > 0.0 && bits & ((1 << 52) - 1) == 0 && (-200..=200).contains(&(((bits >> 52) as i64) - 1023)) {
                    return Some((x, f));
                }
            }
            None
        };
        let fix = |s: &mut Self, x: E, f: f64, c: f64, x_left: bool| -> Option<E> {
            // x*f op c   or   c op x*f, x an integer of at most 53 bits
            let q = c / f; // exact unless it over- or underflows
            if c.is_nan() {
                return Some(s.c(0, 1));
            }
            if c != 0.0 && (!q.is_finite() && c.is_finite() || q * f != c) {
                return None;
            }
            let w = s.w(x);
            let big = |s: &mut Self, v: f64| -> Option<E> {
                // v >= 0 integer valued
                if v > mask(w) as f64 || v >= 1e30 {
                    None
                } else {
                    let v = v as u128;
                    if v > mask(w) {
                        None
                    } else {
                        Some(s.c(v, w))
                    }
                }
            };
            let r = match (op, x_left) {
                (Bop::FOeq, _) => {
                    if q < 0.0 || q.fract() != 0.0 || q.is_infinite() {
                        return Some(s.c(0, 1));
                    }
                    match big(s, q.abs()) {
                        Some(k) => s.bin(Bop::Eq, x, k),
                        None => s.c(0, 1),
                    }
                }
                (Bop::FOlt, true) => {
                    // x < q  <=>  x < ceil(q)
                    if q <= 0.0 {
                        return Some(s.c(0, 1));
                    }
                    match big(s, q.ceil()) {
                        Some(k) => s.bin(Bop::Ult, x, k),
                        None => s.c(1, 1),
                    }
                }
                (Bop::FOle, true) => {
                    if q < 0.0 {
                        return Some(s.c(0, 1));
                    }
                    match big(s, q.floor().abs()) {
                        Some(k) => s.bin(Bop::Ule, x, k),
                        None => s.c(1, 1),
                    }
                }
                (Bop::FOlt, false) => {
                    // q < x  <=>  floor(q) < x
                    if q < 0.0 {
                        return Some(s.c(1, 1));
                    }
                    match big(s, q.floor().abs()) {
                        Some(k) => s.bin(Bop::Ult, k, x),
                        None => s.c(0, 1),
                    }
                }
                _ => {
                    if q <= 0.0 {
                        return Some(s.c(1, 1));
                    }
                    match big(s, q.ceil()) {
                        Some(k) => s.bin(Bop::Ule, k, x),
                        None => s.c(0, 1),
                    }
                }
            };
            Some(r)
        };
        if let (Some((x, f)), Some(c)) = (scaled(self, a), self.cv(b)) {
            return fix(self, x, f, f64::from_bits(c as u64), true);
        }
        if let (Some(c), Some((x, f))) = (self.cv(a), scaled(self, b)) {
            return fix(self, x, f, f64::from_bits(c as u64), false);
        }
        if let (Some((x, f)), Some((y, g))) = (scaled(self, a), scaled(self, b)) {
            if f == g {
                let k = self.w(x).max(self.w(y));
                let x = self.zext(x, k);
                let y = self.zext(y, k);
                return Some(self.bin(iop, x, y));
            }
        }
        if let Some(r) = self.mono_cmp(op, a, b) {
            return Some(r);
        }
        self.dyadic_cmp(op, a, b).or_else(|| self.tab_cmp(op, a, b))
    }

    pub fn cun(op: Uop, v: u128, wi: u16, wo: u16) -> u128 {
        let f = || {
            if wi == 64 {
                f64::from_bits(v as u64)
            } else {
                f32::from_bits(v as u32) as f64
            }
        };
        let pack = |x: f64| {
            if wo == 64 {
                canon64(x) as u128
            } else {
                canon32(x as f32) as u128
            }
        };
        match op {
            Uop::FSqrt => {
                if wi == 32 {
                    canon32(f32::from_bits(v as u32).sqrt()) as u128
                } else {
                    pack(f().sqrt())
                }
            }
            Uop::FFloor => pack(f().floor()),
            Uop::FCeil => pack(f().ceil()),
            Uop::FTrunc => pack(f().trunc()),
            Uop::FRound => pack(f().round()),
            Uop::FRne => pack(f().round_ties_even()),
            Uop::UToF => {
                if wo == 64 {
                    (v as f64).to_bits() as u128
                } else {
                    (v as f32).to_bits() as u128
                }
            }
            Uop::SToF => {
                let s = sext(v, wi);
                if wo == 64 {
                    (s as f64).to_bits() as u128
                } else {
                    (s as f32).to_bits() as u128
                }
            }
            Uop::FToU => {
                let x = f().trunc();
                if !(x > 0.0) {
                    0
                } else if x >= 2f64.powi(wo as i32) {
                    mask(wo)
                } else {
                    x as u128
                }
            }
            Uop::FToS => {
                let x = f().trunc();
                let lim = 2f64.powi(wo as i32 - 1);
                if x.is_nan() {
                    0
                } else if x >= lim {
                    mask(wo - 1)
                } else if x <= -lim {
                    1u128 << (wo - 1)
                } else {
                    (x as i128) as u128 & mask(wo)
                }
            }
            Uop::FCvt => pack(f()),
            Uop::FExp => pack(f().exp()),
            Uop::FLn => pack(f().ln()),
        }
    }

    pub fn un(&mut self, op: Uop, a: E, wo: u16) -> E {
        let wi = self.w(a);
        if let Some(v) = self.cv(a) {
            let r = Self::cun(op, v, wi, wo);
            return self.c(r, wo);
        }
        match (op, self.k(a).clone()) {
            (Uop::FFloor | Uop::FCeil | Uop::FTrunc | Uop::FRound | Uop::FRne, K::Un(Uop::UToF, _)) => {
                return a
            }
            (Uop::FToU, K::Un(Uop::UToF, x)) => {
                let top = 128 - self.maybe[x as usize].leading_zeros();
                if top <= 53 {
                    let wx = self.w(x);
                    if wx <= wo {
                        return self.zext(x, wo);
                    }
                    if top as u16 <= wo {
                        return self.extract(x, 0, wo);
                    }
                }
            }
            (_, K::Ite(c, x, y)) if self.ite_consts(a, 24) => {
                let x = self.un(op, x, wo);
                let y = self.un(op, y, wo);
                return self.ite(c, x, y);
            }
            // the integer-to-float conversion at the narrowest width
            (Uop::UToF, K::ZExt(x)) => return self.un(op, x, wo),
            (Uop::SToF, _) if self.maybe[a as usize] >> (wi - 1) & 1 == 0 => {
                return self.un(Uop::UToF, a, wo)
            }
            _ => {}
        }
        if op == Uop::UToF {
            let top = (128 - self.maybe[a as usize].leading_zeros()).max(1) as u16;
            if top < wi {
                let x = self.extract(a, 0, top);
                return self.un(op, x, wo);
            }
        }
        if matches!(op, Uop::FToU | Uop::FToS) && wi == 64 {
            if let Some(r) = self.mono_to_int(op, a, wo) {
                return r;
            }
        }
        self.put(K::Un(op, a), wo)
    }

    pub fn pow(&mut self, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = f64::from_bits(x as u64).powf(f64::from_bits(y as u64));
            return self.c(r.to_bits() as u128, 64);
        }
        self.put(K::Pow(a, b), 64)
    }

    pub fn cfma(a: u128, b: u128, c: u128, w: u16) -> u128 {
        if w == 32 {
            let f = |x: u128| f32::from_bits(x as u32);
            canon32(f(a).mul_add(f(b), f(c))) as u128
        } else {
            let f = |x: u128| f64::from_bits(x as u64);
            canon64(f(a).mul_add(f(b), f(c))) as u128
        }
    }

    /// a * b + c, rounded once.
    pub fn fma(&mut self, a: E, b: E, c: E) -> E {
        let w = self.w(a);
        let v = [self.cv(a), self.cv(b), self.cv(c)];
        if let [Some(x), Some(y), Some(z)] = v {
            return self.c(Self::cfma(x, y, z, w), w);
        }
        let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
        if v[0] == Some(one) {
            return self.bin(Bop::FAdd, b, c);
        }
        if v[1] == Some(one) {
            return self.bin(Bop::FAdd, a, c);
        }
        // push into an ite with constant leaves
        if v.iter().filter(|x| x.is_some()).count() == 2 {
            let i = v.iter().position(|x| x.is_none()).unwrap();
            let t = [a, b, c];
            if let K::Ite(q, x, y) = self.k(t[i]).clone() {
                if self.ite_consts(t[i], 24) {
                    let (mut l, mut r) = (t, t);
                    l[i] = x;
                    r[i] = y;
                    let l = self.fma(l[0], l[1], l[2]);
                    let r = self.fma(r[0], r[1], r[2]);
                    return self.ite(q, l, r);
                }
            }
        }
        self.put(K::Fma(a, b, c), w)
    }

    /// Value of a term under a model.
    pub fn eval(&self, e: E, m: &Model) -> u128 {
        if let K::Const(v) = self.k(e) {
            return *v;
        }
        if let Some(&v) = m.cache.borrow().get(&e) {
            return v;
        }
        let w = self.w(e);
        let r = match self.k(e) {
            K::Const(v) => *v,
            K::Sym(s) => m.get(*s) & mask(w),
            K::Bin(op, a, b) => {
                let (op, a, b) = (*op, *a, *b);
                let x = self.eval(a, m);
                let y = self.eval(b, m);
                Self::cbin(op, x, y, self.w(a))
            }
            K::Un(op, a) => {
                let (op, a) = (*op, *a);
                let x = self.eval(a, m);
                Self::cun(op, x, self.w(a), w)
            }
            K::Ite(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                if self.eval(c, m) != 0 {
                    self.eval(a, m)
                } else {
                    self.eval(b, m)
                }
            }
            K::Extract(a, lo) => (self.eval(*a, m) >> lo) & mask(w),
            K::ZExt(a) => self.eval(*a, m),
            K::SExt(a) => sext(self.eval(*a, m), self.w(*a)) as u128 & mask(w),
            K::Concat(a, b) => (self.eval(*a, m) << self.w(*b)) | self.eval(*b, m),
            K::Pow(a, b) => {
                let x = f64::from_bits(self.eval(*a, m) as u64);
                let y = f64::from_bits(self.eval(*b, m) as u64);
                x.powf(y).to_bits() as u128
            }
            K::Fma(a, b, c) => Self::cfma(self.eval(*a, m), self.eval(*b, m), self.eval(*c, m), w),
            K::Agg(_) => panic!("eval of an aggregate"),
        };
        m.cache.borrow_mut().insert(e, r);
        r
    }

    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        match self.k(e) {
            K::Const(v) => format!("{:#x}:{}", v, self.w(e)),
            K::Sym(s) => format!("s{}:{}", s >> 8, self.w(e)),
            K::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(*a, d - 1), self.show(*b, d - 1)),
            K::Un(op, a) => format!("({:?} {})", op, self.show(*a, d - 1)),
            K::Ite(c, a, b) => format!(
                "(ite {} {} {})",
                self.show(*c, d - 1),
                self.show(*a, d - 1),
                self.show(*b, d - 1)
            ),
            K::Extract(a, lo) => format!("{}[{}+:{}]", self.show(*a, d - 1), lo, self.w(e)),
            K::ZExt(a) => format!("(z{} {})", self.w(e), self.show(*a, d - 1)),
            K::SExt(a) => format!("(s{} {})", self.w(e), self.show(*a, d - 1)),
            K::Concat(a, b) => format!("({} ++ {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            K::Pow(a, b) => format!("(pow {} {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            K::Fma(a, b, c) => format!(
                "(fma {} {} {})",
                self.show(*a, d - 1),
                self.show(*b, d - 1),
                self.show(*c, d - 1)
            ),
            K::Agg(v) => format!("{{{}}}", v.iter().map(|&x| self.show(x, d - 1)).collect::<Vec<_>>().join(", ")),
        }
    }
}

fn canon64(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}
fn canon32(x: f32) -> u32 {
    if x.is_nan() {
        0x7fc0_0000
    } else {
        x.to_bits()
    }
}

/// An assignment of the symbols (unassigned ones are zero).
pub struct Model {
    pub vals: FxMap<u32, u128>,
    pub cache: std::cell::RefCell<FxMap<E, u128>>,
}
impl Model {
    pub fn new(vals: FxMap<u32, u128>) -> Self {
        Model {
            vals,
            cache: Default::default(),
        }
    }
    pub fn get(&self, s: u32) -> u128 {
        self.vals.get(&s).copied().unwrap_or(0)
    }
}
