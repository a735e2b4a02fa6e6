//! Float terms that are monotone functions of one integer term: correctly rounded operations are
//! monotone, so comparisons of such terms are comparisons of the integer with a threshold, which
//! is found by bisection on concrete evaluations.
use crate::expr::*;

#[derive(Clone, Copy, Debug)]
pub struct Mono {
    /// the integer term, `None` for a constant
    pub x: Option<(E, bool)>,
    /// 1 rising, -1 falling, 0 constant
    pub dir: i8,
    pub lo: f64,
    pub hi: f64,
}

/// A float whose value is exactly `x` / 2^`scale`, `x` a signed term of 64 bits.
#[derive(Clone, Copy, Debug)]
pub struct Dyadic {
    pub x: E,
    pub scale: u32,
    pub lo: i128,
    pub hi: i128,
}

impl Pool {
    /// Bounds of a term as a signed number.
    pub fn srange(&self, x: E, depth: u32) -> (i128, i128) {
        let w = self.w(x);
        let m = self.maybe[x as usize];
        let full = (-(1i128 << (w - 1).min(126)), (1i128 << (w - 1).min(126)) - 1);
        if w > 64 {
            return full;
        }
        if m >> (w - 1) & 1 == 0 {
            return (0, m as i128);
        }
        if depth == 0 {
            return full;
        }
        let d = depth - 1;
        let r = match self.k(x).clone() {
            K::Const(v) => (sext(v, w), sext(v, w)),
            K::SExt(a) => self.srange(a, d),
            K::Ite(_, a, b) => {
                let (a, b) = (self.srange(a, d), self.srange(b, d));
                (a.0.min(b.0), a.1.max(b.1))
            }
            K::Bin(Bop::Add, a, b) => {
                let (a, b) = (self.srange(a, d), self.srange(b, d));
                (a.0 + b.0, a.1 + b.1)
            }
            K::Bin(Bop::Sub, a, b) => {
                let (a, b) = (self.srange(a, d), self.srange(b, d));
                (a.0 - b.1, a.1 - b.0)
            }
            _ => return full,
        };
        // no wrap-around
        if r.0 >= full.0 && r.1 <= full.1 {
            r
        } else {
            full
        }
    }

    fn dyadic(&mut self, e: E, depth: u32) -> Option<Dyadic> {
        if let Some(d) = self.dyadics.get(&e) {
            return *d;
        }
        if depth == 0 || self.w(e) != 64 {
            return None;
        }
        const MAX: i128 = 1 << 53;
        let r = self.dyadic_new(e, depth - 1).filter(|d| d.lo >= -MAX && d.hi <= MAX);
        self.dyadics.insert(e, r);
        r
    }

    fn align(&mut self, d: Dyadic, scale: u32) -> Dyadic {
        let by = scale - d.scale;
        if by == 0 {
            return d;
        }
        let k = self.c(by as u128, 64);
        Dyadic { x: self.bin(Bop::Shl, d.x, k), scale, lo: d.lo << by, hi: d.hi << by }
    }

    fn dyadic_new(&mut self, e: E, depth: u32) -> Option<Dyadic> {
        match self.k(e).clone() {
            K::Const(v) => {
                let mut f = f64::from_bits(v as u64);
                let mut scale = 0;
                while f.fract() != 0.0 && scale < 20 {
                    f *= 2.0;
                    scale += 1;
                }
                if !(f.fract() == 0.0 && f.abs() < 9e15) {
                    return None;
                }
                let i = f as i128;
                Some(Dyadic { x: self.c(i as u128 & mask(64), 64), scale, lo: i, hi: i })
            }
            K::Un(op @ (Uop::UToF | Uop::SToF), x) if self.w(x) <= 64 => {
                let (lo, hi) = self.x_range(x, op == Uop::SToF);
                if hi >= 1 << 62 {
                    return None;
                }
                let x = if op == Uop::SToF { self.sext(x, 64) } else { self.zext(x, 64) };
                Some(Dyadic { x, scale: 0, lo, hi })
            }
            K::Ite(c, a, b) => {
                let a = self.dyadic(a, depth)?;
                let b = self.dyadic(b, depth)?;
                let s = a.scale.max(b.scale);
                let (a, b) = (self.align(a, s), self.align(b, s));
                Some(Dyadic { x: self.ite(c, a.x, b.x), scale: s, lo: a.lo.min(b.lo), hi: a.hi.max(b.hi) })
            }
            K::Bin(op @ (Bop::FAdd | Bop::FSub), a, b) => {
                let a = self.dyadic(a, depth)?;
                let b = self.dyadic(b, depth)?;
                // of a constant; other sums are left to the relaxation to reals
                if a.lo != a.hi && b.lo != b.hi {
                    return None;
                }
                let s = a.scale.max(b.scale);
                let (a, b) = (self.align(a, s), self.align(b, s));
                Some(if op == Bop::FAdd {
                    Dyadic { x: self.bin(Bop::Add, a.x, b.x), scale: s, lo: a.lo + b.lo, hi: a.hi + b.hi }
                } else {
                    Dyadic { x: self.bin(Bop::Sub, a.x, b.x), scale: s, lo: a.lo - b.hi, hi: a.hi - b.lo }
                })
            }
            K::Bin(Bop::FMul, a, b) => {
                let a = self.dyadic(a, depth)?;
                let b = self.dyadic(b, depth)?;
                let (v, k) = if b.lo == b.hi { (a, b) } else { (b, a) };
                if k.lo != k.hi || v.scale + k.scale > 20 {
                    return None;
                }
                let (p, q) = (v.lo.checked_mul(k.lo)?, v.hi.checked_mul(k.lo)?);
                Some(Dyadic { x: self.bin(Bop::Mul, v.x, k.x), scale: v.scale + k.scale, lo: p.min(q), hi: p.max(q) })
            }
            _ => None,
        }
    }

    /// A comparison of numbers that are exact multiples of a power of two.
    pub fn dyadic_cmp(&mut self, op: Bop, a: E, b: E) -> Option<E> {
        let a = self.dyadic(a, 40)?;
        let b = self.dyadic(b, 40)?;
        let s = a.scale.max(b.scale);
        let (a, b) = (self.align(a, s), self.align(b, s));
        let lim = 1i128 << 62;
        if a.lo < -lim || b.lo < -lim || a.hi > lim || b.hi > lim {
            return None;
        }
        match op {
            Bop::FUno => Some(self.c(0, 1)),
            Bop::FOlt => Some(self.bin(Bop::Slt, a.x, b.x)),
            Bop::FOle => Some(self.bin(Bop::Sle, a.x, b.x)),
            _ => Some(self.bin(Bop::Eq, a.x, b.x)),
        }
    }

    fn x_range(&self, x: E, signed: bool) -> (i128, i128) {
        let w = self.w(x);
        if signed {
            let _ = w;
            self.srange(x, 8)
        } else {
            (0, self.maybe[x as usize] as i128)
        }
    }

    pub fn mono(&mut self, e: E) -> Option<Mono> {
        self.mono_d(e, 40)
    }

    fn mono_d(&mut self, e: E, depth: u32) -> Option<Mono> {
        if let Some(m) = self.monos.get(&e) {
            return *m;
        }
        if depth == 0 || self.w(e) != 64 {
            return None;
        }
        let r = self.mono_new(e, depth - 1).filter(|m| m.lo.is_finite() && m.hi.is_finite() && m.lo <= m.hi);
        self.monos.insert(e, r);
        r
    }

    fn mono_new(&mut self, e: E, depth: u32) -> Option<Mono> {
        match self.k(e).clone() {
            K::Const(v) => {
                let f = f64::from_bits(v as u64);
                Some(Mono { x: None, dir: 0, lo: f, hi: f })
            }
            K::Un(op @ (Uop::UToF | Uop::SToF), x) => {
                let signed = op == Uop::SToF;
                if self.w(x) > 64 {
                    return None;
                }
                let (a, b) = self.x_range(x, signed);
                Some(Mono { x: Some((x, signed)), dir: 1, lo: a as f64, hi: b as f64 })
            }
            K::Un(op @ (Uop::FSqrt | Uop::FFloor | Uop::FCeil | Uop::FTrunc | Uop::FRound | Uop::FRne), a) => {
                let m = self.mono_d(a, depth)?;
                if op == Uop::FSqrt && !(m.lo >= 0.0) {
                    return None;
                }
                let f = |v: f64| f64::from_bits(Pool::cun(op, v.to_bits() as u128, 64, 64) as u64);
                Some(Mono { lo: f(m.lo), hi: f(m.hi), ..m })
            }
            K::Bin(op @ (Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv), a, b) => {
                let m = self.mono_d(a, depth)?;
                let n = self.mono_d(b, depth)?;
                let x = match (m.x, n.x) {
                    (Some(x), Some(y)) if x != y => return None,
                    (Some(x), _) => Some(x),
                    (_, y) => y,
                };
                // (direction, lo, hi)
                let same = |a: i8, b: i8| -> Option<i8> {
                    if a * b < 0 {
                        None
                    } else if a != 0 {
                        Some(a)
                    } else {
                        Some(b)
                    }
                };
                let (dir, lo, hi) = match op {
                    Bop::FAdd => (same(m.dir, n.dir)?, m.lo + n.lo, m.hi + n.hi),
                    Bop::FSub => (same(m.dir, -n.dir)?, m.lo - n.hi, m.hi - n.lo),
                    Bop::FMul => {
                        if m.lo >= 0.0 && n.lo >= 0.0 {
                            (same(m.dir, n.dir)?, m.lo * n.lo, m.hi * n.hi)
                        } else if n.dir == 0 && n.lo >= 0.0 {
                            (m.dir, m.lo * n.lo, m.hi * n.lo)
                        } else if n.dir == 0 {
                            (-m.dir, m.hi * n.lo, m.lo * n.lo)
                        } else if m.dir == 0 && m.lo >= 0.0 {
                            (n.dir, m.lo * n.lo, m.lo * n.hi)
                        } else if m.dir == 0 {
                            (-n.dir, m.lo * n.hi, m.lo * n.lo)
                        } else {
                            return None;
                        }
                    }
                    _ => {
                        if n.dir == 0 && n.lo > 0.0 {
                            (m.dir, m.lo / n.lo, m.hi / n.lo)
                        } else if n.dir == 0 && n.lo < 0.0 {
                            (-m.dir, m.hi / n.lo, m.lo / n.lo)
                        } else if m.lo >= 0.0 && n.lo > 0.0 {
                            (same(m.dir, -n.dir)?, m.lo / n.hi, m.hi / n.lo)
                        } else if m.hi <= 0.0 && n.lo > 0.0 {
                            (same(m.dir, n.dir)?, m.lo / n.lo, m.hi / n.hi)
                        } else {
                            return None;
                        }
                    }
                };
                Some(Mono { x: if dir == 0 { x } else { x }, dir, lo, hi })
            }
            // a bit pattern that cannot be negative or NaN: its own order
            K::Sym(_) | K::ZExt(_) | K::Extract(..) | K::Bin(Bop::Shl | Bop::LShr | Bop::And | Bop::Or | Bop::Add, ..) if !self.is_fp(e) => {
                let hi = self.maybe[e as usize];
                if hi < 0x7ff0_0000_0000_0000 {
                    Some(Mono { x: Some((e, false)), dir: 1, lo: 0.0, hi: f64::from_bits(hi as u64) })
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// Value of a monotone term at a value of its integer.
    fn mono_at(&self, e: E, v: i128) -> f64 {
        match self.k(e) {
            K::Const(c) => f64::from_bits(*c as u64),
            K::Un(Uop::UToF | Uop::SToF, _) => v as f64,
            K::Un(op, a) => {
                let a = self.mono_at(*a, v);
                f64::from_bits(Pool::cun(*op, a.to_bits() as u128, 64, 64) as u64)
            }
            K::Bin(op, a, b) => {
                let a = self.mono_at(*a, v);
                let b = self.mono_at(*b, v);
                f64::from_bits(Pool::cbin(*op, a.to_bits() as u128, b.to_bits() as u128, 64) as u64)
            }
            _ => f64::from_bits(v as u64),
        }
    }

    /// The largest value of the range with `f`, which holds from the lower end up to somewhere.
    fn last(&self, lo: i128, hi: i128, f: &dyn Fn(i128) -> bool) -> Option<i128> {
        if !f(lo) {
            return None;
        }
        let (mut a, mut b) = (lo, hi);
        while a < b {
            let m = a + (b - a + 1) / 2;
            if f(m) {
                a = m
            } else {
                b = m - 1
            }
        }
        Some(a)
    }

    /// `x <= t` (or `x < first` negated) over the integer term.
    fn up_to(&mut self, x: (E, bool), t: Option<i128>) -> E {
        let (_, hi) = self.x_range(x.0, x.1);
        match t {
            None => self.c(0, 1),
            Some(t) if t >= hi => self.c(1, 1),
            Some(t) => {
                let w = self.w(x.0);
                let k = self.c(t as u128 & mask(w), w);
                self.bin(if x.1 { Bop::Sle } else { Bop::Ule }, x.0, k)
            }
        }
    }

    /// A comparison of monotone terms as one of the integer.
    pub fn mono_cmp(&mut self, op: Bop, a: E, b: E) -> Option<E> {
        let m = self.mono(a)?;
        let n = self.mono(b)?;
        if op == Bop::FUno {
            return Some(self.c(0, 1));
        }
        if op == Bop::FOeq {
            let p = self.mono_cmp(Bop::FOle, a, b)?;
            let q = self.mono_cmp(Bop::FOle, b, a)?;
            return Some(self.bin(Bop::And, p, q));
        }
        // by ranges
        let (yes, no) = if op == Bop::FOlt { (m.hi < n.lo, m.lo >= n.hi) } else { (m.hi <= n.lo, m.lo > n.hi) };
        if yes || no {
            return Some(self.c(yes as u128, 1));
        }
        let x = match (m.x, n.x) {
            (Some(x), Some(y)) if x != y => return None,
            (Some(x), _) => x,
            (_, Some(y)) => y,
            _ => return None,
        };
        let (lo, hi) = self.x_range(x.0, x.1);
        let lt = op == Bop::FOlt;
        let holds = |s: &Self, v: i128| {
            let p = s.mono_at(a, v);
            let q = s.mono_at(b, v);
            if lt {
                p < q
            } else {
                p <= q
            }
        };
        if m.dir >= 0 && n.dir <= 0 {
            // holds up to somewhere
            let t = self.last(lo, hi, &|v| holds(self, v));
            Some(self.up_to(x, t))
        } else if m.dir <= 0 && n.dir >= 0 {
            let t = self.last(lo, hi, &|v| !holds(self, v));
            let r = self.up_to(x, t);
            Some(self.not(r))
        } else {
            None
        }
    }

    /// The conversion of a monotone term with few values to an integer.
    pub fn mono_to_int(&mut self, op: Uop, a: E, wo: u16) -> Option<E> {
        let m = self.mono(a)?;
        let x = m.x?;
        if m.dir == 0 || !(m.hi - m.lo <= 64.0) {
            return None;
        }
        let conv = |v: f64| Pool::cun(op, v.to_bits() as u128, 64, wo);
        let (lo, hi) = self.x_range(x.0, x.1);
        // pieces from the lower end of x on
        let mut pieces = vec![];
        let mut at = lo;
        loop {
            let v = conv(self.mono_at(a, at));
            let end = self.last(at, hi, &|y| conv(self.mono_at(a, y)) == v).unwrap();
            pieces.push((end, v));
            if end >= hi {
                break;
            }
            at = end + 1;
        }
        let mut r = self.c(pieces.last().unwrap().1, wo);
        for (end, v) in pieces.iter().rev().skip(1) {
            let c = self.up_to(x, Some(*end));
            let k = self.c(*v, wo);
            r = self.ite(c, k, r);
        }
        Some(r)
    }

    /// All values a whole number may have, if these are few.
    fn few_values(&self, x: E, depth: u32) -> Option<Vec<u128>> {
        const MOST: usize = 8;
        let w = self.w(x);
        if w > 64 || depth == 0 {
            return None;
        }
        let m = mask(w);
        let mut r = match self.k(x).clone() {
            K::Const(v) => Some(vec![v]),
            K::Ite(_, a, b) => match (self.few_values(a, depth - 1), self.few_values(b, depth - 1)) {
                (Some(mut a), Some(b)) => {
                    a.extend(b);
                    Some(a)
                }
                _ => None,
            },
            K::ZExt(a) => self.few_values(a, depth - 1),
            K::SExt(a) => {
                let wa = self.w(a);
                self.few_values(a, depth - 1).map(|v| v.into_iter().map(|v| sext(v, wa) as u128 & m).collect())
            }
            K::Bin(op @ (Bop::Add | Bop::Sub), a, b) => match (self.few_values(a, depth - 1), self.few_values(b, depth - 1)) {
                (Some(a), Some(b)) => Some(
                    a.iter()
                        .flat_map(|x| b.iter().map(move |y| if op == Bop::Add { x.wrapping_add(*y) } else { x.wrapping_sub(*y) } & m))
                        .collect(),
                ),
                _ => None,
            },
            _ => None,
        };
        if r.is_none() {
            let bits = self.maybe[x as usize];
            if bits.count_ones() <= 3 {
                let mut v = vec![];
                let mut s = bits;
                loop {
                    v.push(s);
                    if s == 0 {
                        break;
                    }
                    s = (s - 1) & bits;
                }
                r = Some(v);
            }
        }
        r.map(|mut v| {
            v.sort_unstable();
            v.dedup();
            v
        })
        .filter(|v| v.len() <= MOST)
    }

    /// The whole numbers and conditions a float is computed from; false if there is anything else.
    fn tab_leaves(&self, e: E, leaves: &mut Vec<E>, budget: &mut u32) -> bool {
        if *budget == 0 || self.w(e) != 64 {
            return false;
        }
        *budget -= 1;
        let mut leaf = |x: E| {
            if self.cv(x).is_none() && !leaves.contains(&x) {
                leaves.push(x);
            }
            leaves.len() <= 12
        };
        match self.k(e).clone() {
            K::Const(_) => true,
            K::Un(Uop::UToF | Uop::SToF, x) => leaf(x),
            K::Un(Uop::FSqrt | Uop::FFloor | Uop::FCeil | Uop::FTrunc | Uop::FRound | Uop::FRne, a) => self.tab_leaves(a, leaves, budget),
            K::Bin(Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv, a, b) => {
                self.tab_leaves(a, leaves, budget) && self.tab_leaves(b, leaves, budget)
            }
            K::Fma(a, b, c) => {
                self.tab_leaves(a, leaves, budget) && self.tab_leaves(b, leaves, budget) && self.tab_leaves(c, leaves, budget)
            }
            K::Ite(c, a, b) => leaf(c) && self.tab_leaves(a, leaves, budget) && self.tab_leaves(b, leaves, budget),
            _ => match self.sign_changed(e) {
                Some((a, _)) => self.tab_leaves(a, leaves, budget),
                None => false,
            },
        }
    }

    /// The float whose absolute value (true) or negation `e` is.
    fn sign_changed(&self, e: E) -> Option<(E, bool)> {
        match self.k(e) {
            K::ZExt(x) => match self.k(*x) {
                K::Extract(a, 0) if self.w(*x) == 63 && self.w(*a) == 64 => Some((*a, true)),
                _ => None,
            },
            K::Bin(Bop::And, a, c) if self.cv(*c) == Some(!(1 << 63) & mask(64)) => Some((*a, true)),
            K::Bin(Bop::Xor, a, c) if self.cv(*c) == Some(1 << 63) => Some((*a, false)),
            _ => None,
        }
    }

    fn tab_at(&self, e: E, at: &[(E, u128)]) -> u128 {
        let of = |x: E| self.cv(x).unwrap_or_else(|| at.iter().find(|l| l.0 == x).unwrap().1);
        match self.k(e).clone() {
            K::Const(v) => v,
            K::Un(op @ (Uop::UToF | Uop::SToF), x) => Pool::cun(op, of(x), self.w(x), 64),
            K::Un(op, a) => Pool::cun(op, self.tab_at(a, at), 64, 64),
            K::Bin(op @ (Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv), a, b) => {
                Pool::cbin(op, self.tab_at(a, at), self.tab_at(b, at), 64)
            }
            K::Fma(a, b, c) => Pool::cfma(self.tab_at(a, at), self.tab_at(b, at), self.tab_at(c, at), 64),
            K::Ite(c, a, b) => self.tab_at(if of(c) != 0 { a } else { b }, at),
            _ => match self.sign_changed(e) {
                Some((a, true)) => self.tab_at(a, at) & !(1 << 63) & mask(64),
                Some((a, false)) => self.tab_at(a, at) ^ 1 << 63,
                None => unreachable!(),
            },
        }
    }

    /// A comparison of floats that are computed from few whole numbers of few values: decided for
    /// each combination of these.
    pub fn tab_cmp(&mut self, op: Bop, a: E, b: E) -> Option<E> {
        let mut leaves = vec![];
        let mut budget = 60;
        if !self.tab_leaves(a, &mut leaves, &mut budget) || !self.tab_leaves(b, &mut leaves, &mut budget) {
            return None;
        }
        let mut values = vec![];
        let mut total = 1;
        for &x in &leaves {
            let v = self.few_values(x, 12)?;
            total *= v.len();
            values.push(v);
        }
        if total > 256 {
            // one branch at a time
            return if let K::Ite(c, x, y) = self.k(a).clone() {
                let x = self.tab_cmp(op, x, b)?;
                let y = self.tab_cmp(op, y, b)?;
                Some(self.ite(c, x, y))
            } else if let K::Ite(c, x, y) = self.k(b).clone() {
                let x = self.tab_cmp(op, a, x)?;
                let y = self.tab_cmp(op, a, y)?;
                Some(self.ite(c, x, y))
            } else {
                None
            };
        }
        Some(self.tab_tree(op, a, b, &leaves, &values, &mut vec![]))
    }

    fn tab_tree(&mut self, op: Bop, a: E, b: E, leaves: &[E], values: &[Vec<u128>], at: &mut Vec<(E, u128)>) -> E {
        let i = at.len();
        if i == leaves.len() {
            let v = Pool::cbin(op, self.tab_at(a, at), self.tab_at(b, at), 64);
            return self.c(v, 1);
        }
        let x = leaves[i];
        let w = self.w(x);
        let mut r = None;
        for &v in values[i].iter().rev() {
            at.push((x, v));
            let s = self.tab_tree(op, a, b, leaves, values, at);
            at.pop();
            r = Some(match r {
                None => s,
                Some(rest) if rest == s => s,
                Some(rest) => {
                    let k = self.c(v, w);
                    let is = self.eq(x, k);
                    self.ite(is, s, rest)
                }
            });
        }
        r.unwrap()
    }
}
