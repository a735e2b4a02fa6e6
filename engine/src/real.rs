//! A relaxation of float queries to real arithmetic.
//!
//! Every float term becomes a real: leaves are real variables, sums and products of bounded terms
//! become polynomials in them plus an error variable whose bound covers the rounding of every
//! operation involved, anything else an unconstrained variable.  Each float value satisfies the
//! relaxed constraints, so if those are unsatisfiable, the query is.  A model of the relaxation is
//! only a candidate: it counts if it satisfies the exact query when evaluated.
use crate::expr::*;
use crate::z3::{Res, Z3};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_decimal_string(c: P, a: P, prec: c_uint) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_is_numeral_ast(c: P, a: P) -> bool;
}

const U: f64 = 1.2e-16; // a bit more than 2^-53
const TINY: f64 = 1e-320;
const HUGE: f64 = 1e290;

type Poly = BTreeMap<Vec<E>, f64>;

/// The value of the term lies within `err` of the polynomial.
#[derive(Clone, Debug)]
struct Tm {
    poly: Poly,
    err: f64,
    lo: f64,
    hi: f64,
}

struct Rel<'a> {
    c: P,
    p: &'a Pool,
    /// bounds of floats, and of integers, from the path
    bounds: FxMap<E, (f64, f64)>,
    ibounds: FxMap<E, (f64, f64)>,
    bits: FxMap<E, (u128, u128)>,
    /// bounds of the variables of polynomials
    range: FxMap<E, (f64, f64)>,
    /// what is subtracted from a variable within polynomials, if it varies little
    center: FxMap<E, f64>,
    tm: FxMap<E, Option<Rc<Tm>>>,
    var: FxMap<E, P>,
    nanv: FxMap<E, P>,
    errv: FxMap<E, P>,
    rb: FxMap<E, P>,
    rf: FxMap<E, (P, Option<P>)>,
    ri: FxMap<E, P>,
    /// constraints
    easy: Vec<P>,
    hard: Vec<P>,
    fresh: u32,
    real: P,
    boolean: P,
    atoms: u32,
    leaves: Vec<E>,
    ints: Vec<E>,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

/// The exact value as a fraction.
fn rational(v: f64) -> String {
    if v == 0.0 {
        return "0".into();
    }
    let b = v.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    let f = b & ((1 << 52) - 1);
    let (mut m, mut x) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    while m & 1 == 0 && x < 0 {
        m >>= 1;
        x += 1;
    }
    let sign = if v < 0.0 { "-" } else { "" };
    if x >= 0 {
        format!("{}{}", sign, shl(m, x as u32))
    } else {
        format!("{}{}/{}", sign, m, shl(1, (-x) as u32))
    }
}

fn shl(m: u64, k: u32) -> String {
    if k < 60 {
        return ((m as u128) << k).to_string();
    }
    // decimal digits, least significant first
    let mut d: Vec<u32> = vec![];
    let mut v = m;
    while v > 0 {
        d.push((v % 1_000_000_000) as u32);
        v /= 1_000_000_000;
    }
    for _ in 0..k {
        let mut carry = 0u64;
        for x in d.iter_mut() {
            let t = *x as u64 * 2 + carry;
            *x = (t % 1_000_000_000) as u32;
            carry = t / 1_000_000_000;
        }
        if carry > 0 {
            d.push(carry as u32);
        }
    }
    let mut s = d.last().map_or("0".to_string(), |x| x.to_string());
    for x in d.iter().rev().skip(1) {
        s.push_str(&format!("{:09}", x));
    }
    s
}

fn up(x: f64) -> f64 {
    x + x.abs() * 4.0 * U + TINY
}
fn down(x: f64) -> f64 {
    x - x.abs() * 4.0 * U - TINY
}

impl<'a> Rel<'a> {
    fn num(&self, v: f64) -> P {
        let s = cs(&rational(v));
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.real) }
    }
    fn constant(&self, name: &str, sort: P) -> P {
        let s = cs(name);
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), sort) }
    }
    fn and(&self, a: &[P]) -> P {
        unsafe {
            match a.len() {
                0 => Z3_mk_true(self.c),
                1 => a[0],
                n => Z3_mk_and(self.c, n as u32, a.as_ptr()),
            }
        }
    }
    fn or(&self, a: &[P]) -> P {
        unsafe { Z3_mk_or(self.c, a.len() as u32, a.as_ptr()) }
    }
    fn not(&self, a: P) -> P {
        unsafe { Z3_mk_not(self.c, a) }
    }
    fn le(&self, a: P, b: P) -> P {
        unsafe { Z3_mk_le(self.c, a, b) }
    }
    fn lt(&self, a: P, b: P) -> P {
        unsafe { Z3_mk_lt(self.c, a, b) }
    }
    fn within(&mut self, x: P, lo: f64, hi: f64) {
        let a = self.le(self.num(lo), x);
        let b = self.le(x, self.num(hi));
        self.easy.push(a);
        self.easy.push(b);
    }

    // ---- ranges -----------------------------------------------------------------------------

    fn mono_range(&self, k: &[E]) -> (f64, f64) {
        let mut lo = 1.0f64;
        let mut hi = 1.0f64;
        let mut i = 0;
        while i < k.len() {
            let mut n = 1;
            while i + n < k.len() && k[i + n] == k[i] {
                n += 1;
            }
            let (a, b) = self.range[&k[i]];
            let (mut x, mut y) = (1.0f64, 1.0f64);
            if n % 2 == 0 {
                let m = a.abs().max(b.abs());
                let l = if a <= 0.0 && b >= 0.0 { 0.0 } else { a.abs().min(b.abs()) };
                x = l.powi(n as i32);
                y = m.powi(n as i32);
            } else {
                for _ in 0..n {
                    let c = [x * a, x * b, y * a, y * b];
                    x = c.iter().copied().fold(f64::INFINITY, f64::min);
                    y = c.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                }
            }
            let c = [lo * x, lo * y, hi * x, hi * y];
            lo = down(c.iter().copied().fold(f64::INFINITY, f64::min));
            hi = up(c.iter().copied().fold(f64::NEG_INFINITY, f64::max));
            i += n;
        }
        (lo, hi)
    }
    fn mono_max(&self, k: &[E]) -> f64 {
        let (a, b) = self.mono_range(k);
        a.abs().max(b.abs())
    }
    fn poly_range(&self, p: &Poly) -> (f64, f64) {
        let (mut lo, mut hi) = (0.0, 0.0);
        for (k, c) in p {
            let (a, b) = self.mono_range(k);
            let (a, b) = if *c >= 0.0 { (a * c, b * c) } else { (b * c, a * c) };
            lo = down(lo + down(a));
            hi = up(hi + up(b));
        }
        (lo, hi)
    }
    /// A term with this polynomial before rounding.
    fn rounded(&self, poly: Poly, err: f64, exact: bool, hint: Option<(f64, f64)>) -> Option<Tm> {
        if poly.len() > 80 {
            return None;
        }
        let (lo, hi) = self.poly_range(&poly);
        let (mut lo, mut hi) = (down(lo - err), up(hi + err));
        if let Some((a, b)) = hint {
            lo = lo.max(a);
            hi = hi.min(b);
            if lo > hi {
                (lo, hi) = (a, b);
            }
        }
        let m = lo.abs().max(hi.abs());
        if !(m < HUGE) {
            return None;
        }
        let e = if exact { 0.0 } else { up(m * U) };
        Some(Tm { poly, err: up(err + e), lo: down(lo - e), hi: up(hi + e) })
    }
    /// a + s * b
    fn combine(&self, a: &Tm, b: &Tm, s: f64) -> (Poly, f64) {
        let mut poly = a.poly.clone();
        let mut err = up(a.err + b.err);
        for (k, c) in &b.poly {
            let c = c * s;
            let old = poly.get(k).copied().unwrap_or(0.0);
            let new = old + c;
            let m = self.mono_max(k);
            if old != 0.0 {
                err = up(err + up(new.abs() * U * m));
            }
            if new.abs() <= 1e-15 * (old.abs() + c.abs()) {
                err = up(err + up(new.abs() * m));
                poly.remove(k);
            } else {
                poly.insert(k.clone(), new);
            }
        }
        (poly, err)
    }
    fn product(&self, a: &Tm, b: &Tm) -> Option<(Poly, f64)> {
        if a.poly.len() * b.poly.len() > 400 {
            return None;
        }
        let mut poly = Poly::new();
        let ma = a.lo.abs().max(a.hi.abs());
        let mb = b.lo.abs().max(b.hi.abs());
        let mut err = up(up(ma * b.err) + up(mb * a.err)) + up(a.err * b.err);
        let mut size: BTreeMap<Vec<E>, f64> = BTreeMap::new();
        for (k, c) in &a.poly {
            for (l, d) in &b.poly {
                let mut n = k.clone();
                n.extend(l);
                n.sort_unstable();
                if n.len() > 6 {
                    return None;
                }
                let v = c * d;
                let m = self.mono_max(&n);
                let o = poly.entry(n.clone()).or_insert(0.0);
                *o += v;
                *size.entry(n).or_insert(0.0) += v.abs();
                err = up(err + up((v.abs() + o.abs()) * U * m) + TINY);
            }
        }
        for (k, s) in size {
            let v = poly[&k];
            if v.abs() <= 1e-15 * s {
                err = up(err + up(v.abs() * self.mono_max(&k)));
                poly.remove(&k);
            }
        }
        Some((poly, err))
    }

    // ---- terms ------------------------------------------------------------------------------

    fn leaf(&mut self, e: E) -> P {
        if let Some(&v) = self.var.get(&e) {
            return v;
        }
        let v = self.constant(&format!("r{}", e), self.real);
        self.var.insert(e, v);
        v
    }

    fn as_var(&mut self, e: E, lo: f64, hi: f64) -> Tm {
        if !self.range.contains_key(&e) {
            let m = lo + (hi - lo) / 2.0;
            if m.abs() > 2.0 * (hi - lo) {
                self.center.insert(e, m);
                self.range.insert(e, (down(lo - m), up(hi - m)));
            } else {
                self.range.insert(e, (lo, hi));
            }
            let v = self.leaf(e);
            self.within(v, lo, hi);
        }
        let mut poly = Poly::new();
        poly.insert(vec![e], 1.0);
        if let Some(&m) = self.center.get(&e) {
            poly.insert(vec![], m);
        }
        Tm { poly, err: 0.0, lo, hi }
    }

    fn tm(&mut self, e: E) -> Option<Rc<Tm>> {
        if let Some(t) = self.tm.get(&e) {
            return t.clone();
        }
        let t = self.tm_new(e).map(Rc::new);
        self.tm.insert(e, t.clone());
        t
    }

    fn abs_of(&self, e: E) -> Option<E> {
        if let K::ZExt(x) = self.p.k(e) {
            if let K::Extract(y, 0) = self.p.k(*x) {
                if self.p.w(*x) == 63 && self.p.w(*y) == 64 {
                    return Some(*y);
                }
            }
        }
        if let K::Bin(Bop::And, x, m) = self.p.k(e) {
            if self.p.cv(*m) == Some(mask(63)) {
                return Some(*x);
            }
        }
        None
    }
    fn neg_of(&self, e: E) -> Option<E> {
        if let K::Bin(Bop::Xor, x, m) = self.p.k(e) {
            if self.p.cv(*m) == Some(1 << 63) {
                return Some(*x);
            }
        }
        None
    }

    fn tm_new(&mut self, e: E) -> Option<Tm> {
        if self.p.w(e) != 64 {
            return None;
        }
        if let Some(x) = self.neg_of(e) {
            let t = self.tm(x)?;
            let poly = t.poly.iter().map(|(k, c)| (k.clone(), -c)).collect();
            return Some(Tm { poly, err: t.err, lo: -t.hi, hi: -t.lo });
        }
        if let Some(x) = self.abs_of(e) {
            let t = self.tm(x)?;
            if t.lo >= 0.0 {
                return Some((*t).clone());
            }
            let m = t.lo.abs().max(t.hi.abs());
            let r = self.as_var(e, 0.0, m);
            let v = self.leaf(e);
            let (y, _) = self.rf(x);
            let minus = self.scaled(y, -1.0);
            let a = self.le(y, v);
            let b = self.le(minus, v);
            let (c, d) = (self.le(v, y), self.le(v, minus));
            let o = self.or(&[c, d]);
            self.easy.extend([a, b, o]);
            return Some(r);
        }
        match self.p.k(e).clone() {
            K::Const(v) => {
                let f = f64::from_bits(v as u64);
                if !(f.abs() < HUGE) {
                    return None;
                }
                let mut poly = Poly::new();
                if f != 0.0 {
                    poly.insert(vec![], f);
                }
                Some(Tm { poly, err: 0.0, lo: f, hi: f })
            }
            K::Un(Uop::UToF, x) => {
                let m = self.p.maybe[x as usize];
                let wide = m >> 53 != 0;
                let i = self.ri(x);
                let hi = m as f64;
                if !self.range.contains_key(&e) {
                    let (mut lo, mut hi) = (0.0f64, if wide { up(hi) } else { hi });
                    if let Some(&(a, b)) = self.bounds.get(&e) {
                        lo = lo.max(a);
                        hi = hi.min(b);
                    }
                    if let Some(&(a, b)) = self.ibounds.get(&x) {
                        lo = lo.max(if wide { down(a) } else { a });
                        hi = hi.min(if wide { up(b) } else { b });
                    }
                    self.range.insert(e, (lo, hi.max(lo)));
                    let v = self.leaf(e);
                    if !wide {
                        let q = unsafe { Z3_mk_eq(self.c, v, i) };
                        self.easy.push(q);
                    }
                    self.within(v, lo, hi.max(lo));
                }
                let (lo, hi) = self.range[&e];
                let mut poly = Poly::new();
                poly.insert(vec![e], 1.0);
                Some(Tm { poly, err: 0.0, lo, hi })
            }
            K::Un(Uop::SToF, x) => {
                let (a, b) = self.p.srange(x, 8);
                Some(self.as_var(e, a as f64, b as f64))
            }
            K::Un(Uop::FSqrt, x) => {
                let t = self.tm(x)?;
                if t.lo < 0.0 {
                    return None;
                }
                let r = self.as_var(e, 0.0, up(t.hi.sqrt()));
                let v = self.leaf(e);
                let (y, _) = self.rf(x);
                let sq = unsafe { Z3_mk_mul(self.c, 2, [v, v].as_ptr()) };
                let d = self.slack(up(t.hi * 4.0 * U) + TINY);
                let s = unsafe { Z3_mk_add(self.c, 2, [y, d].as_ptr()) };
                let q = unsafe { Z3_mk_eq(self.c, sq, s) };
                self.hard.push(q);
                Some(r)
            }
            K::Bin(op @ (Bop::FAdd | Bop::FSub), a, b) => {
                let x = self.tm(a)?;
                let y = self.tm(b)?;
                let s = if op == Bop::FAdd { 1.0 } else { -1.0 };
                let (poly, err) = self.combine(&x, &y, s);
                let hint = if s > 0.0 { (x.lo + y.lo, x.hi + y.hi) } else { (x.lo - y.hi, x.hi - y.lo) };
                self.rounded(poly, err, false, Some((down(hint.0), up(hint.1))))
            }
            K::Bin(Bop::FMul, a, b) => {
                let x = self.tm(a)?;
                let y = self.tm(b)?;
                let (poly, err) = self.product(&x, &y)?;
                let c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi];
                let lo = c.iter().copied().fold(f64::INFINITY, f64::min);
                let hi = c.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                let hint = if a == b { (0.0, up(hi)) } else { (down(lo), up(hi)) };
                self.rounded(poly, err, false, Some(hint))
            }
            K::Fma(a, b, d) => {
                let x = self.tm(a)?;
                let y = self.tm(b)?;
                let z = self.tm(d)?;
                let (poly, err) = self.product(&x, &y)?;
                let c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi];
                let lo = down(c.iter().copied().fold(f64::INFINITY, f64::min));
                let hi = up(c.iter().copied().fold(f64::NEG_INFINITY, f64::max));
                let t = Tm { poly, err, lo, hi };
                let (poly, err) = self.combine(&t, &z, 1.0);
                self.rounded(poly, err, false, Some((down(lo + z.lo), up(hi + z.hi))))
            }
            K::Bin(Bop::FDiv, a, b) => {
                let x = self.tm(a)?;
                let y = self.tm(b)?;
                if y.lo == y.hi && y.lo != 0.0 {
                    let d = y.lo;
                    let mut poly = Poly::new();
                    let mut err = up(x.err / d.abs());
                    for (k, c) in &x.poly {
                        let v = c / d;
                        err = up(err + up(v.abs() * U * self.mono_max(k)) + TINY);
                        poly.insert(k.clone(), v);
                    }
                    let (p, q) = (x.lo / d, x.hi / d);
                    return self.rounded(poly, err, false, Some((down(p.min(q)), up(p.max(q)))));
                }
                if y.lo > 0.0 || y.hi < 0.0 {
                    let c = [x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi];
                    let lo = down(c.iter().copied().fold(f64::INFINITY, f64::min));
                    let hi = up(c.iter().copied().fold(f64::NEG_INFINITY, f64::max));
                    let m = lo.abs().max(hi.abs());
                    if !(m < HUGE) {
                        return None;
                    }
                    let r = self.as_var(e, lo, hi);
                    let v = self.leaf(e);
                    let (n, _) = self.rf(a);
                    let (d, _) = self.rf(b);
                    let prod = unsafe { Z3_mk_mul(self.c, 2, [v, d].as_ptr()) };
                    let my = y.lo.abs().max(y.hi.abs());
                    let s = self.slack(up(m * 2.0 * U * my) + TINY);
                    let s = unsafe { Z3_mk_add(self.c, 2, [n, s].as_ptr()) };
                    let q = unsafe { Z3_mk_eq(self.c, prod, s) };
                    self.hard.push(q);
                    return Some(r);
                }
                None
            }
            K::Ite(q, a, b) => {
                let x = self.tm(a)?;
                let y = self.tm(b)?;
                let r = self.as_var(e, x.lo.min(y.lo), x.hi.max(y.hi));
                let v = self.leaf(e);
                let q = self.rb(q);
                let (x, _) = self.rf(a);
                let (y, _) = self.rf(b);
                let i = unsafe { Z3_mk_ite(self.c, q, x, y) };
                let d = unsafe { Z3_mk_eq(self.c, v, i) };
                self.easy.push(d);
                Some(r)
            }
            K::Sym(_) | K::ZExt(_) | K::Extract(..) | K::Bin(..) if !self.p.is_fp(e) => {
                let (mut lo, mut hi) = self.bounds.get(&e).copied().unwrap_or((f64::NEG_INFINITY, f64::INFINITY));
                let x = match self.p.k(e) {
                    K::ZExt(x) => *x,
                    _ => e,
                };
                let (a, mut b) = self.bits.get(&x).copied().unwrap_or((0, u128::MAX));
                b = b.min(self.p.maybe[e as usize]);
                // the bits of floats that are not negative are in their order
                let inf = f64::INFINITY.to_bits() as u128;
                if a <= b && b <= inf {
                    lo = lo.max(f64::from_bits(a as u64));
                    hi = hi.min(f64::from_bits(b as u64));
                } else if self.p.maybe[e as usize] >> 63 == 0 {
                    lo = lo.max(0.0);
                }
                if !(lo <= hi) {
                    return None;
                }
                if !(lo.abs() < HUGE && hi.abs() < HUGE) {
                    return None;
                }
                self.leaves.push(e);
                Some(self.as_var(e, lo, hi))
            }
            _ => None,
        }
    }

    fn slack(&mut self, bound: f64) -> P {
        self.fresh += 1;
        let v = self.constant(&format!("d{}", self.fresh), self.real);
        self.within(v, -bound, bound);
        v
    }

    fn scaled(&self, x: P, k: f64) -> P {
        unsafe { Z3_mk_mul(self.c, 2, [self.num(k), x].as_ptr()) }
    }

    fn poly_ast(&mut self, p: &Poly) -> P {
        let mut sum = vec![];
        for (k, c) in p {
            let mut f = vec![self.num(*c)];
            for &v in k {
                let x = self.leaf(v);
                f.push(match self.center.get(&v) {
                    Some(&m) => unsafe { Z3_mk_add(self.c, 2, [x, self.num(-m)].as_ptr()) },
                    None => x,
                });
            }
            sum.push(unsafe { Z3_mk_mul(self.c, f.len() as u32, f.as_ptr()) });
        }
        match sum.len() {
            0 => self.num(0.0),
            1 => sum[0],
            n => unsafe { Z3_mk_add(self.c, n as u32, sum.as_ptr()) },
        }
    }

    fn err_var(&mut self, e: E, bound: f64) -> P {
        if let Some(&v) = self.errv.get(&e) {
            return v;
        }
        let v = self.constant(&format!("e{}", e), self.real);
        self.within(v, -bound, bound);
        self.errv.insert(e, v);
        v
    }

    fn nan_var(&mut self, e: E) -> P {
        if let Some(&v) = self.nanv.get(&e) {
            return v;
        }
        let v = self.constant(&format!("n{}", e), self.boolean);
        self.nanv.insert(e, v);
        v
    }

    /// The real of a float, and when it is not a number.
    fn rf(&mut self, e: E) -> (P, Option<P>) {
        if let Some(&r) = self.rf.get(&e) {
            return r;
        }
        let r = if let Some(t) = self.tm(e) {
            let a = self.poly_ast(&t.poly);
            if t.err > 0.0 {
                let v = self.err_var(e, t.err);
                let s = unsafe { Z3_mk_add(self.c, 2, [a, v].as_ptr()) };
                // the range may say more than the polynomial
                let (lo, hi) = (t.lo, t.hi);
                self.within(s, lo, hi);
                (s, None)
            } else {
                (a, None)
            }
        } else if let Some(x) = self.neg_of(e) {
            let (a, n) = self.rf(x);
            (self.scaled(a, -1.0), n)
        } else {
            match self.p.k(e).clone() {
                K::Const(v) => {
                    let f = f64::from_bits(v as u64);
                    if f.is_nan() {
                        (self.num(0.0), Some(unsafe { Z3_mk_true(self.c) }))
                    } else if f.is_infinite() {
                        let t = format!("{}{}", if f < 0.0 { "-" } else { "" }, shl(1, 1024));
                        let s = cs(&t);
                        (unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.real) }, None)
                    } else {
                        (self.num(f), None)
                    }
                }
                K::Ite(q, a, b) => {
                    let q = self.rb(q);
                    let (x, n) = self.rf(a);
                    let (y, m) = self.rf(b);
                    let r = unsafe { Z3_mk_ite(self.c, q, x, y) };
                    let nan = if n.is_none() && m.is_none() {
                        None
                    } else {
                        let f = unsafe { Z3_mk_false(self.c) };
                        Some(unsafe { Z3_mk_ite(self.c, q, n.unwrap_or(f), m.unwrap_or(f)) })
                    };
                    (r, nan)
                }
                _ => {
                    let v = self.leaf(e);
                    if !self.p.is_fp(e) {
                        self.leaves.push(e);
                    }
                    let n = if self.p.not_nan(e) { None } else { Some(self.nan_var(e)) };
                    // not beyond infinity
                    if n.is_some() && self.p.is_fp(e) {
                        if let K::Un(Uop::FSqrt, _) = self.p.k(e) {
                            let z = self.num(0.0);
                            let q = self.le(z, v);
                            self.easy.push(q);
                        }
                    }
                    (v, n)
                }
            }
        };
        self.rf.insert(e, r);
        r
    }

    /// An integer (as unsigned) as a real.
    fn ri(&mut self, e: E) -> P {
        if let Some(&r) = self.ri.get(&e) {
            return r;
        }
        let r = match self.p.k(e).clone() {
            K::Const(v) => {
                let s = cs(&v.to_string());
                unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.real) }
            }
            K::ZExt(x) => self.ri(x),
            K::Ite(q, a, b) => {
                let q = self.rb(q);
                let x = self.ri(a);
                let y = self.ri(b);
                unsafe { Z3_mk_ite(self.c, q, x, y) }
            }
            K::Bin(Bop::Add, a, b) if self.p.maybe[a as usize].checked_add(self.p.maybe[b as usize]).map_or(false, |s| s <= mask(self.p.w(e))) => {
                let x = self.ri(a);
                let y = self.ri(b);
                unsafe { Z3_mk_add(self.c, 2, [x, y].as_ptr()) }
            }
            k => {
                let v = self.constant(&format!("i{}", e), self.real);
                if let K::Sym(_) = k {
                    self.ints.push(e);
                }
                let m = self.p.maybe[e as usize];
                let s = cs(&m.to_string());
                let hi = unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.real) };
                let a = self.le(self.num(0.0), v);
                let b = self.le(v, hi);
                self.easy.push(a);
                self.easy.push(b);
                v
            }
        };
        self.ri.insert(e, r);
        r
    }

    fn float_cmp(&mut self, op: Bop, a: E, b: E) -> P {
        self.atoms += 1;
        let (x, n) = self.rf(a);
        let (y, m) = self.rf(b);
        let (mut l, mut r) = (x, y);
        if let (Some(s), Some(t)) = (self.tm(a), self.tm(b)) {
            // the difference, with what cancels gone
            let (poly, err) = self.combine(&s, &t, -1.0);
            let dust = up(err - s.err - t.err).max(0.0) + U * (s.err + t.err) * 8.0;
            let mut sum = vec![self.poly_ast(&poly)];
            if s.err > 0.0 && a != b {
                sum.push(self.err_var(a, s.err));
            }
            if t.err > 0.0 && a != b {
                let v = self.err_var(b, t.err);
                sum.push(self.scaled(v, -1.0));
            }
            if dust > 0.0 && a != b {
                sum.push(self.slack(dust));
            }
            l = unsafe { Z3_mk_add(self.c, sum.len() as u32, sum.as_ptr()) };
            r = self.num(0.0);
        }
        let q = match op {
            Bop::FOlt => self.lt(l, r),
            Bop::FOle => self.le(l, r),
            _ => unsafe { Z3_mk_eq(self.c, l, r) },
        };
        let mut all = vec![q];
        for k in [n, m].into_iter().flatten() {
            all.push(self.not(k));
        }
        self.and(&all)
    }

    fn rb(&mut self, e: E) -> P {
        if let Some(&r) = self.rb.get(&e) {
            return r;
        }
        let c = self.c;
        let r = match self.p.k(e).clone() {
            K::Const(v) => unsafe {
                if v == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            },
            K::Bin(op @ (Bop::FOlt | Bop::FOle | Bop::FOeq), a, b) if self.p.w(a) == 64 => self.float_cmp(op, a, b),
            K::Bin(Bop::FUno, a, b) if self.p.w(a) == 64 => {
                let (_, n) = self.rf(a);
                let (_, m) = self.rf(b);
                let v: Vec<P> = [n, m].into_iter().flatten().collect();
                if v.is_empty() {
                    unsafe { Z3_mk_false(c) }
                } else {
                    self.or(&v)
                }
            }
            K::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), a, b) if self.p.w(a) == 1 => {
                let x = self.rb(a);
                let y = self.rb(b);
                match op {
                    Bop::And => self.and(&[x, y]),
                    Bop::Or => self.or(&[x, y]),
                    _ => unsafe { Z3_mk_xor(c, x, y) },
                }
            }
            K::Bin(Bop::Eq, a, b) if self.p.w(a) == 1 => {
                let x = self.rb(a);
                let y = self.rb(b);
                unsafe { Z3_mk_eq(c, x, y) }
            }
            K::Ite(q, a, b) => {
                let q = self.rb(q);
                let x = self.rb(a);
                let y = self.rb(b);
                unsafe { Z3_mk_ite(c, q, x, y) }
            }
            K::Bin(op @ (Bop::Ult | Bop::Ule | Bop::Eq), a, b) if !self.p.is_fp(a) && !self.p.is_fp(b) => {
                let x = self.ri(a);
                let y = self.ri(b);
                match op {
                    Bop::Ult => self.lt(x, y),
                    Bop::Ule => self.le(x, y),
                    _ => unsafe { Z3_mk_eq(c, x, y) },
                }
            }
            _ => self.constant(&format!("b{}", e), self.boolean),
        };
        self.rb.insert(e, r);
        r
    }

    // ---- bounds of leaves from the path -------------------------------------------------------

    fn bound(&mut self, e: E, lo: f64, hi: f64) {
        let b = self.bounds.entry(e).or_insert((f64::NEG_INFINITY, f64::INFINITY));
        b.0 = b.0.max(lo);
        b.1 = b.1.min(hi);
    }

    fn ibound(&mut self, e: E, lo: f64, hi: f64) {
        let b = self.ibounds.entry(e).or_insert((f64::NEG_INFINITY, f64::INFINITY));
        b.0 = b.0.max(lo);
        b.1 = b.1.min(hi);
    }

    fn learn(&mut self, e: E, yes: bool) {
        let f = |s: &Self, e: E| s.p.cv(e).map(|v| f64::from_bits(v as u64)).filter(|v| !v.is_nan());
        match self.p.k(e).clone() {
            K::Bin(Bop::And, a, b) if yes => {
                self.learn(a, true);
                self.learn(b, true);
            }
            K::Bin(Bop::Or, a, b) if !yes => {
                self.learn(a, false);
                self.learn(b, false);
            }
            K::Bin(Bop::Xor, a, b) if self.p.w(e) == 1 && self.p.cv(b) == Some(1) => self.learn(a, !yes),
            K::Bin(Bop::FOlt | Bop::FOle, a, b) if yes && self.p.w(a) == 64 => {
                if let Some(k) = f(self, b) {
                    if let Some(x) = self.abs_of(a) {
                        self.bound(x, -k, k);
                    } else {
                        self.bound(a, f64::NEG_INFINITY, k);
                    }
                } else if let Some(k) = f(self, a) {
                    self.bound(b, k, f64::INFINITY);
                }
            }
            K::Bin(op @ (Bop::Ult | Bop::Ule), a, b) => {
                let strip = |s: &Self, mut e: E| {
                    while let K::ZExt(x) = s.p.k(e) {
                        e = *x
                    }
                    e
                };
                // a < b, a <= b, or negated b <= a, b < a
                let (a, b, strict) = if yes { (a, b, op == Bop::Ult) } else { (b, a, op == Bop::Ule) };
                let d = strict as i32 as f64;
                let strip64 = |s: &Self, e: E| match s.p.k(e) {
                    K::ZExt(x) => *x,
                    _ => e,
                };
                if let Some(k) = self.p.cv(b).filter(|&k| k >= strict as u128) {
                    let x = strip64(self, a);
                    let b = self.bits.entry(x).or_insert((0, u128::MAX));
                    b.1 = b.1.min(k - strict as u128);
                } else if let Some(k) = self.p.cv(a) {
                    let x = strip64(self, b);
                    let b = self.bits.entry(x).or_insert((0, u128::MAX));
                    b.0 = b.0.max(k + strict as u128);
                }
                if let Some(k) = self.p.cv(b) {
                    let mut x = a;
                    loop {
                        self.ibound(x, 0.0, up(k as f64 - d));
                        match self.p.k(x) {
                            K::ZExt(y) => x = *y,
                            _ => break,
                        }
                    }
                } else if let Some(k) = self.p.cv(a) {
                    let x = strip(self, b);
                    self.ibound(x, down(k as f64 + d), f64::INFINITY);
                    self.ibound(b, down(k as f64 + d), f64::INFINITY);
                }
            }
            _ => {}
        }
    }
}

impl Z3 {
    /// Decides the conjunction through the relaxation, if that is enough.
    pub fn relaxed(&mut self, p: &Pool, slice: &[E], q: E, syms: &[u32], base: &Model) -> Option<Res> {
        let c = self.c;
        let mut r = unsafe {
            Rel {
                c,
                p,
                bounds: Default::default(),
                ibounds: Default::default(),
                bits: Default::default(),
                range: Default::default(),
                center: Default::default(),
                tm: Default::default(),
                var: Default::default(),
                nanv: Default::default(),
                errv: Default::default(),
                rb: Default::default(),
                rf: Default::default(),
                ri: Default::default(),
                easy: vec![],
                hard: vec![],
                fresh: 0,
                real: Z3_mk_real_sort(c),
                boolean: Z3_mk_bool_sort(c),
                atoms: 0,
                leaves: vec![],
                ints: vec![],
            }
        };
        for &e in slice {
            r.learn(e, true);
        }
        r.learn(q, true);
        let mut all: Vec<P> = slice.iter().map(|&e| r.rb(e)).collect();
        all.push(r.rb(q));
        if r.atoms == 0 {
            return None;
        }
        let mut found = None;
        for stage in 0..2 {
            if stage == 1 && r.hard.is_empty() {
                break;
            }
            unsafe {
                let s = if stage == 0 { Z3_mk_simple_solver(c) } else { Z3_mk_solver(c) };
                Z3_solver_inc_ref(c, s);
                let pr = Z3_mk_params(c);
                Z3_params_inc_ref(c, pr);
                let k = cs("rlimit");
                Z3_params_set_uint(c, pr, Z3_mk_string_symbol(c, k.as_ptr()), 3_000_000);
                Z3_solver_set_params(c, s, pr);
                for &a in all.iter().chain(&r.easy) {
                    Z3_solver_assert(c, s, a);
                }
                if stage == 1 {
                    for &a in &r.hard {
                        Z3_solver_assert(c, s, a);
                    }
                }
                let res = Z3_solver_check(c, s);
                if self.real_log {
                    eprintln!(
                        "REAL stage {} -> {}\n{}",
                        stage,
                        res,
                        std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy()
                    );
                }
                let mut out = None;
                if res == -1 {
                    out = Some(Res::Unsat);
                } else if res == 1 {
                    out = candidate(c, s, p, &r, slice, q, syms, base);
                }
                Z3_params_dec_ref(c, pr);
                Z3_solver_dec_ref(c, s);
                if out.is_some() {
                    found = out;
                    break;
                }
            }
        }
        found.or_else(|| guess(p, &r, slice, q, syms, base))
    }
}

/// Simple values, before the exact theory is asked for others: if one satisfies the query, it is a
/// model like any other.
fn guess(p: &Pool, r: &Rel, slice: &[E], q: E, syms: &[u32], base: &Model) -> Option<Res> {
    let floats: Vec<(u32, f64, f64)> = r
        .leaves
        .iter()
        .filter_map(|&e| match p.k(e) {
            K::Sym(y) if p.w(e) == 64 => {
                let (lo, hi) = r.bounds.get(&e).copied().unwrap_or((f64::NEG_INFINITY, f64::INFINITY));
                Some((*y, lo.max(-1e3), hi.min(1e3)))
            }
            _ => None,
        })
        .collect();
    if floats.is_empty() || floats.len() > 12 {
        return None;
    }
    let mut seed = 0x9e37_79b9_7f4a_7c15u64;
    for _ in 0..200 {
        let mut vals = base.vals.clone();
        for &(y, lo, hi) in &floats {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            let v = match seed >> 60 {
                0..=2 => lo,
                3..=5 => hi,
                6 => 0.0f64.clamp(lo.min(hi), hi.max(lo)),
                7 => continue,
                k => lo + (hi - lo) * ((seed >> 20 & 0xff) as f64 / 256.0) * if k & 1 == 0 { 1.0 } else { 0.125 },
            };
            vals.insert(y, v.to_bits() as u128);
        }
        let t = Model::new(vals);
        if p.eval(q, &t) != 0 && slice.iter().all(|&e| p.eval(e, &t) != 0) {
            return Some(Res::Sat(syms.iter().map(|&y| (y, t.get(y))).collect()));
        }
    }
    None
}

/// The relaxed model with its reals as floats, if it satisfies the query.
unsafe fn candidate(c: P, s: P, p: &Pool, r: &Rel, slice: &[E], q: E, syms: &[u32], base: &Model) -> Option<Res> {
    let m = Z3_solver_get_model(c, s);
    Z3_model_inc_ref(c, m);
    let number = |a: P| -> Option<f64> {
        let mut out = std::ptr::null_mut();
        if !Z3_model_eval(c, m, a, true, &mut out) || !Z3_is_numeral_ast(c, out) {
            return None;
        }
        let t = std::ffi::CStr::from_ptr(Z3_get_numeral_decimal_string(c, out, 40)).to_string_lossy().into_owned();
        t.trim_end_matches('?').parse().ok()
    };
    let mut vals = base.vals.clone();
    for &e in &r.leaves {
        let K::Sym(y) = p.k(e) else { continue };
        let mut v = r.var.get(&e).and_then(|&a| number(a)).unwrap_or(0.0);
        if v.abs() > f64::MAX {
            v = if v > 0.0 { f64::INFINITY } else { f64::NEG_INFINITY };
        }
        if let Some(&n) = r.nanv.get(&e) {
            let mut out = std::ptr::null_mut();
            if Z3_model_eval(c, m, n, true, &mut out) && Z3_get_bool_value(c, out) == 1 {
                v = f64::NAN;
            }
        }
        vals.insert(*y, v.to_bits() as u128);
    }
    for &e in &r.ints {
        let K::Sym(y) = p.k(e) else { continue };
        if let Some(v) = number(r.ri[&e]) {
            vals.insert(*y, (v.round().max(0.0) as u128) & mask(p.w(e)));
        }
    }
    Z3_model_dec_ref(c, m);
    let t = Model::new(vals);
    if p.eval(q, &t) != 0 && slice.iter().all(|&e| p.eval(e, &t) != 0) {
        Some(Res::Sat(syms.iter().map(|&y| (y, t.get(y))).collect()))
    } else {
        None
    }
}
