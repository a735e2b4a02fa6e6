//! What the harnesses share.
pub use rusty_genes::*;
pub use vpq::{assume, below, check, cover, observe, pick, reach};

/// A generator whose every word is a fresh symbolic value.
pub struct SymRng;

impl rand::RngCore for SymRng {
    fn next_u32(&mut self) -> u32 {
        vpq::rng_u32()
    }
    fn next_u64(&mut self) -> u64 {
        vpq::rng_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = vpq::rng_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// 0, 1, .., N-1
pub fn ident<const N: usize>() -> [u8; N] {
    std::array::from_fn(|i| i as u8)
}

/// An arbitrary permutation of 0..N.
pub fn any_perm<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    for i in 0..N {
        a[i] = vpq::u8();
        assume((a[i] as usize) < N);
        for j in 0..i {
            assume(a[j] != a[i]);
        }
    }
    a
}

/// One iteration order of the hashed collections is enough from here on.
pub fn one_order() {
    vpq::set_any_order(false);
}

/// N-1, .., 1, 0
pub fn reversed<const N: usize>() -> [u8; N] {
    std::array::from_fn(|i| (N - 1 - i) as u8)
}

/// Every k-th gene, going round (k has no divisor in common with N).
pub fn stride<const N: usize>(k: usize) -> [u8; N] {
    std::array::from_fn(|i| (i * k % N) as u8)
}

/// The genome with its genes at these positions in any order.
pub fn scattered<const N: usize, const K: usize>(mut base: [u8; N], at: [usize; K]) -> [u8; N] {
    let p = any_perm::<K>();
    let old = at.map(|i| base[i]);
    for k in 0..K {
        let mut g = 0;
        for j in 0..K {
            g = if p[k] as usize == j { old[j] } else { g };
        }
        base[at[k]] = g;
    }
    base
}

/// N arbitrary genes below `limit`.
pub fn any_genes<const N: usize>(limit: usize) -> [u8; N] {
    let mut a = [0u8; N];
    for x in &mut a {
        *x = below(limit) as u8;
    }
    a
}

/// The genome as it is on this path.
pub fn decided<const N: usize>(p: [u8; N]) -> [u8; N] {
    p.map(|g| vpq::concretize(g as u64) as u8)
}

/// The places of the genes 0..N of a genome that is decided.
pub fn places<const N: usize>(p: &[u8; N]) -> [usize; N] {
    let mut at = [N; N];
    for i in 0..N {
        at[p[i] as usize] = i;
    }
    at
}

/// Every element of 0..N exactly once. For use in `check`.
pub fn is_perm<const N: usize>(v: &[u8]) -> bool {
    if v.len() != N {
        return false;
    }
    let mut ok = true;
    if N > 60 {
        // a long genome is decided by now
        let mut seen = [false; 256];
        for &g in v {
            let g = vpq::concretize(g as u64) as usize;
            ok &= g < N && !seen[g];
            seen[g] = true;
        }
        return ok;
    }
    let mut seen = 0u64;
    for i in 0..N {
        ok &= (v[i] as usize) < N;
        seen |= 1u64 << (v[i] & 63);
    }
    ok & (seen == (1u64 << N) - 1)
}

/// How often `x` occurs.
pub fn count(v: &[u8], x: u8) -> u8 {
    let mut n = 0;
    for &y in v {
        n += (y == x) as u8;
    }
    n
}

/// The same elements with the same multiplicities.
pub fn same_multiset(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    for &x in a {
        ok &= count(a, x) == count(b, x);
    }
    ok
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i] == b[i];
        }
    }
    ok
}

pub fn contains(v: &[u8], x: u8) -> bool {
    let mut r = false;
    for &y in v {
        r |= y == x;
    }
    r
}

/// Position of `x` (which must occur).
pub fn pos(v: &[u8], x: u8) -> usize {
    let mut r = v.len();
    for i in (0..v.len()).rev() {
        r = if v[i] == x { i } else { r };
    }
    r
}

pub fn observe_all(v: &[u8]) {
    observe(v.len() as u64);
    for &x in v {
        observe(x as u64);
    }
}

/// A generator that also remembers its words.
#[derive(Clone)]
pub struct LogRng {
    pub words: [u64; 16],
    pub n: usize,
}

impl LogRng {
    pub fn new() -> Self {
        LogRng { words: [0; 16], n: 0 }
    }
    /// The k-th word as rand reads an f64 of [0, 1) from it.
    pub fn unit(&self, k: usize) -> f64 {
        (self.words[k] >> 11) as f64 * (1.0 / (1u64 << 53) as f64)
    }
}

impl rand::RngCore for LogRng {
    fn next_u32(&mut self) -> u32 {
        let w = vpq::rng_u32();
        if self.n < 16 {
            self.words[self.n] = w as u64;
        }
        self.n += 1;
        w
    }
    fn next_u64(&mut self) -> u64 {
        let w = vpq::rng_u64();
        if self.n < 16 {
            self.words[self.n] = w;
        }
        self.n += 1;
        w
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// An individual that is equal to those with the same tag.
#[derive(Clone, Debug)]
pub struct Ind {
    pub fit: f64,
    pub tag: u8,
}

impl PartialEq for Ind {
    fn eq(&self, o: &Self) -> bool {
        self.tag == o.tag
    }
}

impl Individual for Ind {
    fn fitness(&self) -> f64 {
        self.fit
    }
}

pub fn ind(fit: f64, tag: u8) -> Ind {
    Ind { fit, tag }
}

/// Any finite value.
pub fn any_finite() -> f64 {
    let x = vpq::f64();
    assume(x.is_finite());
    x
}

/// A population of N individuals with fitness 0, 1, .. and tags likewise.
pub fn ranked<const N: usize>() -> Population<Ind> {
    let v: Vec<Ind> = (0..N).map(|i| ind(i as f64, i as u8)).collect();
    Population::new(v)
}

/// `|a - b| <= eps` for numbers around `size`.
pub fn near(a: f64, b: f64, eps: f64) -> bool {
    (a - b <= eps) & (b - a <= eps)
}
