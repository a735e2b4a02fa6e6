//! C16: a population is sorted by fitness.
use crate::*;

fn sorted(p: &[Ind]) -> bool {
    let mut ok = true;
    for i in 1..p.len() {
        ok &= p[i - 1].fit <= p[i].fit;
    }
    ok
}

/// Any numbers, infinite ones too, but not NaN.
fn number() -> f64 {
    let x = vpq::f64();
    assume(!x.is_nan());
    x
}

fn new<const N: usize>() {
    let v: Vec<Ind> = (0..N).map(|i| ind(number(), i as u8)).collect();
    let p = Population::new(v);
    check(sorted(&p), "the individuals are in ascending order of fitness");
    cover("new");
}

/// Small integer values: ties are common.
fn ints<const N: usize>(limit: usize) {
    let v: Vec<Ind> = (0..N).map(|i| ind(below(limit) as f64, i as u8)).collect();
    let p = Population::new(v);
    check(sorted(&p), "the individuals are in ascending order of fitness");
    check(p.len() == N, "none is lost");
    cover("new");
}

fn replaced<const N: usize, const M: usize>(rounds: usize) {
    let v: Vec<Ind> = (0..N).map(|i| ind((i % 3) as f64, i as u8)).collect();
    let mut p = Population::new(v);
    for round in 0..rounds {
        let mut w: Vec<Ind> = (0..M).map(|i| ind(below(8) as f64, (round * 8 + i) as u8)).collect();
        p.replace(&mut w);
        check(sorted(&p), "after a replacement too");
        check(p.len() == M, "none is lost");
    }
    cover("replaced");
}

/// Any number; in a large population one of five: below, between and above the others.
fn any_of(n: usize) -> f64 {
    if n <= 20 {
        number()
    } else {
        [-20.0, 0.25, n as f64 / 3.0, n as f64 - 2.0, f64::INFINITY][vpq::pick(5)]
    }
}

/// More individuals, the fitness of two of them any number.
fn many<const N: usize>(k: usize) {
    let mut v: Vec<Ind> = (0..N).map(|i| ind((i * k % N / 2) as f64, i as u8)).collect();
    v[N / 3] = ind(any_of(N), 200);
    v[N - 1] = ind(any_of(N), 201);
    let mut p = Population::new(v);
    check(sorted(&p), "the individuals are in ascending order of fitness");
    check(p.len() == N, "none is lost");
    cover("many");
}

fn many_replaced<const N: usize>(k: usize) {
    let mut p = Population::new((0..N).map(|i| ind((i * k % N / 2) as f64, i as u8)).collect());
    let mut w: Vec<Ind> = (0..N + 3).map(|i| ind((i * k % N) as f64, i as u8)).collect();
    w[N / 2] = ind(any_of(N), 200);
    p.replace(&mut w);
    check(sorted(&p), "after a replacement too");
    check(p.len() == N + 3, "none is lost");
    cover("many");
}

/// Every way to make a population gives the same one.
fn try_from<const N: usize>() {
    let v: Vec<Ind> = (0..N).map(|i| ind(below(6) as f64, i as u8)).collect();
    match Population::try_from(v) {
        Ok(p) => {
            check(N > 0 && sorted(&p), "the individuals are in ascending order of fitness");
            check((p.generation() == 0) & (p.stagnation() == 0), "a new population is generation 0");
            let n = p.len();
            let mut fits = [0.0; N];
            let mut tags = [0u8; N];
            for i in 0..n {
                fits[i] = p[i].fit;
                tags[i] = p[i].tag;
            }
            let w: Vec<Ind> = p.into();
            check(w.len() == n, "the vector holds the individuals of the population");
            let mut ok = true;
            for i in 0..w.len() {
                ok &= (w[i].tag == tags[i]) & (w[i].fit == fits[i]);
            }
            check(ok, "the vector holds the individuals in the same order");
            cover("population");
        }
        Err(v) => {
            check(N == 0 && v.is_empty(), "only no individuals are no population");
            cover("none");
        }
    }
}

fn empty_new() {
    vpq::expect_panic("a population of no individuals");
    Population::<Ind>::new(Vec::new());
}

fn empty_replace() {
    let mut p = Population::new(vec![ind(1.0, 1)]);
    vpq::expect_panic("a population of no individuals");
    p.replace(&mut Vec::new());
}

entries! {
    quick c16_many_replaced_130 => many_replaced::<130>(7);
    quick c16_new_1 => new::<1>();
    quick c16_new_2 => new::<2>();
    quick c16_new_3 => new::<3>();
    quick c16_ints_4 => ints::<4>(16);
    quick c16_ints_5 => ints::<5>(16);
    thorough/2 c16_ints_6 => ints::<6>(16);
    thorough c16_new_4 => new::<4>();
    quick c16_replaced_13 => replaced::<1, 3>(1);
    quick c16_replaced_42 => replaced::<4, 2>(2);
    thorough c16_replaced_23 => replaced::<2, 3>(2);
    quick c16_try_0 => try_from::<0>();
    quick c16_try_1 => try_from::<1>();
    quick c16_try_3 => try_from::<3>();
    quick c16_many_13 => many::<13>(5);
    quick c16_many_24 => many::<24>(1);
    quick c16_many_replaced_13 => many_replaced::<13>(5);
    quick c16_many_replaced_40 => many_replaced::<40>(7);
    quick c16_many_33 => many::<33>(10);
    quick c16_empty_new => empty_new();
    quick c16_empty_replace => empty_replace();
}
