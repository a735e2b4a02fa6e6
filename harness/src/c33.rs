//! C33: comparing individuals by fitness.
use crate::*;
use std::cmp::Ordering;

fn number() -> f64 {
    let x = vpq::f64();
    assume(!x.is_nan());
    x
}

fn order(a: f64, b: f64) -> Ordering {
    if a < b {
        Ordering::Less
    } else if a > b {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}

fn compare() {
    let (a, b) = (vpq::f64(), vpq::f64());
    check(compare_fitness(&ind(a, 1), &ind(b, 2)) == order(a, b), "fitness decides, and what cannot be compared is equal");
    cover("compared");
}

fn wrapper() {
    let (a, b) = (vpq::f64(), vpq::f64());
    let (x, y) = (IndividualWrapper::from(ind(a, 1)), IndividualWrapper::from(ind(b, 2)));
    check((x == y) == (a == b), "wrapped individuals are equal if their fitness is");
    check(x.partial_cmp(&y) == a.partial_cmp(&b), "the partial order is that of the fitness");
    check(x.cmp(&y) == order(a, b), "the order is that of the fitness");
    check(((x < y) == (a < b)) & ((x >= y) == (a >= b)), "the comparisons are those of the fitness");
    cover("compared");
}

fn content() {
    let a = vpq::f64();
    let tag = vpq::u8();
    let mut x = IndividualWrapper::from(ind(a, tag));
    check((x.tag == tag) & (x.fit.to_bits() == a.to_bits()), "the wrapped individual can be read");
    let t = vpq::u8();
    x.tag = t;
    check(x.tag == t, "the wrapped individual can be changed");
    let i = x.take();
    check((i.tag == t) & (i.fit.to_bits() == a.to_bits()), "the wrapped individual can be taken out");
    cover("content");
}

/// A heap of wrapped individuals hands out the fittest first.
fn max<const N: usize>() {
    let v: Vec<IndividualWrapper<Ind>> = (0..N).map(|i| ind(number(), i as u8).into()).collect();
    let mut best = 0;
    for i in 1..N {
        if v[i] > v[best] {
            best = i;
        }
    }
    let m = v.iter().max().unwrap();
    check(m.fit == v[best].fit, "the maximum is the fittest");
    let mut ok = true;
    for x in &v {
        ok &= x.fit <= m.fit;
    }
    check(ok, "none is fitter than the maximum");
    cover("max");
}

entries! {
    quick c33_compare => compare();
    quick c33_wrapper => wrapper();
    quick c33_content => content();
    quick c33_max_2 => max::<2>();
    quick c33_max_3 => max::<3>();
}
