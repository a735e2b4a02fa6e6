//! C18: the fittest individual, and the statistics of a population.
use crate::*;

fn stats<const N: usize>(v: Vec<Ind>) {
    let p = Population::new(v);
    let s = p.stats();
    check(s.count() == p.len(), "the statistics count the individuals");
    let best = p.fittest().fit;
    let mut top = true;
    let mut bottom = true;
    let mut at_max = false;
    let mut at_min = false;
    for x in p.iter() {
        top &= x.fit <= best;
        bottom &= s.min() <= x.fit;
        at_max |= x.fit == s.max();
        at_min |= x.fit == s.min();
    }
    check(top, "no individual is fitter than the fittest");
    check(at_max & (s.max() == best), "the maximum is the fitness of the fittest");
    check(at_min & bottom, "the minimum is the smallest fitness");
    check(s.arg_max() < p.len() && p[s.arg_max()].fit == best, "arg_max is the index of an individual with the maximum");
    check(s.arg_min() < p.len() && p[s.arg_min()].fit == s.min(), "arg_min is the index of an individual with the minimum");
    let tag = p.fittest().tag;
    let taken = p.take_fittest();
    check((taken.fit == best) & (taken.tag == tag), "take_fittest returns the fittest individual");
    cover("population");
}

/// Any finite fitness.
fn any<const N: usize>() {
    stats::<N>((0..N).map(|i| ind(any_finite(), i as u8)).collect());
}

/// Small integers, with equal individuals.
fn ints<const N: usize>(limit: usize) {
    stats::<N>(
        (0..N)
            .map(|_| {
                let k = pick(limit);
                ind((k / 2) as f64, k as u8)
            })
            .collect(),
    );
}

/// Mean and spread are those of the members.
fn moments<const N: usize>(limit: usize) {
    moments_of(Population::new((0..N).map(|i| ind(pick(limit) as f64, i as u8)).collect()));
}

fn moments_of(p: Population<Ind>) {
    let n = p.len() as f64;
    let mut sum = 0.0;
    for x in p.iter() {
        sum += x.fit;
    }
    let mut sq = 0.0;
    for x in p.iter() {
        sq += (x.fit - sum / n) * (x.fit - sum / n);
    }
    let var = if p.len() > 1 { sq / (n - 1.0) } else { 0.0 };
    check(near(p.stats().avg(), sum / n, 1e-9), "the average is the members'");
    check(near(p.stats().var(), var, 1e-9), "the variance is the members'");
    check(near(p.stats().std(), var.sqrt(), 1e-9), "the standard deviation is the members'");
    cover("moments");
}

/// More individuals, the fitness of two of them arbitrary.
fn many<const N: usize>(k: usize) {
    let mut v: Vec<Ind> = (0..N).map(|i| ind((i * k % N) as f64 - 4.0, i as u8)).collect();
    v[N / 3] = ind(below(80) as f64 - 20.0, 200);
    v[N - 1] = ind(below(80) as f64 - 20.0, 201);
    stats::<N>(v);
}

fn many_moments<const N: usize>(k: usize) {
    let mut v: Vec<Ind> = (0..N).map(|i| ind((i * k % N) as f64, i as u8)).collect();
    v[N / 3] = ind(pick(5) as f64 * 0.5, 200);
    v[N - 1] = ind(pick(5) as f64 * 20.0, 201);
    moments_of(Population::new(v));
}

/// The statistics follow a replacement.
fn replaced<const N: usize>() {
    let mut p = Population::new(vec![ind(below(8) as f64, 100), ind(below(8) as f64, 101)]);
    let mut v: Vec<Ind> = (0..N).map(|i| ind(below(8) as f64, i as u8)).collect();
    p.replace(&mut v);
    let mut top = true;
    let best = p.fittest().fit;
    for x in p.iter() {
        top &= x.fit <= best;
    }
    check(top & (p.stats().max() == best), "after a replacement the fittest is that of the new individuals");
    check(p.stats().count() == p.len(), "after a replacement the statistics count the new individuals");
    check(p.fittest().tag < 100, "after a replacement the fittest is one of the new individuals");
    cover("replaced");
}

/// Many individuals in any of a few orders, the best one at any place.
fn crowd<const N: usize>() {
    let at = pick(N);
    let k = [1, 7, 10][pick(3)];
    let mut v: Vec<Ind> = (0..N).map(|i| ind((i * k % N) as f64 - 4.0, i as u8)).collect();
    v[at].fit = 1000.0;
    stats::<N>(v);
}

entries! {
    quick c18_crowd_70 => crowd::<70>();
    quick c18_crowd_130 => crowd::<130>();
    quick c18_many_moments_130 => many_moments::<130>(7);
    quick c18_any_1 => any::<1>();
    quick c18_any_2 => any::<2>();
    quick c18_any_3 => any::<3>();
    thorough c18_any_4 => any::<4>();
    quick c18_ints_3 => ints::<3>(6);
    quick c18_ints_4 => ints::<4>(6);
    thorough/2 c18_ints_5 => ints::<5>(7);
    quick c18_moments_1 => moments::<1>(3);
    quick c18_moments_3 => moments::<3>(5);
    quick c18_moments_4 => moments::<4>(4);
    quick c18_many_12 => many::<12>(5);
    quick c18_many_21 => many::<21>(10);
    quick c18_many_moments_20 => many_moments::<20>(7);
    quick c18_many_moments_65 => many_moments::<65>(7);
    quick c18_replaced_2 => replaced::<2>();
    quick c18_replaced_3 => replaced::<3>();
}
