//! C19: replacing a population: generation, stagnation, and the old individuals.
use crate::*;

/// A history of replacements.
fn history<const ROUNDS: usize, const N: usize>(value: fn() -> f64) {
    let v: Vec<Ind> = (0..N).map(|i| ind(value(), i as u8)).collect();
    let mut p = Population::new(v);
    check((p.generation() == 0) & (p.stagnation() == 0), "a new population is generation 0 without stagnation");
    let mut since = 0;
    for round in 1..=ROUNDS {
        let best = p.fittest().fit;
        let old: Vec<u8> = p.iter().map(|x| x.tag).collect();
        let mut v: Vec<Ind> = (0..N).map(|i| ind(value(), (10 * round + i) as u8)).collect();
        p.replace(&mut v);
        check(p.generation() == round, "each replacement is a generation");
        if p.fittest().fit > best {
            since = 0;
            cover("improved");
        } else {
            since += 1;
            cover("stagnated");
        }
        check(p.stagnation() == since, "stagnation counts the generations since the best fitness last rose");
        let mut same = v.len() == old.len();
        for i in 0..v.len().min(old.len()) {
            same &= v[i].tag == old[i];
        }
        check(same, "the vector holds the previous individuals");
        let mut new = true;
        for x in p.iter() {
            new &= x.tag as usize / 10 == round;
        }
        check(new & (p.len() == N), "the population holds the new individuals");
    }
}

/// More individuals, of changing numbers, one of them arbitrary.
fn many<const ROUNDS: usize, const N: usize>() {
    let mut p = Population::new((0..N).map(|i| ind(i as f64, i as u8)).collect());
    let mut since = 0;
    for round in 1..=ROUNDS {
        let best = p.fittest().fit;
        let old: Vec<u8> = p.iter().map(|x| x.tag).collect();
        let n = N / round + pick(2) * 7;
        let mut v: Vec<Ind> = (0..n).map(|i| ind((i * 3 % n) as f64, i as u8)).collect();
        v[n / 2] = ind(any_finite(), 200);
        p.replace(&mut v);
        check((p.generation() == round) & (p.len() == n), "each replacement is a generation");
        since = if p.fittest().fit > best { 0 } else { since + 1 };
        check(p.stagnation() == since, "stagnation counts the generations since the best fitness last rose");
        let mut same = v.len() == old.len();
        for i in 0..v.len().min(old.len()) {
            same &= v[i].tag == old[i];
        }
        check(same, "the vector holds the previous individuals");
    }
    cover("history");
}

fn int() -> f64 {
    below(16) as f64
}

/// A long history: a rise, a fall, plateaus, at one of several places.
fn long<const N: usize>(rounds: usize) {
    let at = [1, 2, rounds / 2, 255, 256, 257, rounds][pick(7)];
    let step = [-8.0, 0.0, 0.5, 8.0][pick(4)];
    let drift = [0.0, 0.001, -0.001][pick(3)];
    let mut p = Population::new((0..N).map(|i| ind(i as f64, i as u8)).collect());
    let mut since = 0;
    for round in 1..=rounds {
        let best = p.fittest().fit;
        let base = if round >= at { step } else { 0.0 } + drift * round as f64;
        let mut v: Vec<Ind> = (0..N).map(|i| ind(i as f64 + base, (round * N + i) as u8)).collect();
        p.replace(&mut v);
        check(p.generation() == round, "each replacement is a generation");
        since = if p.fittest().fit > best { 0 } else { since + 1 };
        check(p.stagnation() == since, "stagnation counts the generations since the best fitness last rose");
        let mut same = v.len() == N;
        for i in 0..v.len().min(N) {
            same &= v[i].tag == ((round - 1) * N + i) as u8;
        }
        check(same, "the vector holds the previous individuals");
    }
    cover("long");
}

/// So many generations that narrow counters overflow.
fn endless(rounds: usize) {
    let mut p = Population::new(vec![ind(1.0, 0)]);
    let rise = pick(2) * (rounds - 3);
    let mut since = 0;
    let mut ok = true;
    let mut v = vec![ind(1.0, 1)];
    for round in 1..=rounds {
        let best = p.fittest().fit;
        if v[0].fit < 2.0 && rise == round {
            v[0].fit = 2.0;
        }
        p.replace(&mut v);
        since = if p.fittest().fit > best { 0 } else { since + 1 };
        ok &= (p.generation() == round) & (p.stagnation() == since);
    }
    check(ok, "each replacement is a generation, and stagnation counts those without progress");
    cover("endless");
}

entries! {
    quick c19_endless => endless(66_000);
    quick c19_long_1 => long::<1>(300);
    quick c19_long_3 => long::<3>(300);
    quick c19_many_3 => many::<1, 45>();
    quick c19_history_11 => history::<1, 1>(any_finite);
    quick c19_history_21 => history::<2, 1>(any_finite);
    quick c19_history_12 => history::<1, 2>(any_finite);
    quick c19_ints_31 => history::<3, 1>(int);
    quick c19_ints_51 => history::<5, 1>(int);
    quick c19_ints_22 => history::<2, 2>(int);
    quick c19_ints_32 => history::<3, 2>(int);
    quick/2 c19_ints_101 => history::<10, 1>(int);
    quick c19_many_1 => many::<1, 30>();
    quick c19_many_2 => many::<2, 12>();
    thorough/4 c19_ints_131 => history::<13, 1>(int);
    thorough/4 c19_ints_23 => history::<2, 3>(int);
    thorough c19_history_31 => history::<3, 1>(any_finite);
}
