//! C14: how likely each selection strategy picks each individual.
use crate::*;

/// The individual at `i` with this many chances.
fn law<const N: usize>(s: SelectionStrategy, chances: &dyn Fn(u64) -> u64, total: u64) {
    let p = ranked::<N>();
    let mut m = s.create_selector::<Ind, SymRng>();
    m.prepare(&p);
    let (i, _) = m.select(&p, &mut SymRng);
    let i = vpq::concretize(i as u64);
    vpq::outcome(i, chances(i), total);
}

/// The same with a mechanism that was prepared before for another population.
fn law_again<const M: usize, const N: usize>(s: SelectionStrategy, chances: &dyn Fn(u64) -> u64, total: u64) {
    let p = ranked::<N>();
    let mut m = s.create_selector::<Ind, SymRng>();
    m.prepare(&ranked::<M>());
    m.prepare(&p);
    let (i, _) = m.select(&p, &mut SymRng);
    let i = vpq::concretize(i as u64);
    vpq::outcome(i, chances(i), total);
}

fn tournament<const N: usize>(size: u32) {
    // the best of `size` uniform draws
    let n = N as u64;
    law::<N>(
        SelectionStrategy::Tournament(size as usize),
        &|i| (i + 1).pow(size) - i.pow(size),
        n.pow(size),
    );
}

fn rank<const N: usize>() {
    let n = N as u64;
    law::<N>(SelectionStrategy::Rank, &|i| i + 1, n * (n + 1) / 2);
}

/// `bound` of the N individuals are never chosen.
fn elitist<const N: usize>(ratio: f64, bound: u64) {
    law::<N>(
        SelectionStrategy::Elitist(ratio),
        &|i| (i >= bound) as u64,
        N as u64 - bound,
    );
}

const EPS: f64 = 1e-9;

/// A wheel with these weights: the individual whose share of the unit interval holds the number drawn.
fn wheel<const N: usize>(s: SelectionStrategy, before: &[(f64, u8)], fitness: [f64; N], weight: &dyn Fn(f64) -> f64) {
    let v: Vec<Ind> = (0..N).map(|i| ind(fitness[i], i as u8)).collect();
    let p = Population::new(v);
    let mut m = s.create_selector::<Ind, LogRng>();
    for &(fit, n) in before {
        m.prepare(&Population::new((0..n).map(|i| ind(fit + i as f64, i)).collect()));
    }
    m.prepare(&p);
    let mut rng = LogRng::new();
    let (i, who) = m.select(&p, &mut rng);
    check(rng.n == 1, "one number is drawn");
    let i = vpq::concretize(i as u64) as usize;
    check(who.tag == p[i].tag, "the individual is the one at the index");
    let u = rng.unit(0);
    let mut total = 0.0;
    for x in p.iter() {
        total += weight(x.fit);
    }
    let mut below = 0.0;
    for x in p[..i].iter() {
        below += weight(x.fit);
    }
    let upto = below + weight(p[i].fit);
    check(u >= below / total - EPS, "the number drawn is in the individual's share of the wheel");
    check(u <= upto / total + EPS, "the number drawn is in the individual's share of the wheel");
    cover("selected");
}

fn roulette<const N: usize>(limit: usize) {
    roulette_after::<N>(limit, &[])
}

/// `before`: populations that the mechanism was prepared for before.
fn roulette_after<const N: usize>(limit: usize, before: &[(f64, u8)]) {
    let mut f = [0.0; N];
    let mut total = 0.0;
    for x in &mut f {
        *x = pick(limit) as f64 * 0.75;
        total += *x;
    }
    assume(total > 0.0);
    wheel::<N>(SelectionStrategy::RouletteWheel, before, f, &|x| x);
}

fn boltzmann<const N: usize>(limit: usize, temperature: f64, cooling: f64) {
    boltzmann_after::<N>(limit, temperature, cooling, &[])
}

fn boltzmann_after<const N: usize>(limit: usize, temperature: f64, cooling: f64, before: &[(f64, u8)]) {
    let mut f = [0.0; N];
    for x in &mut f {
        *x = pick(limit) as f64 * 0.75 - 1.0;
    }
    let mut t = temperature * cooling;
    for _ in before {
        t *= cooling;
    }
    wheel::<N>(SelectionStrategy::Boltzmann(temperature, cooling), before, f, &|x| (x / t).exp());
}

/// Low temperatures.
fn boltzmann_cold<const N: usize>(limit: usize, before: &[(f64, u8)]) {
    let mut f = [0.0; N];
    for x in &mut f {
        *x = pick(limit) as f64 * 0.0007;
    }
    let t = 0.01 * 0.5 * 0.5 * 0.5;
    let v = |x: f64| (x / t).exp();
    wheel::<N>(SelectionStrategy::Boltzmann(0.01, 0.5), before, f, &v);
}

/// More individuals, the fitness of two of them arbitrary.
fn many<const N: usize>(s: SelectionStrategy, limit: usize, weight: &dyn Fn(f64) -> f64) {
    let mut f: [f64; N] = std::array::from_fn(|i| (i * 7 % 11) as f64 * 0.5);
    f[N / 3] = pick(limit) as f64 * 0.75;
    f[N - 1] = pick(limit) as f64 * 3.25;
    wheel::<N>(s, &[], f, weight);
}

/// The distance from the best, as a share of the population, has the density b - 2 (b - 1) y.
fn linear<const N: usize>(bias: f64) {
    let p = ranked::<N>();
    let mut m = SelectionStrategy::Linear(bias).create_selector::<Ind, LogRng>();
    m.prepare(&p);
    let mut rng = LogRng::new();
    let (i, _) = m.select(&p, &mut rng);
    check(rng.n == 1, "one number is drawn");
    let i = vpq::concretize(i as u64) as usize;
    let u = rng.unit(0);
    let cdf = |y: f64| bias * y - (bias - 1.0) * y * y;
    let k = N - 1 - i;
    check(u >= cdf(k as f64 / N as f64) - EPS, "the number drawn is in the individual's share");
    check(u <= cdf((k + 1) as f64 / N as f64) + EPS, "the number drawn is in the individual's share");
    reach(true, "every individual can be selected", i as u64);
    for j in 0..N {
        reach(false, "every individual can be selected", j as u64);
    }
    cover("selected");
}

/// Words of which all but one are the same.
struct Odd {
    word: u64,
    other: u64,
    at: usize,
    n: usize,
}

impl rand::RngCore for Odd {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.n += 1;
        if self.n == self.at + 1 {
            self.other
        } else {
            self.word
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// A large tournament: each of its draws counts.
fn crowd<const N: usize>(size: usize) {
    let p = ranked::<N>();
    let places = [0, 1, size / 4, 63, 64, 127, 128, 255, 256, size - 2, size - 1];
    let at = places[pick(11)];
    assume(at < size);
    let (word, other) = (vpq::rng_u64(), vpq::rng_u64());
    let mut draw = |size: usize, word: u64, other: u64, at: usize| {
        let mut m = SelectionStrategy::Tournament(size).create_selector::<Ind, Odd>();
        m.prepare(&p);
        m.select(&p, &mut Odd { word, other, at, n: 0 }).0
    };
    let (a, b) = (draw(1, word, 0, 9), draw(1, other, 0, 9));
    let i = draw(size, word, other, at);
    check(i == a.max(b), "the best of as many draws as the tournament is large");
    cover("tournament");
}

entries! {
    quick c14_crowd_3 => crowd::<5>(3);
    quick c14_crowd_70 => crowd::<5>(70);
    quick c14_crowd_300 => crowd::<9>(300);
    quick c14_rank_130 => rank::<130>();
    quick c14_boltzmann_cold => boltzmann_cold::<3>(4, &[(0.5, 2), (0.25, 3)]);
    quick c14_tournament_11 => tournament::<1>(1);
    quick c14_tournament_21 => tournament::<2>(1);
    quick c14_tournament_22 => tournament::<2>(2);
    quick c14_tournament_32 => tournament::<3>(2);
    quick c14_tournament_33 => tournament::<3>(3);
    quick c14_tournament_43 => tournament::<4>(3);
    quick c14_tournament_52 => tournament::<5>(2);
    quick c14_tournament_61 => tournament::<6>(1);
    thorough c14_tournament_44 => tournament::<4>(4);
    thorough c14_tournament_55 => tournament::<5>(5);
    quick c14_tournament_13 => tournament::<1>(3);
    quick c14_tournament_24 => tournament::<2>(4);
    quick c14_tournament_35 => tournament::<3>(5);
    thorough c14_tournament_45 => tournament::<4>(5);
    thorough c14_tournament_37 => tournament::<3>(7);
    quick c14_again_tournament => law_again::<5, 3>(SelectionStrategy::Tournament(2), &|i| 2 * i + 1, 9);
    quick c14_again_rank => law_again::<5, 3>(SelectionStrategy::Rank, &|i| i + 1, 6);
    quick c14_again_rank_more => law_again::<2, 4>(SelectionStrategy::Rank, &|i| i + 1, 10);
    quick c14_again_elitist => law_again::<6, 4>(SelectionStrategy::Elitist(0.5), &|i| (i >= 2) as u64, 2);
    quick c14_again_elitist_more => law_again::<2, 4>(SelectionStrategy::Elitist(0.5), &|i| (i >= 2) as u64, 2);
    quick c14_again_roulette => roulette_after::<2>(6, &[(5.0, 3)]);
    quick c14_again_roulette_less => roulette_after::<3>(4, &[(0.25, 2), (0.5, 1)]);
    quick c14_again_boltzmann => boltzmann_after::<2>(4, 4.0, 0.5, &[(5.0, 3)]);
    quick c14_again_boltzmann_twice => boltzmann_after::<2>(4, 2.0, 1.5, &[(1.0, 1), (-2.0, 3)]);
    quick c14_rank_1 => rank::<1>();
    quick c14_rank_2 => rank::<2>();
    quick c14_rank_3 => rank::<3>();
    quick c14_rank_6 => rank::<6>();
    quick c14_rank_11 => rank::<11>();
    quick c14_elitist_1 => elitist::<1>(0.75, 0);
    quick c14_elitist_2 => elitist::<2>(0.5, 1);
    quick c14_elitist_3 => elitist::<3>(0.25, 0);
    quick c14_elitist_4 => elitist::<4>(0.75, 3);
    quick c14_elitist_5 => elitist::<5>(0.5, 2);
    quick c14_elitist_8 => elitist::<8>(0.0, 0);
    quick c14_elitist_9 => elitist::<9>(0.625, 5);
    quick c14_roulette_1 => roulette::<1>(4);
    quick c14_roulette_2 => roulette::<2>(9);
    quick c14_roulette_3 => roulette::<3>(6);
    thorough c14_roulette_4 => roulette::<4>(6);
    quick c14_boltzmann_1 => boltzmann::<1>(5, 2.0, 0.5);
    quick c14_boltzmann_2 => boltzmann::<2>(6, 2.0, 0.5);
    quick c14_boltzmann_3 => boltzmann::<3>(5, 0.5, 0.75);
    quick c14_boltzmann_3h => boltzmann::<3>(5, 4.0, 1.5);
    thorough c14_boltzmann_4 => boltzmann::<4>(5, 1.0, 0.9);
    quick c14_linear_1 => linear::<1>(1.5);
    quick c14_linear_2 => linear::<2>(1.25);
    quick c14_linear_3 => linear::<3>(1.0);
    quick c14_linear_5 => linear::<5>(1.75);
    quick c14_linear_6 => linear::<6>(2.0);
    quick c14_linear_10 => linear::<10>(1.1);
    quick c14_tournament_202 => tournament::<20>(2);
    quick c14_tournament_93 => tournament::<9>(3);
    quick c14_tournament_401 => tournament::<40>(1);
    quick c14_rank_20 => rank::<20>();
    quick c14_rank_40 => rank::<40>();
    quick c14_elitist_33 => elitist::<33>(0.5, 16);
    quick c14_elitist_100 => elitist::<100>(0.875, 87);
    quick c14_many_roulette_12 => many::<12>(SelectionStrategy::RouletteWheel, 3, &|x| x);
    quick c14_many_roulette_40 => many::<40>(SelectionStrategy::RouletteWheel, 1, &|x| x);
    quick c14_many_boltzmann_12 => many::<12>(SelectionStrategy::Boltzmann(4.0, 0.5), 2, &|x| (x / 2.0).exp());
    quick c14_many_boltzmann_24 => many::<24>(SelectionStrategy::Boltzmann(4.0, 1.5), 1, &|x| (x / 6.0).exp());
    quick c14_linear_64 => linear::<64>(1.5);
    quick c14_linear_24 => linear::<24>(1.3);
    thorough c14_linear_40 => linear::<40>(1.3);
}
