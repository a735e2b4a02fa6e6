//! C13: every selection returns a member of the population.
use crate::*;

type Sel = Box<dyn SelectionMechanism<Ind, SymRng>>;

fn member(p: &Population<Ind>, s: &Sel) {
    let (i, who) = s.select(p, &mut SymRng);
    check(i < p.len(), "the index is within the population");
    check(std::ptr::eq(who, &p[i]), "the individual is the one at the index");
    observe(i as u64);
    cover("selected");
}

/// Individuals of any finite fitness.
fn any_population<const N: usize>() -> Population<Ind> {
    let v: Vec<Ind> = (0..N).map(|i| ind(any_finite(), i as u8)).collect();
    Population::new(v)
}

fn prepared(s: SelectionStrategy, p: &Population<Ind>) -> Sel {
    let mut m = s.create_selector::<Ind, SymRng>();
    m.prepare(p);
    m
}

fn tournament<const N: usize>() {
    let p = any_population::<N>();
    let s = prepared(SelectionStrategy::Tournament(pick(4) + 1), &p);
    member(&p, &s);
}

fn rank<const N: usize>() {
    let p = ranked::<N>();
    let s = prepared(SelectionStrategy::Rank, &p);
    member(&p, &s);
}

fn elitist<const N: usize>(ratio: f64) {
    let p = ranked::<N>();
    let s = prepared(SelectionStrategy::Elitist(ratio), &p);
    member(&p, &s);
}

/// Any ratio the constructor accepts.
fn elitist_any<const N: usize>() {
    let p = ranked::<N>();
    let ratio = vpq::f64();
    assume((ratio >= 0.0) & (ratio < 1.0));
    let s = prepared(SelectionStrategy::Elitist(ratio), &p);
    member(&p, &s);
}

fn roulette<const N: usize>(limit: usize) {
    let v: Vec<Ind> = (0..N).map(|i| ind(pick(limit) as f64 * 0.5 - 1.0, i as u8)).collect();
    let p = Population::new(v);
    let s = prepared(SelectionStrategy::RouletteWheel, &p);
    member(&p, &s);
}

fn boltzmann<const N: usize>(t: f64, c: f64) {
    let v: Vec<Ind> = (0..N).map(|i| ind(pick(4) as f64 * 0.5 - 0.5, i as u8)).collect();
    let p = Population::new(v);
    let s = prepared(SelectionStrategy::Boltzmann(t, c), &p);
    member(&p, &s);
}

/// More individuals, the fitness of three of them arbitrary.
fn many<const N: usize>(s: SelectionStrategy, limit: usize) {
    let v: Vec<Ind> = (0..N)
        .map(|i| {
            let k = if i == 0 || i == N / 2 || i == N - 1 { pick(limit) } else { i * 7 % 11 };
            ind(k as f64 * 0.5, i as u8)
        })
        .collect();
    let p = Population::new(v);
    let s = prepared(s, &p);
    member(&p, &s);
}

fn linear<const N: usize>(bias: f64) {
    let p = ranked::<N>();
    let s = prepared(SelectionStrategy::Linear(bias), &p);
    member(&p, &s);
}

entries! {
    quick c13_tournament_1 => tournament::<1>();
    quick c13_tournament_2 => tournament::<2>();
    quick c13_tournament_3 => tournament::<3>();
    quick c13_rank_1 => rank::<1>();
    quick c13_rank_2 => rank::<2>();
    quick c13_rank_5 => rank::<5>();
    quick c13_rank_9 => rank::<9>();
    quick c13_elitist_1 => elitist::<1>(0.9);
    quick c13_elitist_4 => elitist::<4>(0.999999);
    quick c13_elitist_7 => elitist::<7>(0.5);
    quick c13_elitist_any_1 => elitist_any::<1>();
    quick c13_elitist_any_3 => elitist_any::<3>();
    quick c13_elitist_any_5 => elitist_any::<5>();
    quick c13_roulette_1 => roulette::<1>(8);
    quick c13_roulette_2 => roulette::<2>(8);
    quick c13_roulette_3 => roulette::<3>(6);
    thorough/4 c13_roulette_4 => roulette::<4>(6);
    quick c13_boltzmann_1 => boltzmann::<1>(1.0, 0.5);
    quick c13_boltzmann_2 => boltzmann::<2>(0.25, 0.5);
    quick/4 c13_boltzmann_3 => boltzmann::<3>(2.0, 0.75);
    quick c13_linear_1_100 => linear::<1>(1.0);
    quick c13_linear_1_150 => linear::<1>(1.5);
    quick c13_linear_3_100 => linear::<3>(1.0);
    quick c13_linear_3_125 => linear::<3>(1.25);
    quick c13_linear_4_200 => linear::<4>(2.0);
    quick c13_linear_5_150 => linear::<5>(1.5);
    quick c13_linear_3_300 => linear::<3>(3.0);
    quick c13_linear_50_125 => linear::<50>(1.25);
    quick c13_many_tournament_24 => many::<24>(SelectionStrategy::Tournament(pick(5) + 1), 4);
    quick c13_many_tournament_70 => many::<70>(SelectionStrategy::Tournament(2), 2);
    quick c13_many_tournament_9 => many::<9>(SelectionStrategy::Tournament(12), 2);
    quick c13_many_rank_40 => many::<40>(SelectionStrategy::Rank, 3);
    quick c13_many_rank_70 => many::<70>(SelectionStrategy::Rank, 1);
    quick c13_many_elitist_40 => many::<40>(SelectionStrategy::Elitist(0.9), 3);
    quick c13_many_elitist_101 => many::<101>(SelectionStrategy::Elitist(0.999), 1);
    quick c13_many_roulette_20 => many::<20>(SelectionStrategy::RouletteWheel, 2);
    quick c13_many_roulette_40 => many::<40>(SelectionStrategy::RouletteWheel, 1);
    quick c13_many_boltzmann_12 => many::<12>(SelectionStrategy::Boltzmann(1.0, 0.5), 2);
    quick c13_many_boltzmann_24 => many::<24>(SelectionStrategy::Boltzmann(8.0, 0.9), 1);
    quick c13_many_linear_24 => many::<24>(SelectionStrategy::Linear(1.5), 3);
    quick c13_many_linear_101 => many::<101>(SelectionStrategy::Linear(1.9), 1);
    quick c13_linear_7_110 => linear::<7>(1.1);
}
