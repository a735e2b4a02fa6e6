//! C39: whatever the thread pool does, a generation consists of the same individuals.
//!
//! The pool splits the work into any jobs and interleaves them in any way, sums associate along any
//! tree, and equal elements come out of a sort in any order (see models/rayon).
use crate::algo::{aga, ga};
use crate::*;
use std::cell::Cell;

/// Every individual knows what happened to it.
#[derive(Clone, Debug)]
struct Part {
    id: u8,
    key: u8,
    arg: u8,
    mutations: u8,
    evaluations: u8,
    fit: f64,
}

impl PartialEq for Part {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}

impl Individual for Part {
    fn fitness(&self) -> f64 {
        self.fit
    }
}

fn part(id: u8, fit: f64) -> Part {
    Part { id, key: id, arg: 0, mutations: 0, evaluations: 0, fit }
}

impl RandomIndividual<Maker> for Part {
    fn new_random<R: rand::Rng>(arg: &Maker, _: &mut R) -> Self {
        Part { arg: arg.arg, ..part(arg.next(), f64::NAN) }
    }
}

/// Numbers the individuals in the order in which they are made.
struct Maker {
    made: Cell<u8>,
    arg: u8,
}

unsafe impl Sync for Maker {}

impl Maker {
    fn next(&self) -> u8 {
        let k = self.made.get();
        self.made.set(k + 1);
        k
    }
}

/// The generator of a job; no two jobs have the same.
struct JobRng {
    uses: u8,
}

impl rand::RngCore for JobRng {
    fn next_u32(&mut self) -> u32 {
        self.uses += 1;
        vpq::rng_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.uses += 1;
        vpq::rng_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = vpq::rng_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Breeds numbered individuals whose fitness is looked up by their number.
struct Model {
    bred: Maker,
    evaluated: Cell<usize>,
    fit: [f64; 16],
    /// All that are bred are equal.
    alike: bool,
}

unsafe impl Sync for Model {}

fn model(fit: [f64; 16]) -> Model {
    Model { bred: Maker { made: Cell::new(0), arg: 0 }, evaluated: Cell::new(0), fit, alike: false }
}

impl EvolutionModel for Model {
    type Individual = Part;
    type Rng = JobRng;
    fn rng() -> JobRng {
        JobRng { uses: 0 }
    }
    fn crossover(&self, a: &Part, _: &Part, _: &mut JobRng) -> Part {
        a.clone()
    }
    fn mutate(&self, x: &mut Part, _: &mut JobRng) {
        x.mutations += 1;
        x.arg = x.id;
        x.id = self.bred.next();
        x.key = x.id;
    }
    fn evaluate(&self, x: &mut Part) {
        self.evaluated.set(self.evaluated.get() + 1);
        x.evaluations += 1;
        x.fit = self.fit[(x.id & 15) as usize];
    }
    fn breed(&self, _: &Population<Part>, _: &ReproductionParameters<Self>, _: &mut JobRng) -> Part {
        let id = self.bred.next();
        Part { key: if self.alike { 7 } else { id }, ..part(id, self.fit[(id & 15) as usize]) }
    }
}

fn descending() -> [f64; 16] {
    std::array::from_fn(|i| 20.0 - i as f64)
}

/// Evaluating the initial population.
fn evaluate<A: EvolutionAlgorithm<Model> + From<Model>, const N: usize>(invalid: usize) {
    vpq::schedules(true);
    let mut fit = descending();
    if invalid < 16 {
        fit[invalid] = f64::INFINITY;
    }
    let a = A::from(model(fit));
    let p = a.initialize_population((0..N).map(|i| part(i as u8, f64::NAN)).collect());
    vpq::schedules(false);
    check(a.model().evaluated.get() == N, "each individual is evaluated once");
    let mut ok = p.len() == N - (invalid < N) as usize;
    let mut seen = 0u32;
    for x in p.iter() {
        ok &= (x.evaluations == 1) & (x.fit == 20.0 - x.id as f64);
        seen |= 1 << x.id;
    }
    let mut want = (1u32 << N) - 1;
    if invalid < N {
        want &= !(1 << invalid);
    }
    check(ok & (seen == want), "the population are the valid individuals, with their own fitness");
    cover("evaluated");
}

/// Random individuals behind those that are there.
fn random<const N: usize>() {
    vpq::schedules(true);
    let m = model(descending());
    let mut v = vec![part(200, 1.0)];
    let maker = Maker { made: Cell::new(0), arg: vpq::u8() };
    m.extend_population(&mut v, N, &maker);
    vpq::schedules(false);
    check((v.len() == N + 1) & (v[0].id == 200), "as many individuals as asked for, behind those that are there");
    let mut seen = 0u32;
    let mut ok = maker.made.get() as usize == N;
    for x in &v[1..] {
        ok &= (x.arg == maker.arg) & (x.mutations == 0) & (x.evaluations == 0);
        seen |= 1 << (x.id & 31);
    }
    check(ok & (seen == (1 << N) - 1), "each random individual that is made is there once");
    cover("extended");
}

/// Mutated copies of an individual.
fn with<const N: usize>() {
    vpq::schedules(true);
    let m = model(descending());
    let mut v = vec![];
    m.extend_population_with(&mut v, N, part(100, 1.0));
    vpq::schedules(false);
    check((v.len() == N) & (v[0].id == 100) & (v[0].mutations == 0), "the individual itself comes first, unchanged");
    let mut seen = 0u32;
    let mut ok = m.bred.made.get() as usize == N - 1;
    for x in &v[1..] {
        ok &= (x.mutations == 1) & (x.arg == 100);
        seen |= 1 << (x.id & 31);
    }
    check(ok & (seen == (1 << (N - 1)) - 1), "each of the others is the individual mutated once");
    cover("extended");
}

/// Breeding a generation, next to those that are there.
fn fill<A: EvolutionAlgorithm<Model> + From<Model>>(params: A::Parameters, size: usize, held: usize) {
    vpq::schedules(true);
    let mut m = model(descending());
    m.alike = pick(2) == 1;
    let mut a = A::from(m);
    a.configure(&params);
    let p = Population::new(vec![part(240, 0.0), part(241, 1.0)]);
    let mut v: Vec<Part> = (0..held).map(|i| part(100 + i as u8, 0.5)).collect();
    let pool = object_pool::Pool::new(pick(3), <Model as EvolutionModel>::rng);
    a.generate_new_population(&p, &mut v, &pool);
    vpq::schedules(false);
    check(v.len() == size, "the generation is filled up to the population size");
    let mut bred = 0u32;
    let mut ok = a.model().bred.made.get() as usize == size - held;
    for (i, x) in v.iter().enumerate() {
        if i < held {
            ok &= x.id == 100 + i as u8;
        } else {
            bred |= 1 << (x.id & 31);
        }
    }
    check(ok & (bred == (1u32 << (size - held)) - 1), "each bred individual is in the generation once");
    cover("filled");
}

/// A population with ties.
fn sorted<const N: usize>(limit: usize) {
    let fit: [f64; N] = std::array::from_fn(|_| pick(limit) as f64);
    let same = pick(2) == 1;
    vpq::schedules(true);
    // the last one may be a copy of the first one
    let v: Vec<Part> = (0..N).map(|i| if same && i == N - 1 { part(0, fit[0]) } else { part(i as u8, fit[i]) }).collect();
    let mut p = Population::new(vec![part(99, 1.0), part(98, 1.0)]);
    p.replace(&mut v.clone());
    vpq::schedules(false);
    let want = N - (same && N > 1) as usize;
    check(p.len() == want, "every distinct individual is in the population once");
    let mut seen = 0u32;
    let mut order = true;
    for i in 0..p.len() {
        seen |= 1 << p[i].id;
        order &= i == 0 || p[i - 1].fit <= p[i].fit;
    }
    check(order, "the population is sorted");
    check(seen == (1u32 << want) - 1, "every distinct individual is in the population once");
    let s = p.stats();
    let top = v.iter().map(|x| x.fit).fold(0.0, f64::max);
    check((s.max() == top) & (p.fittest().fit == top) & (p[s.arg_max()].fit == top), "the fittest individual is one of the best");
    check((s.count() == want) & (p[s.arg_min()].fit == s.min()), "the statistics are those of the members");
    check(p.take_fittest().fit == top, "the fittest individual taken out is one of the best");
    cover("sorted");
}

/// A wheel whose total is summed up in any association.
fn wheel(s: SelectionStrategy, fitness: &[f64], weight: &dyn Fn(f64) -> f64) {
    let n = fitness.len();
    let p = Population::new((0..n).map(|i| ind(fitness[i], i as u8)).collect());
    let mut m = s.create_selector::<Ind, LogRng>();
    vpq::schedules(true);
    m.prepare(&p);
    vpq::schedules(false);
    let mut rng = LogRng::new();
    let (i, who) = m.select(&p, &mut rng);
    check(i < n, "the index is within the population");
    let i = vpq::concretize(i as u64) as usize;
    check(std::ptr::eq(who, &p[i]), "the individual is the one at the index");
    let u = rng.unit(0);
    let mut total = 0.0;
    for x in p.iter() {
        total += weight(x.fit);
    }
    let mut below = 0.0;
    for x in p[..i].iter() {
        below += weight(x.fit);
    }
    let upto = below + weight(p[i].fit);
    check((u >= below / total - 1e-9) & (u <= upto / total + 1e-9), "the number drawn is in the individual's share");
    reach(true, "every individual can be selected", i as u64);
    for j in 0..n {
        reach(false, "every individual can be selected", j as u64);
    }
    cover("selected");
}

fn roulette(fitness: &[f64]) {
    wheel(SelectionStrategy::RouletteWheel, fitness, &|x| x)
}

fn boltzmann(fitness: &[f64]) {
    wheel(SelectionStrategy::Boltzmann(2.0, 0.5), fitness, &|x| x.exp())
}

/// A whole run: sizes, elites and the best individual.
fn run<A: EvolutionAlgorithm<Model> + From<Model>>(params: A::Parameters, size: usize, elites: usize, generations: usize) {
    let mut fit = [0.0; 16];
    for x in &mut fit[..size * (generations + 1)] {
        *x = pick(2) as f64;
    }
    vpq::schedules(true);
    let e = A::build_evolution(model(fit));
    let maker = Maker { made: Cell::new(0), arg: 0 };
    let mut seen = -1.0;
    let mut kept: Vec<u8> = vec![];
    let best = e.run(&maker, &params, |p| {
        vpq::schedules(false);
        let g = p.generation();
        check((p.len() <= size) & ((elites > 0) | (p.len() == size)), "the size of the generation");
        let mut there = true;
        for &k in &kept {
            there &= p.iter().any(|x| x.id == k);
        }
        check(there, "the elites are in the next generation");
        let f = p.fittest().fit;
        check(p.iter().all(|x| x.fit <= f), "the fittest individual is one of the best");
        check((elites == 0) | (g == 0) | (f >= seen), "the best fitness does not fall with an elite");
        seen = if f > seen { f } else { seen };
        kept = p[p.len() - elites..].iter().map(|x| x.id).collect();
        vpq::schedules(true);
        g < generations
    });
    vpq::schedules(false);
    check(best.fit == seen, "the solution is the best that was found");
    cover("ran");
}

type Ga = GeneticAlgorithm<Model>;
type Aga = AdaptiveGeneticAlgorithm<Model>;

entries! {
    quick c39_evaluate_ga_2 => evaluate::<Ga, 2>(99);
    quick c39_evaluate_ga_3 => evaluate::<Ga, 3>(1);
    quick c39_evaluate_ga_4 => evaluate::<Ga, 4>(99);
    quick c39_evaluate_aga_3 => evaluate::<Aga, 3>(2);
    thorough c39_evaluate_ga_5 => evaluate::<Ga, 5>(0);
    quick c39_random_2 => random::<2>();
    quick c39_random_4 => random::<4>();
    thorough c39_random_5 => random::<5>();
    quick c39_with_2 => with::<2>();
    quick c39_with_3 => with::<3>();
    quick c39_with_5 => with::<5>();
    thorough c39_with_6 => with::<6>();
    quick c39_fill_ga_2 => fill::<Ga>(ga(2, 0.0, 0.5, 0.5), 2, 0);
    quick c39_fill_ga_4 => fill::<Ga>(ga(4, 0.0, 0.5, 0.5), 4, 0);
    quick c39_fill_ga_51 => fill::<Ga>(ga(5, 0.2, 0.5, 0.5), 5, 1);
    quick c39_fill_aga_31 => fill::<Aga>(aga(3, 0.5, 0.0..1.0, 0.0..1.0), 3, 1);
    thorough c39_fill_ga_5 => fill::<Ga>(ga(5, 0.0, 0.5, 0.5), 5, 0);
    quick c39_sorted_1 => sorted::<1>(2);
    quick c39_sorted_2 => sorted::<2>(2);
    quick c39_sorted_3 => sorted::<3>(2);
    quick c39_sorted_4 => sorted::<4>(2);
    thorough c39_sorted_4t => sorted::<4>(3);
    quick c39_roulette_3 => roulette(&[0.1, 0.2, 0.3]);
    quick c39_roulette_4 => roulette(&[0.7, 1e-3, 0.1, 1e3]);
    thorough c39_roulette_5 => roulette(&[0.1, 0.2, 0.3, 0.4, 0.7]);
    quick c39_boltzmann_3 => boltzmann(&[0.1, -0.4, 0.3]);
    quick c39_boltzmann_4 => boltzmann(&[0.1, 0.2, 1.1, -0.3]);
    quick c39_run_ga_2 => run::<Ga>(ga(2, 0.0, 0.5, 0.5), 2, 0, 1);
    quick c39_run_ga_21 => run::<Ga>(ga(2, 0.5, 0.5, 0.5), 2, 1, 1);
    quick c39_run_aga_2 => run::<Aga>(aga(2, 0.0, 0.0..1.0, 0.0..1.0), 2, 0, 1);
    thorough/4 c39_run_ga_3 => run::<Ga>(ga(3, 0.4, 0.5, 0.5), 3, 1, 1);
}
