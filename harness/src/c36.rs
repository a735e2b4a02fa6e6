//! C36: an instance that has been used before runs like a new one.
use crate::algo::{aga, ga};
use crate::*;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

#[derive(Default)]
struct Log {
    rates: Cell<(f64, f64)>,
    next: Cell<u8>,
    bred: Cell<usize>,
    chosen: Cell<usize>,
}

struct Model(Arc<Log>);

unsafe impl Sync for Model {}

impl EvolutionModel for Model {
    type Individual = Ind;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SymRng) -> Ind {
        a.clone()
    }
    fn mutate(&self, _: &mut Ind, _: &mut SymRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn pre_generation(&mut self, _: &Population<Ind>, parameters: &mut ReproductionParameters<Self>) {
        self.0.rates.set((parameters.crossover_rate, parameters.mutation_rate));
    }
    fn breed(&self, population: &Population<Ind>, parameters: &ReproductionParameters<Self>, rng: &mut SymRng) -> Ind {
        let l = &self.0;
        l.bred.set(l.bred.get() + 1);
        l.chosen.set(parameters.parent_selector.select(population, rng).0);
        let k = l.next.get();
        l.next.set(k + 1);
        ind([1.0, 2.0, 4.0][pick(3)], k)
    }
}

type Ga = GeneticAlgorithm<Model>;
type Aga = AdaptiveGeneticAlgorithm<Model>;

/// How a run is configured.
#[derive(Clone)]
struct Config {
    size: usize,
    elites: usize,
    crossover: std::ops::Range<f64>,
    mutation: std::ops::Range<f64>,
    interval: usize,
    top: bool,
}

fn strategy(c: &Config) -> SelectionStrategy {
    // the very best, or the very best and anything else
    if c.top {
        SelectionStrategy::Elitist(0.99)
    } else {
        SelectionStrategy::Tournament(1)
    }
}

fn rate(c: &Config) -> f64 {
    (c.elites as f64 + 0.5) / c.size as f64
}

fn of_ga(c: &Config) -> GeneticAlgorithmParameters {
    GeneticAlgorithmParameters { selection_strategy: strategy(c), ..ga(c.size, rate(c), c.crossover.start, c.mutation.start) }
}

fn of_aga(c: &Config) -> AdaptiveGeneticAlgorithmParameters {
    AdaptiveGeneticAlgorithmParameters {
        selection_strategy: strategy(c),
        parameter_adjustment_interval: c.interval,
        ..aga(c.size, rate(c), c.crossover.clone(), c.mutation.clone())
    }
}

fn deviation(p: &Population<Ind>) -> f64 {
    let n = p.len() as f64;
    let mean = p.iter().map(|i| i.fit).sum::<f64>() / n;
    let squares = p.iter().map(|i| (i.fit - mean) * (i.fit - mean)).sum::<f64>();
    if p.len() < 2 {
        0.0
    } else {
        (squares / (n - 1.0)).sqrt()
    }
}

/// The rates that a new instance would use.
fn expected(c: &Config, adaptive: bool, generation: usize, std: f64, reference: f64, before: (f64, f64)) -> (f64, f64) {
    if !adaptive {
        return (c.crossover.start, c.mutation.start);
    }
    if generation == 0 {
        return (c.crossover.end, c.mutation.start);
    }
    if c.interval == 0 || generation % c.interval != 0 {
        return before;
    }
    let d = if std == 0.0 {
        0.0
    } else if std >= reference {
        1.0
    } else {
        std / reference
    };
    (
        c.crossover.start + (c.crossover.end - c.crossover.start) * d,
        c.mutation.end - (c.mutation.end - c.mutation.start) * d,
    )
}

/// One run, compared to what a new instance would do.
fn run<A: EvolutionAlgorithm<Model>>(e: &Evolution<A, Model>, log: &Log, c: &Config, params: &A::Parameters, adaptive: bool, fits: &[f64], generations: usize) {
    let v: Vec<Ind> = fits.iter().enumerate().map(|(i, &f)| ind(f, i as u8)).collect();
    let mut calls = 0;
    let (mut last, mut reference, mut before) = (0.0, 0.0, (0.0, 0.0));
    let mut previous: Vec<u8> = vec![];
    log.next.set(100);
    let p = e.evolve_population(v, params, |p| {
        let g = p.generation();
        check(g == calls, "the generations are counted from the start of the run");
        if g == 0 {
            check(p.len() == fits.len(), "the run starts with the population it is given");
            check(p.iter().all(|i| (i.tag as usize) < fits.len()), "the run starts with the individuals it is given");
            check(p.stagnation() == 0, "the run starts without stagnation");
            reference = deviation(p);
        } else {
            let elites = c.elites.min(previous.len());
            check(log.bred.get() == c.size - elites, "as many offspring as this run is to have");
            let kept = &previous[previous.len() - elites..];
            let mut ok = true;
            for &t in kept {
                ok &= p.iter().any(|i| i.tag == t);
            }
            check(ok, "the elites of this run are kept");
            let want = expected(c, adaptive, g - 1, last, reference, before);
            let got = log.rates.get();
            check(near(got.0, want.0, 1e-9) & near(got.1, want.1, 1e-9), "the rates of this run");
            check(!c.top | (log.chosen.get() + 1 == previous.len()), "the strategy of this run selects");
            before = got;
        }
        last = deviation(p);
        previous = p.iter().map(|i| i.tag).collect();
        log.bred.set(0);
        calls += 1;
        g < generations
    });
    check(p.generation() == generations, "the run ends when it is told to");
}

fn config(k: usize) -> Config {
    match k {
        0 => Config { size: 2, elites: 0, crossover: 0.2..0.6, mutation: 0.1..0.9, interval: 1, top: false },
        1 => Config { size: 3, elites: 1, crossover: 0.5..0.5, mutation: 0.0..1.0, interval: 2, top: true },
        4 => Config { size: 3, elites: 2, crossover: 0.0..1.0, mutation: 0.0..0.0, interval: 3, top: false },
        5 => Config { size: 2, elites: 0, crossover: 1.0..0.0, mutation: 1.0..1.0, interval: 2, top: true },
        6 => Config { size: 3, elites: 0, crossover: 0.0..0.0, mutation: 1.0..0.0, interval: 1, top: false },
        2 => Config { size: 1, elites: 0, crossover: 0.7..0.9, mutation: 0.3..0.2, interval: 0, top: false },
        _ => Config { size: 2, elites: 1, crossover: 1.0..0.1, mutation: 0.8..0.4, interval: 1, top: true },
    }
}

fn reuse<A: EvolutionAlgorithm<Model> + From<Model>>(make: fn(&Config) -> A::Parameters, adaptive: bool, first: usize, second: usize, g: usize, h: usize) {
    let log = Arc::new(Log::default());
    let e = A::build_evolution(Model(log.clone()));
    let wide = [1.0, 9.0, 2.0];
    let narrow = [1.0, 2.0];
    let (x, y) = if pick(2) == 1 { (&wide[..], &narrow[..]) } else { (&narrow[..], &wide[..]) };
    let c = config(first);
    run::<A>(&e, &log, &c, &make(&c), adaptive, x, g);
    let c = config(second);
    run::<A>(&e, &log, &c, &make(&c), adaptive, y, h);
    cover("twice");
}

/// Three runs, of which the first may end before its first generation.
fn thrice<A: EvolutionAlgorithm<Model> + From<Model>>(make: fn(&Config) -> A::Parameters, adaptive: bool, configs: [usize; 3], g: [usize; 3]) {
    let log = Arc::new(Log::default());
    let e = A::build_evolution(Model(log.clone()));
    let fits = [&[1.0, 9.0, 2.0][..], &[1.0, 2.0], &[4.0]];
    let turn = pick(3);
    for k in 0..3 {
        let c = config(configs[k]);
        run::<A>(&e, &log, &c, &make(&c), adaptive, fits[(k + turn) % 3], g[k]);
    }
    cover("thrice");
}

/// What a run does, and the words of the generator behind it.
#[derive(Default)]
struct Tape {
    words: RefCell<Vec<u64>>,
    at: Cell<usize>,
    replay: Cell<bool>,
    trace: RefCell<Vec<u64>>,
    /// The trace to compare to.
    other: RefCell<Vec<u64>>,
    bred: Cell<usize>,
}

impl Tape {
    fn note(&self, v: u64) {
        self.trace.borrow_mut().push(v)
    }
}

struct TapeRng(Option<Arc<Tape>>);

unsafe impl Send for TapeRng {}

impl rand::RngCore for TapeRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let t = self.0.as_ref().unwrap();
        let k = t.at.get();
        t.at.set(k + 1);
        if t.replay.get() {
            check(k < t.words.borrow().len(), "a used instance draws as many numbers as a new one");
            t.words.borrow()[k]
        } else {
            let w = vpq::rng_u64();
            t.words.borrow_mut().push(w);
            w
        }
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        unimplemented!()
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> {
        unimplemented!()
    }
}

/// Fills each generation with what depends on the individuals selected.
struct Follower(Arc<Tape>);

unsafe impl Sync for Follower {}

impl EvolutionModel for Follower {
    type Individual = Ind;
    type Rng = TapeRng;
    fn rng() -> TapeRng {
        TapeRng(None)
    }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut TapeRng) -> Ind {
        a.clone()
    }
    fn mutate(&self, _: &mut Ind, _: &mut TapeRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn breed(&self, population: &Population<Ind>, parameters: &ReproductionParameters<Self>, _: &mut TapeRng) -> Ind {
        let t = &self.0;
        let k = t.bred.get();
        t.bred.set(k + 1);
        let mut rng = TapeRng(Some(t.clone()));
        let i = parameters.parent_selector.select(population, &mut rng).0;
        t.note(i as u64);
        t.note(parameters.crossover_rate.to_bits());
        t.note(parameters.mutation_rate.to_bits());
        ind([2.0, 0.5, 3.0, 1.0, 2.5][k % 5], 100 + k as u8)
    }
}

fn follow<A: EvolutionAlgorithm<Follower>>(e: &Evolution<A, Follower>, t: &Tape, fits: &[f64], params: &A::Parameters, generations: usize) {
    t.at.set(0);
    t.bred.set(0);
    t.trace.borrow_mut().clear();
    let v: Vec<Ind> = fits.iter().enumerate().map(|(i, &f)| ind(f, i as u8)).collect();
    let p = e.evolve_population(v, params, |p| {
        t.note(p.generation() as u64);
        t.note(p.stagnation() as u64);
        for x in p.iter() {
            t.note(x.tag as u64);
        }
        p.generation() < generations
    });
    t.note(p.len() as u64);
}

/// The same words make a used instance do the same as a new one.
fn like_new<A: EvolutionAlgorithm<Follower> + From<Follower>>(make: fn(&Config) -> A::Parameters, with: fn(A::Parameters, SelectionStrategy) -> A::Parameters, first: SelectionStrategy, second: SelectionStrategy, g: usize, h: usize) {
    let t = Arc::new(Tape::default());
    let used = A::build_evolution(Follower(t.clone()));
    let new = A::build_evolution(Follower(t.clone()));
    let a = Config { size: 3, elites: 1, crossover: 0.2..0.6, mutation: 0.1..0.9, interval: 1, top: false };
    let b = Config { size: 2, elites: 0, crossover: 0.5..0.7, mutation: 0.3..0.4, interval: 1, top: false };
    // what the first run draws does not matter
    t.replay.set(false);
    t.words.borrow_mut().clear();
    follow::<A>(&new, &t, &[3.0, 1.0], &with(make(&b), second), h);
    let words = t.words.borrow().clone();
    *t.other.borrow_mut() = t.trace.borrow().clone();
    follow::<A>(&used, &t, &[0.5, 6.0, 1.5], &with(make(&a), first), g);
    *t.words.borrow_mut() = words;
    t.replay.set(true);
    follow::<A>(&used, &t, &[3.0, 1.0], &with(make(&b), second), h);
    check(t.at.get() == t.words.borrow().len(), "a used instance draws as many numbers as a new one");
    let (x, y) = (t.trace.borrow(), t.other.borrow());
    let mut ok = x.len() == y.len();
    for (a, b) in x.iter().zip(y.iter()) {
        ok &= a == b;
    }
    check(ok, "a used instance does what a new one does");
    cover("twice");
}

fn ga_with(p: GeneticAlgorithmParameters, s: SelectionStrategy) -> GeneticAlgorithmParameters {
    GeneticAlgorithmParameters { selection_strategy: s, ..p }
}

fn aga_with(p: AdaptiveGeneticAlgorithmParameters, s: SelectionStrategy) -> AdaptiveGeneticAlgorithmParameters {
    AdaptiveGeneticAlgorithmParameters { selection_strategy: s, ..p }
}

type GaF = GeneticAlgorithm<Follower>;
type AgaF = AdaptiveGeneticAlgorithm<Follower>;

use SelectionStrategy::*;

entries! {
    quick c36_ga_04 => reuse::<Ga>(of_ga, false, 0, 4, 1, 2);
    quick c36_ga_45 => reuse::<Ga>(of_ga, false, 4, 5, 1, 2);
    quick c36_ga_56 => reuse::<Ga>(of_ga, false, 5, 6, 1, 2);
    quick c36_ga_60 => reuse::<Ga>(of_ga, false, 6, 0, 1, 2);
    quick c36_aga_04 => reuse::<Aga>(of_aga, true, 0, 4, 1, 3);
    quick c36_aga_45 => reuse::<Aga>(of_aga, true, 4, 5, 1, 2);
    quick c36_aga_56 => reuse::<Aga>(of_aga, true, 5, 6, 1, 2);
    quick c36_aga_60 => reuse::<Aga>(of_aga, true, 6, 0, 1, 2);
    quick c36_ga_thrice => thrice::<Ga>(of_ga, false, [0, 4, 1], [0, 1, 1]);
    quick c36_ga_thrice2 => thrice::<Ga>(of_ga, false, [5, 0, 6], [1, 0, 1]);
    quick c36_aga_thrice => thrice::<Aga>(of_aga, true, [0, 4, 1], [0, 1, 2]);
    quick c36_aga_thrice2 => thrice::<Aga>(of_aga, true, [5, 0, 6], [1, 0, 2]);
    quick c36_new_idle => like_new::<GaF>(of_ga, ga_with, Boltzmann(4.0, 0.5), Boltzmann(2.0, 0.75), 0, 1);
    quick c36_new_aga_idle => like_new::<AgaF>(of_aga, aga_with, Boltzmann(4.0, 0.5), Boltzmann(2.0, 0.75), 0, 2);
    quick c36_new_boltzmann => like_new::<GaF>(of_ga, ga_with, Boltzmann(4.0, 0.5), Boltzmann(4.0, 0.5), 1, 1);
    quick c36_new_boltzmann2 => like_new::<GaF>(of_ga, ga_with, Boltzmann(4.0, 0.5), Boltzmann(4.0, 0.75), 2, 1);
    quick c36_new_roulette => like_new::<GaF>(of_ga, ga_with, RouletteWheel, RouletteWheel, 1, 2);
    quick c36_new_tournament => like_new::<GaF>(of_ga, ga_with, Tournament(2), Tournament(2), 1, 1);
    quick c36_new_tournament1 => like_new::<GaF>(of_ga, ga_with, Tournament(2), Tournament(1), 1, 1);
    quick c36_new_rank => like_new::<GaF>(of_ga, ga_with, Rank, Rank, 1, 1);
    quick c36_new_linear => like_new::<GaF>(of_ga, ga_with, Linear(1.5), Linear(1.25), 1, 1);
    quick c36_new_elitist => like_new::<GaF>(of_ga, ga_with, Elitist(0.5), Elitist(0.25), 1, 1);
    quick c36_new_mixed => like_new::<GaF>(of_ga, ga_with, Boltzmann(2.0, 0.5), RouletteWheel, 1, 1);
    quick c36_new_aga_boltzmann => like_new::<AgaF>(of_aga, aga_with, Boltzmann(4.0, 0.5), Boltzmann(4.0, 0.5), 1, 1);
    quick c36_new_aga_roulette => like_new::<AgaF>(of_aga, aga_with, RouletteWheel, RouletteWheel, 2, 2);
    quick c36_new_aga_tournament => like_new::<AgaF>(of_aga, aga_with, Tournament(2), Tournament(2), 1, 1);
    quick c36_new_aga_rank => like_new::<AgaF>(of_aga, aga_with, Linear(1.25), Rank, 1, 1);
    quick c36_new_aga_elitist => like_new::<AgaF>(of_aga, aga_with, Elitist(0.5), Elitist(0.5), 1, 1);
    quick c36_ga_00 => reuse::<Ga>(of_ga, false, 0, 0, 1, 2);
    quick c36_ga_01 => reuse::<Ga>(of_ga, false, 0, 1, 1, 2);
    quick c36_ga_10 => reuse::<Ga>(of_ga, false, 1, 0, 1, 2);
    quick c36_ga_13 => reuse::<Ga>(of_ga, false, 1, 3, 1, 2);
    quick c36_ga_20 => reuse::<Ga>(of_ga, false, 2, 0, 1, 2);
    quick c36_ga_32 => reuse::<Ga>(of_ga, false, 3, 2, 1, 2);
    quick c36_ga_31 => reuse::<Ga>(of_ga, false, 3, 1, 1, 2);
    quick c36_ga_23 => reuse::<Ga>(of_ga, false, 2, 3, 1, 2);
    quick c36_ga_long => reuse::<Ga>(of_ga, false, 2, 3, 3, 4);
    thorough c36_ga_longer => reuse::<Ga>(of_ga, false, 3, 0, 4, 3);
    quick c36_aga_00 => reuse::<Aga>(of_aga, true, 0, 0, 1, 2);
    quick c36_aga_01 => reuse::<Aga>(of_aga, true, 0, 1, 1, 2);
    quick c36_aga_10 => reuse::<Aga>(of_aga, true, 1, 0, 1, 2);
    quick c36_aga_13 => reuse::<Aga>(of_aga, true, 1, 3, 1, 2);
    quick c36_aga_20 => reuse::<Aga>(of_aga, true, 2, 0, 1, 2);
    quick c36_aga_32 => reuse::<Aga>(of_aga, true, 3, 2, 1, 2);
    quick c36_aga_31 => reuse::<Aga>(of_aga, true, 3, 1, 1, 2);
    quick c36_aga_23 => reuse::<Aga>(of_aga, true, 2, 3, 1, 2);
    quick c36_aga_long => reuse::<Aga>(of_aga, true, 2, 3, 3, 4);
    thorough c36_aga_longer => reuse::<Aga>(of_aga, true, 3, 0, 4, 3);
}
