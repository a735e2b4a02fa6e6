//! C30: what a generation is bred with: the configured rates, as the model's preparation left them,
//! and a selector prepared for the current population.
use crate::algo::{aga, ga};
use crate::*;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Default)]
struct Log {
    prepared: Cell<usize>,
    preparing: Cell<usize>,
    pre: Cell<usize>,
    bred: Cell<usize>,
    next: Cell<u8>,
}

struct Shared(Arc<Log>);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

/// A selector that knows which generation it was prepared for.
struct Mark {
    log: Shared,
    at: usize,
}

impl SelectionMechanism<Ind, SymRng> for Mark {
    fn prepare(&mut self, population: &Population<Ind>) {
        let l = &self.log.0;
        check(l.pre.get() == population.generation() + 1, "the selector is prepared after the model");
        self.at = population.generation();
        l.prepared.set(l.prepared.get() + 1);
    }
    fn select<'a>(&self, population: &'a Population<Ind>, _: &mut SymRng) -> (usize, &'a Ind) {
        check(self.at == population.generation(), "the selector was prepared for the population it selects from");
        (0, &population[0])
    }
}

struct Model {
    log: Shared,
    change: bool,
    rates: Cell<(f64, f64)>,
    want: (f64, f64),
    strict: bool,
    /// The fitness of what is bred is not arbitrary.
    plain: bool,
}

unsafe impl Sync for Model {}

impl EvolutionModel for Model {
    type Individual = Ind;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SymRng) -> Ind {
        a.clone()
    }
    fn mutate(&self, _: &mut Ind, _: &mut SymRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn pre_generation(&mut self, population: &Population<Ind>, parameters: &mut ReproductionParameters<Self>) {
        let l = &self.log.0;
        check(l.pre.get() == population.generation(), "the model is prepared once for each generation, with its population");
        l.pre.set(l.pre.get() + 1);
        if self.strict & !self.change {
            check(
                (parameters.crossover_rate == self.want.0) & (parameters.mutation_rate == self.want.1),
                "the model is shown the configured rates",
            );
        }
        if population.generation() == 0 {
            parameters.parent_selector = Box::new(Mark { log: Shared(self.log.0.clone()), at: usize::MAX });
        }
        if self.change {
            parameters.crossover_rate = vpq::f64();
            parameters.mutation_rate = vpq::f64();
        }
        self.rates.set((parameters.crossover_rate, parameters.mutation_rate));
    }
    fn breed(&self, population: &Population<Ind>, parameters: &ReproductionParameters<Self>, rng: &mut SymRng) -> Ind {
        let l = &self.log.0;
        check(l.pre.get() == population.generation() + 1, "the model was prepared for the generation");
        check(l.prepared.get() == population.generation() + 1, "the selector was prepared once for each generation");
        let r = self.rates.get();
        check(
            (parameters.crossover_rate.to_bits() == r.0.to_bits()) & (parameters.mutation_rate.to_bits() == r.1.to_bits()),
            "the rates are those the model was shown, or has set",
        );
        parameters.parent_selector.select(population, rng);
        l.bred.set(l.bred.get() + 1);
        let k = l.next.get();
        l.next.set((k + 1) % 240);
        ind(if self.plain { (k as u32 * 7 % 31) as f64 } else { below(4) as f64 }, 10 + k)
    }
}

type Ga = GeneticAlgorithm<Model>;
type Aga = AdaptiveGeneticAlgorithm<Model>;

fn unit() -> f64 {
    let x = vpq::f64();
    assume((x >= 0.0) & (x <= 1.0));
    x
}

fn bred<A: EvolutionAlgorithm<Model> + From<Model>>(params: A::Parameters, want: (f64, f64), strict: bool, size: usize, generations: usize) {
    let log = Arc::new(Log::default());
    let change = pick(2) == 1;
    let m = Model { log: Shared(log.clone()), change, rates: Cell::new((f64::NAN, f64::NAN)), want, strict, plain: size > 10 || generations > 10 };
    let e = A::build_evolution(m);
    let mut calls = 0;
    e.evolve_population(vec![ind(1.0, 0)], &params, |p| {
        check(log.pre.get() == calls, "a generation is prepared when the closure has asked for it");
        calls += 1;
        calls <= generations
    });
    check(log.bred.get() == size * generations, "every individual was bred with them");
    cover("evolved");
}

fn with_ga(size: usize, generations: usize) {
    let (c, m) = (unit(), unit());
    bred::<Ga>(ga(size, 0.0, c, m), (c, m), true, size, generations);
}

fn with_aga(size: usize, generations: usize) {
    bred::<Aga>(aga(size, 0.0, unit()..unit(), unit()..unit()), (0.0, 0.0), false, size, generations);
}

/// The configured strategy selects the parents: without crossover and mutation, only its choices
/// are in the next generation.
fn strategies<A: EvolutionAlgorithm<Plain> + From<Plain>>(make: fn(SelectionStrategy) -> A::Parameters) {
    let k = pick(6);
    let (s, possible): (_, u32) = match k {
        0 => (SelectionStrategy::RouletteWheel, 0b111),
        1 => (SelectionStrategy::Tournament(3), 0b111),
        2 => (SelectionStrategy::Rank, 0b111),
        3 => (SelectionStrategy::Linear(1.5), 0b111),
        4 => (SelectionStrategy::Boltzmann(1000.0, 1.0), 0b111),
        _ => (SelectionStrategy::Elitist(0.7), 0b100),
    };
    let e = A::build_evolution(Plain);
    let v = (0..3).map(|i| ind(i as f64 + 1.0, i as u8)).collect();
    let mut calls = 0;
    let p = e.evolve_population(v, &make(s), |_| {
        calls += 1;
        calls <= 1
    });
    let tag = p[0].tag;
    check(p.len() == 1 && (possible >> tag) & 1 == 1, "the individual bred is one that the strategy selects");
    for t in 0..3 {
        if possible >> t & 1 == 1 {
            reach(tag == t, "each individual that the strategy can select", (k * 4) as u64 + t as u64);
        }
    }
    cover("evolved");
}

struct Plain;

impl EvolutionModel for Plain {
    type Individual = Ind;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SymRng) -> Ind {
        check(false, "a crossover at rate 0");
        a.clone()
    }
    fn mutate(&self, _: &mut Ind, _: &mut SymRng) {
        check(false, "a mutation at rate 0");
    }
    fn evaluate(&self, _: &mut Ind) {}
}

fn with_strategy_ga(s: SelectionStrategy) -> GeneticAlgorithmParameters {
    GeneticAlgorithmParameters { selection_strategy: s, ..ga(1, 0.0, 0.0, 0.0) }
}

fn with_strategy_aga(s: SelectionStrategy) -> AdaptiveGeneticAlgorithmParameters {
    AdaptiveGeneticAlgorithmParameters { selection_strategy: s, ..aga(1, 0.0, 0.0..0.0, 0.0..0.0) }
}

entries! {
    quick c30_large_ga => with_ga(100, 1);
    quick c30_large_aga => with_aga(60, 2);
    quick c30_longer_ga => with_ga(1, 30);
    quick c30_longer_aga => with_aga(1, 30);
    wide c30_endless_ga => with_ga(1, 3000);
    wide c30_endless_aga => with_aga(1, 3000);
    quick c30_ga_1 => with_ga(1, 3);
    quick c30_ga_2 => with_ga(2, 3);
    quick c30_ga_3 => with_ga(3, 2);
    quick c30_long_ga => with_ga(1, 9);
    quick c30_long_aga => with_aga(1, 9);
    quick c30_many_ga => with_ga(5, 1);
    quick c30_strategy_ga => strategies::<GeneticAlgorithm<Plain>>(with_strategy_ga);
    quick c30_strategy_aga => strategies::<AdaptiveGeneticAlgorithm<Plain>>(with_strategy_aga);
    quick c30_aga_1 => with_aga(1, 3);
    quick c30_aga_2 => with_aga(2, 2);
}
