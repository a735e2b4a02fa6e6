//! C31: the adaptive algorithm follows the diversity of the population.
use crate::algo::aga;
use crate::*;
use std::cell::Cell;
use std::sync::Arc;

/// What the model is shown; it breeds whatever the harness says.
struct Model {
    seen: Arc<Cell<(f64, f64)>>,
    next: Cell<usize>,
    value: fn(usize) -> f64,
}

unsafe impl Sync for Model {}

impl EvolutionModel for Model {
    type Individual = Ind;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SymRng) -> Ind {
        a.clone()
    }
    fn mutate(&self, _: &mut Ind, _: &mut SymRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn pre_generation(&mut self, _: &Population<Ind>, parameters: &mut ReproductionParameters<Self>) {
        self.seen.set((parameters.crossover_rate, parameters.mutation_rate));
    }
    fn breed(&self, _: &Population<Ind>, parameters: &ReproductionParameters<Self>, _: &mut SymRng) -> Ind {
        let (c, m) = self.seen.get();
        check(
            (parameters.crossover_rate == c) & (parameters.mutation_rate == m),
            "the offspring are bred with the rates that the model was shown",
        );
        let k = self.next.get();
        self.next.set(k + 1);
        ind((self.value)(k), k as u8)
    }
}

type Aga = AdaptiveGeneticAlgorithm<Model>;

fn unit() -> f64 {
    let x = vpq::f64();
    assume((x >= 0.0) & (x <= 1.0));
    x
}

/// The sample standard deviation of the fitness.
fn std(p: &Population<Ind>) -> f64 {
    let n = p.len() as f64;
    let mean = p.iter().map(|i| i.fit).sum::<f64>() / n;
    let squares = p.iter().map(|i| (i.fit - mean) * (i.fit - mean)).sum::<f64>();
    if p.len() < 2 {
        0.0
    } else {
        (squares / (n - 1.0)).sqrt()
    }
}

fn between(x: f64, a: f64, b: f64) -> bool {
    ((x >= a - 1e-12) | (x >= b - 1e-12)) & ((x <= a + 1e-12) | (x <= b + 1e-12))
}

/// What the rates of each generation are.
fn rates<const N: usize>(interval: usize, generations: usize, value: fn(usize) -> f64, formula: bool) {
    let (c, m) = (unit()..unit(), unit()..unit());
    let mut params = aga(N, 0.0, c.clone(), m.clone());
    params.parameter_adjustment_interval = interval;
    params.selection_strategy = SelectionStrategy::Tournament(1);
    let seen = Arc::new(Cell::new((f64::NAN, f64::NAN)));
    let e = Aga::build_evolution(Model { seen: seen.clone(), next: Cell::new(10), value });
    let v: Vec<Ind> = (0..N).map(|i| ind(value(i), i as u8)).collect();
    let mut reference = f64::NAN;
    let mut last = f64::NAN;
    let mut before = (f64::NAN, f64::NAN);
    let verify = |generation: usize, last: f64, reference: f64, before: (f64, f64)| {
        let (x, y) = seen.get();
        check(between(x, c.start, c.end), "the crossover rate stays within its range");
        check(between(y, m.start, m.end), "the mutation rate stays within its range");
        if generation == 0 {
            check((x == c.end) & (y == m.start), "the initial population is taken to be diverse");
        } else if interval == 0 || generation % interval != 0 {
            check((x == before.0) & (y == before.1), "between the adjustments, the rates stay");
        } else if formula {
            let d = if reference == 0.0 {
                if last == 0.0 { 0.0 } else { 1.0 }
            } else if last >= reference {
                1.0
            } else {
                last / reference
            };
            check(near(x, c.start + (c.end - c.start) * d, 1e-9), "the crossover rate grows with diversity");
            check(near(y, m.end - (m.end - m.start) * d, 1e-9), "the mutation rate falls with diversity");
            if N > 1 && interval == 1 && generations <= 4 && N < 8 {
                reach(d == 0.0, "no diversity", 0);
                reach(d == 1.0, "full diversity", 1);
                reach((d > 0.0) & (d < 1.0), "less diversity", 2);
            }
        }
    };
    e.evolve_population(v, &params, |p| {
        let g = p.generation();
        if g > 0 {
            verify(g - 1, last, reference, before);
            before = seen.get();
        }
        last = std(p);
        if g == 0 {
            reference = last;
        }
        g < generations
    });
    cover("evolved");
}

fn few(_: usize) -> f64 {
    [0.0, 1.0, 5.0][pick(3)]
}

fn two(_: usize) -> f64 {
    [1.0, 2.0][pick(2)]
}

/// Mostly given, and different from one generation to the next.
fn some(k: usize) -> f64 {
    if k % 9 == 1 {
        [0.0, 30.0][pick(2)]
    } else {
        (k * 7 % 13) as f64
    }
}

fn extreme(_: usize) -> f64 {
    [0.0, 1e-200, 1e200, -1e200, f64::MAX][pick(5)]
}

/// Given, except for one.
fn one(k: usize) -> f64 {
    if k == 1 {
        [0.0, 3.0, 300.0][pick(3)]
    } else {
        (k * k % 29) as f64
    }
}

/// The best fitness stays the same, the others change.
fn top(k: usize) -> f64 {
    if k == 1 {
        [0.0, 3.0, 90.0][pick(3)]
    } else if k % 2 == 0 {
        100.0
    } else {
        (k * k % 29) as f64
    }
}

/// Hardly any difference, or a huge one.
fn tiny(k: usize) -> f64 {
    [0.0, 1e-14, 4e-14, 1e-140][pick(4)] * if k % 2 == 0 { 1.0 } else { -1.0 }
}

fn huge(_: usize) -> f64 {
    [0.0, 1e13, 4e13, 1e140][pick(4)]
}

entries! {
    quick c31_endless => rates::<2>(20_000, 66_000, one, true);
    quick c31_stuck_100 => rates::<2>(1, 100, top, true);
    quick c31_stuck_300 => rates::<2>(7, 300, top, true);
    quick c31_tiny => rates::<2>(1, 2, tiny, true);
    quick c31_huge => rates::<2>(1, 2, huge, true);
    quick c31_long_300 => rates::<2>(7, 300, one, true);
    quick c31_long_256 => rates::<2>(256, 270, one, true);
    quick c31_many_100 => rates::<100>(1, 3, one, true);
    quick c31_every_2 => rates::<2>(1, 3, few, true);
    quick c31_every_3 => rates::<3>(1, 2, few, true);
    quick c31_second => rates::<2>(2, 5, two, true);
    quick c31_third => rates::<2>(3, 5, two, true);
    quick c31_never => rates::<2>(0, 3, two, true);
    quick c31_single => rates::<1>(1, 3, few, true);
    quick c31_extreme_1 => rates::<1>(1, 3, extreme, false);
    quick c31_extreme_2 => rates::<2>(1, 2, extreme, false);
    quick c31_long_every => rates::<3>(1, 12, some, true);
    quick c31_long_fifth => rates::<3>(5, 16, some, true);
    quick c31_long_seventh => rates::<2>(7, 22, some, true);
    quick c31_many => rates::<24>(1, 3, some, true);
    thorough c31_every_2b => rates::<2>(1, 4, few, true);
    thorough c31_second_b => rates::<2>(2, 7, two, true);
    thorough c31_every_4 => rates::<4>(1, 2, few, true);
}
