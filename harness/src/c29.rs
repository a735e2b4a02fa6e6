//! C29: invalid parameters are refused, valid ones are not.
use crate::algo::*;
use crate::*;

fn rate(x: f64) -> bool {
    (x >= 0.0) & (x <= 1.0)
}

fn elite(x: f64) -> bool {
    (x >= 0.0) & (x < 1.0)
}

/// Any parameters at all.
fn any_ga() -> (GeneticAlgorithmParameters, bool) {
    let p = ga(vpq::u64() as usize, vpq::f64(), vpq::f64(), vpq::f64());
    let ok = (p.population_size != 0) & elite(p.elitism_rate) & rate(p.crossover_rate) & rate(p.mutation_rate);
    (p, ok)
}

fn any_aga() -> (AdaptiveGeneticAlgorithmParameters, bool) {
    let mut p = aga(vpq::u64() as usize, vpq::f64(), vpq::f64()..vpq::f64(), vpq::f64()..vpq::f64());
    p.parameter_adjustment_interval = vpq::u64() as usize;
    let ok = (p.population_size != 0)
        & elite(p.elitism_rate)
        & rate(p.crossover_rate_range.start)
        & rate(p.crossover_rate_range.end)
        & rate(p.mutation_rate_range.start)
        & rate(p.mutation_rate_range.end);
    (p, ok)
}

fn validate<P: EvolutionParameters>(p: (P, bool)) {
    if !p.1 {
        vpq::expect_panic("an invalid parameter");
    }
    p.0.validate();
    cover("valid");
}

fn sizes<P: EvolutionParameters>(p: (P, bool), size: fn(&P) -> usize) {
    check(p.0.initial_population_size() == size(&p.0), "the initial population has the population size");
    check(p.0.max_population_size() == size(&p.0), "no population is larger than the population size");
    cover("sizes");
}

/// No generation is made with invalid parameters; the closure is not called.
fn refused<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(p: (A::Parameters, bool)) {
    assume(!p.1);
    let mut a = A::from(breeder(0, || 1.0));
    vpq::expect_panic("configured with an invalid parameter");
    a.configure(&p.0);
}

fn evolve<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(p: (A::Parameters, bool)) {
    assume(!p.1);
    // the vector for the next generation is reserved later than the parameters are checked
    let e = A::build_evolution(breeder(0, || 1.0));
    vpq::expect_panic("a run with an invalid parameter");
    e.evolve_population(vec![ind(1.0, 1)], &p.0, |_| {
        check(false, "no generation is made with invalid parameters");
        false
    });
}

fn accepted<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(p: (A::Parameters, bool), size: fn(&A::Parameters) -> usize) {
    assume(p.1);
    let n = size(&p.0);
    assume(n <= 3);
    let mut a = A::from(breeder(0, || 1.0));
    a.configure(&p.0);
    check(a.reproduction_parameters().1 == n, "the population size is taken from the parameters");
    cover("configured");
}

fn defaults() {
    let g = GeneticAlgorithmParameters::default();
    g.validate();
    check(
        (g.population_size == 100) & (g.elitism_rate == 0.01) & (g.crossover_rate == 0.8) & (g.mutation_rate == 0.1)
            & matches!(g.selection_strategy, SelectionStrategy::RouletteWheel),
        "the documented defaults",
    );
    let a = AdaptiveGeneticAlgorithmParameters::default();
    a.validate();
    check(
        (a.population_size == 100) & (a.elitism_rate == 0.01) & (a.crossover_rate_range == (0.3..1.0)) & (a.mutation_rate_range == (0.1..1.0))
            & (a.parameter_adjustment_interval == 1)
            & matches!(a.selection_strategy, SelectionStrategy::RouletteWheel),
        "the documented defaults of the adaptive algorithm",
    );
    cover("defaults");
}

type Ga = GeneticAlgorithm<Breeder>;
type Aga = AdaptiveGeneticAlgorithm<Breeder>;

fn ga_size(p: &GeneticAlgorithmParameters) -> usize {
    p.population_size
}

fn aga_size(p: &AdaptiveGeneticAlgorithmParameters) -> usize {
    p.population_size
}

entries! {
    quick c29_validate_ga => validate(any_ga());
    quick c29_validate_aga => validate(any_aga());
    quick c29_sizes_ga => sizes(any_ga(), ga_size);
    quick c29_sizes_aga => sizes(any_aga(), aga_size);
    quick c29_refused_ga => refused::<Ga>(any_ga());
    quick c29_refused_aga => refused::<Aga>(any_aga());
    quick c29_evolve_ga => evolve::<Ga>(any_ga());
    quick c29_evolve_aga => evolve::<Aga>(any_aga());
    quick c29_accepted_ga => accepted::<Ga>(any_ga(), ga_size);
    quick c29_accepted_aga => accepted::<Aga>(any_aga(), aga_size);
    quick c29_defaults => defaults();
}
