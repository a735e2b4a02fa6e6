//! C35: the OneMax problem that comes with the library.
use crate::algo::{aga, ga};
use crate::*;
use rusty_genes::one_max::*;

fn bits<const N: usize>() -> Vec<bool> {
    (0..N).map(|_| vpq::bool()).collect()
}

fn ones(g: &[bool]) -> usize {
    let mut n = 0;
    for &b in g {
        n += b as usize;
    }
    n
}

fn same_bits(a: &[bool], b: &[bool]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i] == b[i];
        }
    }
    ok
}

/// Long genomes with some arbitrary bits.
fn some<const N: usize>(pattern: fn(usize) -> bool) -> Vec<bool> {
    let mut g: Vec<bool> = (0..N).map(pattern).collect();
    for i in [0, N / 4, N / 2, N - 2, N - 1] {
        g[i] = vpq::bool();
    }
    g
}

fn mixed(i: usize) -> bool {
    i * 7 % 5 < 2
}

/// The fitness is the share of ones.
fn fitness<const N: usize>() {
    fitness_of::<N>(bits::<N>());
}

fn fitness_of<const N: usize>(g: Vec<bool>) {
    let mut x = OneMax::from(g.clone());
    check(same_bits(x.genome(), &g), "an individual has the genome it was made of");
    let m = OneMaxEvolutionModel::default();
    m.evaluate(&mut x);
    check(same_bits(x.genome(), &g), "evaluation keeps the genome");
    let n = ones(&g);
    check(near(x.fitness(), n as f64 / N as f64, 1e-12), "the fitness is the share of ones");
    check((x.fitness() >= 0.0) & (x.fitness() <= 1.0), "the fitness is a ratio");
    check((x.fitness() == 1.0) == (n == N), "exactly the genome of all ones is perfect");
    check(x.is_valid(), "an evaluated individual is valid");
    m.evaluate(&mut x);
    check(near(x.fitness(), n as f64 / N as f64, 1e-12), "another evaluation gives the same");
    cover("evaluated");
}

/// More ones are fitter.
fn order<const N: usize>() {
    order_of(bits::<N>(), bits::<N>());
}

fn order_of(a: Vec<bool>, b: Vec<bool>) {
    let m = OneMaxEvolutionModel::default();
    let (k, l) = (ones(&a), ones(&b));
    let (mut x, mut y) = (OneMax::from(a), OneMax::from(b));
    m.evaluate(&mut x);
    m.evaluate(&mut y);
    check((x.fitness() < y.fitness()) == (k < l), "more ones are fitter");
    cover("ordered");
}

/// Of the given length, any genome.
fn random<const N: usize>() {
    let x = OneMax::new_random(&N, &mut SymRng);
    check(x.genome().len() == N, "a random individual has the length asked for");
    if N > 0 && N < 6 {
        let mut v = 0u64;
        for (i, &b) in x.genome().iter().enumerate() {
            v |= (b as u64) << i;
        }
        for k in 0..1u64 << N {
            reach(v == k, "every genome", k);
        }
    }
    cover("made");
}

/// The children of two parents.
fn crossed<const N: usize>() {
    crossed_of::<N>(bits::<N>(), bits::<N>());
}

fn crossed_of<const N: usize>(a: Vec<bool>, b: Vec<bool>) {
    let (x, y) = (OneMax::from(a.clone()), OneMax::from(b.clone()));
    let m = OneMaxEvolutionModel;
    let child = m.crossover(&x, &y, &mut OneMaxEvolutionModel::rng());
    check(same_bits(x.genome(), &a) & same_bits(y.genome(), &b), "the parents stay as they are");
    let c = child.genome();
    check(c.len() == N, "a child has the length of its parents");
    let mut found = false;
    for k in 0..=N {
        let mut ok = true;
        for i in 0..N.min(c.len()) {
            ok &= c[i] == if i < k { a[i] } else { b[i] };
        }
        found |= ok;
    }
    check(found, "a child is the start of one parent and the end of the other");
    cover("crossed");
}

fn mutated<const N: usize>() {
    mutated_of::<N>(bits::<N>());
}

fn mutated_of<const N: usize>(a: Vec<bool>) {
    let mut x = OneMax::from(a.clone());
    OneMaxEvolutionModel.mutate(&mut x, &mut OneMaxEvolutionModel::rng());
    let g = x.genome();
    check(g.len() == N, "mutation keeps the length");
    let mut changed = 0;
    let mut mixed = false;
    for i in 0..N.min(g.len()) {
        changed += (g[i] != a[i]) as u8;
        mixed |= a[i] != a[0];
    }
    check(changed <= 1, "at most one bit is replaced");
    check((changed == 0) | mixed, "the new bit is a copy of another");
    reach(changed == 1, "a mutation changes a bit", N as u64);
    cover("mutated");
}

/// A whole run.
fn run<A: EvolutionAlgorithm<OneMaxEvolutionModel> + From<OneMaxEvolutionModel>, const N: usize>(params: A::Parameters, generations: usize) {
    let e = A::build_evolution(OneMaxEvolutionModel);
    let mut seen = 0.0;
    let best = e.run(&N, &params, |p| {
        let f = p.fittest().fitness();
        seen = if f > seen { f } else { seen };
        p.generation() < generations
    });
    check(best.genome().len() == N, "the solution has the length asked for");
    let n = vpq::concretize(ones(best.genome()) as u64);
    check(near(best.fitness(), n as f64 / N as f64, 1e-12), "the fitness of the solution is that of its genome");
    check(best.fitness() == seen, "the solution is the best that was found");
    cover("ran");
}

/// From an individual that is there.
fn improve<A: EvolutionAlgorithm<OneMaxEvolutionModel> + From<OneMaxEvolutionModel>, const N: usize>(params: A::Parameters, generations: usize) {
    let e = A::build_evolution(OneMaxEvolutionModel);
    let g = bits::<N>();
    let n = ones(&g);
    let best = e.evolve_individual(OneMax::from(g), &params, |p| p.generation() < generations);
    check(best.genome().len() == N, "the solution has the length of the initial individual");
    check(ones(best.genome()) >= n, "the solution has no fewer ones");
    cover("ran");
}

type Ga = GeneticAlgorithm<OneMaxEvolutionModel>;
type Aga = AdaptiveGeneticAlgorithm<OneMaxEvolutionModel>;

entries! {
    quick c35_fitness_1 => fitness::<1>();
    quick c35_fitness_2 => fitness::<2>();
    quick c35_fitness_5 => fitness::<5>();
    quick c35_fitness_12 => fitness::<12>();
    quick c35_order_4 => order::<4>();
    quick c35_order_8 => order::<8>();
    quick c35_random_0 => random::<0>();
    quick c35_random_1 => random::<1>();
    quick c35_random_3 => random::<3>();
    quick c35_random_5 => random::<5>();
    quick c35_random_20 => random::<20>();
    quick c35_crossed_1 => crossed::<1>();
    quick c35_crossed_2 => crossed::<2>();
    quick c35_crossed_5 => crossed::<5>();
    quick c35_crossed_9 => crossed::<9>();
    quick c35_mutated_2 => mutated::<2>();
    quick c35_mutated_3 => mutated::<3>();
    quick c35_mutated_8 => mutated::<8>();
    quick c35_long_fitness_64 => fitness_of::<64>(some::<64>(|_| true));
    quick c35_long_fitness_100 => fitness_of::<100>(some::<100>(mixed));
    quick c35_long_fitness_257 => fitness_of::<257>(some::<257>(|_| true));
    quick c35_long_fitness_1000 => fitness_of::<1000>(some::<1000>(|i| i % 3 != 0));
    quick c35_long_order_257 => order_of(some::<257>(|_| true), some::<257>(|_| true));
    quick c35_long_random_100 => random::<100>();
    quick c35_long_crossed_33 => crossed_of::<33>(some::<33>(mixed), some::<33>(|i| i % 2 == 0));
    quick c35_long_crossed_100 => crossed_of::<100>(vec![false; 100], vec![true; 100]);
    quick c35_long_mutated_40 => mutated_of::<40>(some::<40>(mixed));
    quick c35_run_ga => run::<Ga, 2>(ga(2, 0.0, 1.0, 1.0), 1);
    quick c35_run_aga => run::<Aga, 2>(aga(2, 0.5, 1.0..1.0, 1.0..1.0), 1);
    quick c35_improve_ga => improve::<Ga, 2>(ga(2, 0.0, 1.0, 1.0), 1);
    quick c35_improve_aga => improve::<Aga, 2>(aga(2, 0.0, 0.5..1.0, 0.5..1.0), 1);
    thorough c35_run_3 => run::<Ga, 3>(ga(2, 0.0, 0.5, 0.5), 1);
    thorough c35_improve_3 => improve::<Ga, 3>(ga(2, 0.0, 1.0, 1.0), 1);
}
