//! C27: making the initial population.
use crate::*;
use std::cell::Cell;

/// Every individual knows where it comes from.
#[derive(Clone, Debug)]
pub struct Born {
    gene: u8,
    arg: u8,
    mutations: u8,
    evaluations: u8,
    fit: f64,
}

impl PartialEq for Born {
    fn eq(&self, o: &Self) -> bool {
        self.gene == o.gene
    }
}

impl Individual for Born {
    fn fitness(&self) -> f64 {
        self.fit
    }
}

impl RandomIndividual<u8> for Born {
    fn new_random<R: rand::Rng>(arg: &u8, rng: &mut R) -> Self {
        Born { gene: (rng.next_u32() & 0xff) as u8, arg: *arg, mutations: 0, evaluations: 0, fit: f64::NAN }
    }
}

struct Model {
    mutated: Cell<usize>,
    evaluated: Cell<usize>,
    valid: fn(u8) -> bool,
}

unsafe impl Sync for Model {}

fn model(valid: fn(u8) -> bool) -> Model {
    Model { mutated: Cell::new(0), evaluated: Cell::new(0), valid }
}

impl EvolutionModel for Model {
    type Individual = Born;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, p: &Born, _: &Born, _: &mut SymRng) -> Born {
        p.clone()
    }
    fn mutate(&self, x: &mut Born, rng: &mut SymRng) {
        use rand::RngCore;
        self.mutated.set(self.mutated.get() + 1);
        x.mutations += 1;
        x.arg = x.gene;
        x.gene = (rng.next_u32() & 0xff) as u8;
    }
    fn evaluate(&self, x: &mut Born) {
        self.evaluated.set(self.evaluated.get() + 1);
        x.evaluations += 1;
        x.fit = if (self.valid)(x.gene) { x.gene as f64 } else { f64::INFINITY };
    }
}

fn all(_: u8) -> bool {
    true
}

fn held() -> Vec<Born> {
    (0..pick(3)).map(|i| Born { gene: 200 + i as u8, arg: 7, mutations: 9, evaluations: 9, fit: i as f64 }).collect()
}

fn same(v: &[Born], n: usize) -> bool {
    let mut ok = v.len() >= n;
    for i in 0..n.min(v.len()) {
        ok &= (v[i].gene == 200 + i as u8) & (v[i].arg == 7) & (v[i].mutations == 9) & (v[i].evaluations == 9) & (v[i].fit == i as f64);
    }
    ok
}

/// Random individuals are appended, as many as asked for.
fn random<const N: usize>() {
    let m = model(all);
    let mut v = held();
    let n = v.len();
    let arg = vpq::u8();
    let size = if N <= 8 { pick(N + 1) } else { N };
    m.extend_population(&mut v, size, &arg);
    check(v.len() == n + size, "as many individuals are added as asked for");
    check(same(&v, n), "the individuals that were there stay first");
    let mut ok = true;
    for x in &v[n..] {
        ok &= (x.arg == arg) & (x.mutations == 0) & (x.evaluations == 0);
    }
    check(ok, "each new individual is a random one made with the arguments given");
    check(m.mutated.get() == 0, "nothing is mutated");
    if N > 8 {
        for i in 1..N {
            let (a, b) = (v[n + i - 1].gene & 1, v[n + i].gene & 1);
            for id in 0..4 {
                reach((a * 2 + b) as u64 == id, "any combination of random individuals", (i * 4) as u64 + id);
            }
        }
    } else if size == N {
        // they are independent of each other
        let mut k = 0;
        for x in &v[n..] {
            k = k * 2 + (x.gene & 1) as u64;
        }
        for id in 0..1u64 << N {
            reach(k == id, "any combination of random individuals", id);
        }
    }
    cover("extended");
}

/// The individual itself, and mutated copies of it.
fn with<const N: usize>() {
    let m = model(all);
    let mut v = held();
    let n = v.len();
    let gene = vpq::u8();
    let size = if N <= 8 { pick(N + 1) } else { N };
    m.extend_population_with(&mut v, size, Born { gene, arg: 0, mutations: 0, evaluations: 0, fit: 0.5 });
    check(v.len() == n + size, "as many individuals are added as asked for");
    check(same(&v, n), "the individuals that were there stay first");
    if size > 0 {
        check((v[n].gene == gene) & (v[n].mutations == 0), "the individual itself is among them, unchanged");
        let mut ok = true;
        for x in &v[n + 1..] {
            ok &= (x.mutations == 1) & (x.arg == gene);
        }
        check(ok, "each of the others is the individual mutated once");
    }
    check(m.mutated.get() + 1 == size.max(1), "nothing else is mutated");
    if N > 8 {
        for i in 2..N {
            let (a, b) = (v[n + i - 1].gene & 1, v[n + i].gene & 1);
            for id in 0..4 {
                reach((a * 2 + b) as u64 == id, "any combination of mutated individuals", (i * 4) as u64 + id);
            }
        }
    } else if size == N {
        let mut k = 0;
        for x in &v[(n + 1).min(v.len())..] {
            k = k * 2 + (x.gene & 1) as u64;
        }
        for id in 0..1u64 << N.saturating_sub(1) {
            reach(k == id, "any combination of mutated individuals", id);
        }
    }
    cover("extended");
}

fn odd(g: u8) -> bool {
    g & 1 == 1
}

type Ga = GeneticAlgorithm<Model>;
type Aga = AdaptiveGeneticAlgorithm<Model>;

/// What the first generation of a run consists of.
fn first<A: EvolutionAlgorithm<Model> + From<Model>>(params: A::Parameters, size: usize) {
    let e = A::build_evolution(model(all));
    let arg = vpq::u8();
    let how = pick(2);
    let gene = vpq::u8();
    let mut seen = 0;
    let progress = |p: &Population<Born>| {
        seen += 1;
        let mut ok = true;
        let mut there = false;
        for x in p.iter() {
            ok &= (x.evaluations == 1) & (x.fit == x.gene as f64);
            let original = (x.mutations == 0) & (x.gene == gene);
            ok &= if how == 0 { (x.mutations == 0) & (x.arg == arg) } else { original | (x.mutations == 1) & (x.arg == gene) };
            there |= x.gene == gene;
        }
        check(ok, "the first generation are the initial individuals, each evaluated once");
        check(p.generation() == 0, "it is generation 0");
        check(p.len() <= size, "it is not larger than the population size");
        reach(p.len() == size, "a first generation of the population size", how as u64);
        check((how == 0) | there, "the given individual is in the first generation");
        false
    };
    if how == 0 {
        e.run(&arg, &params, progress);
    } else {
        e.evolve_individual(Born { gene, arg: 0, mutations: 0, evaluations: 0, fit: f64::NAN }, &params, progress);
    }
    check(seen == 1, "the run ends as the closure asks");
    cover("ran");
}

/// The whole of it, evaluated individual by individual.
fn initialize<A: EvolutionAlgorithm<Model> + From<Model>, const N: usize>() {
    let a = A::from(model(odd));
    let v: Vec<Born> = (0..N).map(|_| Born { gene: vpq::u8() & 7, arg: 0, mutations: 0, evaluations: 0, fit: vpq::f64() }).collect();
    let mut want = 0u32;
    for x in &v {
        want |= if odd(x.gene) { 1 << (x.gene & 7) } else { 0 };
    }
    if want == 0 {
        vpq::expect_panic("no valid individual");
    }
    let p = a.initialize_population(v);
    check(a.model().evaluated.get() == N, "each individual is evaluated once");
    let mut ok = true;
    let mut got = 0u32;
    for x in p.iter() {
        ok &= (x.evaluations == 1) & (x.fit == x.gene as f64);
        got |= 1 << (x.gene & 7);
    }
    check(ok, "the fitness is the one evaluated");
    check(got == want, "the population consists of the valid individuals");
    check((p.generation() == 0) & (p.stagnation() == 0), "the population is new");
    cover("initialized");
}

/// More individuals, two of them arbitrary.
fn initialize_many<A: EvolutionAlgorithm<Model> + From<Model>, const N: usize>() {
    let a = A::from(model(odd));
    let mut genes: [u8; N] = std::array::from_fn(|i| (i * 3 % 96) as u8);
    genes[N / 3] = pick(8) as u8 * 13;
    genes[N - 1] = pick(8) as u8 * 5;
    let v: Vec<Born> = genes.iter().map(|&gene| Born { gene, arg: 0, mutations: 0, evaluations: 0, fit: vpq::f64() }).collect();
    let mut want = 0u128;
    for &g in &genes {
        want |= if odd(g) { 1 << (g & 127) } else { 0 };
    }
    let p = a.initialize_population(v);
    check(a.model().evaluated.get() == N, "each individual is evaluated once");
    let mut ok = true;
    let mut got = 0u128;
    for x in p.iter() {
        ok &= (x.evaluations == 1) & (x.fit == x.gene as f64);
        got |= 1 << (x.gene & 127);
    }
    check(ok, "the fitness is the one evaluated");
    check((got == want) & (p.len() == got.count_ones() as usize), "the population consists of the valid individuals");
    cover("initialized");
}

fn none<A: EvolutionAlgorithm<Model> + From<Model>>(params: A::Parameters) {
    let e = A::build_evolution(model(|_| false));
    let how = pick(3);
    vpq::expect_panic("no valid individual");
    let b = Born { gene: vpq::u8(), arg: 0, mutations: 0, evaluations: 0, fit: 1.0 };
    match how {
        0 => drop(e.run(&0u8, &params, |_| false)),
        1 => drop(e.evolve_individual(b, &params, |_| false)),
        _ => drop(e.evolve_population(vec![b], &params, |_| false)),
    }
}

use crate::algo::*;

/// The first generation of a large run, in which a few are invalid.
fn first_of<A: EvolutionAlgorithm<BigModel> + From<BigModel>>(params: A::Parameters, size: usize) {
    let how = pick(2);
    let bad = [u32::MAX, 0, size as u32 / 2, size as u32 - 1][pick(4)];
    let number = move |id: u32| match (how, id) {
        (0, id) => id,
        (_, 7) => 0,
        (_, id) => id - 1000 + 1,
    };
    let e = A::build_evolution(big_model(move |id| if number(id) == bad { f64::NAN } else { (id * 37 % 101) as f64 }));
    let arg = BigArg { next: Cell::new(0) };
    let mut seen = [0u8; 256];
    let mut calls = 0;
    let progress = |p: &Population<Big>| {
        calls += 1;
        let mut ok = p.len() == size - (bad != u32::MAX) as usize;
        for x in p.iter() {
            let k = number(x.id);
            ok &= (k < size as u32) & (x.evaluations == 1);
            ok &= if how == 0 || k == 0 { x.mutations == 0 } else { (x.mutations == 1) & (x.from == 7) };
            seen[k as usize & 255] += 1;
        }
        for k in 0..size {
            ok &= seen[k] == (k as u32 != bad) as u8;
        }
        check(ok, "the first generation are the initial individuals, each evaluated once");
        false
    };
    if how == 0 {
        e.run(&arg, &params, progress);
        check(arg.next.get() as usize == size, "as many individuals are made as asked for");
    } else {
        e.evolve_individual(big(7), &params, progress);
    }
    check(calls == 1, "the run ends as the closure asks");
    cover("ran");
}

entries! {
    quick c27_first_of_20 => first_of::<GeneticAlgorithm<BigModel>>(ga(20, 0.0, 0.5, 0.5), 20);
    quick c27_first_of_100 => first_of::<GeneticAlgorithm<BigModel>>(ga(100, 0.1, 0.5, 0.5), 100);
    quick c27_first_of_250 => first_of::<GeneticAlgorithm<BigModel>>(ga(250, 0.0, 0.5, 0.5), 250);
    quick c27_first_of_aga_100 => first_of::<AdaptiveGeneticAlgorithm<BigModel>>(aga(100, 0.1, 0.0..1.0, 0.0..1.0), 100);
    quick c27_random_130 => random::<130>();
    quick c27_with_130 => with::<130>();
    quick c27_first_ga_1 => first::<Ga>(ga(1, 0.0, 0.5, 0.5), 1);
    quick c27_first_ga_3 => first::<Ga>(ga(3, 0.0, 0.5, 0.5), 3);
    quick c27_first_aga_2 => first::<Aga>(aga(2, 0.5, 0.0..1.0, 0.0..1.0), 2);
    quick c27_random_0 => random::<0>();
    quick c27_random_1 => random::<1>();
    quick c27_random_2 => random::<2>();
    quick c27_random_4 => random::<4>();
    quick c27_random_24 => random::<24>();
    quick c27_random_65 => random::<65>();
    quick c27_with_24 => with::<24>();
    quick c27_with_65 => with::<65>();
    quick c27_initialize_many_24 => initialize_many::<Ga, 24>();
    quick c27_initialize_many_33 => initialize_many::<Aga, 33>();
    quick c27_initialize_many_70 => initialize_many::<Ga, 70>();
    thorough c27_random_8 => random::<8>();
    quick c27_with_0 => with::<0>();
    quick c27_with_1 => with::<1>();
    quick c27_with_2 => with::<2>();
    quick c27_with_4 => with::<4>();
    thorough c27_with_8 => with::<8>();
    quick c27_initialize_ga_1 => initialize::<Ga, 1>();
    quick c27_initialize_ga_2 => initialize::<Ga, 2>();
    quick c27_initialize_ga_3 => initialize::<Ga, 3>();
    quick c27_initialize_aga_2 => initialize::<Aga, 2>();
    quick c27_initialize_aga_3 => initialize::<Aga, 3>();
    thorough c27_initialize_ga_4 => initialize::<Ga, 4>();
    quick c27_none_ga => none::<Ga>(ga(2, 0.0, 0.5, 0.5));
    quick c27_none_aga => none::<Aga>(aga(3, 0.5, 0.0..1.0, 0.0..1.0));
}
