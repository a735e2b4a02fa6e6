//! Models and parameters shared by the harnesses of the algorithms.
use crate::*;
use std::cell::{Cell, RefCell};

/// An individual with a genome of one number, which decides its fitness; `id` tells apart those
/// that were made separately.
#[derive(Clone, Debug)]
pub struct Num {
    pub gene: u8,
    pub fit: f64,
    pub id: u8,
    pub evaluated: u8,
}

impl PartialEq for Num {
    fn eq(&self, o: &Self) -> bool {
        self.gene == o.gene
    }
}

impl Individual for Num {
    fn fitness(&self) -> f64 {
        self.fit
    }
}

pub fn num(gene: u8) -> Num {
    Num { gene, fit: f64::NAN, id: gene, evaluated: 0 }
}

/// The fitness of a gene is looked up; crossover and mutation make any gene.
pub struct Table<const K: usize> {
    pub fit: [f64; K],
}

impl<const K: usize> EvolutionModel for Table<K> {
    type Individual = Num;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, _: &Num, _: &Num, _: &mut SymRng) -> Num {
        num(pick(K) as u8)
    }
    fn mutate(&self, x: &mut Num, _: &mut SymRng) {
        *x = num(pick(K) as u8);
    }
    fn evaluate(&self, x: &mut Num) {
        x.fit = self.fit[x.gene as usize % K];
        x.evaluated += 1;
    }
}

impl<const K: usize> RandomIndividual<u8> for NumOf<K> {
    fn new_random<R: rand::Rng>(_: &u8, _: &mut R) -> Self {
        NumOf(num(pick(K) as u8))
    }
}

/// `Num` with the number of genes known.
#[derive(Clone, Debug, PartialEq)]
pub struct NumOf<const K: usize>(pub Num);

impl<const K: usize> Individual for NumOf<K> {
    fn fitness(&self) -> f64 {
        self.0.fit
    }
}

pub fn ga(size: usize, elitism: f64, crossover: f64, mutation: f64) -> GeneticAlgorithmParameters {
    GeneticAlgorithmParameters {
        population_size: size,
        elitism_rate: elitism,
        crossover_rate: crossover,
        mutation_rate: mutation,
        selection_strategy: SelectionStrategy::Rank,
    }
}

pub fn aga(size: usize, elitism: f64, crossover: std::ops::Range<f64>, mutation: std::ops::Range<f64>) -> AdaptiveGeneticAlgorithmParameters {
    AdaptiveGeneticAlgorithmParameters {
        population_size: size,
        elitism_rate: elitism,
        crossover_rate_range: crossover,
        mutation_rate_range: mutation,
        selection_strategy: SelectionStrategy::Rank,
        parameter_adjustment_interval: 1,
    }
}

/// Breeds whatever the harness says: every individual new, or one of few.
pub struct Breeder {
    pub next: Cell<u8>,
    pub value: fn() -> f64,
}

unsafe impl Sync for Breeder {}

impl EvolutionModel for Breeder {
    type Individual = Ind;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SymRng) -> Ind {
        a.clone()
    }
    fn mutate(&self, _: &mut Ind, _: &mut SymRng) {}
    fn evaluate(&self, _: &mut Ind) {}
    fn breed(&self, _: &Population<Ind>, _: &ReproductionParameters<Self>, _: &mut SymRng) -> Ind {
        let k = self.next.get();
        self.next.set(k + 1);
        ind((self.value)(), k)
    }
}

pub fn breeder(first: u8, value: fn() -> f64) -> Breeder {
    Breeder { next: Cell::new(first), value }
}

/// An individual of a large run: its number tells where it comes from, and decides its fitness.
#[derive(Clone, Debug)]
pub struct Big {
    pub id: u32,
    pub from: u32,
    pub mutations: u8,
    pub evaluations: u8,
    pub fit: f64,
}

impl PartialEq for Big {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}

impl Individual for Big {
    fn fitness(&self) -> f64 {
        self.fit
    }
}

pub fn big(id: u32) -> Big {
    Big { id, from: u32::MAX, mutations: 0, evaluations: 0, fit: f64::NAN }
}

/// Numbers random individuals from 0 on.
pub struct BigArg {
    pub next: Cell<u32>,
}

unsafe impl Sync for BigArg {}

impl RandomIndividual<BigArg> for Big {
    fn new_random<R: rand::Rng>(arg: &BigArg, _: &mut R) -> Self {
        let k = arg.next.get();
        arg.next.set(k + 1);
        big(k)
    }
}

/// Numbers what it mutates or breeds from 1000 on.
pub struct BigModel {
    pub next: Cell<u32>,
    pub fit: Box<dyn Fn(u32) -> f64>,
}

unsafe impl Sync for BigModel {}
unsafe impl Send for BigModel {}

impl EvolutionModel for BigModel {
    type Individual = Big;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, a: &Big, _: &Big, _: &mut SymRng) -> Big {
        a.clone()
    }
    fn mutate(&self, x: &mut Big, _: &mut SymRng) {
        let k = self.next.get();
        self.next.set(k + 1);
        x.from = x.id;
        x.id = k;
        x.mutations += 1;
    }
    fn evaluate(&self, x: &mut Big) {
        x.evaluations += 1;
        x.fit = (self.fit)(x.id);
    }
    fn breed(&self, _: &Population<Big>, _: &ReproductionParameters<Self>, _: &mut SymRng) -> Big {
        let k = self.next.get();
        self.next.set(k + 1);
        let mut x = big(k);
        self.evaluate(&mut x);
        x
    }
}

pub fn big_model(fit: impl Fn(u32) -> f64 + 'static) -> BigModel {
    BigModel { next: Cell::new(1000), fit: Box::new(fit) }
}
