//! C28: a run returns the best individual of all its generations.
use crate::algo::*;
use crate::*;


/// Whatever is bred, its fitness is arbitrary; individuals are told apart by their tags.
struct Model {
    next: std::cell::Cell<u8>,
    value: fn() -> f64,
}

unsafe impl Sync for Model {}

impl RandomIndividual<fn() -> f64> for Ind {
    fn new_random<R: rand::Rng>(value: &fn() -> f64, rng: &mut R) -> Self {
        ind(value(), (rng.next_u32() & 0x3f) as u8)
    }
}

impl EvolutionModel for Model {
    type Individual = Ind;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut SymRng) -> Ind {
        a.clone()
    }
    fn mutate(&self, x: &mut Ind, _: &mut SymRng) {
        let k = self.next.get();
        self.next.set(k + 1);
        *x = ind((self.value)(), k);
    }
    fn evaluate(&self, _: &mut Ind) {}
    fn breed(&self, _: &Population<Ind>, _: &ReproductionParameters<Self>, _: &mut SymRng) -> Ind {
        let k = self.next.get();
        self.next.set(k + 1);
        ind((self.value)(), k)
    }
}

type Ga = GeneticAlgorithm<Model>;
type Aga = AdaptiveGeneticAlgorithm<Model>;

fn tiny() -> f64 {
    pick(2) as f64
}

fn value() -> f64 {
    below(16) as f64
}

fn best<A: EvolutionAlgorithm<Model> + From<Model>>(params: A::Parameters, generations: usize, value: fn() -> f64) {
    let e = A::build_evolution(Model { next: std::cell::Cell::new(100), value });
    let last = if generations < 6 { pick(generations + 1) } else { generations };
    let how = pick(2);
    let mut calls = 0;
    let mut seen: Vec<Ind> = Vec::new();
    let progress = |p: &Population<Ind>| {
        seen.extend(p.iter().cloned());
        calls += 1;
        calls <= last
    };
    let r = if how == 0 {
        e.run(&value, &params, progress)
    } else {
        e.evolve_individual(ind(value(), 90), &params, progress)
    };
    check(calls == last + 1, "the closure ends the run");
    let mut ok = true;
    let mut there = false;
    for x in &seen {
        ok &= !(x.fit > r.fit);
        there |= (x.tag == r.tag) & (x.fit == r.fit);
    }
    check(ok, "no individual of any generation is fitter than the one returned");
    check(there, "the individual returned is one of a generation");
    cover("ran");
}

/// Large populations and long runs; the best individual comes anywhere, alone or along with others.
fn peak<A: EvolutionAlgorithm<BigModel> + From<BigModel>>(params: A::Parameters, size: usize, elites: usize, generations: usize) {
    let how = pick(2);
    // which one it is, in the order in which they are made
    let per = size - elites;
    let made = size + per * generations;
    let at = [0, 1, size / 2, size - 1, size, size + per / 2, size + per * (generations / 2), made - per, made - 1, made][pick(10)] as u32;
    let twice = pick(2) == 1;
    let size_ = size as u32;
    let e = A::build_evolution(big_model(move |id| {
        // the initial ones of a run are numbered from 0 on, or from 1000 on except for the first one
        let k = match (how, id) {
            (0, id) if id < 1000 => id,
            (0, id) => id - 1000 + size_,
            (_, 7) => 0,
            (_, id) => id - 1000 + 1,
        };
        if k == at || twice && k == at + 1 {
            1e6
        } else {
            (k * 37 % 101) as f64 - 50.0
        }
    }));
    let mut calls = 0;
    let mut top = f64::NEG_INFINITY;
    let mut all = 0;
    let progress = |p: &Population<Big>| {
        for x in p.iter() {
            if x.fit > top {
                top = x.fit;
            }
        }
        all += p.len();
        calls += 1;
        calls <= generations
    };
    let r = if how == 0 {
        e.run(&BigArg { next: std::cell::Cell::new(0) }, &params, progress)
    } else {
        e.evolve_individual(big(7), &params, progress)
    };
    check(all == size * (generations + 1), "every generation has the population size");
    check(r.fit == top, "no individual of any generation is fitter than the one returned");
    check((at as usize >= made) | (top == 1e6), "the best individual bred is in a generation");
    cover("ran");
}

/// So many generations that narrow counters overflow; the best one at one of a few places.
fn endless<A: EvolutionAlgorithm<BigModel> + From<BigModel>>(params: A::Parameters, generations: u32) {
    let at = 1000 + [0, 255, 256, generations / 2, 65_535, generations - 1][pick(6)];
    let e = A::build_evolution(big_model(move |id| if id == at { 3.0 } else { (id % 2) as f64 }));
    let mut calls = 0;
    let r = e.run(&BigArg { next: std::cell::Cell::new(0) }, &params, |_| {
        calls += 1;
        calls <= generations
    });
    check((r.id == at) & (r.fit == 3.0), "no individual of any generation is fitter than the one returned");
    check(calls == generations + 1, "the run goes on while the closure returns true");
    cover("endless");
}

entries! {
    quick c28_endless_ga => endless::<GeneticAlgorithm<BigModel>>(ga(1, 0.0, 0.5, 0.5), 66_000);
    quick c28_endless_aga => endless::<AdaptiveGeneticAlgorithm<BigModel>>(aga(1, 0.0, 0.0..1.0, 0.0..1.0), 66_000);
    quick c28_peak_ga_300 => peak::<GeneticAlgorithm<BigModel>>(ga(2, 0.0, 0.5, 0.5), 2, 0, 300);
    quick c28_peak_ga_100 => peak::<GeneticAlgorithm<BigModel>>(ga(100, 0.0, 0.5, 0.5), 100, 0, 2);
    quick c28_peak_ga_130 => peak::<GeneticAlgorithm<BigModel>>(ga(130, 0.1, 0.5, 0.5), 130, 13, 2);
    quick c28_peak_ga_20 => peak::<GeneticAlgorithm<BigModel>>(ga(20, 0.0, 0.5, 0.5), 20, 0, 12);
    quick c28_peak_ga_5 => peak::<GeneticAlgorithm<BigModel>>(ga(5, 0.0, 0.5, 0.5), 5, 0, 40);
    quick c28_peak_aga_100 => peak::<AdaptiveGeneticAlgorithm<BigModel>>(aga(100, 0.1, 0.0..1.0, 0.0..1.0), 100, 10, 2);
    quick c28_peak_aga_20 => peak::<AdaptiveGeneticAlgorithm<BigModel>>(aga(20, 0.0, 0.0..1.0, 0.0..1.0), 20, 0, 12);
    quick c28_peak_aga_5 => peak::<AdaptiveGeneticAlgorithm<BigModel>>(aga(5, 0.0, 0.0..1.0, 0.0..1.0), 5, 0, 40);
    quick c28_ga_1 => best::<Ga>(ga(1, 0.0, 0.5, 0.5), 3, value);
    quick c28_ga_2 => best::<Ga>(ga(2, 0.0, 0.5, 0.5), 2, value);
    quick c28_ga_2_elite => best::<Ga>(ga(2, 0.5, 0.5, 0.5), 2, value);
    quick c28_ga_3 => best::<Ga>(ga(3, 0.0, 0.5, 0.5), 1, value);
    quick c28_aga_1 => best::<Aga>(aga(1, 0.0, 0.0..1.0, 0.0..1.0), 3, value);
    quick c28_aga_2 => best::<Aga>(aga(2, 0.0, 0.0..1.0, 0.0..1.0), 2, value);
    quick c28_aga_3 => best::<Aga>(aga(3, 0.4, 0.0..1.0, 0.0..1.0), 1, value);
    quick/2 c28_long_ga_8 => best::<Ga>(ga(1, 0.0, 0.5, 0.5), 8, value);
    quick/2 c28_long_aga_8 => best::<Aga>(aga(1, 0.0, 0.0..1.0, 0.0..1.0), 8, value);
    quick/2 c28_long_aga_12 => best::<Aga>(aga(1, 0.0, 0.0..1.0, 0.0..1.0), 12, tiny);
    quick/2 c28_many_ga => best::<Ga>(ga(5, 0.0, 0.5, 0.5), 1, tiny);
    quick c28_floats_1 => best::<Ga>(ga(1, 0.0, 0.5, 0.5), 2, any_finite);
    quick c28_floats_2 => best::<Ga>(ga(2, 0.0, 0.5, 0.5), 1, any_finite);
}
