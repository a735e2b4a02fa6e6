//! C25: every generation is filled up to the population size.
use crate::algo::*;
use crate::*;
use object_pool::Pool;

fn value() -> f64 {
    1.0
}

/// What is there stays, and individuals are bred until there are `size`.
fn fill<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(params: A::Parameters, size: usize) {
    let mut a = A::from(breeder(0, value));
    a.configure(&params);
    let p = Population::new((0..[2, 1, 150][pick(3)]).map(|i| ind(i as f64, 240)).collect());
    let held = if size < 16 { pick(size + 2) } else { [0, 1, size / 3, size - 1, size, size + 1][pick(6)] };
    let mut v: Vec<Ind> = (0..held).map(|i| ind(-1.0 - i as f64, 251)).collect();
    let pool = Pool::new(2, <Breeder as EvolutionModel>::rng);
    a.generate_new_population(&p, &mut v, &pool);
    let want = size.max(held);
    check(v.len() == want, "the offspring and what was there are as many as the population size");
    check(a.model().next.get() as usize == want - held, "no individual is bred in vain");
    let mut there = true;
    let mut bred = [0u8; 256];
    for (i, x) in v.iter().enumerate() {
        if i < held {
            there &= (x.tag == 251) & (x.fit == -1.0 - i as f64);
        } else {
            bred[x.tag as usize] += 1;
        }
    }
    check(there, "what was there stays");
    let mut once = true;
    for k in 0..256 {
        once &= bred[k] == (k < want - held) as u8;
    }
    check(once, "each bred individual is in the new population once");
    cover("filled");
}

/// Whole runs: each population has the configured size, as all individuals differ.
fn runs<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(params: A::Parameters, size: usize, first: usize) {
    let e = A::build_evolution(breeder(50, value));
    let v: Vec<Ind> = (0..first).map(|i| ind(0.0, i as u8)).collect();
    let mut generations = 0;
    e.evolve_population(v, &params, |p| {
        check(p.len() == if generations == 0 { first } else { size }, "every generation has the population size");
        generations += 1;
        generations <= if size > 60 { 2 } else { 3 }
    });
    cover("evolved");
}

type Ga = GeneticAlgorithm<Breeder>;
type Aga = AdaptiveGeneticAlgorithm<Breeder>;

entries! {
    quick c25_runs_ga_100_1 => runs::<Ga>(ga(100, 0.1, 0.5, 0.5), 100, 1);
    quick c25_runs_ga_60_150 => runs::<Ga>(ga(60, 0.1, 0.5, 0.5), 60, 150);
    quick c25_runs_aga_100_1 => runs::<Aga>(aga(100, 0.1, 0.0..1.0, 0.0..1.0), 100, 1);
    quick c25_fill_ga_200 => fill::<Ga>(ga(200, 0.1, 0.5, 0.5), 200);
    quick c25_fill_aga_200 => fill::<Aga>(aga(200, 0.1, 0.0..1.0, 0.0..1.0), 200);
    quick c25_runs_ga_60 => runs::<Ga>(ga(60, 0.25, 0.5, 0.5), 60, 45);
    quick c25_fill_ga_1 => fill::<Ga>(ga(1, 0.0, 0.5, 0.5), 1);
    quick c25_fill_ga_2 => fill::<Ga>(ga(2, 0.5, 0.5, 0.5), 2);
    quick c25_fill_ga_5 => fill::<Ga>(ga(5, 0.1, 0.5, 0.5), 5);
    quick c25_fill_ga_9 => fill::<Ga>(ga(9, 0.3, 0.5, 0.5), 9);
    quick c25_fill_aga_1 => fill::<Aga>(aga(1, 0.0, 0.0..1.0, 0.0..1.0), 1);
    quick c25_fill_aga_2 => fill::<Aga>(aga(2, 0.5, 0.0..1.0, 0.0..1.0), 2);
    quick c25_fill_aga_5 => fill::<Aga>(aga(5, 0.1, 0.0..1.0, 0.0..1.0), 5);
    quick c25_fill_ga_24 => fill::<Ga>(ga(24, 0.3, 0.5, 0.5), 24);
    quick c25_fill_ga_100 => fill::<Ga>(ga(100, 0.1, 0.5, 0.5), 100);
    quick c25_fill_aga_24 => fill::<Aga>(aga(24, 0.3, 0.0..1.0, 0.0..1.0), 24);
    quick c25_fill_aga_100 => fill::<Aga>(aga(100, 0.1, 0.0..1.0, 0.0..1.0), 100);
    quick c25_runs_ga_33 => runs::<Ga>(ga(33, 0.25, 0.5, 0.5), 33, 20);
    quick c25_runs_aga_33 => runs::<Aga>(aga(33, 0.25, 0.0..1.0, 0.0..1.0), 33, 40);
    quick c25_runs_ga_1 => runs::<Ga>(ga(1, 0.0, 0.5, 0.5), 1, 3);
    quick c25_runs_ga_2 => runs::<Ga>(ga(2, 0.5, 0.5, 0.5), 2, 1);
    quick c25_runs_ga_4 => runs::<Ga>(ga(4, 0.75, 0.5, 0.5), 4, 2);
    quick c25_runs_ga_5 => runs::<Ga>(ga(5, 0.4, 0.5, 0.5), 5, 7);
    quick c25_runs_aga_1 => runs::<Aga>(aga(1, 0.0, 0.0..1.0, 0.0..1.0), 1, 2);
    quick c25_runs_aga_3 => runs::<Aga>(aga(3, 0.7, 0.0..1.0, 0.0..1.0), 3, 3);
    quick c25_runs_aga_4 => runs::<Aga>(aga(4, 0.25, 0.0..1.0, 0.0..1.0), 4, 2);
}
