//! C24: elitism: the fittest are carried over, and the best fitness never falls.
use crate::algo::*;
use crate::*;

fn value() -> f64 {
    below(8) as f64
}

/// The `elite` fittest individuals are appended, unchanged, to what is there.
fn elites<A: EvolutionAlgorithm<Breeder> + From<Breeder>, const N: usize>(params: A::Parameters, elite: usize) {
    let p = Population::new((0..N).map(|i| ind(value(), i as u8)).collect());
    elites_of::<A>(p, params, elite);
}

fn elites_of<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(p: Population<Ind>, params: A::Parameters, elite: usize) {
    let n = p.len();
    let mut a = A::from(breeder(0, value));
    a.configure(&params);
    let held = pick(2);
    let mut out: Vec<Ind> = (0..held).map(|_| ind(-1.0, 250)).collect();
    a.select_elites(&p, &mut out);
    let want = elite.min(n);
    check(out.len() == held + want, "as many elites as the elitism rate says, if there are as many");
    check(held == 0 || out[0].tag == 250, "what is there stays");
    let mut member = true;
    let mut fitter = true;
    for (k, e) in out[held..].iter().enumerate() {
        let mut found = false;
        let mut above = 0usize;
        for x in p.iter() {
            found |= (x.tag == e.tag) & (x.fit == e.fit);
            above += (x.fit > e.fit) as usize;
        }
        member &= found;
        fitter &= above < want;
        for f in &out[held..held + k] {
            member &= f.tag != e.tag;
        }
    }
    check(member, "the elites are different members of the population");
    check(fitter, "no other individual is fitter than an elite");
    cover("elites");
}

/// More individuals, the fitness of two of them arbitrary.
fn many<A: EvolutionAlgorithm<Breeder> + From<Breeder>, const N: usize>(params: A::Parameters, elite: usize) {
    let mut v: Vec<Ind> = (0..N).map(|i| ind((i * 7 % N / 2) as f64, i as u8)).collect();
    v[N / 3] = ind(pick(4) as f64 * 7.0, 200);
    v[N - 1] = ind(pick(4) as f64 * 7.0, 201);
    elites_of::<A>(Population::new(v), params, elite);
}

/// Runs with elitism: the best fitness never falls and the elites are in the next population.
fn runs<A: EvolutionAlgorithm<Breeder> + From<Breeder>, const N: usize>(params: A::Parameters, elite: usize, generations: usize, values: fn() -> f64) {
    let e = A::build_evolution(breeder(100, values));
    let v: Vec<Ind> = (0..N).map(|i| ind(values(), i as u8)).collect();
    let mut best = f64::NEG_INFINITY;
    let mut top: Vec<u8> = vec![];
    let p = e.evolve_population(v, &params, |p| {
        check(p.fittest().fit >= best, "the best fitness never falls");
        best = p.fittest().fit;
        let mut kept = true;
        for t in &top {
            let mut found = false;
            for x in p.iter() {
                found |= x.tag == *t;
            }
            kept &= found;
        }
        check(kept, "the elites are in the next population");
        top = p[p.len().saturating_sub(elite)..].iter().map(|x| x.tag).collect();
        p.generation() < generations
    });
    check(p.fittest().fit == best, "the last population is returned");
    cover("evolved");
}

fn tiny() -> f64 {
    below(4) as f64
}

type Ga = GeneticAlgorithm<Breeder>;
type Aga = AdaptiveGeneticAlgorithm<Breeder>;

/// Larger populations and longer runs: offspring much better or worse than the elites at one point.
fn big_runs<A: EvolutionAlgorithm<BigModel> + From<BigModel>>(params: A::Parameters, size: usize, elite: usize, generations: usize) {
    let per = (size - elite) as u32;
    let at = [1, 2, generations / 2, generations][pick(4)] as u32;
    let (step, levels) = ([-100.0, 0.0, 100.0][pick(3)], [1, 3, 101][pick(3)]);
    let e = A::build_evolution(big_model(move |id| {
        let g = if id < 1000 { 0 } else { (id - 1000) / per + 1 };
        (if g >= at { step } else { 0.0 }) + (id * 37 % 101 % levels) as f64
    }));
    let mut best = f64::NEG_INFINITY;
    let mut top: Vec<Big> = vec![];
    e.evolve_population((0..size as u32).map(big).collect(), &params, |p| {
        let n = p.len();
        check(n == size, "every generation has the population size");
        check(p.fittest().fit >= best, "the best fitness never falls");
        best = p.fittest().fit;
        let mut kept = true;
        for t in &top {
            kept &= p.iter().any(|x| (x.id == t.id) & (x.fit == t.fit) & (x.evaluations == 1));
        }
        check(kept, "the elites are in the next population");
        top = p[n - elite..].to_vec();
        let mut highest = true;
        for x in &p[..n - elite] {
            highest &= top.iter().all(|t| t.fit >= x.fit);
        }
        check(highest, "no other individual is fitter than an elite");
        p.generation() < generations
    });
    cover("evolved");
}

/// After many generations with and without progress.
fn later<A: EvolutionAlgorithm<Breeder> + From<Breeder>, const N: usize>(params: A::Parameters, elite: usize) {
    let rounds = [1, 2, 10, 21, 60, 130, 256, 300][pick(8)];
    let rise = [0.0, 1.0, -1.0][pick(3)];
    let mut p = Population::new((0..N).map(|i| ind(i as f64, i as u8)).collect());
    for r in 0..rounds {
        let mut v: Vec<Ind> = (0..N).map(|i| ind((i * 5 % 7) as f64 + rise * r as f64, i as u8)).collect();
        p.replace(&mut v);
    }
    elites_of::<A>(p, params, elite);
}

entries! {
    quick c24_later_ga_5 => later::<Ga, 5>(ga(6, 0.5, 0.5, 0.5), 3);
    quick c24_later_aga_5 => later::<Aga, 5>(aga(6, 0.5, 0.0..1.0, 0.0..1.0), 3);
    quick c24_later_ga_1 => later::<Ga, 5>(ga(6, 0.2, 0.5, 0.5), 1);
    quick c24_later_aga_1 => later::<Aga, 5>(aga(6, 0.2, 0.0..1.0, 0.0..1.0), 1);
    quick c24_later_ga_0 => later::<Ga, 3>(ga(6, 0.1, 0.5, 0.5), 0);
    quick c24_many_ga_130 => many::<Ga, 130>(ga(130, 0.6, 0.5, 0.5), 78);
    quick c24_many_aga_130 => many::<Aga, 130>(aga(130, 0.6, 0.0..1.0, 0.0..1.0), 78);
    quick c24_big_ga_300 => big_runs::<GeneticAlgorithm<BigModel>>(ga(4, 0.5, 0.5, 0.5), 4, 2, 300);
    quick c24_big_ga_5 => big_runs::<GeneticAlgorithm<BigModel>>(ga(5, 0.4, 0.5, 0.5), 5, 2, 40);
    quick c24_big_ga_20 => big_runs::<GeneticAlgorithm<BigModel>>(ga(20, 0.1, 0.5, 0.5), 20, 2, 12);
    quick c24_big_ga_100 => big_runs::<GeneticAlgorithm<BigModel>>(ga(100, 0.3, 0.5, 0.5), 100, 30, 3);
    quick c24_big_aga_20 => big_runs::<AdaptiveGeneticAlgorithm<BigModel>>(aga(20, 0.25, 0.0..1.0, 0.0..1.0), 20, 5, 12);
    quick c24_big_aga_130 => big_runs::<AdaptiveGeneticAlgorithm<BigModel>>(aga(130, 0.1, 0.0..1.0, 0.0..1.0), 130, 13, 3);
    quick c24_elites_ga_30 => elites::<Ga, 3>(ga(4, 0.0, 0.5, 0.5), 0);
    quick c24_elites_ga_31 => elites::<Ga, 3>(ga(4, 0.25, 0.5, 0.5), 1);
    quick c24_elites_ga_32 => elites::<Ga, 3>(ga(5, 0.5, 0.5, 0.5), 2);
    quick c24_elites_ga_13 => elites::<Ga, 1>(ga(4, 0.75, 0.5, 0.5), 3);
    quick c24_elites_ga_43 => elites::<Ga, 4>(ga(6, 0.5, 0.5, 0.5), 3);
    quick c24_elites_aga_30 => elites::<Aga, 3>(aga(4, 0.0, 0.0..1.0, 0.0..1.0), 0);
    quick c24_elites_aga_31 => elites::<Aga, 3>(aga(4, 0.25, 0.0..1.0, 0.0..1.0), 1);
    quick c24_elites_aga_32 => elites::<Aga, 3>(aga(5, 0.5, 0.0..1.0, 0.0..1.0), 2);
    quick c24_elites_aga_13 => elites::<Aga, 1>(aga(4, 0.75, 0.0..1.0, 0.0..1.0), 3);
    quick c24_elites_aga_43 => elites::<Aga, 4>(aga(6, 0.5, 0.0..1.0, 0.0..1.0), 3);
    quick c24_many_ga_12 => many::<Ga, 12>(ga(16, 0.25, 0.5, 0.5), 4);
    quick c24_many_ga_40 => many::<Ga, 40>(ga(40, 0.3, 0.5, 0.5), 12);
    quick c24_many_ga_33 => many::<Ga, 33>(ga(60, 0.6, 0.5, 0.5), 36);
    quick c24_many_aga_12 => many::<Aga, 12>(aga(16, 0.25, 0.0..1.0, 0.0..1.0), 4);
    quick c24_many_aga_40 => many::<Aga, 40>(aga(40, 0.3, 0.0..1.0, 0.0..1.0), 12);
    quick c24_many_aga_33 => many::<Aga, 33>(aga(60, 0.6, 0.0..1.0, 0.0..1.0), 36);
    quick/2 c24_runs_ga_217 => runs::<Ga, 2>(ga(2, 0.5, 0.5, 0.5), 1, 7, tiny);
    quick/2 c24_runs_aga_217 => runs::<Aga, 2>(aga(2, 0.5, 0.0..1.0, 0.0..1.0), 1, 7, tiny);
    quick c24_runs_ga_21 => runs::<Ga, 2>(ga(2, 0.5, 0.5, 0.5), 1, 2, tiny);
    quick c24_runs_ga_32 => runs::<Ga, 3>(ga(3, 0.75, 0.5, 0.5), 2, 2, tiny);
    quick c24_runs_aga_21 => runs::<Aga, 2>(aga(2, 0.5, 0.0..1.0, 0.0..1.0), 1, 2, tiny);
    quick c24_runs_aga_32 => runs::<Aga, 3>(aga(3, 0.75, 0.0..1.0, 0.0..1.0), 2, 2, tiny);
    thorough c24_runs_ga_31 => runs::<Ga, 3>(ga(3, 0.5, 0.5, 0.5), 1, 2, tiny);
    thorough c24_runs_ga_213 => runs::<Ga, 2>(ga(2, 0.5, 0.5, 0.5), 1, 4, value);
}
