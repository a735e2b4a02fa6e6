//! C26: the evolution loop and its progress closure.
use crate::algo::*;
use crate::*;

fn value() -> f64 {
    below(4) as f64
}

/// The closure sees every generation once, from the initial population on, and ends the run.
fn progress<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(params: A::Parameters) {
    progress_to::<A>(params, pick(4))
}

fn progress_to<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(params: A::Parameters, stop: usize) {
    let e = A::build_evolution(breeder(10, value));
    let v: Vec<Ind> = (0..2).map(|i| ind(value(), i as u8)).collect();
    let mut calls = 0;
    let mut last = (0, 0.0, 0);
    let mut best = f64::NEG_INFINITY;
    let mut since = 0;
    let p = e.evolve_population(v, &params, |p| {
        check(calls <= stop, "the run ends when the closure returns false");
        check(p.generation() == calls, "the closure is called once for each generation, from 0 on");
        if calls == 0 {
            let mut initial = true;
            for x in p.iter() {
                initial &= x.tag < 10;
            }
            check(initial & (p.len() == 2), "the first call gets the initial population");
        } else if !(p.fittest().fit > best) {
            since += 1;
        } else {
            since = 0;
        }
        best = p.fittest().fit;
        check(p.stagnation() == since, "stagnation counts the generations without improvement");
        check(p.stats().count() == p.len(), "the statistics are those of the population");
        last = (p.len(), best, p.fittest().tag);
        calls += 1;
        calls <= stop
    });
    check(calls == stop + 1, "the run goes on while the closure returns true");
    check(p.generation() == stop, "the population returned is of the last generation");
    check(
        (p.len() == last.0) & (p.fittest().fit == last.1) & (p.fittest().tag == last.2),
        "the population returned is the one the closure saw last",
    );
    cover("evolved");
}

/// Stopping on the first call: the initial population is returned as it is.
fn untouched<A: EvolutionAlgorithm<Breeder> + From<Breeder>>(params: A::Parameters) {
    let e = A::build_evolution(breeder(10, value));
    let v: Vec<Ind> = (0..3).map(|i| ind(value(), i as u8)).collect();
    let p = e.evolve_population(v, &params, |_| false);
    let mut seen = 0u32;
    for x in p.iter() {
        seen |= 1 << (x.tag & 31);
    }
    check((p.len() == 3) & (seen == 7), "without a generation the initial individuals are returned");
    check((p.generation() == 0) & (p.stagnation() == 0), "without a generation the population is new");
    cover("untouched");
}

type Ga = GeneticAlgorithm<Breeder>;
type Aga = AdaptiveGeneticAlgorithm<Breeder>;

/// Long runs of larger populations, whose best fitness rises, falls or stays at a few points.
fn history<A: EvolutionAlgorithm<BigModel> + From<BigModel>>(params: A::Parameters, size: usize, elites: usize, stop: usize) {
    let per = (size - elites) as u32;
    let turn = [1, 2, stop / 2, stop - 1, stop][pick(5)];
    let (before, after) = (pick(3), pick(3));
    let e = A::build_evolution(big_model(move |id| {
        if id < 1000 {
            return 5.0 + id as f64 / 64.0;
        }
        // the generation it is bred for
        let g = ((id - 1000) / per) as i32 + 1;
        let t = turn as i32;
        let slope = |k| [0, 1, -1][k];
        let up = if g < t { g * slope(before) } else { (t - 1) * slope(before) + (g - t + 1) * slope(after) };
        up as f64 + ((id - 1000) % per) as f64 / 256.0
    }));
    let mut calls = 0;
    let mut best = f64::NEG_INFINITY;
    let mut since = 0;
    let mut last = 0u64;
    let sign = |p: &Population<Big>| p.iter().fold(0u64, |s, x| s.wrapping_mul(31).wrapping_add(x.id as u64));
    let p = e.evolve_population((0..size as u32).map(big).collect(), &params, |p| {
        check(calls <= stop, "the run ends when the closure returns false");
        check(p.generation() == calls, "the closure is called once for each generation, from 0 on");
        let top = p.iter().fold(f64::NEG_INFINITY, |m, x| if x.fit > m { x.fit } else { m });
        since = if calls == 0 || top > best { 0 } else { since + 1 };
        best = top;
        check(p.stagnation() == since, "stagnation counts the generations without improvement");
        let first = 1000 + per * (calls.max(1) - 1) as u32;
        let mut bred = 0;
        for x in p.iter() {
            bred += ((calls == 0) & (x.id < 1000) | (calls > 0) & (x.id >= first) & (x.id < first + per)) as usize;
        }
        check(bred == if calls == 0 { size } else { per as usize }, "the closure sees the generation just bred");
        check((p.len() == size) & (p.stats().count() == size), "the statistics are those of the population");
        last = sign(p);
        calls += 1;
        calls <= stop
    });
    check(calls == stop + 1, "the run goes on while the closure returns true");
    check((p.generation() == stop) & (sign(&p) == last), "the population returned is the one the closure saw last");
    cover("evolved");
}

/// So many generations that narrow counters overflow.
fn endless<A: EvolutionAlgorithm<BigModel> + From<BigModel>>(params: A::Parameters, size: usize, stop: usize) {
    let at = [0, 300, stop as u32 - 2][pick(3)];
    let e = A::build_evolution(big_model(move |id| if id >= 1000 + at * size as u32 { 2.0 } else { 1.0 }));
    let (mut calls, mut since, mut best) = (0, 0, f64::NEG_INFINITY);
    let mut ok = true;
    let p = e.evolve_population((0..size as u32).map(big).collect(), &params, |p| {
        since = if calls == 0 || p[0].fit > best { 0 } else { since + 1 };
        best = p[0].fit;
        let first = if calls == 0 { 0 } else { 1000 + (calls - 1) * size as u32 };
        ok &= (p.generation() == calls as usize) & (p.stagnation() == since) & (p.len() == size);
        for x in p.iter() {
            ok &= (x.id >= first) & (x.id < first + size as u32) & (x.evaluations == 1);
        }
        calls += 1;
        ok && calls as usize <= stop
    });
    check(ok, "the closure sees each generation once, with its number and stagnation");
    check(p.generation() == stop, "the run goes on while the closure returns true");
    cover("endless");
}

entries! {
    quick c26_endless_ga => endless::<GeneticAlgorithm<BigModel>>(ga(1, 0.0, 0.5, 0.5), 1, 66_000);
    quick c26_endless_aga => endless::<AdaptiveGeneticAlgorithm<BigModel>>(aga(1, 0.0, 0.0..1.0, 0.0..1.0), 1, 66_000);
    quick c26_endless_ga_2 => endless::<GeneticAlgorithm<BigModel>>(ga(2, 0.0, 0.5, 0.5), 2, 4_200);
    quick c26_history_ga_300 => history::<GeneticAlgorithm<BigModel>>(ga(2, 0.0, 0.5, 0.5), 2, 0, 300);
    quick c26_history_ga_3 => history::<GeneticAlgorithm<BigModel>>(ga(3, 0.0, 0.5, 0.5), 3, 0, 40);
    quick c26_history_ga_20 => history::<GeneticAlgorithm<BigModel>>(ga(20, 0.1, 0.5, 0.5), 20, 2, 12);
    quick c26_history_ga_100 => history::<GeneticAlgorithm<BigModel>>(ga(100, 0.0, 0.5, 0.5), 100, 0, 3);
    quick c26_history_aga_3 => history::<AdaptiveGeneticAlgorithm<BigModel>>(aga(3, 0.0, 0.0..1.0, 0.0..1.0), 3, 0, 40);
    quick c26_history_aga_20 => history::<AdaptiveGeneticAlgorithm<BigModel>>(aga(20, 0.1, 0.0..1.0, 0.0..1.0), 20, 2, 12);
    quick c26_history_aga_100 => history::<AdaptiveGeneticAlgorithm<BigModel>>(aga(100, 0.0, 0.0..1.0, 0.0..1.0), 100, 0, 3);
    quick c26_progress_ga_1 => progress::<Ga>(ga(1, 0.0, 0.5, 0.5));
    quick c26_progress_ga_2 => progress::<Ga>(ga(2, 0.5, 0.5, 0.5));
    quick c26_progress_aga_1 => progress::<Aga>(aga(1, 0.0, 0.0..1.0, 0.0..1.0));
    quick c26_progress_aga_2 => progress::<Aga>(aga(2, 0.5, 0.0..1.0, 0.0..1.0));
    quick/2 c26_long_ga_10 => progress_to::<Ga>(ga(1, 0.0, 0.5, 0.5), 10);
    quick/2 c26_long_aga_10 => progress_to::<Aga>(aga(1, 0.0, 0.0..1.0, 0.0..1.0), 10);
    quick c26_untouched_ga => untouched::<Ga>(ga(2, 0.5, 0.5, 0.5));
    quick c26_untouched_aga => untouched::<Aga>(aga(5, 0.5, 0.0..1.0, 0.0..1.0));
}
