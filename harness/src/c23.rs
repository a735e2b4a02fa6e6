//! C23: breeding: the steps, the rates, and keep-best reproduction.
use crate::*;
use std::cell::Cell;

/// What happened to an individual: 1 crossed, 2 mutated, 3 improved, 4 evaluated, oldest first.
#[derive(Clone, Debug)]
struct Bug {
    id: u8,
    fit: f64,
    steps: u32,
    from: (u8, u8),
}

impl PartialEq for Bug {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}

impl Individual for Bug {
    fn fitness(&self) -> f64 {
        self.fit
    }
}

fn bug(id: u8, fit: f64) -> Bug {
    Bug { id, fit, steps: 0, from: (99, 99) }
}

const OFFSPRING: u8 = 50;

struct Model {
    fit: f64,
}

impl EvolutionModel for Model {
    type Individual = Bug;
    type Rng = LogRng;
    fn rng() -> LogRng {
        LogRng::new()
    }
    fn crossover(&self, a: &Bug, b: &Bug, _: &mut LogRng) -> Bug {
        Bug { id: OFFSPRING, fit: -1e9, steps: 1, from: (a.id, b.id) }
    }
    fn mutate(&self, x: &mut Bug, _: &mut LogRng) {
        x.steps = x.steps * 8 + 2;
        x.id = OFFSPRING;
    }
    fn improve(&self, x: &mut Bug) {
        x.steps = x.steps * 8 + 3;
        x.id = OFFSPRING;
    }
    fn evaluate(&self, x: &mut Bug) {
        x.steps = x.steps * 8 + 4;
        x.fit = self.fit;
    }
}

/// Selects at scripted indices, without the generator.
struct Script {
    at: [u8; 8],
    next: Cell<usize>,
}

unsafe impl Sync for Script {}

impl SelectionMechanism<Bug, LogRng> for Script {
    fn prepare(&mut self, _: &Population<Bug>) {}
    fn select<'a>(&self, p: &'a Population<Bug>, _: &mut LogRng) -> (usize, &'a Bug) {
        let k = self.next.get();
        self.next.set(k + 1);
        let i = self.at[k.min(7)] as usize;
        (i, &p[i])
    }
}

struct Run {
    out: Bug,
    parents: [u8; 4],
    rng: LogRng,
    fits: [f64; 3],
}

fn breed<const N: usize>(fits: [f64; N], offspring: f64, crossover_rate: f64, mutation_rate: f64) -> (Bug, [u8; 4], LogRng, Population<Bug>) {
    let p = Population::new((0..N).map(|i| bug(i as u8, fits[i])).collect());
    let at: [u8; 4] = std::array::from_fn(|k| if k == 0 || N > 1 { pick(p.len()) as u8 } else { 0 });
    // a fourth try would find another one
    let other = if N > 1 { (at[0] + 1) % N as u8 } else { 0 };
    let ids: [u8; 4] = std::array::from_fn(|k| p[at[k] as usize].id);
    let params = ReproductionParameters::<Model> {
        crossover_rate,
        mutation_rate,
        parent_selector: Box::new(Script { at: [at[0], at[1], at[2], at[3], other, other, other, other], next: Cell::new(0) }),
    };
    let m = Model { fit: offspring };
    let mut rng = LogRng::new();
    let out = m.breed(&p, &params, &mut rng);
    (out, ids, rng, p)
}

/// The second parent: the first of three selected that differs from the first parent.
fn second(ids: &[u8; 4]) -> Option<u8> {
    ids[1..].iter().copied().find(|&i| i != ids[0])
}

fn fit_of(p: &Population<Bug>, id: u8) -> f64 {
    let mut f = f64::NAN;
    for x in p.iter() {
        if x.id == id {
            f = x.fit;
        }
    }
    f
}

/// What must come out, given whether there was a crossover.
fn outcome(out: &Bug, p: &Population<Bug>, ids: &[u8; 4], offspring: f64, crossed: bool) {
    let mut best = ids[0];
    let mut best_fit = fit_of(p, ids[0]);
    if crossed {
        let s = second(ids).unwrap();
        let f = fit_of(p, s);
        if f > best_fit {
            best = s;
            best_fit = f;
        }
    }
    if offspring.is_finite() && offspring >= best_fit {
        check(out.id == OFFSPRING, "a valid offspring at least as fit as its parents survives");
        check(out.fit == offspring, "the offspring has its evaluated fitness");
        cover("offspring");
    } else {
        check(out.id != OFFSPRING, "an invalid or less fit offspring does not survive");
        check(out.fit == best_fit, "the fittest parent takes its place");
        check(out.steps == 0 && (out.id == best || fit_of(p, out.id) == best_fit), "the parent is unchanged");
        cover("parent");
    }
}

/// Rates of 0 and 1: the steps are certain. Any fitness values.
fn certain<const N: usize>(crossover: bool, mutation: bool) {
    let fits: [f64; N] = std::array::from_fn(|_| below(4) as f64);
    let offspring = if vpq::bool() { below(6) as f64 - 1.0 } else { [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][pick(3)] };
    let (out, ids, _, p) = breed::<N>(fits, offspring, crossover as u8 as f64, mutation as u8 as f64);
    let crossed = crossover && N > 1 && second(&ids).is_some();
    outcome(&out, &p, &ids, offspring, crossed);
    if out.id == OFFSPRING {
        let mut want = 0;
        if crossed {
            want = 1;
            check(out.from == (ids[0], second(&ids).unwrap()), "the offspring is crossed from the two parents in order");
        }
        if mutation {
            want = want * 8 + 2;
        }
        want = (want * 8 + 3) * 8 + 4;
        check(out.steps == want, "crossover, mutation, improvement and evaluation each happen once, in this order");
    }
}

/// Any fitness values at all, and the steps are certain.
fn any_fitness<const N: usize>(crossover: bool, mutation: bool) {
    let fits: [f64; N] = std::array::from_fn(|_| any_finite());
    let offspring = vpq::f64();
    let (out, ids, _, p) = breed::<N>(fits, offspring, crossover as u8 as f64, mutation as u8 as f64);
    let crossed = crossover && N > 1 && second(&ids).is_some();
    let a = fit_of(&p, ids[0]);
    let b = if crossed { fit_of(&p, second(&ids).unwrap()) } else { a };
    let parent = if b > a { b } else { a };
    if offspring.is_finite() & (offspring >= parent) {
        check(out.id == OFFSPRING, "a valid offspring at least as fit as its parents survives");
        cover("offspring");
    } else {
        check(out.id != OFFSPRING, "an invalid or less fit offspring does not survive");
        check(out.fit == parent, "the fittest parent takes its place");
        check((out.id == ids[0]) | (crossed && out.id == second(&ids).unwrap()), "the one that is returned is a parent");
        cover("parent");
    }
}

/// Any rates: a step happens if a number of [0, 1) drawn for it is below its rate.
fn rates<const N: usize>() {
    let (c, m) = (vpq::f64(), vpq::f64());
    assume((c >= 0.0) & (c <= 1.0) & (m >= 0.0) & (m <= 1.0));
    let fits: [f64; N] = std::array::from_fn(|i| i as f64);
    let (out, ids, rng, _) = breed::<N>(fits, 100.0, c, m);
    check(out.id == OFFSPRING, "a valid offspring at least as fit as its parents survives");
    let mut steps = out.steps;
    check(steps & 63 == 3 * 8 + 4, "improvement and evaluation come last");
    steps >>= 6;
    let mutated = steps & 7 == 2;
    if mutated {
        steps >>= 3;
    }
    let crossed = steps == 1;
    check(steps <= 1, "crossover comes first");
    check((rng.n >= 1) & (rng.n <= 2), "a number is drawn for each of the two steps");
    let (u, v) = (rng.unit(0), rng.unit(1));
    let m_below = (u < m) | (rng.n == 2) & (v < m);
    let m_above = (u >= m) | (rng.n == 2) & (v >= m);
    check(if mutated { m_below } else { m_above }, "the offspring is mutated with the mutation rate");
    if N > 1 && second(&ids).is_some() {
        let c_below = (u < c) | (rng.n == 2) & (v < c);
        let c_above = (u >= c) | (rng.n == 2) & (v >= c);
        check(if crossed { c_below } else { c_above }, "the parents are crossed with the crossover rate");
    } else {
        check(!crossed, "a single parent is not crossed");
    }
    cover("bred");
}

/// A model with its own survival rule.
struct Own(bool);

impl EvolutionModel for Own {
    type Individual = Bug;
    type Rng = LogRng;
    fn rng() -> LogRng {
        LogRng::new()
    }
    fn crossover(&self, a: &Bug, b: &Bug, _: &mut LogRng) -> Bug {
        Bug { id: OFFSPRING, fit: 0.0, steps: 1, from: (a.id, b.id) }
    }
    fn mutate(&self, x: &mut Bug, _: &mut LogRng) {
        x.id = OFFSPRING;
    }
    fn evaluate(&self, x: &mut Bug) {
        x.fit = if x.fit.is_nan() { x.fit } else { -5.0 };
        x.steps = 9;
    }
    fn can_survive(&self, o: &Bug, parent: &Bug, p: &Population<Bug>, _: &mut LogRng) -> bool {
        check((o.steps == 9) & (parent.steps == 0) & (p.len() == 2), "survival is decided after the evaluation");
        check(parent.id == 1, "against the fittest parent");
        self.0
    }
}

fn own_rule() {
    let survives = pick(2) == 1;
    let p = Population::new(vec![bug(0, 1.0), bug(1, 2.0)]);
    let a = pick(2) as u8;
    let params = ReproductionParameters::<Own> {
        crossover_rate: 1.0,
        mutation_rate: 1.0,
        parent_selector: Box::new(Script { at: [a, 1 - a, 0, 0, 0, 0, 0, 0], next: Cell::new(0) }),
    };
    let out = Own(survives).breed(&p, &params, &mut LogRng::new());
    check((out.id == OFFSPRING) == survives, "a model's own survival rule decides");
    if !survives {
        check(out.id == 1, "the fittest parent takes its place");
    }
    cover("own");
}

/// In a large population, the parents among a few of it.
fn large<const N: usize>(crossover: bool, mutation: bool) {
    let p = Population::new((0..N).map(|i| bug(i as u8 + 100, i as f64)).collect());
    let places = [0, 1, N / 2, N - 2, N - 1];
    let (first, second) = (places[pick(5)], places[pick(5)]);
    let wait = pick(5);
    let mut at = [second as u8; 8];
    for k in 0..=wait {
        at[k] = first as u8;
    }
    let params = ReproductionParameters::<Model> {
        crossover_rate: crossover as u8 as f64,
        mutation_rate: mutation as u8 as f64,
        parent_selector: Box::new(Script { at, next: Cell::new(0) }),
    };
    let crossed = crossover && first != second && wait < 3;
    let fittest = if crossed { first.max(second) } else { first };
    let offspring = fittest as f64 + [-0.5, 0.0, 0.5][pick(3)];
    let out = Model { fit: offspring }.breed(&p, &params, &mut LogRng::new());
    if offspring >= fittest as f64 {
        check(out.id == OFFSPRING, "a valid offspring at least as fit as its parents survives");
        let mut want = 0;
        if crossed {
            want = 1;
            check(out.from == (p[first].id, p[second].id), "the offspring is crossed from the two parents in order");
        }
        if mutation {
            want = want * 8 + 2;
        }
        check(out.steps == (want * 8 + 3) * 8 + 4, "crossover, mutation, improvement and evaluation each happen once, in this order");
        cover("offspring");
    } else {
        check((out.id == p[fittest].id) & (out.steps == 0), "the fittest parent takes its place");
        cover("parent");
    }
}

/// An individual that decides on its own what is valid.
#[derive(Clone, Debug, PartialEq)]
struct Picky {
    id: u8,
    fit: f64,
    valid: bool,
}

impl Individual for Picky {
    fn fitness(&self) -> f64 {
        self.fit
    }
    fn is_valid(&self) -> bool {
        self.valid
    }
}

struct PickyModel(f64, bool);

impl EvolutionModel for PickyModel {
    type Individual = Picky;
    type Rng = LogRng;
    fn rng() -> LogRng {
        LogRng::new()
    }
    fn crossover(&self, a: &Picky, _: &Picky, _: &mut LogRng) -> Picky {
        a.clone()
    }
    fn mutate(&self, x: &mut Picky, _: &mut LogRng) {
        x.id = OFFSPRING;
    }
    fn evaluate(&self, x: &mut Picky) {
        x.fit = self.0;
        x.valid = self.1;
        x.id = OFFSPRING;
    }
}

struct First;

impl SelectionMechanism<Picky, LogRng> for First {
    fn prepare(&mut self, _: &Population<Picky>) {}
    fn select<'a>(&self, p: &'a Population<Picky>, _: &mut LogRng) -> (usize, &'a Picky) {
        (0, &p[0])
    }
}

fn picky() {
    let (offspring, valid) = (vpq::f64(), pick(2) == 1);
    let p = Population::new(vec![Picky { id: 1, fit: any_finite(), valid: true }]);
    let params = ReproductionParameters::<PickyModel> {
        crossover_rate: 0.5,
        mutation_rate: 0.5,
        parent_selector: Box::new(First),
    };
    let out = PickyModel(offspring, valid).breed(&p, &params, &mut LogRng::new());
    if valid {
        // infinite fitness can be valid to a model
        assume(!offspring.is_nan());
        check((out.id == OFFSPRING) == (offspring >= p[0].fit), "a valid offspring survives if it is as fit as its parent");
        cover("valid");
    } else {
        check(out.id == 1, "an invalid offspring does not survive");
        cover("invalid");
    }
}

entries! {
    quick c23_large_4_11 => large::<4>(true, true);
    quick c23_large_12_10 => large::<12>(true, false);
    quick c23_large_12_01 => large::<12>(false, true);
    quick c23_large_70_11 => large::<70>(true, true);
    quick c23_large_130_10 => large::<130>(true, false);
    quick c23_picky => picky();
    quick c23_certain_1_00 => certain::<1>(false, false);
    quick c23_certain_1_11 => certain::<1>(true, true);
    quick c23_certain_2_00 => certain::<2>(false, false);
    quick c23_certain_2_01 => certain::<2>(false, true);
    quick c23_certain_2_10 => certain::<2>(true, false);
    quick c23_certain_2_11 => certain::<2>(true, true);
    quick c23_any_1_01 => any_fitness::<1>(false, true);
    quick c23_any_2_10 => any_fitness::<2>(true, false);
    quick c23_any_2_01 => any_fitness::<2>(false, true);
    quick c23_any_2_11 => any_fitness::<2>(true, true);
    thorough/2 c23_any_3_11 => any_fitness::<3>(true, true);
    thorough/2 c23_certain_3_10 => certain::<3>(true, false);
    thorough/2 c23_certain_3_11 => certain::<3>(true, true);
    quick c23_rates_1 => rates::<1>();
    quick c23_rates_2 => rates::<2>();
    quick c23_own => own_rule();
}
