//! C34: an individual is valid if its fitness is a finite number.
use crate::*;

fn valid() {
    let x = vpq::f64();
    let e = x.to_bits() >> 52 & 0x7ff;
    check(ind(x, 0).is_valid() == (e != 0x7ff), "valid if and only if neither infinite nor NaN");
    cover("checked");
}

struct Model;

impl EvolutionModel for Model {
    type Individual = Ind;
    type Rng = SymRng;
    fn rng() -> SymRng {
        SymRng
    }
    fn crossover(&self, p: &Ind, _: &Ind, _: &mut SymRng) -> Ind {
        p.clone()
    }
    fn mutate(&self, _: &mut Ind, _: &mut SymRng) {}
    fn evaluate(&self, _: &mut Ind) {}
}

/// The initial population drops exactly the invalid ones.
fn initial<const N: usize>() {
    let ga = GeneticAlgorithm::from(Model);
    let fits: [f64; N] = std::array::from_fn(|_| vpq::f64());
    let v: Vec<Ind> = (0..N).map(|i| ind(fits[i], i as u8)).collect();
    let mut valid = 0usize;
    for f in fits {
        valid += f.is_finite() as usize;
    }
    if valid == 0 {
        vpq::expect_panic("no valid individual");
    }
    let p = ga.initialize_population(v);
    check(p.len() == valid, "every valid individual is kept and every invalid one removed");
    let mut ok = true;
    for x in p.iter() {
        ok &= x.is_valid();
    }
    check(ok, "no individual of the population is invalid");
    cover("population");
}

/// More individuals, some stretch of which is invalid, and a few are arbitrary.
fn stretch<const N: usize>() {
    let ga = GeneticAlgorithm::from(Model);
    let bounds = [0, 1, N / 3, N / 2, N - 9, N - 1, N];
    let (a, b) = (bounds[pick(7)], bounds[pick(7)]);
    assume(a <= b);
    let outside = pick(2) == 1;
    let mut fits: [f64; N] = std::array::from_fn(|i| if ((a..b).contains(&i)) != outside { f64::NAN } else { (i * 7 % N) as f64 });
    fits[N / 4] = [1e300, f64::NEG_INFINITY][pick(2)];
    let mut valid = 0usize;
    for f in fits {
        valid += f.is_finite() as usize;
    }
    if valid == 0 {
        vpq::expect_panic("no valid individual");
    }
    let v: Vec<Ind> = (0..N).map(|i| ind(fits[i], i as u8)).collect();
    let p = ga.initialize_population(v);
    let mut ok = p.len() == valid;
    let mut seen = [false; N];
    for x in p.iter() {
        ok &= x.is_valid() & !seen[x.tag as usize];
        seen[x.tag as usize] = true;
    }
    check(ok, "every valid individual is kept and every invalid one removed");
    cover("population");
}

/// More individuals, four of them arbitrary.
fn many<const N: usize>() {
    let ga = GeneticAlgorithm::from(Model);
    let mut fits: [f64; N] = std::array::from_fn(|i| if i % 5 == 2 { f64::NAN } else { (i * 7 % N) as f64 });
    for i in [0, N / 3, N / 2, N - 1] {
        fits[i] = [1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN][pick(4)];
    }
    let v: Vec<Ind> = (0..N).map(|i| ind(fits[i], i as u8)).collect();
    let mut valid = 0u128;
    for i in 0..N {
        valid |= (fits[i].is_finite() as u128) << i;
    }
    let p = ga.initialize_population(v);
    let mut ok = 0u128;
    for x in p.iter() {
        ok |= (x.is_valid() as u128) << x.tag;
    }
    check((p.len() == valid.count_ones() as usize) & (ok == valid), "every valid individual is kept and every invalid one removed");
    cover("population");
}

entries! {
    quick c34_many_12 => many::<12>();
    quick c34_many_33 => many::<33>();
    quick c34_many_70 => many::<70>();
    quick c34_stretch_20 => stretch::<20>();
    quick c34_stretch_40 => stretch::<40>();
    quick c34_stretch_130 => stretch::<130>();
    quick c34_stretch_250 => stretch::<250>();
    quick c34_valid => valid();
    quick c34_initial_1 => initial::<1>();
    quick c34_initial_2 => initial::<2>();
    quick c34_initial_3 => initial::<3>();
}
