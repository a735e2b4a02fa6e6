//! C38: the selection mechanisms' parameters.
use crate::*;

fn tournament() {
    let n = vpq::u64() as usize;
    let m = vpq::u64() as usize;
    if (n == 0) | (m == 0) {
        vpq::expect_panic("a tournament of none");
    }
    let mut t = TournamentSelection::new(n);
    check(t.size() == n, "the size is the one given");
    t.set_size(m);
    check(t.size() == m, "the size is the one set");
    cover("tournament");
}

fn elitist() {
    let a = vpq::f64();
    let b = vpq::f64();
    let ok = |r: f64| (r >= 0.0) & (r < 1.0);
    if !(ok(a) & ok(b)) {
        vpq::expect_panic("the ratio is not in 0..1");
    }
    let mut e = ElitistSelection::new(a);
    check(e.ratio() == a, "the ratio is the one given");
    e.set_ratio(b);
    check(e.ratio() == b, "the ratio is the one set");
    cover("elitist");
}

fn boltzmann() {
    let (t, c, u, d) = (vpq::f64(), vpq::f64(), vpq::f64(), vpq::f64());
    if (c == 0.0) | (d == 0.0) {
        vpq::expect_panic("the cooling rate is zero");
    }
    let mut b = BoltzmannSelection::new(t, c);
    check(
        (b.temperature().to_bits() == t.to_bits()) & (b.cooling_rate().to_bits() == c.to_bits()),
        "the parameters are those given",
    );
    b.set_temperature(u);
    b.set_cooling_rate(d);
    check(
        (b.temperature().to_bits() == u.to_bits()) & (b.cooling_rate().to_bits() == d.to_bits()),
        "the parameters are those set",
    );
    cover("boltzmann");
}

/// Each generation cools down once.
fn cooling(t: f64, c: f64) {
    let mut b = BoltzmannSelection::new(t, c);
    let p = ranked::<2>();
    let n = pick(5);
    let mut want = t;
    for _ in 0..n {
        SelectionMechanism::<Ind, SymRng>::prepare(&mut b, &p);
        want *= c;
        check(near(b.temperature(), want, 1e-9 * want), "each preparation multiplies the temperature by the cooling rate");
        check(b.cooling_rate() == c, "the cooling rate stays");
        let before = b.temperature();
        let (i, _) = b.select(&p, &mut SymRng);
        check(i < 2 && b.temperature() == before, "selecting does not change the temperature");
    }
    cover("cooled");
}

fn linear() {
    let (a, b) = (vpq::f64(), vpq::f64());
    let mut l = LinearSelection::new(a);
    check(l.bias().to_bits() == a.to_bits(), "the bias is the one given");
    l.set_bias(b);
    check(l.bias().to_bits() == b.to_bits(), "the bias is the one set");
    cover("linear");
}

/// The selector a strategy creates has the parameters of the strategy.
fn strategy() {
    let ok;
    let s = match pick(4) {
        0 => {
            let n = below(4);
            ok = n != 0;
            SelectionStrategy::Tournament(n)
        }
        1 => {
            let c = vpq::f64();
            ok = c != 0.0;
            SelectionStrategy::Boltzmann(vpq::f64(), c)
        }
        2 => {
            let r = vpq::f64();
            ok = (r >= 0.0) & (r < 1.0);
            SelectionStrategy::Elitist(r)
        }
        _ => {
            ok = true;
            [SelectionStrategy::Linear(1.5), SelectionStrategy::Rank, SelectionStrategy::RouletteWheel][pick(3)]
        }
    };
    if !ok {
        vpq::expect_panic("the parameter is not valid");
    }
    s.create_selector::<Ind, SymRng>();
    cover("created");
}

entries! {
    quick c38_tournament => tournament();
    quick c38_elitist => elitist();
    quick c38_boltzmann => boltzmann();
    quick c38_cooling_1 => cooling(8.0, 0.5);
    quick c38_cooling_2 => cooling(3.0, 0.9);
    quick c38_cooling_3 => cooling(0.5, 1.25);
    quick c38_linear => linear();
    quick c38_strategy => strategy();
}
