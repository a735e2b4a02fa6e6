//! C05: what single point crossover does.
use crate::*;
use CrossoverStrategy::SinglePoint;

fn law<const N: usize>() {
    let p1 = any_genes::<N>(256);
    let p2 = any_genes::<N>(256);
    let mut point = pick(N + 3);
    if point == N + 2 {
        point = usize::MAX;
    }
    let o = single_point_crossover(&p1, &p2, point);
    check(o.len() == N, "the offspring is as long as its parents");
    let mut ok = true;
    for i in 0..N {
        ok &= o[i] == if i < point { p1[i] } else { p2[i] };
    }
    check(ok, "parent 1 before the point, parent 2 from it on");
    observe_all(&o);
    cover("offspring");
}

fn strategy<const N: usize>() {
    let p1 = any_genes::<N>(256);
    let p2 = any_genes::<N>(256);
    let o = SinglePoint.crossover(&p1, &p2, &mut SymRng);
    check(o.len() == N, "the offspring is as long as its parents");
    let mut any = false;
    for point in 0..=N {
        let mut ok = true;
        for i in 0..N {
            ok &= o[i] == if i < point { p1[i] } else { p2[i] };
        }
        any |= ok;
    }
    check(any, "a head of parent 1 followed by the tail of parent 2");
    observe_all(&o);
    cover("offspring");
}

/// Every proper cut comes up.
fn cuts<const N: usize>() {
    let p1 = [0u8; N];
    let p2 = [1u8; N];
    let o = SinglePoint.crossover(&p1, &p2, &mut SymRng);
    let ones = count(&o, 1) as usize;
    for k in 1..N {
        reach(ones == k, "a cut leaves this many genes of parent 2", k as u64);
    }
    cover("cut");
}

entries! {
    quick c05_law_130 => law::<130>();
    quick c05_strategy_70 => strategy::<70>();
    quick c05_cuts_70 => cuts::<70>();
    quick c05_law_0 => law::<0>();
    quick c05_law_1 => law::<1>();
    quick c05_law_2 => law::<2>();
    quick c05_law_3 => law::<3>();
    quick c05_law_5 => law::<5>();
    quick c05_law_8 => law::<8>();
    quick c05_law_33 => law::<33>();
    quick c05_law_65 => law::<65>();
    quick c05_strategy_20 => strategy::<20>();
    quick c05_cuts_20 => cuts::<20>();
    quick c05_law_16 => law::<16>();
    quick c05_strategy_1 => strategy::<1>();
    quick c05_strategy_2 => strategy::<2>();
    quick c05_strategy_3 => strategy::<3>();
    quick c05_strategy_5 => strategy::<5>();
    quick c05_strategy_8 => strategy::<8>();
    quick c05_cuts_2 => cuts::<2>();
    quick c05_cuts_4 => cuts::<4>();
    quick c05_cuts_6 => cuts::<6>();
    quick c05_cuts_12 => cuts::<12>();
}
