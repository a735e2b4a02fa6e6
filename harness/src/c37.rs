//! C37: crossover of genomes of different lengths, and of the shortest ones.
use crate::*;
use CrossoverStrategy::*;

const ALL: [CrossoverStrategy; 7] =
    [GeneralizedPartition2, SequentialConstructive, EdgeRecombination, PartiallyMapped, Order, Cycle, SinglePoint];

fn mismatch<const N: usize, const M: usize>() {
    let a: [u8; N] = std::array::from_fn(|_| vpq::u8());
    let b: [u8; M] = std::array::from_fn(|_| vpq::u8());
    let s = ALL[pick(7)];
    vpq::expect_panic("the genomes have different lengths");
    s.crossover(&a, &b, &mut SymRng);
}

/// The operators themselves.
fn direct<const N: usize, const M: usize>() {
    let a = ident::<N>();
    let b = ident::<M>();
    let k = pick(6);
    vpq::expect_panic("the genomes have different lengths");
    let least = if N < M { N } else { M };
    match k {
        0 => sequential_constructive_crossover(&a, &b, 0),
        1 => edge_recombination_crossover(&a, &b, 0),
        2 => partially_mapped_crossover(&a, &b, 0..least),
        3 => order_crossover(&a, &b, 0..least),
        4 => cycle_crossover(&a, &b),
        _ => single_point_crossover(&a, &b, pick(least + 1)),
    };
}

fn empty() {
    let s = ALL[pick(7)];
    let o = s.crossover::<u8, _>(&[], &[], &mut SymRng);
    check(o.is_empty(), "two empty genomes have an empty offspring");
    cover("empty");
}

fn single() {
    let g = vpq::u8();
    let s = ALL[pick(7)];
    let o = s.crossover(&[g], &[g], &mut SymRng);
    check(o.len() == 1 && o[0] == g, "the offspring of the same single gene is that gene");
    cover("single");
}

entries! {
    quick c37_mismatch_12 => mismatch::<1, 2>();
    quick c37_mismatch_21 => mismatch::<2, 1>();
    quick c37_mismatch_34 => mismatch::<3, 4>();
    quick c37_mismatch_52 => mismatch::<5, 2>();
    quick c37_mismatch_01 => mismatch::<0, 1>();
    quick c37_mismatch_20 => mismatch::<2, 0>();
    quick c37_direct_12 => direct::<1, 2>();
    quick c37_direct_21 => direct::<2, 1>();
    quick c37_direct_34 => direct::<3, 4>();
    quick c37_direct_53 => direct::<5, 3>();
    quick c37_direct_01 => direct::<0, 1>();
    quick c37_direct_40 => direct::<40, 41>();
    quick c37_direct_65 => direct::<65, 64>();
    quick c37_mismatch_17 => mismatch::<16, 17>();
    quick c37_mismatch_40 => mismatch::<40, 33>();
    quick c37_empty => empty();
    quick c37_single => single();
}
