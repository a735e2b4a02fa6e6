//! C01: permutation crossovers produce permutations.
use crate::*;
use CrossoverStrategy::*;

/// Parent 1 is the identity: the operators only compare, order and hash genes, and relabelling the
/// genes of both parents relabels the offspring (`closure2` keeps both parents arbitrary).
fn closure<const N: usize>(s: CrossoverStrategy) {
    let p1 = ident::<N>();
    let p2 = any_perm::<N>();
    run::<N>(s, &p1, &p2);
}

fn closure2<const N: usize>(s: CrossoverStrategy) {
    let p1 = any_perm::<N>();
    let p2 = any_perm::<N>();
    run::<N>(s, &p1, &p2);
}

fn run<const N: usize>(s: CrossoverStrategy, p1: &[u8], p2: &[u8]) {
    let o = s.crossover(p1, p2, &mut SymRng);
    check(o.len() == N, "the offspring is as long as its parents");
    check(
        is_perm::<N>(&o),
        "the offspring holds every gene of its parents exactly once",
    );
    if s == Cycle || s == PartiallyMapped || s == Order || s == SequentialConstructive || s == GeneralizedPartition2 {
        observe_all(&o);
    }
    cover("offspring");
}

/// Long genomes.
fn wide<const N: usize>(s: CrossoverStrategy, p1: [u8; N], p2: [u8; N]) {
    one_order();
    run::<N>(s, &p1, &p2);
}

entries! {
    huge c01_huge_cx_70 => wide::<70>(Cycle, ident(), scattered(stride(3), [0, 69]));
    huge c01_huge_scx_70 => wide::<70>(SequentialConstructive, ident(), scattered(stride(3), [0, 69]));
    huge c01_huge_gpx_70 => wide::<70>(GeneralizedPartition2, ident(), scattered(stride(1), [0, 69]));
    wide c01_wide_pmx_12 => wide::<12>(PartiallyMapped, stride(5), scattered(reversed(), [1, 5, 10]));
    wide c01_wide_pmx_24 => wide::<24>(PartiallyMapped, ident(), scattered(stride(7), [0, 23]));
    wide c01_wide_ox_12 => wide::<12>(Order, stride(5), scattered(reversed(), [1, 5, 10]));
    wide c01_wide_ox_24 => wide::<24>(Order, ident(), scattered(stride(7), [0, 23]));
    wide c01_wide_cx_14 => wide::<14>(Cycle, stride(5), scattered(reversed(), [1, 5, 10, 13]));
    wide c01_wide_cx_32 => wide::<32>(Cycle, ident(), scattered(stride(7), [0, 15, 31]));
    wide c01_wide_scx_12 => wide::<12>(SequentialConstructive, stride(5), scattered(reversed(), [1, 5, 10]));
    wide c01_wide_scx_24 => wide::<24>(SequentialConstructive, ident(), scattered(stride(7), [0, 23]));
    wide c01_wide_erx_12 => wide::<12>(EdgeRecombination, stride(5), scattered(reversed(), [1, 5, 10]));
    wide c01_wide_erx_24 => wide::<24>(EdgeRecombination, ident(), scattered(stride(7), [0, 23]));
    wide c01_wide_gpx_12 => wide::<12>(GeneralizedPartition2, stride(5), scattered(stride(5), [1, 10]));
    wide c01_wide_gpx_24 => wide::<24>(GeneralizedPartition2, ident(), scattered(ident(), [0, 23]));
    quick c01_pmx_1 => closure::<1>(PartiallyMapped);
    quick c01_pmx_2 => closure2::<2>(PartiallyMapped);
    quick c01_pmx_3 => closure2::<3>(PartiallyMapped);
    quick c01_pmx_4 => closure2::<4>(PartiallyMapped);
    quick c01_pmx_5 => closure::<5>(PartiallyMapped);
    quick/2 c01_pmx_6 => closure::<6>(PartiallyMapped);
    thorough/8 c01_pmx_7 => closure::<7>(PartiallyMapped);
    quick c01_ox_1 => closure::<1>(Order);
    quick c01_ox_2 => closure2::<2>(Order);
    quick c01_ox_3 => closure2::<3>(Order);
    quick c01_ox_4 => closure2::<4>(Order);
    quick c01_ox_5 => closure::<5>(Order);
    thorough/4 c01_ox_6 => closure::<6>(Order);
    quick c01_cx_1 => closure::<1>(Cycle);
    quick c01_cx_2 => closure2::<2>(Cycle);
    quick c01_cx_3 => closure2::<3>(Cycle);
    quick c01_cx_4 => closure2::<4>(Cycle);
    quick c01_cx_5 => closure::<5>(Cycle);
    quick c01_cx_6 => closure::<6>(Cycle);
    thorough/2 c01_cx_7 => closure::<7>(Cycle);
    quick c01_scx_1 => closure::<1>(SequentialConstructive);
    quick c01_scx_2 => closure2::<2>(SequentialConstructive);
    quick c01_scx_3 => closure2::<3>(SequentialConstructive);
    quick c01_scx_4 => closure::<4>(SequentialConstructive);
    quick c01_scx_5 => closure::<5>(SequentialConstructive);
    thorough/4 c01_scx_6 => closure::<6>(SequentialConstructive);
    quick c01_erx_1 => closure::<1>(EdgeRecombination);
    quick c01_erx_2 => closure2::<2>(EdgeRecombination);
    quick c01_erx_3 => closure2::<3>(EdgeRecombination);
    quick c01_erx_4 => closure::<4>(EdgeRecombination);
    quick/2 c01_erx_5 => closure::<5>(EdgeRecombination);
    thorough/8 c01_erx_6 => closure::<6>(EdgeRecombination);
    quick c01_gpx_1 => closure::<1>(GeneralizedPartition2);
    quick c01_gpx_2 => closure2::<2>(GeneralizedPartition2);
    quick c01_gpx_3 => closure2::<3>(GeneralizedPartition2);
    quick c01_gpx_4 => closure::<4>(GeneralizedPartition2);
    quick/2 c01_gpx_5 => closure::<5>(GeneralizedPartition2);
    thorough/8 c01_gpx_6 => closure::<6>(GeneralizedPartition2);
}
