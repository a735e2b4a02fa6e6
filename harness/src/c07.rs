//! C07: what edge recombination crossover does.
use crate::*;

fn law<const N: usize>(p1: [u8; N]) {
    law_of::<N>(p1, any_perm());
}

fn law_of<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let pivot = pick(N) as u8;
    let o = edge_recombination_crossover(&p1, &p2, pivot);
    // a long genome is decided by now
    let p2 = if N > 8 { p2.map(|g| vpq::concretize(g as u64) as u8) } else { p2 };
    check(o.len() == N, "the offspring is as long as its parents");
    check(o[0] == pivot, "the offspring starts with the pivot");
    // neighbours of each gene in either parent, as a set of bits
    let mut nb = [0u32; N];
    for p in [&p1, &p2] {
        for i in 0..N {
            let both = 1u32 << (p[(i + 1) % N] & 31) | 1u32 << (p[(i + N - 1) % N] & 31);
            for g in 0..N {
                nb[g] |= if p[i] as usize == g { both } else { 0 };
            }
        }
    }
    let mut left = (1u32 << N) - 1;
    for i in 1..N {
        let cur = o[i - 1];
        left &= !(1 << (cur & 31));
        let got = o[i];
        let mut cand = 0;
        let mut mine = 0;
        for g in 0..N {
            cand |= if cur as usize == g { nb[g] & left } else { 0 };
            mine |= if got as usize == g { nb[g] & left } else { 0 };
        }
        check(left >> (got & 31) & 1 == 1, "no gene comes twice");
        check(
            (cand == 0) | (cand >> (got & 31) & 1 == 1),
            "the next gene is a neighbour of the current one if one is left",
        );
        let mut best = true;
        for g in 0..N {
            best &= (cand >> g & 1 == 0) | (bits::<N>(mine) <= bits::<N>(nb[g] & left));
        }
        check((cand == 0) | best, "the neighbour with the fewest neighbours left is taken");
    }
    cover("offspring");
}

fn wide<const N: usize>(p2: [u8; N]) {
    one_order();
    law_of::<N>(ident(), p2);
}

fn bits<const N: usize>(x: u32) -> u32 {
    let mut n = 0;
    for i in 0..N {
        n += x >> i & 1;
    }
    n
}

/// The same for genomes too long for `law_of`.
fn far<const N: usize>(p1: [u8; N], p2: [u8; N], pivot: u8) {
    one_order();
    let o = edge_recombination_crossover(&p1, &p2, pivot);
    let p2 = decided(p2);
    check(o.len() == N && o[0] == pivot, "the offspring is as long as its parents and starts with the pivot");
    let mut nb = [0u128; N];
    for p in [&p1, &p2] {
        for i in 0..N {
            nb[p[i] as usize] |= 1 << p[(i + 1) % N] | 1 << p[(i + N - 1) % N];
        }
    }
    let mut left = u128::MAX >> (128 - N);
    let (mut fresh, mut follows, mut fewest) = (true, true, true);
    for i in 1..N {
        let cur = vpq::concretize(o[i - 1] as u64) as usize;
        let got = vpq::concretize(o[i] as u64) as usize;
        left &= !(1 << cur);
        let cand = nb[cur] & left;
        fresh &= left >> got & 1 == 1;
        follows &= (cand == 0) | (cand >> got & 1 == 1);
        for g in 0..N {
            fewest &= (cand >> g & 1 == 0) | ((nb[got] & left).count_ones() <= (nb[g] & left).count_ones());
        }
    }
    check(fresh, "no gene comes twice");
    check(follows, "the next gene is a neighbour of the current one if one is left");
    check(fewest, "the neighbour with the fewest neighbours left is taken");
    cover("offspring");
}

/// Parents where some neighbour of a gene on the way can have no neighbours left while another one
/// has a single one, which needs eight genes at least and then is rare.
fn dead_end() {
    const P: [([u8; 9], u8); 24] = [
        ([0, 1, 7, 8, 3, 4, 6, 5, 2], 8),
        ([1, 5, 4, 8, 2, 3, 6, 7, 0], 1),
        ([4, 5, 0, 8, 3, 1, 2, 6, 7], 0),
        ([4, 0, 8, 2, 3, 1, 7, 5, 6], 7),
        ([3, 5, 0, 1, 6, 2, 7, 8, 4], 8),
        ([6, 7, 1, 4, 3, 5, 8, 0, 2], 2),
        ([3, 1, 0, 4, 8, 6, 7, 5, 2], 8),
        ([0, 3, 2, 6, 7, 5, 4, 8, 1], 3),
        ([5, 4, 6, 1, 2, 7, 3, 8, 0], 0),
        ([7, 2, 3, 5, 0, 1, 8, 4, 6], 2),
        ([3, 0, 4, 5, 2, 1, 6, 8, 7], 0),
        ([7, 3, 8, 5, 4, 0, 2, 1, 6], 3),
        ([8, 6, 7, 1, 5, 3, 4, 2, 0], 2),
        ([3, 6, 5, 0, 8, 4, 7, 2, 1], 7),
        ([3, 4, 6, 7, 5, 2, 0, 1, 8], 8),
        ([5, 1, 4, 3, 0, 7, 8, 2, 6], 2),
        ([7, 0, 1, 6, 5, 8, 3, 2, 4], 8),
        ([3, 5, 4, 7, 6, 2, 0, 1, 8], 8),
        ([3, 6, 5, 1, 2, 8, 0, 7, 4], 5),
        ([1, 2, 6, 4, 5, 3, 0, 7, 8], 6),
        ([1, 3, 4, 8, 0, 2, 6, 7, 5], 8),
        ([1, 6, 2, 3, 0, 7, 8, 4, 5], 4),
        ([7, 2, 4, 3, 6, 5, 0, 1, 8], 6),
        ([2, 6, 8, 7, 1, 0, 4, 5, 3], 1),
    ];
    let (p, pivot) = P[pick(24)];
    let (a, b) = if pick(2) == 1 { (p, ident()) } else { (ident(), p) };
    let (a, b) = match pick(3) {
        0 => (a, b),
        1 => (backwards(a), b),
        _ => (a, backwards(b)),
    };
    far::<9>(a, b, pivot);
}

fn backwards(mut p: [u8; 9]) -> [u8; 9] {
    p.reverse();
    p
}

/// Every gene can be the pivot.
fn pivots<const N: usize>() {
    one_order();
    let p: [u8; N] = ident();
    let o = CrossoverStrategy::EdgeRecombination.crossover(&p, &p, &mut SymRng);
    for g in 0..N {
        reach(o[0] == g as u8, "a gene is the pivot", g as u64);
    }
    cover("offspring");
}

entries! {
    wide c07_dead_end => dead_end();
    quick c07_pivots_3 => pivots::<3>();
    wide c07_pivots_36 => pivots::<36>();
    huge c07_huge_70 => far::<70>(ident(), scattered(stride(9), [3, 65]), 0);
    huge c07_huge_70r => far::<70>(stride(3), scattered(reversed(), [30, 69]), 69);
    quick c07_law_2 => law::<2>(any_perm());
    quick c07_law_3 => law::<3>(any_perm());
    quick c07_law_4 => law::<4>(ident());
    quick/8 c07_law_5 => law::<5>(ident());
    wide c07_wide_9 => wide::<9>(scattered(ident(), [1, 4, 7]));
    wide c07_wide_12 => wide::<12>(scattered(ident(), [1, 4, 7, 10]));
    wide c07_wide_13 => wide::<13>(scattered(stride(5), [0, 2, 12]));
    wide c07_wide_20 => wide::<20>(scattered(stride(7), [3, 17]));
    thorough/8 c07_law_6 => law::<6>(ident());
}
