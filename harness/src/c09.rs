//! C09: common neighbours and common partitions.
use crate::*;

fn adjacent(p: &[u8], a: u8, b: u8) -> bool {
    let n = p.len();
    let mut r = false;
    for i in 0..n {
        let j = if i + 1 == n { 0 } else { i + 1 };
        r |= (p[i] == a) & (p[j] == b) | (p[i] == b) & (p[j] == a);
    }
    r
}

fn neighbours<const N: usize>(p1: [u8; N]) {
    neighbours_of::<N>(p1, any_perm());
}

fn neighbours_of<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let v = common_neighbors(&p1, &p2);
    let mut ok = true;
    for &(a, b) in &v {
        ok &= (a < b) & adjacent(&p1, a, b) & adjacent(&p2, a, b);
    }
    check(ok, "each pair is ordered and adjacent in both genomes");
    for a in 0..N as u8 {
        for b in a + 1..N as u8 {
            let mut k = 0u8;
            for &(x, y) in &v {
                k += ((x == a) & (y == b)) as u8;
            }
            let want = adjacent(&p1, a, b) & adjacent(&p2, a, b);
            check(k == want as u8, "each common neighbouring pair is reported exactly once");
        }
    }
    cover("pairs");
}

fn partitions<const N: usize>(p1: [u8; N]) {
    partitions_of::<N>(p1, any_perm());
}

fn partitions_of<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let v = common_partitions(&p1, &p2);
    let mut seen = 0u64;
    let mut n = 0;
    let mut chain = true;
    let mut full = true;
    let mut whole = true;
    for p in &v {
        full &= !p.is_empty();
        for (i, &g) in p.iter().enumerate() {
            seen |= 1 << (g & 63);
            n += 1;
            if i > 0 {
                chain &= adjacent(&p1, p[i - 1], g) & adjacent(&p2, p[i - 1], g);
            }
        }
    }
    check(full, "no partition is empty");
    check(n == N && seen == (1 << N) - 1, "every gene is in exactly one partition");
    check(chain, "neighbours within a partition are neighbours in both genomes");
    // a partition cannot be continued: the last gene has no common neighbour in a later partition
    for (i, p) in v.iter().enumerate() {
        let last = p[p.len() - 1];
        for q in &v[i + 1..] {
            for &g in q {
                whole &= !(adjacent(&p1, last, g) & adjacent(&p2, last, g));
            }
        }
    }
    check(whole, "a partition goes on as long as it can");
    cover("partitions");
}

/// Genomes of different lengths and with arbitrary genes.
fn lengths<const N: usize, const M: usize>() {
    let g1 = any_genes::<N>(4);
    let g2 = any_genes::<M>(4);
    let v = common_neighbors(&g1, &g2);
    let mut ok = true;
    for &(a, b) in &v {
        ok &= (a <= b) & adjacent(&g1, a, b) & adjacent(&g2, a, b);
    }
    check(ok, "each pair is ordered and adjacent in both genomes");
    let mut all = true;
    for i in 0..N {
        let a = g1[i];
        let b = g1[(i + 1) % N];
        let mut has = false;
        for &(x, y) in &v {
            has |= (x == a) & (y == b) | (x == b) & (y == a);
        }
        all &= has | !adjacent(&g2, a, b);
    }
    check(all, "no common neighbouring pair is missing");
    cover("pairs");
}

fn wide<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    one_order();
    if pick(2) == 0 {
        neighbours_of::<N>(p1, p2);
    } else {
        partitions_of::<N>(p1, p2);
    }
}

/// The same for longer genomes.
fn far<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    one_order();
    let (at1, at2) = (places(&p1), places(&decided(p2)));
    let beside = |a: u8, b: u8| {
        let both = |at: &[usize; N]| {
            let (a, b) = (at[vpq::concretize(a as u64) as usize], at[vpq::concretize(b as u64) as usize]);
            ((a + 1) % N == b) | ((b + 1) % N == a)
        };
        both(&at1) & both(&at2)
    };
    if pick(2) == 0 {
        let v = common_neighbors(&p1, &p2);
        let (mut ok, mut twice) = (true, false);
        for (i, &(a, b)) in v.iter().enumerate() {
            ok &= (a < b) & beside(a, b);
            for &(c, d) in &v[..i] {
                twice |= (a == c) & (b == d);
            }
        }
        check(ok, "each pair is ordered and adjacent in both genomes");
        let mut n = 0;
        for i in 0..N {
            n += beside(p1[i], p1[(i + 1) % N]) as usize;
        }
        check(!twice & (v.len() == n), "each common neighbouring pair is reported exactly once");
    } else {
        let v = common_partitions(&p1, &p2);
        let mut later = [usize::MAX; N];
        let (mut ok, mut chain, mut whole) = (true, true, true);
        for (k, p) in v.iter().enumerate() {
            ok &= !p.is_empty();
            for (i, &g) in p.iter().enumerate() {
                let g = vpq::concretize(g as u64) as usize;
                ok &= later[g] == usize::MAX;
                later[g] = k;
                chain &= i == 0 || beside(p[i - 1], g as u8);
            }
        }
        for g in 0..N {
            ok &= later[g] != usize::MAX;
        }
        check(ok, "every gene is in exactly one partition");
        check(chain, "neighbours within a partition are neighbours in both genomes");
        for (k, p) in v.iter().enumerate() {
            let last = p[p.len() - 1];
            for d in [1, N - 1] {
                let g = p1[(at1[vpq::concretize(last as u64) as usize] + d) % N];
                whole &= later[g as usize] <= k || !beside(last, g);
            }
        }
        check(whole, "a partition goes on as long as it can");
    }
    cover("partitions");
}

entries! {
    huge c09_huge_70 => far::<70>(ident(), scattered(ident(), [3, 40, 65]));
    huge c09_huge_70r => far::<70>(stride(3), scattered(reversed(), [30, 69]));
    huge c09_huge_70s => far::<70>(stride(3), scattered(stride(3), [0, 1, 66, 69]));
    huge c09_huge_130 => far::<130>(stride(7), scattered(stride(7), [0, 65, 129]));
    quick c09_neighbours_3 => neighbours::<3>(any_perm());
    quick c09_neighbours_4 => neighbours::<4>(ident());
    quick/2 c09_neighbours_5 => neighbours::<5>(ident());
    thorough/8 c09_neighbours_6 => neighbours::<6>(ident());
    quick c09_partitions_1 => partitions::<1>(ident());
    quick c09_partitions_3 => partitions::<3>(any_perm());
    quick c09_partitions_4 => partitions::<4>(ident());
    quick/2 c09_partitions_5 => partitions::<5>(ident());
    thorough/8 c09_partitions_6 => partitions::<6>(ident());
    quick c09_lengths_33 => lengths::<3, 3>();
    quick c09_lengths_34 => lengths::<3, 4>();
    quick c09_lengths_43 => lengths::<4, 3>();
    wide c09_wide_9 => wide::<9>(ident(), scattered(reversed(), [0, 3, 7]));
    wide c09_wide_12 => wide::<12>(stride(5), scattered(stride(5), [1, 4, 7, 10]));
    wide c09_wide_13 => wide::<13>(ident(), scattered(ident(), [0, 11, 12]));
    wide c09_wide_20 => wide::<20>(ident(), scattered(reversed(), [3, 17]));
    thorough/8 c09_lengths_45 => lengths::<4, 5>();
}
