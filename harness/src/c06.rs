//! C06: what sequential constructive crossover does.
use crate::*;

fn succ<const N: usize>(p: &[u8; N], g: u8) -> u8 {
    let mut r = p[0];
    for i in 0..N {
        r = if p[i] == g { p[(i + 1) % N] } else { r };
    }
    r
}

fn law<const N: usize>(p1: [u8; N]) {
    law_of::<N>(p1, any_perm());
}

fn law_of<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let pivot = pick(N) as u8;
    let o = sequential_constructive_crossover(&p1, &p2, pivot);
    // a long genome is decided by now
    let p2 = if N > 8 { p2.map(|g| vpq::concretize(g as u64) as u8) } else { p2 };
    check(o.len() == N, "the offspring is as long as its parents");
    check(o[0] == pivot, "the offspring starts with the pivot");
    let mut seen = 0u32;
    for i in 1..N {
        let cur = o[i - 1];
        seen |= 1 << (cur & 31);
        let n1 = succ(&p1, cur);
        let n2 = succ(&p2, cur);
        let v1 = seen >> (n1 & 31) & 1 != 0;
        let v2 = seen >> (n2 & 31) & 1 != 0;
        let got = o[i];
        let fresh = seen >> (got & 31) & 1 == 0;
        check(fresh, "no gene comes twice");
        check(
            (v1 & v2) | (got == n1) | (got == n2),
            "the next gene follows the current one in a parent if such a gene is left",
        );
        // both are left: the one that appears first; an equal position leaves the choice
        let a = pos(&p2, n1);
        let b = pos(&p1, n2);
        check(
            v1 | v2 | (n1 == n2) | (a == b) | (got == if a < b { n1 } else { n2 }),
            "of two candidates, the one that appears earlier is taken",
        );
    }
    observe_all(&o);
    cover("offspring");
}

fn wide<const N: usize>(p2: [u8; N]) {
    one_order();
    law_of::<N>(ident(), p2);
}

/// The same for genomes too long for `law_of`.
fn far<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    one_order();
    let pivot = [p1[0], p1[N / 2], p1[N - 1]][pick(3)];
    let o = sequential_constructive_crossover(&p1, &p2, pivot);
    let p2 = decided(p2);
    let (at1, at2) = (places(&p1), places(&p2));
    check(o.len() == N && o[0] == pivot, "the offspring is as long as its parents and starts with the pivot");
    let mut seen = [false; N];
    let (mut fresh, mut follows, mut earlier) = (true, true, true);
    for i in 1..N {
        let cur = vpq::concretize(o[i - 1] as u64) as usize;
        let got = vpq::concretize(o[i] as u64) as u8;
        seen[cur] = true;
        let n1 = p1[(at1[cur] + 1) % N];
        let n2 = p2[(at2[cur] + 1) % N];
        let (v1, v2) = (seen[n1 as usize], seen[n2 as usize]);
        fresh &= !seen[got as usize];
        follows &= (v1 & v2) | (got == n1) | (got == n2);
        let (a, b) = (at2[n1 as usize], at1[n2 as usize]);
        earlier &= v1 | v2 | (n1 == n2) | (a == b) | (got == if a < b { n1 } else { n2 });
    }
    check(fresh, "no gene comes twice");
    check(follows, "the next gene follows the current one in a parent if such a gene is left");
    check(earlier, "of two candidates, the one that appears earlier is taken");
    cover("offspring");
}

/// Every gene can be the pivot.
fn pivots<const N: usize>() {
    one_order();
    let p: [u8; N] = ident();
    let o = CrossoverStrategy::SequentialConstructive.crossover(&p, &p, &mut SymRng);
    for g in 0..N {
        reach(o[0] == g as u8, "a gene is the pivot", g as u64);
    }
    cover("offspring");
}

entries! {
    quick c06_pivots_3 => pivots::<3>();
    wide c06_pivots_36 => pivots::<36>();
    huge c06_pivots_70 => pivots::<70>();
    huge c06_huge_70 => far::<70>(ident(), scattered(stride(9), [3, 65]));
    huge c06_huge_70r => far::<70>(ident(), scattered(reversed(), [30, 31, 69]));
    huge c06_huge_130 => far::<130>(stride(7), scattered(stride(11), [1, 129]));
    quick c06_law_2 => law::<2>(any_perm());
    quick c06_law_3 => law::<3>(any_perm());
    quick c06_law_4 => law::<4>(ident());
    quick/4 c06_law_5 => law::<5>(ident());
    wide c06_wide_9 => wide::<9>(scattered(reversed(), [0, 3, 7]));
    wide c06_wide_12 => wide::<12>(scattered(ident(), [1, 4, 7, 10]));
    wide c06_wide_13 => wide::<13>(scattered(stride(5), [0, 2, 12]));
    wide c06_wide_20 => wide::<20>(scattered(stride(7), [3, 17]));
    thorough/8 c06_law_6 => law::<6>(ident());
}
