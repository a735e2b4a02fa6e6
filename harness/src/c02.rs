//! C02: what partially mapped crossover does.
use crate::*;

fn law<const N: usize>(p1: [u8; N]) {
    law_of::<N>(p1, any_perm());
}

fn law_of<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let e = pick(N + 1);
    let s = pick(e + 1);
    law_at::<N>(p1, p2, s, e);
}

fn law_at<const N: usize>(p1: [u8; N], p2: [u8; N], s: usize, e: usize) {
    let o = partially_mapped_crossover(&p1, &p2, s..e);
    check(o.len() == N, "the offspring is as long as its parents");
    let mut ok_in = true;
    let mut ok_out = true;
    for i in 0..N {
        if i >= s && i < e {
            ok_in &= o[i] == p1[i];
        } else {
            let mut g = p2[i];
            for _ in 0..e - s {
                if N > 40 && !contains(&p1[s..e], g) {
                    break;
                }
                let mut next = g;
                for k in s..e {
                    next = if p1[k] == g { p2[k] } else { next };
                }
                g = next;
            }
            ok_out &= o[i] == g;
        }
    }
    check(ok_in, "the genes of parent 1 in the range are kept in place");
    check(ok_out, "outside the range, parent 2's genes, mapped through the range");
    observe_all(&o);
    cover("offspring");
}

/// Long genomes, with a few of the ranges.
fn far<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let s = [0, 1, N / 2, N - 2][pick(4)];
    let e = [s, s + 1, (s + N) / 2, N - 1, N][pick(5)];
    assume(s <= e);
    law_at::<N>(p1, p2, s, e);
}

entries! {
    quick c02_law_1 => law::<1>(any_perm());
    quick c02_law_2 => law::<2>(any_perm());
    quick c02_law_3 => law::<3>(any_perm());
    quick c02_law_4 => law::<4>(any_perm());
    quick/4 c02_law_5 => law::<5>(ident());
    quick c02_wide_24 => far::<24>(ident(), scattered(ident(), [3, 11, 20]));
    quick c02_wide_33 => far::<33>(reversed(), scattered(stride(10), [0, 16, 32]));
    quick c02_wide_12 => law_of::<12>(ident(), scattered(reversed(), [1, 5, 6, 10]));
    quick c02_wide_13 => law_of::<13>(ident(), scattered(stride(5), [0, 2, 7, 12]));
    quick c02_wide_70 => far::<70>(ident(), scattered(stride(3), [3, 60, 67]));
    quick c02_wide_130 => far::<130>(stride(7), scattered(stride(11), [1, 129]));
    quick c02_wide_250 => far::<250>(stride(7), scattered(stride(11), [1, 249]));
    thorough/8 c02_law_6 => law::<6>(ident());
}
