//! C04: what cycle crossover does.
use crate::*;

fn law<const N: usize>(p1: [u8; N]) {
    law_of::<N>(p1, any_perm());
}

fn law_of<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let o = cycle_crossover(&p1, &p2);
    check(o.len() == N, "the offspring is as long as its parents");
    // a long genome is decided by now
    let p2 = if N > 8 { p2.map(|g| vpq::concretize(g as u64) as u8) } else { p2 };
    // the first position of the cycle of each position
    let mut first = [0usize; N];
    for i in 0..N {
        let mut at = i;
        let mut low = i;
        for _ in 0..N {
            let mut g = 0;
            if N > 8 {
                g = p2[at];
            } else {
                for k in 0..N {
                    g = if k == at { p2[k] } else { g };
                }
            }
            at = pos(&p1, g);
            low = if at < low { at } else { low };
            if N > 40 && at == i {
                break;
            }
        }
        first[i] = low;
    }
    let mut ok = true;
    for i in 0..N {
        // the number of cycles that start before this one
        let mut before = 0usize;
        for j in 0..N {
            before += ((first[j] == j) & (j < first[i])) as usize;
        }
        let want = if before & 1 == 0 { p1[i] } else { p2[i] };
        ok &= o[i] == want;
    }
    check(ok, "whole cycles come alternately from parent 1 and parent 2");
    observe_all(&o);
    cover("offspring");
}

entries! {
    huge c04_huge_250 => law_of::<250>(stride(7), scattered(reversed(), [1, 249]));
    quick c04_law_1 => law::<1>(any_perm());
    quick c04_law_2 => law::<2>(any_perm());
    quick c04_law_3 => law::<3>(any_perm());
    quick c04_law_4 => law::<4>(any_perm());
    quick c04_law_5 => law::<5>(ident());
    quick/2 c04_law_6 => law::<6>(ident());
    quick c04_wide_12 => law_of::<12>(ident(), scattered(reversed(), [1, 5, 6, 10]));
    quick c04_wide_13 => law_of::<13>(ident(), scattered(stride(5), [0, 2, 7, 12]));
    quick c04_wide_16 => law_of::<16>(ident(), scattered(ident(), [2, 3, 9, 15]));
    quick c04_wide_16b => law_of::<16>(ident(), scattered(ident(), [2, 3, 9, 10, 15]));
    quick c04_wide_24 => law_of::<24>(ident(), scattered(stride(7), [3, 11, 20]));
    quick c04_wide_33 => law_of::<33>(reversed(), scattered(stride(10), [0, 16, 32]));
    quick c04_wide_70 => law_of::<70>(ident(), scattered(stride(3), [3, 60, 67]));
    quick c04_wide_130 => law_of::<130>(stride(7), scattered(reversed(), [1, 65, 129]));
    thorough/8 c04_law_7 => law::<7>(ident());
}
