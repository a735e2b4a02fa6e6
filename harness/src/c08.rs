//! C08: what generalized partition crossover does.
use crate::*;

/// What the selector saw and did.
struct Seen<const N: usize> {
    steps: usize,
    ok_last: bool,
    ok_rest: bool,
    ok_kept: bool,
    out: [u8; N],
    len: usize,
}

fn law<const N: usize>(p1: [u8; N]) {
    law_of::<N>(p1, any_perm());
}

fn law_of<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let mut seen = Seen::<N> { steps: 0, ok_last: true, ok_rest: true, ok_kept: true, out: [0; N], len: 0 };
    // the partitions offered at first, in offered order: they are sections of common neighbours
    let o = generalized_partition_2_crossover(&p1, &p2, |last, parts| {
        // what is left is exactly what was not taken yet, each gene once
        let mut used = 0u64;
        for k in 0..seen.len {
            used |= 1 << (seen.out[k] & 63);
        }
        let mut rest = 0u64;
        let mut total = 0;
        let mut twice = false;
        for p in parts {
            seen.ok_rest &= !p.is_empty();
            for &g in p {
                twice |= rest >> (g & 63) & 1 == 1;
                rest |= 1 << (g & 63);
                total += 1;
            }
        }
        seen.ok_rest &= !twice & (rest & used == 0) & (rest | used == (1 << N) - 1) & (total + seen.len == N);
        seen.ok_last &= match last {
            None => seen.len == 0,
            Some(&g) => (seen.len > 0) & (g == seen.out[if seen.len > 0 { seen.len - 1 } else { 0 }]),
        };
        let c = pick(parts.len());
        for &g in &parts[c] {
            if seen.len < N {
                seen.out[seen.len] = g;
            }
            seen.len += 1;
        }
        seen.steps += 1;
        c
    });
    check(seen.ok_last, "the selector sees the last gene taken");
    check(seen.ok_rest, "the selector sees the remaining genes once each, no empty partition");
    check(seen.len == N, "everything is taken");
    check(eq(&o, &seen.out), "the offspring is the selected partitions in their order");
    observe_all(&o);
    cover("offspring");
}

/// Whatever the parents share stays together: neighbours inside a partition are neighbours in both.
fn shared<const N: usize>(p1: [u8; N]) {
    shared_of::<N>(p1, any_perm());
}

fn shared_of<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    let mut ok = true;
    let mut parts0: usize = 0;
    let mut first = true;
    let o = generalized_partition_2_crossover(&p1, &p2, |_, parts| {
        for p in parts {
            for w in p.windows(2) {
                ok &= adjacent(&p1, w[0], w[1]) & adjacent(&p2, w[0], w[1]);
            }
        }
        if first {
            parts0 = parts.len();
            first = false;
        }
        pick(parts.len())
    });
    check(ok, "neighbours within a partition are neighbours in both parents");
    // no two partitions' worth of common genes are split further than needed: the number of
    // partitions is at most N minus the longest chain property, at least one
    check(parts0 >= 1 && parts0 <= N, "at least one partition");
    cover("offspring");
    let _ = o;
}

/// Equal parents: one partition, the parent itself up to direction and rotation.
fn same<const N: usize>(p1: [u8; N]) {
    let mut calls = 0;
    let o = generalized_partition_2_crossover(&p1, &p1, |_, parts| {
        calls += 1;
        pick(parts.len())
    });
    check(calls == 1, "equal parents are one partition");
    let mut ok = is_perm::<N>(&o);
    for w in o.windows(2) {
        ok &= adjacent(&p1, w[0], w[1]);
    }
    check(ok, "the offspring of equal parents is the parent, rotated or reversed");
    cover("offspring");
}

pub fn adjacent<const N: usize>(p: &[u8; N], a: u8, b: u8) -> bool {
    let mut r = false;
    for i in 0..N {
        let j = (i + 1) % N;
        r |= (p[i] == a) & (p[j] == b) | (p[i] == b) & (p[j] == a);
    }
    r
}

/// Long genomes; the selector is free to choose among the first two and the last partition.
fn wide<const N: usize>(p2: [u8; N]) {
    one_order();
    shared_of::<N>(ident(), p2);
}

fn wide_law<const N: usize>(p2: [u8; N]) {
    one_order();
    law_of::<N>(ident(), p2);
}

/// The same as `law_of` and `shared_of` for long genomes.
fn far<const N: usize>(p1: [u8; N], p2: [u8; N]) {
    one_order();
    let (mut out, mut taken) = (Vec::<u8>::new(), [false; N]);
    let (mut ok_last, mut ok_rest, mut ok_kept) = (true, true, true);
    let how = pick(3);
    // the positions in the second parent, as it is on this path
    let (at1, at2) = (places(&p1), places(&decided(p2)));
    let beside = |at: &[usize; N], a: u8, b: u8| {
        let (a, b) = (at[a as usize], at[b as usize]);
        ((a + 1) % N == b) | ((b + 1) % N == a)
    };
    let o = generalized_partition_2_crossover(&p1, &p2, |last, parts| {
        let mut seen = taken;
        let mut total = out.len();
        for p in parts {
            ok_rest &= !p.is_empty();
            for &g in p {
                let g = vpq::concretize(g as u64) as usize;
                ok_rest &= !seen[g];
                seen[g] = true;
                total += 1;
            }
            for w in p.windows(2) {
                ok_kept &= beside(&at1, w[0], w[1]) & beside(&at2, w[0], w[1]);
            }
        }
        ok_rest &= total == N;
        ok_last &= last == out.last();
        let c = match how {
            0 => 0,
            1 => parts.len() - 1,
            _ => parts.len() / 2,
        };
        for &g in &parts[c] {
            taken[vpq::concretize(g as u64) as usize] = true;
            out.push(g);
        }
        c
    });
    check(ok_last, "the selector sees the last gene taken");
    check(ok_rest, "the selector sees the remaining genes once each, no empty partition");
    check(ok_kept, "neighbours within a partition are neighbours in both parents");
    check(out.len() == N, "everything is taken");
    check(eq(&o, &out), "the offspring is the selected partitions in their order");
    cover("offspring");
}

entries! {
    huge c08_huge_70 => far::<70>(ident(), scattered(ident(), [3, 40, 65]));
    huge c08_huge_70r => far::<70>(stride(3), scattered(reversed(), [30, 69]));
    huge c08_huge_same_70 => same::<70>(stride(3));
    quick c08_law_3 => law::<3>(any_perm());
    quick c08_law_4 => law::<4>(ident());
    quick/4 c08_law_5 => law::<5>(ident());
    thorough/8 c08_law_6 => law::<6>(ident());
    quick c08_shared_3 => shared::<3>(any_perm());
    quick c08_shared_4 => shared::<4>(ident());
    quick/4 c08_shared_5 => shared::<5>(ident());
    thorough/8 c08_shared_6 => shared::<6>(ident());
    wide c08_wide_9 => wide_law::<9>(scattered(ident(), [0, 4, 8]));
    wide c08_wide_12 => wide_law::<12>(scattered(ident(), [4, 5]));
    wide c08_wide_r12 => wide_law::<12>(scattered(reversed(), [2, 9]));
    wide c08_wide_shared_12 => wide::<12>(scattered(ident(), [4, 5, 6]));
    wide c08_wide_shared_20 => wide::<20>(scattered(reversed(), [8, 9]));
    wide c08_wide_same_20 => same::<20>(stride(3));
    quick c08_same_3 => same::<3>(any_perm());
    quick c08_same_5 => same::<5>(any_perm());
    quick c08_same_6 => same::<6>(ident());
}
