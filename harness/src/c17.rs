//! C17: the individuals of a population are unique, and none is lost or made up.
use crate::*;

/// N individuals of K kinds; those of a kind are equal and have the same fitness, which different
/// kinds may share.
fn kinds<const N: usize, const K: usize>(limit: usize) -> (Vec<Ind>, [f64; K], [u8; N]) {
    let fit: [f64; K] = std::array::from_fn(|_| below(limit) as f64);
    let tags: [u8; N] = std::array::from_fn(|_| pick(K) as u8);
    (tags.iter().map(|&t| ind(fit[t as usize], t)).collect(), fit, tags)
}

fn same_kinds<const N: usize, const K: usize>(p: &[Ind], fit: &[f64; K], tags: &[u8; N]) {
    let mut made_up = false;
    for x in p {
        let mut known = false;
        for k in 0..K {
            known |= (x.tag == k as u8) & (x.fit == fit[k]);
        }
        made_up |= !known;
    }
    check(!made_up, "each individual is one of those given");
    for k in 0..K as u8 {
        let mut n = 0u8;
        for x in p {
            n += (x.tag == k) as u8;
        }
        check(n <= 1, "no two individuals are equal");
        check((n >= 1) == contains(tags, k), "every distinct individual is kept");
    }
}

fn new<const N: usize, const K: usize>(limit: usize) {
    let (v, fit, tags) = kinds::<N, K>(limit);
    let p = Population::new(v);
    same_kinds(&p, &fit, &tags);
    cover("new");
}

fn replaced<const N: usize, const K: usize>(limit: usize) {
    let mut p = Population::new(vec![ind(below(4) as f64, 77), ind(1.0, 78)]);
    let (mut v, fit, tags) = kinds::<N, K>(limit);
    p.replace(&mut v);
    same_kinds(&p, &fit, &tags);
    cover("replaced");
}

/// N individuals, `group` of each fitness; one of them, anywhere, is equal to an earlier one of the
/// same fitness.
fn many<const N: usize>(group: usize, k: usize) {
    let mut v: Vec<Ind> = (0..N).map(|i| ind((i / group) as f64, i as u8)).collect();
    let a = pick(N);
    let b = pick(group);
    let twin = a / group * group + b;
    assume(twin < a);
    let tag = twin as u8;
    v[a] = ind(v[a].fit, tag);
    let mut w: Vec<Ind> = (0..N).map(|i| v[i * k % N].clone()).collect();
    let (p, q) = if pick(2) == 0 {
        (Population::new(w), N - 1)
    } else {
        let mut p = Population::new(vec![ind(3.0, 250)]);
        p.replace(&mut w);
        (p, N - 1)
    };
    check(p.len() == q, "every distinct individual is kept, and no equal one");
    let mut seen = [0u8; 256];
    let mut ok = true;
    for x in p.iter() {
        seen[x.tag as usize] += 1;
        ok &= x.fit == (x.tag as usize / group) as f64;
    }
    check(ok, "each individual is one of those given");
    let mut once = true;
    for i in 0..N {
        once &= seen[i] == (i != a) as u8;
    }
    check(once, "every distinct individual is kept, and no equal one");
    cover("many");
}

/// The same for more, where the twins stand in one of a few places, or there are none.
fn most<const N: usize>(group: usize, k: usize) {
    let fit = |i: usize| (i / group) as f64;
    let mut v: Vec<Ind> = (0..N).map(|i| ind(fit(i), i as u8)).collect();
    let first = (N - 1) / group * group;
    let (a, twin) = [(0, 0), (1, 0), (N - 1, first), (N - 1, N - 2), (group - 1, 0), (group / 2, 0), (first + (N - first) / 2, first)][pick(7)];
    v[a] = ind(fit(a), if fit(a) == fit(twin) { twin } else { a } as u8);
    let gone = v[a].tag as usize != a;
    let mut w: Vec<Ind> = (0..N).map(|i| v[i * k % N].clone()).collect();
    let p = if pick(2) == 0 {
        Population::new(w)
    } else {
        let mut p = Population::new(vec![ind(3.0, 255)]);
        p.replace(&mut w);
        p
    };
    let mut seen = [0u8; 256];
    let mut ok = p.len() == N - gone as usize;
    for x in p.iter() {
        seen[x.tag as usize] += 1;
        ok &= x.fit == fit(x.tag as usize);
    }
    check(ok, "each individual is one of those given");
    let mut once = true;
    for i in 0..N {
        once &= seen[i] == (!gone | (i != a)) as u8;
    }
    check(once, "every distinct individual is kept, and no equal one");
    cover("most");
}

entries! {
    quick c17_most_20 => most::<20>(20, 3);
    quick c17_most_50 => most::<50>(25, 1);
    quick c17_most_70 => most::<70>(70, 9);
    quick c17_most_100 => most::<100>(100, 1);
    quick c17_most_130 => most::<130>(65, 7);
    quick c17_most_250 => most::<250>(50, 3);
    quick c17_many_24 => many::<24>(24, 7);
    quick c17_many_30 => many::<30>(5, 1);
    quick c17_many_33 => many::<33>(11, 10);
    quick c17_many_70 => many::<70>(3, 3);
    quick c17_new_1 => new::<1, 1>(4);
    quick c17_new_2 => new::<2, 2>(4);
    quick c17_new_3 => new::<3, 3>(4);
    quick c17_new_4 => new::<4, 3>(4);
    quick c17_new_5 => new::<5, 2>(4);
    quick c17_new_6 => new::<6, 2>(3);
    thorough/4 c17_new_5t => new::<5, 4>(4);
    quick c17_replaced_3 => replaced::<3, 3>(4);
    quick c17_replaced_4 => replaced::<4, 2>(4);
}
