//! C11: how each mutation moves genes, and how likely each move is.
use crate::*;

/// A number for a genome (different ones for different genomes of 8 genes; of more genes, two
/// outcomes with the same number would only add up).
fn code(m: &[u8]) -> u64 {
    let mut c = 0u64;
    for &x in m {
        c = if m.len() <= 8 {
            c << 3 ^ x as u64
        } else {
            (c.rotate_left(17) ^ vpq::concretize(x as u64)).wrapping_mul(0x9e3779b97f4a7c15)
        };
    }
    c
}

fn swap<const N: usize>() {
    let mut m = ident::<N>();
    swap_mutation(&mut m, &mut SymRng);
    let mut moved = 0;
    let mut mutual = true;
    for i in 0..N {
        moved += (m[i] != i as u8) as u8;
        mutual &= m[m[i] as usize % N] == i as u8;
    }
    check(moved == 2 && mutual, "two genes change places, the others stay");
    vpq::outcome(code(&m), 2, (N * (N - 1)) as u64);
}

/// The range of positions that hold the mirrored genes; its ends are the first and last changed.
fn inversion<const N: usize>() {
    let mut m = ident::<N>();
    inversion_mutation(&mut m, &mut SymRng);
    let mut s = 0;
    while s < N && m[s] == s as u8 {
        s += 1;
    }
    let mut e = N;
    while e > s && m[e - 1] == (e - 1) as u8 {
        e -= 1;
    }
    check(e >= s + 2, "at least two genes are reversed");
    let mut ok = true;
    for i in s..e {
        ok &= m[i] == (s + e - 1 - i) as u8;
    }
    check(ok, "the genes of the range are in reversed order, the others stay");
    // each length of 2..=N is as likely, then each position
    let len = e - s;
    vpq::outcome(code(&m), 1, ((N - 1) * (N - len + 1)) as u64);
}

fn insertion<const N: usize>() {
    let mut m = ident::<N>();
    insertion_mutation(&mut m, &mut SymRng);
    let mut s = 0;
    while s < N && m[s] == s as u8 {
        s += 1;
    }
    let mut e = N;
    while e > s && m[e - 1] == (e - 1) as u8 {
        e -= 1;
    }
    check(e >= s + 2, "a gene is moved");
    let mut to_front = m[s] == (e - 1) as u8;
    let mut to_back = m[e - 1] == s as u8;
    for i in s + 1..e {
        to_front &= m[i] == (i - 1) as u8;
        to_back &= m[i - 1] == i as u8;
    }
    check(to_front | to_back, "one gene moves to another position, those between shift by one");
    for a in 0..N {
        for b in a + 1..N {
            reach(to_front & (s == a) & (e == b + 1), "every gene can be moved to every position in front of it", (a * N + b) as u64);
        }
    }
    cover("inserted");
    // whichever of the two is moved to the other
    vpq::outcome((s * N + e) as u64, 2, (N * (N - 1)) as u64);
}

fn duplicate<const N: usize>() {
    let mut m = ident::<N>();
    duplicate_mutation(&mut m, &mut SymRng);
    let mut changed = 0;
    for i in 0..N {
        changed += (m[i] != i as u8) as u8;
    }
    check(changed == 1, "one gene is replaced by a copy of another one");
    vpq::outcome(code(&m), 1, (N * (N - 1)) as u64);
}

fn factorial(n: usize) -> u64 {
    (1..=n as u64).product()
}

/// Every order of the genes in the range is as likely; lengths and positions as for inversion.
fn scramble<const N: usize>() {
    let mut m = ident::<N>();
    scramble_mutation(&mut m, &mut SymRng);
    for i in 0..N {
        m[i] = vpq::concretize(m[i] as u64) as u8;
    }
    let mut s = 0;
    while s < N && m[s] == s as u8 {
        s += 1;
    }
    let mut e = N;
    while e > s && m[e - 1] == (e - 1) as u8 {
        e -= 1;
    }
    let den = (N as u64 - 1) * factorial(N) * factorial(N);
    let mut num = 0;
    for len in 2..=N {
        for at in 0..=N - len {
            if at <= s && e <= at + len || s >= e {
                num += factorial(N) * factorial(N) / ((N - len + 1) as u64 * factorial(len));
            }
        }
    }
    vpq::outcome(code(&m), num, den);
}

entries! {
    quick c11_swap_70 => swap::<70>();
    quick c11_inversion_70 => inversion::<70>();
    thorough/2 c11_insertion_70 => insertion::<70>();
    quick c11_duplicate_70 => duplicate::<70>();
    quick c11_swap_2 => swap::<2>();
    quick c11_swap_3 => swap::<3>();
    quick c11_swap_5 => swap::<5>();
    quick c11_swap_7 => swap::<7>();
    quick c11_inversion_2 => inversion::<2>();
    quick c11_inversion_3 => inversion::<3>();
    quick c11_inversion_5 => inversion::<5>();
    quick c11_inversion_7 => inversion::<7>();
    quick c11_insertion_2 => insertion::<2>();
    quick c11_insertion_3 => insertion::<3>();
    quick c11_insertion_5 => insertion::<5>();
    quick c11_insertion_7 => insertion::<7>();
    quick c11_duplicate_2 => duplicate::<2>();
    quick c11_duplicate_3 => duplicate::<3>();
    quick c11_duplicate_5 => duplicate::<5>();
    quick c11_duplicate_7 => duplicate::<7>();
    quick c11_swap_16 => swap::<16>();
    quick c11_swap_23 => swap::<23>();
    quick c11_inversion_16 => inversion::<16>();
    quick c11_inversion_23 => inversion::<23>();
    quick c11_insertion_16 => insertion::<16>();
    quick c11_insertion_23 => insertion::<23>();
    quick c11_duplicate_16 => duplicate::<16>();
    quick c11_duplicate_23 => duplicate::<23>();
    wide c11_swap_40 => swap::<40>();
    wide c11_inversion_40 => inversion::<40>();
    wide c11_insertion_40 => insertion::<40>();
    wide c11_duplicate_40 => duplicate::<40>();
    quick c11_scramble_2 => scramble::<2>();
    quick c11_scramble_3 => scramble::<3>();
    quick c11_scramble_4 => scramble::<4>();
    thorough/4 c11_scramble_5 => scramble::<5>();
}
