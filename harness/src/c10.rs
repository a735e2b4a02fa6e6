//! C10: what every mutation leaves alone.
use crate::*;
use MutationStrategy::*;

fn keeps<const N: usize>(s: MutationStrategy) {
    let g: [u8; N] = std::array::from_fn(|_| vpq::u8());
    let mut m = g;
    s.mutate(&mut m, &mut SymRng);
    check(same_multiset(&m, &g), "the genome holds the same genes as before, each as often");
    observe_all(&m);
    cover("mutated");
}

/// Long genomes of distinct genes.
fn keeps_wide<const N: usize>(s: MutationStrategy) {
    let g = ident::<N>();
    let mut m = g;
    s.mutate(&mut m, &mut SymRng);
    if s == Duplicate {
        let mut changed = 0u8;
        let mut known = true;
        for i in 0..N {
            changed += (m[i] != g[i]) as u8;
            known &= (m[i] as usize) < N;
        }
        check(changed == 1 && known, "one gene is replaced by another of the genome");
    } else {
        check(is_perm::<N>(&m), "the genome holds the same genes as before, each as often");
    }
    cover("mutated");
}

/// At most one position changes, and gets a gene of the genome.
fn duplicates<const N: usize>() {
    let g: [u8; N] = std::array::from_fn(|_| vpq::u8());
    let mut m = g;
    Duplicate.mutate(&mut m, &mut SymRng);
    let mut changed = 0u8;
    let mut known = true;
    for i in 0..N {
        changed += (m[i] != g[i]) as u8;
        known &= contains(&g, m[i]);
    }
    check(changed <= 1, "at most one gene is replaced");
    check(known, "the new gene is a copy of one that was there");
    observe_all(&m);
    cover("mutated");
}

/// Genomes too short to change.
fn short<const N: usize>() {
    let g: [u8; N] = std::array::from_fn(|_| vpq::u8());
    let s = [Swap, Scramble, Inversion, Insertion, Duplicate][pick(5)];
    let mut m = g;
    s.mutate(&mut m, &mut SymRng);
    check(eq(&m, &g), "a genome of fewer than two genes stays as it is");
    cover("short");
}

/// Genes outside of the slice are not touched.
fn within<const N: usize>() {
    let g: [u8; 8] = std::array::from_fn(|_| vpq::u8());
    let mut m = g;
    let s = [Swap, Scramble, Inversion, Insertion, Duplicate][pick(5)];
    let at = pick(8 - N + 1);
    s.mutate(&mut m[at..at + N], &mut SymRng);
    check(eq(&m[..at], &g[..at]) & eq(&m[at + N..], &g[at + N..]), "only the genome is mutated");
    cover("within");
}

entries! {
    quick c10_wide_swap_70 => keeps_wide::<70>(Swap);
    quick c10_wide_inversion_70 => keeps_wide::<70>(Inversion);
    thorough/2 c10_wide_insertion_70 => keeps_wide::<70>(Insertion);
    quick c10_wide_duplicate_70 => keeps_wide::<70>(Duplicate);
    quick c10_wide_swap_20 => keeps_wide::<20>(Swap);
    quick c10_wide_swap_40 => keeps_wide::<40>(Swap);
    quick c10_wide_inversion_20 => keeps_wide::<20>(Inversion);
    quick c10_wide_inversion_40 => keeps_wide::<40>(Inversion);
    quick c10_wide_insertion_20 => keeps_wide::<20>(Insertion);
    quick c10_wide_insertion_40 => keeps_wide::<40>(Insertion);
    quick c10_wide_duplicate_40 => keeps_wide::<40>(Duplicate);
    thorough/8 c10_wide_scramble_8 => keeps_wide::<8>(Scramble);
    quick c10_short_0 => short::<0>();
    quick c10_short_1 => short::<1>();
    quick c10_swap_2 => keeps::<2>(Swap);
    quick c10_swap_3 => keeps::<3>(Swap);
    quick c10_swap_5 => keeps::<5>(Swap);
    quick c10_swap_7 => keeps::<7>(Swap);
    quick c10_scramble_2 => keeps::<2>(Scramble);
    quick c10_scramble_3 => keeps::<3>(Scramble);
    quick c10_scramble_4 => keeps::<4>(Scramble);
    quick/2 c10_scramble_5 => keeps::<5>(Scramble);
    thorough/8 c10_scramble_6 => keeps::<6>(Scramble);
    quick c10_inversion_2 => keeps::<2>(Inversion);
    quick c10_inversion_3 => keeps::<3>(Inversion);
    quick c10_inversion_5 => keeps::<5>(Inversion);
    quick c10_inversion_8 => keeps::<8>(Inversion);
    quick c10_insertion_2 => keeps::<2>(Insertion);
    quick c10_insertion_3 => keeps::<3>(Insertion);
    quick c10_insertion_5 => keeps::<5>(Insertion);
    quick c10_insertion_7 => keeps::<7>(Insertion);
    quick c10_duplicate_2 => duplicates::<2>();
    quick c10_duplicate_3 => duplicates::<3>();
    quick c10_duplicate_5 => duplicates::<5>();
    quick c10_duplicate_8 => duplicates::<8>();
    quick c10_within_3 => within::<3>();
    thorough c10_swap_12 => keeps::<12>(Swap);
    thorough c10_inversion_12 => keeps::<12>(Inversion);
    thorough c10_insertion_12 => keeps::<12>(Insertion);
}
