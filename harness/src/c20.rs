//! C20: count, extremes and their indices; recording and collecting agree.
use crate::*;

fn samples<const N: usize>(value: fn() -> f64) -> [f64; N] {
    std::array::from_fn(|_| value())
}

fn extremes<const N: usize>(value: fn() -> f64) {
    extremes_of(samples::<N>(value))
}

/// More samples, two of them arbitrary.
fn mixed<const N: usize>(k: usize, value: fn() -> f64) -> [f64; N] {
    let mut x: [f64; N] = std::array::from_fn(|i| (i * k % N) as f64);
    x[N / 3] = value();
    x[N - 1] = value();
    x
}

fn extremes_of<const N: usize>(x: [f64; N]) {
    let s: Stats = x.iter().copied().collect();
    check(s.count() == N, "the samples are counted");
    check(
        s.min().is_some() == (N > 0) && s.max().is_some() == (N > 0) && s.arg_min().is_some() == (N > 0)
            && s.arg_max().is_some() == (N > 0) && s.avg().is_some() == (N > 0) && s.var().is_some() == (N > 0)
            && s.std().is_some() == (N > 0) && s.snapshot().is_some() == (N > 0),
        "there are statistics exactly if there are samples",
    );
    if N > 0 {
        let (min, max, a, b) = (s.min().unwrap(), s.max().unwrap(), s.arg_min().unwrap(), s.arg_max().unwrap());
        check((a < N) & (b < N), "the indices are those of samples");
        check((x[a % N] == min) & (x[b % N] == max), "minimum and maximum are the samples at their indices");
        let mut ok = true;
        let mut first = true;
        for i in 0..N {
            ok &= (min <= x[i]) & (x[i] <= max);
            first &= ((i >= a) | (x[i] > min)) & ((i >= b) | (x[i] < max));
        }
        check(ok, "no sample is smaller than the minimum or larger than the maximum");
        check(first, "the indices are those of the first such samples");
    }
    cover("samples");
}

fn same(x: Option<f64>, y: Option<f64>) -> bool {
    match (x, y) {
        (Some(x), Some(y)) => near(x, y, 1e-9 * (1.0 + x.abs())),
        (None, None) => true,
        _ => false,
    }
}

/// One at a time or all at once, the statistics are the same.
fn agree<const N: usize>(value: fn() -> f64, moments: bool) {
    agree_of(samples::<N>(value), moments)
}

fn agree_of<const N: usize>(x: [f64; N], moments: bool) {
    let s: Stats = x.iter().copied().collect();
    let mut r = Stats::default();
    for (i, &v) in x.iter().enumerate() {
        check(r.count() == i, "each recorded sample is counted");
        r.record(v);
    }
    check(r.count() == s.count(), "count");
    check(r.arg_min() == s.arg_min(), "arg_min");
    check(r.arg_max() == s.arg_max(), "arg_max");
    check(r.min() == s.min(), "min");
    check(r.max() == s.max(), "max");
    if moments {
        check(same(r.avg(), s.avg()), "avg");
        check(same(r.var(), s.var()), "var");
        check(same(r.std(), s.std()), "std");
    }
    cover("both");
}

/// The same for the moments of arbitrary samples.
fn moments<const N: usize>() {
    let x = samples::<N>(ranged);
    let s: Stats = x.iter().copied().collect();
    let mut r = Stats::default();
    for &v in &x {
        r.record(v);
    }
    check(near(r.avg().unwrap(), s.avg().unwrap(), 1e-9), "avg");
    check(near(r.var().unwrap(), s.var().unwrap(), 1e-9), "var");
    cover("moments");
}

/// Continuing after a snapshot: the snapshot stays.
fn snapshot<const N: usize>(value: fn() -> f64) {
    let x = samples::<N>(value);
    let mut r = Stats::default();
    for &v in &x {
        r.record(v);
    }
    let (c, lo, hi, avg, var) = (r.count(), r.min(), r.max(), r.avg(), r.var());
    let shot = r.snapshot().unwrap();
    r.record(value());
    check(shot.count() == c, "a snapshot keeps its count");
    check((shot.min() == lo.unwrap()) & (shot.max() == hi.unwrap()), "a snapshot keeps its extremes");
    check((Some(shot.avg()) == avg) & (Some(shot.var()) == var), "a snapshot keeps its moments");
    check(r.count() == c + 1, "recording goes on");
    cover("snapshot");
}

fn wide() -> f64 {
    below(250) as f64 - 90.0
}

fn number() -> f64 {
    let x = vpq::f64();
    assume(!x.is_nan());
    x
}

fn ranged() -> f64 {
    let x = vpq::f64();
    assume((x >= -100.0) & (x <= 100.0));
    x
}

fn few() -> f64 {
    [0.0, 1.0, -1.0, 0.1, 1e6, -2.5, 7.25][pick(7)]
}

fn int() -> f64 {
    below(16) as f64
}

/// Many samples, the extremes at any of these places.
fn far<const N: usize>() {
    let places = [0, 1, N / 4, 127, 128, 255, 256, 257, N - 2, N - 1];
    let (a, b) = (places[pick(10)], places[pick(10)]);
    assume(a != b);
    let mut x: [f64; N] = std::array::from_fn(|i| (i % 17) as f64);
    x[a] = -1.0;
    x[b] = 17.0;
    if pick(2) == 0 {
        extremes_of(x);
    } else {
        agree_of(x, true);
    }
}

entries! {
    quick c20_far_300 => far::<300>();
    quick c20_many_extremes_130 => extremes_of::<130>(mixed(7, wide));
    quick c20_many_agree_130 => agree_of::<130>(mixed(7, few), true);
    quick c20_extremes_0 => extremes::<0>(number);
    quick c20_extremes_1 => extremes::<1>(number);
    quick c20_extremes_2 => extremes::<2>(number);
    quick c20_extremes_3 => extremes::<3>(number);
    quick c20_ints_4 => extremes::<4>(int);
    quick c20_ints_5 => extremes::<5>(int);
    thorough c20_ints_7 => extremes::<7>(int);
    thorough c20_extremes_4 => extremes::<4>(number);
    quick c20_agree_0 => agree::<0>(number, false);
    quick c20_agree_1 => agree::<1>(number, false);
    quick c20_agree_2 => agree::<2>(number, false);
    quick c20_agree_3 => agree::<3>(number, false);
    quick c20_few_1 => agree::<1>(few, true);
    quick c20_few_2 => agree::<2>(few, true);
    quick c20_few_3 => agree::<3>(few, true);
    quick c20_few_4 => agree::<4>(few, true);
    quick c20_ranged_2 => moments::<2>();
    quick c20_ranged_3 => moments::<3>();
    thorough c20_ranged_4 => moments::<4>();
    thorough c20_few_5 => agree::<5>(few, true);
    quick c20_many_extremes_12 => extremes_of::<12>(mixed(5, wide));
    quick c20_many_extremes_40 => extremes_of::<40>(mixed(7, wide));
    quick c20_many_extremes_65 => extremes_of::<65>(mixed(1, wide));
    quick c20_many_agree_12 => agree_of::<12>(mixed(5, few), true);
    quick c20_many_agree_40 => agree_of::<40>(mixed(7, few), true);
    quick c20_many_agree_65 => agree_of::<65>(mixed(1, few), true);
    quick c20_snapshot_1 => snapshot::<1>(few);
    quick c20_snapshot_3 => snapshot::<3>(few);
}
