//! C21: average, variance and standard deviation.
use crate::*;

/// An arbitrary sample of a range.
fn within(lo: f64, hi: f64) -> f64 {
    let x = vpq::f64();
    assume((x >= lo) & (x <= hi));
    x
}

/// The statistics, recorded one at a time or collected.
fn of<const N: usize>(x: &[f64; N], collect: bool) -> Stats {
    if collect {
        x.iter().copied().collect()
    } else {
        let mut s = Stats::default();
        for &v in x {
            s.record(v);
        }
        s
    }
}

/// The samples lie in a range of width `spread` at `base`; the errors stay small in relation to
/// both, whatever the samples are.
fn moments<const N: usize>(base: f64, spread: f64, collect: bool) {
    let x: [f64; N] = std::array::from_fn(|_| within(base, base + spread));
    let s = of(&x, collect);
    let eps = 1e-14 * (base.abs() + spread) * N as f64;
    let mut sum = 0.0;
    for &v in &x {
        sum += v - base;
    }
    let mean = sum / N as f64;
    let avg = s.avg().unwrap();
    check(near(avg - base, mean, eps), "the average is the mean of the samples");
    let mut squares = 0.0;
    for &v in &x {
        squares += (v - base - mean) * (v - base - mean);
    }
    let var = s.var().unwrap();
    let std = s.std().unwrap();
    if N == 1 {
        check((var == 0.0) & (std == 0.0), "a single sample does not vary");
    } else {
        check(near(var, squares / (N - 1) as f64, eps * 4.0 * spread), "the variance is the mean squared deviation");
        check(std.to_bits() == var.sqrt().to_bits(), "the standard deviation is the root of the variance");
    }
    cover("moments");
}

/// More samples, close to a line but for two of them, which lie anywhere in a range.
fn many<const N: usize>(base: f64, spread: f64) {
    let mut x: [f64; N] = std::array::from_fn(|i| base + (i * 7 % N) as f64);
    x[N / 3] = base + spread * pick(9) as f64 / 8.0;
    x[N - 1] = base - spread * pick(9) as f64 / 8.0;
    let s = of(&x, pick(2) == 1);
    let eps = 1e-14 * (base.abs() + spread + N as f64) * N as f64;
    let mut sum = 0.0;
    for &v in &x {
        sum += v - base;
    }
    let mean = sum / N as f64;
    check(near(s.avg().unwrap() - base, mean, eps), "the average is the mean of the samples");
    let mut squares = 0.0;
    for &v in &x {
        squares += (v - base - mean) * (v - base - mean);
    }
    let var = s.var().unwrap();
    check(
        near(var, squares / (N - 1) as f64, eps * 4.0 * (spread + N as f64)),
        "the variance is the mean squared deviation",
    );
    check(near(s.std().unwrap(), var.sqrt(), 1e-9 * var.sqrt()), "the standard deviation is the root of the variance");
    cover("moments");
}

/// The average stays between the extremes and the variance is not negative, so that the
/// standard deviation is a number: of any small whole numbers.
fn sane<const N: usize>(limit: usize) {
    let x: [f64; N] = std::array::from_fn(|_| below(limit) as f64);
    let s = of(&x, false);
    let avg = s.avg().unwrap();
    check((s.min().unwrap() <= avg) & (avg <= s.max().unwrap()), "the average lies between the extremes");
    check(s.var().unwrap() >= 0.0, "the variance is not negative");
    check(s.std().unwrap() >= 0.0, "the standard deviation is not negative");
    cover("sane");
}

/// Equal samples do not vary.
fn equal<const N: usize>() {
    let v = within(-1e100, 1e100);
    let s = of(&[v; N], pick(2) == 1);
    check(s.avg() == Some(v), "the average of equal samples");
    check((s.var() == Some(0.0)) & (s.std() == Some(0.0)), "equal samples do not vary");
    cover("equal");
}

entries! {
    quick c21_many_130 => many::<130>(0.0, 100.0);
    quick c21_unit_1 => moments::<1>(0.0, 1.0, false);
    quick c21_unit_2 => moments::<2>(0.0, 1.0, false);
    quick c21_unit_3 => moments::<3>(0.0, 1.0, false);
    quick c21_unit_4 => moments::<4>(0.0, 1.0, true);
    quick c21_signed_3 => moments::<3>(-1000.0, 2000.0, true);
    quick c21_large_2 => moments::<2>(1e9, 1.0, true);
    quick c21_large_3 => moments::<3>(1e9, 1.0, false);
    quick c21_many_12 => many::<12>(0.0, 100.0);
    quick c21_many_40 => many::<40>(1e9, 1000.0);
    quick c21_many_65 => many::<65>(-1e6, 1.0);
    quick c21_equal_2 => equal::<2>();
    thorough c21_equal_3 => equal::<3>();
    thorough c21_equal_4 => equal::<4>();
    quick c21_sane_2 => sane::<2>(16);
    quick c21_sane_2b => sane::<2>(256);
    quick c21_sane_3 => sane::<3>(3);
    thorough c21_sane_3b => sane::<3>(8);
    quick c21_unit_5 => moments::<5>(0.0, 1.0, false);
    thorough c21_large_5 => moments::<5>(1e9, 1.0, true);
}
