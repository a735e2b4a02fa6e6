//! C22: the statistics of a non-empty set of samples.
use crate::*;

fn few() -> f64 {
    [0.0, 1.0, -1.0, 0.1, 1e6, -2.5, 7.25][pick(7)]
}

fn convert<const N: usize>() {
    convert_of::<N>(std::array::from_fn(|_| few()))
}

/// More samples, two of them arbitrary.
fn many<const N: usize>(k: usize) {
    let mut x: [f64; N] = std::array::from_fn(|i| (i * k % N) as f64);
    x[N / 3] = few();
    x[N - 1] = few();
    convert_of(x)
}

fn convert_of<const N: usize>(x: [f64; N]) {
    let s: Stats = x.iter().copied().collect();
    match PopulatedStats::try_from(s) {
        Ok(p) => {
            check(N > 0, "there are no statistics without samples");
            check(p.count() == s.count(), "count");
            check(Some(p.min()) == s.min() && Some(p.arg_min()) == s.arg_min(), "minimum");
            check(Some(p.max()) == s.max() && Some(p.arg_max()) == s.arg_max(), "maximum");
            check(Some(p.avg()) == s.avg(), "average");
            check(near(p.var(), s.var().unwrap(), 1e-9), "variance");
            check(near(p.std(), s.std().unwrap(), 1e-9), "standard deviation");
            let q = s.snapshot().unwrap();
            check(
                (q.count() == p.count()) & (q.min() == p.min()) & (q.max() == p.max()) & (q.arg_min() == p.arg_min())
                    & (q.arg_max() == p.arg_max()) & (q.avg() == p.avg()) & (q.var() == p.var()),
                "a snapshot is the same",
            );
            check(!(p.var() < 0.0) && p.var() == p.var(), "the variance is not negative");
            cover("populated");
        }
        Err(()) => {
            check(N == 0, "samples have statistics");
            cover("empty");
        }
    }
}

/// Any samples but NaN.
fn any<const N: usize>() {
    let x: [f64; N] = std::array::from_fn(|_| any_finite());
    let s: Stats = x.iter().copied().collect();
    let p = s.snapshot().unwrap();
    check((Some(p.min()) == s.min()) & (Some(p.max()) == s.max()), "the extremes are the same");
    check((Some(p.arg_min()) == s.arg_min()) & (Some(p.arg_max()) == s.arg_max()), "the indices are the same");
    check(p.count() == N, "the count is the same");
    cover("populated");
}

fn populated<const N: usize>() -> PopulatedStats {
    let s: Stats = (0..N).map(|i| (i * 7 % 5) as f64).collect();
    s.snapshot().unwrap()
}

fn set<const N: usize>() {
    let mut p = populated::<N>();
    let (lo, hi, c, a, v) = (p.min(), p.max(), p.count(), p.avg(), p.var());
    let (i, j) = (vpq::u64() as usize, vpq::u64() as usize);
    assume((i < N) & (j < N));
    let before = p.arg_max();
    p.set_arg_min(i);
    check((p.arg_min() == i) & (p.arg_max() == before), "the index of the minimum is set");
    p.set_arg_max(j);
    check((p.arg_min() == i) & (p.arg_max() == j), "the index of the maximum is set");
    check(
        (p.min() == lo) & (p.max() == hi) & (p.count() == c) & (p.avg() == a) & (p.var() == v),
        "nothing else changes",
    );
    cover("set");
}

fn out_min<const N: usize>() {
    let mut p = populated::<N>();
    let i = vpq::u64() as usize;
    assume(i >= N);
    vpq::expect_panic("the index is not that of a sample");
    p.set_arg_min(i);
}

fn out_max<const N: usize>() {
    let mut p = populated::<N>();
    let i = vpq::u64() as usize;
    assume(i >= N);
    vpq::expect_panic("the index is not that of a sample");
    p.set_arg_max(i);
}

entries! {
    quick c22_many_130 => many::<130>(7);
    quick c22_set_130 => set::<130>();
    quick c22_convert_0 => convert::<0>();
    quick c22_convert_1 => convert::<1>();
    quick c22_convert_2 => convert::<2>();
    quick c22_convert_3 => convert::<3>();
    thorough c22_convert_5 => convert::<5>();
    quick c22_many_12 => many::<12>(5);
    quick c22_many_40 => many::<40>(7);
    quick c22_many_65 => many::<65>(1);
    quick c22_set_40 => set::<40>();
    quick c22_any_1 => any::<1>();
    quick c22_any_3 => any::<3>();
    quick c22_set_1 => set::<1>();
    quick c22_set_4 => set::<4>();
    quick c22_out_min_1 => out_min::<1>();
    quick c22_out_min_4 => out_min::<4>();
    quick c22_out_max_1 => out_max::<1>();
    quick c22_out_max_4 => out_max::<4>();
}
