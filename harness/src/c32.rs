//! C32: linear interpolation.
use crate::*;

/// Any ratio of [0, 1].
fn ratio() -> f64 {
    let r = f64::from_bits(vpq::u64() >> 2);
    assume(r <= 1.0);
    r
}

/// Of whole numbers.
fn whole(min: usize, max: usize) {
    let r = ratio();
    let x = interpolate_usize(min, max, r);
    check((min <= x) & (x <= max), "the value lies within the range");
    check((x == max) | (r < 1.0), "the ratio 1 stands for the maximum");
    check((x == min) | (r > 0.0), "the ratio 0 stands for the minimum");
    if min < max {
        check((x < max) | (r > 0.9999999 ), "a smaller ratio stands for less than the maximum");
    }
    let exact = min as f64 + (max - min) as f64 * r;
    let err = 1e-9 * (1.0 + max as f64);
    check((x as f64 <= exact + err) & (exact - err <= x as f64 + 1.0), "the value is the interpolated one, rounded down");
    cover("interpolated");
}

/// As used for the number of elites: fewer than all.
fn part(max: usize) {
    let r = ratio();
    assume(r < 1.0);
    check(interpolate_usize(0, max, r) < max, "a part is less than the whole");
    cover("part");
}

fn whole_monotone(min: usize, max: usize) {
    let a = ratio();
    let b = ratio();
    assume(a <= b);
    check(interpolate_usize(min, max, a) <= interpolate_usize(min, max, b), "a larger ratio does not give less");
    cover("monotone");
}

/// Of any numbers of a range, in either order.
fn real(limit: f64) {
    let v = || {
        let x = vpq::f64();
        assume((x >= -limit) & (x <= limit));
        x
    };
    let (min, max) = (v(), v());
    let r = vpq::f64();
    assume((r >= 0.0) & (r <= 1.0));
    let x = interpolate_f64(min, max, r);
    check(near(x, min * (1.0 - r) + max * r, 1e-14 * limit), "the value is the interpolated one");
    check(near(interpolate_f64(min, max, 0.0), min, 1e-14 * limit), "the ratio 0 stands for the minimum");
    check(near(interpolate_f64(min, max, 1.0), max, 1e-14 * limit), "the ratio 1 stands for the maximum");
    cover("interpolated");
}

fn real_bounds(min: f64, max: f64) {
    let a = ratio();
    let b = ratio();
    assume(a <= b);
    let (x, y) = (interpolate_f64(min, max, a), interpolate_f64(min, max, b));
    let e = 1e-14 * (min.abs() + max.abs());
    check((x >= min - e) & (y <= max + e), "the value lies within the range");
    check(x <= y + e, "a larger ratio does not give less");
    cover("bounds");
}

entries! {
    quick c32_whole_0_1 => whole(0, 1);
    quick c32_whole_0_10 => whole(0, 10);
    quick c32_whole_3_7 => whole(3, 7);
    quick c32_whole_5_5 => whole(5, 5);
    quick c32_whole_0_100 => whole(0, 100);
    quick c32_whole_1_million => whole(1, 1_000_000);
    quick c32_whole_2e33 => whole(0, (1 << 33) + 1);
    quick c32_whole_2e40 => whole(7, (1 << 40) + 7);
    quick c32_whole_offset => whole(1 << 20, (1 << 20) + 9);
    quick c32_real_huge => real(1e150);
    quick c32_real_tiny => real(1e-100);
    quick c32_part_1 => part(1);
    quick c32_part_2 => part(2);
    quick c32_part_3 => part(3);
    quick c32_part_100 => part(100);
    quick c32_part_large => part((1 << 53) - 1);
    quick c32_monotone_10 => whole_monotone(0, 10);
    quick c32_monotone_3_50 => whole_monotone(3, 50);
    quick c32_real_unit => real(1.0);
    quick c32_real_large => real(1e6);
    quick c32_bounds_unit => real_bounds(0.0, 1.0);
    quick c32_bounds_signed => real_bounds(-3.5, 12.25);
    quick c32_bounds_rates => real_bounds(0.3, 1.0);
}
