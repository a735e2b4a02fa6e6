//! C12: random pairs and ranges.
use crate::*;

fn pair(n: usize) {
    let (a, b) = random_pair(n, &mut SymRng);
    check((a < n) & (b < n), "both numbers are below n");
    check(a != b, "the numbers differ");
    vpq::outcome((a * 64 + b) as u64, 1, (n * (n - 1)) as u64);
}

/// Any n.
fn pair_any(limit: usize) {
    let n = vpq::u64() as usize;
    assume((n >= 2) & (n <= limit));
    let (a, b) = random_pair(n, &mut SymRng);
    check((a < n) & (b < n), "both numbers are below n");
    check(a != b, "the numbers differ");
    cover("pair");
}

fn pair_panics() {
    let n = pick(2);
    vpq::expect_panic("there is no pair below 2");
    random_pair(n, &mut SymRng);
}

/// Each allowed length as likely, then each position.
fn range(n: usize, min: usize, max: usize) {
    let r = bounded_random_range(n, min, max, &mut SymRng);
    check((r.start <= r.end) & (r.end <= n), "the range is within 0..n");
    let len = r.end - r.start;
    check((min <= len) & (len <= max), "its length is within the limits");
    let len = vpq::concretize(len as u64) as usize;
    vpq::outcome((r.start * 64 + r.end) as u64, 1, ((max - min + 1) * (n - len + 1)) as u64);
}

fn full_range(n: usize) {
    let r = random_range(n, &mut SymRng);
    check((r.start < r.end) & (r.end <= n), "the range is within 0..n and not empty");
    let len = vpq::concretize((r.end - r.start) as u64) as usize;
    vpq::outcome((r.start * 64 + r.end) as u64, 1, (n * (n - len + 1)) as u64);
}

fn range_any(limit: usize) {
    let n = vpq::u32() as usize;
    let min = vpq::u32() as usize;
    let max = vpq::u32() as usize;
    assume((n <= limit) & (min <= max) & (max <= n));
    let r = bounded_random_range(n, min, max, &mut SymRng);
    check((r.start <= r.end) & (r.end <= n), "the range is within 0..n");
    let len = r.end - r.start;
    check((min <= len) & (len <= max), "its length is within the limits");
    cover("range");
}

fn full_range_any(limit: usize) {
    let n = vpq::u64() as usize;
    assume((n != 0) & (n <= limit));
    let r = random_range(n, &mut SymRng);
    check((r.start < r.end) & (r.end <= n), "the range is within 0..n and not empty");
    cover("range");
}

fn range_panics() {
    let n = vpq::u64() as usize;
    let min = vpq::u64() as usize;
    let max = vpq::u64() as usize;
    assume((max < min) & (max <= n));
    vpq::expect_panic("the smallest length exceeds the largest");
    bounded_random_range(n, min, max, &mut SymRng);
}

fn full_range_panics() {
    vpq::expect_panic("there is no range below 0");
    random_range(0, &mut SymRng);
}

/// Pairs at the ends of a large interval come up.
fn pair_far(n: usize) {
    let (a, b) = random_pair(n, &mut SymRng);
    let targets = [(0, 1), (1, 0), (0, n - 1), (n - 1, 0), (n - 2, n - 1), (n - 1, n - 2), (n / 2, n / 2 + 1), (n / 2 + 1, n / 2)];
    for (k, &(x, y)) in targets.iter().enumerate() {
        reach((a == x) & (b == y), "every pair of different numbers can come up", k as u64);
    }
    cover("pair");
}

/// So do ranges.
fn range_far(n: usize, min: usize, max: usize) {
    let r = bounded_random_range(n, min, max, &mut SymRng);
    let targets = [(0, min), (n - min, n), (0, max), (n - max, n), (n / 2, n / 2 + min), (1, 1 + min), (n - min - 1, n - 1)];
    for (k, &(x, y)) in targets.iter().enumerate() {
        reach((r.start == x) & (r.end == y), "every range of an allowed length can come up", k as u64);
    }
    let r = random_range(n, &mut SymRng);
    let targets = [(0, 1), (n - 1, n), (0, n), (0, n - 1), (1, n), (n / 2, n)];
    for (k, &(x, y)) in targets.iter().enumerate() {
        reach((r.start == x) & (r.end == y), "every range that is not empty can come up", k as u64);
    }
    cover("range");
}

entries! {
    quick c12_pair_far_2e2 => pair_far(300);
    quick c12_pair_far_2e16 => pair_far(70_000);
    quick c12_pair_far_2e32 => pair_far((1 << 32) + 3);
    quick c12_pair_far_2e60 => pair_far(1 << 60);
    quick c12_range_far_2e2 => range_far(300, 4, 280);
    quick c12_range_far_2e16 => range_far(70_000, 2, 69_999);
    quick c12_range_far_2e32 => range_far((1 << 32) + 9, 5, 1 << 32);
    quick c12_range_far_2e60 => range_far(1 << 60, 1, (1 << 60) - 5);
    quick c12_pair_2 => pair(2);
    quick c12_pair_3 => pair(3);
    quick c12_pair_4 => pair(4);
    quick c12_pair_7 => pair(7);
    quick c12_pair_12 => pair(12);
    quick c12_pair_any => pair_any(usize::MAX);
    quick c12_pair_panics => pair_panics();
    quick c12_range_111 => range(1, 1, 1);
    quick c12_range_100 => range(1, 0, 0);
    quick c12_range_401 => range(4, 0, 1);
    quick c12_range_512 => range(5, 1, 2);
    quick c12_range_524 => range(5, 2, 4);
    quick c12_range_533 => range(5, 3, 3);
    quick c12_range_705 => range(7, 0, 5);
    quick c12_range_837 => range(8, 3, 7);
    quick c12_range_any => range_any(0xffff);
    thorough c12_range_any32 => range_any(0xffff_ffff);
    quick c12_range_panics => range_panics();
    quick c12_full_1 => full_range(1);
    quick c12_full_2 => full_range(2);
    quick c12_full_3 => full_range(3);
    quick c12_full_6 => full_range(6);
    quick c12_full_9 => full_range(9);
    quick c12_full_any => full_range_any(usize::MAX >> 1);
    quick c12_full_panics => full_range_panics();
    quick c12_pair_24 => pair(24);
    quick c12_range_16 => range(16, 2, 15);
    quick c12_full_20 => full_range(20);
}
