//! The source of every symbolic value, shared by the harnesses and the models.
//!
//! Built with `--cfg vpsym` each value is a fresh symbolic variable of the symbolic executor.
//! Natively (replay of a counterexample or of a sampled path against the unmodified crate with its
//! real dependencies) the values are read back, in the same order, from a list.

#[cfg(vpsym)]
mod imp {
    // Implemented by the symbolic executor.
    extern "C" {
        /// A fresh symbolic value. `class`: 0 harness input, 1 word of the random generator,
        /// 2 choice made inside a model (no counterpart in a native run).
        fn __vp_sym(class: u32, bits: u32) -> u64;
        /// Any value below `range`, made of a word of the generator: the same one for the same word.
        fn __vp_reduce(range: u64, bits: u32, word: u64) -> u64;
        fn __vp_assume(c: bool);
        fn __vp_check(c: bool, msg: *const u8, len: usize);
        fn __vp_cover(msg: *const u8, len: usize);
        fn __vp_observe(v: u64);
        fn __vp_expect_panic(msg: *const u8, len: usize);
        /// The property wants some execution to get here with `c`.
        fn __vp_reach(c: bool, msg: *const u8, len: usize, id: u64);
        /// The run ended with outcome `id`, whose probability should be `num / den` when every
        /// bounded draw is uniform.
        fn __vp_outcome(id: u64, num: u64, den: u64);
        /// Splits the path on every value of `v`.
        fn __vp_concretize(v: u64) -> u64;
        /// Whether to split the path on every value of a whole number that becomes a float.
        fn __vp_split_floats(on: bool);
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { __vp_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, msg: &'static str) {
        unsafe { __vp_check(c, msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn cover(msg: &'static str) {
        unsafe { __vp_cover(msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn observe(v: u64) {
        unsafe { __vp_observe(v) }
    }
    #[inline(always)]
    pub fn expect_panic(msg: &'static str) {
        unsafe { __vp_expect_panic(msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn reach(c: bool, msg: &'static str, id: u64) {
        unsafe { __vp_reach(c, msg.as_ptr(), msg.len(), id) }
    }
    #[inline(always)]
    pub fn outcome(id: u64, num: u64, den: u64) {
        unsafe { __vp_outcome(id, num, den) }
    }
    #[inline(always)]
    pub fn concretize(v: u64) -> u64 {
        unsafe { __vp_concretize(v) }
    }
    #[inline(always)]
    pub fn split_floats(on: bool) {
        unsafe { __vp_split_floats(on) }
    }
    #[inline(always)]
    pub fn draw(class: u32, bits: u32) -> u64 {
        unsafe { __vp_sym(class, bits) }
    }
    static mut ANY_ORDER: bool = true;
    /// Whether hashed collections iterate in any order or in one.
    #[inline(always)]
    pub fn set_any_order(on: bool) {
        unsafe { ANY_ORDER = on }
    }
    #[inline(always)]
    pub fn any_order() -> bool {
        unsafe { ANY_ORDER }
    }
    static mut SCHEDULES: bool = false;
    #[inline(always)]
    pub fn schedules(on: bool) {
        unsafe { SCHEDULES = on }
    }
    #[inline(always)]
    pub fn scheduling() -> bool {
        unsafe { SCHEDULES }
    }
    #[inline(always)]
    pub fn reduce64(range: u64, word: u64) -> u64 {
        unsafe { __vp_reduce(range, 64, word) }
    }
    #[inline(always)]
    pub fn reduce32(range: u32, word: u32) -> u32 {
        unsafe { __vp_reduce(range as u64, 32, word as u64) as u32 }
    }
}

#[cfg(not(vpsym))]
mod imp {
    use std::sync::Mutex;

    struct Queue {
        input: Vec<u64>,
        next: usize,
        schedule: Vec<u64>,
        step: usize,
        scheduling: bool,
        observed: Vec<u64>,
        loaded: bool,
        expect_panic: Option<&'static str>,
        reached: std::collections::BTreeSet<(&'static str, u64)>,
        outcomes: std::collections::BTreeMap<u64, u64>,
    }

    static QUEUE: Mutex<Queue> = Mutex::new(Queue {
        input: Vec::new(),
        next: 0,
        schedule: Vec::new(),
        step: 0,
        scheduling: false,
        observed: Vec::new(),
        loaded: false,
        expect_panic: None,
        reached: std::collections::BTreeSet::new(),
        outcomes: std::collections::BTreeMap::new(),
    });

    fn with<T>(f: impl FnOnce(&mut Queue) -> T) -> T {
        f(&mut QUEUE.lock().unwrap_or_else(|e| e.into_inner()))
    }

    /// Starts a run with these values, and this schedule if the thread pool is modelled.
    pub fn load(values: &[u64], schedule: &[u64]) {
        with(|q| {
            q.input = values.to_vec();
            q.next = 0;
            q.schedule = schedule.to_vec();
            q.step = 0;
            q.scheduling = false;
            q.observed.clear();
            q.loaded = true;
            q.expect_panic = None;
        })
    }

    pub fn observed() -> Vec<u64> {
        with(|q| q.observed.clone())
    }

    pub fn panic_expected() -> Option<&'static str> {
        with(|q| q.expect_panic)
    }

    /// Raised by `assume` when the replayed values leave the assumptions of the harness.
    pub struct AssumptionBroken;

    /// Raised by `check`.
    pub struct CheckFailed(pub &'static str);

    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumptionBroken)
        }
    }
    pub fn check(c: bool, msg: &'static str) {
        if !c {
            std::panic::panic_any(CheckFailed(msg))
        }
    }
    pub fn cover(_msg: &'static str) {}
    pub fn reach(c: bool, msg: &'static str, id: u64) {
        if c {
            with(|q| {
                q.reached.insert((msg, id));
            })
        }
    }
    /// The `reach` conditions met so far, over all runs.
    pub fn reached() -> Vec<(&'static str, u64)> {
        with(|q| q.reached.iter().copied().collect())
    }
    pub fn outcome(id: u64, _num: u64, _den: u64) {
        with(|q| *q.outcomes.entry(id).or_insert(0) += 1)
    }
    /// How often each outcome was seen, over all runs.
    pub fn outcomes() -> Vec<(u64, u64)> {
        with(|q| q.outcomes.iter().map(|(a, b)| (*a, *b)).collect())
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn split_floats(_on: bool) {}
    pub fn observe(v: u64) {
        with(|q| q.observed.push(v))
    }
    pub fn expect_panic(msg: &'static str) {
        with(|q| q.expect_panic = Some(msg))
    }
    pub fn set_any_order(_on: bool) {}
    pub fn any_order() -> bool {
        false
    }
    pub fn schedules(on: bool) {
        with(|q| q.scheduling = on)
    }
    pub fn scheduling() -> bool {
        with(|q| q.scheduling)
    }
    pub fn draw(class: u32, bits: u32) -> u64 {
        if class == 2 {
            return 0;
        }
        if class == 3 {
            return with(|q| {
                q.step += 1;
                q.schedule.get(q.step - 1).copied().unwrap_or(0)
            });
        }
        with(|q| {
            let v = q.input.get(q.next).copied().unwrap_or(0);
            q.next += 1;
            if bits < 64 {
                v & ((1u64 << bits) - 1)
            } else {
                v
            }
        })
    }
    pub fn reduce64(_range: u64, _word: u64) -> u64 {
        unimplemented!("a native run uses the real rand")
    }
    pub fn reduce32(_range: u32, _word: u32) -> u32 {
        unimplemented!("a native run uses the real rand")
    }
}
pub use imp::*;

#[inline(always)]
pub fn u8() -> u8 {
    draw(0, 8) as u8
}
#[inline(always)]
pub fn u16() -> u16 {
    draw(0, 16) as u16
}
#[inline(always)]
pub fn u32() -> u32 {
    draw(0, 32) as u32
}
#[inline(always)]
pub fn u64() -> u64 {
    draw(0, 64)
}
#[inline(always)]
pub fn bool() -> bool {
    draw(0, 1) != 0
}
/// Any bit pattern.
#[inline(always)]
pub fn f64() -> f64 {
    f64::from_bits(u64())
}
/// Any value of `0..n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    let v = u8() as usize;
    assume(v < n);
    v
}
/// Any value of `0..n`, on a path of its own.
#[inline(always)]
pub fn pick(n: usize) -> usize {
    concretize(below(n) as u64) as usize
}
/// A choice of the thread pool among `n`, on a path of its own.
#[inline(always)]
pub fn choice(n: usize) -> usize {
    if n < 2 {
        return 0;
    }
    let v = draw(3, 8) as usize;
    assume(v < n);
    concretize(v as u64) as usize
}
#[inline(always)]
pub fn rng_u32() -> u32 {
    draw(1, 32) as u32
}
#[inline(always)]
pub fn rng_u64() -> u64 {
    draw(1, 64)
}
/// A value used only inside a model (iteration order of a hash map, ...).
#[inline(always)]
pub fn internal_u8() -> u8 {
    draw(2, 8) as u8
}
