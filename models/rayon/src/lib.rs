//! Model of the part of rayon 1.7 that a crate like rusty_genes uses.
//!
//! By default every parallel iterator runs its items in index order on the calling thread, as one
//! job.  When the harness asks for schedules (`vpq::schedules(true)`), the items are split into any
//! contiguous jobs, the jobs are interleaved in any way (each closure call as one step), sums and
//! reductions associate along any tree of splits, sorts that are not stable leave equal elements in
//! any order, and `join` runs either side first: every choice is one of the solver's.
//!
//! What it keeps of rayon's contract: the results, their order for indexed iterators, and that
//! `*_init` / `*_with` state is made once per job.  What it leaves out (stated in DESIGN.md): the
//! interleaving of worker threads within a closure call.

pub fn current_num_threads() -> usize {
    if vpq::scheduling() {
        1 + vpq::choice(2)
    } else {
        1
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if vpq::scheduling() && vpq::choice(2) == 1 {
        let rb = b();
        let ra = a();
        return (ra, rb);
    }
    let ra = a();
    let rb = b();
    (ra, rb)
}

pub fn current_thread_index() -> Option<usize> {
    Some(if vpq::scheduling() { vpq::choice(2) } else { 0 })
}

/// What is spawned runs at once.
pub struct Scope;

impl Scope {
    pub fn spawn<F: FnOnce(&Scope)>(&self, f: F) {
        f(self)
    }
}

pub fn scope<R, F: FnOnce(&Scope) -> R>(f: F) -> R {
    f(&Scope)
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;

#[derive(Default)]
pub struct ThreadPoolBuilder;

pub struct ThreadPool;

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

impl ThreadPool {
    pub fn install<R, F: FnOnce() -> R>(&self, f: F) -> R {
        f()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}

pub mod prelude {
    pub use crate::iter::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator,
        IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelDrainRange, ParallelExtend,
        ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}

pub mod iter {
    use std::cmp::Ordering;

    pub struct Par<I>(pub I);

    /// The job of each item: contiguous jobs of any sizes.
    fn jobs(n: usize) -> Vec<usize> {
        let mut v = Vec::with_capacity(n);
        let mut job = 0;
        for i in 0..n {
            if i > 0 {
                job += vpq::choice(2);
            }
            v.push(job);
        }
        v
    }

    /// Any order of the items that runs those of a job in order.
    fn order(job: &[usize]) -> Vec<usize> {
        let n = job.len();
        let mut ran = vec![false; n];
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            // the first item left of each job
            let mut ready = Vec::with_capacity(n);
            let mut last = usize::MAX;
            for i in 0..n {
                if !ran[i] && job[i] != last {
                    ready.push(i);
                    last = job[i];
                }
            }
            let i = ready[vpq::choice(ready.len())];
            ran[i] = true;
            v.push(i);
        }
        v
    }

    /// Runs `f` on every item as scheduled, with the state of its job.
    pub(crate) fn scheduled<X, T, R>(items: Vec<X>, mut init: impl FnMut() -> T, mut f: impl FnMut(&mut T, X) -> R) -> Vec<R> {
        let n = items.len();
        let job = jobs(n);
        let mut items: Vec<Option<X>> = items.into_iter().map(Some).collect();
        let mut states: Vec<Option<T>> = (0..n).map(|_| None).collect();
        let mut results: Vec<Option<R>> = (0..n).map(|_| None).collect();
        for i in order(&job) {
            let state = &mut states[job[i]];
            if state.is_none() {
                *state = Some(init());
            }
            let x = items[i].take().unwrap();
            results[i] = Some(f(state.as_mut().unwrap(), x));
        }
        results.into_iter().map(|r| r.unwrap()).collect()
    }

    /// Any tree of splits; `None` for no items.
    fn tree<X, R>(items: &mut Vec<X>, n: usize, leaf: &impl Fn(Vec<X>) -> R, join: &impl Fn(R, R) -> R) -> R {
        // the first `n` items
        let k = if n > 1 { vpq::choice(n) } else { 0 };
        if k == 0 {
            let rest = items.split_off(n);
            let mine = std::mem::replace(items, rest);
            return leaf(mine);
        }
        let a = tree(items, k, leaf, join);
        let b = tree(items, n - k, leaf, join);
        join(a, b)
    }

    pub(crate) fn associated<X, R>(mut items: Vec<X>, leaf: impl Fn(Vec<X>) -> R, join: impl Fn(R, R) -> R) -> R {
        let n = items.len();
        tree(&mut items, n, &leaf, &join)
    }

    impl<I: Iterator> ParallelIterator for Par<I> {
        type Item = I::Item;
        type Seq = I;
        #[inline]
        fn seq(self) -> I {
            self.0
        }
    }
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}

    pub trait Length {
        fn length(&self) -> usize;
    }
    impl<I: ExactSizeIterator> Length for Par<I> {
        fn length(&self) -> usize {
            self.0.len()
        }
    }

    /// An ordinary iterator, whose items come in any order.
    pub trait ParallelBridge: Iterator + Sized {
        fn par_bridge(self) -> Par<std::vec::IntoIter<Self::Item>> {
            let mut v: Vec<Self::Item> = self.collect();
            if vpq::scheduling() {
                let n = v.len();
                for i in 0..n {
                    let j = i + vpq::choice(n - i);
                    v.swap(i, j);
                }
            }
            Par(v.into_iter())
        }
    }
    impl<I: Iterator> ParallelBridge for I {}

    pub trait ParallelIterator: Sized {
        type Item;
        type Seq: Iterator<Item = Self::Item>;

        #[doc(hidden)]
        fn seq(self) -> Self::Seq;

        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            if vpq::scheduling() {
                scheduled(self.seq().collect(), || (), |_, x| f(x));
                return;
            }
            for x in self.seq() {
                f(x)
            }
        }
        fn for_each_with<T: Send + Clone, F: Fn(&mut T, Self::Item) + Sync + Send>(
            self,
            init: T,
            f: F,
        ) {
            if vpq::scheduling() {
                scheduled(self.seq().collect(), || init.clone(), |t, x| f(t, x));
                return;
            }
            let mut t = init;
            for x in self.seq() {
                f(&mut t, x)
            }
        }
        fn for_each_init<T, N: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) + Sync + Send>(
            self,
            init: N,
            f: F,
        ) {
            if vpq::scheduling() {
                scheduled(self.seq().collect(), || init(), |t, x| f(t, x));
                return;
            }
            let mut t = init();
            for x in self.seq() {
                f(&mut t, x)
            }
        }
        fn map<R, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<MapPlain<Self::Seq, F, R>> {
            let mut seq = Some(self.seq());
            let mut done = None;
            if vpq::scheduling() {
                done = Some(scheduled(seq.take().unwrap().collect(), || (), |_, x| f(x)).into_iter());
            }
            Par(MapPlain { seq, f, done })
        }
        fn map_with<T: Send + Clone, R, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(
            self,
            init: T,
            f: F,
        ) -> Par<MapState<Self::Seq, T, F, R>> {
            if vpq::scheduling() {
                let done = scheduled(self.seq().collect(), || init.clone(), |t, x| f(t, x)).into_iter();
                return Par(MapState { seq: None, state: None, f, done: Some(done) });
            }
            Par(MapState { seq: Some(self.seq()), state: Some(init), f, done: None })
        }
        fn map_init<T, N: Fn() -> T + Sync + Send, R, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(
            self,
            init: N,
            f: F,
        ) -> Par<MapState<Self::Seq, T, F, R>> {
            if vpq::scheduling() {
                let done = scheduled(self.seq().collect(), || init(), |t, x| f(t, x)).into_iter();
                return Par(MapState { seq: None, state: None, f, done: Some(done) });
            }
            Par(MapState { seq: Some(self.seq()), state: Some(init()), f, done: None })
        }
        fn cloned<'a, T: 'a + Clone>(self) -> Par<std::iter::Cloned<Self::Seq>>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Par(self.seq().cloned())
        }
        fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<Self::Seq>>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Par(self.seq().copied())
        }
        fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<std::iter::Inspect<Self::Seq, F>> {
            Par(self.seq().inspect(f))
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<std::iter::Filter<Self::Seq, F>> {
            Par(self.seq().filter(f))
        }
        fn filter_map<R, F: Fn(Self::Item) -> Option<R> + Sync + Send>(
            self,
            f: F,
        ) -> Par<std::iter::FilterMap<Self::Seq, F>> {
            Par(self.seq().filter_map(f))
        }
        fn flat_map_iter<S: IntoIterator, F: Fn(Self::Item) -> S + Sync + Send>(
            self,
            f: F,
        ) -> Par<std::iter::FlatMap<Self::Seq, S, F>> {
            Par(self.seq().flat_map(f))
        }
        fn flat_map<S: IntoParallelIterator, F: Fn(Self::Item) -> S + Sync + Send>(self, f: F) -> Par<std::vec::IntoIter<S::Item>> {
            let mut v = Vec::new();
            for x in self.seq() {
                v.extend(f(x).into_par_iter().seq())
            }
            Par(v.into_iter())
        }
        fn flatten(self) -> Par<std::vec::IntoIter<<Self::Item as IntoParallelIterator>::Item>>
        where
            Self::Item: IntoParallelIterator,
        {
            self.flat_map(|x| x)
        }
        fn flatten_iter(self) -> Par<std::iter::Flatten<Self::Seq>>
        where
            Self::Item: IntoIterator,
        {
            Par(self.seq().flatten())
        }
        fn update<F: Fn(&mut Self::Item) + Sync + Send>(self, f: F) -> Par<std::vec::IntoIter<Self::Item>> {
            let v: Vec<Self::Item> = self
                .map(|mut x| {
                    f(&mut x);
                    x
                })
                .seq()
                .collect();
            Par(v.into_iter())
        }
        fn fold_with<T: Clone + Send, F: Fn(T, Self::Item) -> T>(self, init: T, f: F) -> Par<std::vec::IntoIter<T>> {
            self.fold(|| init.clone(), f)
        }
        fn try_for_each<R: Try<Output = ()>, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> R {
            for x in self.seq() {
                if let Err(r) = f(x).branch() {
                    return r;
                }
            }
            R::from_output(())
        }
        fn try_reduce<T, D: Fn() -> T, F: Fn(T, T) -> Self::Item>(self, identity: D, f: F) -> Self::Item
        where
            Self::Item: Try<Output = T>,
        {
            let mut acc = identity();
            for x in self.seq() {
                let x = match x.branch() {
                    Ok(x) => x,
                    Err(r) => return r,
                };
                acc = match f(acc, x).branch() {
                    Ok(x) => x,
                    Err(r) => return r,
                };
            }
            Self::Item::from_output(acc)
        }
        fn find_last<F: Fn(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> {
            self.seq().filter(|x| f(x)).last()
        }
        fn find_map_first<R, F: Fn(Self::Item) -> Option<R>>(self, f: F) -> Option<R> {
            let mut seq = self.seq();
            seq.find_map(f)
        }
        fn find_map_any<R, F: Fn(Self::Item) -> Option<R>>(self, f: F) -> Option<R> {
            if vpq::scheduling() {
                let mut v: Vec<R> = self.seq().filter_map(f).collect();
                let n = v.len();
                return if n == 0 { None } else { Some(v.swap_remove(vpq::choice(n))) };
            }
            let mut seq = self.seq();
            seq.find_map(f)
        }
        fn panic_fuse(self) -> Self {
            self
        }
        fn opt_len(&self) -> Option<usize> {
            None
        }
        fn reduce<D: Fn() -> Self::Item, F: Fn(Self::Item, Self::Item) -> Self::Item>(
            self,
            identity: D,
            f: F,
        ) -> Self::Item {
            let sequential = |v: Vec<Self::Item>| {
                let mut acc = identity();
                for x in v {
                    acc = f(acc, x)
                }
                acc
            };
            if vpq::scheduling() {
                return associated(self.seq().collect(), sequential, |a, b| f(a, b));
            }
            let mut acc = identity();
            for x in self.seq() {
                acc = f(acc, x)
            }
            acc
        }
        fn reduce_with<F: Fn(Self::Item, Self::Item) -> Self::Item>(self, f: F) -> Option<Self::Item> {
            if vpq::scheduling() {
                let items: Vec<Self::Item> = self.seq().collect();
                if items.is_empty() {
                    return None;
                }
                let leaf = |v: Vec<Self::Item>| v.into_iter().reduce(|a, b| f(a, b)).unwrap();
                return Some(associated(items, leaf, |a, b| f(a, b)));
            }
            self.seq().reduce(f)
        }
        fn fold<T, D: Fn() -> T, F: Fn(T, Self::Item) -> T>(
            self,
            identity: D,
            f: F,
        ) -> Par<std::vec::IntoIter<T>> {
            if vpq::scheduling() {
                let items: Vec<Self::Item> = self.seq().collect();
                let job = jobs(items.len());
                let mut accs: Vec<T> = Vec::new();
                for (i, x) in items.into_iter().enumerate() {
                    let acc = if accs.len() == job[i] { identity() } else { accs.pop().unwrap() };
                    accs.push(f(acc, x));
                }
                return Par(accs.into_iter());
            }
            let mut acc = identity();
            for x in self.seq() {
                acc = f(acc, x)
            }
            let mut v = Vec::new();
            v.push(acc);
            Par(v.into_iter())
        }
        fn sum<S: std::iter::Sum<Self::Item> + std::iter::Sum<S>>(self) -> S {
            if vpq::scheduling() {
                return associated(
                    self.seq().collect(),
                    |v: Vec<Self::Item>| v.into_iter().sum(),
                    |a: S, b: S| std::iter::once(a).chain(std::iter::once(b)).sum(),
                );
            }
            self.seq().sum()
        }
        fn product<S: std::iter::Product<Self::Item> + std::iter::Product<S>>(self) -> S {
            if vpq::scheduling() {
                return associated(
                    self.seq().collect(),
                    |v: Vec<Self::Item>| v.into_iter().product(),
                    |a: S, b: S| std::iter::once(a).chain(std::iter::once(b)).product(),
                );
            }
            self.seq().product()
        }
        fn count(self) -> usize {
            self.seq().count()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.seq().min()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.seq().max()
        }
        fn min_by<F: Fn(&Self::Item, &Self::Item) -> Ordering>(self, f: F) -> Option<Self::Item> {
            self.seq().min_by(f)
        }
        fn max_by<F: Fn(&Self::Item, &Self::Item) -> Ordering>(self, f: F) -> Option<Self::Item> {
            self.seq().max_by(f)
        }
        fn min_by_key<K: Ord, F: Fn(&Self::Item) -> K>(self, f: F) -> Option<Self::Item> {
            self.seq().min_by_key(f)
        }
        fn max_by_key<K: Ord, F: Fn(&Self::Item) -> K>(self, f: F) -> Option<Self::Item> {
            self.seq().max_by_key(f)
        }
        fn chain<C: IntoParallelIterator<Item = Self::Item>>(
            self,
            c: C,
        ) -> Par<std::iter::Chain<Self::Seq, <C::Iter as ParallelIterator>::Seq>> {
            Par(self.seq().chain(c.into_par_iter().seq()))
        }
        fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            self.seq().any(f)
        }
        fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            self.seq().all(f)
        }
        fn find_any<F: Fn(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> {
            if vpq::scheduling() {
                let mut v: Vec<Self::Item> = self.seq().filter(|x| f(x)).collect();
                let n = v.len();
                return if n == 0 { None } else { Some(v.swap_remove(vpq::choice(n))) };
            }
            self.seq().find(f)
        }
        fn find_first<F: Fn(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> {
            self.seq().find(f)
        }
        fn collect<C: std::iter::FromIterator<Self::Item>>(self) -> C {
            self.seq().collect()
        }
        fn unzip<A, B, FA, FB>(self) -> (FA, FB)
        where
            Self: ParallelIterator<Item = (A, B)>,
            FA: Default + Extend<A>,
            FB: Default + Extend<B>,
        {
            self.seq().unzip()
        }
        fn partition<A, F: Fn(&Self::Item) -> bool>(self, f: F) -> (A, A)
        where
            A: Default + Extend<Self::Item>,
        {
            self.seq().partition(f)
        }
    }

    /// What `try_*` closures return, as far as stable Rust can say.
    pub trait Try {
        type Output;
        fn from_output(o: Self::Output) -> Self;
        fn branch(self) -> Result<Self::Output, Self>
        where
            Self: Sized;
    }
    impl<T> Try for Option<T> {
        type Output = T;
        fn from_output(o: T) -> Self {
            Some(o)
        }
        fn branch(self) -> Result<T, Self> {
            match self {
                Some(x) => Ok(x),
                None => Err(None),
            }
        }
    }
    impl<T, E> Try for Result<T, E> {
        type Output = T;
        fn from_output(o: T) -> Self {
            Ok(o)
        }
        fn branch(self) -> Result<T, Self> {
            match self {
                Ok(x) => Ok(x),
                Err(e) => Err(Err(e)),
            }
        }
    }

    pub trait IndexedParallelIterator: ParallelIterator {
        fn chunks(self, n: usize) -> Par<std::vec::IntoIter<Vec<Self::Item>>> {
            assert!(n != 0);
            let mut v: Vec<Vec<Self::Item>> = Vec::new();
            for (i, x) in self.seq().enumerate() {
                if i % n == 0 {
                    v.push(Vec::new());
                }
                v.last_mut().unwrap().push(x);
            }
            Par(v.into_iter())
        }
        fn fold_chunks<T, D: Fn() -> T, F: Fn(T, Self::Item) -> T>(self, n: usize, identity: D, f: F) -> Par<std::vec::IntoIter<T>> {
            let v: Vec<T> = self.chunks(n).seq().map(|c| c.into_iter().fold(identity(), |a, x| f(a, x))).collect();
            Par(v.into_iter())
        }
        fn step_by(self, n: usize) -> Par<std::iter::StepBy<Self::Seq>> {
            Par(self.seq().step_by(n))
        }
        fn zip_eq<Z: IntoParallelIterator>(
            self,
            z: Z,
        ) -> Par<std::iter::Zip<Self::Seq, <Z::Iter as ParallelIterator>::Seq>> {
            Par(self.seq().zip(z.into_par_iter().seq()))
        }
        fn len(&self) -> usize
        where
            Self: Length,
        {
            self.length()
        }
        fn position_last<F: Fn(Self::Item) -> bool>(self, f: F) -> Option<usize> {
            let mut r = None;
            for (i, x) in self.seq().enumerate() {
                if f(x) {
                    r = Some(i);
                }
            }
            r
        }
        fn unzip_into_vecs<A, B>(self, left: &mut Vec<A>, right: &mut Vec<B>)
        where
            Self: ParallelIterator<Item = (A, B)>,
        {
            left.clear();
            right.clear();
            for (a, b) in self.seq() {
                left.push(a);
                right.push(b);
            }
        }
        fn cmp<I: IntoParallelIterator<Item = Self::Item>>(self, o: I) -> Ordering
        where
            Self::Item: Ord,
        {
            self.seq().cmp(o.into_par_iter().seq())
        }
        fn partial_cmp<I: IntoParallelIterator<Item = Self::Item>>(self, o: I) -> Option<Ordering>
        where
            Self::Item: PartialOrd,
        {
            self.seq().partial_cmp(o.into_par_iter().seq())
        }
        fn eq<I: IntoParallelIterator<Item = Self::Item>>(self, o: I) -> bool
        where
            Self::Item: PartialEq,
        {
            self.seq().eq(o.into_par_iter().seq())
        }
        fn enumerate(self) -> Par<std::iter::Enumerate<Self::Seq>> {
            Par(self.seq().enumerate())
        }
        fn zip<Z: IntoParallelIterator>(
            self,
            z: Z,
        ) -> Par<std::iter::Zip<Self::Seq, <Z::Iter as ParallelIterator>::Seq>> {
            Par(self.seq().zip(z.into_par_iter().seq()))
        }
        fn rev(self) -> Par<std::iter::Rev<Self::Seq>>
        where
            Self::Seq: DoubleEndedIterator,
        {
            Par(self.seq().rev())
        }
        fn take(self, n: usize) -> Par<std::iter::Take<Self::Seq>> {
            Par(self.seq().take(n))
        }
        fn skip(self, n: usize) -> Par<std::iter::Skip<Self::Seq>> {
            Par(self.seq().skip(n))
        }
        fn with_min_len(self, _n: usize) -> Self {
            self
        }
        fn with_max_len(self, _n: usize) -> Self {
            self
        }
        fn position_first<F: Fn(Self::Item) -> bool>(self, f: F) -> Option<usize> {
            self.seq().position(f)
        }
        fn position_any<F: Fn(Self::Item) -> bool>(self, f: F) -> Option<usize> {
            if vpq::scheduling() {
                let v: Vec<usize> = self.seq().enumerate().filter_map(|(i, x)| if f(x) { Some(i) } else { None }).collect();
                return if v.is_empty() { None } else { Some(v[vpq::choice(v.len())]) };
            }
            self.seq().position(f)
        }
        fn collect_into_vec(self, target: &mut Vec<Self::Item>) {
            target.clear();
            for x in self.seq() {
                target.push(x)
            }
        }
    }

    pub struct MapPlain<S, F, R> {
        seq: Option<S>,
        f: F,
        done: Option<std::vec::IntoIter<R>>,
    }

    impl<S: Iterator, R, F: Fn(S::Item) -> R> Iterator for MapPlain<S, F, R> {
        type Item = R;
        #[inline]
        fn next(&mut self) -> Option<R> {
            match &mut self.seq {
                Some(s) => match s.next() {
                    Some(x) => Some((self.f)(x)),
                    None => None,
                },
                None => self.done.as_mut().unwrap().next(),
            }
        }
    }
    impl<S: DoubleEndedIterator, R, F: Fn(S::Item) -> R> DoubleEndedIterator for MapPlain<S, F, R> {
        fn next_back(&mut self) -> Option<R> {
            match &mut self.seq {
                Some(s) => match s.next_back() {
                    Some(x) => Some((self.f)(x)),
                    None => None,
                },
                None => self.done.as_mut().unwrap().next_back(),
            }
        }
    }

    pub struct MapState<S, T, F, R> {
        seq: Option<S>,
        state: Option<T>,
        f: F,
        done: Option<std::vec::IntoIter<R>>,
    }

    impl<S: Iterator, T, R, F: Fn(&mut T, S::Item) -> R> Iterator for MapState<S, T, F, R> {
        type Item = R;
        #[inline]
        fn next(&mut self) -> Option<R> {
            match &mut self.seq {
                Some(s) => match s.next() {
                    Some(x) => Some((self.f)(self.state.as_mut().unwrap(), x)),
                    None => None,
                },
                None => self.done.as_mut().unwrap().next(),
            }
        }
    }

    pub trait IntoParallelIterator {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }

    impl<P: ParallelIterator> IntoParallelIterator for P {
        type Item = P::Item;
        type Iter = P;
        fn into_par_iter(self) -> P {
            self
        }
    }

    impl<T> IntoParallelIterator for Vec<T> {
        type Item = T;
        type Iter = Par<std::vec::IntoIter<T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a Vec<T> {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a mut Vec<T> {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a [T] {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a mut [T] {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    macro_rules! ranges {
        ($($t:ty)*) => {$(
            impl IntoParallelIterator for std::ops::Range<$t> {
                type Item = $t;
                type Iter = Par<std::ops::Range<$t>>;
                fn into_par_iter(self) -> Self::Iter {
                    Par(self)
                }
            }
            impl IntoParallelIterator for std::ops::RangeInclusive<$t> {
                type Item = $t;
                type Iter = Par<std::ops::RangeInclusive<$t>>;
                fn into_par_iter(self) -> Self::Iter {
                    Par(self)
                }
            }
        )*};
    }
    impl<T, const N: usize> IntoParallelIterator for [T; N] {
        type Item = T;
        type Iter = Par<std::array::IntoIter<T, N>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    impl<'a, T, const N: usize> IntoParallelIterator for &'a [T; N] {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<'a, T, const N: usize> IntoParallelIterator for &'a mut [T; N] {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    impl<T> IntoParallelIterator for Option<T> {
        type Item = T;
        type Iter = Par<std::option::IntoIter<T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    impl<A: IntoParallelIterator, B: IntoParallelIterator> IntoParallelIterator for (A, B) {
        type Item = (A::Item, B::Item);
        type Iter = Par<std::iter::Zip<<A::Iter as ParallelIterator>::Seq, <B::Iter as ParallelIterator>::Seq>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.0.into_par_iter().seq().zip(self.1.into_par_iter().seq()))
        }
    }
    impl<T, S> IntoParallelIterator for std::collections::HashSet<T, S> {
        type Item = T;
        type Iter = Par<std::collections::hash_set::IntoIter<T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    impl<'a, T, S> IntoParallelIterator for &'a std::collections::HashSet<T, S> {
        type Item = &'a T;
        type Iter = Par<std::collections::hash_set::Iter<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<T> IntoParallelIterator for std::collections::VecDeque<T> {
        type Item = T;
        type Iter = Par<std::collections::vec_deque::IntoIter<T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    ranges! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize }

    pub trait IntoParallelRefIterator<'data> {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: 'data;
        fn par_iter(&'data self) -> Self::Iter;
    }
    impl<'data, I: 'data + ?Sized> IntoParallelRefIterator<'data> for I
    where
        &'data I: IntoParallelIterator,
    {
        type Iter = <&'data I as IntoParallelIterator>::Iter;
        type Item = <&'data I as IntoParallelIterator>::Item;
        fn par_iter(&'data self) -> Self::Iter {
            self.into_par_iter()
        }
    }

    pub trait IntoParallelRefMutIterator<'data> {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: 'data;
        fn par_iter_mut(&'data mut self) -> Self::Iter;
    }
    impl<'data, I: 'data + ?Sized> IntoParallelRefMutIterator<'data> for I
    where
        &'data mut I: IntoParallelIterator,
    {
        type Iter = <&'data mut I as IntoParallelIterator>::Iter;
        type Item = <&'data mut I as IntoParallelIterator>::Item;
        fn par_iter_mut(&'data mut self) -> Self::Iter {
            self.into_par_iter()
        }
    }

    pub trait ParallelExtend<T> {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, par_iter: I);
    }
    impl<T> ParallelExtend<T> for Vec<T> {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, par_iter: I) {
            for x in par_iter.into_par_iter().seq() {
                self.push(x)
            }
        }
    }

    pub trait FromParallelIterator<T>: Sized {
        fn from_par_iter<I: IntoParallelIterator<Item = T>>(par_iter: I) -> Self;
    }
    impl<T, C: std::iter::FromIterator<T>> FromParallelIterator<T> for C {
        fn from_par_iter<I: IntoParallelIterator<Item = T>>(par_iter: I) -> Self {
            par_iter.into_par_iter().seq().collect()
        }
    }

    pub trait ParallelDrainRange<Idx = usize> {
        type Item;
        type DrainIter<'a>: ParallelIterator<Item = Self::Item>
        where
            Self: 'a;
        fn par_drain<R: std::ops::RangeBounds<Idx>>(&mut self, range: R) -> Self::DrainIter<'_>;
    }
    impl<T> ParallelDrainRange<usize> for Vec<T> {
        type Item = T;
        type DrainIter<'a>
            = Par<std::vec::Drain<'a, T>>
        where
            T: 'a;
        fn par_drain<R: std::ops::RangeBounds<usize>>(&mut self, range: R) -> Self::DrainIter<'_> {
            Par(self.drain(range))
        }
    }

    /// `count` clones of `element`, the last one the element itself.
    pub fn repeatn<T: Clone + Send>(element: T, n: usize) -> Par<RepeatN<T>> {
        Par(RepeatN { element, n })
    }

    pub struct RepeatN<T> {
        element: T,
        n: usize,
    }
    impl<T: Clone> Iterator for RepeatN<T> {
        type Item = T;
        #[inline]
        fn next(&mut self) -> Option<T> {
            if self.n == 0 {
                None
            } else {
                self.n -= 1;
                Some(self.element.clone())
            }
        }
    }

    /// Clones of `element` without end; to be cut by `take` or `zip`.
    pub fn repeat<T: Clone + Send>(element: T) -> Repeat<T> {
        Repeat { element }
    }

    pub struct Repeat<T> {
        element: T,
    }
    impl<T: Clone + Send> Repeat<T> {
        pub fn take(self, n: usize) -> Par<RepeatN<T>> {
            repeatn(self.element, n)
        }
        pub fn zip<Z: IntoParallelIterator>(
            self,
            z: Z,
        ) -> Par<std::iter::Zip<std::iter::Repeat<T>, <Z::Iter as ParallelIterator>::Seq>> {
            Par(std::iter::repeat(self.element).zip(z.into_par_iter().seq()))
        }
    }
    /// The name that later versions give it.
    pub fn repeat_n<T: Clone + Send>(element: T, n: usize) -> Par<RepeatN<T>> {
        repeatn(element, n)
    }

    pub fn once<T: Send>(item: T) -> Par<std::iter::Once<T>> {
        Par(std::iter::once(item))
    }
    pub fn empty<T: Send>() -> Par<std::iter::Empty<T>> {
        Par(std::iter::empty())
    }
}

pub mod slice {
    use crate::iter::Par;
    use std::cmp::Ordering;

    pub trait ParallelSlice<T> {
        fn as_parallel_slice(&self) -> &[T];
        fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> {
            Par(self.as_parallel_slice().windows(n))
        }
        fn par_chunks_exact(&self, n: usize) -> Par<std::slice::ChunksExact<'_, T>> {
            Par(self.as_parallel_slice().chunks_exact(n))
        }
        fn par_rchunks(&self, n: usize) -> Par<std::slice::RChunks<'_, T>> {
            Par(self.as_parallel_slice().rchunks(n))
        }
        fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> {
            Par(self.as_parallel_slice().chunks(n))
        }
    }
    impl<T> ParallelSlice<T> for [T] {
        fn as_parallel_slice(&self) -> &[T] {
            self
        }
    }

    /// Any order of equal elements.
    fn unstable<T>(v: &mut [T], less: impl Fn(&T, &T) -> bool) {
        if vpq::scheduling() {
            bubble(v, |a, b| less(a, b) || (!less(b, a) && vpq::choice(2) == 1))
        } else {
            bubble(v, less)
        }
    }

    fn bubble<T>(v: &mut [T], less: impl Fn(&T, &T) -> bool) {
        let n = v.len();
        let mut i = 1;
        while i < n {
            let mut j = 0;
            while j < n - i {
                if less(&v[j + 1], &v[j]) {
                    v.swap(j, j + 1)
                }
                j += 1;
            }
            i += 1;
        }
    }

    pub trait ParallelSliceMut<T> {
        fn as_parallel_slice_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>> {
            Par(self.as_parallel_slice_mut().chunks_mut(n))
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<std::slice::ChunksExactMut<'_, T>> {
            Par(self.as_parallel_slice_mut().chunks_exact_mut(n))
        }
        fn par_rchunks_mut(&mut self, n: usize) -> Par<std::slice::RChunksMut<'_, T>> {
            Par(self.as_parallel_slice_mut().rchunks_mut(n))
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            bubble(self.as_parallel_slice_mut(), |a, b| a.cmp(b) == Ordering::Less)
        }
        fn par_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) {
            bubble(self.as_parallel_slice_mut(), |a, b| f(a, b) == Ordering::Less)
        }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            bubble(self.as_parallel_slice_mut(), |a, b| f(a) < f(b))
        }
        fn par_sort_by_cached_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            bubble(self.as_parallel_slice_mut(), |a, b| f(a) < f(b))
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            unstable(self.as_parallel_slice_mut(), |a, b| a.cmp(b) == Ordering::Less)
        }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) {
            unstable(self.as_parallel_slice_mut(), |a, b| f(a, b) == Ordering::Less)
        }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            unstable(self.as_parallel_slice_mut(), |a, b| f(a) < f(b))
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn as_parallel_slice_mut(&mut self) -> &mut [T] {
            self
        }
    }
}
