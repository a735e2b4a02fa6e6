//! C15: selecting an individual other than a given one.
use crate::*;
use std::cell::Cell;

/// Selects at the scripted indices, and counts the calls.
struct Script {
    at: [u8; 80],
    calls: Cell<usize>,
}

unsafe impl Sync for Script {}

impl SelectionMechanism<Ind, SymRng> for Script {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut SymRng) -> (usize, &'a Ind) {
        let k = self.calls.get();
        self.calls.set(k + 1);
        let i = self.at[k.min(79)] as usize;
        (i, &p[i])
    }
}

/// Individuals of arbitrary tags (equal when the tags are) and ascending fitness.
fn distinct<const N: usize>(tries: usize) {
    let v: Vec<Ind> = (0..N).map(|i| ind(i as f64, below(3) as u8)).collect();
    let p = Population::new(v);
    let n = p.len();
    let mut s = Script { at: [0; 80], calls: Cell::new(0) };
    for k in 0..8 {
        s.at[k] = pick(n) as u8;
        if k + 1 >= tries {
            break;
        }
    }
    let excluded = ind(vpq::u8() as f64, below(3) as u8);
    let r = s.select_distinct(&p, &mut SymRng, tries, &excluded);
    let mut first = tries;
    for k in (0..tries).rev() {
        first = if p[s.at[k] as usize].tag != excluded.tag { k } else { first };
    }
    match r {
        Some((i, who)) => {
            check(i < n, "the index is within the population");
            check(std::ptr::eq(who, &p[i]), "the individual is the one at the index");
            check(who.tag != excluded.tag, "the individual differs from the excluded one");
            check((first < tries) && i == s.at[first] as usize, "it is the first selected one that differs");
            check(s.calls.get() == first + 1, "the selection is repeated until an individual differs");
            cover("found");
        }
        None => {
            check(first == tries, "none is returned only when no selected individual differed");
            check(s.calls.get() == tries, "the selection is tried max_tries times");
            cover("none");
        }
    }
}

/// More tries; the first `k` individuals selected are equal to the excluded one.
fn patient<const N: usize>(tries: usize) {
    let p = Population::new((0..N).map(|i| ind(i as f64, i as u8)).collect());
    let k = pick(tries + 2);
    let (e, other) = (pick(N), pick(N));
    assume(e != other);
    let mut s = Script { at: [other as u8; 80], calls: Cell::new(0) };
    for i in 0..k {
        s.at[i] = e as u8;
    }
    let r = s.select_distinct(&p, &mut SymRng, tries, &ind(0.5, e as u8));
    if k < tries {
        check(matches!(r, Some((i, who)) if i == other && who.tag == other as u8), "it is the first selected one that differs");
        check(s.calls.get() == k + 1, "the selection is repeated until an individual differs");
        cover("found");
    } else {
        check(r.is_none(), "none is returned only when no selected individual differed");
        check(s.calls.get() == tries, "the selection is tried max_tries times");
        cover("none");
    }
}

/// With the strategies of the crate.
fn strategies<const N: usize>() {
    let v: Vec<Ind> = (0..N).map(|i| ind(i as f64, below(2) as u8)).collect();
    let p = Population::new(v);
    let s = [
        SelectionStrategy::Tournament(2),
        SelectionStrategy::Rank,
        SelectionStrategy::RouletteWheel,
        SelectionStrategy::Elitist(0.5),
        SelectionStrategy::Linear(1.5),
        SelectionStrategy::Boltzmann(1.0, 0.5),
    ][pick(6)];
    let mut m = s.create_selector::<Ind, SymRng>();
    m.prepare(&p);
    let excluded = ind(0.0, below(2) as u8);
    let tries = pick(3);
    match m.select_distinct(&p, &mut SymRng, tries, &excluded) {
        Some((i, who)) => {
            check(i < p.len(), "the index is within the population");
            check(std::ptr::eq(who, &p[i]), "the individual is the one at the index");
            check(who.tag != excluded.tag, "the individual differs from the excluded one");
            cover("found");
        }
        None => cover("none"),
    }
}

entries! {
    quick c15_patient_7 => patient::<3>(7);
    quick c15_patient_12 => patient::<2>(12);
    quick c15_patient_70 => patient::<2>(70);
    quick c15_script_6_3 => distinct::<6>(3);
    quick c15_script_1_0 => distinct::<1>(0);
    quick c15_script_1_1 => distinct::<1>(1);
    quick c15_script_2_2 => distinct::<2>(2);
    quick c15_script_3_2 => distinct::<3>(2);
    quick c15_script_3_3 => distinct::<3>(3);
    quick c15_script_2_5 => distinct::<2>(5);
    thorough c15_script_4_4 => distinct::<4>(4);
    quick c15_strategies_1 => strategies::<1>();
    quick c15_strategies_3 => strategies::<3>();
}
