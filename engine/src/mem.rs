//! Byte-addressed memory made of separate objects, copied on write.

use crate::expr::*;
use std::rc::Rc;

pub const OBJ_SHIFT: u32 = 24;
pub const HEAP0: u32 = 1 << 16;
pub const FN_BASE: u64 = 1 << 60;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cell {
    U,
    C(u8),
    /// byte of a term
    X(E, u8),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<Cell>,
    pub writable: bool,
    pub heap: bool,
}

pub fn addr(id: u32, off: u64) -> u64 {
    ((id as u64) << OBJ_SHIFT) + off
}

impl Obj {
    pub fn new(n: u64, c: Cell, heap: bool) -> Obj {
        Obj {
            data: vec![c; n as usize],
            writable: true,
            heap,
        }
    }

    /// `n` bytes at `off` as a term of 8n bits; uninitialised bytes read as zero.
    pub fn load(&self, p: &mut Pool, off: u64, n: u64) -> E {
        load_cells(p, &self.data[off as usize..(off + n) as usize])
    }

    pub fn undef(&self, off: u64, n: u64) -> bool {
        self.data[off as usize..(off + n) as usize]
            .iter()
            .all(|c| *c == Cell::U)
    }

    pub fn store(&mut self, p: &Pool, off: u64, n: u64, v: E) {
        store_cells(p, &mut self.data[off as usize..(off + n) as usize], v)
    }
}

pub fn store_cells(p: &Pool, d: &mut [Cell], v: E) {
    if let Some(c) = p.cv(v) {
        for (i, b) in d.iter_mut().enumerate() {
            *b = Cell::C(if i < 16 { (c >> (8 * i)) as u8 } else { 0 });
        }
    } else {
        for (i, b) in d.iter_mut().enumerate() {
            *b = Cell::X(v, i as u8);
        }
    }
}

pub fn load_cells(p: &mut Pool, d: &[Cell]) -> E {
    let n = d.len();
    assert!(n <= 16, "load of {} bytes", n);
    // all constant?
    let mut v: u128 = 0;
    let mut all = true;
    for (i, c) in d.iter().enumerate() {
        match c {
            Cell::C(b) => v |= (*b as u128) << (8 * i),
            Cell::U => {}
            Cell::X(..) => {
                all = false;
                break;
            }
        }
    }
    if all {
        return p.c(v, 8 * n as u16);
    }
    // runs, low to high
    let mut acc: Option<E> = None;
    let mut i = 0;
    while i < n {
        let mut j = i + 1;
        let part = match d[i] {
            Cell::X(e, k) => {
                while j < n && d[j] == Cell::X(e, k + (j - i) as u8) {
                    j += 1;
                }
                p.extract(e, 8 * k as u16, 8 * (j - i) as u16)
            }
            _ => {
                let mut v: u128 = 0;
                j = i;
                while j < n && !matches!(d[j], Cell::X(..)) {
                    if let Cell::C(b) = d[j] {
                        v |= (b as u128) << (8 * (j - i));
                    }
                    j += 1;
                }
                p.c(v, 8 * (j - i) as u16)
            }
        };
        acc = Some(match acc {
            None => part,
            Some(l) => p.concat(part, l),
        });
        i = j;
    }
    acc.unwrap()
}

const CH: usize = 32;

/// Heap and stack objects of a state.
#[derive(Clone, Default)]
pub struct Heap {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    n: usize,
    /// writable globals that were written
    pub over: Rc<FxMap<u32, Rc<Obj>>>,
}

impl Heap {
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let i = self.n;
        self.n += 1;
        if i / CH == self.chunks.len() {
            self.chunks.push(Rc::new(vec![]));
        }
        Rc::make_mut(&mut self.chunks[i / CH]).push(Some(Rc::new(o)));
        HEAP0 + i as u32
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let i = (id - HEAP0) as usize;
        self.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let i = (id - HEAP0) as usize;
        let c = Rc::make_mut(self.chunks.get_mut(i / CH)?);
        c.get_mut(i % CH)?.as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u32) {
        let i = (id - HEAP0) as usize;
        if let Some(c) = self.chunks.get_mut(i / CH) {
            if let Some(x) = Rc::make_mut(c).get_mut(i % CH) {
                *x = None;
            }
        }
    }
    pub fn live_heap(&self) -> usize {
        self.chunks
            .iter()
            .flat_map(|c| c.iter())
            .filter(|o| o.as_ref().map_or(false, |o| o.heap))
            .count()
    }
}
