//! The symbolic executor: explores every feasible path of an entry function.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

/// A function ready to run.
pub struct CFunc {
    pub f: Func,
    pub kvals: Vec<E>,
    pub callees: Vec<u32>,
}

pub struct FEntry {
    pub name: String,
    pub module: Option<usize>,
    pub noreturn: bool,
    pub code: Option<Rc<CFunc>>,
    pub ext: Ext,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    /// not looked up yet
    None,
    Defined,
    Unknown,
    Sym,
    Reduce,
    Assume,
    Check,
    Cover,
    Observe,
    ExpectPanic,
    Reach,
    Concretize,
    SplitFloats,
    Outcome,
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Nop,
    Bcmp,
    Memcmp,
    Memcpy,
    Memset,
    Strlen,
    F(&'static str),
    Intr(&'static str),
    GrowOne(u64, u64),
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<CFunc>,
    pub regs: Vec<E>,
    pub block: u32,
    pub ip: u32,
    pub dst: u32,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct Draw {
    pub class: u32,
    pub bits: u32,
    pub e: E,
    pub reduce: Option<(E, u32)>,
    /// The word that is reduced, and the draw it comes from.
    pub word: (E, Option<usize>),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Heap,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub conc: Rc<FxMap<E, u128>>,
    /// whole numbers are split on their values where they become floats
    pub split_floats: bool,
    pub nsym: u32,
    pub draws: Vec<Draw>,
    pub obs: Vec<E>,
    pub steps: u64,
    pub expect: Option<Rc<str>>,
    pub choices: u32,
}

pub enum Stop {
    /// the path ended in the usual way or was found infeasible
    Done,
    Dropped,
    Panic(String),
    Error(String),
}

pub struct Finding {
    pub kind: &'static str,
    pub msg: String,
    pub values: Vec<String>,
    pub inputs: String,
    pub observed: Vec<u64>,
    pub expect: Option<String>,
}

#[derive(Default)]
pub struct Results {
    pub findings: Vec<Finding>,
    pub per_key: HashMap<String, u32>,
    pub covers: BTreeSet<String>,
    pub reach: BTreeMap<String, u64>,
    /// outcome -> measure of the generator words that lead to it, and the expected measure
    pub outcomes: BTreeMap<u64, (u128, u128, u64, u64)>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<Finding>,
    pub completed: u64,
    pub panicked_expected: u64,
    pub dropped: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks_solver: u64,
    pub checks_folded: u64,
    pub check_msgs: BTreeMap<String, u64>,
    pub uninit: u64,
    pub incomplete: bool,
    pub max_depth: u32,
}

pub struct Opts {
    pub ite: u64,
    pub max_instr: u64,
    pub max_secs: f64,
    pub shard: (usize, usize),
    pub seed: u64,
    pub samples: usize,
    pub stop_first: bool,
    pub trace: bool,
    pub fp_free: bool,
}

pub struct Exec {
    pub mods: Vec<Module>,
    pub p: Pool,
    pub z: Z3,
    pub funcs: Vec<FEntry>,
    fmap: HashMap<(usize, String), u32>, // usize::MAX for non-local
    gmap: HashMap<(usize, String), u32>,
    gobjs: Vec<Option<Rc<Obj>>>,
    gpend: Vec<(u32, usize, String)>,
    def_mod: HashMap<String, usize>,
    gdef_mod: HashMap<String, usize>,
    pub work: std::collections::VecDeque<State>,
    pub res: Results,
    pub o: Opts,
    pub seen: Vec<Vec<bool>>,
    start: Instant,
    first_finding: Option<Instant>,
    recent: std::collections::VecDeque<Rc<Model>>,
    sample_n: u64,
    quiet: bool,
}

type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

impl Exec {
    pub fn new(mods: Vec<Module>, z: Z3, o: Opts) -> Exec {
        let mut def_mod = HashMap::new();
        let mut gdef_mod = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for (n, f) in &m.funcs {
                if f.body.is_some() && !m.local.contains(n) {
                    def_mod.insert(n.clone(), i);
                }
            }
            for (n, g) in &m.globals {
                if g.init.is_some() && !m.local.contains(n) {
                    gdef_mod.insert(n.clone(), i);
                }
            }
            for n in m.aliases.keys() {
                if !m.local.contains(n) {
                    def_mod.insert(n.clone(), i);
                }
            }
        }
        let seen = mods
            .iter()
            .map(|m| vec![false; m.meta.keys().max().map_or(1, |k| *k as usize + 1)])
            .collect();
        Exec {
            mods,
            p: Pool::new(),
            z,
            funcs: vec![],
            fmap: HashMap::new(),
            gmap: HashMap::new(),
            gobjs: vec![None],
            gpend: vec![],
            def_mod,
            gdef_mod,
            work: Default::default(),
            res: Default::default(),
            o,
            seen,
            start: Instant::now(),
            first_finding: None,
            recent: Default::default(),
            sample_n: 0,
            quiet: false,
        }
    }

    // ---- symbols -------------------------------------------------------------------------

    fn func_id(&mut self, mi: usize, name: &str) -> u32 {
        let mut name = name.to_string();
        let mut mi = mi;
        loop {
            // follow aliases
            if let Some(t) = self.mods[mi].aliases.get(&name) {
                name = t.clone();
                continue;
            }
            if !self.mods[mi].funcs.get(&name).map_or(false, |f| f.body.is_some()) {
                if let Some(&d) = self.def_mod.get(&name) {
                    if d != mi {
                        mi = d;
                        continue;
                    }
                }
            }
            break;
        }
        let defined = self.mods[mi].funcs.get(&name).map_or(false, |f| f.body.is_some());
        // functions of the precompiled standard library with a model in vpstd
        if !defined && name.contains("5slice6memchr") {
            for (part, model) in [("14memchr_aligned", "__vpm_memchr"), ("7memrchr", "__vpm_memrchr")] {
                if name.contains(part) && self.def_mod.contains_key(model) {
                    return self.func_id(mi, model);
                }
            }
        }
        if !defined && name.contains("3fmt") {
            let model = if name.contains("4core3fmt5write") {
                "__vpm_fmt_write"
            } else if name.contains("3fmt5floatd") && name.ends_with("7Display3fmt") {
                "__vpm_fmt_f64"
            } else if name.contains("3fmt3num3impj") && name.ends_with("7Display3fmt") {
                "__vpm_fmt_usize"
            } else if name.contains("4core3fmte") && name.ends_with("7Display3fmt") {
                "__vpm_fmt_str"
            } else if name.contains("4core3fmt") && name.ends_with("9Formatter3pad") {
                "__vpm_fmt_pad"
            } else if name.contains("4core3fmt") && name.contains("9Formatter") && name.ends_with("9write_str") {
                "__vpm_fmt_write_str"
            } else if name.contains("5alloc3fmt6format12format_inner") {
                "__vpm_fmt_format"
            } else {
                ""
            };
            if self.def_mod.contains_key(model) {
                return self.func_id(mi, model);
            }
        }
        let local = defined && self.mods[mi].local.contains(&name);
        let key = (if local { mi } else { usize::MAX }, name.clone());
        if let Some(&i) = self.fmap.get(&key) {
            return i;
        }
        let i = self.funcs.len() as u32;
        let noreturn = self.mods[mi].funcs.get(&name).map_or(false, |f| f.noreturn);
        self.funcs.push(FEntry {
            name,
            module: if defined { Some(mi) } else { None },
            noreturn,
            code: None,
            ext: Ext::None,
        });
        self.fmap.insert(key, i);
        i
    }

    fn is_func(&self, mi: usize, name: &str) -> bool {
        self.mods[mi].funcs.contains_key(name)
            || self.mods[mi].aliases.contains_key(name)
    }

    fn global_addr(&mut self, mi: usize, name: &str) -> Result<u64, String> {
        if self.is_func(mi, name) {
            return Ok(FN_BASE + 16 * self.func_id(mi, name) as u64);
        }
        let m = &self.mods[mi];
        let g = m.globals.get(name).ok_or_else(|| format!("symbol {}", name))?;
        let d = if g.init.is_some() {
            mi
        } else {
            match self.gdef_mod.get(name) {
                Some(&d) => d,
                None => {
                    if self.def_mod.contains_key(name) {
                        return Ok(FN_BASE + 16 * self.func_id(mi, name) as u64);
                    }
                    mi
                }
            }
        };
        let key = (
            if self.mods[d].local.contains(name) { d } else { usize::MAX },
            name.to_string(),
        );
        if let Some(&i) = self.gmap.get(&key) {
            return Ok(addr(i, 0));
        }
        let i = self.gobjs.len() as u32;
        assert!(i < HEAP0);
        self.gobjs.push(None);
        self.gmap.insert(key, i);
        self.gpend.push((i, d, name.to_string()));
        Ok(addr(i, 0))
    }

    /// Builds the pending globals.
    fn flush_globals(&mut self) -> Result<(), String> {
        while let Some((i, mi, name)) = self.gpend.pop() {
            let (ty, init, constant) = {
                let g = &self.mods[mi].globals[&name];
                (g.ty.clone(), g.init.clone(), g.constant)
            };
            let n = ty.size();
            let mut o = Obj::new(n, Cell::C(0), false);
            match init {
                Some(c) => self.init_bytes(mi, &ty, &c, &mut o.data)?,
                None => return Err(format!("external global {}", name)),
            }
            o.writable = !constant;
            self.gobjs[i as usize] = Some(Rc::new(o));
        }
        Ok(())
    }

    fn init_bytes(&mut self, mi: usize, ty: &Ty, c: &C, out: &mut [Cell]) -> Result<(), String> {
        match c {
            C::Zero => {}
            C::Undef => out.iter_mut().for_each(|b| *b = Cell::U),
            C::Bytes(b) => {
                for (o, v) in out.iter_mut().zip(b) {
                    *o = Cell::C(*v)
                }
            }
            C::Agg(v) => {
                for (k, (t, x)) in v.iter().enumerate() {
                    let o = ty.field_offset(k) as usize;
                    let n = t.size() as usize;
                    self.init_bytes(mi, t, x, &mut out[o..o + n])?;
                }
            }
            _ => {
                let e = self.const_val(mi, ty, c)?;
                let n = out.len();
                let v = self.p.cv(e).ok_or("symbolic constant")?;
                for (k, o) in out.iter_mut().enumerate().take(n) {
                    *o = Cell::C(if k < 16 { (v >> (8 * k)) as u8 } else { 0 });
                }
            }
        }
        Ok(())
    }

    fn zero(&mut self, ty: &Ty) -> E {
        match ty.fields() {
            Some(n) => {
                let v = (0..n).map(|k| self.zero(&ty.field(k).clone())).collect();
                self.p.agg(v)
            }
            None => match ty {
                Ty::Void | Ty::Other => self.p.c(0, 1),
                _ => self.p.c(0, ty.bits()),
            },
        }
    }

    fn const_val(&mut self, mi: usize, ty: &Ty, c: &C) -> Result<E, String> {
        Ok(match c {
            C::Int(v) => self.p.c(*v, ty.bits()),
            C::Undef | C::Zero => self.zero(ty),
            C::Global(n) => {
                let a = self.global_addr(mi, n)?;
                self.p.c64(a)
            }
            C::Agg(v) => {
                let mut r = vec![];
                for (t, x) in v {
                    r.push(self.const_val(mi, t, x)?);
                }
                self.p.agg(r)
            }
            C::Splat(b) => {
                let e = self.const_val(mi, &b.0, &b.1)?;
                let n = ty.fields().unwrap();
                self.p.agg(vec![e; n])
            }
            C::Bytes(b) => {
                let v = b.iter().map(|&x| self.p.c(x as u128, 8)).collect();
                self.p.agg(v)
            }
            C::Gep(t, base, ix) => {
                let b = self.const_val(mi, &Ty::Ptr, base)?;
                let mut a = self.p.cv(b).unwrap() as u64;
                let mut cur = t.clone();
                for (k, (it, x)) in ix.iter().enumerate() {
                    let e = self.const_val(mi, it, x)?;
                    let v = sext(self.p.cv(e).unwrap(), it.bits()) as u64;
                    if k == 0 {
                        a = a.wrapping_add(v.wrapping_mul(cur.size()));
                    } else if let Ty::Struct(..) = cur {
                        a = a.wrapping_add(cur.field_offset(v as usize));
                        cur = cur.field(v as usize).clone();
                    } else {
                        cur = cur.field(0).clone();
                        a = a.wrapping_add(v.wrapping_mul(cur.size()));
                    }
                }
                self.p.c64(a)
            }
            C::Cast(b) => {
                let e = self.const_val(mi, &b.0, &b.1)?;
                let v = self.p.cv(e).unwrap();
                self.p.c(v, ty.bits())
            }
            C::Bin(op, a, b) => {
                let x = self.const_val(mi, &a.0, &a.1)?;
                let y = self.const_val(mi, &b.0, &b.1)?;
                let op = match op.as_str() {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    _ => Bop::Xor,
                };
                self.p.bin(op, x, y)
            }
        })
    }

    fn code(&mut self, id: u32) -> Result<Rc<CFunc>, String> {
        if let Some(c) = &self.funcs[id as usize].code {
            return Ok(c.clone());
        }
        let mi = self.funcs[id as usize].module.unwrap();
        let name = self.funcs[id as usize].name.clone();
        let f = self.mods[mi].parse_func(mi, &name)?;
        let mut kvals = vec![];
        for (t, c) in &f.consts {
            kvals.push(self.const_val(mi, t, c)?);
        }
        let mut callees = vec![];
        for n in &f.names {
            callees.push(self.func_id(mi, n));
        }
        self.flush_globals()?;
        let c = Rc::new(CFunc { f, kvals, callees });
        self.funcs[id as usize].code = Some(c.clone());
        Ok(c)
    }

    // ---- values and memory ---------------------------------------------------------------

    #[inline]
    fn val(&self, fr: &Frame, o: Opnd) -> E {
        match o {
            Opnd::R(r) => fr.regs[r as usize],
            Opnd::K(k) => fr.func.kvals[k as usize],
        }
    }

    fn eval(&self, st: &State, e: E) -> u128 {
        self.p.eval(e, &st.model)
    }

    fn merged(&self, st: &State, m: Vec<(u32, u128)>) -> Rc<Model> {
        let mut v = st.model.vals.clone();
        for (s, x) in m {
            v.insert(s, x);
        }
        Rc::new(Model::new(v))
    }

    /// A model of the path with `q`, if there is one.
    fn feasible(&mut self, st: &State, q: E) -> R<Option<Rc<Model>>> {
        if let Some(v) = self.p.cv(q) {
            return Ok(if v != 0 { Some(st.model.clone()) } else { None });
        }
        if self.eval(st, q) != 0 {
            return Ok(Some(st.model.clone()));
        }
        // models of recent queries
        for i in 0..self.recent.len() {
            let m = self.recent[i].clone();
            if self.p.eval(q, &m) != 0 && st.pc.iter().rev().all(|&c| self.p.eval(c, &m) != 0) {
                self.z.stats.model_hits += 1;
                return Ok(Some(m));
            }
        }
        match self.z.check(&mut self.p, &st.pc, q, &st.model) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let m = self.merged(st, m);
                if self.p.eval(q, &m) == 0 || st.pc.iter().any(|&c| self.p.eval(c, &m) == 0) {
                    *self
                        .res
                        .errors
                        .entry("a model of the solver does not satisfy its own query".into())
                        .or_insert(0) += 1;
                    return Ok(None);
                }
                self.recent.push_front(m.clone());
                self.recent.truncate(6);
                Ok(Some(m))
            }
            Res::Unknown => {
                *self
                    .res
                    .errors
                    .entry("the solver gave up on a query".into())
                    .or_insert(0) += 1;
                Ok(None)
            }
        }
    }

    fn add_pc(&self, st: &mut State, c: E) {
        if self.p.cv(c).is_none() && !st.pc.contains(&c) {
            // a conjunction adds its parts: they are found again more easily
            if let K::Bin(Bop::And, a, b) = self.p.k(c) {
                let (a, b) = (*a, *b);
                self.add_pc(st, a);
                self.add_pc(st, b);
                return;
            }
            st.pc.push(c);
        }
    }

    /// One value of `e` on this path; the others go on in forked states.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.p.cv(e) {
            return Ok(v);
        }
        if let Some(&v) = st.conc.get(&e) {
            return Ok(v);
        }
        let v = self.eval(st, e);
        let w = self.p.w(e);
        let vc = self.p.c(v, w);
        let eqc = self.p.eq(e, vc);
        if self.p.cv(eqc) == Some(1) || st.pc.contains(&eqc) {
            return Ok(v);
        }
        let neq = self.p.not(eqc);
        match self.feasible(st, neq)? {
            None => {
                Rc::make_mut(&mut st.conc).insert(e, v);
                Ok(v)
            }
            Some(m) => {
                let mut other = st.clone();
                self.add_pc(&mut other, neq);
                other.model = m;
                other.choices += 1;
                if w == 1 {
                    Rc::make_mut(&mut other.conc).insert(e, 1 - v);
                }
                self.res.forks += 1;
                self.work.push_back(other);
                self.add_pc(st, eqc);
                Rc::make_mut(&mut st.conc).insert(e, v);
                st.choices += 1;
                Ok(v)
            }
        }
    }

    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(n) = self.p.is_not(c) {
            return Ok(self.concretize(st, n)? == 0);
        }
        Ok(self.concretize(st, c)? != 0)
    }

    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(v) = self.p.cv(c) {
            return if v != 0 { Ok(()) } else { Err(Stop::Dropped) };
        }
        match self.feasible(st, c)? {
            None => Err(Stop::Dropped),
            Some(m) => {
                st.model = m;
                self.add_pc(st, c);
                Ok(())
            }
        }
    }

    fn obj(&self, st: &State, id: u32) -> R<Rc<Obj>> {
        if id < HEAP0 {
            if let Some(o) = st.heap.over.get(&id) {
                return Ok(o.clone());
            }
            match self.gobjs.get(id as usize) {
                Some(Some(o)) => Ok(o.clone()),
                _ => err(format!("access to no object ({:#x})", id)),
            }
        } else {
            match st.heap.get(id) {
                Some(o) => Ok(o.clone()),
                None => err(format!("access to a freed or unknown object ({})", id)),
            }
        }
    }

    fn with_mut<T>(&self, st: &mut State, id: u32, f: impl FnOnce(&mut Obj, &Pool) -> T) -> R<T> {
        if id < HEAP0 {
            let o = self.obj(st, id)?;
            if !o.writable {
                return err("store to a constant");
            }
            let mut o2 = (*o).clone();
            let r = f(&mut o2, &self.p);
            Rc::make_mut(&mut st.heap.over).insert(id, Rc::new(o2));
            Ok(r)
        } else {
            match st.heap.get_mut(id) {
                Some(o) => Ok(f(o, &self.p)),
                None => err(format!("store to a freed or unknown object ({})", id)),
            }
        }
    }

    /// Object, offset of an access of n bytes; `Err(offset term, candidates)` when symbolic.
    fn locate(
        &mut self,
        st: &mut State,
        a: E,
        n: u64,
        allow_sym: bool,
    ) -> R<(u32, Result<u64, (E, Vec<u64>)>)> {
        let conc = match self.p.cv(a) {
            Some(v) => Some(v as u64),
            None => st.conc.get(&a).map(|v| *v as u64),
        };
        if let Some(v) = conc {
            let id = (v >> OBJ_SHIFT) as u32;
            let off = v & ((1 << OBJ_SHIFT) - 1);
            if v >= FN_BASE {
                return err("data access to a function");
            }
            let o = self.obj(st, id)?;
            if off + n > o.data.len() as u64 {
                return err(format!("access out of bounds: {}+{} of {}", off, n, o.data.len()));
            }
            return Ok((id, Ok(off)));
        }
        let v = self.eval(st, a) as u64;
        let id = (v >> OBJ_SHIFT) as u32;
        let off = v & ((1 << OBJ_SHIFT) - 1);
        let o = self.obj(st, id)?;
        let size = o.data.len() as u64;
        if off + n > size {
            return err(format!("access out of bounds: {}+{} of {}", off, n, size));
        }
        if !allow_sym {
            let v = self.concretize(st, a)? as u64;
            return Ok((id, Ok(v & ((1 << OBJ_SHIFT) - 1))));
        }
        // stays within this object?
        let base = self.p.c64(addr(id, 0));
        let rel = self.p.bin(Bop::Sub, a, base);
        let lim = self.p.c64(size - n);
        let inb = self.p.bin(Bop::Ule, rel, lim);
        if !self.decide(st, inb)? {
            return err("access out of bounds");
        }
        let offe = self.p.extract(a, 0, OBJ_SHIFT as u16);
        if let Some(v) = self.p.cv(offe) {
            return Ok((id, Ok(v as u64)));
        }
        let m = self.p.maybe[offe as usize] as u64;
        let step = 1u64 << m.trailing_zeros().min(20);
        let mut cands = vec![];
        let mut k = 0;
        while k <= size - n {
            if k & !m == 0 {
                cands.push(k);
                if cands.len() as u64 > self.o.ite {
                    break;
                }
            }
            k += step;
        }
        if cands.len() as u64 > self.o.ite {
            let v = self.concretize(st, a)? as u64;
            return Ok((id, Ok(v & ((1 << OBJ_SHIFT) - 1))));
        }
        Ok((id, Err((offe, cands))))
    }

    fn load_ty(&mut self, st: &mut State, a: E, ty: &Ty) -> R<E> {
        if let Some(n) = ty.fields() {
            let mut v = vec![];
            for k in 0..n {
                let o = ty.field_offset(k);
                let oc = self.p.c64(o);
                let fa = self.p.bin(Bop::Add, a, oc);
                let ft = ty.field(k).clone();
                v.push(self.load_ty(st, fa, &ft)?);
            }
            return Ok(self.p.agg(v));
        }
        let w = ty.bits();
        let n = (w as u64 + 7) / 8;
        let (id, loc) = self.locate(st, a, n, true)?;
        let o = self.obj(st, id)?;
        let e = match loc {
            Ok(off) => {
                if o.undef(off, n) {
                    self.res.uninit += 1;
                }
                o.load(&mut self.p, off, n)
            }
            Err((offe, cands)) => {
                let mut r: Option<E> = None;
                for &k in cands.iter().rev() {
                    let v = o.load(&mut self.p, k, n);
                    r = Some(match r {
                        None => v,
                        Some(x) => {
                            let kc = self.p.c(k as u128, OBJ_SHIFT as u16);
                            let c = self.p.eq(offe, kc);
                            self.p.ite(c, v, x)
                        }
                    });
                }
                r.unwrap()
            }
        };
        Ok(self.p.trunc(e, w))
    }

    fn store_ty(&mut self, st: &mut State, a: E, ty: &Ty, v: E) -> R<()> {
        if let Some(n) = ty.fields() {
            let items = self.p.agg_items(v).to_vec();
            for (k, x) in items.iter().enumerate().take(n) {
                let o = ty.field_offset(k);
                let oc = self.p.c64(o);
                let fa = self.p.bin(Bop::Add, a, oc);
                let ft = ty.field(k).clone();
                self.store_ty(st, fa, &ft, *x)?;
            }
            return Ok(());
        }
        let w = ty.bits();
        let n = (w as u64 + 7) / 8;
        let (id, loc) = self.locate(st, a, n, true)?;
        let v = self.p.zext(v, 8 * n as u16);
        match loc {
            Ok(off) => self.with_mut(st, id, |o, p| o.store(p, off, n, v)),
            Err((offe, cands)) => {
                let o = self.obj(st, id)?;
                let mut o2 = (*o).clone();
                for &k in &cands {
                    let nv = if o.undef(k, n) {
                        v
                    } else {
                        let old = o2.load(&mut self.p, k, n);
                        let kc = self.p.c(k as u128, OBJ_SHIFT as u16);
                        let c = self.p.eq(offe, kc);
                        self.p.ite(c, v, old)
                    };
                    o2.store(&self.p, k, n, nv);
                }
                self.with_mut(st, id, |o, _| *o = o2)
            }
        }
    }

    fn cells(&mut self, st: &mut State, a: E, n: u64) -> R<Vec<Cell>> {
        let (id, loc) = self.locate(st, a, n, false)?;
        let off = loc.map_err(|_| Stop::Error("symbolic".into()))?;
        let o = self.obj(st, id)?;
        Ok(o.data[off as usize..(off + n) as usize].to_vec())
    }
    fn put_cells(&mut self, st: &mut State, a: E, c: &[Cell]) -> R<()> {
        let (id, loc) = self.locate(st, a, c.len() as u64, false)?;
        let off = loc.map_err(|_| Stop::Error("symbolic".into()))? as usize;
        self.with_mut(st, id, |o, _| o.data[off..off + c.len()].copy_from_slice(c))
    }

    fn bytes(&mut self, st: &mut State, a: E, n: u64) -> R<String> {
        let c = self.cells(st, a, n)?;
        let b: Vec<u8> = c
            .iter()
            .map(|c| match c {
                Cell::C(b) => *b,
                _ => b'?',
            })
            .collect();
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    // ---- running -------------------------------------------------------------------------

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let mi = *self
            .def_mod
            .get(entry)
            .ok_or_else(|| format!("no entry {}", entry))?;
        let id = self.func_id(mi, entry);
        let f = self.code(id)?;
        let n = f.f.nregs as usize;
        let fr = Frame {
            func: f,
            regs: vec![u32::MAX; n],
            block: 0,
            ip: 0,
            dst: u32::MAX,
            allocas: vec![],
        };
        let st = State {
            frames: vec![Rc::new(fr)],
            heap: Default::default(),
            pc: vec![],
            model: Rc::new(Model::new(Default::default())),
            conc: Default::default(),
            split_floats: false,
            nsym: 0,
            draws: vec![],
            obs: vec![],
            steps: 0,
            expect: None,
            choices: 0,
        };
        self.work.push_back(st);
        let (si, sn) = self.o.shard;
        if sn > 1 {
            // the same breadth-first start in every shard, then a share of the states each
            self.quiet = si != 0;
            while !self.work.is_empty() && self.work.len() < 8 * sn {
                let st = self.work.pop_front().unwrap();
                self.path(st);
                if self.over() {
                    break;
                }
            }
            self.quiet = false;
            let mut i = 0;
            self.work.retain(|_| {
                i += 1;
                (i - 1) % sn == si
            });
            if si != 0 {
                self.res.forks = 0;
                self.res.steps = 0;
            }
        }
        while let Some(st) = self.work.pop_back() {
            if self.over() {
                self.res.incomplete = true;
                break;
            }
            self.path(st);
            if self.o.stop_first && !self.res.findings.is_empty() {
                self.res.incomplete = true;
                break;
            }
        }
        Ok(())
    }

    fn over(&self) -> bool {
        // after a finding, a while for others that may be easier to reproduce
        let found = self.first_finding.map_or(false, |t| t.elapsed().as_secs_f64() > 20.0);
        found || self.start.elapsed().as_secs_f64() > self.o.max_secs
    }

    /// The values of a native run: `s` before those of a schedule.
    fn values(&self, st: &State, m: &Model) -> (Vec<String>, String) {
        let mut v: Vec<(u32, u64, usize)> = vec![];
        let mut desc = String::new();
        for (i, d) in st.draws.iter().enumerate() {
            let x = self.p.eval(d.e, m);
            match d.reduce {
                None => {
                    if d.class != 2 {
                        v.push((d.class, x as u64, i));
                    }
                    desc.push_str(&format!(
                        "{}{}",
                        if desc.is_empty() { "" } else { " " },
                        match d.class {
                            0 => format!("{}", x),
                            1 => format!("rng:{:#x}", x),
                            3 => format!("sched:{}", x),
                            _ => format!("any:{}", x),
                        }
                    ));
                }
                Some((r, bits)) => {
                    let r = self.p.eval(r, m);
                    let word = ((x << bits) + r - 1) / r.max(1);
                    // the native generator behind a class 2 word is not controlled
                    if d.class != 2 {
                        if let Some(k) = v.iter().rposition(|v| Some(v.2) == d.word.1) {
                            v[k].1 = word as u64;
                        }
                    }
                    desc.push_str(&format!(" =>{}/{}", x, r));
                }
            }
        }
        let v = v
            .into_iter()
            .map(|(c, x, _)| format!("{}{}", if c == 3 { "s" } else { "" }, x))
            .collect();
        (v, desc)
    }

    fn finding(&mut self, st: &State, m: &Rc<Model>, kind: &'static str, msg: String) {
        let k = self
            .res
            .per_key
            .entry(format!("{}:{}", kind, msg))
            .or_insert(0);
        *k += 1;
        if *k > 4 || self.quiet {
            return;
        }
        self.first_finding.get_or_insert_with(Instant::now);
        let (values, inputs) = self.values(st, m);
        let observed = st.obs.iter().map(|&e| self.p.eval(e, m) as u64).collect();
        self.res.findings.push(Finding {
            kind,
            msg,
            values,
            inputs,
            observed,
            expect: st.expect.as_ref().map(|s| s.to_string()),
        });
    }

    fn sample(&mut self, st: &State) {
        if self.quiet {
            return;
        }
        self.sample_n += 1;
        let n = self.o.samples;
        if n == 0 {
            return;
        }
        let slot = if self.res.samples.len() < n {
            self.res.samples.len()
        } else {
            let mut x = self.o.seed ^ self.sample_n.wrapping_mul(0x9E37_79B9_7F4A_7C15);
            x ^= x >> 31;
            x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x ^= x >> 29;
            let r = (x % self.sample_n) as usize;
            if r >= n {
                return;
            }
            r
        };
        let m = st.model.clone();
        let (values, inputs) = self.values(st, &m);
        let observed = st.obs.iter().map(|&e| self.p.eval(e, &m) as u64).collect();
        let f = Finding {
            kind: if st.expect.is_some() { "panics" } else { "ok" },
            msg: String::new(),
            values,
            inputs,
            observed,
            expect: st.expect.as_ref().map(|s| s.to_string()),
        };
        if slot == self.res.samples.len() {
            self.res.samples.push(f);
        } else {
            self.res.samples[slot] = f;
        }
    }

    fn place(&self, st: &State) -> String {
        let mut s = String::new();
        for fr in st.frames.iter().rev().take(4) {
            let b = &fr.func.f.blocks[fr.block as usize];
            let i = (fr.ip as usize).min(b.code.len() - 1);
            let d = b.code[i].dbg;
            let mut d = Some(d);
            let mut n = 0;
            while let Some(k) = d {
                if let Some((f, file, line)) = self.mods[fr.func.f.module].locate(k) {
                    s.push_str(&format!(" {}:{} ({})", file, line, f));
                    n += 1;
                }
                d = self.mods[fr.func.f.module].inlined_at(k);
                if n > 5 {
                    break;
                }
            }
        }
        s
    }

    /// innermost source position outside the standard library
    fn short_place(&self, st: &State) -> String {
        for fr in st.frames.iter().rev() {
            let b = &fr.func.f.blocks[fr.block as usize];
            let i = (fr.ip as usize).min(b.code.len() - 1);
            let mut d = Some(b.code[i].dbg);
            while let Some(k) = d {
                if let Some((_, file, line)) = self.mods[fr.func.f.module].locate(k) {
                    if !file.contains("/rustc/") && !file.contains("/library/") {
                        let f = match file.find("/src/") {
                            Some(p) => &file[p + 1..],
                            None => &file,
                        };
                        return format!("{}:{}", f, line);
                    }
                }
                d = self.mods[fr.func.f.module].inlined_at(k);
            }
        }
        "?".into()
    }

    fn path(&mut self, mut st: State) {
        let base = st.steps;
        let r = self.run(&mut st);
        if !self.quiet {
            self.res.steps += st.steps - base;
            self.res.max_depth = self.res.max_depth.max(st.choices);
        }
        match r {
            Stop::Done => {
                if !self.quiet {
                    self.res.completed += 1;
                }
                if let Some(m) = &st.expect {
                    let m = format!("no panic: {}", m);
                    let md = st.model.clone();
                    self.finding(&st, &md, "no-panic", m);
                } else {
                    self.sample(&st);
                }
            }
            Stop::Dropped => {
                if !self.quiet {
                    self.res.dropped += 1
                }
            }
            Stop::Panic(m) => {
                if st.expect.is_some() {
                    if !self.quiet {
                        self.res.completed += 1;
                        self.res.panicked_expected += 1;
                    }
                    self.sample(&st);
                } else {
                    let md = st.model.clone();
                    self.finding(&st, &md, if m.starts_with("no end") { "hang" } else { "panic" }, m);
                }
            }
            Stop::Error(e) => {
                if self.o.trace {
                    eprintln!("error: {} at {}", e, self.place(&st));
                }
                let s = format!("{} [{}]", e, self.short_place(&st));
                *self.res.errors.entry(s).or_insert(0) += 1;
            }
        }
    }

    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            st.steps += 1;
            if st.steps > self.o.max_instr {
                let w = self.short_place(st);
                return Stop::Panic(format!("no end after {} instructions ({})", self.o.max_instr, w));
            }
            if st.steps & 0xfff == 0 && self.over() {
                self.res.incomplete = true;
                return Stop::Error("time limit".into());
            }
            if let Err(s) = self.step(st) {
                return s;
            }
        }
    }

    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.block;
        let f = fr.func.clone();
        let phis = &f.f.blocks[to as usize].phis;
        if !phis.is_empty() {
            let mut vals = Vec::with_capacity(phis.len());
            for (_, inc) in phis {
                let o = inc
                    .iter()
                    .find(|(b, _)| *b == from)
                    .expect("phi without this predecessor")
                    .1;
                vals.push(match o {
                    Opnd::R(r) => fr.regs[r as usize],
                    Opnd::K(k) => f.kvals[k as usize],
                });
            }
            for ((d, _), v) in phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
    }

    fn set(&self, st: &mut State, dst: u32, v: E) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != u32::MAX {
            fr.regs[dst as usize] = v;
        }
        fr.ip += 1;
    }

    fn map2(&mut self, a: E, b: E, f: &mut dyn FnMut(&mut Pool, E, E) -> E) -> E {
        if let K::Agg(x) = self.p.k(a).clone() {
            let y = self.p.agg_items(b).to_vec();
            let v = x.iter().zip(y).map(|(&p, q)| f(&mut self.p, p, q)).collect();
            return self.p.agg(v);
        }
        f(&mut self.p, a, b)
    }
    fn map1(&mut self, a: E, f: &mut dyn FnMut(&mut Pool, E) -> E) -> E {
        if let K::Agg(x) = self.p.k(a).clone() {
            let v = x.iter().map(|&p| f(&mut self.p, p)).collect();
            return self.p.agg(v);
        }
        f(&mut self.p, a)
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (func, block, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.func.clone(), fr.block as usize, fr.ip as usize)
        };
        let ins = &func.f.blocks[block].code[ip];
        if ins.dbg != 0 {
            if let Some(s) = self.seen[func.f.module].get_mut(ins.dbg as usize) {
                *s = true;
            }
        }
        let fr = st.frames.last().unwrap().clone();
        let dst = ins.dst;
        macro_rules! v {
            ($o:expr) => {{
                let e = self.val(&fr, *$o);
                if e == u32::MAX {
                    return err("use of an undefined register");
                }
                e
            }};
        }
        match &ins.op {
            Op::Bin(op, _, a, b) => {
                let (a, b) = (v!(a), v!(b));
                let bop = match *op {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    "mul" => Bop::Mul,
                    "udiv" => Bop::UDiv,
                    "sdiv" => Bop::SDiv,
                    "urem" => Bop::URem,
                    "srem" => Bop::SRem,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    "xor" => Bop::Xor,
                    "shl" => Bop::Shl,
                    "lshr" => Bop::LShr,
                    "ashr" => Bop::AShr,
                    "fadd" => Bop::FAdd,
                    "fsub" => Bop::FSub,
                    "fmul" => Bop::FMul,
                    "fdiv" => Bop::FDiv,
                    _ => return err(format!("operation {}", op)),
                };
                drop(fr);
                let r = self.map2(a, b, &mut |p, x, y| p.bin(bop, x, y));
                self.set(st, dst, r);
            }
            Op::Fneg(_, a) => {
                let a = v!(a);
                drop(fr);
                let r = self.map1(a, &mut |p, x| {
                    let w = p.w(x);
                    let s = p.c(1u128 << (w - 1), w);
                    p.bin(Bop::Xor, x, s)
                });
                self.set(st, dst, r);
            }
            Op::Icmp(pred, _, a, b) => {
                let (a, b) = (v!(a), v!(b));
                drop(fr);
                let pred = *pred;
                let r = self.map2(a, b, &mut |p, x, y| match pred {
                    "eq" => p.eq(x, y),
                    "ne" => {
                        let t = p.eq(x, y);
                        p.not(t)
                    }
                    "ult" => p.bin(Bop::Ult, x, y),
                    "ule" => p.bin(Bop::Ule, x, y),
                    "ugt" => p.bin(Bop::Ult, y, x),
                    "uge" => p.bin(Bop::Ule, y, x),
                    "slt" => p.bin(Bop::Slt, x, y),
                    "sle" => p.bin(Bop::Sle, x, y),
                    "sgt" => p.bin(Bop::Slt, y, x),
                    "sge" => p.bin(Bop::Sle, y, x),
                    _ => panic!("icmp {}", pred),
                });
                self.set(st, dst, r);
            }
            Op::Fcmp(pred, _, a, b) => {
                let (a, b) = (v!(a), v!(b));
                drop(fr);
                let pred = *pred;
                let r = self.map2(a, b, &mut |p, x, y| fcmp(p, pred, x, y));
                self.set(st, dst, r);
            }
            Op::Cast(k, tf, a, tt) => {
                let a = v!(a);
                drop(fr);
                let el = |t: &Ty| match t {
                    Ty::Vec(_, e) => (**e).clone(),
                    t => t.clone(),
                };
                if *k == "bitcast" && tf.fields() != tt.fields() {
                    // between vectors and scalars through bits
                    let bits = self.flat(a);
                    let r = self.unflat(bits, tt);
                    self.set(st, dst, r);
                    return Ok(());
                }
                let w = el(tt).bits();
                let k = *k;
                let a = if st.split_floats && (k == "uitofp" || k == "sitofp") && !matches!(tf, Ty::Vec(..)) && self.p.cv(a).is_none() {
                    let x = self.concretize(st, a)?;
                    let wi = self.p.w(a);
                    self.p.c(x, wi)
                } else {
                    a
                };
                let r = self.map1(a, &mut |p, x| match k {
                    "trunc" => p.trunc(x, w),
                    "zext" => p.zext(x, w),
                    "sext" => p.sext(x, w),
                    "fptrunc" | "fpext" => p.un(Uop::FCvt, x, w),
                    "fptoui" => p.un(Uop::FToU, x, w),
                    "fptosi" => p.un(Uop::FToS, x, w),
                    "uitofp" => p.un(Uop::UToF, x, w),
                    "sitofp" => p.un(Uop::SToF, x, w),
                    _ => {
                        let wi = p.w(x);
                        if w <= wi {
                            p.trunc(x, w)
                        } else {
                            p.zext(x, w)
                        }
                    }
                });
                self.set(st, dst, r);
            }
            Op::Select(_, c, a, b, vec) => {
                let (c, a, b) = (v!(c), v!(a), v!(b));
                drop(fr);
                let r = if *vec {
                    let cs = self.p.agg_items(c).to_vec();
                    let x = self.p.agg_items(a).to_vec();
                    let y = self.p.agg_items(b).to_vec();
                    let v = (0..cs.len()).map(|i| self.p.ite(cs[i], x[i], y[i])).collect();
                    self.p.agg(v)
                } else {
                    self.p.ite(c, a, b)
                };
                self.set(st, dst, r);
            }
            Op::Load(t, a) => {
                let a = v!(a);
                drop(fr);
                let r = self.load_ty(st, a, t)?;
                self.set(st, dst, r);
            }
            Op::Store(t, x, a) => {
                let (x, a) = (v!(x), v!(a));
                drop(fr);
                self.store_ty(st, a, t, x)?;
                self.set(st, u32::MAX, 0);
            }
            Op::Gep(base, off, terms) => {
                let mut a = v!(base);
                let mut ts = vec![];
                for (o, bits, scale) in terms {
                    ts.push((v!(o), *bits, *scale));
                }
                drop(fr);
                for (x, bits, scale) in ts {
                    let x = if bits < 64 { self.p.sext(x, 64) } else { self.p.trunc(x, 64) };
                    let s = self.p.c64(scale);
                    let m = self.p.bin(Bop::Mul, x, s);
                    a = self.p.bin(Bop::Add, a, m);
                }
                let o = self.p.c64(*off);
                let r = self.p.bin(Bop::Add, a, o);
                self.set(st, dst, r);
            }
            Op::Alloca(t, n, _) => {
                let n = v!(n);
                drop(fr);
                let n = self.concretize(st, n)? as u64;
                let id = st.heap.alloc(Obj::new(n * t.size(), Cell::U, false));
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(id);
                let r = self.p.c64(addr(id, 0));
                self.set(st, dst, r);
            }
            Op::Extract(_, a, ix) => {
                let mut e = v!(a);
                drop(fr);
                for &i in ix {
                    e = self.p.agg_items(e)[i as usize];
                }
                self.set(st, dst, e);
            }
            Op::Insert(_, a, b, ix) => {
                let (a, b) = (v!(a), v!(b));
                drop(fr);
                let r = self.insert(a, b, ix);
                self.set(st, dst, r);
            }
            Op::ExtractEl(_, a, i, _) => {
                let (a, i) = (v!(a), v!(i));
                drop(fr);
                let i = self.concretize(st, i)? as usize;
                let e = self.p.agg_items(a)[i];
                self.set(st, dst, e);
            }
            Op::InsertEl(_, a, x, i, _) => {
                let (a, x, i) = (v!(a), v!(x), v!(i));
                drop(fr);
                let i = self.concretize(st, i)? as u32;
                let r = self.insert(a, x, &[i]);
                self.set(st, dst, r);
            }
            Op::Shuffle(_, a, b, m, n) => {
                let (a, b, m) = (v!(a), v!(b), v!(m));
                drop(fr);
                let mut x = self.p.agg_items(a).to_vec();
                x.extend_from_slice(self.p.agg_items(b));
                let ms = self.p.agg_items(m).to_vec();
                let v = (0..*n)
                    .map(|i| {
                        let k = self.p.cv(ms[i]).unwrap() as usize;
                        x[k % x.len()]
                    })
                    .collect();
                let r = self.p.agg(v);
                self.set(st, dst, r);
            }
            Op::Copy(a) => {
                let a = v!(a);
                drop(fr);
                self.set(st, dst, a);
            }
            Op::AtomicRmw(op, t, a, x) => {
                let (a, x) = (v!(a), v!(x));
                drop(fr);
                let old = self.load_ty(st, a, t)?;
                let new = match *op {
                    "xchg" => x,
                    "add" => self.p.bin(Bop::Add, old, x),
                    "sub" => self.p.bin(Bop::Sub, old, x),
                    "and" => self.p.bin(Bop::And, old, x),
                    "or" => self.p.bin(Bop::Or, old, x),
                    "xor" => self.p.bin(Bop::Xor, old, x),
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store_ty(st, a, t, new)?;
                self.set(st, dst, old);
            }
            Op::CmpXchg(t, a, e, n) => {
                let (a, e, n) = (v!(a), v!(e), v!(n));
                drop(fr);
                let old = self.load_ty(st, a, t)?;
                let c = self.p.eq(old, e);
                let new = self.p.ite(c, n, old);
                self.store_ty(st, a, t, new)?;
                let r = self.p.agg(vec![old, c]);
                self.set(st, dst, r);
            }
            Op::Fence => {
                drop(fr);
                self.set(st, u32::MAX, 0)
            }
            Op::Br(b) => {
                drop(fr);
                self.goto(st, *b)
            }
            Op::CondBr(c, a, b) => {
                let c = v!(c);
                drop(fr);
                let t = self.decide(st, c)?;
                self.goto(st, if t { *a } else { *b });
            }
            Op::Switch(_, x, d, cases) => {
                let x = v!(x);
                drop(fr);
                let mut to = *d;
                if let Some(v) = self.p.cv(x) {
                    if let Some(c) = cases.iter().find(|c| c.0 == v) {
                        to = c.1;
                    }
                } else {
                    // one decision per case, in the order of the cases
                    let w = self.p.w(x);
                    let v = self.eval(st, x);
                    // take the case of the current model first
                    if let Some(c) = cases.iter().find(|c| c.0 == v) {
                        let k = self.p.c(c.0, w);
                        let q = self.p.eq(x, k);
                        if self.decide(st, q)? {
                            to = c.1;
                        } else {
                            return err("switch");
                        }
                    } else {
                        for c in cases {
                            let k = self.p.c(c.0, w);
                            let q = self.p.eq(x, k);
                            if self.decide(st, q)? {
                                to = c.1;
                                break;
                            }
                        }
                    }
                }
                self.goto(st, to);
            }
            Op::Ret(x) => {
                let x = match x {
                    Some(o) => Some(v!(o)),
                    None => None,
                };
                drop(fr);
                let top = st.frames.pop().unwrap();
                for &id in &top.allocas {
                    st.heap.free(id);
                }
                if st.frames.is_empty() {
                    st.frames.push(top);
                    return Err(Stop::Done);
                }
                self.set(st, top.dst, x.unwrap_or(0));
            }
            Op::Unreachable => return err("unreachable code reached"),
            Op::Unsupported(s) => return err(format!("unsupported: {}", s)),
            Op::Call(c, args, rt, noret) => {
                let id = match c {
                    Callee::Direct(k) => func.callees[*k as usize],
                    Callee::Indirect(o) => {
                        let e = v!(o);
                        let a = self.concretize(st, e)? as u64;
                        if a < FN_BASE {
                            return err("call of a data address");
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                    Callee::Asm => {
                        // an optimisation barrier: no effect
                        let v = if *rt == Ty::Void { 0 } else { self.zero(rt) };
                        drop(fr);
                        self.set(st, dst, v);
                        return Ok(());
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, a) in args {
                    av.push(v!(a));
                }
                drop(fr);
                self.call(st, id, av, args, rt, dst, *noret)?;
            }
        }
        Ok(())
    }

    fn flat(&mut self, a: E) -> E {
        if let K::Agg(x) = self.p.k(a).clone() {
            let mut r: Option<E> = None;
            for &e in x.iter() {
                r = Some(match r {
                    None => e,
                    Some(l) => self.p.concat(e, l),
                });
            }
            r.unwrap()
        } else {
            a
        }
    }
    fn unflat(&mut self, a: E, t: &Ty) -> E {
        match t {
            Ty::Vec(n, e) => {
                let w = e.bits();
                let v = (0..*n as u16).map(|i| self.p.extract(a, i * w, w)).collect();
                self.p.agg(v)
            }
            _ => a,
        }
    }

    fn insert(&mut self, a: E, b: E, ix: &[u32]) -> E {
        if ix.is_empty() {
            return b;
        }
        let mut v = self.p.agg_items(a).to_vec();
        let i = ix[0] as usize;
        v[i] = self.insert(v[i], b, &ix[1..]);
        self.p.agg(v)
    }

    fn classify(&mut self, id: u32) -> Ext {
        let f = &self.funcs[id as usize];
        if f.ext != Ext::None {
            return f.ext;
        }
        let n = f.name.as_str();
        let e = match n {
            "__vp_sym" => Ext::Sym,
            "__vp_reduce" => Ext::Reduce,
            "__vp_assume" => Ext::Assume,
            "__vp_check" => Ext::Check,
            "__vp_cover" => Ext::Cover,
            "__vp_observe" => Ext::Observe,
            "__vp_expect_panic" => Ext::ExpectPanic,
            "__vp_reach" => Ext::Reach,
            "__vp_concretize" => Ext::Concretize,
            "__vp_split_floats" => Ext::SplitFloats,
            "__vp_outcome" => Ext::Outcome,
            "bcmp" => Ext::Bcmp,
            "memcmp" => Ext::Memcmp,
            "memcpy" | "memmove" => Ext::Memcpy,
            "memset" => Ext::Memset,
            "exp" => Ext::F("exp"),
            "log" => Ext::F("log"),
            "pow" => Ext::F("pow"),
            "floor" => Ext::Intr("llvm.floor"),
            "ceil" => Ext::Intr("llvm.ceil"),
            "trunc" => Ext::Intr("llvm.trunc"),
            "round" => Ext::Intr("llvm.round"),
            "sqrt" => Ext::Intr("llvm.sqrt"),
            "fmod" => Ext::F("fmod"),
            _ => {
                if n.starts_with("llvm.") {
                    // drop the type suffixes
                    let parts: Vec<&str> = n.split('.').collect();
                    let mut k = parts.len();
                    while k > 2 && type_suffix(parts[k - 1]) {
                        k -= 1;
                    }
                    Ext::Intr(Box::leak(parts[..k].join(".").into_boxed_str()))
                } else if n.ends_with("___rust_alloc") {
                    Ext::Alloc
                } else if n.ends_with("___rust_alloc_zeroed") {
                    Ext::AllocZeroed
                } else if n.ends_with("___rust_realloc") {
                    Ext::Realloc
                } else if n.ends_with("___rust_dealloc") {
                    Ext::Dealloc
                } else if n.contains("no_alloc_shim_is_unstable") {
                    Ext::Nop
                } else if f.module.is_none() && n.contains("7raw_vec") && n.contains("8grow_one") {
                    // RawVec<T>::grow_one compiled into the standard library
                    let t = n.as_bytes();
                    let prim = n
                        .find("6RawVec")
                        .and_then(|k| t.get(k + 7))
                        .copied()
                        .unwrap_or(b'?');
                    match prim {
                        b'h' | b'a' | b'b' => Ext::GrowOne(1, 1),
                        b's' | b't' => Ext::GrowOne(2, 2),
                        b'l' | b'm' | b'f' | b'c' => Ext::GrowOne(4, 4),
                        b'x' | b'y' | b'd' | b'i' | b'j' => Ext::GrowOne(8, 8),
                        _ => Ext::Unknown,
                    }
                } else if f.module.is_some() {
                    Ext::Defined
                } else {
                    Ext::Unknown
                }
            }
        };
        self.funcs[id as usize].ext = e;
        e
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &mut self,
        st: &mut State,
        id: u32,
        a: Vec<E>,
        args: &[(Ty, Opnd)],
        rt: &Ty,
        dst: u32,
        noret: bool,
    ) -> R<()> {
        match self.classify(id) {
            Ext::Defined => {
                let f = self.code(id).map_err(Stop::Error)?;
                if st.frames.len() > 200 {
                    return err("call depth");
                }
                let mut regs = vec![u32::MAX; f.f.nregs as usize];
                for (k, r) in f.f.params.iter().enumerate() {
                    if let Some(&v) = a.get(k) {
                        regs[*r as usize] = v;
                    }
                }
                st.frames.push(Rc::new(Frame {
                    func: f,
                    regs,
                    block: 0,
                    ip: 0,
                    dst,
                    allocas: vec![],
                }));
                return Ok(());
            }
            Ext::Unknown => {
                let f = &self.funcs[id as usize];
                if noret || f.noreturn {
                    return self.panic(st, id, &a);
                }
                return err(format!("call of {}", f.name));
            }
            Ext::Sym => {
                let class = self.concretize(st, a[0])? as u32;
                let bits = self.concretize(st, a[1])? as u32;
                let s = self.p.sym(st.nsym, bits as u16);
                st.nsym += 1;
                st.draws.push(Draw {
                    class,
                    bits,
                    e: s,
                    reduce: None,
                    word: (u32::MAX, None),
                });
                let r = self.p.zext(s, 64);
                self.set(st, dst, r);
            }
            Ext::Reduce => {
                let bits = self.concretize(st, a[1])? as u32;
                let (range, word) = (a[0], a[2]);
                if let Some(d) = st.draws.iter().find(|d| d.reduce == Some((range, bits)) && d.word.0 == word) {
                    let r = d.e;
                    let r = self.p.zext(r, 64);
                    self.set(st, dst, r);
                    return Ok(());
                }
                let mut source = st.draws.iter().rposition(|d| d.reduce.is_none() && d.class != 3);
                for i in 0..st.draws.len() {
                    let d = &st.draws[i];
                    if d.reduce.is_none() && self.p.zext(d.e, 64) == word {
                        source = Some(i);
                    }
                }
                let w = match self.p.cv(range) {
                    Some(0) => return err("empty range"),
                    Some(v) => (128 - (v - 1).leading_zeros()).max(1) as u16,
                    None => {
                        let m = self.p.maybe[range as usize];
                        (128 - m.leading_zeros()).max(1) as u16
                    }
                };
                let s = self.p.sym(st.nsym, w);
                let s64 = self.p.zext(s, 64);
                let c = self.p.bin(Bop::Ult, s64, range);
                // state changes only after the last point that can fork
                match self.feasible(st, c)? {
                    None => return Err(Stop::Dropped),
                    Some(m) => {
                        st.model = m;
                        self.add_pc(st, c);
                    }
                }
                st.nsym += 1;
                let class = source.map_or(1, |i| st.draws[i].class);
                st.draws.push(Draw {
                    class,
                    bits,
                    e: s,
                    reduce: Some((range, bits)),
                    word: (word, source),
                });
                self.set(st, dst, s64);
            }
            Ext::Assume => {
                self.assume(st, a[0])?;
                self.set(st, u32::MAX, 0);
            }
            Ext::Check => {
                let n = self.concretize(st, a[2])? as u64;
                let msg = self.bytes(st, a[1], n)?;
                let c = a[0];
                if !self.quiet {
                    *self.res.check_msgs.entry(msg.clone()).or_insert(0) += 1;
                }
                if let Some(v) = self.p.cv(c) {
                    if !self.quiet {
                        self.res.checks_folded += 1;
                    }
                    if v == 0 {
                        let m = st.model.clone();
                        self.finding(st, &m, "check", msg);
                        return Err(Stop::Dropped);
                    }
                } else {
                    if !self.quiet {
                        self.res.checks_solver += 1;
                    }
                    let n = self.p.not(c);
                    if let Some(m) = self.feasible(st, n)? {
                        self.finding(st, &m, "check", msg);
                        match self.feasible(st, c)? {
                            None => return Err(Stop::Dropped),
                            Some(m) => {
                                st.model = m;
                                self.add_pc(st, c);
                            }
                        }
                    }
                }
                self.set(st, u32::MAX, 0);
            }
            Ext::Cover => {
                let n = self.concretize(st, a[1])? as u64;
                let msg = self.bytes(st, a[0], n)?;
                if !self.quiet {
                    self.res.covers.insert(msg);
                }
                self.set(st, u32::MAX, 0);
            }
            Ext::Observe => {
                st.obs.push(a[0]);
                self.set(st, u32::MAX, 0);
            }
            Ext::ExpectPanic => {
                let n = self.concretize(st, a[1])? as u64;
                let msg = self.bytes(st, a[0], n)?;
                st.expect = Some(msg.into());
                self.set(st, u32::MAX, 0);
            }
            Ext::Reach => {
                let n = self.concretize(st, a[2])? as u64;
                let msg = self.bytes(st, a[1], n)?;
                let k = self.concretize(st, a[3])?;
                if !self.quiet {
                    let key = format!("{} #{}", msg, k);
                    if self.res.reach.get(&key).copied().unwrap_or(0) == 0 {
                        let hit = self.feasible(st, a[0])?.is_some();
                        self.res.reach.insert(key, hit as u64);
                    }
                }
                self.set(st, u32::MAX, 0);
            }
            Ext::Concretize => {
                let v = self.concretize(st, a[0])?;
                let r = self.p.c(v, 64);
                self.set(st, dst, r);
            }
            Ext::SplitFloats => {
                st.split_floats = self.concretize(st, a[0])? != 0;
                self.set(st, u32::MAX, 0);
            }
            Ext::Outcome => {
                let k = self.concretize(st, a[0])? as u64;
                let num = self.concretize(st, a[1])? as u64;
                let den = self.concretize(st, a[2])? as u64;
                // every value of every draw, one path each
                let draws = st.draws.clone();
                let mut total: u128 = 1;
                let mut counted: FxSet<u32> = Default::default();
                for d in draws.iter() {
                    if let Some((range, _)) = d.reduce {
                        let r = self.concretize(st, range)?;
                        self.concretize(st, d.e)?;
                        total = match total.checked_mul(r) {
                            Some(t) if t < 1 << 60 => t,
                            _ => return err("too many outcomes"),
                        };
                        counted.extend(self.p.vars(d.e).iter().copied());
                    }
                }
                for i in 0..st.pc.len() {
                    let v = self.p.vars(st.pc[i]);
                    if v.iter().any(|x| !counted.contains(x)) {
                        return err("the outcome depends on more than bounded draws");
                    }
                }
                if !self.quiet {
                    let e = self.res.outcomes.entry(k).or_insert((0, 1, num, den));
                    if (e.2, e.3) != (num, den) {
                        return err("two expectations for one outcome");
                    }
                    let gcd = |mut a: u128, mut b: u128| {
                        while b != 0 {
                            (a, b) = (b, a % b)
                        }
                        a
                    };
                    let g = gcd(e.1, total);
                    let l = match (e.1 / g).checked_mul(total) {
                        Some(l) if l < 1 << 100 => l,
                        _ => return err("too many outcomes"),
                    };
                    let n = e.0 * (l / e.1) + l / total;
                    let g = gcd(n, l);
                    e.0 = n / g;
                    e.1 = l / g;
                }
                self.set(st, u32::MAX, 0);
            }
            Ext::Nop => self.set(st, u32::MAX, 0),
            Ext::Alloc | Ext::AllocZeroed => {
                let n = self.concretize(st, a[0])? as u64;
                if n > 1 << 20 {
                    return err(format!("allocation of {} bytes", n));
                }
                let c = if self.classify(id) == Ext::Alloc {
                    Cell::U
                } else {
                    Cell::C(0)
                };
                let o = st.heap.alloc(Obj::new(n, c, true));
                let r = self.p.c64(addr(o, 0));
                self.set(st, dst, r);
            }
            Ext::Dealloc => {
                let p = self.concretize(st, a[0])? as u64;
                let o = (p >> OBJ_SHIFT) as u32;
                if o < HEAP0 || st.heap.get(o).is_none() {
                    return err("free of an unknown object");
                }
                st.heap.free(o);
                self.set(st, u32::MAX, 0);
            }
            Ext::Realloc => {
                let p = self.concretize(st, a[0])? as u64;
                let n = self.concretize(st, a[3])? as u64;
                if n > 1 << 20 {
                    return err(format!("allocation of {} bytes", n));
                }
                let o = (p >> OBJ_SHIFT) as u32;
                let old = self.obj(st, o)?;
                let mut d = old.data.clone();
                d.resize(n as usize, Cell::U);
                st.heap.free(o);
                let o = st.heap.alloc(Obj {
                    data: d,
                    writable: true,
                    heap: true,
                });
                let r = self.p.c64(addr(o, 0));
                self.set(st, dst, r);
            }
            Ext::GrowOne(size, _) => {
                // struct { cap, ptr }: doubles, at least 8 for bytes, else 4
                let v = a[0];
                let cap_e = self.load_ty(st, v, &Ty::Int(64))?;
                let cap = self.concretize(st, cap_e)? as u64;
                let eight = self.p.c64(8);
                let pa = self.p.bin(Bop::Add, v, eight);
                let ptr_e = self.load_ty(st, pa, &Ty::Int(64))?;
                let ptr = self.concretize(st, ptr_e)? as u64;
                let new = (cap * 2).max(if size == 1 { 8 } else { 4 });
                let mut d = vec![];
                if cap > 0 {
                    let o = (ptr >> OBJ_SHIFT) as u32;
                    d = self.obj(st, o)?.data.clone();
                    st.heap.free(o);
                }
                d.resize((new * size) as usize, Cell::U);
                let o = st.heap.alloc(Obj {
                    data: d,
                    writable: true,
                    heap: true,
                });
                let r = self.p.c64(addr(o, 0));
                let nc = self.p.c64(new);
                self.store_ty(st, v, &Ty::Int(64), nc)?;
                self.store_ty(st, pa, &Ty::Int(64), r)?;
                self.set(st, u32::MAX, 0);
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.concretize(st, a[2])? as u64;
                let r = if n == 0 {
                    self.p.c(0, 32)
                } else {
                    let x = self.cells(st, a[0], n)?;
                    let y = self.cells(st, a[1], n)?;
                    let mut r = self.p.c(0, 32);
                    let one = self.p.c(1, 32);
                    let neg = self.p.c(u32::MAX as u128, 32);
                    for k in (0..n as usize).rev() {
                        let p = load_cells(&mut self.p, &x[k..k + 1]);
                        let q = load_cells(&mut self.p, &y[k..k + 1]);
                        let e = self.p.eq(p, q);
                        let lt = self.p.bin(Bop::Ult, p, q);
                        let d = self.p.ite(lt, neg, one);
                        r = self.p.ite(e, r, d);
                    }
                    if self.classify(id) == Ext::Bcmp {
                        // only zero or not matters
                        let z = self.p.c(0, 32);
                        let e = self.p.eq(r, z);
                        let ne = self.p.not(e);
                        r = self.p.zext(ne, 32);
                    }
                    r
                };
                self.set(st, dst, r);
            }
            Ext::Memcpy => {
                self.memcpy(st, a[0], a[1], a[2])?;
                self.set(st, dst, a[0]);
            }
            Ext::Memset => {
                self.memset(st, a[0], a[1], a[2])?;
                self.set(st, dst, a[0]);
            }
            Ext::Strlen => return err("strlen"),
            Ext::F(f) => {
                let r = match f {
                    "exp" => self.p.un(Uop::FExp, a[0], 64),
                    "log" => self.p.un(Uop::FLn, a[0], 64),
                    "pow" => self.p.pow(a[0], a[1]),
                    "fmod" => match (self.p.cv(a[0]), self.p.cv(a[1])) {
                        (Some(x), Some(y)) => {
                            let r = f64::from_bits(x as u64) % f64::from_bits(y as u64);
                            self.p.c(r.to_bits() as u128, 64)
                        }
                        _ => return err("fmod of symbolic values"),
                    },
                    _ => return err(f),
                };
                self.set(st, dst, r);
            }
            Ext::Intr(n) => return self.intrinsic(st, n, a, args, rt, dst),
            Ext::None => unreachable!(),
        }
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: E, s: E, n: E) -> R<()> {
        let n = self.concretize(st, n)? as u64;
        if n > 0 {
            // both addresses before any effect
            let _ = self.locate(st, d, n, false)?;
            let c = self.cells(st, s, n)?;
            self.put_cells(st, d, &c)?;
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: E, v: E, n: E) -> R<()> {
        let n = self.concretize(st, n)? as u64;
        if n > 0 {
            let v = self.p.trunc(v, 8);
            let c = match self.p.cv(v) {
                Some(b) => Cell::C(b as u8),
                None => Cell::X(v, 0),
            };
            self.put_cells(st, d, &vec![c; n as usize])?;
        }
        Ok(())
    }

    fn panic(&mut self, st: &mut State, id: u32, a: &[E]) -> R<()> {
        let name = self.funcs[id as usize].name.clone();
        let short = demangle_tail(&name);
        // a message in the arguments?
        let mut text = String::new();
        if short == "panic" || short == "expect_failed" || short == "panic_str" {
            if let (Some(&p), Some(n)) = (a.first(), a.get(1).and_then(|&n| self.p.cv(n))) {
                if n < 500 && self.p.cv(p).is_some() {
                    if let Ok(s) = self.bytes(st, p, n as u64) {
                        text = format!(" \"{}\"", s);
                    }
                }
            }
        }
        let w = self.short_place(st);
        Err(Stop::Panic(format!("{}{} at {}", short, text, w)))
    }

    fn intrinsic(
        &mut self,
        st: &mut State,
        n: &'static str,
        a: Vec<E>,
        args: &[(Ty, Opnd)],
        rt: &Ty,
        dst: u32,
    ) -> R<()> {
        let r: E = match n {
            "llvm.lifetime.start" | "llvm.lifetime.end" | "llvm.assume"
            | "llvm.experimental.noalias.scope.decl" | "llvm.dbg.value" | "llvm.dbg.declare"
            | "llvm.prefetch" | "llvm.invariant.start" | "llvm.invariant.end"
            | "llvm.x86.avx.vzeroupper" => 0,
            "llvm.trap" => return err("trap"),
            "llvm.expect" | "llvm.expect.with.probability" | "llvm.launder.invariant.group"
            | "llvm.arithmetic.fence" | "llvm.threadlocal.address" => a[0],
            "llvm.is.constant" => self.p.c(0, 1),
            "llvm.memcpy" | "llvm.memmove" | "llvm.memcpy.inline" => {
                self.memcpy(st, a[0], a[1], a[2])?;
                0
            }
            "llvm.memset" => {
                self.memset(st, a[0], a[1], a[2])?;
                0
            }
            "llvm.load.relative" => {
                let a2 = self.p.bin(Bop::Add, a[0], a[1]);
                let v = self.load_ty(st, a2, &Ty::Int(32))?;
                let v = self.p.sext(v, 64);
                self.p.bin(Bop::Add, a[0], v)
            }
            "llvm.uadd.with.overflow" | "llvm.usub.with.overflow" | "llvm.umul.with.overflow"
            | "llvm.sadd.with.overflow" | "llvm.ssub.with.overflow" | "llvm.smul.with.overflow" => {
                let w = self.p.w(a[0]);
                let (x, y) = (a[0], a[1]);
                let op = match &n[6..9] {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    _ => Bop::Mul,
                };
                let r = self.p.bin(op, x, y);
                let signed = &n[5..6] == "s";
                let o = match (signed, op) {
                    (false, Bop::Add) => self.p.bin(Bop::Ult, r, x),
                    (false, Bop::Sub) => self.p.bin(Bop::Ult, x, y),
                    _ => {
                        let w2 = if op == Bop::Mul { 2 * w } else { w + 1 };
                        if w2 > 128 {
                            return err("wide overflow check");
                        }
                        let ext = |p: &mut Pool, e: E, w: u16| {
                            if signed {
                                p.sext(e, w)
                            } else {
                                p.zext(e, w)
                            }
                        };
                        let x2 = ext(&mut self.p, x, w2);
                        let y2 = ext(&mut self.p, y, w2);
                        let full = self.p.bin(op, x2, y2);
                        let back = ext(&mut self.p, r, w2);
                        let e = self.p.eq(full, back);
                        self.p.not(e)
                    }
                };
                // unsigned addition of small values cannot wrap
                let o = if !signed && op == Bop::Add {
                    let (mx, my) = (self.p.maybe[x as usize], self.p.maybe[y as usize]);
                    if mx.checked_add(my).map_or(false, |s| s <= mask(w)) {
                        self.p.c(0, 1)
                    } else {
                        o
                    }
                } else {
                    o
                };
                self.p.agg(vec![r, o])
            }
            "llvm.usub.sat" => self.map2(a[0], a[1], &mut |p, x, y| {
                let w = p.w(x);
                let z = p.c(0, w);
                let lt = p.bin(Bop::Ult, x, y);
                let d = p.bin(Bop::Sub, x, y);
                p.ite(lt, z, d)
            }),
            "llvm.uadd.sat" => self.map2(a[0], a[1], &mut |p, x, y| {
                let w = p.w(x);
                let m = p.c(mask(w), w);
                let s = p.bin(Bop::Add, x, y);
                let lt = p.bin(Bop::Ult, s, x);
                p.ite(lt, m, s)
            }),
            "llvm.umin" | "llvm.umax" | "llvm.smin" | "llvm.smax" => {
                self.map2(a[0], a[1], &mut |p, x, y| {
                    let op = if &n[5..6] == "u" { Bop::Ult } else { Bop::Slt };
                    let lt = p.bin(op, x, y);
                    if n.ends_with("min") {
                        p.ite(lt, x, y)
                    } else {
                        p.ite(lt, y, x)
                    }
                })
            }
            "llvm.ucmp" | "llvm.scmp" => {
                let w = rt.bits();
                let op = if n == "llvm.ucmp" { Bop::Ult } else { Bop::Slt };
                self.map2(a[0], a[1], &mut |p, x, y| {
                    let lt = p.bin(op, x, y);
                    let gt = p.bin(op, y, x);
                    let m = p.c(mask(w), w);
                    let z = p.c(0, w);
                    let o = p.c(1, w);
                    let g = p.ite(gt, o, z);
                    p.ite(lt, m, g)
                })
            }
            "llvm.abs" => self.map1(a[0], &mut |p, x| {
                let w = p.w(x);
                let z = p.c(0, w);
                let neg = p.bin(Bop::Slt, x, z);
                let m = p.bin(Bop::Sub, z, x);
                p.ite(neg, m, x)
            }),
            "llvm.fshl" | "llvm.fshr" => {
                let left = n == "llvm.fshl";
                let lanes = matches!(self.p.k(a[0]), K::Agg(_));
                if lanes {
                    let x = self.p.agg_items(a[0]).to_vec();
                    let y = self.p.agg_items(a[1]).to_vec();
                    let s = self.p.agg_items(a[2]).to_vec();
                    let v = (0..x.len())
                        .map(|i| fsh(&mut self.p, left, x[i], y[i], s[i]))
                        .collect();
                    self.p.agg(v)
                } else {
                    fsh(&mut self.p, left, a[0], a[1], a[2])
                }
            }
            "llvm.bswap" => {
                let w = self.p.w(a[0]);
                let mut r: Option<E> = None;
                for i in 0..w / 8 {
                    let b = self.p.extract(a[0], i * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.p.concat(h, b),
                    });
                }
                r.unwrap()
            }
            "llvm.ctpop" => self.map1(a[0], &mut |p, x| {
                let w = p.w(x);
                let mut r = p.c(0, w);
                for i in 0..w {
                    let b = p.extract(x, i, 1);
                    let b = p.zext(b, w);
                    r = p.bin(Bop::Add, r, b);
                }
                r
            }),
            "llvm.ctlz" | "llvm.cttz" => self.map1(a[0], &mut |p, x| {
                let w = p.w(x);
                let mut r = p.c(w as u128, w);
                for i in 0..w {
                    // cttz: from the high end down, so that the lowest set bit decides
                    let bit = if n == "llvm.cttz" { w - 1 - i } else { i };
                    let b = p.extract(x, bit, 1);
                    let k = p.c(if n == "llvm.cttz" { bit } else { w - 1 - bit } as u128, w);
                    r = p.ite(b, k, r);
                }
                r
            }),
            "llvm.fabs" => self.map1(a[0], &mut |p, x| {
                let w = p.w(x);
                let l = p.extract(x, 0, w - 1);
                p.zext(l, w)
            }),
            "llvm.copysign" => {
                let w = self.p.w(a[0]);
                let l = self.p.extract(a[0], 0, w - 1);
                let s = self.p.extract(a[1], w - 1, 1);
                self.p.concat(s, l)
            }
            "llvm.sqrt" | "llvm.floor" | "llvm.ceil" | "llvm.trunc" | "llvm.round"
            | "llvm.roundeven" | "llvm.rint" | "llvm.nearbyint" => {
                let op = match n {
                    "llvm.sqrt" => Uop::FSqrt,
                    "llvm.floor" => Uop::FFloor,
                    "llvm.ceil" => Uop::FCeil,
                    "llvm.trunc" => Uop::FTrunc,
                    "llvm.round" => Uop::FRound,
                    _ => Uop::FRne,
                };
                self.map1(a[0], &mut |p, x| {
                    let w = p.w(x);
                    p.un(op, x, w)
                })
            }
            "llvm.exp" => self.p.un(Uop::FExp, a[0], 64),
            "llvm.log" => self.p.un(Uop::FLn, a[0], 64),
            "llvm.pow" => self.p.pow(a[0], a[1]),
            "llvm.powi" => match (self.p.cv(a[0]), self.p.cv(a[1])) {
                (Some(x), Some(y)) => {
                    let r = f64::from_bits(x as u64).powi(sext(y, 32) as i32);
                    self.p.c(r.to_bits() as u128, 64)
                }
                (None, Some(2)) => self.p.bin(Bop::FMul, a[0], a[0]),
                _ => return err("powi of symbolic values"),
            },
            // rustc does not emit llvm.fmuladd, which may be rounded twice
            "llvm.fma" if !matches!(rt.bits(), 32 | 64) => return err("fused multiply-add of vectors"),
            "llvm.fma" => self.p.fma(a[0], a[1], a[2]),
            "llvm.fptoui.sat" => {
                let w = rt.bits();
                self.map1(a[0], &mut |p, x| p.un(Uop::FToU, x, w))
            }
            "llvm.fptosi.sat" => {
                let w = rt.bits();
                self.map1(a[0], &mut |p, x| p.un(Uop::FToS, x, w))
            }
            "llvm.minnum" | "llvm.maxnum" | "llvm.minimumnum" | "llvm.maximumnum" => {
                self.map2(a[0], a[1], &mut |p, x, y| {
                    let nx = p.bin(Bop::FUno, x, x);
                    let ny = p.bin(Bop::FUno, y, y);
                    let c = if n.contains("min") {
                        p.bin(Bop::FOle, x, y)
                    } else {
                        p.bin(Bop::FOle, y, x)
                    };
                    let r = p.ite(c, x, y);
                    let r = p.ite(ny, x, r);
                    p.ite(nx, y, r)
                })
            }
            "llvm.is.fpclass" => {
                let m = self.p.cv(a[1]).unwrap_or(0);
                is_fpclass(&mut self.p, a[0], m as u32)
            }
            "llvm.vector.reduce.add" | "llvm.vector.reduce.or" | "llvm.vector.reduce.and"
            | "llvm.vector.reduce.xor" | "llvm.vector.reduce.mul" => {
                let v = self.p.agg_items(a[0]).to_vec();
                let op = match n.rsplit('.').next().unwrap() {
                    "add" => Bop::Add,
                    "or" => Bop::Or,
                    "and" => Bop::And,
                    "mul" => Bop::Mul,
                    _ => Bop::Xor,
                };
                let mut r = v[0];
                for &x in &v[1..] {
                    r = self.p.bin(op, r, x);
                }
                r
            }
            _ => return err(format!("intrinsic {}", n)),
        };
        let _ = args;
        self.set(st, dst, r);
        Ok(())
    }
}

fn type_suffix(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() > 1
        && (matches!(b[0], b'i' | b'f' | b'p') && b[1..].iter().all(|c| c.is_ascii_digit())
            || b[0] == b'v' && b[1].is_ascii_digit())
}

fn fsh(p: &mut Pool, left: bool, x: E, y: E, s: E) -> E {
    let w = p.w(x);
    let wc = p.c(w as u128, w);
    let s = p.bin(Bop::URem, s, wc);
    let inv = p.bin(Bop::Sub, wc, s);
    let z = p.c(0, w);
    let none = p.eq(s, z);
    if left {
        let a = p.bin(Bop::Shl, x, s);
        let b = p.bin(Bop::LShr, y, inv);
        let r = p.bin(Bop::Or, a, b);
        p.ite(none, x, r)
    } else {
        let a = p.bin(Bop::LShr, y, s);
        let b = p.bin(Bop::Shl, x, inv);
        let r = p.bin(Bop::Or, a, b);
        p.ite(none, y, r)
    }
}

fn fcmp(p: &mut Pool, pred: &str, x: E, y: E) -> E {
    let un = |p: &mut Pool| p.bin(Bop::FUno, x, y);
    match pred {
        "oeq" => p.bin(Bop::FOeq, x, y),
        "olt" => p.bin(Bop::FOlt, x, y),
        "ole" => p.bin(Bop::FOle, x, y),
        "ogt" => p.bin(Bop::FOlt, y, x),
        "oge" => p.bin(Bop::FOle, y, x),
        "one" => {
            let a = p.bin(Bop::FOlt, x, y);
            let b = p.bin(Bop::FOlt, y, x);
            p.bin(Bop::Or, a, b)
        }
        "ord" => {
            let u = un(p);
            p.not(u)
        }
        "uno" => un(p),
        "ueq" => {
            let u = un(p);
            let e = p.bin(Bop::FOeq, x, y);
            p.bin(Bop::Or, u, e)
        }
        "une" => {
            let e = p.bin(Bop::FOeq, x, y);
            p.not(e)
        }
        "ult" => {
            let e = p.bin(Bop::FOle, y, x);
            p.not(e)
        }
        "ule" => {
            let e = p.bin(Bop::FOlt, y, x);
            p.not(e)
        }
        "ugt" => {
            let e = p.bin(Bop::FOle, x, y);
            p.not(e)
        }
        "uge" => {
            let e = p.bin(Bop::FOlt, x, y);
            p.not(e)
        }
        "true" => p.c(1, 1),
        _ => p.c(0, 1),
    }
}

fn is_fpclass(p: &mut Pool, x: E, m: u32) -> E {
    let w = p.w(x);
    let (mant, exp) = if w == 64 { (52u16, 11u16) } else { (23, 8) };
    let sign = p.extract(x, w - 1, 1);
    let e = p.extract(x, mant, exp);
    let f = p.extract(x, 0, mant);
    let fz = p.c(0, mant);
    let f0 = p.eq(f, fz);
    let ez = p.c(0, exp);
    let e0 = p.eq(e, ez);
    let em = p.c(mask(exp), exp);
    let e1 = p.eq(e, em);
    let q = p.extract(f, mant - 1, 1);
    let nf0 = p.not(f0);
    let ne0 = p.not(e0);
    let ne1 = p.not(e1);
    let pos = p.not(sign);
    let nan = p.bin(Bop::FUno, x, x);
    let nq = p.not(q);
    // compared as numbers, for the reasoning about reals
    let c = p.c(mask(exp) << mant, w);
    let pinf = p.bin(Bop::FOeq, x, c);
    let c = p.c(mask(exp + 1) << mant, w);
    let ninf = p.bin(Bop::FOeq, x, c);
    let norm = p.bin(Bop::And, ne0, ne1);
    let sub = p.bin(Bop::And, e0, nf0);
    let c = p.c(0, w);
    let zero = p.bin(Bop::FOeq, x, c);
    let mut r = p.c(0, 1);
    let yes = p.c(1, 1);
    let list = [
        (0, nan, nq),
        (1, nan, q),
        (2, ninf, yes),
        (3, norm, sign),
        (4, sub, sign),
        (5, zero, sign),
        (6, zero, pos),
        (7, sub, pos),
        (8, norm, pos),
        (9, pinf, yes),
    ];
    for (b, c, s) in list {
        let both = |k: u32| m >> k & 3 == 3;
        if m >> b & 1 == 1 {
            let s = if b < 2 && both(0) || (b == 5 || b == 6) && both(5) { yes } else { s };
            let t = p.bin(Bop::And, c, s);
            r = p.bin(Bop::Or, r, t);
        }
    }
    r
}

/// Last path segment of a mangled name.
pub fn demangle_tail(n: &str) -> String {
    let b = n.as_bytes();
    let mut i = 0;
    let mut last = String::new();
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            let s = if j < b.len() && b[j] == b'_' && j + 1 + k <= b.len() && k < 100 { j + 1 } else { j };
            if k > 0 && k < 100 && s + k <= b.len() {
                let seg = &n[s..s + k];
                if seg.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    last = seg.to_string();
                    i = s + k;
                    continue;
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if last.is_empty() {
        n.to_string()
    } else {
        last
    }
}
