//! Decision procedure: libz3 through its C API.

use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, m: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, m: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, m: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, m: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_div(c: P, m: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, m: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, m: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, m: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, m: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, m: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, m: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, m: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("vpsym: z3 error {}", code);
    std::process::exit(2);
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub fp_queries: u64,
    /// decided through the relaxation to reals
    pub real_unsat: u64,
    pub real_sat: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Z3 {
    pub c: P,
    pub real_log: bool,
    pub no_real: bool,
    inc: P,
    stack: Vec<E>,
    bv: FxMap<E, P>,
    fp: FxMap<E, P>,
    fexp: P,
    fln: P,
    fpow: P,
    cache: FxMap<(u64, u64), Option<Vec<(u32, u128)>>>,
    pub stats: Stats,
    pub rlimit: u32,
    inc_queries: u64,
    pub slow_log: Option<f64>,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Z3 {
    pub fn version() -> String {
        unsafe {
            std::ffi::CStr::from_ptr(Z3_get_full_version())
                .to_string_lossy()
                .into_owned()
        }
    }

    pub fn new(seed: u32, rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = cs("model");
            let v = cs("true");
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let _ = Z3_get_error_code(c);
            let b64 = Z3_mk_bv_sort(c, 64);
            let d1 = [b64];
            let d2 = [b64, b64];
            let name = cs("exp");
            let fexp = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, name.as_ptr()), 1, d1.as_ptr(), b64);
            let name = cs("ln");
            let fln = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, name.as_ptr()), 1, d1.as_ptr(), b64);
            let name = cs("pow");
            let fpow = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, name.as_ptr()), 2, d2.as_ptr(), b64);
            let mut z = Z3 {
                c,
                real_log: false,
                no_real: false,
                inc: std::ptr::null_mut(),
                stack: vec![],
                bv: Default::default(),
                fp: Default::default(),
                fexp,
                fln,
                fpow,
                cache: Default::default(),
                stats: Default::default(),
                rlimit,
                inc_queries: 0,
                slow_log: None,
            };
            let _ = seed;
            z.reset_inc();
            z
        }
    }

    unsafe fn set_rlimit(&self, s: P) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = cs("rlimit");
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.rlimit);
        Z3_solver_set_params(self.c, s, p);
    }

    fn reset_inc(&mut self) {
        unsafe {
            if !self.inc.is_null() {
                Z3_solver_dec_ref(self.c, self.inc);
            }
            self.inc = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.inc);
            self.set_rlimit(self.inc);
        }
        self.stack.clear();
        self.inc_queries = 0;
    }

    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as u32);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = cs(&v.to_string());
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }

    fn fsort(&self, w: u16) -> P {
        unsafe {
            match w {
                64 => Z3_mk_fpa_sort_double(self.c),
                32 => Z3_mk_fpa_sort_single(self.c),
                _ => panic!("float of width {}", w),
            }
        }
    }

    /// Bool for width 1, else bit vector.
    pub fn bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bv.get(&e) {
            return a;
        }
        let w = p.w(e);
        let c = self.c;
        let r = unsafe {
            match p.k(e) {
                K::Const(v) => {
                    if w == 1 {
                        if *v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(*v, w)
                    }
                }
                K::Sym(s) => {
                    let n = cs(&format!("s{}_{}", s >> 8, s & 255));
                    let a = Z3_mk_const(
                        c,
                        Z3_mk_string_symbol(c, n.as_ptr()),
                        Z3_mk_bv_sort(c, w as u32),
                    );
                    if w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, a, one)
                    } else {
                        a
                    }
                }
                K::Ite(q, a, b) => {
                    let q = self.bv(p, *q);
                    let a = self.bv(p, *a);
                    let b = self.bv(p, *b);
                    Z3_mk_ite(c, q, a, b)
                }
                K::Extract(a, lo) => {
                    let lo = *lo as u32;
                    let x = self.bv1(p, *a);
                    let t = Z3_mk_extract(c, lo + w as u32 - 1, lo, x);
                    if w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, t, one)
                    } else {
                        t
                    }
                }
                K::ZExt(a) => {
                    let k = w - p.w(*a);
                    let x = self.bv1(p, *a);
                    Z3_mk_zero_ext(c, k as u32, x)
                }
                K::SExt(a) => {
                    let k = w - p.w(*a);
                    let x = self.bv1(p, *a);
                    Z3_mk_sign_ext(c, k as u32, x)
                }
                K::Concat(a, b) => {
                    let x = self.bv1(p, *a);
                    let y = self.bv1(p, *b);
                    Z3_mk_concat(c, x, y)
                }
                K::Un(op, a) => {
                    let a = *a;
                    match op {
                        Uop::FExp => {
                            let x = [self.bv(p, a)];
                            Z3_mk_app(c, self.fexp, 1, x.as_ptr())
                        }
                        Uop::FLn => {
                            let x = [self.bv(p, a)];
                            Z3_mk_app(c, self.fln, 1, x.as_ptr())
                        }
                        Uop::FToU | Uop::FToS => {
                            let x = self.fp(p, a);
                            let fs = self.fsort(p.w(a));
                            let nan = Z3_mk_fpa_is_nan(c, x);
                            let rtz = Z3_mk_fpa_rtz(c);
                            let zero = self.num(0, w);
                            if *op == Uop::FToU {
                                let z = Z3_mk_fpa_numeral_double(c, 0.0, fs);
                                let lim = Z3_mk_fpa_numeral_double(c, 2f64.powi(w as i32), fs);
                                let t = [nan, Z3_mk_fpa_leq(c, x, z)];
                                let low = Z3_mk_or(c, 2, t.as_ptr());
                                let high = Z3_mk_fpa_leq(c, lim, x);
                                let max = self.num(mask(w), w);
                                let v = Z3_mk_fpa_to_ubv(c, rtz, x, w as u32);
                                let i = Z3_mk_ite(c, high, max, v);
                                Z3_mk_ite(c, low, zero, i)
                            } else {
                                let l = 2f64.powi(w as i32 - 1);
                                let lo = Z3_mk_fpa_numeral_double(c, -l, fs);
                                let hi = Z3_mk_fpa_numeral_double(c, l, fs);
                                let low = Z3_mk_fpa_leq(c, x, lo);
                                let high = Z3_mk_fpa_leq(c, hi, x);
                                let max = self.num(mask(w - 1), w);
                                let min = self.num(1u128 << (w - 1), w);
                                let v = Z3_mk_fpa_to_sbv(c, rtz, x, w as u32);
                                let i = Z3_mk_ite(c, high, max, v);
                                let i = Z3_mk_ite(c, low, min, i);
                                Z3_mk_ite(c, nan, zero, i)
                            }
                        }
                        _ => {
                            let x = self.fp(p, e);
                            Z3_mk_fpa_to_ieee_bv(c, x)
                        }
                    }
                }
                K::Pow(a, b) => {
                    let x = [self.bv(p, *a), self.bv(p, *b)];
                    Z3_mk_app(c, self.fpow, 2, x.as_ptr())
                }
                K::Fma(..) => {
                    let x = self.fp(p, e);
                    Z3_mk_fpa_to_ieee_bv(c, x)
                }
                K::Agg(_) => panic!("aggregate in a formula"),
                K::Bin(op, a, b) => {
                    let (op, a, b) = (*op, *a, *b);
                    use Bop::*;
                    match op {
                        FAdd | FSub | FMul | FDiv => {
                            let x = self.fp(p, e);
                            Z3_mk_fpa_to_ieee_bv(c, x)
                        }
                        FOlt | FOle | FOeq => {
                            let x = self.fp(p, a);
                            let y = self.fp(p, b);
                            match op {
                                FOlt => Z3_mk_fpa_lt(c, x, y),
                                FOle => Z3_mk_fpa_leq(c, x, y),
                                _ => Z3_mk_fpa_eq(c, x, y),
                            }
                        }
                        FUno => {
                            let x = self.fp(p, a);
                            let y = self.fp(p, b);
                            let t = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                            Z3_mk_or(c, 2, t.as_ptr())
                        }
                        Eq => {
                            let x = self.bv(p, a);
                            let y = self.bv(p, b);
                            Z3_mk_eq(c, x, y)
                        }
                        And | Or | Xor if w == 1 => {
                            let x = self.bv(p, a);
                            let y = self.bv(p, b);
                            let t = [x, y];
                            match op {
                                And => Z3_mk_and(c, 2, t.as_ptr()),
                                Or => Z3_mk_or(c, 2, t.as_ptr()),
                                _ => {
                                    if p.cv(b) == Some(1) {
                                        Z3_mk_not(c, x)
                                    } else {
                                        Z3_mk_xor(c, x, y)
                                    }
                                }
                            }
                        }
                        _ => {
                            let x = self.bv1(p, a);
                            let y = self.bv1(p, b);
                            let r = match op {
                                Add => Z3_mk_bvadd(c, x, y),
                                Sub => Z3_mk_bvsub(c, x, y),
                                Mul => Z3_mk_bvmul(c, x, y),
                                UDiv => Z3_mk_bvudiv(c, x, y),
                                SDiv => Z3_mk_bvsdiv(c, x, y),
                                URem => Z3_mk_bvurem(c, x, y),
                                SRem => Z3_mk_bvsrem(c, x, y),
                                And => Z3_mk_bvand(c, x, y),
                                Or => Z3_mk_bvor(c, x, y),
                                Xor => Z3_mk_bvxor(c, x, y),
                                Shl => Z3_mk_bvshl(c, x, y),
                                LShr => Z3_mk_bvlshr(c, x, y),
                                AShr => Z3_mk_bvashr(c, x, y),
                                Ult => Z3_mk_bvult(c, x, y),
                                Ule => Z3_mk_bvule(c, x, y),
                                Slt => Z3_mk_bvslt(c, x, y),
                                Sle => Z3_mk_bvsle(c, x, y),
                                _ => unreachable!(),
                            };
                            if w == 1 && !Pool::is_cmp(op) {
                                let one = self.num(1, 1);
                                Z3_mk_eq(c, r, one)
                            } else {
                                r
                            }
                        }
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    /// As `bv`, but width 1 as a bit vector too.
    fn bv1(&mut self, p: &Pool, e: E) -> P {
        let x = self.bv(p, e);
        if p.w(e) == 1 {
            let one = self.num(1, 1);
            let zero = self.num(0, 1);
            unsafe { Z3_mk_ite(self.c, x, one, zero) }
        } else {
            x
        }
    }

    fn fp(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.fp.get(&e) {
            return a;
        }
        let w = p.w(e);
        let c = self.c;
        let fs = self.fsort(w);
        let r = unsafe {
            match p.k(e) {
                K::Bin(op @ (Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv), a, b) => {
                    let op = *op;
                    let x = self.fp(p, *a);
                    let y = self.fp(p, *b);
                    let m = Z3_mk_fpa_rne(c);
                    match op {
                        Bop::FAdd => Z3_mk_fpa_add(c, m, x, y),
                        Bop::FSub => Z3_mk_fpa_sub(c, m, x, y),
                        Bop::FMul => Z3_mk_fpa_mul(c, m, x, y),
                        _ => Z3_mk_fpa_div(c, m, x, y),
                    }
                }
                K::Fma(a, b, d) => {
                    let x = self.fp(p, *a);
                    let y = self.fp(p, *b);
                    let z = self.fp(p, *d);
                    Z3_mk_fpa_fma(c, Z3_mk_fpa_rne(c), x, y, z)
                }
                K::Un(op, a) if !matches!(op, Uop::FExp | Uop::FLn | Uop::FToU | Uop::FToS) => {
                    let (op, a) = (*op, *a);
                    match op {
                        Uop::UToF => {
                            let x = self.bv1(p, a);
                            Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, fs)
                        }
                        Uop::SToF => {
                            let x = self.bv1(p, a);
                            Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, fs)
                        }
                        Uop::FCvt => {
                            let x = self.fp(p, a);
                            Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, fs)
                        }
                        _ => {
                            let x = self.fp(p, a);
                            let m = match op {
                                Uop::FSqrt => Z3_mk_fpa_rne(c),
                                Uop::FFloor => Z3_mk_fpa_rtn(c),
                                Uop::FCeil => Z3_mk_fpa_rtp(c),
                                Uop::FTrunc => Z3_mk_fpa_rtz(c),
                                Uop::FRound => Z3_mk_fpa_rna(c),
                                _ => Z3_mk_fpa_rne(c),
                            };
                            if op == Uop::FSqrt {
                                Z3_mk_fpa_sqrt(c, m, x)
                            } else {
                                Z3_mk_fpa_round_to_integral(c, m, x)
                            }
                        }
                    }
                }
                K::Ite(q, a, b) => {
                    let q = self.bv(p, *q);
                    let x = self.fp(p, *a);
                    let y = self.fp(p, *b);
                    Z3_mk_ite(c, q, x, y)
                }
                _ => {
                    let x = self.bv(p, e);
                    Z3_mk_fpa_to_fp_bv(c, x, fs)
                }
            }
        };
        self.fp.insert(e, r);
        r
    }

    fn has_uf(&self, p: &Pool, e: E, seen: &mut FxSet<E>) -> bool {
        if !p.is_fp(e) || !seen.insert(e) {
            return false;
        }
        match p.k(e) {
            K::Pow(..) | K::Un(Uop::FExp | Uop::FLn, _) => true,
            K::Un(_, a) | K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => self.has_uf(p, *a, seen),
            K::Bin(_, a, b) | K::Concat(a, b) => {
                self.has_uf(p, *a, seen) || self.has_uf(p, *b, seen)
            }
            K::Ite(a, b, d) | K::Fma(a, b, d) => {
                self.has_uf(p, *a, seen) || self.has_uf(p, *b, seen) || self.has_uf(p, *d, seen)
            }
            _ => false,
        }
    }

    unsafe fn model(&mut self, p: &Pool, s: P, syms: &[u32], pool_syms: &[E]) -> Vec<(u32, u128)> {
        let c = self.c;
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut r = vec![];
        for (&y, &e) in syms.iter().zip(pool_syms) {
            let w = p.w(e);
            let n = cs(&format!("s{}_{}", y >> 8, y & 255));
            let a = Z3_mk_const(
                c,
                Z3_mk_string_symbol(c, n.as_ptr()),
                Z3_mk_bv_sort(c, w as u32),
            );
            let mut out = std::ptr::null_mut();
            assert!(Z3_model_eval(c, m, a, true, &mut out));
            let v = if w <= 64 {
                let mut v = 0u64;
                assert!(Z3_get_numeral_uint64(c, out, &mut v));
                v as u128
            } else {
                std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, out))
                    .to_str()
                    .unwrap()
                    .parse()
                    .unwrap()
            };
            r.push((y, v));
        }
        Z3_model_dec_ref(c, m);
        r
    }

    /// Is `pc` and `q` satisfiable?  `pc` is known to be.  The model covers the symbols of the
    /// constraints that `q` depends on.
    pub fn check(&mut self, p: &mut Pool, pc: &[E], q: E, base: &Model) -> Res {
        // the part of pc connected to q
        let mut vars: FxSet<u32> = p.vars(q).iter().copied().collect();
        let pcv: Vec<_> = pc.iter().map(|&e| p.vars(e)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut more = false;
            for i in 0..pc.len() {
                if !used[i] && pcv[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    for v in pcv[i].iter() {
                        if vars.insert(*v) {
                            more = true;
                        }
                    }
                }
            }
            if !more {
                break;
            }
        }
        let mut slice: Vec<E> = (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect();
        let mut key = slice.clone();
        key.sort_unstable();
        key.dedup();
        let h = |seed: u64| {
            let mut x = seed;
            for &e in key.iter().chain([u32::MAX, q].iter()) {
                x = (x ^ e as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                x ^= x >> 29;
                x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
                x ^= x >> 32;
            }
            x
        };
        let key = (h(1), h(0xabcdef));
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let mut syms: Vec<u32> = vars.into_iter().collect();
        syms.sort_unstable();
        let sym_es: Vec<E> = syms.iter().map(|s| p.sym(s >> 8, (s & 255) as u16)).collect();
        let fp = p.is_fp(q) || slice.iter().any(|&e| p.is_fp(e));
        let t0 = Instant::now();
        self.stats.queries += 1;
        let real = if fp && !self.no_real { self.relaxed(p, &slice, q, &syms, base) } else { None };
        let r = unsafe {
            if let Some(r) = real {
                match r {
                    Res::Unsat => self.stats.real_unsat += 1,
                    _ => self.stats.real_sat += 1,
                }
                r
            } else if fp {
                self.stats.fp_queries += 1;
                slice.push(q);
                let mut seen = Default::default();
                let uf = slice.iter().any(|&e| self.has_uf(p, e, &mut seen));
                let s = if uf {
                    Z3_mk_simple_solver(self.c)
                } else {
                    let n = cs("qffpbv");
                    let t = Z3_mk_tactic(self.c, n.as_ptr());
                    Z3_tactic_inc_ref(self.c, t);
                    Z3_mk_solver_from_tactic(self.c, t)
                };
                Z3_solver_inc_ref(self.c, s);
                self.set_rlimit(s);
                for &e in &slice {
                    let a = self.bv(p, e);
                    Z3_solver_assert(self.c, s, a);
                }
                let r = match Z3_solver_check(self.c, s) {
                    1 => Res::Sat(self.model(p, s, &syms, &sym_es)),
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                };
                if let Some(lim) = self.slow_log {
                    if t0.elapsed().as_secs_f64() > lim {
                        eprintln!(
                            "SLOW {:.2}s\n{}",
                            t0.elapsed().as_secs_f64(),
                            std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy()
                        );
                    }
                }
                Z3_solver_dec_ref(self.c, s);
                r
            } else {
                self.inc_queries += 1;
                if self.inc_queries > 20000 {
                    self.reset_inc();
                }
                // bring the incremental solver to this path
                let plain: Vec<E> = pc.iter().copied().filter(|&e| !p.is_fp(e)).collect();
                let common = self
                    .stack
                    .iter()
                    .zip(plain.iter())
                    .take_while(|(a, b)| a == b)
                    .count();
                if common < self.stack.len() {
                    Z3_solver_pop(self.c, self.inc, (self.stack.len() - common) as u32);
                    self.stack.truncate(common);
                }
                for &e in &plain[common..] {
                    Z3_solver_push(self.c, self.inc);
                    let a = self.bv(p, e);
                    Z3_solver_assert(self.c, self.inc, a);
                    self.stack.push(e);
                }
                Z3_solver_push(self.c, self.inc);
                let a = self.bv(p, q);
                Z3_solver_assert(self.c, self.inc, a);
                let r = match Z3_solver_check(self.c, self.inc) {
                    1 => Res::Sat(self.model(p, self.inc, &syms, &sym_es)),
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                };
                Z3_solver_pop(self.c, self.inc, 1);
                r
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match &r {
            Res::Sat(m) => {
                self.stats.sat += 1;
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
}
