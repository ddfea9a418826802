//! Z3 back end (C API), with slicing done by the caller and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const std::os::raw::c_char;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        panic!("z3 error {e}: {m:?}");
    }
}

#[derive(Clone)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    bv: Vec<P>,
    bo: Vec<P>,
    sorts: HashMap<u32, P>,
    params: P,
    logic: P,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub cached: u64,
    pub time: f64,
    pub dump_over: f64,
    pub unknown: u64,
    pub max_time: f64,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"auto_config".as_ptr(), c"true".as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = Z3_mk_string_symbol(c, c"rlimit".as_ptr());
            Z3_params_set_uint(c, params, k, rlimit);
            let logic = Z3_mk_string_symbol(c, c"QF_BV".as_ptr());
            Solver { c, bv: vec![], bo: vec![], sorts: HashMap::new(), params, logic, cache: HashMap::new(), queries: 0, cached: 0, time: 0.0, dump_over: std::env::var("SYMX_DUMP").ok().and_then(|v| v.parse().ok()).unwrap_or(0.0), unknown: 0, max_time: 0.0 }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        let t = self.sort(w);
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), t) }
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n, std::ptr::null_mut());
            self.bo.resize(n, std::ptr::null_mut());
        }
    }
    /// boolean view of a 1-bit expression
    fn tb(&mut self, x: &Ctx, e: E) -> P {
        if !self.bo[e as usize].is_null() {
            return self.bo[e as usize];
        }
        let k = x.k(e);
        let c = self.c;
        let r = unsafe {
            match k.op {
                Op::Const => if k.val == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => {
                    if x.w(k.a) == 1 {
                        let (a, b) = (self.tb(x, k.a), self.tb(x, k.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.tv(x, k.a), self.tv(x, k.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let (a, b) = (self.tv(x, k.a), self.tv(x, k.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.tv(x, k.a), self.tv(x, k.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::And => {
                    let v = [self.tb(x, k.a), self.tb(x, k.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tb(x, k.a), self.tb(x, k.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let a = self.tb(x, k.a);
                    if x.cv(k.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.tb(x, k.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.tb(x, k.a), self.tb(x, k.b), self.tb(x, k.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                    let (a, b) = (self.tf(x, k.a), self.tf(x, k.b));
                    match k.op {
                        Op::FEq => Z3_mk_fpa_eq(c, a, b),
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        Op::FLe => Z3_mk_fpa_leq(c, a, b),
                        _ => {
                            let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                    }
                }
                _ => {
                    let v = self.tv(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        self.bo[e as usize] = r;
        r
    }
    fn fsort(&self, w: u32) -> P {
        unsafe { if w == 32 { Z3_mk_fpa_sort_single(self.c) } else { Z3_mk_fpa_sort_double(self.c) } }
    }
    fn tf(&mut self, x: &Ctx, e: E) -> P {
        let v = self.tv(x, e);
        let s = self.fsort(x.w(e));
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, v, s) }
    }
    fn tv(&mut self, x: &Ctx, e: E) -> P {
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let k = x.k(e);
        let w = k.w as u32;
        let c = self.c;
        let r = unsafe {
            match k.op {
                Op::Const => self.num(k.val, w),
                Op::Var => {
                    let n = CString::new(format!("{}!{}", x.vars[k.a as usize].name, k.a)).unwrap();
                    let s = Z3_mk_string_symbol(c, n.as_ptr());
                    let t = self.sort(w);
                    Z3_mk_const(c, s, t)
                }
                Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                    let b = self.tb(x, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                Op::Ite => {
                    let (a, b, d) = (self.tb(x, k.a), self.tv(x, k.b), self.tv(x, k.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Extract => {
                    let a = self.tv(x, k.a);
                    Z3_mk_extract(c, k.c + w - 1, k.c, a)
                }
                Op::ZExt => {
                    let a = self.tv(x, k.a);
                    Z3_mk_zero_ext(c, w - x.w(k.a), a)
                }
                Op::SExt => {
                    let a = self.tv(x, k.a);
                    Z3_mk_sign_ext(c, w - x.w(k.a), a)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.tf(x, k.a), self.tf(x, k.b));
                    let rm = Z3_mk_fpa_rne(c);
                    let f = match k.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::UiToFp | Op::SiToFp => {
                    let a = self.tv(x, k.a);
                    let rm = Z3_mk_fpa_rne(c);
                    let s = self.fsort(w);
                    let f = if k.op == Op::UiToFp { Z3_mk_fpa_to_fp_unsigned(c, rm, a, s) } else { Z3_mk_fpa_to_fp_signed(c, rm, a, s) };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FpToFp => {
                    let a = self.tf(x, k.a);
                    let rm = Z3_mk_fpa_rne(c);
                    let s = self.fsort(w);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rm, a, s))
                }
                Op::FpToUi | Op::FpToSi => {
                    // saturating conversion
                    let wa = x.w(k.a);
                    let f = self.tf(x, k.a);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let s = self.fsort(wa);
                    let uns = k.op == Op::FpToUi;
                    let (lo, hi): (f64, f64) = if uns { (-1.0, 2f64.powi(w as i32)) } else { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) };
                    let mkf = |sl: &mut Self, v: f64| {
                        let bits = if wa == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                        let b = sl.num(bits, wa);
                        Z3_mk_fpa_to_fp_bv(c, b, s)
                    };
                    let flo = mkf(self, lo);
                    let fhi = mkf(self, hi);
                    let conv = if uns { Z3_mk_fpa_to_ubv(c, rtz, f, w) } else { Z3_mk_fpa_to_sbv(c, rtz, f, w) };
                    let maxv = self.num(if uns { crate::ir::mask(w) } else { crate::ir::mask(w - 1) }, w);
                    let minv = self.num(if uns { 0 } else { 1u128 << (w - 1) }, w);
                    let zero = self.num(0, w);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fhi, f), maxv, conv);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, flo), minv, r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), zero, r)
                }
                Op::FRound => {
                    let f = self.tf(x, k.a);
                    let rm = match k.c {
                        0 => Z3_mk_fpa_rtn(c),
                        1 => Z3_mk_fpa_rtp(c),
                        2 => Z3_mk_fpa_rtz(c),
                        3 => Z3_mk_fpa_rne(c),
                        _ => Z3_mk_fpa_rna(c),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, f))
                }
                Op::FRem => panic!("symbolic frem"),
                _ if w == 1 && matches!(k.op, Op::And | Op::Or | Op::Xor) => {
                    let b = self.tb(x, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                _ => {
                    let (a, b) = (self.tv(x, k.a), self.tv(x, k.b));
                    match k.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        o => panic!("tv {o:?}"),
                    }
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    /// satisfiability of a conjunction of 1-bit expressions
    pub fn check(&mut self, x: &mut Ctx, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return r.clone();
        }
        self.grow(x.n.len());
        let t0 = Instant::now();
        self.queries += 1;
        let mut vs: Vec<u32> = vec![];
        let mut has_fp = false;
        for e in &key {
            vs.extend(x.vars_of(*e).iter());
            has_fp |= x.n[*e as usize].fp;
        }
        vs.sort_unstable();
        vs.dedup();
        let r = unsafe {
            let s = if has_fp { Z3_mk_simple_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, self.logic) };
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for e in &key {
                let a = self.tb(x, *e);
                Z3_solver_assert(self.c, s, a);
            }
            // declared ranges of the variables involved
            for v in &vs {
                let (w, lo, hi, ve) = {
                    let i = &x.vars[*v as usize];
                    (i.w as u32, i.lo, i.hi, i.e)
                };
                let t = self.tv(x, ve);
                if lo > 0 {
                    let l = self.num(lo, w);
                    Z3_solver_assert(self.c, s, Z3_mk_not(self.c, Z3_mk_bvult(self.c, t, l)));
                }
                if hi < crate::ir::mask(w) {
                    let h = self.num(hi, w);
                    Z3_solver_assert(self.c, s, Z3_mk_not(self.c, Z3_mk_bvult(self.c, h, t)));
                }
            }
            let r = match Z3_solver_check(self.c, s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for v in vs {
                        let ve = x.vars[v as usize].e;
                        let t = self.tv(x, ve);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, t, true, &mut o) {
                            let st = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap();
                            out.push((v, st.parse::<u128>().unwrap()));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            if self.dump_over > 0.0 && t0.elapsed().as_secs_f64() > self.dump_over {
                let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
                let _ = std::fs::write(format!("/tmp/symxq_{}_{}.smt2", std::process::id(), self.queries), t);
            }
            Z3_solver_dec_ref(self.c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        self.cache.insert(key, r.clone());
        r
    }
}

