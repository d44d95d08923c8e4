//! Thin binding to the z3 C API and translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, r: *mut u64) -> bool;
    fn Z3_sort_to_ast(c: P, s: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = Z3_get_error_msg(c, e);
        eprintln!("SYMX-ERROR: z3 error {}: {:?}", e, std::ffi::CStr::from_ptr(m));
    }
    std::process::exit(70);
}

pub struct Z3 {
    c: P,
    solver: P,
    fsolver: P,
    memo: HashMap<E, P>,
    bools: HashMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_err);
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, solver);
            let fsolver = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, fsolver);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let tk = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, tk.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, solver, p);
            Z3_solver_set_params(c, fsolver, p);
            Z3 {
                c,
                solver,
                fsolver,
                memo: HashMap::new(),
                bools: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                max_time: 0.0,
            }
        }
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
    }
    unsafe fn fsort(&self, w: u32) -> P {
        match w {
            32 => self.keep(Z3_sort_to_ast(self.c, Z3_mk_fpa_sort(self.c, 8, 24))),
            64 => self.keep(Z3_sort_to_ast(self.c, Z3_mk_fpa_sort(self.c, 11, 53))),
            _ => panic!("float width {}", w),
        }
    }
    // Boolean translation (width-1 expressions as z3 Bool)
    unsafe fn tb(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(&p) = self.bools.get(&e) {
            return p;
        }
        let n = cx.nodes[e as usize];
        let c = self.c;
        debug_assert!(n.w == 1);
        let r = match n.op {
            Op::Const => {
                if cx.as_const(e) == Some(1) {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::And => {
                let a = [self.tb(cx, n.a), self.tb(cx, n.b)];
                Z3_mk_and(c, 2, a.as_ptr())
            }
            Op::Or => {
                let a = [self.tb(cx, n.a), self.tb(cx, n.b)];
                Z3_mk_or(c, 2, a.as_ptr())
            }
            Op::Xor => {
                if cx.as_const(n.b) == Some(1) {
                    let a = self.tb(cx, n.a);
                    Z3_mk_not(c, a)
                } else {
                    let a = self.tb(cx, n.a);
                    let b = self.tb(cx, n.b);
                    Z3_mk_xor(c, a, b)
                }
            }
            Op::Ite => {
                let x = self.tb(cx, n.a);
                let y = self.tb(cx, n.b);
                let z = self.tb(cx, n.c);
                Z3_mk_ite(c, x, y, z)
            }
            Op::Eq => {
                if cx.w(n.a) == 1 {
                    let a = self.tb(cx, n.a);
                    let b = self.tb(cx, n.b);
                    Z3_mk_eq(c, a, b)
                } else {
                    let a = self.tr(cx, n.a);
                    let b = self.tr(cx, n.b);
                    Z3_mk_eq(c, a, b)
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.tr(cx, n.a);
                let b = self.tr(cx, n.b);
                match n.op {
                    Op::Ult => Z3_mk_bvult(c, a, b),
                    Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b),
                    _ => Z3_mk_bvsle(c, a, b),
                }
            }
            Op::FOeq | Op::FOlt | Op::FOle | Op::FUno => {
                let s = self.fsort(n.c);
                let a = self.tr(cx, n.a);
                let b = self.tr(cx, n.b);
                let a = self.keep(Z3_mk_fpa_to_fp_bv(c, a, s));
                let b = self.keep(Z3_mk_fpa_to_fp_bv(c, b, s));
                match n.op {
                    Op::FOeq => Z3_mk_fpa_eq(c, a, b),
                    Op::FOlt => Z3_mk_fpa_lt(c, a, b),
                    Op::FOle => Z3_mk_fpa_leq(c, a, b),
                    _ => {
                        let v = [self.keep(Z3_mk_fpa_is_nan(c, a)), self.keep(Z3_mk_fpa_is_nan(c, b))];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
            }
            _ => {
                // generic bit-vector of width 1 (extract etc.)
                let a = self.tr(cx, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, a, one)
            }
        };
        let r = self.keep(r);
        self.bools.insert(e, r);
        r
    }
    unsafe fn tr(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(&p) = self.memo.get(&e) {
            return p;
        }
        let n = cx.nodes[e as usize];
        let c = self.c;
        let w = n.w as u32;
        let isbool = w == 1
            && matches!(
                n.op,
                Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FOeq | Op::FOlt | Op::FOle | Op::FUno
            );
        let r = if isbool {
            let b = self.tb(cx, e);
            Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
        } else {
            match n.op {
                Op::Const => self.num(cx.as_const(e).unwrap(), w),
                Op::Var => {
                    let s = CString::new(format!("b{}", n.a)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8))
                }
                Op::Ite => {
                    let x = self.tb(cx, n.a);
                    let y = self.tr(cx, n.b);
                    let z = self.tr(cx, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract => {
                    let a = self.tr(cx, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, a)
                }
                Op::ZExt => {
                    let a = self.tr(cx, n.a);
                    Z3_mk_zero_ext(c, w - cx.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.tr(cx, n.a);
                    Z3_mk_sign_ext(c, w - cx.w(n.a), a)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let s = self.fsort(w);
                    let a = self.tr(cx, n.a);
                    let b = self.tr(cx, n.b);
                    let a = self.keep(Z3_mk_fpa_to_fp_bv(c, a, s));
                    let b = self.keep(Z3_mk_fpa_to_fp_bv(c, b, s));
                    let rm = self.keep(Z3_mk_fpa_rne(c));
                    let r = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FNeg => {
                    let a = self.tr(cx, n.a);
                    let k = self.num(1u128 << (w - 1), w);
                    Z3_mk_bvxor(c, a, k)
                }
                Op::UIToFP | Op::SIToFP => {
                    let s = self.fsort(w);
                    let a = self.tr(cx, n.a);
                    let rm = self.keep(Z3_mk_fpa_rne(c));
                    let r = if n.op == Op::UIToFP {
                        Z3_mk_fpa_to_fp_unsigned(c, rm, a, s)
                    } else {
                        Z3_mk_fpa_to_fp_signed(c, rm, a, s)
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FPExt | Op::FPTrunc => {
                    let s1 = self.fsort(n.c);
                    let s2 = self.fsort(w);
                    let a = self.tr(cx, n.a);
                    let a = self.keep(Z3_mk_fpa_to_fp_bv(c, a, s1));
                    let r = Z3_mk_fpa_to_fp_float(c, self.keep(Z3_mk_fpa_rne(c)), a, s2);
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                _ => {
                    let a = self.tr(cx, n.a);
                    let b = self.tr(cx, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        o => panic!("z3 translation of {:?}", o),
                    }
                }
            }
        };
        let r = self.keep(r);
        self.memo.insert(e, r);
        r
    }
    fn has_float(&self, cx: &Ctx, es: &[E]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = es.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = cx.nodes[e as usize];
            match n.op {
                Op::Const | Op::Var => {}
                Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
                Op::Ite => st.extend([n.a, n.b, n.c]),
                o if (o as u8) >= Op::FAdd as u8 => return true,
                _ => st.extend([n.a, n.b]),
            }
        }
        false
    }
    pub fn check(&mut self, cx: &Ctx, es: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let fl = self.has_float(cx, es);
        let mut deps = 0u128;
        let r = unsafe {
            let s = if fl { self.fsolver } else { self.solver };
            Z3_solver_reset(self.c, s);
            for &e in es {
                deps |= cx.deps[e as usize];
                let b = self.tb(cx, e);
                Z3_solver_assert(self.c, s, b);
            }
            match Z3_solver_check(self.c, s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    let mut d = deps;
                    while d != 0 {
                        let k = d.trailing_zeros();
                        d &= d - 1;
                        let name = CString::new(format!("b{}", k)).unwrap();
                        let v = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, name.as_ptr()), Z3_mk_bv_sort(self.c, 8));
                        Z3_inc_ref(self.c, v);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, v, true, &mut o) {
                            let mut x = 0u64;
                            Z3_get_numeral_uint64(self.c, o, &mut x);
                            out.push((k, x as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => Res::Unknown,
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        r
    }
}
