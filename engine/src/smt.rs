//! Z3 back end (QF_BV), through the C API.
#![allow(non_camel_case_types, non_snake_case)]
use crate::term::{Op, Terms, T};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("symx: z3 API error {code}");
    std::process::abort();
}

pub enum Ans {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown,
}

pub struct Smt {
    ctx: P,
    solver: P,
    bv: Vec<P>,
    bl: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
}

impl Smt {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let lg = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, lg.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            // Deterministic effort bound per query (no timer threads).
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), 50_000_000);
            Z3_solver_set_params(ctx, solver, p);
            Smt { ctx, solver, bv: vec![], bl: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0 }
        }
    }

    fn get(v: &mut Vec<P>, t: T) -> P {
        if v.len() <= t as usize {
            v.resize(t as usize + 1, std::ptr::null_mut());
        }
        v[t as usize]
    }

    fn bool_of(&mut self, ts: &Terms, t: T) -> P {
        let p = Self::get(&mut self.bl, t);
        if !p.is_null() {
            return p;
        }
        let n = ts.nodes[t as usize];
        assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => Z3_mk_not(c, self.bool_of(ts, n.a)),
                Op::And => Z3_mk_and(c, 2, [self.bool_of(ts, n.a), self.bool_of(ts, n.b)].as_ptr()),
                Op::Or => Z3_mk_or(c, 2, [self.bool_of(ts, n.a), self.bool_of(ts, n.b)].as_ptr()),
                Op::Xor => Z3_mk_xor(c, self.bool_of(ts, n.a), self.bool_of(ts, n.b)),
                Op::Ite => Z3_mk_ite(c, self.bool_of(ts, n.a), self.bool_of(ts, n.b), self.bool_of(ts, n.c)),
                Op::Eq if ts.w(n.a) == 1 => Z3_mk_eq(c, self.bool_of(ts, n.a), self.bool_of(ts, n.b)),
                Op::Eq => Z3_mk_eq(c, self.bv_of(ts, n.a), self.bv_of(ts, n.b)),
                Op::Ult => Z3_mk_bvult(c, self.bv_of(ts, n.a), self.bv_of(ts, n.b)),
                Op::Ule => Z3_mk_bvule(c, self.bv_of(ts, n.a), self.bv_of(ts, n.b)),
                Op::Slt => Z3_mk_bvslt(c, self.bv_of(ts, n.a), self.bv_of(ts, n.b)),
                Op::Sle => Z3_mk_bvsle(c, self.bv_of(ts, n.a), self.bv_of(ts, n.b)),
                _ => {
                    let b = self.bv_of(ts, t);
                    Z3_mk_eq(c, b, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                }
            }
        };
        Self::get(&mut self.bl, t);
        self.bl[t as usize] = r;
        r
    }

    fn bv_of(&mut self, ts: &Terms, t: T) -> P {
        let p = Self::get(&mut self.bv, t);
        if !p.is_null() {
            return p;
        }
        let n = ts.nodes[t as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, n.w as c_uint);
                    if n.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let x = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, x.as_ptr(), s)
                    }
                }
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.bool_of(ts, t);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Ite => Z3_mk_ite(c, self.bool_of(ts, n.a), self.bv_of(ts, n.b), self.bv_of(ts, n.c)),
                Op::Not => Z3_mk_bvnot(c, self.bv_of(ts, n.a)),
                Op::Extract => {
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, self.bv_of(ts, n.a))
                }
                Op::ZExt => Z3_mk_zero_ext(c, (n.w - ts.w(n.a)) as c_uint, self.bv_of(ts, n.a)),
                Op::SExt => Z3_mk_sign_ext(c, (n.w - ts.w(n.a)) as c_uint, self.bv_of(ts, n.a)),
                op => {
                    let a = self.bv_of(ts, n.a);
                    let b = self.bv_of(ts, n.b);
                    let f = match op {
                        Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor,
                        Op::Xor => Z3_mk_bvxor,
                        Op::Add => Z3_mk_bvadd,
                        Op::Sub => Z3_mk_bvsub,
                        Op::Mul => Z3_mk_bvmul,
                        Op::UDiv => Z3_mk_bvudiv,
                        Op::URem => Z3_mk_bvurem,
                        Op::SDiv => Z3_mk_bvsdiv,
                        Op::SRem => Z3_mk_bvsrem,
                        Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr,
                        Op::AShr => Z3_mk_bvashr,
                        Op::Concat => Z3_mk_concat,
                        _ => unreachable!(),
                    };
                    f(c, a, b)
                }
            }
        };
        Self::get(&mut self.bv, t);
        self.bv[t as usize] = r;
        r
    }

    pub fn check(&mut self, ts: &Terms, cs: &[T]) -> Ans {
        let t0 = Instant::now();
        self.queries += 1;
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for &t in cs {
                let b = self.bool_of(ts, t);
                Z3_solver_assert(self.ctx, self.solver, b);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = HashMap::new();
                    for &t in cs {
                        for &v in ts.varset(t) {
                            if out.contains_key(&v) {
                                continue;
                            }
                            let vt = ts.var_term(v);
                            let a = self.bv_of(ts, vt);
                            let mut res: P = std::ptr::null_mut();
                            assert!(Z3_model_eval(self.ctx, m, a, true, &mut res));
                            let mut u = 0u64;
                            let val = if Z3_get_numeral_uint64(self.ctx, res, &mut u) {
                                u as u128
                            } else {
                                let s = Z3_get_numeral_string(self.ctx, res);
                                std::ffi::CStr::from_ptr(s).to_str().unwrap().parse().unwrap()
                            };
                            out.insert(v, val);
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Ans::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Ans::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Ans::Unknown
                }
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            self.time += t0.elapsed().as_secs_f64();
            ans
        }
    }
}
