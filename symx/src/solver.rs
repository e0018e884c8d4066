//! Z3 (C API) back end: queries over slices of the path condition, with a cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_error_code(c: P) -> c_uint;
}

#[derive(Clone)]
pub enum R {
    Unsat,
    Sat(Vec<(u32, u64)>),
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    bv: HashMap<E, P, FxB>,
    bl: HashMap<E, P, FxB>,
    pub cache: HashMap<Vec<E>, R>,
    pub queries: u64,
    pub hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub vars: Vec<u32>, // widths
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                bv: HashMap::default(),
                bl: HashMap::default(),
                cache: HashMap::new(),
                queries: 0,
                hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                secs: 0.0,
                max_secs: 0.0,
                vars: vec![],
            }
        }
    }
    fn to_bool(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let n = ar.n[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                O::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                O::Eq => {
                    if ar.w(n.a) == 1 {
                        let (a, b) = (self.to_bool(ar, n.a), self.to_bool(ar, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                O::Ult | O::Ule | O::Slt | O::Sle => {
                    let (a, b) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b));
                    match n.op {
                        O::Ult => Z3_mk_bvult(c, a, b),
                        O::Ule => Z3_mk_bvule(c, a, b),
                        O::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                O::And | O::Or => {
                    let v = [self.to_bool(ar, n.a), self.to_bool(ar, n.b)];
                    if n.op == O::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                O::Xor | O::Add | O::Sub => {
                    let (a, b) = (self.to_bool(ar, n.a), self.to_bool(ar, n.b));
                    let q = Z3_mk_eq(c, a, b);
                    Z3_mk_not(c, q)
                }
                O::Ite => {
                    let (a, b, d) = (self.to_bool(ar, n.a), self.to_bool(ar, n.b), self.to_bool(ar, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let x = self.to_bv(ar, e);
                    let so = Z3_mk_bv_sort(c, 1);
                    let s1 = CString::new("1").unwrap();
                    let one = Z3_mk_numeral(c, s1.as_ptr(), so);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn to_bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = ar.n[e as usize];
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                O::Const => {
                    let s = CString::new(n.k.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                }
                O::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, w)),
                O::Eq | O::Ult | O::Ule | O::Slt | O::Sle => {
                    let b = self.to_bool(ar, e);
                    let so = Z3_mk_bv_sort(c, 1);
                    let s1 = CString::new("1").unwrap();
                    let s0 = CString::new("0").unwrap();
                    Z3_mk_ite(c, b, Z3_mk_numeral(c, s1.as_ptr(), so), Z3_mk_numeral(c, s0.as_ptr(), so))
                }
                O::Ite => {
                    let b = self.to_bool(ar, n.a);
                    let (x, y) = (self.to_bv(ar, n.b), self.to_bv(ar, n.c));
                    Z3_mk_ite(c, b, x, y)
                }
                O::ZExt => {
                    let a = self.to_bv(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                }
                O::SExt => {
                    let a = self.to_bv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                O::Extract => {
                    let a = self.to_bv(ar, n.a);
                    Z3_mk_extract(c, n.k as c_uint + w - 1, n.k as c_uint, a)
                }
                _ => {
                    let (a, b) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b));
                    let f = match n.op {
                        O::Add => Z3_mk_bvadd,
                        O::Sub => Z3_mk_bvsub,
                        O::Mul => Z3_mk_bvmul,
                        O::UDiv => Z3_mk_bvudiv,
                        O::SDiv => Z3_mk_bvsdiv,
                        O::URem => Z3_mk_bvurem,
                        O::SRem => Z3_mk_bvsrem,
                        O::And => Z3_mk_bvand,
                        O::Or => Z3_mk_bvor,
                        O::Xor => Z3_mk_bvxor,
                        O::Shl => Z3_mk_bvshl,
                        O::LShr => Z3_mk_bvlshr,
                        O::AShr => Z3_mk_bvashr,
                        O::Concat => Z3_mk_concat,
                        _ => unreachable!(),
                    };
                    f(c, a, b)
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    /// Satisfiability of pc /\ cond, restricted to the constraints that share
    /// variables (transitively) with cond.
    pub fn check(&mut self, ar: &Arena, pc: &[E], cond: E) -> R {
        let mut set = *ar.supp_of(cond);
        let mut used = vec![false; pc.len()];
        let mut key = vec![];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = ar.supp_of(*c);
                if (0..SW).any(|j| s[j] & set[j] != 0) {
                    used[i] = true;
                    ch = true;
                    key.push(*c);
                    for j in 0..SW {
                        set[j] |= s[j];
                    }
                }
            }
            if !ch {
                break;
            }
        }
        key.sort_unstable();
        key.dedup();
        key.push(cond);
        if let Some(r) = self.cache.get(&key) {
            self.hits += 1;
            return r.clone();
        }
        let t = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for c in &key {
                let b = self.to_bool(ar, *c);
                Z3_solver_assert(self.ctx, self.s, b);
            }
            let r = Z3_solver_check(self.ctx, self.s);
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = vec![];
                    for v in 0..(SW * 64) {
                        if set[v / 64] >> (v % 64) & 1 == 1 {
                            let w = self.vars[v];
                            let x = Z3_mk_const(
                                self.ctx,
                                Z3_mk_int_symbol(self.ctx, v as c_int),
                                Z3_mk_bv_sort(self.ctx, w),
                            );
                            let mut o: P = std::ptr::null_mut();
                            let mut val = 0u64;
                            if Z3_model_eval(self.ctx, m, x, true, &mut o) {
                                Z3_get_numeral_uint64(self.ctx, o, &mut val);
                            }
                            vals.push((v as u32, val));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    R::Sat(vals)
                }
                -1 => {
                    self.unsat += 1;
                    R::Unsat
                }
                _ => {
                    self.unknown += 1;
                    R::Unknown
                }
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            if Z3_get_error_code(self.ctx) != 0 {
                eprintln!("z3 error {}", Z3_get_error_code(self.ctx));
                std::process::exit(70);
            }
            out
        };
        let d = t.elapsed().as_secs_f64();
        self.secs += d;
        if d > self.max_secs {
            self.max_secs = d
        }
        self.cache.insert(key, r.clone());
        r
    }
}
