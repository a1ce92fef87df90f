//! Z3 back end (C API).  Path conditions are kept as an incremental assertion stack.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type P = *mut c_void;
#[link(name = "z3")]
#[allow(dead_code)]
extern "C" {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_mk_context(c: P) -> P;
    pub fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    pub fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    pub fn Z3_inc_ref(c: P, a: P);
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    pub fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    pub fn Z3_mk_simple_solver(c: P) -> P;
    pub fn Z3_mk_solver(c: P) -> P;
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_solver_dec_ref(c: P, s: P);
    pub fn Z3_solver_push(c: P, s: P);
    pub fn Z3_solver_pop(c: P, s: P, n: c_uint);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_solver_check(c: P, s: P) -> c_int;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    pub fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    pub fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    pub fn Z3_mk_bool_sort(c: P) -> P;
    pub fn Z3_mk_const(c: P, s: P, t: P) -> P;
    pub fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    pub fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_false(c: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_fpa_sort_double(c: P) -> P;
    pub fn Z3_mk_fpa_sort_single(c: P) -> P;
    pub fn Z3_mk_fpa_rne(c: P) -> P;
    pub fn Z3_mk_fpa_rna(c: P) -> P;
    pub fn Z3_mk_fpa_rtn(c: P) -> P;
    pub fn Z3_mk_fpa_rtp(c: P) -> P;
    pub fn Z3_mk_fpa_rtz(c: P) -> P;
    pub fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: c_uint) -> P;
    pub fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: c_uint) -> P;
    pub fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_rem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    pub fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_is_zero(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    pub fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    pub fn Z3_mk_real_sort(c: P) -> P;
    pub fn Z3_mk_int_sort(c: P) -> P;
    pub fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_div(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_le(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bv2int(c: P, a: P, signed: bool) -> P;
    pub fn Z3_mk_int2real(c: P, a: P) -> P;
}
extern "C" fn onerr(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
        std::process::exit(3);
    }
}

#[derive(Debug)]
pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    stack: Vec<E>,
    bv: FxMap<E, P>,
    bo: FxMap<E, P>,
    fp: FxMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    /// shorter limit for exact floating-point queries, when set
    pub fp_ms: Option<u32>,
    quick_ms: u32,
    pub fallback: u64,
    pub relaxed: u64,
    pub relax_tried: u64,
    pub relax_sat: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, onerr);
            let quick_ms = timeout_ms.min(std::env::var("IRSYM_QUICK").ok().and_then(|v| v.parse().ok()).unwrap_or(25));
            let s = Self::mk_solver(c, quick_ms);
            Solver {
                c,
                s,
                stack: vec![],
                bv: Default::default(),
                bo: Default::default(),
                fp: Default::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
                fp_ms: None,
                quick_ms,
                fallback: 0,
                relaxed: 0,
                relax_tried: 0,
                relax_sat: 0,
            }
        }
    }
    unsafe fn fresh(&self, fp: bool) -> P {
        let l = CString::new(if fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
        let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
        let t = if fp { self.fp_ms.unwrap_or(self.timeout_ms) } else { self.timeout_ms };
        Self::limits(self.c, s, t);
        s
    }
    unsafe fn mk_solver(c: P, timeout_ms: u32) -> P {
        let s = Z3_mk_simple_solver(c);
        Self::limits(c, s, timeout_ms);
        s
    }
    pub unsafe fn limits(c: P, s: P, timeout_ms: u32) {
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
        Z3_solver_set_params(c, s, p);
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn num(&self, w: u16, k: u128) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w as c_uint);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, k as u64, so)
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), so)
            }
        }
    }
    /// translate all sub-expressions bottom-up
    fn prepare(&mut self, x: &Ctx, e: E) {
        let mut st = vec![(e, false)];
        let mut seen: FxSet<E> = Default::default();
        while let Some((v, done)) = st.pop() {
            if self.bv.contains_key(&v) && (x.w(v) != 1 || self.bo.contains_key(&v)) {
                continue;
            }
            let n = x.nd(v);
            if done {
                self.tr(x, v, n);
                continue;
            }
            if !seen.insert(v) {
                continue;
            }
            st.push((v, true));
            for ch in [n.a, n.b, n.c] {
                if ch != u32::MAX {
                    st.push((ch, false));
                }
            }
        }
    }
    fn fpsort(&self, w: u16) -> P {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort_double(self.c)
            } else {
                Z3_mk_fpa_sort_single(self.c)
            }
        }
    }
    fn as_fp(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.fp.get(&e) {
            return p;
        }
        let p = unsafe { Z3_mk_fpa_to_fp_bv(self.c, self.bv[&e], self.fpsort(x.w(e))) };
        let p = self.keep(p);
        self.fp.insert(e, p);
        p
    }
    fn tr(&mut self, x: &Ctx, e: E, n: Node) {
        unsafe {
            let c = self.c;
            let w = n.w;
            // boolean result?
            if w == 1 {
                let b: P = match n.op {
                    Op::Const => {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    Op::Eq => {
                        if x.w(n.a) == 1 {
                            Z3_mk_eq(c, self.bo[&n.a], self.bo[&n.b])
                        } else {
                            Z3_mk_eq(c, self.bv[&n.a], self.bv[&n.b])
                        }
                    }
                    Op::Ult => Z3_mk_bvult(c, self.bv[&n.a], self.bv[&n.b]),
                    Op::Slt => Z3_mk_bvslt(c, self.bv[&n.a], self.bv[&n.b]),
                    Op::And => {
                        let v = [self.bo[&n.a], self.bo[&n.b]];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    Op::Or => {
                        let v = [self.bo[&n.a], self.bo[&n.b]];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    Op::Xor => {
                        if x.as_c(n.b) == Some(1) {
                            Z3_mk_not(c, self.bo[&n.a])
                        } else {
                            Z3_mk_xor(c, self.bo[&n.a], self.bo[&n.b])
                        }
                    }
                    Op::Ite => Z3_mk_ite(c, self.bo[&n.a], self.bo[&n.b], self.bo[&n.c]),
                    Op::FLt | Op::FLe | Op::FEq => {
                        let (a, b) = (self.as_fp(x, n.a), self.as_fp(x, n.b));
                        match n.op {
                            Op::FLt => Z3_mk_fpa_lt(c, a, b),
                            Op::FLe => Z3_mk_fpa_leq(c, a, b),
                            _ => Z3_mk_fpa_eq(c, a, b),
                        }
                    }
                    _ => {
                        let v = self.tr_bv(x, e, n);
                        let v = self.keep(v);
                        self.bv.insert(e, v);
                        Z3_mk_eq(c, v, self.num(1, 1))
                    }
                };
                let b = self.keep(b);
                self.bo.insert(e, b);
                if !self.bv.contains_key(&e) {
                    let v = Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0));
                    let v = self.keep(v);
                    self.bv.insert(e, v);
                }
            } else {
                let v = self.tr_bv(x, e, n);
                let v = self.keep(v);
                self.bv.insert(e, v);
            }
        }
    }
    unsafe fn tr_bv(&mut self, x: &Ctx, e: E, n: Node) -> P {
        let c = self.c;
        let g = |s: &Self, e: E| s.bv[&e];
        match n.op {
            Op::Const => self.num(n.w, n.k),
            Op::Var => {
                let s = CString::new(x.var_names[n.k as usize].as_str()).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w as c_uint))
            }
            Op::Add => Z3_mk_bvadd(c, g(self, n.a), g(self, n.b)),
            Op::Sub => Z3_mk_bvsub(c, g(self, n.a), g(self, n.b)),
            Op::Mul => Z3_mk_bvmul(c, g(self, n.a), g(self, n.b)),
            Op::UDiv => Z3_mk_bvudiv(c, g(self, n.a), g(self, n.b)),
            Op::SDiv => Z3_mk_bvsdiv(c, g(self, n.a), g(self, n.b)),
            Op::URem => Z3_mk_bvurem(c, g(self, n.a), g(self, n.b)),
            Op::SRem => Z3_mk_bvsrem(c, g(self, n.a), g(self, n.b)),
            Op::Shl => Z3_mk_bvshl(c, g(self, n.a), g(self, n.b)),
            Op::LShr => Z3_mk_bvlshr(c, g(self, n.a), g(self, n.b)),
            Op::AShr => Z3_mk_bvashr(c, g(self, n.a), g(self, n.b)),
            Op::And => Z3_mk_bvand(c, g(self, n.a), g(self, n.b)),
            Op::Or => Z3_mk_bvor(c, g(self, n.a), g(self, n.b)),
            Op::Xor => Z3_mk_bvxor(c, g(self, n.a), g(self, n.b)),
            Op::Concat => Z3_mk_concat(c, g(self, n.a), g(self, n.b)),
            Op::Extract => Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, g(self, n.a)),
            Op::SExt => Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as c_uint, g(self, n.a)),
            Op::Ite => Z3_mk_ite(c, self.bo[&n.a], g(self, n.b), g(self, n.c)),
            Op::FRem => {
                let one = if n.w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
                if x.as_c(n.b) == Some(one) {
                    // x - trunc(x), exact; a zero result has the sign of x
                    let a = self.as_fp(x, n.a);
                    let t = Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), a);
                    let r = Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), a, t);
                    let bits = Z3_mk_fpa_to_ieee_bv(c, r);
                    let sg = Z3_mk_extract(c, n.w as c_uint - 1, n.w as c_uint - 1, g(self, n.a));
                    let z = Z3_mk_concat(c, sg, self.num(n.w - 1, 0));
                    Z3_mk_ite(c, Z3_mk_fpa_is_zero(c, r), z, bits)
                } else {
                    // over-approximated: any value
                    let s = CString::new(format!("frem{}", e)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w as c_uint))
                }
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (a, b) = (self.as_fp(x, n.a), self.as_fp(x, n.b));
                let rm = Z3_mk_fpa_rne(c);
                let r = match n.op {
                    Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                    Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                    Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                    _ => Z3_mk_fpa_div(c, rm, a, b),
                };
                self.fin_fp(e, r)
            }
            Op::FExt | Op::FTrunc => {
                let a = self.as_fp(x, n.a);
                let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fpsort(n.w));
                self.fin_fp(e, r)
            }
            Op::SIToF => {
                let r = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), g(self, n.a), self.fpsort(n.w));
                self.fin_fp(e, r)
            }
            Op::UIToF => {
                let r = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), g(self, n.a), self.fpsort(n.w));
                self.fin_fp(e, r)
            }
            Op::FRound => {
                let a = self.as_fp(x, n.a);
                let rm = match n.k {
                    0 => Z3_mk_fpa_rna(c),
                    1 => Z3_mk_fpa_rtn(c),
                    2 => Z3_mk_fpa_rtp(c),
                    3 => Z3_mk_fpa_rtz(c),
                    _ => Z3_mk_fpa_rne(c),
                };
                let r = Z3_mk_fpa_round_to_integral(c, rm, a);
                self.fin_fp(e, r)
            }
            Op::FSqrt => {
                let a = self.as_fp(x, n.a);
                let r = Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a);
                self.fin_fp(e, r)
            }
            Op::FToSI | Op::FToUI => {
                // saturating, NaN -> 0
                let a = self.as_fp(x, n.a);
                let aw = x.w(n.a);
                let signed = n.op == Op::FToSI;
                let (lo, hi): (f64, f64) = if signed {
                    (-(2f64.powi(n.w as i32 - 1)), 2f64.powi(n.w as i32 - 1))
                } else {
                    (0.0, 2f64.powi(n.w as i32))
                };
                let fpc = |s: &Self, v: f64| {
                    let bits = if aw == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
                    Z3_mk_fpa_to_fp_bv(c, s.num(aw, bits), s.fpsort(aw))
                };
                let rtz = Z3_mk_fpa_rtz(c);
                let conv = if signed {
                    Z3_mk_fpa_to_sbv(c, rtz, a, n.w as c_uint)
                } else {
                    Z3_mk_fpa_to_ubv(c, rtz, a, n.w as c_uint)
                };
                let lov = if signed { 1u128 << (n.w - 1) } else { 0 };
                let hiv = if signed { mask(n.w) >> 1 } else { mask(n.w) };
                let t = Z3_mk_fpa_leq(c, a, fpc(self, lo));
                let u = Z3_mk_fpa_leq(c, fpc(self, hi), a);
                let nan = Z3_mk_fpa_is_nan(c, a);
                let r = Z3_mk_ite(c, u, self.num(n.w, hiv), conv);
                let r = Z3_mk_ite(c, t, self.num(n.w, lov), r);
                Z3_mk_ite(c, nan, self.num(n.w, 0), r)
            }
            _ => panic!("tr_bv {:?}", n.op),
        }
    }
    unsafe fn fin_fp(&mut self, e: E, r: P) -> P {
        let r = self.keep(r);
        self.fp.insert(e, r);
        Z3_mk_fpa_to_ieee_bv(self.c, r)
    }
    pub fn boolean(&mut self, x: &Ctx, e: E) -> P {
        self.prepare(x, e);
        self.bo[&e]
    }
    fn sync(&mut self, x: &Ctx, pc: &[E]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && self.stack[k] == pc[k] {
            k += 1;
        }
        unsafe {
            if self.stack.len() > k {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as c_uint);
                self.stack.truncate(k);
            }
            for &e in &pc[k..] {
                let a = self.boolean(x, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(e);
            }
        }
    }
    /// is pc /\ extra satisfiable?
    pub fn check(&mut self, x: &mut Ctx, pc: &[E], extra: E, base: &[u128]) -> Res {
        let t0 = std::time::Instant::now();
        if x.has_fp[extra as usize] {
            let mut cs = pc.to_vec();
            cs.push(extra);
            self.relax_tried += 1;
            let r = crate::relax::Relax::new(self.c).solve(x, &cs, self.timeout_ms.min(20_000));
            let r = match r {
                crate::relax::Rx::Unsat => {
                    self.unsat += 1;
                    self.relaxed += 1;
                    Some(Res::Unsat)
                }
                crate::relax::Rx::Model(vals) => {
                    // a hint only: every condition is evaluated exactly
                    let mut model = base.to_vec();
                    for (e, v) in vals {
                        crate::relax::assign(x, &mut model, e, v);
                    }
                    x.new_eval();
                    if cs.iter().rev().all(|&e| x.eval(e, &model) == 1) {
                        self.sat += 1;
                        self.relax_sat += 1;
                        Some(Res::Sat(model))
                    } else {
                        None
                    }
                }
                _ => None,
            };
            // rare rounding effects: try some values before asking for one
            let r = match r {
                Some(r) => Some(r),
                None => {
                    let mut vs = vec![];
                    let mut seen = Default::default();
                    x.vars(extra, &mut seen, &mut vs);
                    let mut rng = 0x9e3779b97f4a7c15u64 ^ extra as u64;
                    let mut found = None;
                    let mut model = base.to_vec();
                    for t in 0..4000 {
                        for &v in &vs {
                            rng ^= rng << 13;
                            rng ^= rng >> 7;
                            rng ^= rng << 17;
                            if model.len() <= v as usize {
                                model.resize(v as usize + 1, 0);
                            }
                            // sparse changes of the current model now and then
                            if t % 4 == 0 && rng & 0x30000 != 0 {
                                model[v as usize] = base.get(v as usize).copied().unwrap_or(0);
                                continue;
                            }
                            let m = mask(x.w(x.var_expr[v as usize]));
                            model[v as usize] = match (rng >> 60) & 7 {
                                0 => 0,
                                1 => m,
                                _ => (rng >> 8) as u128 & m,
                            };
                        }
                        x.new_eval();
                        if cs.iter().rev().all(|&e| x.eval(e, &model) == 1) {
                            found = Some(Res::Sat(model.clone()));
                            self.sat += 1;
                            self.relax_sat += 1;
                            break;
                        }
                    }
                    found
                }
            };
            if let Some(r) = r {
                let dt = t0.elapsed().as_secs_f64();
                self.time += dt;
                self.max_time = self.max_time.max(dt);
                self.queries += 1;
                return r;
            }
        }
        self.sync(x, pc);
        let a = self.boolean(x, extra);
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            let mut r = Z3_solver_check(self.c, self.s);
            let mut fresh: P = std::ptr::null_mut();
            if r == 0 && self.timeout_ms > self.quick_ms {
                // hard for the incremental core: bit-blast in a fresh solver
                let fp = x.has_fp[extra as usize] || pc.iter().any(|&e| x.has_fp[e as usize]);
                fresh = self.fresh(fp);
                for &e in pc {
                    let a = self.bo[&e];
                    Z3_solver_assert(self.c, fresh, a);
                }
                Z3_solver_assert(self.c, fresh, a);
                r = Z3_solver_check(self.c, fresh);
                self.fallback += 1;
            }
            if std::env::var("IRSYM_SLOW").is_ok() && t0.elapsed().as_secs_f64() > std::env::var("IRSYM_SLOW").unwrap().parse::<f64>().unwrap_or(0.3) {
                eprintln!("SLOW {:.2}s r={} extra {}", t0.elapsed().as_secs_f64(), r, x.show(extra, 12));
                for &e in pc {
                    eprintln!("     pc {}", x.show(e, 12));
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, if fresh.is_null() { self.s } else { fresh });
                    Z3_model_inc_ref(self.c, m);
                    let mut seen = Default::default();
                    let mut vs = vec![];
                    for &e in pc {
                        x.vars(e, &mut seen, &mut vs);
                    }
                    x.vars(extra, &mut seen, &mut vs);
                    let mut model = base.to_vec();
                    for v in vs {
                        let e = x.var_expr[v as usize];
                        if model.len() <= v as usize {
                            model.resize(v as usize + 1, 0);
                        }
                        let ast = self.bv[&e];
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, ast, true, &mut o) {
                            let mut k: u64 = 0;
                            if x.w(e) <= 64 && Z3_get_numeral_uint64(self.c, o, &mut k) {
                                model[v as usize] = k as u128;
                            } else {
                                let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o));
                                model[v as usize] = s.to_str().unwrap().parse().unwrap_or(0);
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(model)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            if !fresh.is_null() {
                Z3_solver_dec_ref(self.c, fresh);
            }
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        match &r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }
}
