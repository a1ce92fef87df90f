//! Real/integer relaxation of queries over floating-point terms.
//!
//! A floating-point term that is provably finite under the path condition is replaced by
//! a real variable: conversions and remainders are exact, every rounded operation is the
//! exact result plus an error bounded by the rounding error of the format.  Bit-vector
//! terms become (unsigned) integers where that is linear and fresh variables otherwise.
//! Every float solution is a solution of the relaxation, so UNSAT carries over; SAT does
//! not, and the caller then asks the exact float theory.
use crate::expr::*;
use crate::solver::*;
use std::ffi::CString;

#[derive(Clone, Copy, Debug)]
pub struct Iv {
    lo: f64,
    hi: f64,
}
fn down(v: f64) -> f64 {
    let r = v - v.abs() * 4e-16;
    r - f64::MIN_POSITIVE
}
fn up(v: f64) -> f64 {
    -down(-v)
}
#[derive(Clone, Copy)]
struct R {
    a: P,
    iv: Iv,
    int: bool, // always an integer
    ip: Option<P>,          // the same as an integer term
    aff: Option<Aff>,
}
/// the value is k*i + c, give or take d (i an integer term, |i| <= m)
#[derive(Clone, Copy)]
struct Aff {
    i: P,
    m: f64,
    k: f64,
    c: f64,
    d: f64,
}
impl Aff {
    /// scaled by v; `r`: bound on the rounding error of the operation
    fn scale(self, v: f64, r: f64) -> Option<Aff> {
        let k = self.k * v;
        let c = self.c * v;
        let d = (self.d * v.abs() + r + (k.abs() * self.m + c.abs()) * 2.3e-16) * 1.000001;
        if d.is_finite() && k.is_finite() && c.is_finite() {
            Some(Aff { k, c, d, ..self })
        } else {
            None
        }
    }
}
fn rounding(w: u16, iv: Iv) -> f64 {
    let m = iv.lo.abs().max(iv.hi.abs());
    if w == 64 {
        m * 1.2e-16 + 1e-300
    } else {
        m * 6e-8 + 1e-44
    }
}

pub enum Rx {
    Unsat,
    /// values for some terms: a hint, to be checked exactly
    Model(Vec<(E, u128)>),
    No,
}
/// set the input bits that `e` consists of
pub fn assign(x: &Ctx, m: &mut Vec<u128>, e: E, v: u128) {
    let n = x.nd(e);
    match n.op {
        Op::Var => {
            let i = n.k as usize;
            if m.len() <= i {
                m.resize(i + 1, 0);
            }
            m[i] = v & mask(n.w);
        }
        Op::Concat => {
            let lw = x.w(n.b);
            assign(x, m, n.b, v & mask(lw));
            assign(x, m, n.a, v >> lw);
        }
        Op::Extract if x.nd(n.a).op == Op::Var => {
            let i = x.nd(n.a).k as usize;
            if m.len() <= i {
                m.resize(i + 1, 0);
            }
            let f = mask(n.w) << n.k;
            m[i] = (m[i] & !f) | ((v << n.k) & f);
        }
        _ => {}
    }
}

pub struct Relax {
    leaves: Vec<(E, P)>,
    truncs: FxMap<E, R>,
    c: P,
    reals: FxMap<E, Option<R>>,
    ints: FxMap<E, P>,
    bools: FxMap<E, P>,
    strict: FxMap<E, Iv>, // bounds that also exclude NaN
    weak: FxMap<E, Iv>,
    asserts: Vec<P>,
    n: u32,
    rs: P,
    is: P,
    bs: P,
}

/// decimal string of m * 2^e, e >= 0
fn big(m: u64, e: u32) -> String {
    let mut d: Vec<u64> = vec![]; // base 1e9, little endian
    let mut x = m;
    loop {
        d.push(x % 1_000_000_000);
        x /= 1_000_000_000;
        if x == 0 {
            break;
        }
    }
    for _ in 0..e {
        let mut c = 0;
        for k in d.iter_mut() {
            let v = *k * 2 + c;
            *k = v % 1_000_000_000;
            c = v / 1_000_000_000;
        }
        if c > 0 {
            d.push(c)
        }
    }
    let mut s = d.pop().unwrap().to_string();
    for k in d.iter().rev() {
        s += &format!("{:09}", k);
    }
    s
}
/// exact rational text of a finite double
fn rational(v: f64) -> String {
    let b = v.to_bits();
    let ex = ((b >> 52) & 0x7ff) as i32;
    let fr = b & ((1 << 52) - 1);
    let (mut m, mut e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
    if m == 0 {
        return "0".into();
    }
    while m & 1 == 0 {
        m >>= 1;
        e += 1;
    }
    let s = if e >= 0 { big(m, e as u32) } else { format!("{}/{}", m, big(1, (-e) as u32)) };
    if v < 0.0 {
        format!("-{s}")
    } else {
        s
    }
}

impl Relax {
    pub fn new(c: P) -> Self {
        unsafe {
            Relax {
                leaves: vec![],
                truncs: Default::default(),
                c,
                reals: Default::default(),
                ints: Default::default(),
                bools: Default::default(),
                strict: Default::default(),
                weak: Default::default(),
                asserts: vec![],
                n: 0,
                rs: Z3_mk_real_sort(c),
                is: Z3_mk_int_sort(c),
                bs: Z3_mk_bool_sort(c),
            }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn fresh(&mut self, s: P) -> P {
        self.n += 1;
        let n = CString::new(format!("rx{}", self.n)).unwrap();
        unsafe {
            let v = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s);
            self.keep(v)
        }
    }
    fn numr(&self, v: f64) -> P {
        let s = CString::new(rational(v)).unwrap();
        unsafe { self.keep(Z3_mk_numeral(self.c, s.as_ptr(), self.rs)) }
    }
    fn numi(&self, v: i128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { self.keep(Z3_mk_numeral(self.c, s.as_ptr(), self.is)) }
    }
    fn pow2(&self, k: u16) -> P {
        let s = CString::new(big(1, k as u32)).unwrap();
        unsafe { self.keep(Z3_mk_numeral(self.c, s.as_ptr(), self.is)) }
    }
    fn add(&self, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_add(self.c, 2, [a, b].as_ptr())) }
    }
    fn sub(&self, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_sub(self.c, 2, [a, b].as_ptr())) }
    }
    fn mul(&self, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_mul(self.c, 2, [a, b].as_ptr())) }
    }
    fn le(&self, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_le(self.c, a, b)) }
    }
    fn lt(&self, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_lt(self.c, a, b)) }
    }
    fn eq(&self, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_eq(self.c, a, b)) }
    }
    fn ite(&self, c: P, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_ite(self.c, c, a, b)) }
    }
    fn and(&self, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_and(self.c, 2, [a, b].as_ptr())) }
    }
    fn or(&self, a: P, b: P) -> P {
        unsafe { self.keep(Z3_mk_or(self.c, 2, [a, b].as_ptr())) }
    }
    fn not(&self, a: P) -> P {
        unsafe { self.keep(Z3_mk_not(self.c, a)) }
    }
    fn i2r(&self, a: P) -> P {
        unsafe { self.keep(Z3_mk_int2real(self.c, a)) }
    }
    fn req(&mut self, a: P) {
        self.asserts.push(a)
    }
    fn fval(x: &Ctx, e: E) -> Option<f64> {
        let k = x.as_c(e)?;
        let v = match x.w(e) {
            64 => f64::from_bits(k as u64),
            32 => f32::from_bits(k as u32) as f64,
            _ => return None,
        };
        if v.is_finite() {
            Some(v)
        } else {
            None
        }
    }
    fn isfp(op: Op) -> bool {
        matches!(
            op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FExt | Op::FTrunc | Op::SIToF | Op::UIToF | Op::FRound | Op::FSqrt
        )
    }
    /// collect interval facts from an atom that holds (pos) or does not
    pub fn fact(&mut self, x: &Ctx, e: E, pos: bool) {
        let n = x.nd(e);
        match n.op {
            Op::And if n.w == 1 && pos => {
                self.fact(x, n.a, true);
                self.fact(x, n.b, true);
            }
            Op::Or if n.w == 1 && !pos => {
                self.fact(x, n.a, false);
                self.fact(x, n.b, false);
            }
            Op::Xor if n.w == 1 && x.as_c(n.b) == Some(1) => self.fact(x, n.a, !pos),
            Op::FLt | Op::FLe | Op::FEq => {
                let (t, v, left) = match (Self::fval(x, n.a), Self::fval(x, n.b)) {
                    (None, Some(v)) => (n.a, v, true),
                    (Some(v), None) => (n.b, v, false),
                    _ => return,
                };
                let inf = f64::INFINITY;
                let iv = match (n.op, pos, left) {
                    (Op::FEq, true, _) => Iv { lo: v, hi: v },
                    (Op::FEq, false, _) => return,
                    (_, true, true) | (_, false, false) => Iv { lo: -inf, hi: v },
                    _ => Iv { lo: v, hi: inf },
                };
                let mut t = t;
                if x.nd(t).op == Op::FExt {
                    // the same value
                    let m = if pos { &mut self.strict } else { &mut self.weak };
                    let o = m.entry(t).or_insert(Iv { lo: -inf, hi: inf });
                    o.lo = o.lo.max(iv.lo);
                    o.hi = o.hi.min(iv.hi);
                    t = x.nd(t).a;
                }
                // a bound on |t| bounds t
                let tn = x.nd(t);
                if tn.op == Op::Concat && x.w(tn.a) == 1 && x.as_c(tn.a) == Some(0) && iv.hi.is_finite() {
                    if let Some(u) = x.with_top_bit(tn.b) {
                        let m = if pos { &mut self.strict } else { &mut self.weak };
                        let o = m.entry(u).or_insert(Iv { lo: -inf, hi: inf });
                        o.lo = o.lo.max(-iv.hi);
                        o.hi = o.hi.min(iv.hi);
                    }
                }
                let m = if pos { &mut self.strict } else { &mut self.weak };
                let o = m.entry(t).or_insert(Iv { lo: -inf, hi: inf });
                o.lo = o.lo.max(iv.lo);
                o.hi = o.hi.min(iv.hi);
            }
            _ => {}
        }
    }
    fn clip(&self, e: E, iv: Iv) -> Iv {
        let mut iv = iv;
        for m in [&self.strict, &self.weak] {
            if let Some(o) = m.get(&e) {
                iv.lo = iv.lo.max(o.lo);
                iv.hi = iv.hi.min(o.hi);
            }
        }
        iv
    }
    fn big_enough(w: u16, iv: Iv) -> bool {
        let lim = if w == 64 { 1e300 } else { 1e37 };
        iv.lo.is_finite() && iv.hi.is_finite() && iv.lo >= -lim && iv.hi <= lim
    }
    /// exact value plus rounding error
    fn rounded(&mut self, w: u16, exact: P, iv: Iv, mul: bool) -> Option<R> {
        if !Self::big_enough(w, iv) {
            return None;
        }
        let r = self.fresh(self.rs);
        let (rel, abs) = if w == 64 { (2f64.powi(-53), 2f64.powi(-1074)) } else { (2f64.powi(-24), 2f64.powi(-149)) };
        let zero = self.numr(0.0);
        let relp = self.numr(rel);
        let neg = self.sub(zero, exact);
        let pos = self.le(zero, exact);
        let mag = self.ite(pos, exact, neg);
        let mut err = self.mul(relp, mag);
        if mul {
            let ab = self.numr(abs);
            err = self.add(err, ab);
        }
        let d = self.sub(r, exact);
        let nd = self.sub(zero, err);
        let a = self.le(nd, d);
        let b = self.le(d, err);
        self.req(a);
        self.req(b);
        // rounding never changes the sign
        let npos = self.le(exact, zero);
        let rp = self.le(zero, r);
        let rn = self.le(r, zero);
        let f1 = self.not(pos);
        let f1 = self.or(f1, rp);
        self.req(f1);
        let f2 = self.not(npos);
        let f2 = self.or(f2, rn);
        self.req(f2);
        let f = if w == 64 { 2e-16 } else { 1e-7 };
        let iv = Iv { lo: iv.lo - iv.lo.abs() * f - 1e-40, hi: iv.hi + iv.hi.abs() * f + 1e-40 };
        Some(R { a: r, iv, int: false, ip: None, aff: None })
    }
    /// an integer variable for a rounding of `t` (off by at most one from it)
    fn int_near(&mut self, t: &R) -> P {
        if let Some(f) = t.aff {
            let c = f.c.round();
            let off = f.m * (f.k - 1.0).abs() + (f.c - c).abs() + f.d;
            if off < 0.4 && c.abs() < 1e15 {
                let k = self.fresh(self.is);
                let (l, h) = (self.numi(-1), self.numi(1));
                let a = self.le(l, k);
                let b = self.le(k, h);
                self.req(a);
                self.req(b);
                let cc = self.numi(c as i128);
                let n = self.add(f.i, cc);
                // how far the value is from that integer
                let nr = self.i2r(n);
                let d = self.sub(t.a, nr);
                let (lo, hi) = (self.numr(-off * 1.0001 - 1e-30), self.numr(off * 1.0001 + 1e-30));
                let a = self.le(lo, d);
                let b = self.le(d, hi);
                self.req(a);
                self.req(b);
                return self.add(n, k);
            }
        }
        self.fresh(self.is)
    }
    fn trunc_of(&mut self, e: E, t: R) -> R {
        if let Some(r) = self.truncs.get(&e) {
            return *r;
        }
        let r = self.trunc(t);
        self.truncs.insert(e, r);
        r
    }
    fn trunc(&mut self, t: R) -> R {
        if t.int {
            return t;
        }
        let n = self.int_near(&t);
        let nr = self.i2r(n);
        let one = self.numr(1.0);
        let zero = self.numr(0.0);
        let pos = self.le(zero, t.a);
        let d = self.sub(t.a, nr);
        let nd = self.sub(nr, t.a);
        let p1 = self.le(zero, d);
        let p2 = self.lt(d, one);
        let p3 = self.le(zero, nr);
        let q1 = self.le(zero, nd);
        let q2 = self.lt(nd, one);
        let q3 = self.le(nr, zero);
        let p = self.and(p1, p2);
        let p = self.and(p, p3);
        let q = self.and(q1, q2);
        let q = self.and(q, q3);
        let f = self.ite(pos, p, q);
        self.req(f);
        R { a: nr, iv: Iv { lo: t.iv.lo.trunc(), hi: t.iv.hi.trunc() }, int: true, ip: Some(n), aff: None }
    }
    fn real(&mut self, x: &Ctx, e: E) -> Option<R> {
        if let Some(r) = self.reals.get(&e) {
            return *r;
        }
        let r = self.real_(x, e).map(|mut r| {
            r.iv = self.clip(e, r.iv);
            r
        });
        let r = match r {
            Some(r) if r.iv.lo > r.iv.hi => Some(r), // path infeasible; keep sound anyway
            r => r,
        };
        self.reals.insert(e, r);
        r
    }
    fn real_(&mut self, x: &Ctx, e: E) -> Option<R> {
        let n = x.nd(e);
        let w = n.w;
        if w != 64 && w != 32 {
            return None;
        }
        match n.op {
            Op::Const => {
                let v = Self::fval(x, e)?;
                let int = v.fract() == 0.0;
                let ip = if int && v.abs() < 1e30 { Some(self.numi(v as i128)) } else { None };
                Some(R { a: self.numr(v), iv: Iv { lo: v, hi: v }, int, ip, aff: None })
            }
            Op::SIToF | Op::UIToF => {
                let signed = n.op == Op::SIToF;
                let i = if signed { self.sint(x, n.a) } else { self.uint(x, n.a) };
                // significant bits: extensions add none
                let an = x.nd(n.a);
                let iw = match an.op {
                    Op::SExt => x.w(an.a) as i32,
                    Op::Concat if x.as_c(an.a) == Some(0) => x.w(an.b) as i32 + 1,
                    _ => an.w as i32,
                };
                let iv = if signed {
                    Iv { lo: -(2f64.powi(iw - 1)), hi: 2f64.powi(iw - 1) }
                } else {
                    Iv { lo: 0.0, hi: 2f64.powi(self.zwidth(x, n.a) as i32) }
                };
                let a = self.i2r(i);
                let prec = if w == 64 { 53 } else { 24 };
                let bits = if signed { iw } else { self.zwidth(x, n.a) as i32 };
                let m = iv.lo.abs().max(iv.hi.abs());
                if bits <= prec {
                    Some(R { a, iv, int: true, ip: Some(i), aff: Some(Aff { i, m, k: 1.0, c: 0.0, d: 0.0 }) })
                } else {
                    let mut r = self.rounded(w, a, iv, false)?;
                    r.aff = Some(Aff { i, m, k: 1.0, c: 0.0, d: rounding(w, iv) });
                    Some(r)
                }
            }
            Op::FMul | Op::FDiv => {
                let (ca, cb) = (Self::fval(x, n.a), Self::fval(x, n.b));
                let (t, k, v) = match (n.op, ca, cb) {
                    (Op::FMul, Some(v), _) => (n.b, n.a, v),
                    (_, None, Some(v)) => (n.a, n.b, v),
                    _ => return None,
                };
                if n.op == Op::FDiv && v == 0.0 {
                    return None;
                }
                let t = self.real(x, t)?;
                let k = self.real(x, k)?;
                if n.op == Op::FMul && v == 1.0 {
                    return Some(t);
                }
                let (ex, f) = if n.op == Op::FMul {
                    (self.mul(k.a, t.a), v)
                } else {
                    let q = unsafe { self.keep(Z3_mk_div(self.c, t.a, k.a)) };
                    (q, 1.0 / v)
                };
                let (p, q) = (t.iv.lo * f, t.iv.hi * f);
                let iv = Iv { lo: down(p.min(q)), hi: up(p.max(q)) };
                let mut r = self.rounded(w, ex, iv, true)?;
                r.aff = t.aff.and_then(|a| a.scale(f, rounding(w, iv)));
                Some(r)
            }
            Op::FAdd | Op::FSub => {
                // t - t % 1.0 is the truncation, exactly
                if n.op == Op::FSub {
                    let mut m = x.nd(n.b);
                    // written as: 0 for 0, the remainder otherwise
                    if m.op == Op::Ite && Self::fval(x, m.b) == Some(0.0) {
                        let c = x.nd(m.a);
                        let z = |e| Self::fval(x, e) == Some(0.0);
                        if c.op == Op::FEq && ((c.a == n.a && z(c.b)) || (c.b == n.a && z(c.a))) {
                            m = x.nd(m.c);
                        }
                    }
                    if m.op == Op::FRem && m.a == n.a && Self::fval(x, m.b) == Some(1.0) {
                        let t = self.real(x, n.a)?;
                        return Some(self.trunc_of(n.a, t));
                    }
                }
                let a = self.real(x, n.a)?;
                let b = self.real(x, n.b)?;
                let (ex, lo, hi) = if n.op == Op::FAdd {
                    (self.add(a.a, b.a), a.iv.lo + b.iv.lo, a.iv.hi + b.iv.hi)
                } else {
                    (self.sub(a.a, b.a), a.iv.lo - b.iv.hi, a.iv.hi - b.iv.lo)
                };
                let iv = Iv { lo: down(lo), hi: up(hi) };
                let lim = if w == 64 { 2f64.powi(53) } else { 2f64.powi(24) };
                if a.int && b.int && lo >= -lim && hi <= lim {
                    let ip = match (a.ip, b.ip) {
                        (Some(p), Some(q)) => Some(if n.op == Op::FAdd { self.add(p, q) } else { self.sub(p, q) }),
                        _ => None,
                    };
                    return Some(R { a: ex, iv: Iv { lo, hi }, int: true, ip, aff: None });
                }
                let mut r = self.rounded(w, ex, iv, false)?;
                // a constant added
                if let (Some(f), Some(v)) = (a.aff, Self::fval(x, n.b)) {
                    let c = if n.op == Op::FAdd { f.c + v } else { f.c - v };
                    r.aff = Some(Aff { c, d: f.d + rounding(w, iv) + c.abs() * 2.3e-16, ..f });
                } else if let (Some(f), Some(v), Op::FAdd) = (b.aff, Self::fval(x, n.a), n.op) {
                    let c = f.c + v;
                    r.aff = Some(Aff { c, d: f.d + rounding(w, iv) + c.abs() * 2.3e-16, ..f });
                }
                Some(r)
            }
            Op::FRem => {
                if Self::fval(x, n.b) != Some(1.0) {
                    return None;
                }
                let t = self.real(x, n.a)?;
                let k = self.trunc_of(n.a, t);
                let a = self.sub(t.a, k.a);
                Some(R { a, iv: Iv { lo: -1.0, hi: 1.0 }, int: false, ip: None, aff: None })
            }
            Op::FRound => {
                let t = self.real(x, n.a)?;
                if t.int {
                    return Some(t);
                }
                let lo = t.iv.lo.floor();
                let hi = t.iv.hi.ceil();
                match n.k {
                    3 => Some(self.trunc_of(n.a, t)),
                    k => {
                        let i = self.int_near(&t);
                        let ir = self.i2r(i);
                        let d = self.sub(t.a, ir);
                        let (a, b) = match k {
                            1 => (0.0, 1.0),
                            2 => (-1.0, 0.0),
                            _ => (-0.5, 0.5),
                        };
                        let (an, bn) = (self.numr(a), self.numr(b));
                        let f = if k == 2 { self.lt(an, d) } else { self.le(an, d) };
                        self.req(f);
                        let f = if k == 1 { self.lt(d, bn) } else { self.le(d, bn) };
                        self.req(f);
                        if k == 0 {
                            // ties away from zero
                            let z = self.numr(0.0);
                            let pos = self.lt(z, t.a);
                            let p = self.lt(d, bn);
                            let q = self.lt(an, d);
                            let f = self.ite(pos, p, q);
                            self.req(f);
                        }
                        Some(R { a: ir, iv: Iv { lo, hi }, int: true, ip: Some(i), aff: None })
                    }
                }
            }
            Op::FExt => self.real(x, n.a),
            Op::FTrunc => {
                let t = self.real(x, n.a)?;
                let mut r = self.rounded(w, t.a, t.iv, true)?;
                r.aff = t.aff.map(|a| Aff { d: a.d + rounding(w, t.iv), ..a });
                Some(r)
            }
            Op::Ite => {
                let c = self.boolean(x, n.a);
                let a = self.real(x, n.b)?;
                let b = self.real(x, n.c)?;
                let ip = match (a.ip, b.ip) {
                    (Some(p), Some(q)) => Some(self.ite(c, p, q)),
                    _ => None,
                };
                Some(R { a: self.ite(c, a.a, b.a), iv: Iv { lo: a.iv.lo.min(b.iv.lo), hi: a.iv.hi.max(b.iv.hi) }, int: a.int && b.int, ip, aff: None })
            }
            Op::FSqrt => None,
            // -t and |t| on the bits
            Op::Concat if x.w(n.a) == 1 => {
                let t = match x.with_top_bit(n.b) {
                    Some(t) => t,
                    None => return self.leaf(x, e),
                };
                if t == e {
                    return self.leaf(x, e);
                }
                let s = x.nd(n.a);
                let r = match self.real(x, t) {
                    Some(r) => r,
                    None => return self.leaf(x, e),
                };
                let z = self.numr(0.0);
                let neg = self.sub(z, r.a);
                if x.as_c(n.a) == Some(0) {
                    let p = self.le(z, r.a);
                    let hi = r.iv.hi.abs().max(r.iv.lo.abs());
                    return Some(R { a: self.ite(p, r.a, neg), iv: Iv { lo: 0.0, hi }, int: r.int, ip: None, aff: None });
                }
                if s.op == Op::Xor && x.as_c(s.b) == Some(1) {
                    let y = x.nd(s.a);
                    let (mut top, mut bit) = (t, w - 1);
                    while x.nd(top).op == Op::Concat {
                        let lw = x.w(x.nd(top).b);
                        if bit < lw {
                            top = x.nd(top).b;
                        } else {
                            top = x.nd(top).a;
                            bit -= lw;
                        }
                    }
                    let tn = x.nd(top);
                    let (base, bit) = if tn.op == Op::Extract { (tn.a, bit + tn.k as u16) } else { (top, bit) };
                    if y.op == Op::Extract && y.a == base && y.k == bit as u128 {
                        return Some(R { a: neg, iv: Iv { lo: -r.iv.hi, hi: -r.iv.lo }, int: r.int, ip: None, aff: None });
                    }
                }
                self.leaf(x, e)
            }
            _ => self.leaf(x, e),
        }
    }
    /// arbitrary bits, finite because the path condition bounds it on both sides
    fn leaf(&mut self, _x: &Ctx, e: E) -> Option<R> {
        let o = *self.strict.get(&e)?;
        if !(o.lo.is_finite() && o.hi.is_finite()) {
            return None;
        }
        let r = self.fresh(self.rs);
        self.leaves.push((e, r));
        let (l, h) = (self.numr(o.lo), self.numr(o.hi));
        let a = self.le(l, r);
        let b = self.le(r, h);
        self.req(a);
        self.req(b);
        Some(R { a: r, iv: o, int: false, ip: None, aff: None })
    }
    fn zwidth(&self, x: &Ctx, e: E) -> u16 {
        let n = x.nd(e);
        if n.op == Op::Concat && x.as_c(n.a) == Some(0) {
            return x.w(n.b);
        }
        n.w
    }
    fn sint(&mut self, x: &Ctx, e: E) -> P {
        let n = x.nd(e);
        match n.op {
            Op::SExt => return self.sint(x, n.a),
            Op::Concat if x.as_c(n.a) == Some(0) => return self.uint(x, n.b),
            _ => {}
        }
        let u = self.uint(x, e);
        let h = self.pow2(n.w - 1);
        let f = self.pow2(n.w);
        let c = self.le(h, u);
        let s = self.sub(u, f);
        self.ite(c, s, u)
    }
    fn opaque(&mut self, w: u16) -> P {
        let v = self.fresh(self.is);
        let z = self.numi(0);
        let f = self.pow2(w);
        let a = self.le(z, v);
        let b = self.lt(v, f);
        self.req(a);
        self.req(b);
        v
    }
    /// value mod 2^w for a value known to lie in [-2^w, 2^(w+1))
    fn wrap(&mut self, v: P, w: u16) -> P {
        let z = self.numi(0);
        let f = self.pow2(w);
        let neg = self.lt(v, z);
        let big = self.le(f, v);
        let a = self.add(v, f);
        let s = self.sub(v, f);
        let r = self.ite(big, s, v);
        self.ite(neg, a, r)
    }
    fn uint(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.ints.get(&e) {
            return p;
        }
        let p = self.uint_(x, e);
        self.ints.insert(e, p);
        p
    }
    fn uint_(&mut self, x: &Ctx, e: E) -> P {
        let n = x.nd(e);
        let w = n.w;
        match n.op {
            Op::Const => {
                let s = CString::new(n.k.to_string()).unwrap();
                unsafe { self.keep(Z3_mk_numeral(self.c, s.as_ptr(), self.is)) }
            }
            Op::Concat if x.as_c(n.a) == Some(0) => self.uint(x, n.b),
            Op::Concat => {
                let a = self.uint(x, n.a);
                let b = self.uint(x, n.b);
                let f = self.pow2(x.w(n.b));
                let a = self.mul(f, a);
                self.add(a, b)
            }
            Op::Extract if !Self::isfp(x.nd(n.a).op) && x.w(n.a) <= 64 => {
                // a = hi * 2^(k+w) + this * 2^k + lo
                let aw = x.w(n.a);
                let k = n.k as u16;
                let a = self.uint(x, n.a);
                let me = self.opaque(w);
                let f = self.pow2(k);
                let mut t = self.mul(f, me);
                if k > 0 {
                    let lo = self.opaque(k);
                    t = self.add(t, lo);
                }
                if k + w < aw {
                    let hi = self.opaque(aw - k - w);
                    let f = self.pow2(k + w);
                    let h = self.mul(f, hi);
                    t = self.add(t, h);
                }
                let q = self.eq(a, t);
                self.req(q);
                me
            }
            Op::SExt => {
                let s = self.sint(x, n.a);
                let f = self.pow2(w);
                let z = self.numi(0);
                let neg = self.lt(s, z);
                let a = self.add(s, f);
                self.ite(neg, a, s)
            }
            Op::Add | Op::Sub => {
                let a = self.uint(x, n.a);
                let b = self.uint(x, n.b);
                let v = if n.op == Op::Add { self.add(a, b) } else { self.sub(a, b) };
                self.wrap(v, w)
            }
            Op::Ite => {
                let c = self.boolean(x, n.a);
                let a = self.uint(x, n.b);
                let b = self.uint(x, n.c);
                self.ite(c, a, b)
            }
            Op::FToSI | Op::FToUI => {
                let t = match self.real(x, n.a) {
                    Some(t) => t,
                    None => return self.opaque(w),
                };
                let k = self.trunc_of(n.a, t);
                // an integer variable for the truncated value
                let i = match k.ip {
                    Some(i) => i,
                    None => {
                        let i = self.fresh(self.is);
                        let ir = self.i2r(i);
                        let q = self.eq(ir, k.a);
                        self.req(q);
                        i
                    }
                };
                let (lo, hi) = if n.op == Op::FToSI {
                    let h = self.pow2(w - 1);
                    let z = self.numi(0);
                    let l = self.sub(z, h);
                    (l, h)
                } else {
                    (self.numi(0), self.pow2(w))
                };
                let one = self.numi(1);
                let top = self.sub(hi, one);
                let under = self.lt(i, lo);
                let over = self.lt(top, i);
                let v = self.ite(over, top, i);
                let v = self.ite(under, lo, v);
                if n.op == Op::FToSI {
                    self.wrap(v, w)
                } else {
                    v
                }
            }
            _ => self.opaque(w),
        }
    }
    fn newbool(&mut self) -> P {
        self.fresh(self.bs)
    }
    fn sign(&mut self, x: &Ctx, e: E) -> Option<P> {
        let r = self.real(x, e)?;
        let s = self.newbool();
        let z = self.numr(0.0);
        let np = self.le(r.a, z);
        let pp = self.le(z, r.a);
        let ns = self.not(s);
        let f1 = self.or(ns, np);
        let f2 = self.or(s, pp);
        self.req(f1);
        self.req(f2);
        Some(s)
    }
    pub fn boolean(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bools.get(&e) {
            return p;
        }
        let p = self.boolean_(x, e);
        self.bools.insert(e, p);
        p
    }
    fn boolean_(&mut self, x: &Ctx, e: E) -> P {
        let n = x.nd(e);
        let c = self.c;
        match n.op {
            Op::Const => unsafe { self.keep(if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }) },
            Op::And | Op::Or => {
                let a = self.boolean(x, n.a);
                let b = self.boolean(x, n.b);
                if n.op == Op::And {
                    self.and(a, b)
                } else {
                    self.or(a, b)
                }
            }
            Op::Xor => {
                let a = self.boolean(x, n.a);
                if x.as_c(n.b) == Some(1) {
                    return self.not(a);
                }
                let b = self.boolean(x, n.b);
                unsafe { self.keep(Z3_mk_xor(c, a, b)) }
            }
            Op::Ite => {
                let k = self.boolean(x, n.a);
                let a = self.boolean(x, n.b);
                let b = self.boolean(x, n.c);
                self.ite(k, a, b)
            }
            Op::FLt | Op::FLe | Op::FEq => match (self.real(x, n.a), self.real(x, n.b)) {
                (Some(a), Some(b)) => match n.op {
                    Op::FLt => self.lt(a.a, b.a),
                    Op::FLe => self.le(a.a, b.a),
                    _ => self.eq(a.a, b.a),
                },
                _ => self.newbool(),
            },
            Op::Extract if n.w == 1 && n.k == x.w(n.a) as u128 - 1 && matches!(x.w(n.a), 32 | 64) => match self.sign(x, n.a) {
                Some(s) => s,
                None => self.newbool(),
            },
            Op::Extract if n.w == 1 && !Self::isfp(x.nd(n.a).op) => {
                let v = self.uint(x, e);
                let one = self.numi(1);
                self.eq(v, one)
            }
            Op::Eq if x.w(n.a) == 1 => {
                let a = self.boolean(x, n.a);
                let b = self.boolean(x, n.b);
                self.eq(a, b)
            }
            Op::Eq => {
                if x.has_fp[e as usize] {
                    let fpbits = Self::isfp(x.nd(n.a).op) || Self::isfp(x.nd(n.b).op);
                    if fpbits {
                        // same bits: same value; different bits say nothing
                        let b = self.newbool();
                        if let (Some(p), Some(q)) = (self.real(x, n.a), self.real(x, n.b)) {
                            let q = self.eq(p.a, q.a);
                            let nb = self.not(b);
                            let f = self.or(nb, q);
                            self.req(f);
                        }
                        return b;
                    }
                }
                let a = self.uint(x, n.a);
                let b = self.uint(x, n.b);
                self.eq(a, b)
            }
            Op::Ult => {
                let a = self.uint(x, n.a);
                let b = self.uint(x, n.b);
                self.lt(a, b)
            }
            Op::Slt => {
                if Self::isfp(x.nd(n.a).op) && x.as_c(n.b) == Some(0) {
                    if let Some(s) = self.sign(x, n.a) {
                        return s;
                    }
                    return self.newbool();
                }
                let a = self.sint(x, n.a);
                let b = self.sint(x, n.b);
                self.lt(a, b)
            }
            _ => self.newbool(),
        }
    }
    /// true: the conjunction has no solution
    pub fn solve(&mut self, x: &Ctx, cs: &[E], timeout_ms: u32) -> Rx {
        for &e in cs {
            self.fact(x, e, true);
        }
        unsafe {
            let s = Z3_mk_solver(self.c);
            Solver::limits(self.c, s, timeout_ms);
            for &e in cs {
                let b = self.boolean(x, e);
                Z3_solver_assert(self.c, s, b);
            }
            for &a in &self.asserts {
                Z3_solver_assert(self.c, s, a);
            }
            let r = Z3_solver_check(self.c, s);
            if std::env::var("IRSYM_SLOW").is_ok() && r != -1 {
                eprintln!("RELAX r={} leaves {:?} nones {:?}", r, self.strict.len(), self.reals.iter().filter(|(_, v)| v.is_none()).map(|(e, _)| x.show(*e, 3)).collect::<Vec<_>>());
            }
            let out = match r {
                -1 => Rx::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vals = vec![];
                    let num = |p: P| -> Option<String> {
                        let mut o: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, m, p, true, &mut o) {
                            return None;
                        }
                        Some(std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().ok()?.to_string())
                    };
                    let mut iv: Vec<_> = self.ints.iter().map(|(e, p)| (*e, *p)).collect();
                    iv.sort();
                    for (e, p) in iv {
                        if matches!(x.nd(e).op, Op::Var | Op::Extract | Op::Concat) {
                            if let Some(v) = num(p).and_then(|s| s.parse::<u128>().ok()) {
                                vals.push((e, v));
                            }
                        }
                    }
                    for &(e, p) in &self.leaves {
                        if let Some(s) = num(p) {
                            let mut it = s.split('/');
                            let a: f64 = it.next().unwrap().parse().unwrap_or(0.0);
                            let b: f64 = it.next().map(|t| t.parse().unwrap_or(1.0)).unwrap_or(1.0);
                            let v = a / b;
                            vals.push((e, if x.w(e) == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Rx::Model(vals)
                }
                _ => Rx::No,
            };
            Z3_solver_dec_ref(self.c, s);
            out
        }
    }
}
