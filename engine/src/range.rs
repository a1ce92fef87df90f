//! Interval reasoning over bit-vector terms: bounds learned from the path condition are
//! propagated through arithmetic.  Used to simplify (divisions whose quotient is fixed,
//! conditions whose truth follows), never to decide that something fails.
use crate::expr::*;


/// learned interval of a term; the flag says whether it is read as a signed number
pub type Bounds = FxMap<(E, bool), (i128, i128)>;
pub type Memo = FxMap<(E, bool), (i128, i128)>;


pub fn full(w: u16, signed: bool) -> (i128, i128) {
    if signed {
        (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
    } else {
        (0, (1i128 << w) - 1)
    }
}
fn meet(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let r = (a.0.max(b.0), a.1.min(b.1));
    if r.0 > r.1 {
        a
    } else {
        r
    }
}
fn put(m: &mut Bounds, x: &Ctx, e: E, signed: bool, r: (i128, i128)) {
    let w = x.w(e);
    if w > 100 {
        return;
    }
    let f = full(w, signed);
    let old = m.get(&(e, signed)).copied().unwrap_or(f);
    let r = meet(old, meet(f, r));
    m.insert((e, signed), r);
    let n = x.nd(e);
    match n.op {
        // value preserving extensions
        Op::Concat if x.as_c(n.a) == Some(0) => put(m, x, n.b, false, r),
        Op::SExt if signed => put(m, x, n.a, true, r),
        // x + k
        Op::Add => {
            if let Some(k) = x.as_c(n.b) {
                wrapped(m, x, n.a, r.0 - if signed { sx(k, w) } else { k as i128 }, r.1 - r.0);
            }
        }
        _ => {}
    }
}
/// e lies in lo, lo+1, ..., lo+len modulo 2^w
fn wrapped(m: &mut Bounds, x: &Ctx, e: E, lo: i128, len: i128) {
    let w = x.w(e);
    if w > 100 {
        return;
    }
    let md = 1i128 << w;
    let u = lo.rem_euclid(md);
    if u + len < md {
        put(m, x, e, false, (u, u + len));
    }
    let s = if u >= md / 2 { u - md } else { u };
    if s + len < md / 2 {
        put(m, x, e, true, (s, s + len));
    }
}
/// learn from a condition known to hold
pub fn note(m: &mut Bounds, x: &Ctx, c: E, truth: bool) {
    let n = x.nd(c);
    match n.op {
        Op::Xor if n.w == 1 && x.as_c(n.b) == Some(1) => note(m, x, n.a, !truth),
        Op::Ult | Op::Slt => {
            let s = n.op == Op::Slt;
            let w = x.w(n.a);
            if w > 100 {
                return;
            }
            let f = full(w, s);
            let rd = |k: u128| if s { sx(k, w) } else { k as i128 };
            if let Some(k) = x.as_c(n.b) {
                let k = rd(k);
                put(m, x, n.a, s, if truth { (f.0, k - 1) } else { (k, f.1) });
            } else if let Some(k) = x.as_c(n.a) {
                let k = rd(k);
                put(m, x, n.b, s, if truth { (k + 1, f.1) } else { (f.0, k) });
            }
        }
        Op::Eq if !truth && x.w(n.a) > 1 && x.w(n.a) <= 100 => {
            for (k, e) in [(n.a, n.b), (n.b, n.a)] {
                if x.as_c(k) == Some(0) {
                    put(m, x, e, false, (1, full(x.w(e), false).1));
                }
            }
        }
        // a sign bit
        Op::Extract if n.w == 1 => {
            let w = x.w(n.a);
            if n.k as u16 == w - 1 && w <= 100 {
                let f = full(w, true);
                put(m, x, n.a, true, if truth { (f.0, -1) } else { (0, f.1) });
            }
        }
        _ => {}
    }
}

pub fn rng(x: &Ctx, b: &Bounds, memo: &mut Memo, e: E, signed: bool, d: u32) -> (i128, i128) {
    let n = x.nd(e);
    let w = n.w;
    if w > 100 {
        return (i128::MIN / 4, i128::MAX / 4);
    }
    if n.op == Op::Const {
        let k = if signed { sx(n.k, w) } else { n.k as i128 };
        return (k, k);
    }
    if let Some(&r) = memo.get(&(e, signed)) {
        return r;
    }
    let f = full(w, signed);
    if d == 0 {
        return b.get(&(e, signed)).copied().unwrap_or(f);
    }
    // guard against deep recursion through the other view
    memo.insert((e, signed), b.get(&(e, signed)).copied().unwrap_or(f));
    let fit = |r: (i128, i128)| if r.0 >= f.0 && r.1 <= f.1 { r } else { f };
    let r = match n.op {
        Op::Concat => {
            let wl = x.w(n.b);
            let h = rng(x, b, memo, n.a, signed, d - 1);
            let l = rng(x, b, memo, n.b, false, d - 1);
            ((h.0 << wl) + l.0, (h.1 << wl) + l.1)
        }
        Op::SExt => {
            let a = rng(x, b, memo, n.a, true, d - 1);
            if signed || a.0 >= 0 {
                a
            } else {
                f
            }
        }
        Op::Extract => {
            let aw = x.w(n.a);
            if aw > 100 {
                f
            } else if n.k == 0 {
                let a = rng(x, b, memo, n.a, true, d - 1);
                let u = rng(x, b, memo, n.a, false, d - 1);
                meet(fit(a), fit(u))
            } else if n.k as u16 == aw - 1 {
                let a = rng(x, b, memo, n.a, true, d - 1);
                let one = if signed { -1 } else { 1 };
                if a.0 >= 0 {
                    (0, 0)
                } else if a.1 < 0 {
                    (one, one)
                } else {
                    f
                }
            } else if n.k as u16 + w == aw {
                let u = rng(x, b, memo, n.a, signed, d - 1);
                (u.0 >> n.k, u.1 >> n.k)
            } else {
                f
            }
        }
        Op::Ite => {
            let c = rng(x, b, memo, n.a, false, d - 1);
            if c == (1, 1) {
                rng(x, b, memo, n.b, signed, d - 1)
            } else if c == (0, 0) {
                rng(x, b, memo, n.c, signed, d - 1)
            } else {
                let p = rng(x, b, memo, n.b, signed, d - 1);
                let q = rng(x, b, memo, n.c, signed, d - 1);
                (p.0.min(q.0), p.1.max(q.1))
            }
        }
        Op::Add | Op::Sub | Op::Mul if w > 1 => {
            let p = rng(x, b, memo, n.a, signed, d - 1);
            let q = rng(x, b, memo, n.b, signed, d - 1);
            match n.op {
                Op::Add => fit((p.0 + q.0, p.1 + q.1)),
                Op::Sub => fit((p.0 - q.1, p.1 - q.0)),
                _ => {
                    if w > 60 && [p.0, p.1, q.0, q.1].iter().any(|v| v.abs() >= 1 << 62) {
                        f
                    } else {
                        let v = [p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1];
                        fit((*v.iter().min().unwrap(), *v.iter().max().unwrap()))
                    }
                }
            }
        }
        Op::SDiv | Op::SRem | Op::UDiv | Op::URem => {
            let s = matches!(n.op, Op::SDiv | Op::SRem);
            let p = rng(x, b, memo, n.a, s, d - 1);
            let q = rng(x, b, memo, n.b, s, d - 1);
            if q.0 != q.1 || q.0 <= 0 {
                f
            } else {
                let k = q.0;
                let r = match n.op {
                    Op::SDiv | Op::UDiv => (p.0 / k, p.1 / k),
                    _ => {
                        if p.0 / k == p.1 / k && (p.0 >= 0 || p.1 <= 0) {
                            (p.0 % k, p.1 % k)
                        } else {
                            (if p.0 >= 0 { 0 } else { (1 - k).max(p.0) }, if p.1 <= 0 { 0 } else { (k - 1).min(p.1) })
                        }
                    }
                };
                // read the other way only when both readings agree
                if s == signed || r.0 >= 0 {
                    fit(r)
                } else {
                    f
                }
            }
        }
        Op::And if w > 1 && !signed => {
            let p = rng(x, b, memo, n.a, false, d - 1);
            let q = rng(x, b, memo, n.b, false, d - 1);
            (0, p.1.min(q.1))
        }
        Op::LShr if !signed => match x.as_c(n.b) {
            Some(k) if k < w as u128 => {
                let p = rng(x, b, memo, n.a, false, d - 1);
                (p.0 >> k, p.1 >> k)
            }
            _ => f,
        },
        Op::AShr if signed => match x.as_c(n.b) {
            Some(k) if k < w as u128 => {
                let p = rng(x, b, memo, n.a, true, d - 1);
                (p.0 >> k, p.1 >> k)
            }
            _ => f,
        },
        Op::Slt | Op::Ult if !signed && x.w(n.a) <= 100 => {
            let s = n.op == Op::Slt;
            let p = rng(x, b, memo, n.a, s, d - 1);
            let q = rng(x, b, memo, n.b, s, d - 1);
            // x + y < x, with no wrap-around possible
            let na = x.nd(n.a);
            let grows = na.op == Op::Add && !s && (na.a == n.b || na.b == n.b) && {
                let u = rng(x, b, memo, na.a, false, d - 1);
                let v = rng(x, b, memo, na.b, false, d - 1);
                u.1 + v.1 <= full(na.w, false).1
            };
            if p.1 < q.0 {
                (1, 1)
            } else if p.0 >= q.1 || grows {
                (0, 0)
            } else {
                f
            }
        }
        Op::Eq if !signed && x.w(n.a) <= 100 => {
            let apart = |p: (i128, i128), q: (i128, i128)| p.1 < q.0 || q.1 < p.0;
            let p = rng(x, b, memo, n.a, false, d - 1);
            let q = rng(x, b, memo, n.b, false, d - 1);
            let p2 = rng(x, b, memo, n.a, true, d - 1);
            let q2 = rng(x, b, memo, n.b, true, d - 1);
            if apart(p, q) || apart(p2, q2) {
                (0, 0)
            } else if p.0 == p.1 && p == q {
                (1, 1)
            } else {
                f
            }
        }
        Op::And if w == 1 && !signed => {
            let p = rng(x, b, memo, n.a, false, d - 1);
            let q = rng(x, b, memo, n.b, false, d - 1);
            (p.0 & q.0, p.1 & q.1)
        }
        Op::Or if w == 1 && !signed => {
            let p = rng(x, b, memo, n.a, false, d - 1);
            let q = rng(x, b, memo, n.b, false, d - 1);
            (p.0 | q.0, p.1 | q.1)
        }
        Op::Xor if w == 1 && !signed && x.as_c(n.b) == Some(1) => {
            let p = rng(x, b, memo, n.a, false, d - 1);
            (1 - p.1, 1 - p.0)
        }
        _ => f,
    };
    let mut r = meet(f, r);
    if let Some(&l) = b.get(&(e, signed)) {
        r = meet(r, l);
    }
    // the other reading, where both agree
    if w > 1 {
        memo.insert((e, signed), r);
        let o = rng(x, b, memo, e, !signed, d - 1);
        let half = 1i128 << (w - 1);
        if o.0 >= 0 && o.1 < half {
            r = meet(r, o);
        } else if signed && o.0 >= half {
            r = meet(r, (o.0 - 2 * half, o.1 - 2 * half));
        } else if !signed && o.1 < 0 {
            r = meet(r, (o.0 + 2 * half, o.1 + 2 * half));
        }
    }
    memo.insert((e, signed), r);
    r
}
