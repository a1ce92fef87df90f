//! Hash-consed bit-vector expression DAG with canonicalising constructors and a
//! concrete evaluator.  Width <= 128.  Zero extension is represented as a Concat with
//! a zero constant; bitwise masks by constants are split into Concat/Extract pieces, so
//! that shift-and-or style byte (dis)assembly reaches one normal form.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    SExt,
    // floating point on raw bits (width 32 or 64), round to nearest even
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FLt,
    FLe,
    FEq,
    FExt,
    FTrunc,
    FToSI,
    FToUI,
    SIToF,
    UIToF,
    FRound, // k: 0 ties-away, 1 floor, 2 ceil, 3 trunc, 4 ties-even
    FSqrt,
}

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct Ctx {
    pub n: Vec<Node>,
    map: FxMap<Node, E>,
    pub var_names: Vec<String>,
    pub var_expr: Vec<E>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    pub has_fp: Vec<bool>,
    lin_memo: HashMap<(E, u16), Option<std::rc::Rc<(Vec<(E, u128)>, u128)>>>,
}

fn f64b(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
fn f32b(v: u128) -> f32 {
    f32::from_bits(v as u32)
}

pub fn round_even64(x: f64) -> f64 {
    x.round_ties_even()
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            lin_memo: Default::default(),
            n: vec![],
            map: Default::default(),
            var_names: vec![],
            var_expr: vec![],
            ev_gen: vec![],
            ev_val: vec![],
            gen: 0,
            has_fp: vec![],
        }
    }
    fn intern(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let e = self.n.len() as E;
        let fp = match nd.op {
            Op::Const | Op::Var => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FLt | Op::FLe | Op::FEq | Op::FExt
            | Op::FTrunc | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FRound | Op::FSqrt => true,
            _ => {
                self.has_fp[nd.a as usize]
                    || (nd.b != u32::MAX && self.has_fp[nd.b as usize])
                    || (nd.c != u32::MAX && self.has_fp[nd.c as usize])
            }
        };
        self.has_fp.push(fp);
        self.n.push(nd);
        self.ev_gen.push(0);
        self.ev_val.push(0);
        self.map.insert(nd, e);
        e
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w, a, b, c, k })
    }
    /// `low` holds all bits of some term but the topmost: that term, if it was ever built
    pub fn with_top_bit(&self, low: E) -> Option<E> {
        let n = self.nd(low);
        match n.op {
            Op::Extract => {
                let f = self.nd(n.a);
                if n.k == 0 && f.w == n.w + 1 {
                    return Some(n.a);
                }
                if n.k as u16 + n.w + 1 > f.w {
                    return None;
                }
                self.map.get(&Node { w: n.w + 1, ..n }).copied()
            }
            Op::Concat => {
                let h = self.with_top_bit(n.a)?;
                self.map.get(&Node { w: n.w + 1, a: h, ..n }).copied()
            }
            _ => None,
        }
    }
    pub fn w(&self, e: E) -> u16 {
        self.n[e as usize].w
    }
    pub fn nd(&self, e: E) -> Node {
        self.n[e as usize]
    }
    pub fn c(&mut self, w: u16, k: u128) -> E {
        debug_assert!(w > 0);
        self.mk(Op::Const, w, u32::MAX, u32::MAX, u32::MAX, k & mask(w))
    }
    pub fn b(&mut self, v: bool) -> E {
        self.c(1, v as u128)
    }
    pub fn as_c(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, w: u16, name: String) -> E {
        let idx = self.var_names.len();
        self.var_names.push(name);
        let e = self.mk(Op::Var, w, u32::MAX, u32::MAX, u32::MAX, idx as u128);
        self.var_expr.push(e);
        e
    }
    // ---- structural
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.nd(h), self.nd(l));
        let w = nh.w + nl.w;
        assert!(w <= 128, "expression wider than 128 bits");
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.c(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, l);
            return self.concat(nh.a, t);
        }
        // the low part of an arithmetic term is kept as narrower arithmetic: put it back
        if nh.op == Op::Extract && matches!(self.nd(nh.a).op, Op::Add | Op::Sub | Op::Mul) {
            let la = nh.k as u16;
            if la == nl.w && self.extract(nh.a, 0, la) == l {
                return self.extract(nh.a, 0, w);
            }
            if nl.op == Op::Concat {
                let wl = self.w(nl.a);
                if la == wl && self.extract(nh.a, 0, la) == nl.a {
                    let m = self.extract(nh.a, 0, nh.w + wl);
                    return self.concat(m, nl.b);
                }
            }
        }
        // h atomic. merge with the leading piece of l
        let (lead, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (l, None) };
        let nlead = self.nd(lead);
        let merged = if nh.op == Op::Const && nlead.op == Op::Const {
            Some(self.c(nh.w + nlead.w, (nh.k << nlead.w) | nlead.k))
        } else if nh.op == Op::Ite
            && nlead.op == Op::Ite
            && nh.a == nlead.a
            && (self.as_c(nh.b).is_some() && self.as_c(nlead.b).is_some() || self.as_c(nh.c).is_some() && self.as_c(nlead.c).is_some())
        {
            let x = self.concat(nh.b, nlead.b);
            let y = self.concat(nh.c, nlead.c);
            Some(self.ite(nh.a, x, y))
        } else {
            let (xa, la) = if nh.op == Op::Extract { (nh.a, nh.k as u16) } else { (h, 0) };
            let (xb, lb) = if nlead.op == Op::Extract { (nlead.a, nlead.k as u16) } else { (lead, 0) };
            if xa == xb && la == lb + nlead.w && nh.op != Op::Const {
                Some(self.extract(xa, lb, nh.w + nlead.w))
            } else {
                None
            }
        };
        match (merged, rest) {
            (Some(m), Some(r)) => self.concat(m, r),
            (Some(m), None) => m,
            (None, _) => self.mk(Op::Concat, w, h, l, u32::MAX, 0),
        }
    }
    pub fn extract(&mut self, x: E, lo: u16, w: u16) -> E {
        let n = self.nd(x);
        debug_assert!(lo + w <= n.w && w > 0);
        if lo == 0 && w == n.w {
            return x;
        }
        match n.op {
            Op::Const => self.c(w, n.k >> lo),
            Op::Extract => self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    self.extract(n.b, lo, w)
                } else if lo >= wl {
                    self.extract(n.a, lo - wl, w)
                } else {
                    let l = self.extract(n.b, lo, wl - lo);
                    let h = self.extract(n.a, 0, lo + w - wl);
                    self.concat(h, l)
                }
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    self.extract(n.a, lo, w)
                } else if lo < wa {
                    let l = self.extract(n.a, lo, wa - lo);
                    self.sext(l, w)
                } else {
                    let s = self.extract(n.a, wa - 1, 1);
                    self.sext(s, w)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                self.bin(n.op, a, b)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                self.bin(n.op, a, b)
            }
            Op::Ite if self.as_c(n.b).is_some() || self.as_c(n.c).is_some() => {
                let b = self.extract(n.b, lo, w);
                let c = self.extract(n.c, lo, w);
                self.ite(n.a, b, c)
            }
            _ => self.mk(Op::Extract, w, x, u32::MAX, u32::MAX, lo as u128),
        }
    }
    pub fn zext(&mut self, x: E, w: u16) -> E {
        let wx = self.w(x);
        if wx == w {
            return x;
        }
        let z = self.c(w - wx, 0);
        self.concat(z, x)
    }
    pub fn sext(&mut self, x: E, w: u16) -> E {
        let n = self.nd(x);
        if n.w == w {
            return x;
        }
        match n.op {
            Op::Const => self.c(w, sx(n.k, n.w) as u128),
            Op::SExt => self.sext(n.a, w),
            Op::Concat if self.as_c(n.a).map_or(false, |k| k >> (self.w(n.a) - 1) == 0) => self.zext(x, w),
            _ => self.mk(Op::SExt, w, x, u32::MAX, u32::MAX, 0),
        }
    }
    pub fn trunc(&mut self, x: E, w: u16) -> E {
        self.extract(x, 0, w)
    }
    pub fn not(&mut self, x: E) -> E {
        let w = self.w(x);
        let m = self.c(w, mask(w));
        self.bin(Op::Xor, x, m)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_c(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.nd(c);
        if nc.op == Op::Xor {
            // Not(x)
            if self.as_c(nc.b) == Some(1) {
                return self.ite(nc.a, b, a);
            }
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        // nested ite with the same condition
        let na = self.nd(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.nd(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    fn pieces(&self, x: E, out: &mut Vec<E>) {
        // most significant first
        let mut e = x;
        loop {
            let n = self.nd(e);
            if n.op == Op::Concat {
                out.push(n.a);
                e = n.b;
            } else {
                out.push(e);
                return;
            }
        }
    }
    /// apply f on aligned pieces of a and b (both same width), msb first
    fn split2(&mut self, a: E, b: E) -> Vec<(E, E)> {
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        pa.reverse();
        pb.reverse();
        let w = self.w(a);
        let mut cuts = vec![];
        for p in [&pa, &pb] {
            let mut o = 0;
            for &x in p.iter() {
                o += self.w(x);
                cuts.push(o);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut r = vec![];
        let mut o = 0;
        for c in cuts {
            let x = self.extract(a, o, c - o);
            let y = self.extract(b, o, c - o);
            r.push((x, y));
            o = c;
        }
        debug_assert_eq!(o, w);
        r.reverse();
        r
    }
    fn runs(k: u128, w: u16) -> Vec<(u16, u16, bool)> {
        // lsb first: (lo, width, bit)
        let mut v = vec![];
        let mut i = 0;
        while i < w {
            let bit = (k >> i) & 1 == 1;
            let mut j = i;
            while j < w && ((k >> j) & 1 == 1) == bit {
                j += 1;
            }
            v.push((i, j - i, bit));
            i = j;
        }
        v
    }
    pub fn bin(&mut self, op: Op, a0: E, b0: E) -> E {
        let (mut a, mut b) = (a0, b0);
        let (na0, nb0) = (self.nd(a), self.nd(b));
        debug_assert_eq!(na0.w, nb0.w, "width mismatch {:?} {:?} {:?}", op, na0, nb0);
        let w = na0.w;
        let m = mask(w);
        if na0.op == Op::Const && nb0.op == Op::Const {
            let r = Self::eval_bin(op, w, na0.k, nb0.k);
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
            return self.c(rw, r);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm {
            // constants to the right, otherwise by id
            if na0.op == Op::Const || (nb0.op != Op::Const && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let (na, nb) = (self.nd(a), self.nd(b));
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        let ka = if na.op == Op::Const { Some(na.k) } else { None };
        // lift over ite with constant arms when the other is constant
        if na.op == Op::Ite && kb.is_some() && !(self.as_c(na.b).is_none() && self.as_c(na.c).is_none()) {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            if self.as_c(x).is_some() || self.as_c(y).is_some() {
                return self.ite(na.a, x, y);
            }
        }
        if nb.op == Op::Ite && ka.is_some() && self.as_c(nb.b).is_some() && self.as_c(nb.c).is_some() {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_c(na.b) {
                            let s = self.c(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, s);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(k) = kb {
                    let s = self.c(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, s);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.c(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u16;
                    let l = self.extract(a, 0, w - k);
                    let z = self.c(k, 0);
                    return self.concat(l, z);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u16;
                    let h = self.extract(a, k, w - k);
                    return self.zext(h, w);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k.min(w as u128 - 1)) as u16;
                    let h = self.extract(a, k, w - k);
                    return self.sext(h, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { self.c(w, 0) } else { a };
                }
                if let Some(k) = kb {
                    match op {
                        Op::And if k == 0 => return b,
                        Op::And if k == m => return a,
                        Op::Or if k == 0 => return a,
                        Op::Or if k == m => return b,
                        Op::Xor if k == 0 => return a,
                        _ => {}
                    }
                    if op == Op::Xor && na.op == Op::Xor {
                        if let Some(k2) = self.as_c(na.b) {
                            let s = self.c(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, s);
                        }
                    }
                    if op != Op::Xor && w > 1 {
                        let r = Self::runs(k, w);
                        if r.len() <= 12 {
                            let mut acc: Option<E> = None;
                            for (lo, ww, bit) in r {
                                let p = match (op, bit) {
                                    (Op::And, true) | (Op::Or, false) => self.extract(a, lo, ww),
                                    (Op::And, false) => self.c(ww, 0),
                                    _ => self.c(ww, mask(ww)),
                                };
                                acc = Some(match acc {
                                    None => p,
                                    Some(l) => self.concat(p, l),
                                });
                            }
                            return acc.unwrap();
                        }
                    }
                }
                if na.op == Op::Concat || nb.op == Op::Concat {
                    let ps = self.split2(a, b);
                    let mut acc: Option<E> = None;
                    for (x, y) in ps.into_iter().rev() {
                        let p = self.bin(op, x, y);
                        acc = Some(match acc {
                            None => p,
                            Some(l) => self.concat(p, l),
                        });
                    }
                    return acc.unwrap();
                }
                if w == 1 && (op == Op::And || op == Op::Or) {
                    // x & !x, x | !x, absorption
                    let nota = self.not(a);
                    if nota == b {
                        return self.b(op == Op::Or);
                    }
                    for (x, y) in [(a, b), (b, a)] {
                        let ny = self.nd(y);
                        if ny.op == op && (ny.a == x || ny.b == x) {
                            return y;
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.b(true);
                }
                if w == 1 {
                    if let Some(k) = kb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_c(na.b) {
                            let s = self.c(w, k.wrapping_sub(k2));
                            return self.bin(Op::Eq, na.a, s);
                        }
                    }
                    if k == 0 && matches!(na.op, Op::Xor | Op::Sub) {
                        return self.bin(Op::Eq, na.a, na.b);
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_c(na.b) {
                            let s = self.c(w, k ^ k2);
                            return self.bin(Op::Eq, na.a, s);
                        }
                    }
                    if na.op == Op::SExt {
                        let wa = self.w(na.a);
                        let kk = k & mask(wa);
                        if (sx(kk, wa) as u128) & m != k {
                            return self.b(false);
                        }
                        let s = self.c(wa, kk);
                        return self.bin(Op::Eq, na.a, s);
                    }
                    if na.op == Op::Ite {
                        let x = self.bin(Op::Eq, na.b, b);
                        let y = self.bin(Op::Eq, na.c, b);
                        if self.as_c(x).is_some() || self.as_c(y).is_some() {
                            return self.ite(na.a, x, y);
                        }
                    }
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if self.sum_like(na.op) && (self.sum_like(nb.op) || kb.is_some()) {
                    if let (Some(p), Some(q)) = (self.lin(a, w), self.lin(b, w)) {
                        if p == q {
                            return self.b(true);
                        }
                        if p.0 == q.0 {
                            return self.b(false); // same terms, different constants
                        }
                    }
                }
                if na.op == Op::Concat || nb.op == Op::Concat {
                    let ps = self.split2(a, b);
                    let mut acc = self.b(true);
                    for (x, y) in ps {
                        let p = self.bin(Op::Eq, x, y);
                        acc = self.bin(Op::And, acc, p);
                        if self.as_c(acc) == Some(0) {
                            return acc;
                        }
                    }
                    return acc;
                }
            }
            Op::Ult => {
                if a == b || kb == Some(0) || ka == Some(m) {
                    return self.b(false);
                }
                if kb == Some(1) {
                    let z = self.c(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ka == Some(0) {
                    let z = self.c(w, 0);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                // strip common known-zero (or equal-constant) prefix
                let la = if na.op == Op::Concat { self.as_c(na.a).map(|k| (k, self.w(na.a))) } else { ka.map(|k| (k, w)) };
                let lb = if nb.op == Op::Concat { self.as_c(nb.a).map(|k| (k, self.w(nb.a))) } else { kb.map(|k| (k, w)) };
                if let (Some((xa, wa)), Some((xb, wb))) = (la, lb) {
                    let c = wa.min(wb);
                    let (pa, pb) = (xa >> (wa - c), xb >> (wb - c));
                    if pa != pb {
                        return self.b(pa < pb);
                    }
                    if c < w {
                        let x = self.extract(a, 0, w - c);
                        let y = self.extract(b, 0, w - c);
                        return self.bin(Op::Ult, x, y);
                    }
                }
                if w == 1 {
                    // !a & b
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.b(false);
                }
                let (sa, sb) = (self.sign_known(a), self.sign_known(b));
                match (sa, sb) {
                    (Some(x), Some(y)) if x == y => return self.bin(Op::Ult, a, b),
                    (Some(x), Some(y)) => return self.b(x && !y),
                    _ => {}
                }
                if kb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if ka == Some(m) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Slt, na.a, nb.a);
                }
                if na.op == Op::SExt {
                    if let Some(k) = kb {
                        let wa = self.w(na.a);
                        let s = sx(k, w);
                        let (lo, hi) = (-(1i128 << (wa - 1)), (1i128 << (wa - 1)) - 1);
                        if s > hi {
                            return self.b(true);
                        }
                        if s <= lo {
                            return self.b(false);
                        }
                        let kk = self.c(wa, s as u128);
                        return self.bin(Op::Slt, na.a, kk);
                    }
                }
                if nb.op == Op::SExt {
                    if let Some(k) = ka {
                        let wa = self.w(nb.a);
                        let s = sx(k, w);
                        let (lo, hi) = (-(1i128 << (wa - 1)), (1i128 << (wa - 1)) - 1);
                        if s >= hi {
                            return self.b(false);
                        }
                        if s < lo {
                            return self.b(true);
                        }
                        let kk = self.c(wa, s as u128);
                        return self.bin(Op::Slt, kk, nb.a);
                    }
                }
            }
            _ => {}
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        self.mk(op, rw, a, b, u32::MAX, 0)
    }
    fn sum_like(&self, op: Op) -> bool {
        matches!(op, Op::Add | Op::Sub | Op::Mul)
    }
    /// the low `w` bits of `x` as a sum of atoms with coefficients, plus a constant (all mod 2^w)
    fn lin(&mut self, x: E, w: u16) -> Option<std::rc::Rc<(Vec<(E, u128)>, u128)>> {
        use std::rc::Rc;
        if let Some(r) = self.lin_memo.get(&(x, w)) {
            return r.clone();
        }
        let m = mask(w);
        let n = self.nd(x);
        let r = match n.op {
            Op::Const => Some(Rc::new((vec![], n.k & m))),
            Op::Add | Op::Sub => match (self.lin(n.a, w), self.lin(n.b, w)) {
                (Some(p), Some(q)) => {
                    let neg = n.op == Op::Sub;
                    let (mut i, mut j) = (0, 0);
                    let mut v = Vec::with_capacity(p.0.len() + q.0.len());
                    while i < p.0.len() || j < q.0.len() {
                        let (e, c);
                        if j >= q.0.len() || (i < p.0.len() && p.0[i].0 < q.0[j].0) {
                            (e, c) = p.0[i];
                            i += 1;
                        } else {
                            let d = if neg { q.0[j].1.wrapping_neg() } else { q.0[j].1 };
                            e = q.0[j].0;
                            if i < p.0.len() && p.0[i].0 == e {
                                c = p.0[i].1.wrapping_add(d);
                                i += 1;
                            } else {
                                c = d;
                            }
                            j += 1;
                        }
                        if c & m != 0 {
                            v.push((e, c & m));
                        }
                    }
                    let k = if neg { p.1.wrapping_sub(q.1) } else { p.1.wrapping_add(q.1) } & m;
                    if v.len() > 2000 {
                        None
                    } else {
                        Some(Rc::new((v, k)))
                    }
                }
                _ => None,
            },
            Op::Mul if self.as_c(n.b).is_some() => {
                let f = self.as_c(n.b).unwrap();
                self.lin(n.a, w).map(|p| {
                    let v = p.0.iter().map(|(e, c)| (*e, c.wrapping_mul(f) & m)).filter(|x| x.1 != 0).collect();
                    Rc::new((v, p.1.wrapping_mul(f) & m))
                })
            }
            Op::Shl if self.as_c(n.b).is_some() => {
                let s = self.as_c(n.b).unwrap();
                if s >= w as u128 {
                    Some(Rc::new((vec![], 0)))
                } else {
                    self.lin(n.a, w).map(|p| {
                        let v = p.0.iter().map(|(e, c)| (*e, (c << s) & m)).filter(|x| x.1 != 0).collect();
                        Rc::new((v, (p.1 << s) & m))
                    })
                }
            }
            Op::Extract if n.k == 0 && self.w(n.a) > w => self.lin(n.a, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lw >= w {
                    self.lin(n.b, w)
                } else if self.as_c(n.b) == Some(0) {
                    // a shifted value
                    let h = self.extract(n.a, 0, w - lw);
                    self.lin(h, w - lw).map(|p| {
                        let v = p.0.iter().map(|(e, c)| (*e, (c << lw) & m)).filter(|x| x.1 != 0).collect();
                        Rc::new((v, (p.1 << lw) & m))
                    })
                } else {
                    self.lin_atom(x, w)
                }
            }
            // a table of constants: default plus (value - default) per condition
            Op::Ite => {
                let mut arms = vec![];
                let mut seen = self.b(true);
                let mut cur = x;
                let mut ok = true;
                loop {
                    let n = self.nd(cur);
                    if n.op == Op::Const {
                        break;
                    }
                    if n.op != Op::Ite {
                        ok = false;
                        break;
                    }
                    let (k, rest, cond) = if let Some(k) = self.as_c(n.b) {
                        (k, n.c, n.a)
                    } else if let Some(k) = self.as_c(n.c) {
                        let nc = self.not(n.a);
                        (k, n.b, nc)
                    } else {
                        ok = false;
                        break;
                    };
                    let here = self.bin(Op::And, seen, cond);
                    let nc = self.not(cond);
                    seen = self.bin(Op::And, seen, nc);
                    arms.push((here, k));
                    cur = rest;
                }
                if ok {
                    let k = self.as_c(cur).unwrap();
                    let mut v: Vec<(E, u128)> = vec![];
                    for (c, kc) in arms {
                        let a = self.zext(c, w);
                        v.push((a, kc.wrapping_sub(k) & m));
                    }
                    v.sort();
                    let mut u: Vec<(E, u128)> = vec![];
                    for (e, c) in v {
                        match u.last_mut() {
                            Some(l) if l.0 == e => l.1 = l.1.wrapping_add(c) & m,
                            _ => u.push((e, c)),
                        }
                    }
                    u.retain(|t| t.1 != 0);
                    Some(Rc::new((u, k & m)))
                } else {
                    self.lin_atom(x, w)
                }
            }
            _ => self.lin_atom(x, w),
        };
        self.lin_memo.insert((x, w), r.clone());
        r
    }
    fn lin_atom(&mut self, x: E, w: u16) -> Option<std::rc::Rc<(Vec<(E, u128)>, u128)>> {
        let a = self.extract(x, 0, w);
        Some(std::rc::Rc::new((vec![(a, 1)], 0)))
    }
    fn sign_known(&self, e: E) -> Option<bool> {
        let n = self.nd(e);
        match n.op {
            Op::Const => Some((n.k >> (n.w - 1)) & 1 == 1),
            Op::Concat => self.sign_known(n.a),
            _ => None,
        }
    }
    // ---- floats
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let rw = if matches!(op, Op::FLt | Op::FLe | Op::FEq) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            let r = Self::eval_fbin(op, w, x, y);
            return self.c(rw, r);
        }
        // the sum/product is commutative bit for bit except NaN payloads
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul | Op::FEq) && a > b { (b, a) } else { (a, b) };
        self.mk(op, rw, a, b, u32::MAX, 0)
    }
    pub fn fun(&mut self, op: Op, a: E, w: u16, k: u128) -> E {
        if let Some(x) = self.as_c(a) {
            let aw = self.w(a);
            let r = Self::eval_fun(op, aw, w, k, x);
            return self.c(w, r);
        }
        self.mk(op, w, a, u32::MAX, u32::MAX, k)
    }
    /// isnan(a)
    pub fn fnan(&mut self, a: E) -> E {
        let e = self.fbin(Op::FEq, a, a);
        self.not(e)
    }
    pub fn eval_fbin(op: Op, w: u16, x: u128, y: u128) -> u128 {
        macro_rules! go {
            ($f:ident, $t:ty) => {{
                let (a, b) = ($f(x), $f(y));
                let r: $t = match op {
                    Op::FAdd => a + b,
                    Op::FSub => a - b,
                    Op::FMul => a * b,
                    Op::FDiv => a / b,
                    Op::FRem => a % b,
                    Op::FLt => return (a < b) as u128,
                    Op::FLe => return (a <= b) as u128,
                    Op::FEq => return (a == b) as u128,
                    _ => unreachable!(),
                };
                if r.is_nan() {
                    <$t>::NAN.to_bits() as u128
                } else {
                    r.to_bits() as u128
                }
            }};
        }
        if w == 64 {
            go!(f64b, f64)
        } else {
            go!(f32b, f32)
        }
    }
    pub fn eval_fun(op: Op, aw: u16, w: u16, k: u128, x: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::FExt => (f32b(x) as f64).to_bits() as u128,
            Op::FTrunc => (f64b(x) as f32).to_bits() as u128,
            Op::FToSI => {
                let v = if aw == 64 { f64b(x) as i128 } else { f32b(x) as i128 };
                let (lo, hi) = (if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) }, (m >> 1) as i128);
                (v.clamp(lo, hi) as u128) & m
            }
            Op::FToUI => {
                let v = if aw == 64 { f64b(x) as u128 } else { f32b(x) as u128 };
                v.min(m)
            }
            Op::SIToF => {
                let s = sx(x, aw);
                if w == 64 {
                    (s as f64).to_bits() as u128
                } else {
                    (s as f32).to_bits() as u128
                }
            }
            Op::UIToF => {
                if w == 64 {
                    (x as f64).to_bits() as u128
                } else {
                    (x as f32).to_bits() as u128
                }
            }
            Op::FRound => {
                if w == 64 {
                    let v = f64b(x);
                    let r = match k {
                        0 => v.round(),
                        1 => v.floor(),
                        2 => v.ceil(),
                        3 => v.trunc(),
                        _ => v.round_ties_even(),
                    };
                    r.to_bits() as u128
                } else {
                    let v = f32b(x);
                    let r = match k {
                        0 => v.round(),
                        1 => v.floor(),
                        2 => v.ceil(),
                        3 => v.trunc(),
                        _ => v.round_ties_even(),
                    };
                    r.to_bits() as u128
                }
            }
            Op::FSqrt => {
                if w == 64 {
                    f64b(x).sqrt().to_bits() as u128
                } else {
                    f32b(x).sqrt().to_bits() as u128
                }
            }
            _ => unreachable!(),
        }
    }
    pub fn eval_bin(op: Op, w: u16, x: u128, y: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = y.min(w as u128 - 1) as u32;
                (sx(x, w) >> s) as u128
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Eq => return (x == y) as u128,
            Op::Ult => return (x < y) as u128,
            Op::Slt => return (sx(x, w) < sx(y, w)) as u128,
            _ => unreachable!(),
        };
        r & m
    }
    // ---- evaluation under a model (missing vars = 0)
    pub fn new_eval(&mut self) {
        self.gen += 1;
    }
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        // iterative post-order
        let g = self.gen;
        if self.ev_gen[e as usize] == g {
            return self.ev_val[e as usize];
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.ev_gen[x as usize] == g {
                st.pop();
                continue;
            }
            let n = self.n[x as usize];
            if n.op == Op::Ite {
                if self.ev_gen[n.a as usize] != g {
                    st.push(n.a);
                    continue;
                }
                let br = if self.ev_val[n.a as usize] == 1 { n.b } else { n.c };
                if self.ev_gen[br as usize] != g {
                    st.push(br);
                    continue;
                }
                self.ev_val[x as usize] = self.ev_val[br as usize];
                self.ev_gen[x as usize] = g;
                st.pop();
                continue;
            }
            let mut ready = true;
            for ch in [n.a, n.b, n.c] {
                if ch != u32::MAX && self.ev_gen[ch as usize] != g {
                    st.push(ch);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let va = if n.a != u32::MAX { self.ev_val[n.a as usize] } else { 0 };
            let vb = if n.b != u32::MAX { self.ev_val[n.b as usize] } else { 0 };
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
                Op::Concat => (va << self.n[n.b as usize].w) | vb,
                Op::Extract => (va >> n.k as u32) & mask(n.w),
                Op::SExt => (sx(va, self.n[n.a as usize].w) as u128) & mask(n.w),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FLt | Op::FLe | Op::FEq => {
                    Self::eval_fbin(n.op, self.n[n.a as usize].w, va, vb)
                }
                Op::FExt | Op::FTrunc | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FRound | Op::FSqrt => {
                    Self::eval_fun(n.op, self.n[n.a as usize].w, n.w, n.k, va)
                }
                _ => Self::eval_bin(n.op, self.n[n.a as usize].w, va, vb),
            };
            self.ev_val[x as usize] = v;
            self.ev_gen[x as usize] = g;
            st.pop();
        }
        self.ev_val[e as usize]
    }
    /// indices of variables occurring in e
    pub fn vars(&self, e: E, seen: &mut FxSet<E>, out: &mut Vec<u32>) {
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.n[x as usize];
            if n.op == Op::Var {
                out.push(n.k as u32);
            }
            for ch in [n.a, n.b, n.c] {
                if ch != u32::MAX {
                    st.push(ch);
                }
            }
        }
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.nd(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => self.var_names[n.k as usize].clone(),
            _ if d == 0 => format!("e{}", e),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.k, n.w),
            _ => {
                let mut s = format!("({:?}:{}", n.op, n.w);
                for ch in [n.a, n.b, n.c] {
                    if ch != u32::MAX {
                        s.push(' ');
                        s.push_str(&self.show(ch, d - 1));
                    }
                }
                s.push(')');
                s
            }
        }
    }
}
