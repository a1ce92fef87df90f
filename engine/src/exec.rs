//! Path-forking symbolic interpreter for the IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    E(E),
    A(Rc<Vec<V>>),
    N,
}
impl V {
    fn e(&self) -> E {
        match self {
            V::E(e) => *e,
            v => panic!("scalar expected, got {:?}", v),
        }
    }
}
const UNINIT: E = u32::MAX;

#[derive(Clone)]
struct Obj {
    size: u64,
    data: Rc<Vec<E>>,
    ro: bool,
    kind: u8, // 0 global 1 stack 2 heap
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    blk: u32,
    ip: usize,
    regs: Vec<V>,
    allocas: Vec<u64>,
    dst: Option<u32>,
    invoke_to: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Obj>,
    next: u64,
    pub pc: Vec<E>,
    known: Rc<FxSet<E>>,
    subst: Rc<FxMap<E, E>>,
    subst_id: u32,
    model: Rc<Vec<u128>>,
    inputs: Vec<E>,
    obs: Vec<E>,
    steps: u64,
    uninit: u32,
    expect_panic: bool,
    covers: Rc<Vec<String>>,
    bounds: Rc<crate::range::Bounds>,
    /// the model is not known to satisfy the path condition (an exact floating-point query
    /// was too hard): the path may be infeasible, and is followed to be on the safe side
    unconf: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub input: Vec<u8>,
    pub detail: String,
}
pub struct PathRec {
    pub input: Vec<u8>,
    pub obs: Vec<u64>,
    pub status: String,
    pub covers: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub panics_expected: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub insts: u64,
    pub branches_sym: u64,
    pub asserts_solver: u64,
    pub asserts_const: u64,
    pub guessed: u64,
    pub ranged: u64,
    pub audited: u64,
    pub unconfirmed: u64,
    pub max_path_steps: u64,
    pub max_pc: u64,
    pub max_inputs: u64,
}

enum Stop {
    /// path is over
    Done(String),
    /// engine cannot continue on this path
    Err(String),
}
type X<T> = Result<T, Stop>;

pub struct Limits {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_time: f64,
    pub samples: usize,
    pub seed: u64,
    pub split: u32,
    pub part: u32,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub x: Ctx,
    pub s: Solver,
    pub lim: Limits,
    funcs: HashMap<String, Rc<Func>>,
    gaddr: HashMap<String, u64>,
    gidx: BTreeMap<u64, usize>,
    gcache: HashMap<u64, Obj>,
    faddr: HashMap<u64, String>,
    in_vars: Vec<E>,
    un_vars: Vec<E>,
    pub stats: Stats,
    pub viol: Vec<Violation>,
    viol_count: HashMap<(String, String), u64>,
    pub errors: Vec<String>,
    pub covers: BTreeMap<String, u64>,
    pub assert_labels: BTreeMap<String, (u64, u64)>,
    pub funcs_run: BTreeSet<String>,
    pub samples: Vec<PathRec>,
    sample_seen: u64,
    rng: u64,
    work: Vec<State>,
    simp_memo: FxMap<(E, u32), E>,
    subst_ctr: u32,
    rng_memo: crate::range::Memo,
    rng_id: u32,
    range_decisions: u64,
    t0: std::time::Instant,
    pub incomplete: Option<String>,
    pub verbose: bool,
    top_fork: u32,
}

fn fbits(w: u16, v: u128) -> f64 {
    if w == 64 {
        f64::from_bits(v as u64)
    } else {
        f32::from_bits(v as u32) as f64
    }
}
fn tobits(w: u16, v: f64) -> u128 {
    if w == 64 {
        v.to_bits() as u128
    } else {
        (v as f32).to_bits() as u128
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, lim: Limits, timeout_ms: u32) -> Self {
        let mut e = Engine {
            m,
            x: Ctx::new(),
            s: Solver::new(timeout_ms),
            funcs: HashMap::new(),
            gaddr: HashMap::new(),
            gidx: BTreeMap::new(),
            gcache: HashMap::new(),
            faddr: HashMap::new(),
            in_vars: vec![],
            un_vars: vec![],
            stats: Default::default(),
            viol: vec![],
            viol_count: HashMap::new(),
            errors: vec![],
            covers: BTreeMap::new(),
            assert_labels: BTreeMap::new(),
            funcs_run: BTreeSet::new(),
            samples: vec![],
            sample_seen: 0,
            rng: lim.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            lim,
            work: vec![],
            simp_memo: Default::default(),
            subst_ctr: 1,
            rng_memo: Default::default(),
            rng_id: 0,
            range_decisions: 0,
            t0: std::time::Instant::now(),
            incomplete: None,
            verbose: false,
            top_fork: 0,
        };
        let mut a = 0x10000u64;
        for (i, g) in m.globals.iter().enumerate() {
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            e.gaddr.insert(g.name.clone(), a);
            e.gidx.insert(a, i);
            a += g.ty.size() + 32;
        }
        let mut f = 0x4000_0000_0000u64;
        let mut names: Vec<&String> = m.funcs.keys().collect();
        names.sort();
        for n in names {
            e.gaddr.insert(n.clone(), f);
            e.faddr.insert(f, n.clone());
            f += 16;
        }
        for (al, t) in m.aliases.iter() {
            if let Some(&ad) = e.gaddr.get(t) {
                e.gaddr.insert(al.clone(), ad);
            }
        }
        e
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    // ---- constants
    fn cst_scalar(&mut self, c: &Cst, w: u16) -> Result<E, String> {
        Ok(match c {
            Cst::Int(k) => self.x.c(w, *k),
            Cst::Zero => self.x.c(w, 0),
            Cst::Global(g, o) => {
                let a = *self.gaddr.get(g).ok_or(format!("unknown global {}", g))?;
                self.x.c(w, a.wrapping_add(*o as u64) as u128)
            }
            Cst::Trunc(c, tw) => {
                let e = self.cst_scalar(c, 64)?;
                let t = self.x.trunc(e, *tw);
                if *tw != w {
                    return Err("const trunc".into());
                }
                t
            }
            Cst::Sub(a, b) => {
                let a = self.cst_scalar(a, w)?;
                let b = self.cst_scalar(b, w)?;
                self.x.bin(Op::Sub, a, b)
            }
            _ => return Err("aggregate where scalar expected".into()),
        })
    }
    fn cst_val(&mut self, t: &Ty, c: &Cst) -> Result<V, String> {
        Ok(match t {
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => V::E(self.cst_scalar(c, t.bits())?),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vect(..) => {
                let n = match t {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize,
                    _ => 0,
                };
                let mut v = vec![];
                for i in 0..n {
                    let et = t.elem(i);
                    v.push(match c {
                        Cst::Zero => self.cst_val(&et, &Cst::Zero)?,
                        Cst::Agg(a) => self.cst_val(&et, &a[i].1)?,
                        Cst::Bytes(b) => V::E(self.x.c(8, b[i] as u128)),
                        _ => return Err("aggregate constant".into()),
                    });
                }
                V::A(Rc::new(v))
            }
            _ => V::N,
        })
    }
    fn write_cst(&mut self, t: &Ty, c: &Cst, out: &mut Vec<E>, off: u64) -> Result<(), String> {
        match (t, c) {
            (_, Cst::Zero) => {
                let z = self.x.c(8, 0);
                for i in 0..t.size() {
                    out[(off + i) as usize] = z;
                }
            }
            (_, Cst::Bytes(b)) => {
                for (i, k) in b.iter().enumerate() {
                    out[off as usize + i] = self.x.c(8, *k as u128);
                }
            }
            (_, Cst::Agg(v)) => {
                for (i, (et, ec)) in v.iter().enumerate() {
                    self.write_cst(et, ec, out, off + t.field_off(i))?;
                }
            }
            _ => {
                let w = t.bits();
                let e = self.cst_scalar(c, w)?;
                let bw = (w + 7) / 8 * 8;
                let e = self.x.zext(e, bw);
                for i in 0..(bw / 8) {
                    out[(off + i as u64) as usize] = self.x.extract(e, i * 8, 8);
                }
            }
        }
        Ok(())
    }
    fn global_obj(&mut self, addr: u64) -> Result<Obj, String> {
        if let Some(o) = self.gcache.get(&addr) {
            return Ok(o.clone());
        }
        let gi = self.gidx[&addr];
        let g = &self.m.globals[gi];
        let size = g.ty.size();
        let z = self.x.c(8, 0);
        let mut data = vec![z; size as usize];
        match &g.toks {
            Some((t, pos)) => {
                let mut p = P { t, i: *pos, types: &self.m.types };
                let c = p.cst(&g.ty).map_err(|e| format!("global {}: {}", g.name, e))?;
                self.write_cst(&g.ty, &c, &mut data, 0)?;
            }
            None => return Err(format!("access to external global {}", g.name)),
        }
        let o = Obj { size, data: Rc::new(data), ro: g.constant, kind: 0 };
        self.gcache.insert(addr, o.clone());
        Ok(o)
    }
    // ---- memory
    /// find object containing [addr, addr+n)
    fn find(&mut self, st: &mut State, addr: u64, n: u64) -> X<(u64, Obj)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr + n <= b + o.size {
                return Ok((*b, o.clone()));
            }
            if addr < b + o.size {
                return Err(Stop::Done(format!("MEM:access of {} bytes overruns object of size {} at offset {}", n, o.size, addr - b)));
            }
        }
        if let Some((b, gi)) = self.gidx.range(..=addr).next_back() {
            let sz = self.m.globals[*gi].ty.size();
            let b = *b;
            if addr + n <= b + sz {
                let o = self.global_obj(b).map_err(Stop::Err)?;
                return Ok((b, o));
            }
        }
        Err(Stop::Done(format!("MEM:invalid address {:#x} size {}", addr, n)))
    }
    fn byte(&mut self, st: &mut State, o: &Obj, base: u64, off: u64) -> E {
        let e = o.data[off as usize];
        if e != UNINIT {
            return e;
        }
        let k = st.uninit as usize;
        st.uninit += 1;
        while self.un_vars.len() <= k {
            let n = format!("un{}", self.un_vars.len());
            let v = self.x.var(8, n);
            self.un_vars.push(v);
        }
        let v = self.un_vars[k];
        if let Some(ob) = st.mem.get_mut(&base) {
            Rc::make_mut(&mut ob.data)[off as usize] = v;
        }
        v
    }
    fn read_bytes(&mut self, st: &mut State, addr: u64, n: u64) -> X<Vec<E>> {
        let (b, o) = self.find(st, addr, n)?;
        let off = addr - b;
        let mut v = Vec::with_capacity(n as usize);
        let mut o = o;
        for i in 0..n {
            let e = o.data[(off + i) as usize];
            if e == UNINIT {
                let e = self.byte(st, &o, b, off + i);
                // refresh (object changed)
                if let Some(ob) = st.mem.get(&b) {
                    o = ob.clone();
                }
                v.push(e);
            } else {
                v.push(e);
            }
        }
        Ok(v)
    }
    /// raw copy keeping uninitialised markers
    fn read_raw(&mut self, st: &mut State, addr: u64, n: u64) -> X<Vec<E>> {
        let (b, o) = self.find(st, addr, n)?;
        let off = (addr - b) as usize;
        Ok(o.data[off..off + n as usize].to_vec())
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, v: &[E]) -> X<()> {
        let n = v.len() as u64;
        if n == 0 {
            return Ok(());
        }
        let (b, o) = self.find(st, addr, n)?;
        if o.ro {
            return Err(Stop::Done("MEM:write to constant memory".into()));
        }
        let off = (addr - b) as usize;
        drop(o);
        if !st.mem.contains_key(&b) {
            let o = self.global_obj(b).map_err(Stop::Err)?;
            st.mem.insert(b, o);
        }
        let ob = st.mem.get_mut(&b).unwrap();
        let d = Rc::make_mut(&mut ob.data);
        d[off..off + v.len()].copy_from_slice(v);
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8, zero: bool) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + size + 32;
        let fill = if zero { self.x.c(8, 0) } else { UNINIT };
        st.mem.insert(a, Obj { size, data: Rc::new(vec![fill; size as usize]), ro: false, kind });
        a
    }
    fn join(&mut self, bytes: &[E]) -> E {
        let mut acc = bytes[bytes.len() - 1];
        for &b in bytes[..bytes.len() - 1].iter().rev() {
            acc = self.x.concat(acc, b);
        }
        acc
    }
    fn load_scalar(&mut self, st: &mut State, addr: E, w: u16) -> X<E> {
        let n = ((w + 7) / 8) as u64;
        let addr = self.simp(st, addr);
        let e = if let Some(a) = self.x.as_c(addr) {
            let b = self.read_bytes(st, a as u64, n)?;
            self.join(&b)
        } else {
            // symbolic address: object of the current model value
            let v = self.eval(st, addr) as u64;
            let (b, o) = match self.find(st, v, n) {
                Ok(r) => r,
                Err(Stop::Done(m)) => {
                    if std::env::var("IRSYM_SHOW").is_ok() {
                        eprintln!("BAD ADDRESS {}", self.x.show(addr, 14));
                    }
                    return Err(Stop::Done(m));
                }
                Err(e) => return Err(e),
            };
            let nb = self.x.c(64, b as u128);
            let off = self.x.bin(Op::Sub, addr, nb);
            let lim = self.x.c(64, (o.size - n + 1) as u128);
            let inr = self.x.bin(Op::Ult, off, lim);
            if !self.decide_or_fork(st, inr)? {
                return Err(Stop::Done(format!("MEM:symbolic address out of object of size {}", o.size)));
            }
            if o.size <= 4096 {
                let off = self.simp(st, off);
                let mut acc: Option<E> = None;
                let step = self.low_zeros(off);
                let mut k = 0;
                while k + n <= o.size {
                    let b = self.read_bytes(st, b + k, n)?;
                    let val = self.join(&b);
                    acc = Some(match acc {
                        None => val,
                        Some(a) => {
                            let kc = self.x.c(64, k as u128);
                            let c = self.x.bin(Op::Eq, off, kc);
                            self.x.ite(c, val, a)
                        }
                    });
                    k += step;
                }
                acc.unwrap()
            } else {
                let a = self.concretize(st, addr)?;
                let b = self.read_bytes(st, a as u64, n)?;
                self.join(&b)
            }
        };
        Ok(if n as u16 * 8 != w { self.x.trunc(e, w) } else { e })
    }
    fn low_zeros(&self, e: E) -> u64 {
        let n = self.x.nd(e);
        match n.op {
            Op::Concat => match self.x.as_c(n.b) {
                Some(0) => 1 << self.x.w(n.b).min(12),
                _ => self.low_zeros_concat(n.b),
            },
            _ => 1,
        }
    }
    fn low_zeros_concat(&self, e: E) -> u64 {
        let n = self.x.nd(e);
        match n.op {
            Op::Concat => self.low_zeros(e),
            Op::Const if n.k == 0 => 1 << n.w.min(12),
            _ => 1,
        }
    }
    fn load(&mut self, st: &mut State, addr: E, t: &Ty) -> X<V> {
        match t {
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => Ok(V::E(self.load_scalar(st, addr, t.bits())?)),
            // vectors of odd-sized elements are packed
            Ty::Vect(n, el) if el.bits() % 8 != 0 => {
                let w = el.bits();
                let e = self.load_scalar(st, addr, w * *n as u16)?;
                Ok(V::A(Rc::new((0..*n as u16).map(|i| V::E(self.x.extract(e, i * w, w))).collect())))
            }
            _ => {
                let n = match t {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize,
                    _ => return Err(Stop::Err(format!("load of {:?}", t))),
                };
                let mut v = vec![];
                for i in 0..n {
                    let o = self.x.c(64, t.field_off(i) as u128);
                    let a = self.x.bin(Op::Add, addr, o);
                    v.push(self.load(st, a, &t.elem(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
        }
    }
    fn store(&mut self, st: &mut State, addr: E, t: &Ty, v: &V) -> X<()> {
        match t {
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => {
                let a = self.concretize(st, addr)? as u64;
                let w = t.bits();
                let bw = (w + 7) / 8 * 8;
                let e = self.x.zext(v.e(), bw);
                let bytes: Vec<E> = (0..bw / 8).map(|i| self.x.extract(e, i * 8, 8)).collect();
                self.write_bytes(st, a, &bytes)
            }
            Ty::Vect(_, el) if el.bits() % 8 != 0 => {
                let vs = match v {
                    V::A(vs) => vs.clone(),
                    _ => return Err(Stop::Err("store vector".into())),
                };
                let mut e = vs[0].e();
                for x in &vs[1..] {
                    e = self.x.concat(x.e(), e);
                }
                let w = self.x.w(e);
                self.store(st, addr, &Ty::Int(w), &V::E(e))
            }
            _ => {
                let vs = match v {
                    V::A(vs) => vs.clone(),
                    _ => return Err(Stop::Err("store aggregate".into())),
                };
                for i in 0..vs.len() {
                    let o = self.x.c(64, t.field_off(i) as u128);
                    let a = self.x.bin(Op::Add, addr, o);
                    self.store(st, a, &t.elem(i), &vs[i])?;
                }
                Ok(())
            }
        }
    }
    // ---- path condition
    fn add_pc(&mut self, st: &mut State, c: E) {
        let n = self.x.nd(c);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if st.known.contains(&c) {
            return;
        }
        st.pc.push(c);
        Rc::make_mut(&mut st.known).insert(c);
        crate::range::note(Rc::make_mut(&mut st.bounds), &self.x, c, true);
        // substitutions from equalities with constants, and known truth values
        let mut sub: Vec<(E, E)> = vec![];
        if n.op == Op::Eq {
            if self.x.as_c(n.b).is_some() {
                sub.push((n.a, n.b));
            } else if self.x.as_c(n.a).is_some() {
                sub.push((n.b, n.a));
            }
        }
        let t = self.x.b(true);
        let f = self.x.b(false);
        if n.op == Op::Xor && self.x.as_c(n.b) == Some(1) {
            sub.push((n.a, f));
            // not(a or b)
            let na = self.x.nd(n.a);
            if na.op == Op::Or {
                let (p, q) = (self.x.not(na.a), self.x.not(na.b));
                self.add_pc(st, p);
                self.add_pc(st, q);
            }
        } else {
            sub.push((c, t));
        }
        let m = Rc::make_mut(&mut st.subst);
        for (a, b) in sub {
            m.insert(a, b);
        }
        self.subst_ctr += 1;
        st.subst_id = self.subst_ctr;
    }
    fn simp(&mut self, st: &State, e: E) -> E {
        if st.subst.is_empty() || self.x.as_c(e).is_some() {
            return e;
        }
        if self.simp_memo.len() > 2_000_000 {
            self.simp_memo.clear();
        }
        self.simp_rec(st, e, 0)
    }
    fn simp_rec(&mut self, st: &State, e: E, d: u32) -> E {
        let n = self.x.nd(e);
        if n.op == Op::Const {
            return e;
        }
        if let Some(&r) = st.subst.get(&e) {
            return r;
        }
        if n.op == Op::Var || d > 400 {
            return e;
        }
        if let Some(&r) = self.simp_memo.get(&(e, st.subst_id)) {
            return r;
        }
        let r = match n.op {
            Op::Extract => {
                let a = self.simp_rec(st, n.a, d + 1);
                self.x.extract(a, n.k as u16, n.w)
            }
            Op::SExt => {
                let a = self.simp_rec(st, n.a, d + 1);
                self.x.sext(a, n.w)
            }
            Op::Concat => {
                let a = self.simp_rec(st, n.a, d + 1);
                let b = self.simp_rec(st, n.b, d + 1);
                self.x.concat(a, b)
            }
            Op::Ite => {
                let c = self.simp_rec(st, n.a, d + 1);
                match self.x.as_c(c) {
                    Some(1) => self.simp_rec(st, n.b, d + 1),
                    Some(_) => self.simp_rec(st, n.c, d + 1),
                    None => {
                        let a = self.simp_rec(st, n.b, d + 1);
                        let b = self.simp_rec(st, n.c, d + 1);
                        self.x.ite(c, a, b)
                    }
                }
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FLt | Op::FLe | Op::FEq => {
                let a = self.simp_rec(st, n.a, d + 1);
                let b = self.simp_rec(st, n.b, d + 1);
                self.x.fbin(n.op, a, b)
            }
            Op::FExt | Op::FTrunc | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FRound | Op::FSqrt => {
                let a = self.simp_rec(st, n.a, d + 1);
                self.x.fun(n.op, a, n.w, n.k)
            }
            _ => {
                let a = self.simp_rec(st, n.a, d + 1);
                let b = self.simp_rec(st, n.b, d + 1);
                self.x.bin(n.op, a, b)
            }
        };
        let mut r = st.subst.get(&r).copied().unwrap_or(r);
        let nr = self.x.nd(r);
        let cmp = match nr.op {
            Op::Slt | Op::Ult => true,
            Op::Extract => nr.w == 1 && nr.k as u16 + 1 == self.x.w(nr.a),
            _ => false,
        };
        if cmp {
            if let Some(k) = self.by_range(st, r) {
                self.stats.ranged += 1;
                r = self.x.b(k);
            }
        } else if matches!(nr.op, Op::SDiv | Op::SRem | Op::UDiv | Op::URem) {
            r = self.fixed_quotient(st, r);
        }
        self.simp_memo.insert((e, st.subst_id), r);
        r
    }
    /// interval of a term on this path
    fn range(&mut self, st: &State, e: E, signed: bool) -> (i128, i128) {
        if self.rng_id != st.subst_id {
            self.rng_memo.clear();
            self.rng_id = st.subst_id;
        }
        crate::range::rng(&self.x, &st.bounds, &mut self.rng_memo, e, signed, 60)
    }
    /// is the condition decided by intervals?
    fn by_range(&mut self, st: &State, c: E) -> Option<bool> {
        let r = match self.range(st, c, false) {
            (1, 1) => true,
            (0, 0) => false,
            _ => return None,
        };
        // audit: now and then the solver has to agree
        self.range_decisions += 1;
        if (self.range_decisions < 8 || self.range_decisions % 509 == 0) && !st.unconf && !self.x.has_fp[c as usize] && !st.pc.iter().any(|&p| self.x.has_fp[p as usize]) {
            let bad = if r { self.x.not(c) } else { c };
            self.stats.audited += 1;
            let pc = st.pc.clone();
            if let Res::Sat(_) = self.s.check(&mut self.x, &pc, bad, &st.model) {
                self.errors.push(format!("interval audit failed: {}", self.x.show(c, 4)));
            }
        }
        Some(r)
    }
    /// a division whose quotient is the same over the whole interval of the dividend
    fn fixed_quotient(&mut self, st: &State, e: E) -> E {
        let n = self.x.nd(e);
        if !matches!(n.op, Op::SDiv | Op::SRem | Op::UDiv | Op::URem) || n.w > 100 {
            return e;
        }
        let s = matches!(n.op, Op::SDiv | Op::SRem);
        let (p, q) = (self.range(st, n.a, s), self.range(st, n.b, s));
        if q.0 != q.1 || q.0 <= 0 || p.0 / q.0 != p.1 / q.0 {
            return e;
        }
        self.stats.ranged += 1;
        let k = p.0 / q.0;
        if matches!(n.op, Op::SDiv | Op::UDiv) {
            return self.x.c(n.w, k as u128 & mask(n.w));
        }
        let m = self.x.c(n.w, (k * q.0) as u128 & mask(n.w));
        self.x.bin(Op::Sub, n.a, m)
    }
    fn eval(&mut self, st: &State, e: E) -> u128 {
        self.x.new_eval();
        self.x.eval(e, &st.model)
    }
    /// Is `pc /\ c` satisfiable?  First tries to build a model by inverting `c` on the
    /// current model (checked by evaluation against the whole path condition); only an
    /// unsatisfiable answer needs the solver.
    fn query(&mut self, st: &State, c: E) -> Res {
        let alts = if self.x.has_fp[c as usize] { 24 } else { 6u64 };
        for alt in 0..alts {
            let mut m = (*st.model).clone();
            let mut d = 40;
            if !self.want(&mut m, c, 1, alt, &mut d) {
                continue;
            }
            self.x.new_eval();
            if self.x.eval(c, &m) != 1 {
                continue;
            }
            if st.pc.iter().all(|&p| self.x.eval(p, &m) == 1) {
                self.stats.guessed += 1;
                return Res::Sat(m);
            }
        }
        self.s.check(&mut self.x, &st.pc, c, &st.model)
    }
    /// a query about which way to go: hard floating-point questions may stay open
    fn branch_query(&mut self, st: &State, c: E) -> Res {
        self.s.fp_ms = Some(1500);
        let r = self.query(st, c);
        self.s.fp_ms = None;
        r
    }
    /// change `m` so that `e` probably evaluates to `v`
    fn want(&mut self, m: &mut Vec<u128>, e: E, v: u128, alt: u64, d: &mut u32) -> bool {
        if *d == 0 {
            return false;
        }
        *d -= 1;
        let n = self.x.nd(e);
        let msk = mask(n.w);
        let v = v & msk;
        self.x.new_eval();
        let cur = self.x.eval(e, m);
        if cur == v {
            return true;
        }
        let ev = |s: &mut Self, m: &Vec<u128>, x: E| {
            s.x.new_eval();
            s.x.eval(x, m)
        };
        match n.op {
            Op::Const => false,
            Op::Var => {
                let k = n.k as usize;
                if m.len() <= k {
                    m.resize(k + 1, 0);
                }
                m[k] = v;
                true
            }
            Op::Concat => {
                let lw = self.x.w(n.b);
                self.want(m, n.b, v & mask(lw), alt, d) & self.want(m, n.a, v >> lw, alt, d)
            }
            Op::Extract => {
                let x = ev(self, m, n.a);
                let k = n.k as u32;
                self.want(m, n.a, (x & !(msk << k)) | (v << k), alt, d)
            }
            Op::SExt => {
                let w = self.x.w(n.a);
                self.want(m, n.a, v & mask(w), alt, d)
            }
            Op::Add | Op::Sub | Op::Xor => {
                let (a, b) = if alt & 1 == 0 { (n.a, n.b) } else { (n.b, n.a) };
                for (p, q, first) in [(a, b, alt & 1 == 0), (b, a, alt & 1 == 1)] {
                    if self.x.as_c(p).is_some() {
                        continue;
                    }
                    let y = ev(self, m, q);
                    let t = match (n.op, first) {
                        (Op::Add, _) => v.wrapping_sub(y),
                        (Op::Xor, _) => v ^ y,
                        (_, true) => v.wrapping_add(y),
                        (_, false) => y.wrapping_sub(v),
                    } & msk;
                    if self.want(m, p, t, alt, d) {
                        return true;
                    }
                }
                false
            }
            Op::And if n.w == 1 => {
                if v == 1 {
                    self.want(m, n.a, 1, alt, d) & self.want(m, n.b, 1, alt, d)
                } else {
                    let p = if alt & 1 == 0 { n.a } else { n.b };
                    self.want(m, p, 0, alt, d)
                }
            }
            Op::Or if n.w == 1 => {
                if v == 0 {
                    self.want(m, n.a, 0, alt, d) & self.want(m, n.b, 0, alt, d)
                } else {
                    let p = if alt & 1 == 0 { n.a } else { n.b };
                    self.want(m, p, 1, alt, d)
                }
            }
            Op::And => match self.x.as_c(n.b) {
                Some(k) if v & !k == 0 => {
                    let y = ev(self, m, n.a);
                    self.want(m, n.a, (y & !k) | v, alt, d)
                }
                _ => false,
            },
            Op::Or => {
                if let Some(k) = self.x.as_c(n.b) {
                    let y = ev(self, m, n.a);
                    return self.want(m, n.a, (y & k) | (v & !k), alt, d);
                }
                if v == 0 {
                    return self.want(m, n.a, 0, alt, d) & self.want(m, n.b, 0, alt, d);
                }
                let y = ev(self, m, n.b);
                self.want(m, n.a, v & !y | (v & y), alt, d)
            }
            Op::Shl => match self.x.as_c(n.b) {
                Some(k) if k < n.w as u128 => self.want(m, n.a, v >> k, alt, d),
                _ => false,
            },
            Op::LShr => match self.x.as_c(n.b) {
                Some(k) if k < n.w as u128 => {
                    let y = ev(self, m, n.a);
                    self.want(m, n.a, ((v << k) & msk) | (y & mask(k as u16)), alt, d)
                }
                _ => false,
            },
            Op::Mul => match self.x.as_c(n.b) {
                Some(k) if k & 1 == 1 => {
                    let mut inv = 1u128;
                    for _ in 0..7 {
                        inv = inv.wrapping_mul(2u128.wrapping_sub(k.wrapping_mul(inv)));
                    }
                    self.want(m, n.a, v.wrapping_mul(inv) & msk, alt, d)
                }
                Some(k) if k != 0 && v % k == 0 => self.want(m, n.a, v / k, alt, d),
                _ => false,
            },
            Op::Ite => {
                let c = ev(self, m, n.a);
                if alt & 2 == 2 {
                    if !self.want(m, n.a, 1 - c, alt, d) {
                        return false;
                    }
                }
                let c = ev(self, m, n.a);
                self.want(m, if c == 1 { n.b } else { n.c }, v, alt, d)
            }
            Op::Eq => {
                let wm = mask(self.x.w(n.a));
                let (p, q) = if self.x.as_c(n.b).is_some() || alt & 1 == 0 { (n.a, n.b) } else { (n.b, n.a) };
                let y = ev(self, m, q);
                if v == 1 {
                    self.want(m, p, y, alt, d)
                } else {
                    let r = self.rnd() as u128;
                    let t = match alt {
                        0 => y.wrapping_add(1),
                        1 => y ^ 0x55,
                        _ => r,
                    } & wm;
                    self.want(m, p, t, alt, d)
                }
            }
            Op::Ult | Op::Slt => {
                let w = self.x.w(n.a);
                let wm = mask(w);
                let (lo, hi) = if n.op == Op::Ult { (0, wm) } else { (1u128 << (w - 1), wm >> 1) };
                let (x, y) = (ev(self, m, n.a), ev(self, m, n.b));
                let ca = self.x.as_c(n.a).is_some();
                let left = !ca && (alt & 1 == 0 || self.x.as_c(n.b).is_some());
                let t = match (v == 1, left, alt / 2) {
                    (true, true, 0) => y.wrapping_sub(1),
                    (true, true, _) => lo,
                    (true, false, 0) => x.wrapping_add(1),
                    (true, false, _) => hi,
                    (false, true, 0) => y,
                    (false, true, _) => hi,
                    (false, false, 0) => x,
                    (false, false, _) => lo,
                } & wm;
                self.want(m, if left { n.a } else { n.b }, t, alt, d)
            }
            Op::FLt | Op::FLe | Op::FEq => {
                let w = self.x.w(n.a);
                let ca = self.x.as_c(n.a).is_some();
                let left = !ca && (alt & 1 == 0 || self.x.as_c(n.b).is_some());
                let y = fbits(w, ev(self, m, if left { n.b } else { n.a }));
                let tiny = y.abs() * if w == 64 { 4e-16 } else { 2e-7 };
                let far = [1.0, 0.25, 1e3, 1e9, 1e30, f64::INFINITY][(alt / 4) as usize % 6];
                let (dn, upv) = match (alt / 2) % 2 {
                    0 => (y - y.abs() * 0.01 - far, y + y.abs() * 0.01 + far),
                    _ => (y - tiny, y + tiny),
                };
                let t = match (n.op, v == 1, left) {
                    (Op::FEq, true, _) => y,
                    (Op::FEq, false, _) if n.a == n.b => f64::NAN,
                    (Op::FEq, false, _) => {
                        if alt & 4 == 0 {
                            upv
                        } else {
                            dn
                        }
                    }
                    (Op::FLe, true, _) | (Op::FLt, false, _) if alt % 8 == 7 => y,
                    (_, true, true) | (_, false, false) => dn,
                    _ => upv,
                };
                let t = if v == 0 && alt == 23 { f64::NAN } else { t };
                self.want(m, if left { n.a } else { n.b }, tobits(w, t), alt, d)
            }
            Op::FMul | Op::FDiv | Op::FAdd | Op::FSub => {
                let y = fbits(n.w, v);
                if n.op == Op::FSub {
                    let r = self.x.nd(n.b);
                    if r.op == Op::FRem && r.a == n.a {
                        let f = [0.0, 0.25, 0.75, 0.5][(alt / 2) as usize % 4];
                        let t = if y < 0.0 || (y == 0.0 && alt & 1 == 1) { y - f } else { y + f };
                        return self.want(m, n.a, tobits(n.w, t), alt, d);
                    }
                }
                let (ca, cb) = (self.x.as_c(n.a).is_some(), self.x.as_c(n.b).is_some());
                let left = !ca && (cb || alt & 1 == 0);
                let o = fbits(n.w, ev(self, m, if left { n.b } else { n.a }));
                let t = match (n.op, left) {
                    (Op::FMul, _) => y / o,
                    (Op::FAdd, _) => y - o,
                    (Op::FSub, true) => y + o,
                    (Op::FSub, false) => o - y,
                    (_, true) => y * o,
                    _ => o / y,
                };
                self.want(m, if left { n.a } else { n.b }, tobits(n.w, t), alt, d)
            }
            Op::FRem => {
                let y = fbits(n.w, v);
                let o = fbits(n.w, ev(self, m, n.a)).trunc();
                let k = if o.is_finite() { o.abs().min(1e6) } else { 3.0 };
                let t = if y < 0.0 { y - k } else { y + k };
                self.want(m, n.a, tobits(n.w, t), alt, d)
            }
            Op::FRound => self.want(m, n.a, v, alt, d),
            Op::FExt => self.want(m, n.a, (f64::from_bits(v as u64) as f32).to_bits() as u128, alt, d),
            Op::FTrunc => self.want(m, n.a, (f32::from_bits(v as u32) as f64).to_bits() as u128, alt, d),
            Op::SIToF | Op::UIToF => {
                let y = fbits(n.w, v).round();
                let w = self.x.w(n.a);
                if !y.is_finite() || y.abs() > 1e30 {
                    return false;
                }
                self.want(m, n.a, (y as i128) as u128 & mask(w), alt, d)
            }
            Op::FToSI | Op::FToUI => {
                let w = self.x.w(n.a);
                let y = if n.op == Op::FToSI { sx(v, n.w) as f64 } else { v as f64 };
                self.want(m, n.a, tobits(w, y), alt, d)
            }
            _ => false,
        }
    }
    /// Decide a condition on this path.  If both sides are feasible the other side is
    /// queued as a new state positioned at the same instruction (re-executed there).
    fn decide_or_fork(&mut self, st: &mut State, c: E) -> X<bool> {
        let c = self.simp(st, c);
        if let Some(k) = self.x.as_c(c) {
            return Ok(k == 1);
        }
        if let Some(k) = self.by_range(st, c) {
            let f = if k { c } else { self.x.not(c) };
            self.stats.ranged += 1;
            self.learn(st, f);
            return Ok(k);
        }
        self.stats.branches_sym += 1;
        let nc = self.x.not(c);
        if st.unconf {
            match self.branch_query(st, c) {
                Res::Sat(m) => {
                    st.model = Rc::new(m);
                    st.unconf = false;
                }
                Res::Unsat => {
                    self.add_pc(st, nc);
                    return Ok(false);
                }
                Res::Unknown => match self.branch_query(st, nc) {
                    Res::Sat(m) => {
                        st.model = Rc::new(m);
                        st.unconf = false;
                    }
                    Res::Unsat => {
                        self.add_pc(st, c);
                        return Ok(true);
                    }
                    Res::Unknown => {
                        let mut o = st.clone();
                        self.add_pc(&mut o, nc);
                        self.push_work(o);
                        self.add_pc(st, c);
                        return Ok(true);
                    }
                },
            }
        }
        let side = self.eval(st, c) == 1;
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        let r = self.branch_query(st, other);
        match r {
            Res::Unsat => {
                // implied: remember for simplification
                if self.verbose {
                    let bt: Vec<String> = st.frames.iter().rev().take(2).map(|f| short(&f.f.name)).collect();
                    eprintln!("UNSAT {} @ {}", self.x.show(other, 5), bt.join("<"));
                }
                if self.x.has_fp[mine as usize] {
                    // implied, but hard to see: keep it at hand
                    self.add_pc(st, mine);
                } else {
                    self.learn(st, mine);
                }
                return Ok(side);
            }
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = Rc::new(m);
                self.add_pc(&mut o, other);
                self.push_work(o);
            }
            Res::Unknown if self.x.has_fp[other as usize] || st.pc.iter().any(|&p| self.x.has_fp[p as usize]) => {
                let mut o = st.clone();
                o.unconf = true;
                self.add_pc(&mut o, other);
                self.push_work(o);
            }
            Res::Unknown => {
                self.errors.push(format!("solver unknown on branch: {}", self.x.show(c, 4)));
                return Err(Stop::Err("solver timeout on a branch condition".into()));
            }
        }
        self.add_pc(st, mine);
        Ok(side)
    }
    fn push_work(&mut self, o: State) {
        self.stats.forks += 1;
        self.work.push(o);
    }
    /// add an implied fact to the simplifier only
    fn learn(&mut self, st: &mut State, c: E) {
        self.learn_rec(st, c);
        self.subst_ctr += 1;
        st.subst_id = self.subst_ctr;
    }
    fn learn_rec(&mut self, st: &mut State, c: E) {
        let n = self.x.nd(c);
        if n.op == Op::Const {
            return;
        }
        crate::range::note(Rc::make_mut(&mut st.bounds), &self.x, c, true);
        let t = self.x.b(true);
        let f = self.x.b(false);
        if n.op == Op::And && n.w == 1 {
            self.learn_rec(st, n.a);
            self.learn_rec(st, n.b);
        }
        if n.op == Op::Eq {
            if self.x.as_c(n.b).is_some() {
                Rc::make_mut(&mut st.subst).insert(n.a, n.b);
            } else if self.x.as_c(n.a).is_some() {
                Rc::make_mut(&mut st.subst).insert(n.b, n.a);
            }
        }
        if n.op == Op::Xor && n.w == 1 && self.x.as_c(n.b) == Some(1) {
            Rc::make_mut(&mut st.subst).insert(n.a, f);
            let na = self.x.nd(n.a);
            if na.op == Op::Or {
                let (p, q) = (self.x.not(na.a), self.x.not(na.b));
                self.learn_rec(st, p);
                self.learn_rec(st, q);
            }
        } else {
            Rc::make_mut(&mut st.subst).insert(c, t);
        }
    }
    /// find a model of an unconfirmed path, or end it
    fn confirm(&mut self, st: &mut State) -> X<()> {
        let last = match st.pc.iter().rposition(|&p| self.x.has_fp[p as usize]) {
            Some(i) => st.pc[i],
            None => self.x.b(true),
        };
        let pc = st.pc.clone();
        match self.s.check(&mut self.x, &pc, last, &st.model) {
            Res::Sat(m) => {
                st.model = Rc::new(m);
                st.unconf = false;
                Ok(())
            }
            Res::Unsat => Err(Stop::Done("INFEASIBLE".into())),
            Res::Unknown => Err(Stop::Err("no concrete value for an unconfirmed path".into())),
        }
    }
    fn concretize(&mut self, st: &mut State, e: E) -> X<u128> {
        let e = self.simp(st, e);
        if let Some(k) = self.x.as_c(e) {
            return Ok(k);
        }
        if st.unconf {
            self.confirm(st)?;
        }
        let v = self.eval(st, e);
        let w = self.x.w(e);
        let k = self.x.c(w, v);
        let c = self.x.bin(Op::Eq, e, k);
        let r = self.decide_or_fork(st, c)?;
        debug_assert!(r);
        Ok(v)
    }
    // ---- reporting
    fn input_bytes(&mut self, st: &State, model: &[u128]) -> Vec<u8> {
        self.x.new_eval();
        let ins = st.inputs.clone();
        ins.iter().map(|&e| self.x.eval(e, model) as u8).collect()
    }
    fn report(&mut self, st: &State, model: &[u128], kind: &str, label: &str, detail: String) {
        let key = (kind.to_string(), label.to_string());
        let c = self.viol_count.entry(key).or_insert(0);
        *c += 1;
        if *c <= 3 {
            let input = self.input_bytes(st, model);
            let mut bt: Vec<String> = vec![];
            for f in st.frames.iter().rev().take(6) {
                bt.push(f.f.name.clone());
            }
            self.viol.push(Violation { kind: kind.into(), label: label.into(), input, detail: format!("{} in {}", detail, bt.join(" < ")) });
        }
    }
    fn panic_msg(&mut self, st: &mut State, name: &str, args: &[V]) -> String {
        // look for a Location { ptr, len, line, col } argument
        for a in args.iter().rev() {
            if let V::E(e) = a {
                if let Some(k) = self.x.as_c(*e) {
                    if let Ok(b) = self.read_bytes(st, k as u64, 24) {
                        let by: Vec<Option<u128>> = b.iter().map(|&e| self.x.as_c(e)).collect();
                        if by.iter().all(|o| o.is_some()) {
                            let g = |o: usize, n: usize| (0..n).fold(0u64, |s, i| s | (by[o + i].unwrap() as u64) << (8 * i));
                            let (p, l, line, col) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
                            if l > 2 && l < 300 {
                                if let Ok(sb) = self.read_bytes(st, p, l) {
                                    let s: String = sb.iter().filter_map(|&e| self.x.as_c(e)).map(|k| k as u8 as char).collect();
                                    if s.ends_with(".rs") {
                                        return format!("{}:{}:{} ({})", s, line, col, short(name));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        short(name)
    }
    fn read_str(&mut self, st: &mut State, p: E, n: E) -> X<String> {
        let p = self.concretize(st, p)? as u64;
        let n = self.concretize(st, n)? as u64;
        let b = self.read_bytes(st, p, n)?;
        Ok(b.iter().map(|&e| self.x.as_c(e).unwrap_or(63) as u8 as char).collect())
    }

    // ---- run
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let f = self.get_func(entry)?;
        let nl = f.nlocals;
        let st = State {
            frames: vec![Frame { f, blk: 0, ip: 0, regs: vec![V::N; nl], allocas: vec![], dst: None, invoke_to: None }],
            mem: BTreeMap::new(),
            next: 0x7000_0000_0000,
            pc: vec![],
            known: Default::default(),
            subst: Default::default(),
            subst_id: 0,
            bounds: Default::default(),
            model: Rc::new(vec![]),
            inputs: vec![],
            obs: vec![],
            steps: 0,
            uninit: 0,
            expect_panic: false,
            covers: Default::default(),
            unconf: false,
        };
        self.t0 = std::time::Instant::now();
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.stats.paths >= self.lim.max_paths {
                self.incomplete = Some(format!("path limit {} reached", self.lim.max_paths));
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.lim.max_time {
                self.incomplete = Some(format!("time limit {} s reached", self.lim.max_time));
                break;
            }
            let end = loop {
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(e) => break e,
                }
                if st.steps > self.lim.max_steps {
                    break Stop::Done("HANG".into());
                }
                if st.steps & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.lim.max_time {
                    break Stop::Err("TIME".into());
                }
            };
            self.stats.max_path_steps = self.stats.max_path_steps.max(st.steps);
            self.stats.max_pc = self.stats.max_pc.max(st.pc.len() as u64);
            self.stats.max_inputs = self.stats.max_inputs.max(st.inputs.len() as u64);
            match end {
                Stop::Err(e) if e == "TIME" => {
                    self.incomplete = Some(format!("time limit {} s reached", self.lim.max_time));
                    break;
                }
                Stop::Err(e) => {
                    let bt: Vec<String> = st.frames.iter().rev().take(4).map(|f| short(&f.f.name)).collect();
                    let m = format!("{} in {}", e, bt.join(" < "));
                    if !self.errors.contains(&m) {
                        self.errors.push(m);
                    }
                    if self.errors.len() > 20 {
                        self.incomplete = Some("too many engine errors".into());
                        break;
                    }
                }
                Stop::Done(s) => {
                    if s == "INFEASIBLE" {
                        self.stats.infeasible += 1;
                        continue;
                    }
                    if st.unconf {
                        let fine = !st.expect_panic && !s.starts_with("PANIC:") && !s.starts_with("MEM:") && s != "HANG";
                        if fine || (st.expect_panic && s.starts_with("PANIC:")) {
                            self.stats.unconfirmed += 1;
                            continue;
                        }
                        match self.confirm(&mut st) {
                            Ok(()) => {}
                            Err(Stop::Done(_)) => {
                                self.stats.infeasible += 1;
                                continue;
                            }
                            Err(Stop::Err(e)) => {
                                self.errors.push(format!("{} that ends in {}", e, s));
                                continue;
                            }
                        }
                    }
                    let model = st.model.clone();
                    self.stats.paths += 1;
                    let mut status = "ok".to_string();
                    if let Some(p) = s.strip_prefix("PANIC:") {
                        if st.expect_panic {
                            self.stats.panics_expected += 1;
                            status = "panic".into();
                        } else {
                            self.report(&st, &model, "panic", p, "panic".into());
                            continue;
                        }
                    } else if let Some(p) = s.strip_prefix("MEM:") {
                        self.report(&st, &model, "memory", p, "memory error".into());
                        continue;
                    } else if s == "HANG" {
                        self.report(&st, &model, "hang", "step limit", format!("{} steps", st.steps));
                        continue;
                    } else if st.expect_panic {
                        self.report(&st, &model, "no-panic", "expected panic missing", "returned".into());
                        continue;
                    }
                    for c in st.covers.iter() {
                        self.covers.entry(c.clone()).or_insert(1);
                    }
                    // sample paths for native validation (reservoir)
                    self.sample_seen += 1;
                    let keep = if self.samples.len() < self.lim.samples {
                        Some(self.samples.len())
                    } else if self.lim.samples > 0 {
                        let j = (self.rnd() % self.sample_seen) as usize;
                        if j < self.lim.samples {
                            Some(j)
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    if let Some(j) = keep {
                        let input = self.input_bytes(&st, &model);
                        let obs: Vec<u64> = st.obs.clone().iter().map(|&e| self.x.eval(e, &model) as u64).collect();
                        let rec = PathRec { input, obs, status, covers: st.covers.to_vec() };
                        if j == self.samples.len() {
                            self.samples.push(rec)
                        } else {
                            self.samples[j] = rec
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn get_func(&mut self, name: &str) -> Result<Rc<Func>, String> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        let name2 = self.m.aliases.get(name).cloned().unwrap_or(name.to_string());
        let f = Rc::new(self.m.parse_func(&name2)?);
        self.funcs.insert(name.to_string(), f.clone());
        self.funcs_run.insert(name2);
        Ok(f)
    }
    fn val(&mut self, st: &State, o: &Opnd) -> X<V> {
        match o {
            Opnd::Local(i) => Ok(st.frames.last().unwrap().regs[*i as usize].clone()),
            Opnd::K(e) => Ok(V::E(*e)),
            Opnd::C(t, c) => self.cst_val(t, c).map_err(Stop::Err),
        }
    }
    fn sval(&mut self, st: &State, o: &Opnd) -> X<E> {
        if let Opnd::Local(i) = o {
            return match &st.frames.last().unwrap().regs[*i as usize] {
                V::E(e) => Ok(*e),
                v => Err(Stop::Err(format!("scalar expected, got {:?}", v))),
            };
        }
        match self.val(st, o)? {
            V::E(e) => Ok(e),
            v => Err(Stop::Err(format!("scalar expected, got {:?}", v))),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let fr = st.frames.last().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (_, d, inc) in &b.phis {
                let o = &inc.iter().find(|(l, _)| *l == from).ok_or(Stop::Err("phi".into()))?.1;
                vals.push((*d, self.val(st, o)?));
            }
            for (d, v) in vals {
                self.set(st, d, v);
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }
    fn lift1(&mut self, v: V, f: &mut dyn FnMut(&mut Self, E) -> E) -> V {
        match v {
            V::E(e) => V::E(f(self, e)),
            V::A(a) => {
                let r: Vec<V> = a.iter().map(|x| self.lift1(x.clone(), f)).collect();
                V::A(Rc::new(r))
            }
            V::N => V::N,
        }
    }
    fn lift2(&mut self, a: V, b: V, f: &mut dyn FnMut(&mut Self, E, E) -> X<E>) -> X<V> {
        match (a, b) {
            (V::E(x), V::E(y)) => Ok(V::E(f(self, x, y)?)),
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    r.push(self.lift2(p.clone(), q.clone(), f)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            (a, b) => Err(Stop::Err(format!("operands {:?} {:?}", a, b))),
        }
    }
    fn icmp(&mut self, p: &str, a: E, b: E) -> E {
        match p {
            "eq" => self.x.bin(Op::Eq, a, b),
            "ne" => {
                let e = self.x.bin(Op::Eq, a, b);
                self.x.not(e)
            }
            "ult" => self.x.bin(Op::Ult, a, b),
            "ugt" => self.x.bin(Op::Ult, b, a),
            "uge" => {
                let e = self.x.bin(Op::Ult, a, b);
                self.x.not(e)
            }
            "ule" => {
                let e = self.x.bin(Op::Ult, b, a);
                self.x.not(e)
            }
            "slt" => self.x.bin(Op::Slt, a, b),
            "sgt" => self.x.bin(Op::Slt, b, a),
            "sge" => {
                let e = self.x.bin(Op::Slt, a, b);
                self.x.not(e)
            }
            _ => {
                let e = self.x.bin(Op::Slt, b, a);
                self.x.not(e)
            }
        }
    }
    fn fcmp(&mut self, p: &str, a: E, b: E) -> E {
        let x = &mut self.x;
        let ord = |x: &mut Ctx| {
            let na = x.fnan(a);
            let nb = x.fnan(b);
            let u = x.bin(Op::Or, na, nb);
            x.not(u)
        };
        match p {
            "true" => x.b(true),
            "false" => x.b(false),
            "oeq" => x.fbin(Op::FEq, a, b),
            "olt" => x.fbin(Op::FLt, a, b),
            "ole" => x.fbin(Op::FLe, a, b),
            "ogt" => x.fbin(Op::FLt, b, a),
            "oge" => x.fbin(Op::FLe, b, a),
            "une" => {
                let e = x.fbin(Op::FEq, a, b);
                x.not(e)
            }
            "ult" => {
                let e = x.fbin(Op::FLe, b, a);
                x.not(e)
            }
            "ule" => {
                let e = x.fbin(Op::FLt, b, a);
                x.not(e)
            }
            "ugt" => {
                let e = x.fbin(Op::FLe, a, b);
                x.not(e)
            }
            "uge" => {
                let e = x.fbin(Op::FLt, a, b);
                x.not(e)
            }
            "ord" => ord(x),
            "uno" => {
                let o = ord(x);
                x.not(o)
            }
            "one" => {
                let e = x.fbin(Op::FEq, a, b);
                let ne = x.not(e);
                let o = ord(x);
                x.bin(Op::And, ne, o)
            }
            "ueq" => {
                let e = x.fbin(Op::FEq, a, b);
                let o = ord(x);
                let u = x.not(o);
                x.bin(Op::Or, e, u)
            }
            _ => unreachable!(),
        }
    }
    fn binop(&mut self, st: &mut State, op: &str, a: E, b: E) -> X<E> {
        Ok(match op {
            "add" => self.x.bin(Op::Add, a, b),
            "sub" => self.x.bin(Op::Sub, a, b),
            "mul" => self.x.bin(Op::Mul, a, b),
            "udiv" | "urem" | "sdiv" | "srem" => {
                let w = self.x.w(b);
                let z = self.x.c(w, 0);
                let isz = self.x.bin(Op::Eq, b, z);
                if self.decide_or_fork(st, isz)? {
                    return Err(Stop::Done("PANIC:hardware division by zero".into()));
                }
                let o = match op {
                    "udiv" => Op::UDiv,
                    "urem" => Op::URem,
                    "sdiv" => Op::SDiv,
                    _ => Op::SRem,
                };
                let e = self.x.bin(o, a, b);
                self.fixed_quotient(st, e)
            }
            "shl" => self.x.bin(Op::Shl, a, b),
            "lshr" => self.x.bin(Op::LShr, a, b),
            "ashr" => self.x.bin(Op::AShr, a, b),
            "and" => self.x.bin(Op::And, a, b),
            "or" => self.x.bin(Op::Or, a, b),
            "xor" => self.x.bin(Op::Xor, a, b),
            "fadd" => self.x.fbin(Op::FAdd, a, b),
            "fsub" => self.x.fbin(Op::FSub, a, b),
            "fmul" => self.x.fbin(Op::FMul, a, b),
            "fdiv" => self.x.fbin(Op::FDiv, a, b),
            "frem" => self.x.fbin(Op::FRem, a, b),
            _ => return Err(Stop::Err(format!("binop {}", op))),
        })
    }
    fn step(&mut self, st: &mut State) -> X<()> {
        st.steps += 1;
        self.stats.insts += 1;
        let (f, blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk, fr.ip)
        };
        let b = &f.blocks[blk as usize];
        if ip >= b.insts.len() {
            return Err(Stop::Err("fell off block".into()));
        }
        let inst = &b.insts[ip];
        macro_rules! adv {
            () => {
                st.frames.last_mut().unwrap().ip += 1;
            };
        }
        match inst {
            Inst::Bin(op, _, a, b, d) => {
                let (a, b) = (self.val(st, a)?, self.val(st, b)?);
                let v = match (a, b) {
                    (V::E(x), V::E(y)) => V::E(self.binop(st, op, x, y)?),
                    (a, b) => {
                        let op = op.clone();
                        // vector division is not expected
                        let mut tmp = st.clone();
                        self.lift2(a, b, &mut |s, x, y| s.binop(&mut tmp, &op, x, y))?
                    }
                };
                self.set(st, *d, v);
                adv!();
            }
            Inst::ICmp(p, _, a, b, d) => {
                let (a, b) = (self.val(st, a)?, self.val(st, b)?);
                let v = self.lift2(a, b, &mut |s, x, y| Ok(s.icmp(p, x, y)))?;
                self.set(st, *d, v);
                adv!();
            }
            Inst::FCmp(p, _, a, b, d) => {
                let (a, b) = (self.val(st, a)?, self.val(st, b)?);
                let v = self.lift2(a, b, &mut |s, x, y| Ok(s.fcmp(p, x, y)))?;
                self.set(st, *d, v);
                adv!();
            }
            Inst::FNeg(_, a, d) => {
                let a = self.val(st, a)?;
                let v = self.lift1(a, &mut |s, e| {
                    let w = s.x.w(e);
                    let k = s.x.c(w, 1u128 << (w - 1));
                    s.x.bin(Op::Xor, e, k)
                });
                self.set(st, *d, v);
                adv!();
            }
            Inst::Cast(c, t, t2, a, d) => {
                let a = self.val(st, a)?;
                if *c == CastOp::BitCast && (matches!(t, Ty::Vect(..)) || matches!(t2, Ty::Vect(..))) {
                    let v = self.bitcast(a, t, t2)?;
                    self.set(st, *d, v);
                    adv!();
                    return Ok(());
                }
                let w2 = match t2 {
                    Ty::Vect(_, e) => e.bits(),
                    t => t.bits(),
                };
                let c = *c;
                let v = self.lift1(a, &mut |s, e| {
                    let w = s.x.w(e);
                    match c {
                        CastOp::Trunc => s.x.trunc(e, w2),
                        CastOp::ZExt => s.x.zext(e, w2),
                        CastOp::SExt => s.x.sext(e, w2),
                        CastOp::PtrToInt | CastOp::IntToPtr => {
                            if w2 < w {
                                s.x.trunc(e, w2)
                            } else {
                                s.x.zext(e, w2)
                            }
                        }
                        CastOp::BitCast => e,
                        CastOp::FPTrunc => s.x.fun(Op::FTrunc, e, w2, 0),
                        CastOp::FPExt => s.x.fun(Op::FExt, e, w2, 0),
                        CastOp::FPToUI => s.x.fun(Op::FToUI, e, w2, 0),
                        CastOp::FPToSI => s.x.fun(Op::FToSI, e, w2, 0),
                        CastOp::UIToFP => s.x.fun(Op::UIToF, e, w2, 0),
                        CastOp::SIToFP => s.x.fun(Op::SIToF, e, w2, 0),
                    }
                });
                self.set(st, *d, v);
                adv!();
            }
            Inst::Load(t, a, d) => {
                let a = self.sval(st, a)?;
                let v = self.load(st, a, t)?;
                self.set(st, *d, v);
                adv!();
            }
            Inst::Store(t, v, a) => {
                let a = self.sval(st, a)?;
                let v = self.val(st, v)?;
                self.store(st, a, t, &v)?;
                adv!();
            }
            Inst::Gep(base, off, terms, d) => {
                let mut a = self.sval(st, base)?;
                for (o, sc, w) in terms {
                    let mut i = self.sval(st, o)?;
                    if *w < 64 {
                        i = self.x.sext(i, 64);
                    } else if *w > 64 {
                        i = self.x.trunc(i, 64);
                    }
                    let k = self.x.c(64, *sc as u64 as u128);
                    let m = self.x.bin(Op::Mul, i, k);
                    a = self.x.bin(Op::Add, a, m);
                }
                if *off != 0 {
                    let k = self.x.c(64, *off as u64 as u128);
                    a = self.x.bin(Op::Add, a, k);
                }
                self.set(st, *d, V::E(a));
                adv!();
            }
            Inst::Alloca(sz, al, cnt, d) => {
                let n = match cnt {
                    Some(c) => {
                        let c = self.sval(st, c)?;
                        self.concretize(st, c)? as u64
                    }
                    None => 1,
                };
                let a = self.alloc(st, sz * n, *al, 1, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                let e = self.x.c(64, a as u128);
                self.set(st, *d, V::E(e));
                adv!();
            }
            Inst::Call(ci) => {
                let ci = ci.clone();
                return self.call(st, &ci);
            }
            Inst::Select(_, c, a, b, d, vc) => {
                let c = self.val(st, c)?;
                let (a, b) = (self.val(st, a)?, self.val(st, b)?);
                let v = if *vc {
                    match (c, a, b) {
                        (V::A(c), V::A(a), V::A(b)) => {
                            let mut r = vec![];
                            for i in 0..c.len() {
                                r.push(V::E(self.x.ite(c[i].e(), a[i].e(), b[i].e())));
                            }
                            V::A(Rc::new(r))
                        }
                        _ => return Err(Stop::Err("select".into())),
                    }
                } else {
                    let c = self.simp(st, c.e());
                    match self.x.as_c(c) {
                        Some(1) => a,
                        Some(_) => b,
                        None => match self.by_range(st, c) {
                            Some(true) => a,
                            Some(_) => b,
                            None => self.lift2(a, b, &mut |s, x, y| Ok(s.x.ite(c, x, y)))?,
                        },
                    }
                };
                self.set(st, *d, v);
                adv!();
            }
            Inst::ExtractValue(a, ix, d) => {
                let mut v = self.val(st, a)?;
                for i in ix {
                    v = match v {
                        V::A(a) => a[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
                adv!();
            }
            Inst::InsertValue(_, a, _, b, ix, d) => {
                let v = self.val(st, a)?;
                let n = self.val(st, b)?;
                fn ins(v: V, ix: &[u32], n: V) -> V {
                    if ix.is_empty() {
                        return n;
                    }
                    match v {
                        V::A(a) => {
                            let mut r = (*a).clone();
                            let c = r[ix[0] as usize].clone();
                            r[ix[0] as usize] = ins(c, &ix[1..], n);
                            V::A(Rc::new(r))
                        }
                        v => v,
                    }
                }
                let v = ins(v, ix, n);
                self.set(st, *d, v);
                adv!();
            }
            Inst::ExtractElem(a, i, d) => {
                let v = self.val(st, a)?;
                let i = self.sval(st, i)?;
                let i = self.concretize(st, i)? as usize;
                if let V::A(a) = v {
                    self.set(st, *d, a[i].clone());
                }
                adv!();
            }
            Inst::InsertElem(_, a, v, i, d) => {
                let a = self.val(st, a)?;
                let v = self.val(st, v)?;
                let i = self.sval(st, i)?;
                let i = self.concretize(st, i)? as usize;
                if let V::A(a) = a {
                    let mut r = (*a).clone();
                    r[i] = v;
                    self.set(st, *d, V::A(Rc::new(r)));
                }
                adv!();
            }
            Inst::Shuffle(_, a, b, m, d) => {
                let (a, b) = (self.val(st, a)?, self.val(st, b)?);
                if let (V::A(a), V::A(b)) = (a, b) {
                    let n = a.len();
                    let r: Vec<V> = m
                        .iter()
                        .map(|&k| {
                            let k = k.max(0) as usize;
                            if k < n {
                                a[k].clone()
                            } else {
                                b[k - n].clone()
                            }
                        })
                        .collect();
                    self.set(st, *d, V::A(Rc::new(r)));
                }
                adv!();
            }
            Inst::Copy(a, d) => {
                let v = self.val(st, a)?;
                self.set(st, *d, v);
                adv!();
            }
            Inst::Br(l) => self.jump(st, *l)?,
            Inst::CondBr(c, a, b) => {
                let c = self.sval(st, c)?;
                let t = self.decide_or_fork(st, c)?;
                self.jump(st, if t { *a } else { *b })?;
            }
            Inst::Switch(t, c, df, cases) => {
                let c = self.sval(st, c)?;
                let c = self.simp(st, c);
                if let Some(k) = self.x.as_c(c) {
                    let to = cases.iter().find(|(v, _)| *v == k).map(|x| x.1).unwrap_or(*df);
                    self.jump(st, to)?;
                } else {
                    // follow the model's case; the rest is explored by re-execution
                    let w = t.bits();
                    let v = self.eval(st, c);
                    let to = cases.iter().find(|(k, _)| *k == v).map(|x| x.1).unwrap_or(*df);
                    let is_default = !cases.iter().any(|(k, _)| *k == v);
                    // condition of going to this target
                    let mut cond = self.x.b(false);
                    if is_default || to == *df {
                        let mut any = self.x.b(false);
                        for (k, l) in cases {
                            if *l != *df {
                                let kc = self.x.c(w, *k);
                                let e = self.x.bin(Op::Eq, c, kc);
                                any = self.x.bin(Op::Or, any, e);
                            }
                        }
                        cond = self.x.not(any);
                    } else {
                        for (k, l) in cases {
                            if *l == to {
                                let kc = self.x.c(w, *k);
                                let e = self.x.bin(Op::Eq, c, kc);
                                cond = self.x.bin(Op::Or, cond, e);
                            }
                        }
                    }
                    if !self.decide_or_fork(st, cond)? {
                        return Err(Stop::Err("switch model".into()));
                    }
                    self.jump(st, to)?;
                }
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((_, o)) => self.val(st, o)?,
                    None => V::N,
                };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.remove(&a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done("OK".into()));
                }
                if let Some(d) = fr.dst {
                    self.set(st, d, v);
                }
                if let Some(l) = fr.invoke_to {
                    self.jump(st, l)?;
                } else {
                    adv!();
                }
            }
            Inst::Unreachable => return Err(Stop::Done("PANIC:unreachable instruction reached".into())),
            Inst::AtomicRmw(op, t, a, v, d) => {
                let a = self.sval(st, a)?;
                let v = self.sval(st, v)?;
                let old = self.load(st, a, t)?.e();
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.x.bin(Op::Add, old, v),
                    "sub" => self.x.bin(Op::Sub, old, v),
                    "and" => self.x.bin(Op::And, old, v),
                    "or" => self.x.bin(Op::Or, old, v),
                    "xor" => self.x.bin(Op::Xor, old, v),
                    o => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store(st, a, t, &V::E(n))?;
                self.set(st, *d, V::E(old));
                adv!();
            }
            Inst::CmpXchg(t, a, c, n, d) => {
                let a = self.sval(st, a)?;
                let c = self.sval(st, c)?;
                let n = self.sval(st, n)?;
                let old = self.load(st, a, t)?.e();
                let eq = self.x.bin(Op::Eq, old, c);
                let nv = self.x.ite(eq, n, old);
                self.store(st, a, t, &V::E(nv))?;
                self.set(st, *d, V::A(Rc::new(vec![V::E(old), V::E(eq)])));
                adv!();
            }
            Inst::Fence => {
                adv!();
            }
            Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction: {}", s))),
        }
        Ok(())
    }
    fn bitcast(&mut self, v: V, t: &Ty, t2: &Ty) -> X<V> {
        // via one wide integer, element 0 = least significant
        let flat = match v {
            V::E(e) => e,
            V::A(a) => {
                let b: Vec<E> = a.iter().map(|x| x.e()).collect();
                self.join(&b)
            }
            V::N => return Err(Stop::Err("bitcast".into())),
        };
        let _ = t;
        Ok(match t2 {
            Ty::Vect(n, e) => {
                let w = e.bits();
                V::A(Rc::new((0..*n as u16).map(|i| V::E(self.x.extract(flat, i * w, w))).collect()))
            }
            _ => V::E(flat),
        })
    }
    fn ret(&mut self, st: &mut State, ci: &CallInfo, v: V) -> X<()> {
        if let Some(d) = ci.dst {
            self.set(st, d, v);
        }
        if let Some(l) = ci.invoke_to {
            self.jump(st, l)
        } else {
            st.frames.last_mut().unwrap().ip += 1;
            Ok(())
        }
    }
    fn call(&mut self, st: &mut State, ci: &Rc<CallInfo>) -> X<()> {
        let name = match &ci.callee {
            Callee::Direct(n) => n.clone(),
            Callee::Indirect(o) => {
                let e = self.sval(st, o)?;
                let a = self.concretize(st, e)? as u64;
                match self.faddr.get(&a) {
                    Some(n) => n.clone(),
                    None => return Err(Stop::Done(format!("MEM:indirect call to {:#x}", a))),
                }
            }
            Callee::Asm => return self.ret(st, ci, V::N),
        };
        if name.starts_with("llvm.") {
            return self.intrinsic(st, ci, &name);
        }
        let mut args = Vec::with_capacity(ci.args.len());
        for (t, o) in &ci.args {
            args.push(if *t == Ty::Other { V::N } else { self.val(st, o)? });
        }
        if let Some(r) = self.runtime(st, ci, &name, &args)? {
            return self.ret(st, ci, r);
        }
        if st.steps == 0 {
            return Ok(());
        }
        let d = self.m.funcs.get(&name);
        if d.map_or(false, |d| d.noreturn) {
            let m = self.panic_msg(st, &name, &args);
            return Err(Stop::Done(format!("PANIC:{}", m)));
        }
        if st.frames.len() > 200 {
            return Err(Stop::Err("call depth".into()));
        }
        let f = self.get_func(&name).map_err(Stop::Err)?;
        let mut regs = vec![V::N; f.nlocals];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst: ci.dst, invoke_to: ci.invoke_to });
        Ok(())
    }
    fn input_var(&mut self, k: usize) -> E {
        while self.in_vars.len() <= k {
            let n = format!("in{}", self.in_vars.len());
            let v = self.x.var(8, n);
            self.in_vars.push(v);
        }
        self.in_vars[k]
    }
    fn memcpy(&mut self, st: &mut State, d: E, s: E, n: E) -> X<()> {
        let n = self.concretize(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let s = self.concretize(st, s)? as u64;
        let d = self.concretize(st, d)? as u64;
        let v = self.read_raw(st, s, n)?;
        self.write_bytes(st, d, &v)
    }
    fn runtime(&mut self, st: &mut State, _ci: &CallInfo, name: &str, a: &[V]) -> X<Option<V>> {
        match name {
            "sym_bytes" => {
                let n = self.concretize(st, a[1].e())? as u64;
                let p = self.concretize(st, a[0].e())? as u64;
                let k0 = st.inputs.len();
                let v: Vec<E> = (0..n as usize).map(|i| self.input_var(k0 + i)).collect();
                self.write_bytes(st, p, &v)?;
                st.inputs.extend(v);
                Ok(Some(V::N))
            }
            "sym_choice" => {
                let n = self.concretize(st, a[0].e())? as u64;
                if n == 0 {
                    return Err(Stop::Done("INFEASIBLE".into()));
                }
                // the choice is fully concrete: queue every alternative
                let k0 = st.inputs.len();
                let is_top = self.top_fork == 0;
                self.top_fork = 1;
                let mut lo = 0u64;
                let mut keep: Option<u64> = None;
                while lo < n {
                    if !is_top || self.lim.split <= 1 || (lo % self.lim.split as u64) as u32 == self.lim.part {
                        if keep.is_none() {
                            keep = Some(lo);
                        } else {
                            let mut o = st.clone();
                            self.finish_choice(&mut o, lo, k0, _ci)?;
                            self.push_work(o);
                        }
                    }
                    lo += 1;
                }
                match keep {
                    Some(v) => {
                        for i in 0..4 {
                            let e = self.x.c(8, ((v >> (8 * i)) & 255) as u128);
                            st.inputs.push(e);
                        }
                        let e = self.x.c(32, v as u128);
                        Ok(Some(V::E(e)))
                    }
                    None => Err(Stop::Done("INFEASIBLE".into())),
                }
            }
            "sym_assume" => {
                let c = a[0].e();
                let c = self.simp(st, c);
                match self.x.as_c(c) {
                    Some(1) => return Ok(Some(V::N)),
                    Some(_) => return Err(Stop::Done("INFEASIBLE".into())),
                    None => {}
                }
                if st.unconf || self.eval(st, c) != 1 {
                    match self.s.check(&mut self.x, &st.pc, c, &st.model) {
                        Res::Sat(m) => {
                            st.model = Rc::new(m);
                            st.unconf = false;
                        }
                        Res::Unsat => return Err(Stop::Done("INFEASIBLE".into())),
                        Res::Unknown if st.unconf => {}
                        Res::Unknown => return Err(Stop::Err("solver timeout on assume".into())),
                    }
                }
                self.add_pc(st, c);
                Ok(Some(V::N))
            }
            "sym_assert" => {
                let label = self.read_str(st, a[1].e(), a[2].e())?;
                self.do_assert(st, a[0].e(), &label)?;
                Ok(Some(V::N))
            }
            "sym_cover" => {
                let label = self.read_str(st, a[0].e(), a[1].e())?;
                // on an unconfirmed path it counts only once the path has a model (at its end)
                if !st.unconf {
                    *self.covers.entry(label.clone()).or_insert(0) += 1;
                }
                if !st.covers.contains(&label) {
                    Rc::make_mut(&mut st.covers).push(label);
                }
                Ok(Some(V::N))
            }
            "sym_obs" => {
                st.obs.push(a[0].e());
                Ok(Some(V::N))
            }
            "sym_concretize" => {
                let v = self.concretize(st, a[0].e())?;
                let e = self.x.c(64, v);
                Ok(Some(V::E(e)))
            }
            "sym_is_symbolic" => {
                let e = self.x.b(true);
                Ok(Some(V::E(e)))
            }
            "sym_expect_panic" => {
                let c = self.concretize(st, a[0].e())?;
                st.expect_panic = c == 1;
                Ok(Some(V::N))
            }
            "memcpy" | "memmove" => {
                self.memcpy(st, a[0].e(), a[1].e(), a[2].e())?;
                Ok(Some(a[0].clone()))
            }
            "memset" => {
                let n = self.concretize(st, a[2].e())? as u64;
                let p = self.concretize(st, a[0].e())? as u64;
                let b = self.x.trunc(a[1].e(), 8);
                self.write_bytes(st, p, &vec![b; n as usize])?;
                Ok(Some(a[0].clone()))
            }
            "bcmp" | "memcmp" => {
                let n = self.concretize(st, a[2].e())? as u64;
                if n == 0 {
                    let e = self.x.c(32, 0);
                    return Ok(Some(V::E(e)));
                }
                let p = self.concretize(st, a[0].e())? as u64;
                let q = self.concretize(st, a[1].e())? as u64;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                let mut r = self.x.c(32, 0);
                for i in (0..n as usize).rev() {
                    let eq = self.x.bin(Op::Eq, x[i], y[i]);
                    let lt = self.x.bin(Op::Ult, x[i], y[i]);
                    let m1 = self.x.c(32, u32::MAX as u128);
                    let p1 = self.x.c(32, 1);
                    let d = if name == "bcmp" { p1 } else { self.x.ite(lt, m1, p1) };
                    r = self.x.ite(eq, r, d);
                }
                Ok(Some(V::E(r)))
            }
            "malloc" => {
                let n = self.concretize(st, a[0].e())? as u64;
                let p = self.alloc(st, n, 16, 2, false);
                let e = self.x.c(64, p as u128);
                Ok(Some(V::E(e)))
            }
            "calloc" => {
                let n = self.concretize(st, a[0].e())? as u64 * self.concretize(st, a[1].e())? as u64;
                let p = self.alloc(st, n, 16, 2, true);
                let e = self.x.c(64, p as u128);
                Ok(Some(V::E(e)))
            }
            "free" => {
                let p = self.concretize(st, a[0].e())? as u64;
                self.free(st, p)?;
                Ok(Some(V::N))
            }
            "realloc" => {
                let p = self.concretize(st, a[0].e())? as u64;
                let n = self.concretize(st, a[1].e())? as u64;
                let q = self.realloc(st, p, n, 16)?;
                Ok(Some(V::E(q)))
            }
            // one thread; destructors of its locals never run; hash keys are fixed
            "pthread_key_create" => {
                let p = self.concretize(st, a[0].e())? as u64;
                let v: Vec<E> = [1u128, 0, 0, 0].iter().map(|&b| self.x.c(8, b)).collect();
                self.write_bytes(st, p, &v)?;
                let e = self.x.c(32, 0);
                Ok(Some(V::E(e)))
            }
            "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" => {
                let e = self.x.c(32, 0);
                Ok(Some(V::E(e)))
            }
            "gettid" => {
                let e = self.x.c(32, 1);
                Ok(Some(V::E(e)))
            }
            "getrandom" => {
                let p = self.concretize(st, a[0].e())? as u64;
                let n = self.concretize(st, a[1].e())? as u64;
                let b = self.x.c(8, 0x5a);
                self.write_bytes(st, p, &vec![b; n as usize])?;
                let e = self.x.c(64, n as u128);
                Ok(Some(V::E(e)))
            }
            _ => {
                if name.contains("___rust_no_alloc_shim") {
                    return Ok(Some(V::N));
                }
                let tail = |s: &str| name.ends_with(s);
                if name.contains("__rustc") || name.starts_with("__r") {
                    if tail("__rust_alloc") || tail("__rdl_alloc") || tail("__rust_alloc_zeroed") || tail("__rdl_alloc_zeroed") {
                        let n = self.concretize(st, a[0].e())? as u64;
                        let al = self.concretize(st, a[1].e())? as u64;
                        if n > 1 << 24 {
                            return Err(Stop::Err(format!("allocation of {} bytes", n)));
                        }
                        let p = self.alloc(st, n, al, 2, name.contains("zeroed"));
                        let e = self.x.c(64, p as u128);
                        return Ok(Some(V::E(e)));
                    }
                    if tail("__rust_dealloc") || tail("__rdl_dealloc") {
                        let p = self.concretize(st, a[0].e())? as u64;
                        self.free(st, p)?;
                        return Ok(Some(V::N));
                    }
                    if tail("__rust_realloc") || tail("__rdl_realloc") {
                        let p = self.concretize(st, a[0].e())? as u64;
                        let al = self.concretize(st, a[2].e())? as u64;
                        let n = self.concretize(st, a[3].e())? as u64;
                        if n > 1 << 24 {
                            return Err(Stop::Err(format!("reallocation to {} bytes", n)));
                        }
                        let q = self.realloc(st, p, n, al)?;
                        return Ok(Some(V::E(q)));
                    }
                }
                Ok(None)
            }
        }
    }
    fn finish_choice(&mut self, o: &mut State, v: u64, k0: usize, ci: &CallInfo) -> X<()> {
        debug_assert_eq!(k0, o.inputs.len());
        for i in 0..4 {
            let e = self.x.c(8, ((v >> (8 * i)) & 255) as u128);
            o.inputs.push(e);
        }
        let e = self.x.c(32, v as u128);
        self.ret(o, ci, V::E(e))
    }
    fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        match st.mem.get(&p) {
            Some(o) if o.kind == 2 => {
                st.mem.remove(&p);
                Ok(())
            }
            _ => Err(Stop::Done("MEM:invalid free".into())),
        }
    }
    fn realloc(&mut self, st: &mut State, p: u64, n: u64, al: u64) -> X<E> {
        let old = match st.mem.get(&p) {
            Some(o) if o.kind == 2 => o.clone(),
            _ => return Err(Stop::Done("MEM:invalid realloc".into())),
        };
        let q = self.alloc(st, n, al, 2, false);
        let m = old.size.min(n) as usize;
        let v = old.data[..m].to_vec();
        self.write_bytes(st, q, &v)?;
        st.mem.remove(&p);
        Ok(self.x.c(64, q as u128))
    }
    fn do_assert(&mut self, st: &mut State, c: E, label: &str) -> X<()> {
        let c0 = c;
        let c = self.simp(st, c);
        let ent = self.assert_labels.entry(label.to_string()).or_insert((0, 0));
        ent.0 += 1;
        if self.x.as_c(c) == Some(1) {
            self.stats.asserts_const += 1;
            return Ok(());
        }
        if self.by_range(st, c) == Some(true) {
            self.stats.ranged += 1;
            self.learn(st, c);
            return Ok(());
        }
        self.assert_labels.get_mut(label).unwrap().1 += 1;
        let _ = c0;
        self.stats.asserts_solver += 1;
        let nc = self.x.not(c);
        let r = if !st.unconf && self.eval(st, nc) == 1 { Res::Sat((*st.model).clone()) } else { self.query(st, nc) };
        match r {
            Res::Unsat => {
                self.learn(st, c);
                Ok(())
            }
            Res::Sat(m) => {
                self.report(st, &m, "assert", label, "assertion fails".into());
                // continue with the assertion assumed, if possible
                if self.x.as_c(c) == Some(0) {
                    return Err(Stop::Done("INFEASIBLE".into()));
                }
                match self.s.check(&mut self.x, &st.pc, c, &st.model) {
                    Res::Sat(m) => {
                        st.model = Rc::new(m);
                        st.unconf = false;
                        self.add_pc(st, c);
                        Ok(())
                    }
                    _ => Err(Stop::Done("INFEASIBLE".into())),
                }
            }
            Res::Unknown => {
                if std::env::var("IRSYM_SHOW").is_ok() {
                    eprintln!("UNKNOWN {} {}", label, self.x.show(c, 40));
                }
                self.errors.push(format!("solver unknown on assertion {}", label));
                Ok(())
            }
        }
    }
    fn intrinsic(&mut self, st: &mut State, ci: &Rc<CallInfo>, name: &str) -> X<()> {
        let parts: Vec<&str> = name.split('.').collect();
        let base = parts[1];
        macro_rules! arg {
            ($i:expr) => {{
                let o = ci.args[$i].1.clone();
                self.val(st, &o)?
            }};
        }
        let r = match base {
            "lifetime" | "dbg" | "experimental" | "assume" | "prefetch" | "donothing" | "invariant" | "sideeffect" | "pseudoprobe" => V::N,
            "memcpy" | "memmove" => {
                let (d, s, n) = (arg!(0).e(), arg!(1).e(), arg!(2).e());
                self.memcpy(st, d, s, n)?;
                V::N
            }
            "memset" => {
                let (d, b, n) = (arg!(0).e(), arg!(1).e(), arg!(2).e());
                let n = self.concretize(st, n)? as u64;
                let d = self.concretize(st, d)? as u64;
                self.write_bytes(st, d, &vec![b; n as usize])?;
                V::N
            }
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Done("PANIC:trap".into())),
            "expect" | "launder" | "strip" | "ssa" | "annotation" => arg!(0),
            "threadlocal" => arg!(0),
            "is" if parts[2] == "constant" => V::E(self.x.b(false)),
            "is" if parts[2] == "fpclass" => {
                let e = arg!(0).e();
                let m1 = arg!(1).e();
                let m = match self.x.as_c(m1) {
                    Some(m) => m,
                    None => return Err(Stop::Err("fpclass".into())),
                };
                let w = self.x.w(e);
                let (mb, eb) = if w == 64 { (52u16, 11u16) } else { (23, 8) };
                let man = self.x.extract(e, 0, mb);
                let ex = self.x.extract(e, mb, eb);
                let sign = self.x.extract(e, w - 1, 1);
                let zm = self.x.c(mb, 0);
                let manz = self.x.bin(Op::Eq, man, zm);
                let manh = self.x.extract(e, mb - 1, 1);
                let onesk = self.x.c(eb, mask(eb));
                let zk = self.x.c(eb, 0);
                let exones = self.x.bin(Op::Eq, ex, onesk);
                let exz = self.x.bin(Op::Eq, ex, zk);
                let nmanz = self.x.not(manz);
                let nan = self.x.bin(Op::And, exones, nmanz);
                let nmh = self.x.not(manh);
                let qnan = self.x.bin(Op::And, nan, manh);
                let snan = self.x.bin(Op::And, nan, nmh);
                let inf = self.x.bin(Op::And, exones, manz);
                let zero = self.x.bin(Op::And, exz, manz);
                let sub = self.x.bin(Op::And, exz, nmanz);
                let a = self.x.not(exones);
                let b = self.x.not(exz);
                let norm = self.x.bin(Op::And, a, b);
                let ns = self.x.not(sign);
                let cls: [(E, u32, u32); 4] = [(inf, 2, 9), (norm, 3, 8), (sub, 4, 7), (zero, 5, 6)];
                let mut acc = self.x.b(false);
                if m & 1 != 0 {
                    acc = self.x.bin(Op::Or, acc, snan);
                }
                if m & 2 != 0 {
                    acc = self.x.bin(Op::Or, acc, qnan);
                }
                for (c, nb, pb) in cls {
                    if m >> nb & 1 != 0 {
                        let t = self.x.bin(Op::And, c, sign);
                        acc = self.x.bin(Op::Or, acc, t);
                    }
                    if m >> pb & 1 != 0 {
                        let t = self.x.bin(Op::And, c, ns);
                        acc = self.x.bin(Op::Or, acc, t);
                    }
                }
                V::E(acc)
            }
            "umin" | "umax" | "smin" | "smax" => {
                let (a, b) = (arg!(0), arg!(1));
                let base = base.to_string();
                self.lift2(a, b, &mut |s, x, y| {
                    let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                    let c = s.x.bin(op, x, y);
                    Ok(if base.ends_with("min") { s.x.ite(c, x, y) } else { s.x.ite(c, y, x) })
                })?
            }
            "abs" => {
                let a = arg!(0);
                self.lift1(a, &mut |s, e| {
                    let w = s.x.w(e);
                    let z = s.x.c(w, 0);
                    let n = s.x.bin(Op::Sub, z, e);
                    let c = s.x.bin(Op::Slt, e, z);
                    s.x.ite(c, n, e)
                })
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let (a, b) = (arg!(0).e(), arg!(1).e());
                let w = self.x.w(a);
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.x.bin(op, a, b);
                let mut safe = false;
                if w <= 64 && !(self.x.as_c(a).is_some() && self.x.as_c(b).is_some()) {
                    let (p, q) = (self.range(st, a, signed), self.range(st, b, signed));
                    let v = match op {
                        Op::Add => [p.0 + q.0, p.1 + q.1, 0, 0],
                        Op::Sub => [p.0 - q.1, p.1 - q.0, 0, 0],
                        _ => [p.0.saturating_mul(q.0), p.0.saturating_mul(q.1), p.1.saturating_mul(q.0), p.1.saturating_mul(q.1)],
                    };
                    let f = crate::range::full(w, signed);
                    safe = v.iter().all(|x| *x >= f.0 && *x <= f.1);
                }
                let ov = match (signed, op) {
                    _ if safe => {
                        self.stats.ranged += 1;
                        self.x.b(false)
                    }
                    (false, Op::Add) => self.x.bin(Op::Ult, r, a),
                    (false, Op::Sub) => self.x.bin(Op::Ult, a, b),
                    (true, Op::Add) | (true, Op::Sub) => {
                        let w2 = w + 1;
                        if w2 > 128 {
                            return Err(Stop::Err("wide overflow".into()));
                        }
                        let (x, y) = (self.x.sext(a, w2), self.x.sext(b, w2));
                        let t = self.x.bin(op, x, y);
                        let u = self.x.sext(r, w2);
                        let e = self.x.bin(Op::Eq, t, u);
                        self.x.not(e)
                    }
                    (sg, _) => {
                        let w2 = w * 2;
                        if w2 > 128 {
                            return Err(Stop::Err("wide overflow".into()));
                        }
                        let (x, y) = if sg { (self.x.sext(a, w2), self.x.sext(b, w2)) } else { (self.x.zext(a, w2), self.x.zext(b, w2)) };
                        let t = self.x.bin(Op::Mul, x, y);
                        let u = if sg { self.x.sext(r, w2) } else { self.x.zext(r, w2) };
                        let e = self.x.bin(Op::Eq, t, u);
                        self.x.not(e)
                    }
                };
                if parts[2] == "sat" {
                    let sat = match (signed, op) {
                        (false, Op::Add) => self.x.c(w, mask(w)),
                        (false, _) => self.x.c(w, 0),
                        (true, _) => {
                            let mn = self.x.c(w, 1u128 << (w - 1));
                            let mx = self.x.c(w, mask(w) >> 1);
                            let z = self.x.c(w, 0);
                            let neg = self.x.bin(Op::Slt, a, z);
                            self.x.ite(neg, mn, mx)
                        }
                    };
                    V::E(self.x.ite(ov, sat, r))
                } else {
                    V::A(Rc::new(vec![V::E(r), V::E(ov)]))
                }
            }
            "fshl" | "fshr" => {
                let (a, b, c) = (arg!(0).e(), arg!(1).e(), arg!(2).e());
                let w = self.x.w(a);
                let wk = self.x.c(w, w as u128);
                let sh = self.x.bin(Op::URem, c, wk);
                let inv = self.x.bin(Op::Sub, wk, sh);
                let (l, r) = if base == "fshl" {
                    (self.x.bin(Op::Shl, a, sh), self.x.bin(Op::LShr, b, inv))
                } else {
                    (self.x.bin(Op::Shl, a, inv), self.x.bin(Op::LShr, b, sh))
                };
                V::E(self.x.bin(Op::Or, l, r))
            }
            "bswap" => {
                let a = arg!(0).e();
                let w = self.x.w(a);
                let bytes: Vec<E> = (0..w / 8).rev().map(|i| self.x.extract(a, i * 8, 8)).collect();
                V::E(self.join(&bytes))
            }
            "bitreverse" => {
                let a = arg!(0).e();
                let w = self.x.w(a);
                let bits: Vec<E> = (0..w).rev().map(|i| self.x.extract(a, i, 1)).collect();
                V::E(self.join(&bits))
            }
            "ctpop" => {
                let a = arg!(0).e();
                let w = self.x.w(a);
                let mut acc = self.x.c(w, 0);
                for i in 0..w {
                    let b = self.x.extract(a, i, 1);
                    let b = self.x.zext(b, w);
                    acc = self.x.bin(Op::Add, acc, b);
                }
                V::E(acc)
            }
            "ctlz" | "cttz" => {
                let a = arg!(0).e();
                let w = self.x.w(a);
                let mut acc = self.x.c(w, w as u128);
                for j in 0..w {
                    let i = if base == "ctlz" { j } else { w - 1 - j };
                    let b = self.x.extract(a, i, 1);
                    let k = if base == "ctlz" { w - 1 - i } else { i };
                    let kc = self.x.c(w, k as u128);
                    acc = self.x.ite(b, kc, acc);
                }
                V::E(acc)
            }
            "ucmp" | "scmp" => {
                let (a, b) = (arg!(0).e(), arg!(1).e());
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let w = ci.ret.bits();
                let lt = self.x.bin(op, a, b);
                let gt = self.x.bin(op, b, a);
                let (m1, z, p1) = (self.x.c(w, mask(w)), self.x.c(w, 0), self.x.c(w, 1));
                let t = self.x.ite(gt, p1, z);
                V::E(self.x.ite(lt, m1, t))
            }
            "load" => {
                // llvm.load.relative
                let (p, o) = (arg!(0).e(), arg!(1).e());
                let o = self.x.sext(o, 64);
                let a = self.x.bin(Op::Add, p, o);
                let v = self.load_scalar(st, a, 32)?;
                let v = self.x.sext(v, 64);
                V::E(self.x.bin(Op::Add, p, v))
            }
            "fabs" => {
                let a = arg!(0).e();
                let w = self.x.w(a);
                let m = self.x.c(w, mask(w) >> 1);
                V::E(self.x.bin(Op::And, a, m))
            }
            "copysign" => {
                let (a, b) = (arg!(0).e(), arg!(1).e());
                let w = self.x.w(a);
                let h = self.x.extract(b, w - 1, 1);
                let l = self.x.extract(a, 0, w - 1);
                V::E(self.x.concat(h, l))
            }
            "round" | "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "roundeven" => {
                let a = arg!(0).e();
                let k = match base {
                    "round" => 0,
                    "floor" => 1,
                    "ceil" => 2,
                    "trunc" => 3,
                    _ => 4,
                };
                let w = self.x.w(a);
                V::E(self.x.fun(Op::FRound, a, w, k))
            }
            "sqrt" => {
                let a = arg!(0).e();
                let w = self.x.w(a);
                V::E(self.x.fun(Op::FSqrt, a, w, 0))
            }
            "fptosi" => {
                let a = arg!(0).e();
                V::E(self.x.fun(Op::FToSI, a, ci.ret.bits(), 0))
            }
            "fptoui" => {
                let a = arg!(0).e();
                V::E(self.x.fun(Op::FToUI, a, ci.ret.bits(), 0))
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let (a, b) = (arg!(0).e(), arg!(1).e());
                let c = self.x.fbin(Op::FLt, a, b);
                let r = if base.starts_with("min") { self.x.ite(c, a, b) } else { self.x.ite(c, b, a) };
                let na = self.x.fnan(a);
                let nb = self.x.fnan(b);
                let r = self.x.ite(nb, a, r);
                V::E(self.x.ite(na, b, r))
            }
            "fmuladd" => {
                let (a, b, c) = (arg!(0).e(), arg!(1).e(), arg!(2).e());
                let m = self.x.fbin(Op::FMul, a, b);
                V::E(self.x.fbin(Op::FAdd, m, c))
            }
            "vector" if parts[2] == "reduce" => {
                let a = arg!(0);
                let v: Vec<E> = match a {
                    V::A(a) => a.iter().map(|x| x.e()).collect(),
                    _ => return Err(Stop::Err("reduce".into())),
                };
                let op = match parts[3] {
                    "add" => Op::Add,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "mul" => Op::Mul,
                    o => return Err(Stop::Err(format!("reduce {}", o))),
                };
                let mut acc = v[0];
                for &e in &v[1..] {
                    acc = self.x.bin(op, acc, e);
                }
                V::E(acc)
            }
            "objectsize" => {
                let w = ci.ret.bits();
                V::E(self.x.c(w, mask(w)))
            }
            "ptrmask" => {
                let (a, b) = (arg!(0).e(), arg!(1).e());
                V::E(self.x.bin(Op::And, a, b))
            }
            "x86" => V::N,
            _ => return Err(Stop::Err(format!("intrinsic {}", name))),
        };
        self.ret(st, ci, r)
    }
}

pub fn short(n: &str) -> String {
    n.to_string()
}
