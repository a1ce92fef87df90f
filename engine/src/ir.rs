//! Reader for LLVM textual IR (opaque pointers), lazily parsing function bodies.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vect(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vect(n, t) if matches!(**t, Ty::Int(w) if w % 8 != 0) => ((n * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Vect(n, t) => (n * t.size()).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vect(n, t) => match **t {
                Ty::Int(w) if w < 8 => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vect(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vect(_, t) => (**t).clone(),
            _ => panic!("elem of scalar"),
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),
    L(String),
    G(String),
    S(Vec<u8>),
    P(char),
    Dots,
    M,
    A(u32),
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::new();
    fn ident(b: &[u8], mut i: usize) -> (String, usize) {
        if i < b.len() && b[i] == b'"' {
            let (s, j) = string(b, i);
            return (String::from_utf8_lossy(&s).into_owned(), j);
        }
        let st = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'.' | b'_' | b'$' | b'-')) {
            i += 1;
        }
        (String::from_utf8_lossy(&b[st..i]).into_owned(), i)
    }
    fn string(b: &[u8], i: usize) -> (Vec<u8>, usize) {
        let mut j = i + 1;
        let mut out = vec![];
        while j < b.len() && b[j] != b'"' {
            if b[j] == b'\\' {
                if b[j + 1] == b'\\' {
                    out.push(b'\\');
                    j += 2;
                } else {
                    let h = std::str::from_utf8(&b[j + 1..j + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    j += 3;
                }
            } else {
                out.push(b[j]);
                j += 1;
            }
        }
        (out, j + 1)
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' => {
                let (s, j) = ident(b, i + 1);
                v.push(Tok::L(s));
                i = j;
            }
            b'@' => {
                let (s, j) = ident(b, i + 1);
                v.push(Tok::G(s));
                i = j;
            }
            b'"' => {
                let (s, j) = string(b, i);
                v.push(Tok::S(s));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (s, j) = string(b, i + 1);
                v.push(Tok::W("c".into()));
                v.push(Tok::S(s));
                i = j;
            }
            b'#' => {
                let (s, j) = ident(b, i + 1);
                v.push(Tok::A(s.parse().unwrap_or(u32::MAX)));
                i = j;
            }
            b'!' => {
                let (_, j) = ident(b, i + 1);
                v.push(Tok::M);
                i = j.max(i + 1);
            }
            b'.' if b[i..].starts_with(b"...") => {
                v.push(Tok::Dots);
                i += 3;
            }
            _ if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-' | b'+' | b'.' | b'$') => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'-' | b'+' | b'$')) {
                    i += 1;
                }
                v.push(Tok::W(String::from_utf8_lossy(&b[st..i]).into_owned()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

/// constant initialiser / constant operand tree
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),          // scalar bits (int, float, null, undef)
    Global(String, i64),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Zero,
    Trunc(Box<Cst>, u16),
    Sub(Box<Cst>, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Local(u32),
    C(Ty, Rc<Cst>),
    /// resolved scalar constant (expression id)
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FPTrunc,
    FPExt,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
}

#[derive(Clone, Debug)]
pub struct CallInfo {
    pub callee: Callee,
    pub args: Vec<(Ty, Opnd)>,
    pub ret: Ty,
    pub dst: Option<u32>,
    pub invoke_to: Option<u32>,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(String, Ty, Opnd, Opnd, u32),
    ICmp(String, Ty, Opnd, Opnd, u32),
    FCmp(String, Ty, Opnd, Opnd, u32),
    FNeg(Ty, Opnd, u32),
    Cast(CastOp, Ty, Ty, Opnd, u32),
    Load(Ty, Opnd, u32),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, i64, u16)>, u32),
    Alloca(u64, u64, Option<Opnd>, u32),
    Call(Rc<CallInfo>),
    Select(Ty, Opnd, Opnd, Opnd, u32, bool),
    ExtractValue(Opnd, Vec<u32>, u32),
    InsertValue(Ty, Opnd, Ty, Opnd, Vec<u32>, u32),
    ExtractElem(Opnd, Opnd, u32),
    InsertElem(Ty, Opnd, Opnd, Opnd, u32),
    Shuffle(Ty, Opnd, Opnd, Vec<i64>, u32),
    Copy(Opnd, u32),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    AtomicRmw(String, Ty, Opnd, Opnd, u32),
    CmpXchg(Ty, Opnd, Opnd, Opnd, u32),
    Fence,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(Ty, u32, Vec<(u32, Opnd)>)>, // (pred block, value)
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nlocals: usize,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub noreturn: bool,
    pub body: Option<(usize, usize)>, // line range
    pub header: usize,
}
pub struct GlobalDecl {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub line: usize,
    pub align: u64,
    pub toks: Option<(Vec<Tok>, usize)>, // tokens and position of the initialiser
}

pub struct Module {
    pub lines: Vec<String>,
    pub funcs: HashMap<String, FuncDecl>,
    pub globals: Vec<GlobalDecl>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
    pub noreturn_attrs: std::collections::HashSet<u32>,
}

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    pub types: &'a HashMap<String, Ty>,
}
pub type R<T> = Result<T, String>;

fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "double" | "float" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "bfloat" | "x86_amx" | "opaque")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

pub fn parse_float_bits(s: &str, w: u16) -> Option<u128> {
    if let Some(h) = s.strip_prefix("0x") {
        let h = h.trim_start_matches(|c| c == 'H' || c == 'K');
        let d = u64::from_str_radix(h, 16).ok()?;
        return Some(if w == 32 { (f64::from_bits(d) as f32).to_bits() as u128 } else { d as u128 });
    }
    if let Some(h) = s.strip_prefix("f0x") {
        return Some(u64::from_str_radix(h, 16).ok()? as u128);
    }
    let v = match s {
        "inf" | "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "nan" | "+nan" | "qnan" | "+qnan" => f64::NAN,
        "-nan" | "-qnan" => -f64::NAN,
        _ => s.parse::<f64>().ok()?,
    };
    if w == 32 {
        // decimal literals of float type are exactly representable
        Some((v as f32).to_bits() as u128)
    } else {
        Some(v.to_bits() as u128)
    }
}

impl<'a> P<'a> {
    pub fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> R<&'a Tok> {
        let t = self.t.get(self.i).ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    pub fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, got {:?}", c, self.peek()))
        }
    }
    pub fn word(&self) -> Option<&'a str> {
        match self.peek() {
            Some(Tok::W(w)) => Some(w),
            _ => None,
        }
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        while let Some(t) = self.peek() {
            self.i += 1;
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => is_ty_word(w),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::L(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    /// skip attribute-like tokens until a type starts
    pub fn skip_to_type(&mut self) -> R<()> {
        loop {
            if self.at_type() {
                return Ok(());
            }
            match self.next()? {
                Tok::W(w) => {
                    if w == "align" || w == "cc" {
                        if matches!(self.peek(), Some(Tok::W(_))) {
                            self.i += 1;
                        }
                    }
                    if self.is_p('(') {
                        self.skip_balanced();
                    }
                }
                Tok::S(_) => {
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Tok::A(_) => {}
                t => return Err(format!("skip_to_type: {:?}", t)),
            }
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_balanced();
                    }
                    Ty::Ptr
                }
                "double" => Ty::F64,
                "float" => Ty::F32,
                w if is_ty_word(w) => {
                    if w.starts_with('i') && w.len() > 1 {
                        Ty::Int(w[1..].parse::<u16>().map_err(|e| e.to_string())?)
                    } else {
                        Ty::Other
                    }
                }
                w => return Err(format!("type word {}", w)),
            },
            Tok::P('[') => {
                let n: u64 = self.num()? as u64;
                self.i += 1; // x
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let f = self.ty_list('}')?;
                    self.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u64 = self.num()? as u64;
                    self.i += 1;
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vect(n, Rc::new(t))
                }
            }
            Tok::P('{') => Ty::Struct(Rc::new(self.ty_list('}')?), false),
            Tok::L(n) => self.types.get(n).cloned().ok_or(format!("unknown type %{}", n))?,
            t => return Err(format!("type {:?}", t)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat(end) {
                return Ok(f);
            }
            self.expect(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::W(w) => w.parse::<i128>().map_err(|e| format!("{} {}", w, e)),
            t => Err(format!("number {:?}", t)),
        }
    }
    /// constant of type ty
    pub fn cst(&mut self, ty: &Ty) -> R<Cst> {
        match self.next()? {
            Tok::G(g) => Ok(Cst::Global(g.clone(), 0)),
            Tok::P('<') if self.is_p('{') => {
                self.i += 1;
                let v = self.cst_list('}')?;
                self.expect('>')?;
                Ok(Cst::Agg(v))
            }
            Tok::P('<') => Ok(Cst::Agg(self.cst_list('>')?)),
            Tok::P('{') => Ok(Cst::Agg(self.cst_list('}')?)),
            Tok::P('[') => Ok(Cst::Agg(self.cst_list(']')?)),
            Tok::W(w) => match w.as_str() {
                "c" => match self.next()? {
                    Tok::S(s) => Ok(Cst::Bytes(s.clone())),
                    t => Err(format!("c string {:?}", t)),
                },
                "zeroinitializer" | "null" | "undef" | "poison" | "none" => Ok(Cst::Zero),
                "true" => Ok(Cst::Int(1)),
                "false" => Ok(Cst::Int(0)),
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.expect(')')?;
                    let n = match ty {
                        Ty::Vect(n, _) | Ty::Arr(n, _) => *n,
                        _ => return Err("splat".into()),
                    };
                    Ok(Cst::Agg((0..n).map(|_| (t.clone(), c.clone())).collect()))
                }
                "getelementptr" => {
                    while matches!(self.word(), Some("inbounds") | Some("nuw") | Some("nusw") | Some("inrange")) {
                        self.i += 1;
                        if self.is_p('(') && self.t.get(self.i - 1) == Some(&Tok::W("inrange".into())) {
                            self.skip_balanced();
                        }
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    self.expect(',')?;
                    let pt = self.ty()?;
                    let base = self.cst(&pt)?;
                    let mut off = 0i64;
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty()?;
                        let k = match self.cst(&it)? {
                            Cst::Int(k) => crate::expr::sx(k, it.bits()) as i64,
                            Cst::Zero => 0,
                            _ => return Err("gep const index".into()),
                        };
                        if first {
                            off += k * t.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(k as usize) as i64;
                            cur = cur.elem(k as usize);
                        }
                    }
                    self.expect(')')?;
                    match base {
                        Cst::Global(g, o) => Ok(Cst::Global(g, o + off)),
                        Cst::Zero => Ok(Cst::Int(off as u64 as u128)),
                        Cst::Int(k) => Ok(Cst::Int((k as i64).wrapping_add(off) as u64 as u128)),
                        _ => Err("gep base".into()),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "trunc" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.eat_w("to");
                    let t2 = self.ty()?;
                    self.expect(')')?;
                    if t2.bits() < t.bits() {
                        Ok(Cst::Trunc(Box::new(c), t2.bits()))
                    } else {
                        Ok(c)
                    }
                }
                "sub" => {
                    while matches!(self.word(), Some("nuw") | Some("nsw")) {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    let a = self.cst(&t)?;
                    self.expect(',')?;
                    let t = self.ty()?;
                    let b = self.cst(&t)?;
                    self.expect(')')?;
                    Ok(Cst::Sub(Box::new(a), Box::new(b)))
                }
                w => match ty {
                    Ty::F64 => parse_float_bits(w, 64).map(Cst::Int).ok_or(format!("float {}", w)),
                    Ty::F32 => parse_float_bits(w, 32).map(Cst::Int).ok_or(format!("float {}", w)),
                    _ => {
                        if let Ok(k) = w.parse::<i128>() {
                            return Ok(Cst::Int((k as u128) & crate::expr::mask(ty.bits())));
                        }
                        if let Ok(k) = w.parse::<u128>() {
                            return Ok(Cst::Int(k & crate::expr::mask(ty.bits())));
                        }
                        Err(format!("constant {} of {:?}", w, ty))
                    }
                },
            },
            t => Err(format!("constant {:?}", t)),
        }
    }
    fn cst_list(&mut self, end: char) -> R<Vec<(Ty, Cst)>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.eat(end) {
                return Ok(v);
            }
            self.expect(',')?;
        }
    }
}

impl Module {
    pub fn load(text: &str) -> Module {
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines: vec![],
            funcs: HashMap::new(),
            globals: vec![],
            aliases: HashMap::new(),
            types: HashMap::new(),
            noreturn_attrs: Default::default(),
        };
        // named types (may refer to one another; resolve by iteration)
        let mut pend: Vec<(String, Vec<Tok>)> = vec![];
        for l in lines.iter() {
            if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l);
                if let Tok::L(n) = &t[0] {
                    pend.push((n.clone(), t[3..].to_vec()));
                }
            }
            if l.starts_with("attributes #") {
                let id: u32 = l[12..].split(' ').next().unwrap().parse().unwrap();
                if l.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "noreturn") {
                    m.noreturn_attrs.insert(id);
                }
            }
        }
        for _ in 0..20 {
            let mut again = vec![];
            for (n, t) in pend {
                let mut p = P { t: &t, i: 0, types: &m.types };
                match p.ty() {
                    Ok(ty) => {
                        m.types.insert(n, ty);
                    }
                    Err(_) => again.push((n, t)),
                }
            }
            pend = again;
            if pend.is_empty() {
                break;
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let rest = &l[at + 1..];
                let name = if rest.starts_with('"') {
                    rest[1..].split('"').next().unwrap().to_string()
                } else {
                    rest.split('(').next().unwrap().to_string()
                };
                let mut noreturn = false;
                for w in l.split(' ') {
                    if let Some(n) = w.strip_prefix('#') {
                        if let Ok(k) = n.parse::<u32>() {
                            noreturn |= m.noreturn_attrs.contains(&k);
                        }
                    }
                }
                if l.starts_with("define ") {
                    let st = i;
                    while lines[i] != "}" {
                        i += 1;
                    }
                    m.funcs.insert(name.clone(), FuncDecl { name, noreturn, body: Some((st + 1, i)), header: st });
                } else {
                    m.funcs.entry(name.clone()).or_insert(FuncDecl { name, noreturn, body: None, header: i });
                }
            } else if l.starts_with('@') {
                let t = lex(l);
                if let Tok::G(n) = &t[0] {
                    let n = n.clone();
                    let kw = t.iter().position(|x| matches!(x, Tok::W(w) if w == "constant" || w == "global" || w == "alias"));
                    if let Some(k) = kw {
                        let w = match &t[k] {
                            Tok::W(w) => w.clone(),
                            _ => unreachable!(),
                        };
                        if w == "alias" {
                            if let Some(Tok::G(g)) = t[k + 1..].iter().find(|x| matches!(x, Tok::G(_))) {
                                m.aliases.insert(n, g.clone());
                            }
                        } else {
                            let mut p = P { t: &t, i: k + 1, types: &m.types };
                            if let Ok(ty) = p.ty() {
                                let pos = p.i;
                                let mut align = ty.align();
                                for q in pos..t.len() {
                                    if t[q] == Tok::W("align".into()) {
                                        if let Some(Tok::W(a)) = t.get(q + 1) {
                                            align = a.parse().unwrap_or(align);
                                        }
                                    }
                                }
                                let ext = t[..k].iter().any(|x| matches!(x, Tok::W(w) if w == "external" || w == "extern_weak"));
                                m.globals.push(GlobalDecl {
                                    name: n,
                                    ty,
                                    constant: w == "constant",
                                    line: i,
                                    align,
                                    toks: if ext { None } else { Some((t, pos)) },
                                });
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        m.lines = lines;
        m
    }

    pub fn parse_func(&self, name: &str) -> R<Func> {
        let d = self.funcs.get(name).ok_or(format!("no function {}", name))?;
        let (st, en) = d.body.ok_or(format!("function {} has no body", name))?;
        let mut fp = FP { locals: HashMap::new(), blocks: HashMap::new(), types: &self.types };
        // header params
        let ht = lex(&self.lines[d.header]);
        let gpos = ht.iter().position(|t| matches!(t, Tok::G(_))).unwrap();
        let mut p = P { t: &ht, i: gpos + 1, types: &self.types };
        p.expect('(')?;
        let mut params = vec![];
        let mut anon = 0u32;
        if !p.eat(')') {
            loop {
                if p.peek() == Some(&Tok::Dots) {
                    p.i += 1;
                    p.expect(')')?;
                    break;
                }
                p.ty()?;
                // skip attributes until local name, ',' or ')'
                let mut nm: Option<String> = None;
                loop {
                    match p.peek() {
                        Some(Tok::L(n)) => {
                            nm = Some(n.clone());
                            p.i += 1;
                        }
                        Some(Tok::P(',')) | Some(Tok::P(')')) => break,
                        Some(Tok::P('(')) => p.skip_balanced(),
                        Some(_) => p.i += 1,
                        None => return Err("header".into()),
                    }
                }
                let nm = nm.unwrap_or_else(|| {
                    let s = anon.to_string();
                    s
                });
                anon += 1;
                params.push(fp.local(&nm));
                if p.eat(')') {
                    break;
                }
                p.expect(',')?;
            }
        }
        // blocks
        let mut blocks: Vec<Block> = vec![];
        // collect label order first
        let mut labels: Vec<String> = vec![];
        let mut body: Vec<Vec<String>> = vec![];
        let mut i = st;
        while i < en {
            let l = &self.lines[i];
            if l.is_empty() || l.starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if l.starts_with('"') {
                    let e = l[1..].find('"').unwrap();
                    l[1..1 + e].to_string()
                } else {
                    l.split(':').next().unwrap().to_string()
                };
                labels.push(lab);
                body.push(vec![]);
                i += 1;
                continue;
            }
            if labels.is_empty() {
                labels.push(format!("{}", params.len())); // implicit entry label number (unused)
                body.push(vec![]);
            }
            let mut s = l.clone();
            if s.trim_end().ends_with('[') && s.contains("switch ") {
                loop {
                    i += 1;
                    s.push(' ');
                    s.push_str(&self.lines[i]);
                    if self.lines[i].trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            while i + 1 < en && {
                let n = self.lines[i + 1].trim_start();
                (n.starts_with("to label") && s.contains("invoke "))
                    || (self.lines[i + 1].starts_with("          ") && (n.starts_with("catch") || n.starts_with("cleanup") || n.starts_with("filter")))
            } {
                i += 1;
                s.push(' ');
                s.push_str(self.lines[i].trim_start());
            }
            body.last_mut().unwrap().push(s);
            i += 1;
        }
        for (k, l) in labels.iter().enumerate() {
            fp.blocks.insert(l.clone(), k as u32);
        }
        for b in body {
            let mut blk = Block { phis: vec![], insts: vec![] };
            for s in b {
                let toks = lex(&s);
                if toks.is_empty() {
                    continue;
                }
                match fp.inst(&toks) {
                    Ok(PI::I(x)) => blk.insts.push(x),
                    Ok(PI::Phi(t, d, v)) => blk.phis.push((t, d, v)),
                    Ok(PI::None) => {}
                    Err(e) => blk.insts.push(Inst::Unsupported(format!("{} [{}]", s.trim(), e))),
                }
            }
            blocks.push(blk);
        }
        Ok(Func { name: name.to_string(), params, nlocals: fp.locals.len(), blocks })
    }
}

enum PI {
    I(Inst),
    Phi(Ty, u32, Vec<(u32, Opnd)>),
    None,
}
struct FP<'a> {
    locals: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    types: &'a HashMap<String, Ty>,
}
impl<'a> FP<'a> {
    fn local(&mut self, n: &str) -> u32 {
        let k = self.locals.len() as u32;
        *self.locals.entry(n.to_string()).or_insert(k)
    }
    fn opnd(&mut self, p: &mut P, t: &Ty) -> R<Opnd> {
        if let Some(Tok::L(n)) = p.peek() {
            p.i += 1;
            return Ok(Opnd::Local(self.local(n)));
        }
        let c = p.cst(t)?;
        Ok(Opnd::C(t.clone(), Rc::new(c)))
    }
    fn label(&mut self, p: &mut P) -> R<u32> {
        if !p.eat_w("label") {
            return Err("label".into());
        }
        match p.next()? {
            Tok::L(n) => self.blocks.get(n).copied().ok_or(format!("label {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn inst(&mut self, toks: &[Tok]) -> R<PI> {
        let types = self.types;
        let mut p = P { t: toks, i: 0, types };
        let mut dst: Option<u32> = None;
        if let (Tok::L(n), Some(Tok::P('='))) = (&toks[0], toks.get(1)) {
            dst = Some(self.local(n));
            p.i = 2;
        }
        let op = match p.next()? {
            Tok::W(w) => w.clone(),
            Tok::P('#') | Tok::A(_) => return Ok(PI::None), // debug record
            t => return Err(format!("inst {:?}", t)),
        };
        let flags = [
            "nuw", "nsw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "samesign",
        ];
        macro_rules! skip_flags {
            () => {
                while let Some(w) = p.word() {
                    if flags.contains(&w) {
                        p.i += 1;
                    } else {
                        break;
                    }
                }
            };
        }
        let d = || dst.ok_or("no dst".to_string());
        let r = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv"
            | "frem" => {
                skip_flags!();
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let b = self.opnd(&mut p, &t)?;
                Inst::Bin(op, t, a, b, d()?)
            }
            "fneg" => {
                skip_flags!();
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                Inst::FNeg(t, a, d()?)
            }
            "icmp" | "fcmp" => {
                skip_flags!();
                let pred = match p.next()? {
                    Tok::W(w) => w.clone(),
                    _ => return Err("pred".into()),
                };
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let b = self.opnd(&mut p, &t)?;
                if op == "icmp" {
                    Inst::ICmp(pred, t, a, b, d()?)
                } else {
                    Inst::FCmp(pred, t, a, b, d()?)
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "addrspacecast" => {
                skip_flags!();
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                if !p.eat_w("to") {
                    return Err("to".into());
                }
                let t2 = p.ty()?;
                let c = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "fptrunc" => CastOp::FPTrunc,
                    "fpext" => CastOp::FPExt,
                    "fptoui" => CastOp::FPToUI,
                    "fptosi" => CastOp::FPToSI,
                    "uitofp" => CastOp::UIToFP,
                    "sitofp" => CastOp::SIToFP,
                    _ => CastOp::BitCast,
                };
                Inst::Cast(c, t, t2, a, d()?)
            }
            "load" => {
                while matches!(p.word(), Some("atomic") | Some("volatile")) {
                    p.i += 1;
                }
                let t = p.ty()?;
                p.expect(',')?;
                let pt = p.ty()?;
                let a = self.opnd(&mut p, &pt)?;
                Inst::Load(t, a, d()?)
            }
            "store" => {
                while matches!(p.word(), Some("atomic") | Some("volatile")) {
                    p.i += 1;
                }
                let t = p.ty()?;
                let v = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let pt = p.ty()?;
                let a = self.opnd(&mut p, &pt)?;
                Inst::Store(t, v, a)
            }
            "getelementptr" => {
                skip_flags!();
                let t = p.ty()?;
                p.expect(',')?;
                let pt = p.ty()?;
                let base = self.opnd(&mut p, &pt)?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while p.is_p(',') {
                    // metadata may follow
                    if let Some(Tok::M) = p.t.get(p.i + 1) {
                        break;
                    }
                    p.i += 1;
                    let it = p.ty()?;
                    let o = self.opnd(&mut p, &it)?;
                    let k = match &o {
                        Opnd::C(_, c) => match &**c {
                            Cst::Int(k) => Some(crate::expr::sx(*k, it.bits()) as i64),
                            Cst::Zero => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        first = false;
                        match k {
                            Some(k) => off += k * t.size() as i64,
                            None => terms.push((o, t.size() as i64, it.bits())),
                        }
                    } else {
                        match k {
                            Some(k) => {
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.elem(k as usize);
                            }
                            None => {
                                let e = match &cur {
                                    Ty::Arr(_, e) | Ty::Vect(_, e) => (**e).clone(),
                                    _ => return Err("gep struct var".into()),
                                };
                                terms.push((o, e.size() as i64, it.bits()));
                                cur = e;
                            }
                        }
                    }
                }
                Inst::Gep(base, off, terms, d()?)
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty()?;
                let mut cnt = None;
                let mut align = t.align();
                while p.eat(',') {
                    if p.eat_w("align") {
                        if let Ok(Tok::W(w)) = p.next() {
                            align = w.parse().unwrap_or(align);
                        }
                    } else if matches!(p.peek(), Some(Tok::M)) {
                        break;
                    } else {
                        let it = p.ty()?;
                        cnt = Some(self.opnd(&mut p, &it)?);
                    }
                }
                Inst::Alloca(t.size(), align, cnt, d()?)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.i += 1;
                }
                skip_flags!();
                p.skip_to_type()?;
                let ret = p.ty()?;
                if p.is_p('(') {
                    p.skip_balanced();
                }
                let callee = match p.next()? {
                    Tok::G(g) => Callee::Direct(g.clone()),
                    Tok::L(n) => Callee::Indirect(Opnd::Local(self.local(n))),
                    Tok::W(w) if w == "asm" => {
                        while !p.is_p('(') {
                            p.next()?;
                        }
                        Callee::Asm
                    }
                    Tok::W(_) => {
                        p.i -= 1;
                        let c = p.cst(&Ty::Ptr)?;
                        Callee::Indirect(Opnd::C(Ty::Ptr, Rc::new(c)))
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                p.expect('(')?;
                let mut args = vec![];
                if !p.eat(')') {
                    loop {
                        let t = p.ty()?;
                        if t == Ty::Other {
                            // metadata argument: skip to , or )
                            let mut depth = 0;
                            loop {
                                match p.peek() {
                                    Some(Tok::P('(')) | Some(Tok::P('{')) => depth += 1,
                                    Some(Tok::P('}')) => depth -= 1,
                                    Some(Tok::P(')')) if depth == 0 => break,
                                    Some(Tok::P(')')) => depth -= 1,
                                    Some(Tok::P(',')) if depth == 0 => break,
                                    None => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push((t, Opnd::C(Ty::Int(1), Rc::new(Cst::Zero))));
                        } else {
                            // skip attributes
                            loop {
                                match p.peek() {
                                    Some(Tok::W(w)) => {
                                        let w = w.as_str();
                                        let is_operand = matches!(
                                            w,
                                            "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "c" | "splat" | "getelementptr" | "ptrtoint"
                                                | "inttoptr" | "bitcast" | "sub" | "inf" | "nan" | "ptrtoaddr" | "trunc"
                                        ) || w.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '+')
                                            || w.starts_with("f0x");
                                        if is_operand {
                                            break;
                                        }
                                        p.i += 1;
                                        if w == "align" && !p.is_p('(') {
                                            p.i += 1;
                                        }
                                        if p.is_p('(') {
                                            p.skip_balanced();
                                        }
                                    }
                                    Some(Tok::S(_)) => {
                                        p.i += 1;
                                        if p.eat('=') {
                                            p.i += 1;
                                        }
                                    }
                                    _ => break,
                                }
                            }
                            let o = self.opnd(&mut p, &t)?;
                            args.push((t, o));
                        }
                        if p.eat(')') {
                            break;
                        }
                        p.expect(',')?;
                    }
                }
                let mut invoke_to = None;
                if op == "invoke" {
                    while p.word() != Some("to") {
                        p.next()?;
                    }
                    p.i += 1;
                    invoke_to = Some(self.label(&mut p)?);
                }
                Inst::Call(Rc::new(CallInfo { callee, args, ret, dst, invoke_to }))
            }
            "phi" => {
                skip_flags!();
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.expect('[')?;
                    let o = self.opnd(&mut p, &t)?;
                    p.expect(',')?;
                    match p.next()? {
                        Tok::L(n) => v.push((*self.blocks.get(n).ok_or(format!("phi label {}", n))?, o)),
                        t => return Err(format!("phi {:?}", t)),
                    }
                    p.expect(']')?;
                    if !p.is_p(',') || matches!(p.t.get(p.i + 1), Some(Tok::M)) {
                        break;
                    }
                    p.i += 1;
                }
                return Ok(PI::Phi(t, d()?, v));
            }
            "select" => {
                skip_flags!();
                let ct = p.ty()?;
                let c = self.opnd(&mut p, &ct)?;
                p.expect(',')?;
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let _ = p.ty()?;
                let b = self.opnd(&mut p, &t)?;
                let vc = matches!(ct, Ty::Vect(..));
                Inst::Select(t, c, a, b, d()?, vc)
            }
            "freeze" => {
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                Inst::Copy(a, d()?)
            }
            "extractvalue" => {
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                let mut ix = vec![];
                while p.is_p(',') && !matches!(p.t.get(p.i + 1), Some(Tok::M)) {
                    p.i += 1;
                    ix.push(p.num()? as u32);
                }
                Inst::ExtractValue(a, ix, d()?)
            }
            "insertvalue" => {
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let b = self.opnd(&mut p, &t2)?;
                let mut ix = vec![];
                while p.is_p(',') && !matches!(p.t.get(p.i + 1), Some(Tok::M)) {
                    p.i += 1;
                    ix.push(p.num()? as u32);
                }
                Inst::InsertValue(t, a, t2, b, ix, d()?)
            }
            "extractelement" => {
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let it = p.ty()?;
                let i = self.opnd(&mut p, &it)?;
                Inst::ExtractElem(a, i, d()?)
            }
            "insertelement" => {
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let et = p.ty()?;
                let v = self.opnd(&mut p, &et)?;
                p.expect(',')?;
                let it = p.ty()?;
                let i = self.opnd(&mut p, &it)?;
                Inst::InsertElem(t, a, v, i, d()?)
            }
            "shufflevector" => {
                let t = p.ty()?;
                let a = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let _ = p.ty()?;
                let b = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let mt = p.ty()?;
                let mc = p.cst(&mt)?;
                let n = match &mt {
                    Ty::Vect(n, _) => *n,
                    _ => return Err("mask".into()),
                };
                let m = match mc {
                    Cst::Zero => vec![0; n as usize],
                    Cst::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Cst::Int(k) => *k as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("mask".into()),
                };
                Inst::Shuffle(t, a, b, m, d()?)
            }
            "br" => {
                if p.word() == Some("label") {
                    Inst::Br(self.label(&mut p)?)
                } else {
                    let t = p.ty()?;
                    let c = self.opnd(&mut p, &t)?;
                    p.expect(',')?;
                    let a = self.label(&mut p)?;
                    p.expect(',')?;
                    let b = self.label(&mut p)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = p.ty()?;
                let c = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let df = self.label(&mut p)?;
                p.expect('[')?;
                let mut v = vec![];
                while !p.eat(']') {
                    let it = p.ty()?;
                    let k = match p.cst(&it)? {
                        Cst::Int(k) => k,
                        Cst::Zero => 0,
                        _ => return Err("case".into()),
                    };
                    p.expect(',')?;
                    let l = self.label(&mut p)?;
                    v.push((k, l));
                }
                Inst::Switch(t, c, df, v)
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opnd(&mut p, &t)?;
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Fence,
            "atomicrmw" => {
                p.eat_w("volatile");
                let o = match p.next()? {
                    Tok::W(w) => w.clone(),
                    _ => return Err("rmw".into()),
                };
                let pt = p.ty()?;
                let a = self.opnd(&mut p, &pt)?;
                p.expect(',')?;
                let t = p.ty()?;
                let v = self.opnd(&mut p, &t)?;
                Inst::AtomicRmw(o, t, a, v, d()?)
            }
            "cmpxchg" => {
                while matches!(p.word(), Some("weak") | Some("volatile")) {
                    p.i += 1;
                }
                let pt = p.ty()?;
                let a = self.opnd(&mut p, &pt)?;
                p.expect(',')?;
                let t = p.ty()?;
                let c = self.opnd(&mut p, &t)?;
                p.expect(',')?;
                let _ = p.ty()?;
                let n = self.opnd(&mut p, &t)?;
                Inst::CmpXchg(t, a, c, n, d()?)
            }
            o => return Err(format!("opcode {}", o)),
        };
        Ok(PI::I(r))
    }
}
