//! C27: the description macros run as ordinary functions on definitions with symbolic parts.
use crate::rt::*;
use proc_macro2::{TokenStream, TokenTree};

/// a definition under construction
struct Def(Vec<u8>);
impl Def {
    fn new() -> Def {
        Def(Vec::with_capacity(1024))
    }
    fn s(&mut self, t: &str) -> &mut Def {
        self.0.extend_from_slice(t.as_bytes());
        self
    }
    /// n decimal digits, any; returns their value
    fn digits(&mut self, n: usize) -> u64 {
        let mut v = 0u64;
        for _ in 0..n {
            let d = u8s();
            assume(d < 10);
            self.0.push(b'0' + d);
            v = v * 10 + d as u64;
        }
        v
    }
    /// one character of an identifier, any
    fn letter(&mut self) -> u8 {
        let c = u8s();
        assume((c >= b'a') & (c <= b'z') | (c >= b'0') & (c <= b'9') | (c == b'_'));
        self.0.push(c);
        c
    }
    fn tokens(self) -> TokenStream {
        let s = unsafe { String::from_utf8_unchecked(self.0) };
        match s.parse() {
            Ok(t) => t,
            Err(_) => {
                assume(false);
                TokenStream::new()
            }
        }
    }
}

fn refused(t: TokenStream) -> bool {
    t.into_iter().any(|x| matches!(x, TokenTree::Ident(ref i) if *i == "compile_error"))
}

#[derive(Clone, Copy, PartialEq)]
enum Mac {
    Recv,
    Send,
    RecvSend,
    Enum,
    Flags,
    List,
}
use Mac::*;

/// the macro accepts exactly the consistent definitions; a refusal is a compile_error or a panic
fn decide(m: Mac, d: Def, consistent: bool, what: &str) {
    let ok = concretize(consistent as u64) == 1;
    let t = d.tokens();
    if ok {
        cover("accepted")
    } else {
        cover("refused")
    }
    expect_panic(!ok);
    let e = TokenStream::new();
    let out = match m {
        Recv => derive_lib::ubx_packet_recv(e, t),
        Send => derive_lib::ubx_packet_send(e, t),
        RecvSend => derive_lib::ubx_packet_recv_send(e, t),
        Enum => derive_lib::ubx_extend(e, t),
        Flags => derive_lib::ubx_extend_bitflags(e, t),
        List => derive_lib::define_recv_packets(t),
    };
    let r = refused(out);
    obs(r as u64);
    if ok {
        check(!r, what);
    } else {
        check(r, what);
        panic!("refused");
    }
}

fn mac() -> Mac {
    [Recv, Send, RecvSend][choice(3) as usize]
}


impl Def {
    /// an identifier character, or the given one: `hit` tells which
    fn near(&mut self, t: &str, at: usize) -> bool {
        let mut hit = false;
        for (i, c) in t.bytes().enumerate() {
            if i == at {
                hit = self.letter() == c;
            } else {
                self.0.push(c);
            }
        }
        hit
    }
    /// a lower-case identifier of n characters that is not a keyword
    fn ident(&mut self, n: usize) -> [u8; 3] {
        let mut t = [0; 3];
        for i in 0..n {
            let c = self.letter();
            if i == 0 {
                assume((c >= b'a') & (c <= b'z'));
            }
            t[i] = c;
        }
        t
    }
}

/// size of a field type, 0: not supported
fn size_of(t: &[u8; 3]) -> u64 {
    let is = |x: &[u8; 3]| (t[0] == x[0]) & (t[1] == x[1]) & (t[2] == x[2]);
    (is(b"u8\0") | is(b"i8\0")) as u64
        + 2 * ((is(b"u16") | is(b"i16")) as u64)
        + 4 * ((is(b"u32") | is(b"i32") | is(b"f32")) as u64)
        + 8 * (is(b"f64") as u64)
}

/// declared fixed length against the sum of the field sizes
#[no_mangle]
pub fn h_c27_len() {
    let k = choice(8);
    let m = mac();
    let mut d = Def::new();
    let mut sum = 0;
    let mut ok = true;
    d.s("#[ubx(class = 1, id = 0x12, fixed_payload_len = ");
    let n = d.digits(if k < 4 { 2 } else { 3 });
    d.s(")] struct Pack {");
    match k {
        0 => {
            d.s(" a: u8, b: u16, c: i32, d: f64, e: [u8; ");
            let l = d.digits(1);
            ok &= l > 0;
            sum += 15 + l;
            d.s("] ");
        }
        1 => {
            d.s(" a: [u8; ");
            let l = d.digits(1);
            d.s("], b: i8, c: [u8; 1");
            let q = d.digits(1);
            ok &= l > 0;
            sum += l + 1 + 10 + q;
            d.s("] ");
        }
        2 => {
            d.s(" #[ubx(map_type = f64, scale = 1e-7, alias = lon)] a: i32, #[ubx(map_type = F, may_fail)] b: u8, c: [u8; 4");
            let l = 40 + d.digits(1);
            ok &= l > 0;
            sum += 5 + l;
            d.s("]");
        }
        3 => {
            d.s(" ");
            ok = n == 0;
        }
        4 => {
            d.s(" a: u32, b: f32, c: i16, d: u8 ");
            sum += 11;
        }
        5 => {
            d.s(" a: [u8; 200], b: f32, c: i16, d: [u8; 50], ");
            sum += 256;
        }
        6 => {
            d.s(" a: [u8; 24");
            sum += 240 + d.digits(1);
            d.s("] ");
        }
        _ => {
            d.s(" a: u8, b: u8, c: i8, d: i8, e: u16, f: u16, g: i16, h: u32, i: i32, j: f32, k: f64, l: f64 ");
            sum += 38;
        }
    }
    d.s("}");
    decide(m, d, (n == sum) & ok, "declared length and field sizes agree");
}

/// field types: every identifier of two or three characters
#[no_mangle]
pub fn h_c27_type() {
    let k = choice(2) as usize + 2;
    let m = if choice(2) == 0 { Recv } else { Send };
    let mut d = Def::new();
    d.s("#[ubx(class = 1, id = 0x12, fixed_payload_len = ");
    let n = d.digits(1);
    d.s(")] struct Pack { a: ");
    let t = d.ident(k);
    d.s(" }");
    let z = size_of(&t);
    decide(m, d, (z != 0) & (z == n), "the field type is supported and as long as declared");
}

/// arrays: element type, length expression
#[no_mangle]
pub fn h_c27_array() {
    let k = choice(4);
    let m = if choice(2) == 0 { Recv } else { Send };
    let mut d = Def::new();
    let ok;
    match k {
        0 | 1 => {
            d.s("#[ubx(class = 1, id = 0x12, fixed_payload_len = 3)] struct Pack { a: [");
            let t = d.ident(k as usize + 2);
            d.s("; ");
            let l = d.digits(1);
            d.s("] }");
            ok = (k == 0) & (t[0] == b'u') & (t[1] == b'8') & (l == 3);
        }
        2 => {
            // no length at all, or one that is not a number
            d.s("#[ubx(class = 1, id = 0x12, fixed_payload_len = 3)] struct Pack { a: [u8; ");
            d.ident(1);
            d.s("] }");
            ok = false;
        }
        _ => {
            // the empty array is the variable-size part: only at the end, only without fixed length
            let last = choice(2) == 1;
            let fixed = choice(2) == 1;
            d.s("#[ubx(class = 1, id = 0x12, ").s(if fixed { "fixed" } else { "max" }).s("_payload_len = 1)] struct Pack { ");
            d.s(if last { "a: u8, b: [u8; 0] }" } else { "b: [u8; 0], a: u8 }" });
            ok = last & !fixed & (m == Recv);
            if m == Send && last && !fixed {
                return;
            }
        }
    }
    decide(m, d, ok, "arrays are byte arrays of the declared length");
}

/// names of the attributes in the header: any one character different
#[no_mangle]
pub fn h_c27_keys() {
    const KEYS: [&str; 5] = ["class", "id", "fixed_payload_len", "max_payload_len", "flags"];
    let mut k = choice(5 + 2 + 17 + 15 + 5) as usize;
    let mut w = 0;
    while k >= KEYS[w].len() {
        k -= KEYS[w].len();
        w += 1;
    }
    let mut d = Def::new();
    let mut ok = false;
    d.s("#[ubx(");
    for (i, n) in KEYS.iter().enumerate() {
        if i == 2 && w == 3 || i == 3 && w != 3 {
            continue;
        }
        if i > 0 {
            d.s(", ");
        }
        if i == w {
            ok = d.near(n, k);
        } else {
            d.s(n);
        }
        d.s([" = 2", " = 3", " = 4", " = 4", " = \"default_for_builder\""][i]);
    }
    d.s(")] struct Pack { a: ").s(if w == 3 { "u16, b: &'a [u8] }" } else { "u32 }" });
    decide(Recv, d, ok, "only the known attributes are accepted");
}

/// each attribute of the header none, once or twice; values of any three digits
#[no_mangle]
pub fn h_c27_header() {
    let k = choice(162);
    let count = [k % 3, k / 3 % 3, k / 9 % 3, k / 27 % 3];
    let var = k / 81 == 1;
    let mut d = Def::new();
    let mut first = true;
    d.s("#[ubx(");
    // a repetition far from the first occurrence
    for round in 0..2 {
        for (i, n) in ["class = 7", "id = 0x21", "fixed_payload_len = 5", "max_payload_len = 9"].iter().enumerate() {
            if count[i] > round {
                if !first {
                    d.s(", ");
                }
                first = false;
                d.s(n);
            }
        }
    }
    d.s(")] struct Pack { a: u8, b: i32").s(if var { ", c: &'a [u8]" } else { "" }).s(" }");
    let ok = (count[0] == 1) & (count[1] == 1) & if var { (count[2] == 0) & (count[3] == 1) } else { (count[2] == 1) & (count[3] == 0) };
    decide(Recv, d, ok, "each attribute of the header once, one kind of length");
}

/// values of the header attributes: numbers of up to three (five) digits, other literals
#[no_mangle]
pub fn h_c27_values() {
    let k = choice(12);
    let mut d = Def::new();
    let mut ok = true;
    let mut len = None;
    d.s("#[ubx(class = ");
    match k {
        0 => ok = d.digits(3) < 256,
        1 => ok = { d.s("0x"); let v = d.digits(3); v < 100 },
        2 => { d.s("\"1\""); ok = false }
        3 => { d.s("1.5"); ok = false }
        4 => { d.s("'a'"); ok = false }
        _ => { d.s("0x0a"); }
    }
    d.s(", id = ");
    match k {
        5 => ok = d.digits(3) < 256,
        6 => { d.s("\"1\""); ok = false }
        7 => { d.s("true"); ok = false }
        _ => { d.s("4"); }
    }
    match k {
        8 => { d.s(", fixed_payload_len = \"4\""); ok = false }
        9 => { d.s(", max_payload_len = "); let v = d.digits(5); ok = (v < 65536) & (v >= 4); len = Some(v) }
        10 => { d.s(", fixed_payload_len = 4.0"); ok = false }
        11 => { d.s(", max_payload_len = b\"4\""); ok = false; len = Some(0) }
        _ => { d.s(", fixed_payload_len = 4"); }
    }
    d.s(")] struct Pack { a: u32").s(if len.is_some() { ", b: &'a [u8] }" } else { " }" });
    decide(Recv, d, ok, "values of the attributes are numbers that fit");
}

/// where the parts of variable size may stand
#[no_mangle]
pub fn h_c27_last() {
    let k = choice(27);
    let fixed = choice(2) == 0;
    let m = mac();
    let f = [k % 3, k / 3 % 3, k / 9];
    let mut d = Def::new();
    d.s("#[ubx(class = 1, id = 2, ").s(if fixed { "fixed_payload_len = " } else { "max_payload_len = 9" });
    let sized = f.iter().filter(|x| **x == 0).count() as u64;
    let mut ok = true;
    if fixed {
        let n = d.digits(1);
        ok = n == 2 * sized;
    }
    d.s(")] struct Pack {");
    for i in 0..3 {
        match f[i] {
            0 => d.s("#[ubx(alias = x)] "),
            1 => d.s("#[ubx(map_type = It, from = It::new, is_valid = It::ok, may_fail)] "),
            _ => d.s("#[ubx(map_type = It, from = It::new, size_fn = len, get_as_ref)] "),
        };
        d.s(["a", "b", "c"][i]).s(if f[i] == 0 { ": u16," } else { ": [u8; 0]," });
    }
    d.s("}");
    let any = sized < 3;
    ok &= any != fixed;
    // without a size function only the end can be of variable size
    ok &= f[0] != 1 && f[1] != 1;
    if m != Recv && (f[0] == 2 || f[1] == 2) {
        // the builder knows only one part of variable size, the last
        ok = false;
    }
    decide(m, d, ok, "parts of variable size");
}

/// attributes of a field: any one character different
#[no_mangle]
pub fn h_c27_field() {
    const KEYS: [&str; 9] = ["map_type", "scale", "alias", "may_fail", "from", "is_valid", "get_as_ref", "into", "size_fn"];
    let mut k = choice(8 + 5 + 5 + 8 + 4 + 8 + 10 + 4 + 7) as usize;
    let mut w = 0;
    while k >= KEYS[w].len() {
        k -= KEYS[w].len();
        w += 1;
    }
    let mut d = Def::new();
    let mut ok = false;
    d.s("#[ubx(class = 2, id = 3, fixed_payload_len = 4)] struct Pack { #[ubx(");
    for (i, n) in KEYS.iter().enumerate() {
        if i > 0 {
            d.s(", ");
        }
        if i == w {
            ok = d.near(n, k);
        } else {
            d.s(n);
        }
        d.s([" = f64", " = 1e-2", " = b", "", " = f", " = v", "", " = g", " = s"][i]);
    }
    d.s(")] a: i32 }");
    decide(Recv, d, ok, "only the known field attributes are accepted");
}

/// two attributes on one field; a type mapped to itself
#[no_mangle]
pub fn h_c27_map() {
    let k = choice(4);
    let mut d = Def::new();
    let ok;
    match k {
        0 => {
            d.s("#[ubx(class = 2, id = 3, fixed_payload_len = 4)] struct Pack { #[ubx(map_type = i");
            let a = [b'i', d.letter(), d.letter()];
            d.s(")] a: i");
            let b = [b'i', d.letter(), d.letter()];
            d.s(" }");
            ok = (size_of(&b) == 4) & ((a[1] != b[1]) | (a[2] != b[2]));
        }
        _ => {
            const A: [&str; 3] = ["#[ubx(map_type = f64)] ", "#[ubx(scale = 2.0)] ", "#[ubx(alias = b)] "];
            let x = choice(4) as usize;
            d.s("#[ubx(class = 2, id = 3, fixed_payload_len = ");
            let n = d.digits(1);
            d.s(")] struct Pack { /** first */ ").s(A[k as usize - 1]).s("/** more */ ").s(if x < 3 { A[x] } else { "" }).s(" a: i32 }");
            ok = (n == 4) & (x == 3) & (k != 2);
        }
    }
    decide(mac(), d, ok, "one map, to another type");
}

/// the declared maximum against the part of known size
#[no_mangle]
pub fn h_c27_max() {
    let k = choice(8);
    let m = mac();
    let mut d = Def::new();
    let mut sum = 0;
    let mut ok = true;
    d.s("#[ubx(class = 1, id = 0x12, max_payload_len = ");
    let n = d.digits(2);
    d.s(")] struct Pack {");
    match k {
        0 => {
            d.s(" a: u8, b: u16, c: i32, d: f64, e: [u8; ");
            let l = d.digits(1);
            ok = l > 0;
            sum = 15 + l;
            d.s("], f: &'a [u8] ");
        }
        1 => {
            d.s(" a: [u8; ");
            let l = d.digits(2);
            ok = (l > 0) & (n < 30) & (l < 30);
            assume(ok | (l == 0));
            sum = l;
            d.s("], rest: &'a [u8] ");
        }
        2 => {
            d.s(" rest: &'a [u8] ");
        }
        3 => {
            d.s(" a: f64, b: f32, c: i16, d: i8, #[ubx(map_type = It, from = It::new, size_fn = len, get_as_ref)] rest: [u8; 0] ");
            sum = 15;
        }
        4 => {
            d.s(" a: f64, b: f32, c: i16, #[ubx(map_type = It, from = It::new, size_fn = len, get_as_ref)] r: [u8; 0], d: i8, e: u32");
            sum = 19;
            ok = m == Recv;
        }
        5 => {
            d.s(" a: [u8; 90], b: u8, c: u16, d: u32, e: &'a [u8] ");
            sum = 97;
        }
        6 => {
            d.s(" a: [u8; 90], b: u8, c: u16, d: u32, e: f32, f: &'a [u8] ");
            sum = 101;
        }
        _ => {
            // nothing of variable size
            d.s(" a: u8, b: u16 ");
            ok = false;
        }
    }
    d.s("}");
    decide(m, d, ok & (n >= sum), "the maximum length holds the part of known size");
}

/// conversion attributes need a type to convert to
#[no_mangle]
pub fn h_c27_orphan() {
    const A: [&str; 7] = ["scale = 1e-2", "may_fail", "from = f", "is_valid = v", "get_as_ref", "into = g", "size_fn = s"];
    let k = choice(8) as usize;
    let k2 = choice(8) as usize;
    let map = choice(2) == 1;
    let place = choice(2);
    let mut d = Def::new();
    d.s("#[ubx(class = 2, id = 3, fixed_payload_len = ");
    let n = d.digits(1);
    d.s(")] struct Pack { #[ubx(alias = b");
    if map && place == 0 {
        d.s(", map_type = f64");
    }
    if k < 7 {
        d.s(", ").s(A[k]);
    }
    if k2 < 7 && k2 != k {
        d.s(", ").s(A[k2]);
    }
    if map && place == 1 {
        d.s(", map_type = f64");
    }
    d.s(")] a: i32 }");
    decide(Recv, d, (n == 4) & (map || (k == 7 && k2 == 7)), "conversion attributes only with a type");
}

/// no attribute of a field, and no attribute of the macros, twice
#[no_mangle]
pub fn h_c27_twice() {
    const A: [&str; 9] = ["map_type = f64", "scale = 1e-2", "alias = b", "may_fail", "from = f", "is_valid = v", "get_as_ref", "into = g", "size_fn = s"];
    let k = choice(18) as usize;
    let mut d = Def::new();
    if k < 9 {
        let at = choice(10) as usize;
        d.s("#[ubx(class = 2, id = 3, fixed_payload_len = ");
        let n = d.digits(1);
        d.s(")] struct Pack { #[ubx(");
        for (i, a) in A.iter().enumerate() {
            if at == i {
                d.s(A[k]).s(", ");
            }
            d.s(a).s(if i < 8 { ", " } else { "" });
        }
        d.s(")] a: i32 }");
        return decide(Recv, d, (n == 4) & (at == 9), "no attribute of a field twice");
    }
    let m = [Recv, Send, RecvSend, Recv, Enum, Enum, Enum, Flags, Flags][k - 9];
    let (a, b, c) = match k {
        9..=11 => ("#[ubx(class = 2, id = 3, fixed_payload_len = 4)] ", "#[ubx(class = 2, id = 3, fixed_payload_len = 4)] ", "struct Pack { a: [u8; "),
        12 => ("/** x */ #[ubx(class = 2, id = 3, max_payload_len = 40)] ", "/** y */ #[ubx(class = 7, id = 9, max_payload_len = 4)] ", "struct Pack { b: &'a [u8; "),
        13 | 14 => ("#[ubx(from, rest_reserved)] #[repr(u8)] ", if k == 13 { "#[ubx(from, rest_reserved)] " } else { "#[ubx(into_raw)] " }, "enum E { A = "),
        15 => ("#[ubx(from, from_unchecked, rest_reserved)] #[repr(u8)] ", "", "enum E { A = "),
        16 => ("#[ubx(from, rest_reserved)] ", "#[ubx(from, rest_reserved)] ", "bitflags! { struct F: u8 { const A = "),
        _ => ("#[ubx(from, rest_reserved, from)] ", "", "bitflags! { struct F: u8 { const A = "),
    };
    let twice = b.is_empty() || choice(2) == 1;
    d.s(a).s(if twice { b } else { "" }).s(c);
    let n = d.digits(1);
    d.s(match k {
        9..=11 => "] }",
        12 => "] }",
        16 | 17 => "; } }",
        _ => " }",
    });
    let ok = match k {
        9..=11 => n == 4,
        16 => (n == 1) | (n == 2) | (n == 4) | (n == 8),
        _ => true,
    };
    decide(m, d, ok & !twice, "no attribute of the macro twice");
}

/// which items the macros are for
#[no_mangle]
pub fn h_c27_kind() {
    let k = choice(14);
    let m = [Recv, Send, RecvSend, Enum, Flags][choice(5) as usize];
    let mut d = Def::new();
    let mut ok = false;
    let pack = m == Recv || m == Send || m == RecvSend;
    match k {
        0 => {
            d.s("#[ubx(class = 2, id = 3, fixed_payload_len = ");
            let n = d.digits(1);
            d.s(")] struct Pack { a: u8 }");
            ok = pack & (n == 1);
        }
        1 => { d.s("#[ubx(class = 2, id = 3, fixed_payload_len = 1)] struct Pack(u8);"); }
        2 => { d.s("#[ubx(class = 2, id = 3, fixed_payload_len = 1)] struct Pack;"); }
        3 => { d.s("#[ubx(class = 2, id = 3, fixed_payload_len = 1)] union Pack { a: u8 }"); }
        4 => { d.s("#[ubx(class = 2, id = 3, fixed_payload_len = 1)] enum Pack { A = 1 }"); }
        5 => { d.s("struct Pack { a: u8 }"); }
        6 => { d.s("#[ubx] struct Pack { a: u8 }"); }
        7 => { d.s("#[ubx = 2] struct Pack { a: u8 }"); }
        8 => {
            d.s("#[ubx(from, rest_reserved)] #[repr(u8)] enum E { A = ");
            let n = d.digits(1);
            d.s(" }");
            let _ = n;
            ok = m == Enum;
        }
        9 => {
            d.s("#[ubx(from, rest_reserved)] bitflags! { struct F: u8 { const A = ");
            let n = d.digits(1);
            d.s("; } }");
            ok = (m == Flags) & ((n == 1) | (n == 2) | (n == 4) | (n == 8));
        }
        10 => { d.s("#[ubx(from, rest_reserved)] flags! { struct F: u8 { const A = 1; } }"); }
        11 => { d.s("fn f() {}"); }
        12 => { d.s("#[ubx(class = 2, id = 3, fixed_payload_len)] struct Pack { a: u8 }"); }
        _ => { d.s("#[ubx(3, class = 2, id = 3, fixed_payload_len = 1)] struct Pack { a: u8 }"); }
    }
    decide(m, d, ok, "only the items the macro is for are accepted");
}

/// enumerations: values of up to three digits, attributes, representation
#[no_mangle]
pub fn h_c27_enum() {
    let k = choice(20);
    let (k, fr) = if k < 12 { (6, k) } else { ([0, 1, 2, 3, 4, 5, 7, 8][k as usize - 12], 0) };
    let mut d = Def::new();
    let mut ok = true;
    match k {
        0 => {
            d.s("#[ubx(from_unchecked, into_raw, rest_error)] #[repr(u8)] #[derive(Clone)] enum E { A = ");
            let a = d.digits(3);
            d.s(", B = 7, C = ");
            let c = d.digits(3);
            d.s(" }");
            assume((a != c) & (a != 7) & (c != 7));
            ok = (a < 256) & (c < 256);
        }
        1 => {
            // all values of a byte are named
            d.s("#[ubx(from, into_raw, rest_reserved)] #[repr(u8)] enum E { A = 25");
            ok = d.digits(1) < 6;
            d.s(", B = 12 }");
        }
        2 => {
            d.s("#[ubx(from_unchecked, rest_error)] #[repr(");
            let t = d.ident(2);
            d.s(")] enum E { A = 1 }");
            ok = (t[0] == b'u') & (t[1] == b'8');
        }
        3 => {
            d.s("#[ubx(from_unchecked, rest_error)] #[repr(");
            d.ident(3);
            d.s(")] enum E { A = 1 }");
            ok = false;
        }
        4 => {
            let x = choice(5);
            d.s("#[ubx(from_unchecked, rest_error)] ").s(["", "#[repr]", "#[repr = 8]", "#[repr(8)]", "#[repr(u8, C)]"][x as usize]).s(" enum E { A = ");
            d.digits(1);
            d.s(" }");
            ok = false;
        }
        5 => {
            // a variant without a value, with a value that is no number, with contents
            let x = choice(6);
            d.s("#[ubx(from_unchecked, rest_error)] #[repr(u8)] enum E { A = ");
            d.digits(1);
            d.s([", B", ", B = -1", ", B = C", ", B(u8) = 11", ", B { x: u8 } = 11", ", B = \"x\""][x as usize]).s(" }");
            ok = false;
        }
        6 => {
            // the conversion and the treatment of the other values fit together
            let (f, r) = (fr % 3, fr / 3);
            let order = choice(2) == 0;
            let from = ["", "from", "from_unchecked"][f as usize];
            let rest = ["", "rest_reserved", "rest_error", "rest_error, rest_reserved"][r as usize];
            let (x, y) = if order { (from, rest) } else { (rest, from) };
            d.s("#[ubx(").s(x).s(if f > 0 && r > 0 { ", " } else { "" }).s(y).s(")] #[repr(u8)] enum E { A = ");
            let a = d.digits(1);
            assume(a != 1);
            d.s(", B = 1 }");
            ok = match (f, r) {
                (_, 3) | (1, 2) | (2, 1) => false,
                // incomplete conversions are refused by the compiler
                (1, 0) | (2, 0) => return,
                _ => true,
            };
        }
        7 => {
            const KEYS: [&str; 3] = ["from_unchecked", "rest_error", "into_raw"];
            let mut at = choice(14 + 10 + 8) as usize;
            let mut w = 0;
            while at >= KEYS[w].len() {
                at -= KEYS[w].len();
                w += 1;
            }
            d.s("#[ubx(");
            for (i, n) in KEYS.iter().enumerate() {
                if i > 0 {
                    d.s(", ");
                }
                if i == w {
                    ok = d.near(n, at);
                } else {
                    d.s(n);
                }
            }
            d.s(")] #[repr(u8)] enum E { A = 1, B = 2 }");
        }
        _ => {
            let x = choice(4);
            d.s(["", "#[ubx]", "#[ubx = 1]", "#[ubx(from = 1)]"][x as usize]).s(" #[repr(u8)] enum E { A = ");
            d.digits(1);
            d.s(" }");
            ok = false;
        }
    }
    decide(Enum, d, ok, "enumerations");
}

/// flag words: single bits of the representation, each once
#[no_mangle]
pub fn h_c27_flags() {
    let k = choice(17);
    let x = k as usize % 4;
    let k = if k < 12 { k / 4 } else { k - 9 };
    let mut d = Def::new();
    let mut ok = true;
    let bit = |v: u64| (v != 0) & (v & v.wrapping_sub(1) == 0);
    match k {
        0 | 1 | 2 => {
            let n = [8, 16, 32][k as usize];
            // around the powers of two, and around the end of the word
            let (p, v) = [
                [("", 0u64), ("6", 60), ("12", 120), ("25", 250)],
                [("", 0), ("102", 1020), ("3276", 32760), ("6553", 65530)],
                [("", 0), ("6553", 65530), ("214748364", 2147483640), ("429496729", 4294967290)],
            ][k as usize][x];
            let other = choice(3);
            d.s("#[ubx(from, into_raw, rest_reserved)] bitflags! { #[derive(Default)] pub struct F: ").s(["u8", "u16", "u32"][k as usize]).s(" { ");
            if other == 1 {
                d.s("const B = 2; ");
            }
            d.s("const A = ").s(p);
            let a = d.digits(1) + v;
            d.s(";").s(if other == 2 { " const B = 0x40;" } else { "" }).s(" } }");
            ok = bit(a) & (a < 1 << n) & ((other != 1) | (a != 2)) & ((other != 2) | (a != 0x40));
        }
        3 | 4 => {
            d.s("#[ubx(from, rest_reserved)] bitflags! { struct F: ");
            let t = d.ident(k as usize - 1);
            d.s(" { const A = 0x40; } }");
            let z = size_of(&t);
            ok = (t[0] == b'u') & (z != 0);
        }
        5 => {
            let f = choice(4);
            let r = choice(3);
            d.s("#[ubx(").s(["", "from", "from_unchecked", "into_raw"][f as usize]).s(if f > 0 && r > 0 { ", " } else { "" }).s(["", "rest_reserved", "rest_error"][r as usize]);
            d.s(")] bitflags! { struct F: u16 { const A = ");
            let a = d.digits(1);
            d.s("; } }");
            ok = (r == 1) & (f != 2) & bit(a);
        }
        6 => {
            const KEYS: [&str; 3] = ["from", "rest_reserved", "into_raw"];
            let mut at = choice(4 + 13 + 8) as usize;
            let mut w = 0;
            while at >= KEYS[w].len() {
                at -= KEYS[w].len();
                w += 1;
            }
            d.s("#[ubx(");
            for (i, n) in KEYS.iter().enumerate() {
                if i > 0 {
                    d.s(", ");
                }
                if i == w {
                    ok = d.near(n, at);
                } else {
                    d.s(n);
                }
            }
            d.s(")] bitflags! { struct F: u8 { const A = 1; } }");
        }
        _ => {
            let x = choice(4);
            d.s([
                "bitflags! { struct F: u8 { const A = 1; } }",
                "#[ubx(from, rest_reserved)] bitflags! { struct F: u8 { const A = -1; } }",
                "#[ubx(from, rest_reserved)] bitflags! { struct F { const A = 1; } }",
                "#[ubx(from, rest_reserved)] bitflags! { enum F: u8 { const A = 1; } }",
            ][x as usize]);
            ok = false;
        }
    }
    decide(Flags, d, ok, "flag words");
}

/// the list of messages: any one character of its punctuation different
#[no_mangle]
pub fn h_c27_list() {
    const T: &[u8] = b"enum P{_=U,A,B}";
    let k = choice(16) as usize;
    let mut d = Def::new();
    let mut ok = true;
    if k == 15 {
        d.s("enum P{_=U,A,B,}");
    }
    for (i, c) in T.iter().enumerate() {
        if k == 15 {
            break;
        }
        if i == k && !c.is_ascii_alphabetic() && *c != b' ' && *c != b'{' && *c != b'}' {
            let x = u8s();
            assume((x == b'_') | (x == b'=') | (x == b',') | (x == b';') | (x == b':') | (x == b'.') | (x == b'+') | (x == b'|') | (x == b'-'));
            d.0.push(x);
            ok = x == *c;
            // an identifier
            if i > 9 {
                assume(x != b'_');
            }
        } else {
            d.0.push(*c);
        }
    }
    decide(List, d, ok, "the list of messages");
}

pub const ENTRIES: &[(&str, fn())] = &[
    ("h_c27_len", h_c27_len),
    ("h_c27_type", h_c27_type),
    ("h_c27_array", h_c27_array),
    ("h_c27_keys", h_c27_keys),
    ("h_c27_header", h_c27_header),
    ("h_c27_values", h_c27_values),
    ("h_c27_last", h_c27_last),
    ("h_c27_field", h_c27_field),
    ("h_c27_map", h_c27_map),
    ("h_c27_max", h_c27_max),
    ("h_c27_orphan", h_c27_orphan),
    ("h_c27_twice", h_c27_twice),
    ("h_c27_kind", h_c27_kind),
    ("h_c27_enum", h_c27_enum),
    ("h_c27_flags", h_c27_flags),
    ("h_c27_list", h_c27_list),
];
