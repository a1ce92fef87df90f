//! Streaming parser properties (C01-C06).
//!
//! `Scan` is the reference scanner: an independent description, over the flat byte
//! stream, of what the parser has to do next.
use crate::gen::view::*;
use crate::rt::*;
pub use crate::util::{fletcher, put_frame};
use core::ops::{Index, Range};
use ublox::*;

pub const MAX_PAYLOAD: usize = 8176;

/// growable backing buffer whose contents stay observable (delegates to the crate's Vec impl)
pub struct VB<'a>(pub &'a mut Vec<u8>);
impl<'a> Index<Range<usize>> for VB<'a> {
    type Output = [u8];
    fn index(&self, r: Range<usize>) -> &[u8] {
        &self.0[r]
    }
}
impl<'a> Index<usize> for VB<'a> {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        &self.0[i]
    }
}
impl<'a> UnderlyingBuffer for VB<'a> {
    fn clear(&mut self) {
        <Vec<u8> as UnderlyingBuffer>::clear(self.0)
    }
    fn len(&self) -> usize {
        <Vec<u8> as UnderlyingBuffer>::len(self.0)
    }
    fn max_capacity(&self) -> usize {
        <Vec<u8> as UnderlyingBuffer>::max_capacity(self.0)
    }
    fn extend_from_slice(&mut self, o: &[u8]) -> usize {
        <Vec<u8> as UnderlyingBuffer>::extend_from_slice(self.0, o)
    }
    fn drain(&mut self, n: usize) {
        <Vec<u8> as UnderlyingBuffer>::drain(self.0, n)
    }
    fn find(&self, v: u8) -> Option<usize> {
        <Vec<u8> as UnderlyingBuffer>::find(self.0, v)
    }
    fn is_empty(&self) -> bool {
        <Vec<u8> as UnderlyingBuffer>::is_empty(self.0)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    /// nothing more; bytes from this stream position on stay buffered
    End(usize),
    /// a valid frame at this position with this payload length
    Frame(usize, usize),
    /// complete frame with wrong checksum: position, found, computed
    Bad(usize, u16, u16),
    /// header of a frame that is not complete: position, payload length
    Partial(usize, usize),
}


/// what a scanner standing at `pos` of stream `s` does next
pub fn scan(s: &[u8], pos: usize) -> Want {
    let mut i = pos;
    loop {
        if i >= s.len() {
            return Want::End(s.len());
        }
        if s[i] != 0xb5 {
            i += 1;
            continue;
        }
        if i + 1 >= s.len() {
            return Want::End(i);
        }
        if s[i + 1] != 0x62 {
            i += 1;
            continue;
        }
        if s.len() - i < 6 {
            return Want::End(i);
        }
        let l = s[i + 4] as usize + 256 * s[i + 5] as usize;
        if l > MAX_PAYLOAD {
            i += 2;
            continue;
        }
        if s.len() - i < l + 8 {
            return Want::Partial(i, l);
        }
        let l = concretize(l as u64) as usize;
        let (a, b) = fletcher(&s[i + 2..i + 6 + l]);
        let (fa, fb) = (s[i + 6 + l], s[i + 7 + l]);
        if a == fa && b == fb {
            return Want::Frame(i, l);
        }
        return Want::Bad(i, fa as u16 + 256 * fb as u16, a as u16 + 256 * b as u16);
    }
}


/// the delivered value is the frame at `i` with payload length `l`
fn same_frame(p: &PacketRef, s: &[u8], i: usize, l: usize) -> (bool, bool) {
    let (v, c, m, pl) = view(p);
    if v == V_OTHER {
        return (true, true);
    }
    ((c == s[i + 2]) & (m == s[i + 3]), eq_bytes(pl, &s[i + 6..i + 6 + l]))
}

/// Runs one `consume(chunk)` to exhaustion against the reference scanner over
/// `s[..avail]`, whose first `chunk_at` bytes were handed over before.
/// Returns the position up to which the stream is consumed.
fn drive<T: UnderlyingBuffer>(par: &mut Parser<T>, s: &[u8], mut pos: usize, chunk_at: usize, avail: usize) -> (usize, usize) {
    let st = &s[..avail];
    let mut it = par.consume(&s[chunk_at..avail]);
    loop {
        let w = scan(st, pos);
        let got = it.next();
        match (w, got) {
            (Want::Frame(i, l), Some(Ok(p))) => {
                let (a, b) = same_frame(&p, st, i, l);
                check(a, "delivered class/id is that of the next frame");
                check(b, "delivered payload is that of the next frame");
                cover("frame");
                pos = i + l + 8;
            }
            (Want::Bad(i, f, c), Some(Err(ParserError::InvalidChecksum { expect, got }))) => {
                check((expect == f) & (got == c), "checksum report carries the transmitted and the computed value");
                cover("bad");
                pos = i + 2;
            }
            (Want::End(i), None) => {
                cover("end");
                return (pos, i);
            }
            (Want::Partial(i, _), None) => {
                cover("partial");
                return (pos, i);
            }
            (Want::Frame(..), _) => {
                check(false, "a complete valid frame is delivered");
                assume(false)
            }
            (Want::Bad(..), _) => {
                check(false, "a complete frame with a wrong checksum is reported");
                assume(false)
            }
            (_, Some(Ok(_))) => {
                check(false, "nothing is delivered without a frame");
                assume(false)
            }
            (_, Some(Err(_))) => {
                check(false, "no error is reported without a corrupt frame");
                assume(false)
            }
        }
    }
}

/// what is left in the buffer continues the stream at a place from which the scanner
/// does the same as from `pos` (so any further chunk continues identically)
fn check_rest(rest: &[u8], s: &[u8], pos: usize, keep: usize) {
    // rest must be s[j..] for some pos <= j <= keep
    let ok = rest.len() >= s.len() - keep && rest.len() <= s.len() - pos;
    check(ok, "undecided bytes stay buffered");
    if ok {
        check(eq_bytes(rest, &s[s.len() - rest.len()..]), "buffered bytes are the undecided end of the stream");
    }
}

/// inductive step: arbitrary buffered bytes, then one arbitrary chunk
fn step(s: &[u8], p: usize) {
    let mut v: Vec<u8> = Vec::new();
    v.extend_from_slice(&s[..p]);
    let (pos, keep) = {
        let mut par = Parser::new(VB(&mut v));
        drive(&mut par, s, 0, p, s.len())
    };
    check_rest(&v, s, pos, keep);
    obs(v.len() as u64);
}

/// Stream templates: (bytes, tag). `k` selects one.
///  noise / frame header with a small symbolic length / payload / checksum / tail
fn template<const A: usize, const L: usize, const Z: usize>(fixed_len: bool) -> Vec<u8> {
    let mut s: Vec<u8> = Vec::new();
    let mut a = [0u8; A];
    fill(&mut a);
    s.extend_from_slice(&a);
    s.push(0xb5);
    s.push(0x62);
    s.extend_from_slice(&[0x05, u8s()]);
    if fixed_len {
        s.extend_from_slice(&[L as u8, (L >> 8) as u8]);
    } else {
        let l = u8s();
        s.push(l);
        s.push(0);
    }
    let mut p = [0u8; L];
    fill(&mut p);
    s.extend_from_slice(&p);
    s.extend_from_slice(&bytes::<2>());
    let mut z = [0u8; Z];
    fill(&mut z);
    s.extend_from_slice(&z);
    s
}

// ---------------------------------------------------------------- C01
fn total<T: UnderlyingBuffer>(par: &mut Parser<T>, chunk: &[u8], total_before: usize) -> usize {
    let mut it = par.consume(chunk);
    let mut items = 0usize;
    loop {
        match it.next() {
            None => break,
            Some(Ok(p)) => {
                let (v, _, _, pl) = view(&p);
                obs(v as u64 * 1000 + pl.len() as u64);
                cover("ok");
            }
            Some(Err(_)) => {
                cover("err");
            }
        }
        items += 1;
        // every item consumes at least the two synchronisation bytes
        check(2 * items <= total_before + chunk.len(), "iteration ends: an item consumes at least two bytes");
        assume(2 * items <= total_before + chunk.len());
    }
    check(it.next().is_none(), "an exhausted iterator stays exhausted");
    check(it.next().is_none(), "an exhausted iterator stays exhausted");
    items
}
fn total_chunks<T: UnderlyingBuffer>(mut par: Parser<T>, s: &[u8], a: usize, b: usize) {
    let mut n = total(&mut par, &s[..a], 0);
    n += total(&mut par, &s[a..b], a);
    n += total(&mut par, &s[b..], b);
    check(par.buffer_len() <= s.len(), "the buffer never holds more than was supplied");
    check(par.is_buffer_empty() == (par.buffer_len() == 0), "is_buffer_empty agrees with buffer_len");
    obs(n as u64);
    obs(par.buffer_len() as u64);
}
fn split2(n: usize) -> (usize, usize) {
    let a = choice(n as u32 + 1) as usize;
    let b = a + choice((n - a) as u32 + 1) as usize;
    (a, b)
}
fn c01_vec<const N: usize>() {
    let (a, b) = split2(N);
    let s: [u8; N] = bytes();
    total_chunks(Parser::default(), &s, a, b);
}
fn c01_fix<const N: usize>(cap0: usize, cap1: usize) {
    let cap = cap0 + choice((cap1 - cap0 + 1) as u32) as usize;
    let a = choice(N as u32 + 1) as usize;
    let s: [u8; N] = bytes();
    let mut mem = [0u8; 64];
    total_chunks(Parser::new(FixedLinearBuffer::new(&mut mem[..cap])), &s, a, N);
}
fn c01_tpl(s: Vec<u8>) {
    let p = choice(s.len() as u32 + 1) as usize;
    total_chunks(Parser::default(), &s, p, s.len());
}
#[no_mangle]
pub fn h_c01_vec7() {
    c01_vec::<7>()
}
#[no_mangle]
pub fn h_c01_vec9() {
    c01_vec::<9>()
}
#[no_mangle]
pub fn h_c01_vec10() {
    c01_vec::<10>()
}
#[no_mangle]
pub fn h_c01_fix9() {
    c01_fix::<9>(4, 12)
}
#[no_mangle]
pub fn h_c01_fix11() {
    c01_fix::<11>(4, 14)
}
#[no_mangle]
pub fn h_c01_tpl() {
    c01_tpl(template::<1, 2, 2>(false))
}
#[no_mangle]
pub fn h_c01_tpl_deep() {
    c01_tpl(template::<2, 4, 4>(false))
}
/// bytes that differ from place to place and begin no frame
fn pattern(s: &mut Vec<u8>, l: usize) {
    let at = s.len();
    s.resize(at + l, 0);
    for j in 0..l {
        s[at + j] = ((j * 7 + j / 256 + 3) & 0x7f) as u8;
    }
}
/// declared lengths around the limits; mostly fixed payload
fn big(l: usize, chunked: bool) {
    let mut s: Vec<u8> = vec![0xb5, 0x62, 0x77, 0x01, l as u8, (l >> 8) as u8];
    let at = s.len();
    pattern(&mut s, l);
    s[at] = u8s();
    if l > 5 {
        s[at + 5] = u8s();
        s[at + l - 1] = u8s();
    }
    let t: [u8; 4] = bytes();
    s.extend_from_slice(&t);
    let p = if chunked { [0, 1, 4, 5, 6, 7, at + l, at + l + 1][choice(8) as usize] } else { 0 };
    step(&s, p);
}
pub const BIG: [usize; 8] = [255, 256, 257, 1240, 8175, 8176, 8177, 65535];
#[no_mangle]
pub fn h_c01_big() {
    let l = BIG[choice(8) as usize];
    let mut s: Vec<u8> = vec![0xb5, 0x62, u8s(), u8s(), l as u8, (l >> 8) as u8];
    let have = [0usize, 1, l.min(9000), l.min(9000) + 2][choice(4) as usize];
    s.resize(6 + have, 0);
    s[6 + have / 2 - (have == 0) as usize] = u8s();
    let n = s.len();
    let p = [0, 5, n / 2, n - 1][choice(4) as usize];
    total_chunks(Parser::default(), &s, p, n);
}

// ---------------------------------------------------------------- C02 soundness monitor
struct Mon {
    last: usize,
}
impl Mon {
    /// `p` must be the next well-formed frame somewhere at or after `last` in `s`
    fn ok(&mut self, p: &PacketRef, s: &[u8]) {
        let (v, c, m, pl) = view(p);
        if v == V_OTHER {
            return;
        }
        let l = pl.len();
        let mut q = self.last;
        while q + 8 + l <= s.len() {
            let (a, b) = fletcher(&s[q + 2..q + 6 + l]);
            let hit = (s[q] == 0xb5)
                & (s[q + 1] == 0x62)
                & (s[q + 2] == c)
                & (s[q + 3] == m)
                & (s[q + 4] == l as u8)
                & (s[q + 5] == (l >> 8) as u8)
                & eq_bytes(pl, &s[q + 6..q + 6 + l])
                & (s[q + 6 + l] == a)
                & (s[q + 7 + l] == b);
            if hit {
                cover("frame");
                self.last = q + 8 + l;
                return;
            }
            q += 1;
        }
        check(false, "a delivered packet is a well-formed frame of the stream, in order, without overlap");
        assume(false);
    }
}
fn sound<T: UnderlyingBuffer>(par: &mut Parser<T>, s: &[u8], cuts: &[usize]) {
    let mut mon = Mon { last: 0 };
    let mut at = 0;
    for &c in cuts {
        let mut it = par.consume(&s[at..c]);
        loop {
            match it.next() {
                None => break,
                Some(Ok(p)) => mon.ok(&p, &s[..c]),
                Some(Err(ParserError::InvalidChecksum { expect, got })) => {
                    check(expect != got, "a checksum report means the checksums differ");
                    cover("bad")
                }
                Some(Err(_)) => cover("err"),
            }
        }
        at = c;
    }
}
fn c02_vec<const N: usize>() {
    let (a, b) = split2(N);
    let s: [u8; N] = bytes();
    let mut p = Parser::default();
    sound(&mut p, &s, &[a, b, N]);
}
fn c02_fix<const N: usize>(cap0: usize, cap1: usize) {
    let cap = cap0 + choice((cap1 - cap0 + 1) as u32) as usize;
    let a = choice(N as u32 + 1) as usize;
    let s: [u8; N] = bytes();
    let mut mem = [0u8; 64];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem[..cap]));
    sound(&mut p, &s, &[a, N]);
}
#[no_mangle]
pub fn h_c02_vec9() {
    c02_vec::<9>()
}
#[no_mangle]
pub fn h_c02_vec8() {
    c02_vec::<8>()
}
#[no_mangle]
pub fn h_c02_vec10() {
    c02_vec::<10>()
}
#[no_mangle]
pub fn h_c02_fix9() {
    c02_fix::<9>(4, 12)
}
#[no_mangle]
pub fn h_c02_fix11() {
    c02_fix::<11>(4, 14)
}
#[no_mangle]
pub fn h_c02_tpl() {
    c02_tpl(template::<1, 2, 2>(false))
}
#[no_mangle]
pub fn h_c02_tpl_deep() {
    c02_tpl(template::<1, 3, 3>(false))
}
fn c02_tpl(s: Vec<u8>) {
    let a = choice(s.len() as u32 + 1) as usize;
    let mut p = Parser::default();
    let n = s.len();
    sound(&mut p, &s, &[a, n]);
}
#[no_mangle]
pub fn h_c02_two() {
    // a frame with symbolic checksum followed by an intact one, small fixed buffers
    let cap = [8usize, 9, 11, 14][choice(4) as usize];
    let mut s = template::<0, 3, 1>(true);
    let p2: [u8; 2] = bytes();
    put_frame(&mut s, 0x77, 0x03, &p2);
    let a = choice(s.len() as u32 + 1) as usize;
    let mut mem = [0u8; 64];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem[..cap]));
    let n = s.len();
    sound(&mut p, &s, &[a, n]);
}
/// single-bit (and any other) damage to one intact frame: never delivered as itself
#[no_mangle]
pub fn h_c02_flip() {
    let l = [0usize, 2, 5, 9][choice(4) as usize];
    let mut pl = [0u8; 9];
    fill(&mut pl[..l]);
    let mut s: Vec<u8> = Vec::new();
    put_frame(&mut s, 0x77, 0x42, &pl[..l]);
    let k = choice(s.len() as u32) as usize;
    let d = u8s();
    assume(d != 0);
    let orig = s[k];
    s[k] ^= d;
    let mut p = Parser::default();
    let n = s.len();
    let mut it = p.consume(&s);
    match it.next() {
        Some(Ok(q)) => {
            let (_, _, _, pl) = view(&q);
            // a one-byte change can never go unnoticed at the same length
            check(pl.len() != l, "a frame with one damaged byte is never delivered");
        }
        Some(Err(ParserError::InvalidChecksum { .. })) => cover("bad"),
        _ => cover("none"),
    }
    obs((n as u64) << 8 | orig as u64);
}

/// long frames with any one byte (of the payload or the checksum) changed to any value, then an intact one
#[no_mangle]
pub fn h_c02_long() {
    let l = [128usize, 255, 256, 257, 300, 512, 1240, 4097, 8176][choice(9) as usize];
    let mut s: Vec<u8> = vec![0xb5, 0x62, 0x77, 0x42];
    s.extend_from_slice(&[l as u8, (l >> 8) as u8]);
    pattern(&mut s, l);
    let (a, b) = fletcher(&s[2..]);
    s.extend_from_slice(&[a, b]);
    let k = [2, 3, 6, 7, 6 + 127, 6 + l / 2, 6 + l - 128, 6 + l - 2, 6 + l - 1, 6 + l, 7 + l][choice(11) as usize];
    s[k] = u8s();
    let n1 = s.len();
    put_frame(&mut s, 0x77, 0x43, &[u8s(), 2]);
    let p = [0, 5, 6, n1 / 2, n1 - 2, n1 - 1, n1][choice(7) as usize];
    step(&s, p);
}
#[no_mangle]
pub fn h_c02_long_fix() {
    let l = [128usize, 255, 256, 257, 300, 512, 1240][choice(7) as usize];
    let mut s: Vec<u8> = vec![0xb5, 0x62, 0x77, 0x42];
    s.extend_from_slice(&[l as u8, (l >> 8) as u8]);
    pattern(&mut s, l);
    let (a, b) = fletcher(&s[2..]);
    s.extend_from_slice(&[a, b]);
    let k = [2, 3, 6, 6 + l / 2, 6 + l - 1, 6 + l, 7 + l][choice(7) as usize];
    s[k] = u8s();
    let n1 = s.len();
    put_frame(&mut s, 0x77, 0x43, &[u8s(), 2]);
    let n = s.len();
    let p = [0, 5, 6, n1 / 2, n1 - 1, n1][choice(6) as usize];
    let mut mem = vec![0u8; n];
    // as long as everything fits, exactly as with a growable buffer
    let cap = [n1, n][choice(2) as usize];
    let mut pos = 0;
    let mut par = Parser::new(FixedLinearBuffer::new(&mut mem[..cap]));
    pos = drive(&mut par, &s, pos, 0, p).0;
    drive(&mut par, &s, pos, p, n1);
    check(par.buffer_len() <= n1, "bounded");
}

// ---------------------------------------------------------------- C03 completeness (reference scanner)
fn c03<const N: usize>() {
    let p = choice(N as u32 + 1) as usize;
    let s: [u8; N] = bytes();
    step(&s, p);
}
#[no_mangle]
pub fn h_c03_n9() {
    c03::<9>()
}
#[no_mangle]
pub fn h_c03_n11() {
    c03::<11>()
}
#[no_mangle]
pub fn h_c03_n12() {
    c03::<12>()
}
#[no_mangle]
pub fn h_c03_n13() {
    c03::<13>()
}
fn c03_tpl(s: Vec<u8>) {
    let p = choice(s.len() as u32 + 1) as usize;
    step(&s, p);
}
#[no_mangle]
pub fn h_c03_tpl() {
    c03_tpl(template::<1, 3, 2>(false))
}
#[no_mangle]
pub fn h_c03_tpl2() {
    c03_tpl(template::<2, 3, 3>(false))
}
#[no_mangle]
pub fn h_c03_tpl_deep() {
    c03_tpl(template::<3, 6, 4>(false))
}
#[no_mangle]
pub fn h_c03_big() {
    let l = BIG[choice(7) as usize];
    big(l, false)
}
#[no_mangle]
pub fn h_c03_big_split() {
    let l = BIG[choice(7) as usize];
    big(l, true)
}
/// noise of arbitrary bytes, then an intact frame
#[no_mangle]
pub fn h_c03_noise() {
    noise(7)
}
#[no_mangle]
pub fn h_c03_noise9() {
    noise(9)
}
fn noise(max: u32) {
    let k = choice(max + 1) as usize;
    let mut a = [0u8; 9];
    fill(&mut a[..k]);
    let pl: [u8; 3] = bytes();
    let mut s: Vec<u8> = Vec::new();
    s.extend_from_slice(&a[..k]);
    put_frame(&mut s, 0x77, 0x05, &pl);
    step(&s, k / 2);
}

// ---------------------------------------------------------------- C04 chunking independence
#[derive(Clone, Copy, PartialEq)]
struct Ev {
    kind: u32,
    class: u8,
    id: u8,
    len: usize,
    a: u16,
    b: u16,
    data: [u8; 12],
}
fn event(r: Result<PacketRef, ParserError>) -> Ev {
    let mut e = Ev { kind: 0, class: 0, id: 0, len: 0, a: 0, b: 0, data: [0; 12] };
    match r {
        Ok(p) => {
            let (v, c, m, pl) = view(&p);
            e.kind = v;
            e.class = c;
            e.id = m;
            e.len = pl.len();
            let n = pl.len().min(12);
            e.data[..n].copy_from_slice(&pl[..n]);
            cover("frame");
        }
        Err(ParserError::InvalidChecksum { expect, got }) => {
            e.kind = 5001;
            e.a = expect;
            e.b = got;
            cover("bad");
        }
        Err(ParserError::OutOfMemory { required_size }) => {
            e.kind = 5002;
            e.len = required_size;
        }
        Err(_) => e.kind = 5003,
    }
    e
}
fn run<T: UnderlyingBuffer>(par: &mut Parser<T>, chunk: &[u8], max: usize, out: &mut Vec<Ev>) {
    let mut it = par.consume(chunk);
    for _ in 0..max {
        match it.next() {
            None => break,
            Some(r) => out.push(event(r)),
        }
    }
}
fn same_events(a: &[Ev], b: &[Ev]) {
    check(a.len() == b.len(), "same number of items");
    for i in 0..a.len().min(b.len()) {
        check(a[i].kind == b[i].kind, "same kind of item");
        check((a[i].len == b[i].len) & (a[i].class == b[i].class) & (a[i].id == b[i].id), "same message");
        check((a[i].a == b[i].a) & (a[i].b == b[i].b), "same checksum report");
        check(eq_bytes(&a[i].data, &b[i].data), "same payload");
    }
}
fn c04<T: UnderlyingBuffer, U: UnderlyingBuffer>(mut one: Parser<T>, mut many: Parser<U>, s: &[u8], cuts: &[usize]) {
    let (mut x, mut y) = (Vec::new(), Vec::new());
    run(&mut one, s, s.len() + 1, &mut x);
    let mut at = 0;
    for &c in cuts {
        run(&mut many, &s[at..c], s.len() + 1, &mut y);
        at = c;
    }
    same_events(&x, &y);
    check(one.buffer_len() == many.buffer_len(), "same number of bytes stay buffered");
    obs(x.len() as u64);
}
fn c04_vec<const N: usize>() {
    let (a, b) = split2(N);
    let s: [u8; N] = bytes();
    c04(Parser::default(), Parser::default(), &s, &[a, b, N]);
}
#[no_mangle]
pub fn h_c04_vec8() {
    c04_vec::<8>()
}
#[no_mangle]
pub fn h_c04_vec10() {
    c04_vec::<10>()
}
#[no_mangle]
pub fn h_c04_two9() {
    let a = choice(10) as usize;
    let s: [u8; 9] = bytes();
    c04(Parser::default(), Parser::default(), &s, &[a, 9]);
}
#[no_mangle]
pub fn h_c04_two11() {
    let a = choice(12) as usize;
    let s: [u8; 11] = bytes();
    c04(Parser::default(), Parser::default(), &s, &[a, 11]);
}
/// growable against a fixed buffer large enough for the stream
#[no_mangle]
pub fn h_c04_fix9() {
    let a = choice(10) as usize;
    let s: [u8; 9] = bytes();
    let mut mem = [0u8; 9];
    c04(Parser::default(), Parser::new(FixedLinearBuffer::new(&mut mem)), &s, &[a, 9]);
}
/// every byte in its own chunk
#[no_mangle]
pub fn h_c04_bytes() {
    let cut: Vec<usize> = (1..=13).collect();
    let s = template::<1, 2, 2>(false);
    c04(Parser::default(), Parser::default(), &s, &cut);
}
#[no_mangle]
pub fn h_c04_tpl() {
    let s = template::<1, 3, 3>(false);
    let (a, b) = split2(s.len());
    let n = s.len();
    c04(Parser::default(), Parser::default(), &s, &[a, b, n]);
}
/// two frames, two chunk boundaries anywhere, fixed buffer large enough
#[no_mangle]
pub fn h_c04_two_frames() {
    let (p1, p2): ([u8; 3], [u8; 2]) = (bytes(), bytes());
    let mut s: Vec<u8> = Vec::new();
    put_frame(&mut s, 0x77, 0x01, &p1);
    s.push(u8s());
    put_frame(&mut s, 0x05, 0x01, &p2);
    let (a, b) = split2(s.len());
    let n = s.len();
    let fixed = choice(2) == 1;
    if fixed {
        let mut mem = [0u8; 22];
        c04(Parser::default(), Parser::new(FixedLinearBuffer::new(&mut mem)), &s, &[a, b, n]);
    } else {
        c04(Parser::default(), Parser::default(), &s, &[a, b, n]);
    }
}
/// dropping the iterator early (growable buffer) loses nothing
fn c04_undrained(s: &[u8]) {
    let a = choice(s.len() as u32 + 1) as usize;
    let k = choice(3) as usize;
    let (mut x, mut y) = (Vec::new(), Vec::new());
    let mut one = Parser::default();
    run(&mut one, s, s.len() + 1, &mut x);
    let mut many = Parser::default();
    run(&mut many, &s[..a], k, &mut y);
    run(&mut many, &s[a..], s.len() + 1, &mut y);
    same_events(&x, &y);
    obs(x.len() as u64);
}
#[no_mangle]
pub fn h_c04_undrained9() {
    let s: [u8; 9] = bytes();
    c04_undrained(&s)
}
#[no_mangle]
pub fn h_c04_undrained() {
    let s: [u8; 10] = bytes();
    c04_undrained(&s)
}
#[no_mangle]
pub fn h_c04_undrained_two() {
    let (p1, p2): ([u8; 1], [u8; 2]) = (bytes(), bytes());
    let mut s: Vec<u8> = Vec::new();
    put_frame(&mut s, 0x77, 0x01, &p1);
    s.push(u8s());
    put_frame(&mut s, 0x05, 0x01, &p2);
    c04_undrained(&s)
}
#[no_mangle]
pub fn h_c04_big() {
    let l = [255usize, 256, 1240, 8176][choice(4) as usize];
    let mut s: Vec<u8> = vec![0xb5, 0x62, 0x77, 0x01, l as u8, (l >> 8) as u8];
    pattern(&mut s, l);
    s[6] = u8s();
    s[5 + l] = u8s();
    s.extend_from_slice(&bytes::<2>());
    let n = s.len();
    let a = [1, 6, n / 2, n - 1][choice(4) as usize];
    c04(Parser::default(), Parser::default(), &s, &[a, n]);
}

// ---------------------------------------------------------------- C05 fixed buffers
/// allowed outcomes for a parser over a buffer of `cap` bytes
fn bounded(s: &[u8], cuts: &[usize], cap: usize) {
    let mut mem = [0u8; 1024];
    let mut par = Parser::new(FixedLinearBuffer::new(&mut mem[..cap]));
    let mut pos = 0usize;
    let mut at = 0usize;
    for &c in cuts {
        let st = &s[..c];
        {
            let mut it = par.consume(&s[at..c]);
            loop {
                let w = scan(st, pos);
                let got = it.next();
                match (w, got) {
                    (Want::Frame(i, l), Some(Ok(p))) => {
                        let (a, b) = same_frame(&p, st, i, l);
                        check(a & b, "the delivered packet is the next frame");
                        cover("frame");
                        pos = i + l + 8;
                    }
                    (Want::Bad(i, f, g), Some(Err(ParserError::InvalidChecksum { expect, got }))) => {
                        check((expect == f) & (got == g), "checksum report carries the transmitted and the computed value");
                        cover("bad");
                        pos = i + 2;
                    }
                    (Want::Frame(i, l), Some(Err(ParserError::OutOfMemory { required_size }))) => {
                        check(l + 8 > cap, "a frame that fits the buffer is delivered");
                        check(required_size == l + 2, "out of memory names the required size");
                        cover("oom-complete");
                        pos = i + 2;
                    }
                    (Want::Bad(i, _, _), Some(Err(ParserError::OutOfMemory { required_size }))) => {
                        let l = concretize(st[i + 4] as u64 + 256 * st[i + 5] as u64) as usize;
                        check(l + 8 > cap, "a corrupt frame that fits the buffer is reported as such");
                        check(required_size == l + 2, "out of memory names the required size");
                        pos = i + 2;
                    }
                    (Want::Partial(i, l), Some(Err(ParserError::OutOfMemory { required_size }))) => {
                        check(c - i > cap, "no out of memory while the pending bytes fit");
                        check(required_size == l + 2, "out of memory names the required size");
                        cover("oom-partial");
                        pos = i + 2;
                    }
                    (Want::Partial(i, _), None) => {
                        check(c - i <= cap, "pending bytes that cannot be kept are reported as out of memory");
                        assume(c - i <= cap);
                        cover("partial");
                        pos = i;
                        break;
                    }
                    (Want::End(i), Some(Err(ParserError::OutOfMemory { .. }))) => {
                        check(c - i > cap, "no out of memory while the pending bytes fit");
                        assume(c - i > cap);
                        cover("oom-header");
                        pos = i + 2;
                    }
                    (Want::End(i), None) => {
                        check(c - i <= cap, "a pending header that cannot be kept is reported as out of memory");
                        assume(c - i <= cap);
                        cover("end");
                        pos = i;
                        break;
                    }
                    (Want::Frame(..), _) => {
                        check(false, "a complete frame is delivered or reported as too large");
                        assume(false)
                    }
                    (Want::Bad(..), _) => {
                        check(false, "a corrupt frame is reported");
                        assume(false)
                    }
                    (_, _) => {
                        check(false, "nothing is delivered or reported without a cause");
                        assume(false)
                    }
                }
            }
        }
        check(par.buffer_len() <= cap, "the buffer never exceeds its capacity");
        check(par.buffer_len() >= c - pos, "pending bytes stay buffered");
        at = c;
    }
    obs(pos as u64);
}
fn c05<const N: usize>(cap0: usize, cap1: usize) {
    let cap = cap0 + choice((cap1 - cap0 + 1) as u32) as usize;
    let a = choice(N as u32 + 1) as usize;
    let s: [u8; N] = bytes();
    bounded(&s, &[a, N], cap);
}
#[no_mangle]
pub fn h_c05_n9() {
    c05::<9>(4, 12)
}
#[no_mangle]
pub fn h_c05_n11() {
    c05::<11>(4, 14)
}
#[no_mangle]
pub fn h_c05_three8() {
    let cap = 4 + choice(6) as usize;
    let (a, b) = split2(8);
    let s: [u8; 8] = bytes();
    bounded(&s, &[a, b, 8], cap);
}
/// oversized frame, then one that fits
#[no_mangle]
pub fn h_c05_recover() {
    let cap = 8 + choice(9) as usize;
    let mut s: Vec<u8> = vec![0xb5, 0x62, 0x77, 0x01];
    let l = 3 + choice(8) as usize;
    let mut pl = [0u8; 11];
    let k = choice(2) as usize;
    fill(&mut pl[k * 2..k * 2 + 2]);
    s.truncate(0);
    put_frame(&mut s, 0x77, 0x01, &pl[..l]);
    s.push(u8s());
    let p2: [u8; 2] = bytes();
    put_frame(&mut s, 0x05, 0x01, &p2);
    let n = s.len();
    let a = choice(n as u32 + 1) as usize;
    bounded(&s, &[a, n], cap);
}
#[no_mangle]
pub fn h_c05_recover3() {
    let cap = 8 + 2 * choice(4) as usize;
    let mut s: Vec<u8> = Vec::new();
    let l = 2 + 3 * choice(3) as usize;
    let pl = [0u8; 11];
    put_frame(&mut s, 0x77, 0x01, &pl[..l]);
    let p2: [u8; 2] = bytes();
    put_frame(&mut s, 0x05, 0x01, &p2);
    let n = s.len();
    let (a, b) = split2(n);
    bounded(&s, &[a, b, n], cap);
}
#[no_mangle]
pub fn h_c05_tpl() {
    let cap = 6 + choice(8) as usize;
    let s = template::<1, 3, 2>(false);
    let n = s.len();
    let a = choice(n as u32 + 1) as usize;
    bounded(&s, &[a, n], cap);
}
/// buffers of realistic size: a frame whose length is around the capacity, then two small ones
#[no_mangle]
pub fn h_c05_big() {
    let cap = [64usize, 100, 255, 256, 257, 300][choice(6) as usize];
    let total = cap + [0usize, 1, 2, 9, 40][choice(5) as usize] - [0usize, 1][choice(2) as usize];
    big_then_small(total, cap)
}
#[no_mangle]
pub fn h_c05_big_deep() {
    let cap = [64usize, 255, 256, 300, 1000, 1024][choice(6) as usize];
    let total = cap + choice(26) as usize - 12;
    big_then_small(total, cap)
}
fn big_then_small(total: usize, cap: usize) {
    let l = total - 8;
    let mut s: Vec<u8> = vec![0xb5, 0x62, 0x77, 0x01, l as u8, (l >> 8) as u8];
    pattern(&mut s, l);
    s[6] = u8s();
    s[5 + l] = u8s();
    let (a, b) = fletcher(&s[2..]);
    let d = u8s();
    s.extend_from_slice(&[a, b ^ d]);
    put_frame(&mut s, 0x05, 0x01, &[6, u8s()]);
    put_frame(&mut s, 0x77, 0x02, &[]);
    let n = s.len();
    let a = [0, 1, 5, 6, 7, n / 2, cap - 1, cap, total - 1, total, total + 3][choice(11) as usize];
    bounded(&s, &[a.min(n), n], cap);
}
/// byte-at-a-time delivery
#[no_mangle]
pub fn h_c05_bytes() {
    let cap = 4 + choice(9) as usize;
    let s = template::<0, 2, 2>(false);
    let cut: Vec<usize> = (1..=s.len()).collect();
    bounded(&s, &cut, cap);
}

// ---------------------------------------------------------------- C06 corruption and resynchronisation
/// a frame with any payload and any wrong checksum, then an intact frame
fn c06_flip(l: usize) {
    let mut s: Vec<u8> = vec![0xb5, 0x62, 0x77, u8s(), l as u8, 0];
    let mut pl = [0u8; 16];
    fill(&mut pl[..l]);
    s.extend_from_slice(&pl[..l]);
    let (a, b) = fletcher(&s[2..]);
    let ck: [u8; 2] = bytes();
    assume((ck[0] != a) | (ck[1] != b));
    s.extend_from_slice(&ck);
    let n1 = s.len();
    put_frame(&mut s, 0x05, 0x01, &[6, u8s()]);
    let p = choice(3) as usize * n1 / 2;
    step(&s, p);
    cover("damaged");
}
#[no_mangle]
pub fn h_c06_flip() {
    let l = choice(5) as usize;
    c06_flip(l)
}
#[no_mangle]
pub fn h_c06_flip_deep() {
    let l = choice(9) as usize;
    c06_flip(l)
}
/// corrupt outer frame whose payload holds an intact frame: that one is delivered
#[no_mangle]
pub fn h_c06_nested() {
    let pre = choice(4) as usize;
    let post = choice(4) as usize;
    let mut a = [0u8; 3];
    fill(&mut a[..pre]);
    let p2: [u8; 2] = bytes();
    let mut pl: Vec<u8> = Vec::new();
    pl.extend_from_slice(&a[..pre]);
    put_frame(&mut pl, 0x05, 0x01, &p2);
    let mut z = [0u8; 3];
    fill(&mut z[..post]);
    pl.extend_from_slice(&z[..post]);
    let mut s: Vec<u8> = vec![0xb5, 0x62, 0x77, 0x42, pl.len() as u8, 0];
    s.extend_from_slice(&pl);
    let ck: [u8; 2] = bytes();
    s.extend_from_slice(&ck);
    let n = s.len();
    let p = choice(n as u32 + 1) as usize;
    step(&s, p);
}
/// implausible declared length, intact frame inside or behind
#[no_mangle]
pub fn h_c06_badlen() {
    let lo = u8s();
    let hi = u8s();
    assume((lo as usize) + 256 * (hi as usize) > MAX_PAYLOAD);
    let mut s: Vec<u8> = vec![0xb5, 0x62, u8s(), u8s(), lo, hi];
    let p2: [u8; 2] = bytes();
    put_frame(&mut s, 0x05, 0x01, &p2);
    let n = s.len();
    let p = choice(n as u32 + 1) as usize;
    step(&s, p);
}
/// truncated frame directly followed by intact ones
#[no_mangle]
pub fn h_c06_trunc() {
    let l = choice(5) as usize;
    let pl = [0u8; 4];
    let mut s: Vec<u8> = Vec::new();
    put_frame(&mut s, 0x77, 0x42, &pl[..l]);
    let cut = 1 + choice(s.len() as u32 - 1) as usize;
    s.truncate(cut);
    let p2: [u8; 2] = bytes();
    put_frame(&mut s, 0x05, 0x01, &p2);
    put_frame(&mut s, 0x77, 0x01, &[u8s()]);
    step(&s, cut);
}
#[no_mangle]
pub fn h_c06_n10() {
    c03::<10>()
}
#[no_mangle]
pub fn h_c06_n12() {
    c03::<12>()
}

// ---------------------------------------------------------------- C07 backing buffers
fn model<T: UnderlyingBuffer>(mut b: T, cap: usize, ops: usize) {
    let mut m: Vec<u8> = Vec::new();
    for _ in 0..ops {
        match choice(4) {
            0 => {
                let k = choice(6) as usize;
                let mut d = [0u8; 5];
                fill(&mut d[..k]);
                let lost = b.extend_from_slice(&d[..k]);
                let fit = k.min(cap.saturating_sub(m.len()));
                check(lost == k - fit, "extend reports exactly the bytes that did not fit");
                m.extend_from_slice(&d[..fit]);
                cover(if lost > 0 { "overflow" } else { "extend" });
            }
            1 => {
                let k = choice(m.len() as u32 + 1) as usize;
                b.drain(k);
                m.drain(0..k);
                cover("drain");
            }
            2 => {
                let v = u8s();
                let mut at = None;
                for (i, x) in m.iter().enumerate() {
                    if *x == v && at.is_none() {
                        at = Some(i)
                    }
                }
                check(b.find(v) == at, "find returns the first position of the value");
                cover("find");
            }
            _ => {
                b.clear();
                m.clear();
                cover("clear");
            }
        }
        check(b.len() == m.len(), "length");
        check(b.is_empty() == m.is_empty(), "emptiness");
        check(b.len() <= b.max_capacity(), "length within capacity");
        if b.len() == m.len() {
            check(eq_bytes(&b[0..m.len()], &m), "contents in order");
            for i in 0..m.len() {
                check(b[i] == m[i], "indexing");
            }
            if m.len() > 1 {
                let i = choice(m.len() as u32) as usize;
                check(eq_bytes(&b[i..m.len()], &m[i..]), "range indexing");
            }
        }
    }
}
#[no_mangle]
pub fn h_c07_fixed() {
    let cap = choice(7) as usize;
    let mut mem = [0u8; 8];
    fill(&mut mem);
    let b = FixedLinearBuffer::new(&mut mem[..cap]);
    check(b.max_capacity() == cap, "capacity is that of the supplied memory");
    check(b.len() == 0, "a new buffer is empty");
    model(b, cap, 3)
}
#[no_mangle]
pub fn h_c07_fixed4() {
    let cap = choice(9) as usize;
    let mut mem = [0u8; 8];
    let b = FixedLinearBuffer::new(&mut mem[..cap]);
    model(b, cap, 4)
}
#[no_mangle]
pub fn h_c07_vec() {
    let b: Vec<u8> = Vec::new();
    model(b, usize::MAX, 3)
}
#[no_mangle]
pub fn h_c07_vec4() {
    let b: Vec<u8> = Vec::new();
    model(b, usize::MAX, 4)
}
/// large buffers: append, remove, append, remove, search; contents by pattern, with a few symbolic bytes
fn model_big<T: UnderlyingBuffer>(mut b: T, cap: usize) {
    let mut m: Vec<u8> = Vec::new();
    let mut n = 0usize;
    let room = cap.min(300);
    let k1 = [room / 3, room.saturating_sub(1), room, room + 5][choice(4) as usize];
    let k2 = [1, 65, room][choice(3) as usize];
    for round in 0..2 {
        let k = if round == 0 { k1 } else { k2 };
        let mut d: Vec<u8> = Vec::new();
        for _ in 0..k {
            d.push((n % 181) as u8);
            n += 1;
        }
        let w = u8s();
        let at = [0, k / 2, k - 1];
        for a in at {
            d[a] = w
        }
        let lost = b.extend_from_slice(&d);
        let fit = k.min(cap.saturating_sub(m.len()));
        check(lost == k - fit, "extend reports exactly the bytes that did not fit");
        m.extend_from_slice(&d[..fit]);
        if lost > 0 {
            cover("overflow")
        }
        let q = m.len();
        let dr = if round == 0 { [1, 2, 8, 63, 64, 65, q / 2, q - q / 8][choice(8) as usize] } else { [1, 33, q / 2][choice(3) as usize] }.min(q);
        b.drain(dr);
        m.drain(0..dr);
        check(b.len() == m.len(), "length");
        check(b.is_empty() == m.is_empty(), "emptiness");
        check(b.len() <= b.max_capacity(), "length within capacity");
        assume(b.len() == m.len());
        check(eq_bytes(&b[0..m.len()], &m), "contents in order");
        if m.len() > 1 {
            check(b[m.len() - 1] == m[m.len() - 1], "indexing");
            check(eq_bytes(&b[m.len() / 2..m.len()], &m[m.len() / 2..]), "range indexing");
        }
    }
    for v in [0xb5u8, 0, 170] {
        let mut at = None;
        for (i, x) in m.iter().enumerate() {
            if *x == v {
                at = Some(i);
                break;
            }
        }
        check(b.find(v) == at, "find returns the first position of the value");
        cover("find");
    }
    obs(m.len() as u64);
}
#[no_mangle]
pub fn h_c07_big() {
    let cap = [64usize, 65, 100, 255, 256, 257, 300, 1000][choice(8) as usize];
    let mut mem = [0u8; 1000];
    let b = FixedLinearBuffer::new(&mut mem[..cap]);
    model_big(b, cap)
}
#[no_mangle]
pub fn h_c07_vec_big() {
    let b: Vec<u8> = Vec::new();
    model_big(b, usize::MAX)
}
/// memory behind the buffer is never touched
#[no_mangle]
pub fn h_c07_guard() {
    let mut mem: [u8; 12] = bytes();
    let g: [u8; 4] = [mem[0], mem[1], mem[10], mem[11]];
    {
        let mut b = FixedLinearBuffer::new(&mut mem[2..10]);
        for _ in 0..2 {
            let d: [u8; 6] = bytes();
            let k = choice(7) as usize;
            b.extend_from_slice(&d[..k]);
            let n = choice(b.len() as u32 + 3) as usize;
            b.drain(n);
        }
        obs(b.len() as u64);
    }
    check((mem[0] == g[0]) & (mem[1] == g[1]) & (mem[10] == g[2]) & (mem[11] == g[3]), "bytes outside the buffer stay untouched");
}
/// reading past the end of the stored data is refused
#[no_mangle]
pub fn h_c07_oob() {
    let mut mem = [0u8; 8];
    let mut b = FixedLinearBuffer::new(&mut mem);
    let d: [u8; 6] = bytes();
    let k = choice(7) as usize;
    b.extend_from_slice(&d[..k]);
    let e = choice(9) as usize;
    let st = choice(e as u32 + 1) as usize;
    expect_panic(e > k);
    let r = &b[st..e];
    check(eq_bytes(r, &d[st..e]), "range indexing");
}

pub const ENTRIES: &[(&str, fn())] = &[("h_c01_vec7", h_c01_vec7), ("h_c01_vec9", h_c01_vec9), ("h_c01_vec10", h_c01_vec10), ("h_c01_fix9", h_c01_fix9), ("h_c01_fix11", h_c01_fix11), ("h_c01_tpl", h_c01_tpl), ("h_c01_tpl_deep", h_c01_tpl_deep), ("h_c01_big", h_c01_big), ("h_c02_vec9", h_c02_vec9), ("h_c02_vec8", h_c02_vec8), ("h_c02_vec10", h_c02_vec10), ("h_c02_fix9", h_c02_fix9), ("h_c02_fix11", h_c02_fix11), ("h_c02_tpl", h_c02_tpl), ("h_c02_tpl_deep", h_c02_tpl_deep), ("h_c02_two", h_c02_two), ("h_c02_flip", h_c02_flip), ("h_c02_long", h_c02_long), ("h_c02_long_fix", h_c02_long_fix), ("h_c03_n9", h_c03_n9), ("h_c03_n11", h_c03_n11), ("h_c03_n12", h_c03_n12), ("h_c03_n13", h_c03_n13), ("h_c03_tpl", h_c03_tpl), ("h_c03_tpl2", h_c03_tpl2), ("h_c03_tpl_deep", h_c03_tpl_deep), ("h_c03_big", h_c03_big), ("h_c03_big_split", h_c03_big_split), ("h_c03_noise", h_c03_noise), ("h_c03_noise9", h_c03_noise9), ("h_c04_vec8", h_c04_vec8), ("h_c04_vec10", h_c04_vec10), ("h_c04_two9", h_c04_two9), ("h_c04_two11", h_c04_two11), ("h_c04_fix9", h_c04_fix9), ("h_c04_bytes", h_c04_bytes), ("h_c04_tpl", h_c04_tpl), ("h_c04_two_frames", h_c04_two_frames), ("h_c04_undrained9", h_c04_undrained9), ("h_c04_undrained", h_c04_undrained), ("h_c04_undrained_two", h_c04_undrained_two), ("h_c04_big", h_c04_big), ("h_c05_n9", h_c05_n9), ("h_c05_n11", h_c05_n11), ("h_c05_three8", h_c05_three8), ("h_c05_recover", h_c05_recover), ("h_c05_recover3", h_c05_recover3), ("h_c05_tpl", h_c05_tpl), ("h_c05_bytes", h_c05_bytes), ("h_c06_flip", h_c06_flip), ("h_c06_flip_deep", h_c06_flip_deep), ("h_c06_nested", h_c06_nested), ("h_c06_badlen", h_c06_badlen), ("h_c06_trunc", h_c06_trunc), ("h_c06_n10", h_c06_n10), ("h_c06_n12", h_c06_n12), ("h_c07_fixed", h_c07_fixed), ("h_c07_fixed4", h_c07_fixed4), ("h_c07_vec", h_c07_vec), ("h_c07_vec4", h_c07_vec4), ("h_c07_guard", h_c07_guard), ("h_c07_oob", h_c07_oob), ("h_c07_big", h_c07_big), ("h_c07_vec_big", h_c07_vec_big), ("h_c05_big", h_c05_big), ("h_c05_big_deep", h_c05_big_deep)];
