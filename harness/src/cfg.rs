//! Configuration items and configuration messages (C18, C19).
use crate::gen::cfg::*;
use crate::rt::*;
use crate::util::fletcher;
use ublox::cfg_val::CfgVal;
use ublox::*;

/// the bytes `v` stands for, in protocol order
fn le(v: u64, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}
/// does the value name something of the item's type?
fn valid(i: usize, v: u64) -> bool {
    let (_, t, _) = K[i];
    match t {
        0 | 7..=12 => v < VALUES[t as usize] as u64,
        6 => v < 32,
        _ => true,
    }
}
/// any valid value of item `i`
fn sym_value(i: usize) -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b[..K[i].2]);
    let v = u64::from_le_bytes(b);
    assume(valid(i, v));
    v
}
fn enc(i: usize, v: u64) -> Vec<u8> {
    let (k, _, n) = K[i];
    let mut o = k.to_le_bytes().to_vec();
    o.extend_from_slice(&le(v, n));
    o
}
fn is(c: &CfgVal, i: usize, v: u64) -> bool {
    let (j, w) = which(c);
    (j == i) & (w == v)
}

// ---------------------------------------------------------------- C18
/// every item, every value: its bytes, however written, and the item they are read back as
#[no_mangle]
pub fn h_c18_encode() {
    let i = choice(K.len() as u32) as usize;
    let v = sym_value(i);
    let (_, t, n) = K[i];
    let c = item(i, v);
    cover(KINDS[t as usize]);
    let want = enc(i, v);
    check(c.len() == 4 + n, "the length of an item is its key and its value");
    check(!c.is_empty(), "no item is empty");
    let mut buf = [0u8; 20];
    for (k, b) in buf.iter_mut().enumerate() {
        *b = 0xc0 + k as u8;
    }
    let w = c.write_to(&mut buf[3..17]);
    check(w == 4 + n, "write_to reports the bytes it wrote");
    check(eq_bytes(&buf[3..3 + want.len()], &want), "key and value little-endian, at the start of the buffer");
    let mut rest = true;
    for k in (0..3).chain(3 + want.len()..20) {
        rest &= buf[k] == 0xc0 + k as u8;
    }
    check(rest, "write_to touches nothing beyond the item");
    let mut o = vec![0x11u8, 0x22];
    let w = c.extend_to(&mut o);
    check(w == 4 + n, "extend_to reports the bytes it appended");
    check((o[0] == 0x11) & (o[1] == 0x22) & eq_bytes(&o[2..], &want), "extend_to appends the same bytes");
    let mut exact = want.clone();
    check(c.write_to(&mut exact) == 4 + n, "an exactly fitting buffer suffices");
    check(is(&CfgVal::parse(&want), i, v), "parsing the bytes gives the item back");
    check(is(&c.clone(), i, v), "writing leaves the item as it was");
}
const KINDS: [&str; 13] = ["bool", "u8", "u16", "i16", "u32", "u64", "CfgInfMask", "DataBits", "Parity", "StopBits", "AlignmentToReferenceTime", "TpPulse", "TpPulseLength"];

/// every key with any bytes behind it, as many as fit or fewer or more
#[no_mangle]
pub fn h_c18_decode() {
    let i = choice(K.len() as u32) as usize;
    let (k, t, n) = K[i];
    let len = choice(4) as usize; // one too few, exact, 1 or 5 more
    let have = [n - 1, n, n + 1, n + 5][len];
    let mut b = k.to_le_bytes().to_vec();
    let mut val = vec![0u8; have];
    fill(&mut val);
    b.extend_from_slice(&val);
    let mut v = [0u8; 8];
    for j in 0..n.min(have) {
        v[j] = val[j];
    }
    let v = u64::from_le_bytes(v);
    if have < n {
        expect_panic(true);
        cover("short");
        let _ = which(&CfgVal::parse(&b));
        return;
    }
    if t != 6 && concretize(!valid(i, v) as u64) == 1 {
        expect_panic(true);
        cover("reserved");
        let _ = which(&CfgVal::parse(&b));
        return;
    }
    let c = CfgVal::parse(&b);
    cover("item");
    let (j, w) = which(&c);
    check(j == i, "the key decides the item");
    let m = if t == 6 { 0x1f } else { !0 };
    check(w & m == v & m, "the value is the little-endian value behind the key");
    check(c.len() == 4 + n, "an item consumes its key and its value");
}
/// keys that belong to no item, and inputs that do not hold a key
#[no_mangle]
pub fn h_c18_unknown() {
    expect_panic(true);
    let n = choice(13) as usize;
    let mut b = vec![0u8; n];
    fill(&mut b);
    if n >= 4 {
        let key = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let mut no = true;
        for (k, _, _) in K.iter() {
            no &= key != *k;
        }
        assume(no);
        cover("unknown key");
    } else {
        cover("no key");
    }
    let _ = which(&CfgVal::parse(&b));
}
/// whatever bytes parse as an item, writing the item gives these very bytes
#[no_mangle]
pub fn h_c18_rewrite() {
    let i = choice(K.len() as u32) as usize;
    let (k, t, n) = K[i];
    let mut b = k.to_le_bytes().to_vec();
    let mut val = vec![0u8; n];
    fill(&mut val);
    b.extend_from_slice(&val);
    let mut v = [0u8; 8];
    v[..n].copy_from_slice(&val);
    assume(valid(i, u64::from_le_bytes(v)));
    let c = CfgVal::parse(&b);
    let mut o = vec![];
    c.extend_to(&mut o);
    cover(KINDS[t as usize]);
    check(eq_bytes(&o, &b), "an item read and written again is the same bytes");
}

// ---------------------------------------------------------------- C19
fn set_frame(ver: u8, layers: u8, res: u16, list: &[(usize, u64)]) -> Vec<u8> {
    let mut p = vec![ver, layers];
    p.extend_from_slice(&res.to_le_bytes());
    for (i, v) in list {
        p.extend_from_slice(&enc(*i, *v));
    }
    p
}
/// the item lists to send or read: every single item, all pairs and triples of item types, long lists
fn lists() -> Vec<(usize, u64)> {
    let mut l = vec![];
    let mut put = |i: usize| {
        let v = sym_value(i);
        l.push((i, v))
    };
    match choice(9) {
        0 => put(choice(K.len() as u32) as usize),
        1 => {
            put(REPS[choice(13) as usize]);
            put(REPS[choice(13) as usize]);
        }
        2 => {
            for _ in 0..3 {
                put(REPS[choice(13) as usize]);
            }
        }
        3 => {
            let n = [0, 1, 4, 20, 21, 22, 63, 64][choice(8) as usize];
            for _ in 0..n {
                put(REPS[5]); // 12 bytes each: 20 items are 244 bytes, 64 are 772
            }
        }
        4 => {
            for k in 0..64 {
                put(REPS[[1, 2, 4, 5, 0][k % 5]])
            }
        }
        5 => {
            // 5-byte items behind 0..4 of 6 bytes: an item at every place beyond the first 24 bytes
            let n = choice(5) as usize;
            for k in 0..64 {
                put(REPS[if k < n { 2 } else { 1 }])
            }
        }
        6 => {
            // 12-byte items behind 0..11 of 5 bytes: likewise up to 740 bytes
            let n = choice(12) as usize;
            for k in 0..64 {
                put(REPS[if k < n { 1 } else { 5 }])
            }
        }
        7 => {
            // any item behind one of every type
            put(REPS[choice(13) as usize]);
            put(choice(K.len() as u32) as usize);
        }
        _ => {
            // the same item twice, with different values
            let r = REPS[choice(13) as usize];
            put(r);
            put(REPS[1]);
            put(r);
        }
    }
    l
}
#[no_mangle]
pub fn h_c19_set() {
    let l = lists();
    let (ver, layers) = (u8s(), u8s());
    assume(layers < 8);
    let res = u16s();
    let items: Vec<CfgVal> = l.iter().map(|(i, v)| item(*i, *v)).collect();
    let build = || CfgValSetBuilder { version: ver, layers: CfgLayer::from_bits_truncate(layers), reserved1: res, cfg_data: &items };
    let f = build().into_packet_vec();
    let want = set_frame(ver, layers, res, &l);
    let n = want.len();
    cover(match l.len() {
        0 => "empty",
        1 => "one",
        2..=4 => "few",
        _ => "many",
    });
    if n > 255 {
        cover("two-byte length");
    }
    check(f.len() == n + 8, "a frame is the payload and 8 bytes");
    if f.len() != n + 8 {
        return;
    }
    check((f[0] == 0xb5) & (f[1] == 0x62) & (f[2] == 0x06) & (f[3] == 0x8a), "sync, class and id");
    check((f[4] == n as u8) & (f[5] == (n >> 8) as u8), "payload length, little-endian");
    check(eq_bytes(&f[6..6 + n], &want), "version, layers, reserved bytes and every item in order");
    let (a, b) = fletcher(&f[2..6 + n]);
    check((f[6 + n] == a) & (f[7 + n] == b), "checksum over class, id, length and payload");
    // appended to something already there
    let mut o = vec![0xb5u8, 0x62, 9];
    build().extend_to(&mut o);
    check(o.len() == 3 + n + 8 && eq_bytes(&o[..3], &[0xb5, 0x62, 9]) && eq_bytes(&o[3..], &f), "extend_to appends exactly the frame");
    check(l.iter().zip(&items).fold(true, |r, ((i, v), c)| r & is(c, *i, *v)), "the caller's items are unchanged");
}
#[no_mangle]
pub fn h_c19_iter() {
    let l = lists();
    let items: Vec<CfgVal> = l.iter().map(|(i, v)| item(*i, *v)).collect();
    let mut n = 0;
    for (i, _) in &l {
        n += 4 + K[*i].2;
    }
    let slack = if choice(2) == 0 { 0 } else { 5 };
    let mut buf = vec![0xeeu8; n + slack];
    let mut it = CfgValIter::new(&mut buf, &items);
    let mut copy = None;
    for (k, (i, v)) in l.iter().enumerate() {
        if k == 1 {
            copy = Some(it.clone());
        }
        match it.next() {
            Some(c) => check(is(&c, *i, *v), "the items come back in order with their values"),
            None => check(false, "no item is lost"),
        }
    }
    check(it.next().is_none() && it.next().is_none(), "after the last item the iteration has ended");
    cover(if l.is_empty() { "empty" } else { "items" });
    if let Some(mut c) = copy {
        let x = c.next();
        check(matches!(&x, Some(x) if is(x, l[1].0, l[1].1)), "a clone goes on where it was taken");
    }
    drop(it);
    let mut want = vec![];
    for (i, v) in &l {
        want.extend_from_slice(&enc(*i, *v));
    }
    want.resize(n + slack, 0xee);
    check(eq_bytes(&buf, &want), "the buffer holds the items one after the other and is otherwise untouched");
}
/// a buffer too small for the list is refused (by a panic), never truncated silently
#[no_mangle]
pub fn h_c19_small() {
    expect_panic(true);
    let i = choice(K.len() as u32) as usize;
    let v = sym_value(i);
    let (_, t, n) = K[i];
    cover(KINDS[t as usize]);
    let c = item(i, v);
    if choice(2) == 0 {
        let mut b = vec![0u8; 3 + n];
        c.write_to(&mut b);
    } else {
        let l = [item(REPS[1], 7), c];
        let mut b = vec![0u8; 5 + 3 + n];
        let _ = CfgValIter::new(&mut b, &l);
    }
}

pub const ENTRIES: &[(&str, fn())] = &[
    ("h_c18_encode", h_c18_encode),
    ("h_c18_decode", h_c18_decode),
    ("h_c18_unknown", h_c18_unknown),
    ("h_c18_rewrite", h_c18_rewrite),
    ("h_c19_set", h_c19_set),
    ("h_c19_iter", h_c19_iter),
    ("h_c19_small", h_c19_small),
];
