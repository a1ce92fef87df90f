//! Received messages: dispatch, accessors, validity, repeated blocks (C08-C12).
use crate::gen::pkt::*;
use crate::gen::view::*;
use crate::rt::*;
use crate::util::put_frame;
use ublox::*;

const N: u32 = FIXED.len() as u32;
const VAR: usize = 9999;

/// hand one intact frame to a fresh parser and look at the only thing it delivers
pub fn deliver(class: u8, id: u8, payload: &[u8], f: impl FnOnce(&PacketRef)) {
    let mut s = Vec::new();
    put_frame(&mut s, class, id, payload);
    let mut par = Parser::default();
    let mut it = par.consume(&s);
    match it.next() {
        Some(Ok(p)) => f(&p),
        _ => check(false, "an intact frame is delivered"),
    }
    check(it.next().is_none(), "one frame, one packet");
}

/// payload of `n` symbolic bytes
pub fn sym_payload(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}

/// a payload length declared message `i` allows (blocks 0..=`more`)
fn some_len(i: usize, more: u32) -> usize {
    if FIXED[i] != VAR {
        FIXED[i]
    } else {
        HEADER[i] + BLOCK[i] * choice(more + 1) as usize
    }
}

// ---------------------------------------------------------------- C08
#[no_mangle]
pub fn h_c08_each() {
    let i = choice(N) as usize;
    if i == V_MonVer as usize {
        cover("each");
        return; // see h_c08_monver
    }
    let n = some_len(i, 2);
    let p = sym_payload(n);
    assume(allows(i as u32, &p));
    cover(NAMES[i]);
    let (c, m) = CLASS_ID[i];
    deliver(c, m, &p, |pk| {
        let (v, c2, m2, b) = view(pk);
        check(v == i as u32, DELIVERED[i]);
        check(c2 == c && m2 == m && pk.class_and_msg_id() == (c, m), "class and id reported are those of the frame");
        check(eq_bytes(b, &p), "payload reported is that of the frame");
    });
}

#[no_mangle]
pub fn h_c08_monver() {
    let k = choice(3) as usize;
    let mut p = vec![0u8; 40 + 30 * k];
    let w = choice(2 + k as u32) as usize;
    let at = [0, 30, 40, 70][w];
    p[at] = u8s();
    assume(p[at] < 0x80);
    deliver(10, 4, &p, |pk| {
        let (v, c, m, b) = view(pk);
        check(v == V_MonVer, "MonVer is delivered as MonVer");
        check((c, m) == (10, 4) && eq_bytes(b, &p), "class, id, payload are those of the frame");
        cover("monver");
    });
}

fn c08_all(n: usize, sym: usize) {
    let c = u8s();
    let m = u8s();
    let mut p = vec![0u8; n];
    fill(&mut p[..sym]);
    assume(!((c == 10) & (m == 4)));
    deliver(c, m, &p, |pk| {
        let (v, c2, m2, b) = view(pk);
        check((c2 == c) & (m2 == m), "class and id reported are those of the frame");
        check(pk.class_and_msg_id() == (c, m), "class_and_msg_id is that of the frame");
        check(eq_bytes(b, &p), "payload reported is that of the frame");
        if v != V_OTHER {
            check(v == expected(c, m, &p), "the frame is presented as the message declared for it");
        }
        if v == V_UNKNOWN {
            cover("unknown")
        } else {
            cover("known")
        }
    });
}

/// any class, id and payload of 0..=100 bytes
#[no_mangle]
pub fn h_c08_all() {
    let n = choice(101) as usize;
    c08_all(n, n);
}
/// longer payloads around the block and buffer boundaries
#[no_mangle]
pub fn h_c08_long() {
    let n = [128, 255, 256, 257, 772, 1239, 1240, 1241, 8175, 8176][choice(10) as usize];
    c08_all(n, 16);
}

/// every number of blocks of the messages that repeat one
#[no_mangle]
pub fn h_c08_counts() {
    const L: [(u32, usize); 7] = [(V_NavSat, 104), (V_RxmRawx, 255), (V_EsfRaw, 155), (V_EsfMeas, 34), (V_RxmSfrbx, 64), (V_MonVer, 40), (V_InfError, 128)];
    let k = choice(7) as usize;
    let (v0, max) = L[k];
    let i = v0 as usize;
    let cnt = choice(max as u32 + 1) as usize;
    let step = if BLOCK[i] == 0 { 1 } else { BLOCK[i] };
    let n = HEADER[i] + step * cnt;
    let mut p = vec![0u8; n];
    if i != V_MonVer as usize && n > 0 {
        fill(&mut p[..HEADER[i].min(n)]);
        let w = n.min(4);
        fill(&mut p[n - w..]);
    }
    assume(allows(v0, &p));
    let (c, m) = CLASS_ID[i];
    deliver(c, m, &p, |pk| {
        let (v, c2, m2, b) = view(pk);
        check(v == v0, DELIVERED[i]);
        check(c2 == c && m2 == m && pk.class_and_msg_id() == (c, m), "class and id reported are those of the frame");
        check(eq_bytes(b, &p), "payload reported is that of the frame");
        cover(NAMES[i]);
    });
}
/// every length up to 300 bytes, any class and id
#[no_mangle]
pub fn h_c08_lens() {
    let n = 101 + choice(200) as usize;
    c08_all(n, 8);
}

// ---------------------------------------------------------------- C09
fn c09(i: usize, n: usize) {
    let p = sym_payload(n);
    assume(allows(i as u32, &p));
    let (c, m) = CLASS_ID[i];
    deliver(c, m, &p, |pk| {
        let (v, _, _, _) = view(pk);
        if v == i as u32 {
            cover(NAMES[i]);
            get_all(pk, &p);
        }
    });
}
#[no_mangle]
pub fn h_c09() {
    let i = choice(N) as usize;
    if i == V_MonVer as usize || INF(i) {
        return; // only text, see C12
    }
    let n = some_len(i, 1);
    c09(i, n);
}
#[allow(non_snake_case)]
fn INF(i: usize) -> bool {
    FIXED[i] == VAR && HEADER[i] == 0
}

// ---------------------------------------------------------------- C10
pub fn use_text(t: Option<&str>) {
    match t {
        Some(t) => {
            let b = t.as_bytes();
            obs(b.len() as u64);
            if let Some(x) = b.last() {
                obs(*x as u64)
            }
        }
        None => obs(9),
    }
}
macro_rules! user {
    ($n:ident, $t:ty, $f:expr) => {
        pub fn $n(mut it: $t) {
            let mut k = 0u32;
            loop {
                match it.next() {
                    Some(x) => $f(x),
                    None => break,
                }
                k += 1;
                if k > 3000 {
                    check(false, "iteration ends");
                    return;
                }
            }
            check(it.next().is_none(), "an ended iterator stays ended");
            obs(k as u64);
        }
    };
}
user!(use_navsatiter, NavSatIter, |x: NavSatSvInfoRef| use_NavSatSvInfo(&x));
user!(use_rxmrawxinfoiter, RxmRawxInfoIter, |x: RxmRawxInfoRef| use_RxmRawxInfo(&x));
user!(use_esfmeasdataiter, EsfMeasDataIter, |x: EsfMeasData| obs(x.data_type as u64 + x.data_field as u64));
user!(use_esfrawdataiter, EsfRawDataIter, |x: EsfRawData| obs(x.data_type as u64 + x.data_field as u64 + x.sensor_time_tag as u64));
user!(use_dwrditer, DwrdIter, |x: u32| obs(x as u64));
user!(use_monverextensioniter, MonVerExtensionIter, |x: &str| use_text(Some(x)));

fn c10(i: usize, p: &[u8]) {
    let (c, m) = CLASS_ID[i];
    deliver(c, m, p, |pk| {
        let (v, _, _, _) = view(pk);
        if v == i as u32 {
            cover(NAMES[i]);
            use_all(pk);
        }
    });
}
#[no_mangle]
pub fn h_c10() {
    let i = choice(N) as usize;
    if i == V_MonVer as usize || INF(i) {
        return; // see h_c10_text
    }
    let n = if FIXED[i] != VAR { FIXED[i] } else { HEADER[i] + choice(if BLOCK[i] > 8 { BLOCK[i] as u32 + 2 } else { 14 }) as usize };
    c10(i, &sym_payload(n));
}
#[no_mangle]
pub fn h_c10_text() {
    text_case(3, |i, p| {
        let (c, m) = CLASS_ID[i];
        deliver(c, m, p, |pk| {
            if view(pk).0 == i as u32 {
                cover(NAMES[i]);
                use_all(pk);
            }
        })
    });
}
#[no_mangle]
pub fn h_c10_long() {
    let (i, n) = [
        (V_NavSat, 1232 + 8),
        (V_NavSat, 3060 + 8),
        (V_RxmRawx, 8176),
        (V_EsfMeas, 8 + 128),
        (V_EsfRaw, 1236),
        (V_RxmSfrbx, 72),
    ][choice(6) as usize];
    let mut p = vec![0u8; n];
    fill(&mut p[..16]);
    fill(&mut p[n - 8..]);
    c10(i as usize, &p);
}

// ---------------------------------------------------------------- C11
/// two frames: the one under test and an acknowledgement behind it
fn two(class: u8, id: u8, p: &[u8], f: impl FnOnce(u32, u8, u8, &[u8])) {
    let mut s = Vec::new();
    put_frame(&mut s, class, id, p);
    put_frame(&mut s, 5, 1, &[6, 1]);
    let mut par = Parser::default();
    let mut it = par.consume(&s);
    match it.next() {
        Some(Ok(pk)) => {
            let (v, c, m, b) = view(&pk);
            f(v, c, m, b)
        }
        _ => check(false, "an intact frame is delivered, whatever its contents"),
    }
    match it.next() {
        Some(Ok(pk)) => check(view(&pk).0 == V_AckAck, "parsing continues with the next frame"),
        _ => check(false, "parsing continues with the next frame"),
    }
    check(it.next().is_none(), "nothing more than the two frames");
}
fn c11(i: usize, p: &[u8]) {
    let (c, m) = CLASS_ID[i];
    two(c, m, p, |v, c2, m2, b| {
        check((c2 == c) & (m2 == m) & eq_bytes(b, p), "class, id and payload are kept");
        if v == V_OTHER {
            return;
        }
        let ok = allows(i as u32, p);
        check(ok | (v != i as u32), REFUSED[i]);
        check(v == expected(c, m, p), "presented as the declared message that allows it, else as unknown");
        if ok {
            cover("allowed")
        } else {
            cover("refused")
        }
    });
}
/// wrong (and right) lengths of every message
#[no_mangle]
pub fn h_c11_len() {
    let i = choice(N) as usize;
    let l = HEADER[i];
    let b = BLOCK[i];
    let n = match choice(11) {
        0 => 0,
        1 => 1,
        2 => (l + 255).saturating_sub(256), // l - 1, or 0
        3 => l + 1,
        4 => l + 4,
        5 => l + 8,
        6 => 2 * l,
        7 => l + 256,
        8 => l,
        9 => (l + b).saturating_sub(1),
        _ => l + 2 * b + 1,
    };
    let n = if n == 0 { l.saturating_sub(1) } else { n };
    let mut p = vec![0u8; n];
    if i != V_MonVer as usize && !INF(i) {
        fill(&mut p[..n.min(108)]);
    }
    if i == V_MonVer as usize {
        // zeros only: every text is empty and valid
    }
    c11(i, &p);
}
/// every value of the fields a message refuses values of
#[no_mangle]
pub fn h_c11_field() {
    const L: [u32; 9] = [V_CfgOdo, V_CfgPrtI2c, V_CfgPrtSpi, V_CfgPrtUart, V_CfgNav5, V_CfgTmode2, V_CfgTp5, V_EsfMeas, V_EsfMeas];
    let k = choice(9) as usize;
    let i = L[k] as usize;
    let n = if FIXED[i] != VAR { FIXED[i] } else { 8 + 4 * choice(if k == 7 { 4 } else { 34 }) as usize };
    let mut p = vec![0u8; n];
    if k == 8 {
        fill(&mut p[..8]);
    } else {
        fill(&mut p);
    }
    c11(i, &p);
}

// ---------------------------------------------------------------- C12
/// every block of `n` at `at`, `size` bytes each, with the first, middle and last one symbolic
fn blocks(hdr: usize, size: usize, n: usize) -> Vec<u8> {
    let mut p = vec![0u8; hdr + size * n];
    fill(&mut p[..hdr]);
    for k in 0..n {
        if n <= 8 || k == 0 || k == n / 2 || k == n - 1 {
            fill(&mut p[hdr + size * k..hdr + size * k + size]);
        }
    }
    p
}
macro_rules! blk {
    ($name:ident, $pk:ident, $f:ident, $hdr:expr, $size:expr, $counts:expr, $item:expr, $done:expr) => {
        fn $name(counts: &[usize]) {
            let n = counts[choice(counts.len() as u32) as usize];
            let p = blocks($hdr, $size, n);
            let (c, m) = CLASS_ID[concat_v(stringify!($pk))];
            deliver(c, m, &p, |pk| match pk {
                PacketRef::$pk(r) => {
                    let mut it = r.$f();
                    for k in 0..n {
                        match it.next() {
                            Some(x) => $item(x, &p[$hdr + $size * k..$hdr + $size * k + $size]),
                            None => {
                                check(false, "every block is presented");
                                return;
                            }
                        }
                    }
                    check(it.next().is_none(), "no block that is not there");
                    check(it.next().is_none(), "an ended iterator stays ended");
                    cover(stringify!($pk));
                }
                _ => check(false, "whole blocks are accepted"),
            });
        }
    };
}
fn concat_v(n: &str) -> usize {
    let mut i = 0;
    while i < NAMES.len() {
        if NAMES[i] == n {
            return i;
        }
        i += 1;
    }
    panic!()
}
blk!(c12_navsat, NavSat, svs, 8, 12, 0, |x: NavSatSvInfoRef, b: &[u8]| {
    check(eq_bytes(x.as_bytes(), b), "NavSat block bytes");
    get_NavSatSvInfo(&x, b)
}, 0);
blk!(c12_rawx, RxmRawx, measurements, 16, 32, 0, |x: RxmRawxInfoRef, b: &[u8]| {
    check(eq_bytes(x.as_bytes(), b), "RxmRawx block bytes");
    get_RxmRawxInfo(&x, b)
}, 0);
blk!(c12_esfraw, EsfRaw, data, 4, 8, 0, |x: EsfRawData, b: &[u8]| {
    check(x.data_type == b[3], "EsfRaw data type");
    check(x.data_field == u32::from_le_bytes([b[0], b[1], b[2], 0]), "EsfRaw data field");
    check(x.sensor_time_tag == u32::from_le_bytes([b[4], b[5], b[6], b[7]]), "EsfRaw time tag");
}, 0);
blk!(c12_sfrbx, RxmSfrbx, dwrd, 8, 4, 0, |x: u32, b: &[u8]| {
    check(x == u32::from_le_bytes([b[0], b[1], b[2], b[3]]), "RxmSfrbx word");
}, 0);
#[no_mangle]
pub fn h_c12_blocks() {
    match choice(4) {
        0 => c12_navsat(&[0, 1, 2, 3, 7, 102]),
        1 => c12_rawx(&[0, 1, 2, 3, 255]),
        2 => c12_esfraw(&[0, 1, 2, 3, 7, 154]),
        _ => c12_sfrbx(&[0, 1, 2, 3, 8, 10, 16]),
    }
}
#[no_mangle]
pub fn h_c12_blocks_deep() {
    match choice(4) {
        0 => c12_navsat(&[4, 5, 6, 8, 50, 255]),
        1 => c12_rawx(&[4, 5, 8, 100]),
        2 => c12_esfraw(&[4, 5, 6, 8, 40]),
        _ => c12_sfrbx(&[4, 5, 6, 7, 9]),
    }
}
/// payloads that end in the middle of a block: refused, or the tail is not shown as a block
macro_rules! part {
    ($name:ident, $pk:ident, $f:ident, $hdr:expr, $size:expr) => {
        fn $name() {
            let n = [0usize, 1, 2, 5][choice(4) as usize];
            let r = 1 + choice($size - 1) as usize;
            let mut p = vec![0u8; $hdr + $size * n + r];
            let all = p.len();
            fill(&mut p[..$hdr]);
            fill(&mut p[all - r..]);
            let (c, m) = CLASS_ID[concat_v(stringify!($pk))];
            deliver(c, m, &p, |pk| match pk {
                PacketRef::$pk(r) => {
                    let mut k = 0;
                    let mut it = r.$f();
                    while k <= n && it.next().is_some() {
                        k += 1;
                    }
                    check(k == n, "an incomplete block is not presented");
                    check(it.next().is_none(), "an ended iterator stays ended");
                    cover("tail");
                }
                PacketRef::Unknown(u) => {
                    check(eq_bytes(u.payload, &p), "the refused payload is kept");
                    cover("refused");
                }
                _ => check(false, "not another message"),
            });
        }
    };
}
part!(part_navsat, NavSat, svs, 8, 12);
part!(part_rawx, RxmRawx, measurements, 16, 32);
part!(part_esfraw, EsfRaw, data, 4, 8);
part!(part_sfrbx, RxmSfrbx, dwrd, 8, 4);
#[no_mangle]
pub fn h_c12_partial() {
    match choice(5) {
        0 => part_navsat(),
        1 => part_rawx(),
        2 => part_esfraw(),
        3 => part_sfrbx(),
        _ => {
            let n = choice(3) as usize;
            let r = 1 + choice(29) as usize;
            let p = vec![0u8; 40 + 30 * n + r];
            deliver(10, 4, &p, |pk| match pk {
                PacketRef::MonVer(m) => {
                    let mut k = 0;
                    let mut it = m.extension();
                    while k <= n && it.next().is_some() {
                        k += 1;
                    }
                    check(k == n, "an incomplete extension is not presented");
                    check(it.next().is_none(), "an ended iterator stays ended");
                }
                PacketRef::Unknown(u) => {
                    check(eq_bytes(u.payload, &p), "the refused payload is kept");
                    cover("refused");
                }
                _ => check(false, "not another message"),
            });
        }
    }
}
/// ESF-MEAS: block count and calibration tag given by the flag word
#[no_mangle]
pub fn h_c12_esfmeas() {
    let words = [0usize, 1, 2, 3, 4, 5, 31, 32, 33][choice(9) as usize];
    let mut p = vec![0u8; 8 + 4 * words];
    if words <= 5 {
        fill(&mut p);
    } else {
        fill(&mut p[..12]);
        fill(&mut p[8 + 4 * words - 8..]);
    }
    let num = (p[5] >> 3) as usize;
    let cal = p[4] & 8 != 0;
    let fits = num + cal as usize <= words;
    deliver(0x10, 2, &p, |pk| match pk {
        PacketRef::EsfMeas(r) => {
            check(fits, "EsfMeas with fewer words than its flags announce is refused");
            if !fits {
                return;
            }
            let num = concretize(num as u64) as usize;
            let mut it = r.data();
            for k in 0..num {
                let b = &p[8 + 4 * k..12 + 4 * k];
                match it.next() {
                    Some(x) => {
                        check(x.data_type == b[3] & 0x3f, "EsfMeas data type");
                        check(x.data_field == u32::from_le_bytes([b[0], b[1], b[2], 0]), "EsfMeas data field");
                    }
                    None => {
                        check(false, "every announced block is presented");
                        return;
                    }
                }
            }
            check(it.next().is_none(), "no block beyond the announced ones");
            check(it.next().is_none(), "an ended iterator stays ended");
            match r.calib_tag() {
                Some(t) => {
                    check(cal, "a calibration tag only when the flag says so");
                    let o = 8 + 4 * num;
                    if o + 4 <= p.len() {
                        check(t == u32::from_le_bytes([p[o], p[o + 1], p[o + 2], p[o + 3]]), "calibration tag follows the last block");
                    }
                    cover("tag");
                }
                None => {
                    check(!cal, "the calibration tag is presented when the flag says so");
                    cover("notag");
                }
            }
        }
        _ => {
            check(!fits, "EsfMeas with all announced words is accepted");
            cover("refused");
        }
    });
}

/// UTF-8 well-formedness, written from the standard's table
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        let cont = |k: usize, lo: u8, hi: u8| k < b.len() && b[k] >= lo && b[k] <= hi;
        if x < 0x80 {
            i += 1;
        } else if x < 0xc2 {
            return false;
        } else if x < 0xe0 {
            if !cont(i + 1, 0x80, 0xbf) {
                return false;
            }
            i += 2;
        } else if x < 0xf0 {
            let lo = if x == 0xe0 { 0xa0 } else { 0x80 };
            let hi = if x == 0xed { 0x9f } else { 0xbf };
            if !(cont(i + 1, lo, hi) && cont(i + 2, 0x80, 0xbf)) {
                return false;
            }
            i += 3;
        } else if x < 0xf5 {
            let lo = if x == 0xf0 { 0x90 } else { 0x80 };
            let hi = if x == 0xf4 { 0x8f } else { 0xbf };
            if !(cont(i + 1, lo, hi) && cont(i + 2, 0x80, 0xbf) && cont(i + 3, 0x80, 0xbf)) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
/// one text carrying message with a symbolic window of `w` bytes
fn text_case(w: usize, f: impl Fn(usize, &[u8])) {
    let k = choice(10);
    if k < 5 {
        let i = [V_InfError, V_InfWarning, V_InfNotice, V_InfTest, V_InfDebug][k as usize] as usize;
        let (pre, n) = [(0, 0), (0, 1), (0, w), (7, w), (15, w), (16, 2), (300, w)][choice(7) as usize];
        let mut p = vec![b'a'; pre + n];
        fill(&mut p[pre..]);
        f(i, &p);
        return;
    }
    let i = V_MonVer as usize;
    // field start, field size
    let (st, sz) = [(0, 30), (30, 10), (40, 30), (70, 30), (40, 30)][k as usize - 5];
    let blocks = if k == 9 { 1 } else { 2 };
    let mut p = vec![b'v'; 40 + 30 * blocks];
    let ends = [29, 39, 69, 99];
    for e in ends {
        if e < p.len() {
            p[e] = 0;
        }
    }
    // the window moves through the field; the last one takes its terminator
    let at = match choice(3) {
        0 => st,
        1 => st + sz / 2,
        _ => st + sz - w,
    };
    fill(&mut p[at..at + w]);
    f(i, &p);
}
fn cstr(p: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < p.len() {
        if p[i] == 0 {
            return Some(i);
        }
        i += 1;
    }
    None
}
fn text_field(t: &str, p: &[u8]) {
    match cstr(p) {
        Some(n) => check(eq_bytes(t.as_bytes(), &p[..n]), "text is the field's bytes up to its first zero"),
        None => check(false, "a text without terminator is refused"),
    }
}
fn inf_text(t: Option<&str>, p: &[u8]) {
    match t {
        Some(t) => {
            check(eq_bytes(t.as_bytes(), p), "information text is the whole payload");
            check(utf8(p), "information text is valid UTF-8");
            cover("text");
        }
        None => {
            check(!utf8(p), "valid information text is presented");
            cover("notext");
        }
    }
}
fn c12_text(w: usize) {
    text_case(w, |i, p| {
        let (c, m) = CLASS_ID[i];
        deliver(c, m, p, |pk| match pk {
            PacketRef::InfError(r) => inf_text(r.message(), p),
            PacketRef::InfWarning(r) => inf_text(r.message(), p),
            PacketRef::InfNotice(r) => inf_text(r.message(), p),
            PacketRef::InfTest(r) => inf_text(r.message(), p),
            PacketRef::InfDebug(r) => inf_text(r.message(), p),
            PacketRef::MonVer(r) => {
                text_field(r.software_version(), &p[..30]);
                text_field(r.hardware_version(), &p[30..40]);
                let n = (p.len() - 40) / 30;
                let mut it = r.extension();
                for k in 0..n {
                    match it.next() {
                        Some(t) => text_field(t, &p[40 + 30 * k..70 + 30 * k]),
                        None => check(false, "every extension is presented"),
                    }
                }
                check(it.next().is_none(), "no extension that is not there");
                check(it.next().is_none(), "an ended iterator stays ended");
                cover("monver");
            }
            PacketRef::Unknown(_) => {
                check(c == 10, "information messages are always presented");
                let mut ok = true;
                for (a, b) in [(0, 30), (30, 40), (40, 70), (70, 100)] {
                    if b <= p.len() {
                        ok &= match cstr(&p[a..b]) {
                            Some(n) => utf8(&p[a..a + n]),
                            None => false,
                        }
                    }
                }
                check(!ok, "a version message with valid texts is presented");
                cover("refused");
            }
            _ => {}
        });
    });
}
#[no_mangle]
pub fn h_c12_text() {
    c12_text(2)
}
#[no_mangle]
pub fn h_c12_text4() {
    c12_text(4)
}
#[no_mangle]
pub fn h_c12_text5() {
    c12_text(5)
}

pub const ENTRIES: &[(&str, fn())] = &[
    ("h_c08_each", h_c08_each),
    ("h_c08_monver", h_c08_monver),
    ("h_c08_all", h_c08_all),
    ("h_c08_long", h_c08_long),
    ("h_c08_counts", h_c08_counts),
    ("h_c08_lens", h_c08_lens),
    ("h_c09", h_c09),
    ("h_c10", h_c10),
    ("h_c10_text", h_c10_text),
    ("h_c10_long", h_c10_long),
    ("h_c11_len", h_c11_len),
    ("h_c11_field", h_c11_field),
    ("h_c12_blocks", h_c12_blocks),
    ("h_c12_blocks_deep", h_c12_blocks_deep),
    ("h_c12_partial", h_c12_partial),
    ("h_c12_esfmeas", h_c12_esfmeas),
    ("h_c12_text", h_c12_text),
    ("h_c12_text4", h_c12_text4),
    ("h_c12_text5", h_c12_text5),
];
