//! Names of raw values: enumerations, flag words, packed sub-fields (C17).
use crate::gen::bits::*;
use crate::gen::build::*;
use crate::gen::pkt::*;
use crate::gen::view::*;
use crate::pkt::{deliver, sym_payload};
use crate::rt::*;
use ublox::*;

/// every named value and sub-field of every received message, for every raw value
#[no_mangle]
pub fn h_c17_recv() {
    let i = NAMED[choice(NAMED.len() as u32) as usize];
    let p = sym_payload(FIXED[i]);
    assume(allows(i as u32, &p));
    let (c, m) = CLASS_ID[i];
    deliver(c, m, &p, |pk| names(pk, &p));
}
/// the blocks of NAV-SAT and RXM-RAWX
#[no_mangle]
pub fn h_c17_block() {
    if choice(2) == 0 {
        let mut p = vec![0u8; 8];
        p[5] = 1;
        p.extend_from_slice(&sym_payload(12));
        deliver(0x01, 0x35, &p, |pk| match pk {
            PacketRef::NavSat(r) => r.svs().for_each(|b| names_NavSatSvInfo(&b, &p[8..])),
            _ => check(false, "NavSat is delivered as NavSat"),
        });
    } else {
        let mut p = vec![0u8; 16];
        p[12] = u8s();
        let rec = p[12];
        p[11] = 1;
        p.extend_from_slice(&sym_payload(32));
        deliver(0x02, 0x15, &p, |pk| match pk {
            PacketRef::RxmRawx(r) => {
                check(r.rec_stat().bits() == rec, "RxmRawx.rec_stat: no bit is lost");
                check(r.rec_stat().contains(RecStatFlags::LEAP_SEC) == (rec & 1 == 1), "RxmRawx.rec_stat contains LEAP_SEC");
                check(r.rec_stat().contains(RecStatFlags::CLK_RESET) == (rec & 2 == 2), "RxmRawx.rec_stat contains CLK_RESET");
                r.measurements().for_each(|b| names_RxmRawxInfo(&b, &p[16..]))
            }
            _ => check(false, "RxmRawx is delivered as RxmRawx"),
        });
    }
}
/// the numbers the values of enumerations and flag words are sent as
#[no_mangle]
pub fn h_c17_send() {
    let i = choice(B_NAMES.len() as u32) as usize;
    let mut p = sym_payload(B_LEN[i]);
    let x = crate::build::scaled_fixed(i, &mut p);
    assume(producible(i, &p));
    cover(B_NAMES[i]);
    let f = array_of(i, &p, &x);
    check(eq_bytes(&f[6..6 + B_LEN[i]], &p), "named values are sent as their numbers");
}
#[no_mangle]
pub fn h_c17_const() {
    constant(choice(CONSTANTS));
    cover("constants");
}
/// decoding any raw value and encoding it again, through the message
#[no_mangle]
pub fn h_c17_roundtrip() {
    let k = choice(B_NAMES.len() as u32) as usize;
    if B_RECV[k] == 1000 {
        return;
    }
    let i = B_RECV[k] as usize;
    let mut p = sym_payload(B_LEN[k]);
    let _ = crate::build::scaled_fixed(k, &mut p);
    assume(producible(k, &p));
    let (c, m) = CLASS_ID[i];
    deliver(c, m, &p, |pk| match rebuild(pk) {
        Some(f) => {
            cover(B_NAMES[k]);
            check(eq_bytes(&f[6..6 + p.len()], &p), "decoded and encoded again: the same raw values")
        }
        None => check(false, "the message is delivered as itself"),
    });
}

pub const ENTRIES: &[(&str, fn())] = &[
    ("h_c17_recv", h_c17_recv),
    ("h_c17_block", h_c17_block),
    ("h_c17_send", h_c17_send),
    ("h_c17_const", h_c17_const),
    ("h_c17_roundtrip", h_c17_roundtrip),
];
