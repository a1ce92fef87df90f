//! Messages to send: frames, entry points, sinks, round trips, requests (C13-C15, C20, C24).
use crate::gen::build::*;
use crate::gen::pkt::{get_all, NAMES as R_NAMES};
use crate::gen::view::*;
use crate::pkt::{deliver, sym_payload};
use crate::rt::*;
use crate::util::put_frame;
use ublox::*;

const NB: u32 = B_NAMES.len() as u32;

/// fixed values for the scaled fields: physical values, and their raw values in the image
pub fn scaled_fixed(i: usize, p: &mut [u8]) -> Vec<f64> {
    let mut x = vec![];
    for (k, s) in SCALED[i].iter().enumerate() {
        let bits = 8 * s.size as u32;
        let pat = 0x3152_7341_u64.rotate_left(5 * k as u32) & ((1 << (bits - 1)) - 1);
        let raw = if s.signed && k % 2 == 1 { -(pat as i64) } else { pat as i64 };
        for j in 0..s.size {
            p[s.off + j] = (raw >> (8 * j)) as u8;
        }
        x.push(raw as f64 * s.scale);
    }
    x
}
/// symbolic payload image of builder `i`, and its scaled values
fn image(i: usize) -> (Vec<u8>, Vec<f64>) {
    let mut p = sym_payload(B_LEN[i]);
    let x = scaled_fixed(i, &mut p);
    assume(producible(i, &p));
    (p, x)
}
fn frame_of(i: usize, p: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    put_frame(&mut v, B_ID[i].0, B_ID[i].1, p);
    v
}

/// header and checksum of a frame fit its own payload (with equal payloads, this makes frames equal)
fn well_formed(i: usize, f: &[u8]) -> bool {
    f.len() == B_LEN[i] + 8 && eq_bytes(f, &frame_of(i, &f[6..6 + B_LEN[i]]))
}
fn same(i: usize, a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.len() == B_LEN[i] + 8 && eq_bytes(&a[..B_LEN[i] + 6], &b[..B_LEN[i] + 6])
}

// ---------------------------------------------------------------- C13
#[no_mangle]
pub fn h_c13() {
    let i = choice(NB) as usize;
    let (p, x) = image(i);
    let f = array_of(i, &p, &x);
    cover(B_NAMES[i]);
    let n = B_LEN[i];
    check(f.len() == n + 8 && packet_len(i) == n + 8, "a frame is the payload and 8 bytes");
    check((f[0] == 0xb5) & (f[1] == 0x62), "sync bytes");
    check((f[2] == B_ID[i].0) & (f[3] == B_ID[i].1), "class and id of the message");
    check((f[4] == n as u8) & (f[5] == (n >> 8) as u8), "payload length, little-endian");
    check(eq_bytes(&f[6..6 + n], &p), "every field at its documented offset");
    check(well_formed(i, &f), "the frame is complete and its checksum right");
}
/// one scaled field takes any bits at all: no panic, frame still well-formed, other bytes unaffected
#[no_mangle]
pub fn h_c13_float() {
    let (i, k) = pick_scaled();
    let mut p = vec![0u8; B_LEN[i]];
    for j in 0..p.len() {
        p[j] = (j as u8).wrapping_mul(37) & 1; // in range of every enumeration
    }
    let mut x = scaled_fixed(i, &mut p);
    fix_enums(i, &mut p);
    let s = &SCALED[i][k];
    x[k] = if s.single { f32_any() as f64 } else { f64_any() };
    let f = array_of(i, &p, &x);
    cover(B_NAMES[i]);
    let n = B_LEN[i];
    check(f.len() == n + 8, "a frame is the payload and 8 bytes");
    check(eq_bytes(&f[6..6 + s.off], &p[..s.off]) & eq_bytes(&f[6 + s.off + s.size..6 + n], &p[s.off + s.size..]), "a scaled field changes no other field");
    check(well_formed(i, &f), "the frame is complete for any value of a scaled field");
}
/// one of all scaled fields of all builders (the first choice of an entry)
pub fn pick_scaled() -> (usize, usize) {
    let mut n = 0;
    for s in SCALED.iter() {
        n += s.len();
    }
    let mut c = choice(n as u32) as usize;
    let mut i = 0;
    while c >= SCALED[i].len() {
        c -= SCALED[i].len();
        i += 1;
    }
    (i, c)
}
/// any double at all, by region (so that most paths reason about bounded values)
pub fn f64_any() -> f64 {
    match choice(8) {
        0 => {
            let v = f64s();
            assume((v >= -1e15) & (v <= 1e15));
            v
        }
        1 => {
            let v = f64s();
            assume((v > 1e15) & (v <= 1e290));
            v
        }
        2 => {
            let v = f64s();
            assume((v < -1e15) & (v >= -1e290));
            v
        }
        5 => {
            let v = f64s();
            assume((v > 1e290) & (v <= f64::MAX));
            v
        }
        6 => {
            let v = f64s();
            assume((v < -1e290) & (v >= f64::MIN));
            v
        }
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        _ => {
            let b = u64s();
            assume((b >> 52 & 0x7ff == 0x7ff) & (b << 12 != 0));
            f64::from_bits(b)
        }
    }
}
pub fn f32_any() -> f32 {
    match choice(8) {
        0 => {
            let v = f32s();
            assume((v >= -1e9) & (v <= 1e9));
            v
        }
        1 => {
            let v = f32s();
            assume((v > 1e9) & (v <= 1e30));
            v
        }
        2 => {
            let v = f32s();
            assume((v < -1e9) & (v >= -1e30));
            v
        }
        5 => {
            let v = f32s();
            assume((v > 1e30) & (v <= f32::MAX));
            v
        }
        6 => {
            let v = f32s();
            assume((v < -1e30) & (v >= f32::MIN));
            v
        }
        3 => f32::INFINITY,
        4 => f32::NEG_INFINITY,
        _ => {
            let b = u32s();
            assume((b >> 23 & 0xff == 0xff) & (b << 9 != 0));
            f32::from_bits(b)
        }
    }
}
pub fn fix_enums(i: usize, p: &mut [u8]) {
    // CfgNav5: dyn_model 0, fix_mode 1, utc 0; CfgTp5/CfgTmode2: 0
    if B_NAMES[i] == "CfgNav5" {
        p[2] = 0;
        p[3] = 1;
        p[30] = 0;
    } else {
        p[0] = 0;
    }
}
#[no_mangle]
pub fn h_c13_poll() {
    let (c, m) = (u8s(), u8s());
    let f = UbxPacketRequest::request_for_unknown(c, m).into_packet_bytes();
    let mut w = vec![];
    put_frame(&mut w, c, m, &[]);
    cover("poll");
    check(UbxPacketRequest::PACKET_LEN == 8 && eq_bytes(&f, &w), "a request is an empty frame of that class and id");
}
/// what a default builder builds is a well-formed frame too
#[no_mangle]
pub fn h_c13_default() {
    let i = choice(NB) as usize;
    if let Some(f) = defaults(i) {
        cover("default");
        check(f.len() == B_LEN[i] + 8, "a frame is the payload and 8 bytes");
        check(eq_bytes(&f, &frame_of(i, &f[6..6 + B_LEN[i]])), "the frame of a default builder is well-formed");
    }
}

// ---------------------------------------------------------------- C14
#[no_mangle]
pub fn h_c14() {
    let i = choice(NB) as usize;
    let (p, x) = image(i);
    let a = array_of(i, &p, &x);
    let b = from_of(i, &p, &x);
    cover(B_NAMES[i]);
    // equal headers and payloads, and both complete: equal
    check(well_formed(i, &a), "into_packet_bytes gives a complete frame");
    check(same(i, &a, &b), "array conversion gives the bytes of into_packet_bytes");
    check(well_formed(i, &b), "array conversion gives a complete frame");
    let n = choice(5) as usize;
    let pre = sym_payload(n);
    let mut out = Vec::with_capacity(n);
    out.extend_from_slice(&pre);
    let r = create_of(i, &p, &x, &mut out);
    check(r.is_ok(), "creating a packet in a vector succeeds");
    check(out.len() == n + a.len(), "exactly one frame is appended");
    check(eq_bytes(&out[..n], &pre), "what was there before stays");
    check(same(i, &out[n..], &a), "create_packet writes the bytes of into_packet_bytes");
    check(well_formed(i, &out[n..]), "create_packet writes a complete frame");
    // twice in a row
    let r = create_of(i, &p, &x, &mut out);
    check(r.is_ok() && out.len() == n + 2 * a.len(), "a second frame is appended");
    let (u, w) = (&out[n..n + a.len()], &out[n + a.len()..]);
    check(same(i, u, &a) && same(i, w, &a), "both frames are intact");
    check(well_formed(i, u), "the first frame is complete");
    check(well_formed(i, w), "the second frame is complete");
}

// ---------------------------------------------------------------- C15
#[no_mangle]
pub fn h_c15() {
    let i = choice(NB) as usize;
    if B_RECV[i] == 1000 {
        return;
    }
    let (p, x) = image(i);
    let f = array_of(i, &p, &x);
    let mut par = Parser::default();
    let mut it = par.consume(&f);
    match it.next() {
        Some(Ok(pk)) => {
            let (v, _, _, b) = view(&pk);
            check(v == B_RECV[i], "a built message is received as itself");
            check(eq_bytes(b, &p), "payload received is the one built");
            if v == B_RECV[i] {
                cover(R_NAMES[v as usize]);
                get_all(&pk, &p);
                match rebuild(&pk) {
                    Some(g) => check(eq_bytes(&g, &f), "building from the values read gives the same frame"),
                    None => check(false, "can be built"),
                }
            }
        }
        _ => check(false, "a built message is received"),
    }
    check(it.next().is_none(), "nothing else is received");
}

// ---------------------------------------------------------------- C20
pub struct Sink {
    pub out: Vec<u8>,
    pub ops: u32,
    pub fail_at: u32,
    pub custom: bool,
    pub code: u8,
    pub failed: bool,
    pub after: bool,
    pub reserved: usize,
    pub late_reserve: bool,
}
impl Sink {
    fn step(&mut self) -> Result<(), MemWriterError<u8>> {
        if self.failed {
            self.after = true;
        }
        let k = self.ops;
        self.ops += 1;
        if k == self.fail_at {
            self.failed = true;
            return Err(if self.custom { MemWriterError::Custom(self.code) } else { MemWriterError::NotEnoughMem });
        }
        Ok(())
    }
}
impl MemWriter for Sink {
    type Error = u8;
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<u8>> {
        self.step()?;
        if !self.out.is_empty() {
            self.late_reserve = true;
        }
        self.reserved += len;
        Ok(())
    }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<u8>> {
        self.step()?;
        self.out.extend_from_slice(b);
        Ok(())
    }
}
#[no_mangle]
pub fn h_c20() {
    let i = choice(NB) as usize;
    let (p, x) = image(i);
    let want = array_of(i, &p, &x);
    // writes per frame: at most one per field, header, checksum, reservation
    let fail_at = choice(36);
    let custom = u8s() & 1 == 1;
    let code = u8s();
    let mut s = Sink { out: vec![], ops: 0, fail_at, custom, code, failed: false, after: false, reserved: 0, late_reserve: false };
    let r = create_of(i, &p, &x, &mut s);
    check(!s.after, "nothing is written after the output failed");
    check(s.out.len() <= want.len() && eq_bytes(&s.out, &want[..s.out.len()]), "what was written is the beginning of the frame");
    match r {
        Ok(()) => {
            cover("ok");
            check(!s.failed, "a failing output is not reported as success");
            check(eq_bytes(&s.out, &want), "success means the whole frame was written");
            check(s.reserved == want.len(), "the length asked for is the length written");
        }
        Err(e) => {
            cover("err");
            check(s.failed, "an error is reported only if the output failed");
            match e {
                MemWriterError::NotEnoughMem => check(!custom, "the output's own error is passed on"),
                MemWriterError::Custom(c) => check(custom & (c == code), "the output's own error is passed on"),
            }
        }
    }
}
/// outputs with limited space that accept what fits
pub struct Limited {
    out: Vec<u8>,
    cap: usize,
    check_reserve: bool,
}
impl MemWriter for Limited {
    type Error = ();
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<()>> {
        if self.check_reserve && self.out.len() + len > self.cap {
            return Err(MemWriterError::NotEnoughMem);
        }
        Ok(())
    }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<()>> {
        if self.out.len() + b.len() > self.cap {
            return Err(MemWriterError::NotEnoughMem);
        }
        self.out.extend_from_slice(b);
        Ok(())
    }
}
#[no_mangle]
pub fn h_c20_space() {
    let i = choice(NB) as usize;
    let (p, x) = image(i);
    let want = array_of(i, &p, &x);
    let cap = choice(52) as usize;
    let check_reserve = choice(2) == 1;
    let mut s = Limited { out: vec![], cap, check_reserve };
    let r = create_of(i, &p, &x, &mut s);
    match r {
        Ok(()) => {
            cover("fits");
            check(cap >= want.len(), "success means the frame fitted");
            check(eq_bytes(&s.out, &want), "success means the whole frame was written");
        }
        Err(e) => {
            cover("full");
            check(cap < want.len(), "a frame that fits is written");
            check(matches!(e, MemWriterError::NotEnoughMem), "lack of space is reported as such");
            check(!check_reserve || s.out.is_empty(), "nothing is written when the space was refused");
        }
    }
}

// ---------------------------------------------------------------- C24
#[no_mangle]
pub fn h_c24() {
    let i = choice(META.len() as u32) as usize;
    let (c, m) = META[i];
    check(meta(i) == (c, m), "class and id of the message type");
    let mut w = vec![];
    put_frame(&mut w, c, m, &[]);
    cover("poll");
    check(eq_bytes(&poll(i), &w), "a request names the message asked for");
    let r = u8s();
    let f = rate1(i, r);
    let mut w = vec![];
    put_frame(&mut w, 6, 1, &[c, m, r]);
    check(eq_bytes(&f, &w), "set_rate_for on one port names the message and rate");
    let r6 = bytes::<6>();
    let f = rate6(i, r6);
    let mut w = vec![];
    put_frame(&mut w, 6, 1, &[c, m, r6[0], r6[1], r6[2], r6[3], r6[4], r6[5]]);
    check(eq_bytes(&f, &w), "set_rate_for on all ports names the message and rates");
}
#[no_mangle]
pub fn h_c24_ack() {
    let nak = choice(2) == 0;
    let p = bytes::<2>();
    deliver(5, if nak { 0 } else { 1 }, &p, |pk| match pk {
        PacketRef::AckAck(r) => {
            check(!nak, "an acknowledgement");
            cover("ack");
            for i in 0..META.len() {
                check(acks(i, r) == ((p[0] == META[i].0) & (p[1] == META[i].1)), "acknowledges exactly the message named");
            }
        }
        PacketRef::AckNak(r) => {
            check(nak, "a refusal");
            cover("nak");
            for i in 0..META.len() {
                check(naks(i, r) == ((p[0] == META[i].0) & (p[1] == META[i].1)), "refuses exactly the message named");
            }
        }
        _ => check(false, "an acknowledgement is delivered as one"),
    });
}

pub const ENTRIES: &[(&str, fn())] = &[
    ("h_c13", h_c13),
    ("h_c13_float", h_c13_float),
    ("h_c13_poll", h_c13_poll),
    ("h_c13_default", h_c13_default),
    ("h_c14", h_c14),
    ("h_c15", h_c15),
    ("h_c20", h_c20),
    ("h_c20_space", h_c20_space),
    ("h_c24", h_c24),
    ("h_c24_ack", h_c24_ack),
];
