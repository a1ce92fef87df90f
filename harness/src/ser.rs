//! What a delivered packet serialises to (C26), and packed configuration words read through it (C21).
use crate::gen::pkt::*;
use crate::gen::ser::*;
use crate::gen::view::*;
use crate::pkt::{deliver, sym_payload};
use crate::rt::*;
use serde::ser::*;
use ublox::*;

/// one step of a serialisation
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    Map,
    Key,
    Int,
    Float,
    Str,
    Name,
    None,
    Seq,
    End,
}
pub struct Ev {
    k: K,
    v: u64,
    s: Vec<u8>,
}
#[derive(Debug)]
pub struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Refused {}
impl Error for Refused {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Refused
    }
}
/// a serialiser that records the steps and may refuse one of them
pub struct Rec {
    pub ev: Vec<Ev>,
    pub refuse: usize,
}
pub struct Cap<'a>(pub &'a mut Rec);
impl Rec {
    fn put(&mut self, k: K, v: u64, s: &[u8]) -> Result<(), Refused> {
        if self.ev.len() == self.refuse {
            return Err(Refused);
        }
        self.ev.push(Ev { k, v, s: s.to_vec() });
        Ok(())
    }
}
type R = Result<(), Refused>;
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R { self.0.put(K::Int, v as i64 as u64, &[]) })* };
}
impl<'a> Serializer for Cap<'a> {
    type Ok = ();
    type Error = Refused;
    type SerializeSeq = Cap<'a>;
    type SerializeTuple = Cap<'a>;
    type SerializeTupleStruct = Cap<'a>;
    type SerializeTupleVariant = Cap<'a>;
    type SerializeMap = Cap<'a>;
    type SerializeStruct = Cap<'a>;
    type SerializeStructVariant = Cap<'a>;
    ints!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_f32(self, v: f32) -> R {
        self.0.put(K::Float, (v as f64).to_bits(), &[])
    }
    fn serialize_f64(self, v: f64) -> R {
        self.0.put(K::Float, v.to_bits(), &[])
    }
    fn serialize_char(self, v: char) -> R {
        self.0.put(K::Int, v as u64, &[])
    }
    fn serialize_str(self, v: &str) -> R {
        self.0.put(K::Str, 0, v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.0.put(K::Str, 1, v)
    }
    fn serialize_none(self) -> R {
        self.0.put(K::None, 0, &[])
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        self.0.put(K::None, 1, &[])
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        self.0.put(K::None, 2, &[])
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R {
        self.0.put(K::Name, 0, v.as_bytes())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R {
        self.0.put(K::Name, 1, n.as_bytes())?;
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, Refused> {
        self.0.put(K::Seq, 0, &[])?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, Refused> {
        self.0.put(K::Seq, 0, &[])?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Refused> {
        self.0.put(K::Seq, 0, &[])?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, Refused> {
        self.0.put(K::Seq, 0, n.as_bytes())?;
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, Refused> {
        self.0.put(K::Map, 0, &[])?;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Refused> {
        self.0.put(K::Map, 0, &[])?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, Refused> {
        self.0.put(K::Map, 0, n.as_bytes())?;
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        true
    }
    fn collect_str<T: ?Sized + std::fmt::Display>(self, _: &T) -> R {
        self.0.put(K::Str, 2, &[])
    }
}
macro_rules! elements {
    ($($t:ident $f:ident),*) => { $(impl<'a> $t for Cap<'a> {
        type Ok = ();
        type Error = Refused;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
            v.serialize(Cap(&mut *self.0))
        }
        fn end(self) -> R {
            self.0.put(K::End, 0, &[])
        }
    })* };
}
elements!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($t:ident),*) => { $(impl<'a> $t for Cap<'a> {
        type Ok = ();
        type Error = Refused;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> R {
            self.0.put(K::Key, 0, n.as_bytes())?;
            v.serialize(Cap(&mut *self.0))
        }
        fn end(self) -> R {
            self.0.put(K::End, 0, &[])
        }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl<'a> SerializeMap for Cap<'a> {
    type Ok = ();
    type Error = Refused;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> R {
        let at = self.0.ev.len();
        k.serialize(Cap(&mut *self.0))?;
        if self.0.ev.len() == at + 1 && self.0.ev[at].k == K::Str {
            self.0.ev[at].k = K::Key;
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        v.serialize(Cap(&mut *self.0))
    }
    fn end(self) -> R {
        self.0.put(K::End, 0, &[])
    }
}

/// the steps expected, each with the field it belongs to
pub struct Exp {
    pub ev: Vec<(Ev, &'static str)>,
}
impl Exp {
    fn put(&mut self, k: K, v: u64, s: &[u8], l: &'static str) {
        self.ev.push((Ev { k, v, s: s.to_vec() }, l))
    }
    pub fn key(&mut self, n: &str, l: &'static str) {
        self.put(K::Key, 0, n.as_bytes(), l)
    }
    pub fn int(&mut self, v: u64, l: &'static str) {
        self.put(K::Int, v, &[], l)
    }
    pub fn float(&mut self, v: f64, l: &'static str) {
        self.put(K::Float, v.to_bits(), &[], l)
    }
    pub fn str(&mut self, v: &str, l: &'static str) {
        self.put(K::Str, 0, v.as_bytes(), l)
    }
    pub fn name(&mut self, v: &str, l: &'static str) {
        self.put(K::Name, 0, v.as_bytes(), l)
    }
    pub fn none(&mut self, l: &'static str) {
        self.put(K::None, 0, &[], l)
    }
    pub fn seq(&mut self, l: &'static str) {
        self.put(K::Seq, 0, &[], l)
    }
    pub fn map(&mut self, l: &'static str) {
        self.put(K::Map, 0, &[], l)
    }
    pub fn end(&mut self, l: &'static str) {
        self.put(K::End, 0, &[], l)
    }
    pub fn bytes(&mut self, b: &[u8], l: &'static str) {
        self.seq(l);
        for x in b {
            self.int(*x as u64, l);
        }
        self.end(l)
    }
    /// CFG-PRT mode word: character length bits 7..6, parity bits 11..9, stop bits 13..12
    pub fn uart(&mut self, w: u32, l: &'static str) {
        self.map(l);
        self.key("data_bits", l);
        self.name(if concretize(((w >> 6) & 3) as u64) == 2 { "Seven" } else { "Eight" }, l);
        self.key("parity", l);
        self.name(["Even", "Odd", "?", "?", "None", "None", "?", "?"][concretize(((w >> 9) & 7) as u64) as usize], l);
        self.key("stop_bits", l);
        self.name(["One", "OneHalf", "Two", "Half"][concretize(((w >> 12) & 3) as u64) as usize], l);
        self.end(l)
    }
    /// CFG-ITFM config: bbThreshold 3..0, cwThreshold 8..4, algorithm bits 30..9, enable 31
    pub fn itfm(&mut self, w: u32, l: &'static str) {
        self.map(l);
        self.key("enable", l);
        self.int((w >> 31) as u64, l);
        self.key("bb_threshold", l);
        self.int((w & 15) as u64, l);
        self.key("cw_threshold", l);
        self.int(((w >> 4) & 31) as u64, l);
        self.key("algorithm_bits", l);
        self.int(((w >> 9) & 0x3f_ffff) as u64, l);
        self.end(l)
    }
    /// CFG-ITFM config2: general bits 11..0, antenna setting 13..12, enable2 14
    pub fn itfm2(&mut self, w: u32, l: &'static str) {
        self.map(l);
        self.key("general", l);
        self.int((w & 0xfff) as u64, l);
        self.key("antenna", l);
        let a = (w >> 12) & 3;
        self.int(if a == 3 { 0 } else { a as u64 }, l);
        self.key("scan_aux_bands", l);
        self.int(((w >> 14) & 1) as u64, l);
        self.end(l)
    }
}
fn same(got: &[Ev], want: &[(Ev, &'static str)]) {
    check(got.len() == want.len(), "as many entries as fields");
    for (g, (w, l)) in got.iter().zip(want) {
        let ok = g.k == w.k && g.s.len() == w.s.len();
        check(ok, l);
        if !ok {
            return;
        }
        check((g.v == w.v) & eq_bytes(&g.s, &w.s), l);
    }
}
fn expected_of(pk: &PacketRef, c: u8, m: u8, p: &[u8]) -> Exp {
    let mut e = Exp { ev: vec![] };
    e.map("map");
    e.key("class", "class");
    e.int(c as u64, "class");
    e.key("msg_id", "msg_id");
    e.int(m as u64, "msg_id");
    ser_all(&mut e, pk, p);
    e.end("map");
    e
}
fn compare(c: u8, m: u8, p: &[u8], name: &'static str) {
    deliver(c, m, p, |pk| {
        if matches!(pk, PacketRef::Unknown(_)) {
            return;
        }
        cover(name);
        let mut g = Rec { ev: vec![], refuse: usize::MAX };
        check(pk.serialize(Cap(&mut g)).is_ok(), "serialising succeeds");
        let want = expected_of(pk, c, m, p);
        same(&g.ev, &want.ev);
        // the message by itself: its fields only
        let mut o = Rec { ev: vec![], refuse: usize::MAX };
        check(matches!(own(pk, Cap(&mut o)), Some(Ok(()))), "serialising the message itself succeeds");
        let mut e = Exp { ev: vec![] };
        e.map("map");
        ser_all(&mut e, pk, p);
        e.end("map");
        same(&o.ev, &e.ev);
    });
}
const VARLEN: usize = 9999;
fn is_text(i: usize) -> bool {
    i == V_MonVer as usize || FIXED[i] == VARLEN && HEADER[i] == 0
}

// ---------------------------------------------------------------- C26
#[no_mangle]
pub fn h_c26_each() {
    let i = choice(NAMES.len() as u32) as usize;
    if is_text(i) {
        return;
    }
    let n = if FIXED[i] != VARLEN { FIXED[i] } else { HEADER[i] + BLOCK[i] * choice(3) as usize };
    let p = sym_payload(n);
    assume(allows(i as u32, &p));
    let (c, m) = CLASS_ID[i];
    compare(c, m, &p, NAMES[i]);
}
/// texts: a window of symbolic bytes
#[no_mangle]
pub fn h_c26_text() {
    let i = choice(NAMES.len() as u32) as usize;
    if !is_text(i) {
        return;
    }
    let (mut p, at): (Vec<u8>, &[usize]) = if i == V_MonVer as usize { (vec![b'v'; 40 + 30 * choice(3) as usize], &[0, 27, 30, 37, 40, 67, 70, 97]) } else { (vec![b't'; choice(4) as usize * 2], &[0, 1, 3]) };
    let a = at[choice(at.len() as u32) as usize];
    if i == V_MonVer as usize {
        p[29] = 0;
        p[39] = 0;
        for k in 0..(p.len() - 40) / 30 {
            p[69 + 30 * k] = 0;
        }
    }
    let a = a.min(p.len());
    let w = 3.min(p.len() - a);
    fill(&mut p[a..a + w]);
    let (c, m) = CLASS_ID[i];
    compare(c, m, &p, NAMES[i]);
}
/// many repeated blocks: the bytes a fixed pattern, those of one block symbolic
#[no_mangle]
pub fn h_c26_long() {
    const M: [u32; 6] = [V_NavSat, V_RxmRawx, V_EsfMeas, V_EsfRaw, V_RxmSfrbx, V_MonVer];
    let i = M[choice(6) as usize] as usize;
    many(i, [3, 4, 7, 15, 16, 17, 31, 32, 33][choice(9) as usize])
}
#[no_mangle]
pub fn h_c26_long_deep() {
    const M: [u32; 5] = [V_NavSat, V_RxmRawx, V_EsfRaw, V_RxmSfrbx, V_MonVer];
    let i = M[choice(5) as usize] as usize;
    many(i, [40, 63, 64, 65, 72, 100, 102, 127, 128, 129, 150][choice(11) as usize])
}
fn many(i: usize, k: usize) {
    let k = if i == V_EsfMeas as usize { k.min(31) } else { k };
    let (h, z) = if i == V_MonVer as usize { (40, 30) } else { (HEADER[i], BLOCK[i]) };
    let mut p = vec![0u8; h + z * k];
    for (j, b) in p.iter_mut().enumerate() {
        *b = (j % 101) as u8 + 1;
    }
    if i == V_MonVer as usize {
        p[20] = 0;
        p[39] = 0;
        for j in 0..k {
            p[h + z * j + (j % 7) + 20] = 0;
        }
    } else {
        if i == V_EsfMeas as usize {
            p[4] = 0;
            p[5] = (8 * k) as u8;
        }
        let s = [0, k / 2, k - 1][choice(3) as usize];
        fill(&mut p[h + z * s..h + z * s + z]);
    }
    assume(allows(i as u32, &p));
    let (c, m) = CLASS_ID[i];
    compare(c, m, &p, NAMES[i]);
}
#[no_mangle]
pub fn h_c26_unknown() {
    let n = choice(6) as usize;
    let p = sym_payload(n);
    let (c, m) = (u8s(), u8s());
    assume(expected(c, m, &p) == V_UNKNOWN);
    deliver(c, m, &p, |pk| {
        if !matches!(pk, PacketRef::Unknown(_)) {
            return;
        }
        cover("unknown");
        let mut g = Rec { ev: vec![], refuse: usize::MAX };
        check(pk.serialize(Cap(&mut g)).is_ok(), "serialising succeeds");
        // class, id and payload, in whatever order
        let (mut seen, mut k) = (0, 1);
        check(g.ev.first().map_or(false, |e| e.k == K::Map) && g.ev.last().map_or(false, |e| e.k == K::End), "an unknown packet is a map");
        while k + 1 < g.ev.len() {
            let name = &g.ev[k].s[..];
            check(g.ev[k].k == K::Key, "an unknown packet is a map of entries");
            if name == b"class" {
                check(g.ev[k + 1].k == K::Int && g.ev[k + 1].v == c as u64, "class");
                k += 2;
            } else if name == b"msg_id" {
                check(g.ev[k + 1].k == K::Int && g.ev[k + 1].v == m as u64, "msg_id");
                k += 2;
            } else {
                let mut e = Exp { ev: vec![] };
                e.bytes(&p, "payload");
                check(name == b"payload" && k + 1 + e.ev.len() <= g.ev.len(), "payload");
                same(&g.ev[k + 1..k + 1 + e.ev.len()], &e.ev);
                k += 1 + e.ev.len();
            }
            seen += 1;
        }
        check(seen == 3, "class, id and payload of an unknown packet");
    });
}
/// a serialiser that refuses a step gets no further one, and the caller gets its error
#[no_mangle]
pub fn h_c26_refuse() {
    const M: [u32; 8] = [V_NavPosLlh, V_NavSat, V_RxmRawx, V_EsfMeas, V_EsfRaw, V_RxmSfrbx, V_CfgPrtUart, V_CfgItfm];
    let i = M[choice(8) as usize] as usize;
    let n = if FIXED[i] != VARLEN { FIXED[i] } else { HEADER[i] + BLOCK[i] };
    let p = sym_payload(n);
    assume(allows(i as u32, &p));
    let k = choice(45) as usize;
    let (c, m) = CLASS_ID[i];
    deliver(c, m, &p, |pk| {
        let mut g = Rec { ev: vec![], refuse: k };
        let r = pk.serialize(Cap(&mut g));
        let want = expected_of(pk, c, m, &p);
        if k < want.ev.len() {
            cover("refused");
            check(r.is_err(), "a refusal is reported");
            check(g.ev.len() == k, "nothing is serialised after a refusal");
        } else {
            cover("accepted");
            check(r.is_ok() && g.ev.len() == want.ev.len(), "serialising succeeds");
        }
    });
}

// ---------------------------------------------------------------- C21
/// every word of CFG-PRT (UART) and CFG-ITFM: the sub-fields decoded, and what is sent for them
#[no_mangle]
pub fn h_c21_decode() {
    let i = [V_CfgPrtUart, V_CfgItfm][choice(2) as usize] as usize;
    let p = sym_payload(FIXED[i]);
    assume(allows(i as u32, &p));
    let (c, m) = CLASS_ID[i];
    compare(c, m, &p, NAMES[i]);
}
fn word(p: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([p[o], p[o + 1], p[o + 2], p[o + 3]])
}
#[no_mangle]
pub fn h_c21_again() {
    if choice(2) == 0 {
        let p = sym_payload(20);
        assume(allows(V_CfgPrtUart, &p));
        deliver(6, 0, &p, |pk| match pk {
            PacketRef::CfgPrtUart(r) => {
                cover("uart");
                let f = CfgPrtUartBuilder { portid: r.portid(), reserved0: r.reserved0(), tx_ready: r.tx_ready(), mode: r.mode(), baud_rate: r.baud_rate(), in_proto_mask: r.in_proto_mask(), out_proto_mask: r.out_proto_mask(), flags: r.flags(), reserved5: r.reserved5() }.into_packet_bytes();
                let (was, is) = (word(&p, 4), word(&f, 10));
                check((was ^ is) & 0x30c0 == 0, "UART mode: character length and stop bits survive");
                check((is >> 9) & 7 == if (was >> 9) & 6 == 4 { 4 } else { (was >> 9) & 7 }, "UART mode: parity survives");
                check(is & !0x3ec0 == 0, "UART mode: no other bit is set");
            }
            _ => check(false, "CfgPrtUart is delivered as CfgPrtUart"),
        });
    } else {
        let p = sym_payload(8);
        deliver(6, 0x39, &p, |pk| match pk {
            PacketRef::CfgItfm(r) => {
                cover("itfm");
                let f = CfgItfmBuilder { config: r.config(), config2: r.config2() }.into_packet_bytes();
                check(word(&f, 6) == word(&p, 0), "ITFM config: every bit survives");
                let (was, is) = (word(&p, 4), word(&f, 10));
                check((was ^ is) & 0x4fff == 0, "ITFM config2: general and auxiliary band bits survive");
                check((is >> 12) & 3 == if (was >> 12) & 3 == 3 { 0 } else { (was >> 12) & 3 }, "ITFM config2: antenna setting survives");
                check(is & !0x7fff == 0, "ITFM config2: no other bit is set");
            }
            _ => check(false, "CfgItfm is delivered as CfgItfm"),
        });
    }
}
/// every setting: where its bits are, and that it is read back
#[no_mangle]
pub fn h_c21_encode() {
    if choice(2) == 0 {
        let (d, q, s) = (choice(2), choice(3), choice(4));
        let mode = UartMode::new(
            if d == 0 { DataBits::Seven } else { DataBits::Eight },
            match q {
                0 => Parity::Even,
                1 => Parity::Odd,
                _ => Parity::None,
            },
            match s {
                0 => StopBits::One,
                1 => StopBits::OneHalf,
                2 => StopBits::Two,
                _ => StopBits::Half,
            },
        );
        let baud = u32s();
        let (r0, r5) = (u8s(), u16s());
        let f = CfgPrtUartBuilder { portid: UartPortId::Uart1, reserved0: r0, tx_ready: 0, mode, baud_rate: baud, in_proto_mask: InProtoMask::all(), out_proto_mask: OutProtoMask::UBLOX, flags: 0, reserved5: r5 }.into_packet_bytes();
        cover("uart");
        let w = (2 + d) << 6 | [0, 1, 4][q as usize] << 9 | s << 12;
        check(word(&f, 10) == w, "UART mode: each setting in its documented bits");
        compare(6, 0, &f[6..26], "uart read back");
    } else {
        let (en, bb, cw, an, aux) = (u8s(), u32s(), u32s(), choice(3), u8s());
        assume((en < 2) & (aux < 2));
        let config = CfgItfmConfig::new(en == 1, bb, cw);
        let config2 = CfgItfmConfig2::new([CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, CfgItfmAntennaSettings::Passive][an as usize], aux == 1);
        let f = CfgItfmBuilder { config, config2 }.into_packet_bytes();
        cover("itfm");
        check(word(&f, 6) == (en as u32) << 31 | 0x16B156 << 9 | (cw & 31) << 4 | bb & 15, "ITFM config: each setting in its documented bits");
        check(word(&f, 10) == (aux as u32) << 14 | an << 12 | 0x31e, "ITFM config2: each setting in its documented bits");
        compare(6, 0x39, &f[6..14], "itfm read back");
    }
}

pub const ENTRIES: &[(&str, fn())] = &[
    ("h_c26_each", h_c26_each),
    ("h_c26_text", h_c26_text),
    ("h_c26_long", h_c26_long),
    ("h_c26_long_deep", h_c26_long_deep),
    ("h_c26_unknown", h_c26_unknown),
    ("h_c26_refuse", h_c26_refuse),
    ("h_c21_decode", h_c21_decode),
    ("h_c21_again", h_c21_again),
    ("h_c21_encode", h_c21_encode),
];
