//! Debug output of delivered packets (C28).
use crate::gen::dbg::*;
use crate::gen::pkt::*;
use crate::gen::view::*;
use crate::pkt::deliver;
use crate::rt::*;
use std::fmt::{Debug, Write};
use ublox::*;

/// text, as `{:?}` lays out a structure
pub struct Text {
    pub t: Vec<u8>,
    first: bool,
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.t.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl Text {
    fn new() -> Text {
        Text { t: vec![], first: true }
    }
    fn put(&mut self, s: &str) {
        self.t.extend_from_slice(s.as_bytes())
    }
    pub fn open(&mut self, n: &str) {
        self.put(n);
        self.first = true
    }
    pub fn value<T: Debug>(&mut self, v: &T) {
        check(write!(self, "{:?}", v).is_ok(), "formatting succeeds")
    }
    fn name(&mut self, n: &str) {
        self.put(if self.first { " { " } else { ", " });
        self.first = false;
        self.put(n);
        self.put(": ")
    }
    pub fn field<T: Debug>(&mut self, n: &str, v: &T) {
        self.name(n);
        self.value(v)
    }
    pub fn close(&mut self) {
        if !self.first {
            self.put(" }")
        }
        self.first = false
    }
    pub fn fix_status(&mut self, n: &str, v: FixStatusInfo) {
        self.name(n);
        self.open("FixStatusInfo");
        self.field("has_pr_prr_correction", &v.has_pr_prr_correction());
        self.field("map_matching", &v.map_matching());
        self.close()
    }
    pub fn sv_flags(&mut self, n: &str, v: NavSatSvFlags) {
        self.name(n);
        self.open("NavSatSvFlags");
        self.field("quality_ind", &v.quality_ind());
        self.field("sv_used", &v.sv_used());
        self.field("health", &v.health());
        self.field("differential_correction_available", &v.differential_correction_available());
        self.field("smoothed", &v.smoothed());
        self.field("orbit_source", &v.orbit_source());
        self.field("ephemeris_available", &v.ephemeris_available());
        self.field("almanac_available", &v.almanac_available());
        self.field("an_offline_available", &v.an_offline_available());
        self.field("an_auto_available", &v.an_auto_available());
        self.field("sbas_corr", &v.sbas_corr());
        self.field("rtcm_corr", &v.rtcm_corr());
        self.field("slas_corr", &v.slas_corr());
        self.field("spartn_corr", &v.spartn_corr());
        self.field("pr_corr", &v.pr_corr());
        self.field("cr_corr", &v.cr_corr());
        self.field("do_corr", &v.do_corr());
        self.close()
    }
}
const VARLEN: usize = 9999;
const BLOCK_COUNT: usize = 1;
fn is_text(i: usize) -> bool {
    i == V_MonVer as usize || FIXED[i] == VARLEN && HEADER[i] == 0
}
fn compare(i: usize, p: &[u8]) {
    let (c, m) = CLASS_ID[i];
    deliver(c, m, p, |pk| {
        if matches!(pk, PacketRef::Unknown(_)) {
            return;
        }
        cover(NAMES[i]);
        let mut got = Text::new();
        got.value(pk);
        let mut inner = Text::new();
        dbg_all(&mut inner, pk);
        let mut want = Text::new();
        let v = view(pk).0 as usize;
        want.put(NAMES[v]);
        want.put("(");
        want.t.extend_from_slice(&inner.t);
        want.put(")");
        check(eq_bytes(&got.t, &want.t), NAMES[i]);
        let mut o = Text::new();
        own(&mut o, pk);
        check(eq_bytes(&o.t, &inner.t), "the message itself, without the packet around it");
    });
}
/// a payload the message allows, each field different from the others
fn base(i: usize, n: usize) -> Vec<u8> {
    let mut p = vec![0u8; n];
    let s = choice(3);
    for (j, b) in p.iter_mut().enumerate() {
        *b = match s {
            0 => 0,
            1 => (j as u8).wrapping_mul(29).wrapping_add(3) & 0x7f,
            _ => 0xff - (j as u8).wrapping_mul(3),
        };
    }
    // the values the specification does not leave open
    let mut set = |o: usize, v: u8| p[o] = v;
    match NAMES[i] {
        "CfgOdo" => set(5, 3),
        "CfgPrtI2c" => set(0, 0),
        "CfgPrtSpi" => set(0, 4),
        "CfgPrtUart" => {
            set(0, 2);
            set(4, 0xc0);
            set(5, 0x28)
        }
        "CfgNav5" => {
            set(2, 4);
            set(3, 3);
            set(30, 6)
        }
        "CfgTmode2" => set(0, 1),
        "CfgTp5" => set(0, 1),
        "EsfMeas" => {
            set(4, 0x11);
            set(5, 8 * BLOCK_COUNT as u8)
        }
        _ => {}
    }
    p
}
fn symbolic(p: &mut [u8], o: usize, z: usize, k: u8) {
    match k {
        0 => fill(&mut p[o..o + z]),
        1 => {
            let w = choice(2 * z as u32) as usize;
            let b = u8s();
            assume(b < 16);
            p[o + w / 2] = if w % 2 == 0 { p[o + w / 2] & 0xf0 | b } else { p[o + w / 2] & 0x0f | b << 4 };
        }
        2 => p[o + choice(z as u32) as usize] = u8s(),
        _ => {}
    }
}
/// one field symbolic, the others fixed
#[no_mangle]
pub fn h_c28_each() {
    let i = choice(NAMES.len() as u32) as usize;
    if is_text(i) || FIELDS[i].is_empty() {
        return;
    }
    let n = if FIXED[i] != VARLEN { FIXED[i] } else { HEADER[i] + BLOCK_COUNT * BLOCK[i] };
    let mut p = base(i, n);
    let (o, z, k) = FIELDS[i][choice(FIELDS[i].len() as u32) as usize];
    symbolic(&mut p, o, z, k);
    assume(allows(i as u32, &p));
    compare(i, &p);
}
/// the blocks of NAV-SAT and RXM-RAWX, one field symbolic, the others fixed
#[no_mangle]
pub fn h_c28_block() {
    let raw = choice(2) == 1;
    let (v, h, z, name) = if raw { (V_RxmRawx, 16, 32, "RxmRawxInfo") } else { (V_NavSat, 8, 12, "NavSatSvInfo") };
    let f = if raw { &FIELDS_RxmRawxInfo[..] } else { &FIELDS_NavSatSvInfo[..] };
    let mut p = vec![0u8; h + z];
    let s = choice(3);
    for (j, b) in p.iter_mut().enumerate() {
        *b = match s {
            0 => 0,
            1 => (j as u8).wrapping_mul(29).wrapping_add(3) & 0x7f,
            _ => 0xff - (j as u8).wrapping_mul(3),
        };
    }
    let (o, n, k) = f[choice(f.len() as u32) as usize];
    symbolic(&mut p, h + o, n, k);
    let (c, m) = CLASS_ID[v as usize];
    deliver(c, m, &p, |pk| {
        let (mut got, mut want) = (Text::new(), Text::new());
        let k = match pk {
            PacketRef::NavSat(r) => {
                let mut k = 0;
                for b in r.svs() {
                    got.value(&b);
                    dbg_NavSatSvInfo(&mut want, &b);
                    k += 1
                }
                k
            }
            PacketRef::RxmRawx(r) => {
                let mut k = 0;
                for b in r.measurements() {
                    got.value(&b);
                    dbg_RxmRawxInfo(&mut want, &b);
                    k += 1
                }
                k
            }
            _ => return,
        };
        cover(name);
        check(k == 1 && eq_bytes(&got.t, &want.t), name);
    });
}
/// texts: an ASCII character symbolic in a fixed text
#[no_mangle]
pub fn h_c28_text() {
    let i = choice(NAMES.len() as u32) as usize;
    if !is_text(i) {
        return;
    }
    let (mut p, at): (Vec<u8>, &[usize]) = if i == V_MonVer as usize { (vec![b'v'; 40 + 30 * choice(3) as usize], &[0, 30, 40, 67, 70]) } else { (vec![b't'; choice(3) as usize * 2], &[0, 2]) };
    let a = at[choice(at.len() as u32) as usize];
    if i == V_MonVer as usize {
        p[29] = 0;
        p[39] = 0;
        for k in 0..(p.len() - 40) / 30 {
            p[69 + 30 * k] = 0;
        }
    }
    if a < p.len() {
        p[a] = u8s();
        assume(p[a] < 0x80)
    }
    compare(i, &p);
}
/// messages the library does not know: class, id and payload are shown
#[no_mangle]
pub fn h_c28_unknown() {
    let n = choice(4) as usize;
    let mut p = vec![0x5au8; n];
    let (mut c, mut m) = (0xf7, 0x80);
    match choice(3) {
        0 => c = u8s(),
        1 => m = u8s(),
        _ if n > 0 => p[choice(n as u32) as usize] = u8s(),
        _ => {}
    }
    assume(expected(c, m, &p) == V_UNKNOWN);
    deliver(c, m, &p, |pk| {
        if !matches!(pk, PacketRef::Unknown(_)) {
            return;
        }
        cover("unknown");
        let mut got = Text::new();
        got.value(pk);
        let mut want = Text::new();
        want.put("Unknown(");
        want.open("UbxUnknownPacketRef");
        want.field("payload", &&p[..]);
        want.field("class", &c);
        want.field("msg_id", &m);
        want.close();
        want.put(")");
        check(eq_bytes(&got.t, &want.t), "an unknown packet shows its class, id and payload");
    });
}
pub const ENTRIES: &[(&str, fn())] = &[("h_c28_each", h_c28_each), ("h_c28_block", h_c28_block), ("h_c28_text", h_c28_text), ("h_c28_unknown", h_c28_unknown)];
