//! Numbers: scaled fields, positions, velocities, times (C16, C22, C23, C25).
use crate::build::{f32_any, f64_any, fix_enums, pick_scaled, scaled_fixed};
use crate::gen::build::*;
use crate::pkt::deliver;
use crate::rt::*;
use crate::util::put_frame;
use chrono::{DateTime, Datelike, NaiveDate, NaiveTime, Timelike, Utc};
use core::convert::TryFrom;
use ublox::*;

fn i32_at(p: &[u8], o: usize) -> i32 {
    i32::from_le_bytes([p[o], p[o + 1], p[o + 2], p[o + 3]])
}
fn u32_at(p: &[u8], o: usize) -> u32 {
    i32_at(p, o) as u32
}
/// stored integer of a scaled field
fn raw_at(s: &Scaled, p: &[u8]) -> i64 {
    match (s.size, s.signed) {
        (1, false) => p[s.off] as i64,
        (1, true) => p[s.off] as i8 as i64,
        (2, false) => u16::from_le_bytes([p[s.off], p[s.off + 1]]) as i64,
        (2, true) => i16::from_le_bytes([p[s.off], p[s.off + 1]]) as i64,
        (_, false) => u32_at(p, s.off) as i64,
        (_, true) => i32_at(p, s.off) as i64,
    }
}
fn limits(s: &Scaled) -> (i64, i64) {
    let b = 8 * s.size as u32;
    if s.signed {
        (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    } else {
        (0, (1 << b) - 1)
    }
}
fn build_with(i: usize, k: usize, v: f64) -> Vec<u8> {
    let mut p = vec![0u8; B_LEN[i]];
    for j in 0..p.len() {
        p[j] = (j as u8).wrapping_mul(37) & 1;
    }
    let mut x = scaled_fixed(i, &mut p);
    fix_enums(i, &mut p);
    x[k] = v;
    array_of(i, &p, &x)
}
fn near(a: f64, b: f64, tol: f64, label: &str) {
    let d = a - b;
    check((d <= tol) & (d >= -tol), label);
}

// ---------------------------------------------------------------- C16
/// any value up to a thousand times beyond the range: nearest step, or the limit
#[no_mangle]
pub fn h_c16_near() {
    let (i, k) = pick_scaled();
    let s = &SCALED[i][k];
    let (lo, hi) = limits(s);
    let (lo, hi) = (lo as f64, hi as f64);
    let region = choice(3);
    let v = if s.single { f32s() as f64 } else { f64s() };
    let step = s.scale;
    let (a, b) = match region {
        0 => (lo * step - step, hi * step + step),
        1 => (hi * step + step, hi * step * 1000.0),
        _ => (-hi * step * 1000.0, lo * step - step),
    };
    assume((v >= a) & (v <= b));
    let f = build_with(i, k, v);
    let r = raw_at(s, &f[6..]);
    cover(s.name);
    // rounding errors of the conversion itself, in steps
    let slack = if s.single { 0.02 } else { 4e-6 };
    match region {
        0 => {
            let d = r as f64 * step - v;
            let q = (0.5 + slack) * step;
            if v > hi * step {
                check(r == hi as i64, "a value beyond the range gives the largest step");
            } else if v < lo * step {
                check(r == lo as i64, "a value below the range gives the smallest step");
            } else {
                check((d <= q) & (d >= -q), "the nearest step is stored");
            }
        }
        1 => check(r == hi as i64, "a value beyond the range gives the largest step"),
        _ => check(r == lo as i64, "a value below the range gives the smallest step"),
    }
}
/// everything else a float can hold
#[no_mangle]
pub fn h_c16_extreme() {
    let (i, k) = pick_scaled();
    let s = &SCALED[i][k];
    let (lo, hi) = limits(s);
    let v = if s.single { f32_any() as f64 } else { f64_any() };
    let f = build_with(i, k, v);
    let r = raw_at(s, &f[6..]);
    check((r >= lo) & (r <= hi), "some value in range is stored");
    if v.is_nan() {
        cover("nan");
    } else if v >= hi as f64 * s.scale * 1000.0 {
        cover("huge");
        check(r == hi, "a huge value gives the largest step");
    } else if v <= -(hi as f64) * s.scale * 1000.0 {
        cover("hugeneg");
        check(r == lo, "a hugely negative value gives the smallest step");
    }
}
/// decoding and encoding again gives the stored integer
#[no_mangle]
pub fn h_c16_raw() {
    let (i, k) = pick_scaled();
    let s = &SCALED[i][k];
    let mut p = vec![0u8; B_LEN[i]];
    for j in 0..p.len() {
        p[j] = (j as u8).wrapping_mul(37) & 1;
    }
    scaled_fixed(i, &mut p);
    fix_enums(i, &mut p);
    fill(&mut p[s.off..s.off + s.size]);
    let want = raw_at(s, &p);
    deliver(B_ID[i].0, B_ID[i].1, &p, |pk| match rebuild(pk) {
        Some(g) => {
            cover(s.name);
            // as numbers, not byte by byte
            check(raw_at(s, &g[6..]) as f64 == want as f64, "the stored integer survives decoding and encoding");
        }
        None => check(false, "can be built"),
    });
}

// ---------------------------------------------------------------- C23
fn sym<const N: usize>() -> [u8; N] {
    bytes::<N>()
}
#[no_mangle]
pub fn h_c23() {
    match choice(6) {
        0 => {
            let p = sym::<28>();
            deliver(1, 2, &p, |pk| {
                if let PacketRef::NavPosLlh(r) = pk {
                    let q = Position::from(r);
                    cover("NavPosLlh");
                    near(q.lon, i32_at(&p, 4) as f64 * 1e-7, 1e-10, "longitude in degrees");
                    near(q.lat, i32_at(&p, 8) as f64 * 1e-7, 1e-10, "latitude in degrees");
                    near(q.alt, i32_at(&p, 16) as f64 * 1e-3, 1e-7, "height above mean sea level in metres");
                }
            });
        }
        1 => {
            let p = sym::<36>();
            deliver(1, 0x14, &p, |pk| {
                if let PacketRef::NavHpPosLlh(r) = pk {
                    let q = Position::from(r);
                    cover("NavHpPosLlh");
                    near(q.lon, i32_at(&p, 8) as f64 * 1e-7 + p[24] as i8 as f64 * 1e-9, 1e-11, "longitude in degrees");
                    near(q.lat, i32_at(&p, 12) as f64 * 1e-7 + p[25] as i8 as f64 * 1e-9, 1e-11, "latitude in degrees");
                    near(q.alt, i32_at(&p, 20) as f64 * 1e-3 + p[27] as i8 as f64 * 1e-4, 1e-7, "height above mean sea level in metres");
                }
            });
        }
        2 => {
            let p = sym::<28>();
            deliver(1, 0x13, &p, |pk| {
                if let PacketRef::NavHpPosEcef(r) = pk {
                    let q = PositionECEF::from(r);
                    cover("NavHpPosEcef");
                    near(q.x, i32_at(&p, 8) as f64 * 1e-2 + p[20] as i8 as f64 * 1e-4, 1e-6, "x in metres");
                    near(q.y, i32_at(&p, 12) as f64 * 1e-2 + p[21] as i8 as f64 * 1e-4, 1e-6, "y in metres");
                    near(q.z, i32_at(&p, 16) as f64 * 1e-2 + p[22] as i8 as f64 * 1e-4, 1e-6, "z in metres");
                }
            });
        }
        3 => {
            let p = sym::<36>();
            deliver(1, 0x12, &p, |pk| {
                if let PacketRef::NavVelNed(r) = pk {
                    let q = Velocity::from(r);
                    cover("NavVelNed");
                    near(q.speed, u32_at(&p, 20) as f64 * 1e-2, 1e-6, "speed in metres per second");
                    near(q.heading, i32_at(&p, 24) as f64 * 1e-5, 1e-8, "heading in degrees");
                }
            });
        }
        4 => {
            let p = sym::<92>();
            deliver(1, 7, &p, |pk| {
                if let PacketRef::NavPvt(r) = pk {
                    let q = Position::from(r);
                    cover("NavPvt position");
                    near(q.lon, i32_at(&p, 24) as f64 * 1e-7, 1e-10, "longitude in degrees");
                    near(q.lat, i32_at(&p, 28) as f64 * 1e-7, 1e-10, "latitude in degrees");
                    near(q.alt, i32_at(&p, 36) as f64 * 1e-3, 1e-7, "height above mean sea level in metres");
                }
            });
        }
        _ => {
            let p = sym::<92>();
            deliver(1, 7, &p, |pk| {
                if let PacketRef::NavPvt(r) = pk {
                    let q = Velocity::from(r);
                    cover("NavPvt velocity");
                    assume(p[63] < 128); // a speed is not negative
                    near(q.speed, i32_at(&p, 60) as f64 * 1e-3, 1e-6, "speed in metres per second");
                    near(q.heading, i32_at(&p, 64) as f64 * 1e-5, 1e-8, "heading in degrees");
                }
            });
        }
    }
}

// ---------------------------------------------------------------- C22
fn month_len(y: u32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + ((y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))) as u32,
        _ => 0,
    }
}
fn pvt_time(y: u16, p: &mut [u8]) {
    p[4] = y as u8;
    p[5] = (y >> 8) as u8;
}
/// Month and day are concrete alternatives, the time of day and the nanoseconds symbolic;
/// the date is compared by its fields when the year is concrete, and as a date otherwise.
fn c22(y: u16, fixed: bool) {
    let mut p = sym::<92>();
    pvt_time(y, &mut p);
    let md = (choice(14 * 33) + 15) % (14 * 33); // the hardest first
    let (m, d) = (md % 14, md / 14);
    if m == 13 {
        assume(p[6] > 12);
    } else {
        p[6] = m as u8;
    }
    if d == 32 {
        assume(p[7] > 31);
    } else {
        p[7] = d as u8;
    }
    let (mo, d, h, mi, s) = (p[6] as u32, p[7] as u32, p[8] as u32, p[9] as u32, p[10] as u32);
    let ns = i32_at(&p[..], 16);
    let date_ok = if mo > 12 { false } else { (d >= 1) & (d <= month_len(y as u32, mo)) };
    let time_ok = (h < 24) & (mi < 60) & (s < 60);
    let ns_ok = (ns > -1_000_000_000) & (ns < 1_000_000_000);
    let tod = h * 3600 + mi * 60 + s;
    let (back, midnight) = (ns < 0, tod == 0);
    let (back, midnight) = (concretize(back as u64) == 1, concretize(midnight as u64) == 1);
    deliver(1, 7, &p[..], |pk| {
        if let PacketRef::NavPvt(r) = pk {
            match DateTime::<Utc>::try_from(r) {
                Ok(t) => {
                    cover("time");
                    check(date_ok & time_ok & ns_ok, "only valid fields give a time");
                    let got = t.time().num_seconds_from_midnight();
                    let date_is = |y2: i32, m2: u32, d2: u32| {
                        if fixed {
                            (t.year() == y2) & (t.month() == m2) & (t.day() == d2)
                        } else {
                            match NaiveDate::from_ymd_opt(y2, m2, d2) {
                                Some(x) => (t.year() == y2) & (t.date_naive() == x),
                                None => false,
                            }
                        }
                    };
                    if !back {
                        check(date_is(y as i32, mo, d), "the date of the fields");
                        check(got == tod, "the time of day of the fields");
                        check(t.nanosecond() == ns as u32, "the nanoseconds of the fields");
                    } else {
                        // one second earlier, and the rest of that second
                        check(t.nanosecond() as i64 == 1_000_000_000 + ns as i64, "a negative correction borrows from the second");
                        if !midnight {
                            cover("borrow");
                            check(got == tod - 1, "one second earlier");
                            check(date_is(y as i32, mo, d), "the date of the fields");
                        } else {
                            cover("borrow day");
                            check(got == 86399, "the last second of the day before");
                            if d > 1 {
                                check(date_is(y as i32, mo, d - 1), "the day before");
                            } else if mo > 1 {
                                check(date_is(y as i32, mo - 1, month_len(y as u32, mo - 1)), "the last day of the month before");
                            } else {
                                check(date_is(y as i32 - 1, 12, 31), "the last day of the year before");
                            }
                        }
                    }
                }
                Err(e) => {
                    cover("error");
                    check(!(date_ok & time_ok & ns_ok), "valid fields give a time");
                    match e {
                        DateTimeError::InvalidDate => check(!date_ok, "the date is blamed for an invalid date"),
                        DateTimeError::InvalidTime => check(!time_ok, "the time is blamed for an invalid time"),
                        DateTimeError::InvalidNanoseconds => check(!ns_ok, "the nanoseconds are blamed for invalid nanoseconds"),
                    }
                }
            }
        }
    });
}
/// representative years
#[no_mangle]
pub fn h_c22() {
    let y = match choice(10) {
        0 => 2000,
        1 => 2023,
        2 => 2024,
        3 => 2100,
        4 => 0,
        5 => 1,
        6 => 65535,
        7 => 1970,
        8 => 2400,
        _ => 9999,
    };
    c22(y, true);
}
/// any year
#[no_mangle]
pub fn h_c22_year() {
    let y = u16s();
    c22(y, false);
}

// ---------------------------------------------------------------- C25
const AID: usize = 4;
#[no_mangle]
pub fn h_c25_pos() {
    let p = sym::<48>();
    let b = mk_AidIni(&p, &[]);
    let (lat, lon, alt) = (f64s(), f64s(), f64s());
    let which = choice(3);
    assume((lat >= -90.0) & (lat <= 90.0));
    assume((lon >= -180.0) & (lon <= 180.0));
    assume((alt >= -20_000_000.0) & (alt <= 21_000_000.0));
    let f = b.set_position(Position { lat, lon, alt }).into_packet_bytes();
    cover("position");
    let q = &f[6..54];
    match which {
        0 => near(i32_at(q, 0) as f64, lat * 1e7, 1.001, "latitude in 1e-7 degrees"),
        1 => near(i32_at(q, 4) as f64, lon * 1e7, 1.001, "longitude in 1e-7 degrees"),
        _ => {
            near(i32_at(q, 8) as f64, alt * 1e2, 1.001, "height in centimetres");
            check(u32_at(q, 44) == u32_at(&p, 44) | 0x21, "position valid, as latitude, longitude and height");
            check(eq_bytes(&q[12..44], &p[12..44]), "nothing else changes");
            let mut w = vec![];
            put_frame(&mut w, 0x0b, 1, q);
            check(eq_bytes(&f, &w), "the frame is well-formed");
        }
    }
}
#[no_mangle]
pub fn h_c25_time() {
    let (mo, d) = (choice(12) + 1, choice(31) + 1);
    let y = 2000 + choice(100);
    let p = sym::<48>();
    let b = mk_AidIni(&p, &[]);
    let (secs, ns) = (u32s(), u32s());
    assume((secs < 86400) & (ns < 1_000_000_000));
    let (h, mi, s) = (secs / 60 / 60, secs / 60 % 60, secs % 60);
    let t = match (NaiveDate::from_ymd_opt(y as i32, mo, d), NaiveTime::from_num_seconds_from_midnight_opt(secs, ns)) {
        (Some(x), Some(z)) => DateTime::<Utc>::from_naive_utc_and_offset(x.and_time(z), Utc),
        _ => return,
    };
    let f = b.set_time(t).into_packet_bytes();
    cover("time");
    let q = &f[6..54];
    check(u16::from_le_bytes([q[18], q[19]]) as u32 == (y - 2000) * 100 + mo, "year and month as YYMM");
    check(u32_at(q, 20) == ((d * 100 + h) * 100 + mi) * 100 + s, "day and time as DDHHMMSS");
    check(u32_at(q, 24) == ns, "nanoseconds");
    check(u32_at(q, 44) == u32_at(&p, 44) | 0x402, "time valid, as UTC");
    check(eq_bytes(&q[..18], &p[..18]) & eq_bytes(&q[28..44], &p[28..44]), "nothing else changes");
    let mut w = vec![];
    put_frame(&mut w, 0x0b, 1, q);
    check(eq_bytes(&f, &w), "the frame is well-formed");
}

pub const ENTRIES: &[(&str, fn())] = &[
    ("h_c16_near", h_c16_near),
    ("h_c16_extreme", h_c16_extreme),
    ("h_c16_raw", h_c16_raw),
    ("h_c23", h_c23),
    ("h_c22", h_c22),
    ("h_c22_year", h_c22_year),
    ("h_c25_pos", h_c25_pos),
    ("h_c25_time", h_c25_time),
];
