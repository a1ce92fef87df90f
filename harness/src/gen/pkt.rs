// generated by /verif/tools/gen.py from /verif/spec -- do not edit
#![allow(non_snake_case, unused_variables, clippy::all)]
use super::view::*;
use crate::rt::*;
use ublox::*;

/// scaled value: identical, or equal up to floating-point rounding
#[inline(always)]
pub fn close(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-12 * b.abs()
}
#[inline(always)]
pub fn close32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-6 * b.abs()
}
/// the declared message `v` allows this payload (text contents of MonVer excepted)
pub fn allows(v: u32, p: &[u8]) -> bool {
    let n = p.len();
    match v {
        0 => n == 28, // NavPosLlh
        1 => n == 16, // NavStatus
        2 => n == 18, // NavDop
        3 => n == 92, // NavPvt
        4 => n == 52, // NavSolution
        5 => n == 36, // NavVelNed
        6 => n == 36, // NavHpPosLlh
        7 => n == 28, // NavHpPosEcef
        8 => n == 20, // NavTimeUTC
        9 => n == 24, // NavTimeLs
        10 => n >= 8 && (n - 8) % 12 == 0, // NavSat
        11 => n == 4, // NavEoe
        12 => n == 20, // NavOdo
        13 => n == 20 && (((p[5] == 0) | (p[5] == 1) | (p[5] == 2) | (p[5] == 3) | (p[5] == 4))), // CfgOdo
        14 => n == 8, // MgaAck
        15 => n == 16, // MgaGpsIono
        16 => n == 68, // MgaGpsEph
        17 => n == 48, // MgaGloEph
        18 => n == 16, // AlpSrv
        19 => n == 2, // AckAck
        20 => n == 2, // AckNak
        21 => n == 8, // CfgItfm
        22 => n == 20 && (((p[0] == 0))), // CfgPrtI2c
        23 => n == 20 && (((p[0] == 4))), // CfgPrtSpi
        24 => n == 20 && (((p[0] == 1) | (p[0] == 2) | (p[0] == 3)) & (((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 6) & 3) >= 2) & (((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 9) & 7 == 0) | ((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 9) & 7 == 1) | ((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 9) & 6 == 4))), // CfgPrtUart
        25 => n == 36 && (((p[2] == 0) | (p[2] == 2) | (p[2] == 3) | (p[2] == 4) | (p[2] == 5) | (p[2] == 6) | (p[2] == 7) | (p[2] == 8) | (p[2] == 9) | (p[2] == 10)) & ((p[3] == 1) | (p[3] == 2) | (p[3] == 3)) & ((p[30] == 0) | (p[30] == 3) | (p[30] == 6) | (p[30] == 7))), // CfgNav5
        26 => n == 4, // CfgAnt
        27 => n == 28 && (((p[0] == 0) | (p[0] == 1) | (p[0] == 2))), // CfgTmode2
        28 => n == 40, // CfgTmode3
        29 => n == 32 && (((p[0] == 0) | (p[0] == 1))), // CfgTp5
        30 => n == 10, // CfgInf
        31 => n == 40, // CfgNavX5
        32 => true, // InfError
        33 => true, // InfWarning
        34 => true, // InfNotice
        35 => true, // InfTest
        36 => true, // InfDebug
        37 => n >= 16 && (n - 16) % 32 == 0, // RxmRawx
        38 => n == 16, // TimTp
        39 => n == 28, // TimTm2
        40 => n >= 40 && (n - 40) % 30 == 0, // MonVer
        41 => n == 8, // MonGnss
        42 => n == 60, // MonHw
        43 => n == 8, // RxmRtcm
        44 => n >= 8 && n % 4 == 0 && n >= 8 + 4 * (p[5] >> 3) as usize + (if p[4] & 8 != 0 { 4 } else { 0 }), // EsfMeas
        45 => n == 36, // EsfIns
        46 => n == 32, // HnrAtt
        47 => n == 36, // HnrIns
        48 => n == 72, // HnrPvt
        49 => n == 32, // NavAtt
        50 => n == 20, // NavClock
        51 => n == 20, // NavVelECEF
        52 => n == 68, // MgaGpsEPH
        53 => n >= 8 && (n - 8) % 4 == 0, // RxmSfrbx
        54 => n >= 4 && (n - 4) % 8 == 0, // EsfRaw
        55 => n == 28, // TimSvin
        56 => n == 9, // SecUniqId
        _ => false,
    }
}
/// the message a frame has to be presented as
pub fn expected(class: u8, id: u8, p: &[u8]) -> u32 {
    match (class, id) {
        (1, 2) => if allows(0, p) { 0 } else { V_UNKNOWN },
        (1, 3) => if allows(1, p) { 1 } else { V_UNKNOWN },
        (1, 4) => if allows(2, p) { 2 } else { V_UNKNOWN },
        (1, 7) => if allows(3, p) { 3 } else { V_UNKNOWN },
        (1, 6) => if allows(4, p) { 4 } else { V_UNKNOWN },
        (1, 18) => if allows(5, p) { 5 } else { V_UNKNOWN },
        (1, 20) => if allows(6, p) { 6 } else { V_UNKNOWN },
        (1, 19) => if allows(7, p) { 7 } else { V_UNKNOWN },
        (1, 33) => if allows(8, p) { 8 } else { V_UNKNOWN },
        (1, 38) => if allows(9, p) { 9 } else { V_UNKNOWN },
        (1, 53) => if allows(10, p) { 10 } else { V_UNKNOWN },
        (1, 97) => if allows(11, p) { 11 } else { V_UNKNOWN },
        (1, 9) => if allows(12, p) { 12 } else { V_UNKNOWN },
        (6, 30) => if allows(13, p) { 13 } else { V_UNKNOWN },
        (19, 96) => if allows(14, p) { 14 } else { V_UNKNOWN },
        (19, 0) => if allows(15, p) { 15 } else if allows(16, p) { 16 } else if allows(52, p) { 52 } else { V_UNKNOWN },
        (19, 6) => if allows(17, p) { 17 } else { V_UNKNOWN },
        (11, 50) => if allows(18, p) { 18 } else { V_UNKNOWN },
        (5, 1) => if allows(19, p) { 19 } else { V_UNKNOWN },
        (5, 0) => if allows(20, p) { 20 } else { V_UNKNOWN },
        (6, 57) => if allows(21, p) { 21 } else { V_UNKNOWN },
        (6, 0) => if allows(22, p) { 22 } else if allows(23, p) { 23 } else if allows(24, p) { 24 } else { V_UNKNOWN },
        (6, 36) => if allows(25, p) { 25 } else { V_UNKNOWN },
        (6, 19) => if allows(26, p) { 26 } else { V_UNKNOWN },
        (6, 61) => if allows(27, p) { 27 } else { V_UNKNOWN },
        (6, 113) => if allows(28, p) { 28 } else { V_UNKNOWN },
        (6, 49) => if allows(29, p) { 29 } else { V_UNKNOWN },
        (6, 2) => if allows(30, p) { 30 } else { V_UNKNOWN },
        (6, 35) => if allows(31, p) { 31 } else { V_UNKNOWN },
        (4, 0) => if allows(32, p) { 32 } else { V_UNKNOWN },
        (4, 1) => if allows(33, p) { 33 } else { V_UNKNOWN },
        (4, 2) => if allows(34, p) { 34 } else { V_UNKNOWN },
        (4, 3) => if allows(35, p) { 35 } else { V_UNKNOWN },
        (4, 4) => if allows(36, p) { 36 } else { V_UNKNOWN },
        (2, 21) => if allows(37, p) { 37 } else { V_UNKNOWN },
        (13, 1) => if allows(38, p) { 38 } else { V_UNKNOWN },
        (13, 3) => if allows(39, p) { 39 } else { V_UNKNOWN },
        (10, 4) => if allows(40, p) { 40 } else { V_UNKNOWN },
        (10, 40) => if allows(41, p) { 41 } else { V_UNKNOWN },
        (10, 9) => if allows(42, p) { 42 } else { V_UNKNOWN },
        (2, 50) => if allows(43, p) { 43 } else { V_UNKNOWN },
        (16, 2) => if allows(44, p) { 44 } else { V_UNKNOWN },
        (16, 21) => if allows(45, p) { 45 } else { V_UNKNOWN },
        (40, 1) => if allows(46, p) { 46 } else { V_UNKNOWN },
        (40, 2) => if allows(47, p) { 47 } else { V_UNKNOWN },
        (40, 0) => if allows(48, p) { 48 } else { V_UNKNOWN },
        (1, 5) => if allows(49, p) { 49 } else { V_UNKNOWN },
        (1, 34) => if allows(50, p) { 50 } else { V_UNKNOWN },
        (1, 17) => if allows(51, p) { 51 } else { V_UNKNOWN },
        (2, 19) => if allows(53, p) { 53 } else { V_UNKNOWN },
        (16, 3) => if allows(54, p) { 54 } else { V_UNKNOWN },
        (13, 4) => if allows(55, p) { 55 } else { V_UNKNOWN },
        (39, 3) => if allows(56, p) { 56 } else { V_UNKNOWN },
        _ => V_UNKNOWN,
    }
}
pub const FIXED: [usize; 57] = [28, 16, 18, 92, 52, 36, 36, 28, 20, 24, 9999, 4, 20, 20, 8, 16, 68, 48, 16, 2, 2, 8, 20, 20, 20, 36, 4, 28, 40, 32, 10, 40, 9999, 9999, 9999, 9999, 9999, 9999, 16, 28, 9999, 8, 60, 8, 9999, 36, 32, 36, 72, 32, 20, 20, 68, 9999, 9999, 28, 9];
pub const HEADER: [usize; 57] = [28, 16, 18, 92, 52, 36, 36, 28, 20, 24, 8, 4, 20, 20, 8, 16, 68, 48, 16, 2, 2, 8, 20, 20, 20, 36, 4, 28, 40, 32, 10, 40, 0, 0, 0, 0, 0, 16, 16, 28, 40, 8, 60, 8, 8, 36, 32, 36, 72, 32, 20, 20, 68, 8, 4, 28, 9];
pub const BLOCK: [usize; 57] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 32, 0, 0, 30, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 4, 8, 0, 0];
pub fn get_NavPosLlh(r: &NavPosLlhRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavPosLlh.itow");
    check(r.lon_degrees_raw() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavPosLlh.lon_degrees_raw");
    check(close(r.lon_degrees() as f64, (i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as f64) * 1e-7), "NavPosLlh.lon_degrees");
    check(r.lat_degrees_raw() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavPosLlh.lat_degrees_raw");
    check(close(r.lat_degrees() as f64, (i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 1e-7), "NavPosLlh.lat_degrees");
    check(r.height_meters_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavPosLlh.height_meters_raw");
    check(close(r.height_meters() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-3), "NavPosLlh.height_meters");
    check(r.height_msl_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavPosLlh.height_msl_raw");
    check(close(r.height_msl() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-3), "NavPosLlh.height_msl");
    check(r.h_ack_raw() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "NavPosLlh.h_ack_raw");
    check(close(r.h_ack() as f64, (u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-3), "NavPosLlh.h_ack");
    check(r.v_acc_raw() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "NavPosLlh.v_acc_raw");
    check(close(r.v_acc() as f64, (u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-3), "NavPosLlh.v_acc");
}
pub fn get_NavStatus(r: &NavStatusRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavStatus.itow");
    check(r.fix_type_raw() as i64 == p[4] as i64, "NavStatus.fix_type_raw");
    check(r.fix_type() as u8 == p[4], "NavStatus.fix_type");
    check(r.flags_raw() as i64 == p[5] as i64, "NavStatus.flags_raw");
    check(r.flags().bits() as u64 == p[5] as u64, "NavStatus.flags");
    check(r.fix_stat_raw() as i64 == p[6] as i64, "NavStatus.fix_stat_raw");
    check(r.flags2_raw() as i64 == p[7] as i64, "NavStatus.flags2_raw");
    check(r.time_to_first_fix() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavStatus.time_to_first_fix");
    check(r.uptime_ms() as i64 == u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavStatus.uptime_ms");
}
pub fn get_NavDop(r: &NavDopRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavDop.itow");
    check(r.geometric_dop_raw() as i64 == u16::from_le_bytes([p[4], p[5]]) as i64, "NavDop.geometric_dop_raw");
    check(close32(r.geometric_dop() as f32, (u16::from_le_bytes([p[4], p[5]]) as f32) * 1e-2), "NavDop.geometric_dop");
    check(r.position_dop_raw() as i64 == u16::from_le_bytes([p[6], p[7]]) as i64, "NavDop.position_dop_raw");
    check(close32(r.position_dop() as f32, (u16::from_le_bytes([p[6], p[7]]) as f32) * 1e-2), "NavDop.position_dop");
    check(r.time_dop_raw() as i64 == u16::from_le_bytes([p[8], p[9]]) as i64, "NavDop.time_dop_raw");
    check(close32(r.time_dop() as f32, (u16::from_le_bytes([p[8], p[9]]) as f32) * 1e-2), "NavDop.time_dop");
    check(r.vertical_dop_raw() as i64 == u16::from_le_bytes([p[10], p[11]]) as i64, "NavDop.vertical_dop_raw");
    check(close32(r.vertical_dop() as f32, (u16::from_le_bytes([p[10], p[11]]) as f32) * 1e-2), "NavDop.vertical_dop");
    check(r.horizontal_dop_raw() as i64 == u16::from_le_bytes([p[12], p[13]]) as i64, "NavDop.horizontal_dop_raw");
    check(close32(r.horizontal_dop() as f32, (u16::from_le_bytes([p[12], p[13]]) as f32) * 1e-2), "NavDop.horizontal_dop");
    check(r.northing_dop_raw() as i64 == u16::from_le_bytes([p[14], p[15]]) as i64, "NavDop.northing_dop_raw");
    check(close32(r.northing_dop() as f32, (u16::from_le_bytes([p[14], p[15]]) as f32) * 1e-2), "NavDop.northing_dop");
    check(r.easting_dop_raw() as i64 == u16::from_le_bytes([p[16], p[17]]) as i64, "NavDop.easting_dop_raw");
    check(close32(r.easting_dop() as f32, (u16::from_le_bytes([p[16], p[17]]) as f32) * 1e-2), "NavDop.easting_dop");
}
pub fn get_NavPvt(r: &NavPvtRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavPvt.itow");
    check(r.year() as i64 == u16::from_le_bytes([p[4], p[5]]) as i64, "NavPvt.year");
    check(r.month() as i64 == p[6] as i64, "NavPvt.month");
    check(r.day() as i64 == p[7] as i64, "NavPvt.day");
    check(r.hour() as i64 == p[8] as i64, "NavPvt.hour");
    check(r.min() as i64 == p[9] as i64, "NavPvt.min");
    check(r.sec() as i64 == p[10] as i64, "NavPvt.sec");
    check(r.valid() as i64 == p[11] as i64, "NavPvt.valid");
    check(r.time_accuracy() as i64 == u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavPvt.time_accuracy");
    check(r.nanosecond() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavPvt.nanosecond");
    check(r.fix_type_raw() as i64 == p[20] as i64, "NavPvt.fix_type_raw");
    check(r.fix_type() as u8 == p[20], "NavPvt.fix_type");
    check(r.flags_raw() as i64 == p[21] as i64, "NavPvt.flags_raw");
    check(r.flags().bits() as u64 == p[21] as u64, "NavPvt.flags");
    check(r.flags2_raw() as i64 == p[22] as i64, "NavPvt.flags2_raw");
    check(r.flags2().bits() as u64 == p[22] as u64, "NavPvt.flags2");
    check(r.num_satellites() as i64 == p[23] as i64, "NavPvt.num_satellites");
    check(r.lon_degrees_raw() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "NavPvt.lon_degrees_raw");
    check(close(r.lon_degrees() as f64, (i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-7), "NavPvt.lon_degrees");
    check(r.lat_degrees_raw() as i64 == i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "NavPvt.lat_degrees_raw");
    check(close(r.lat_degrees() as f64, (i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-7), "NavPvt.lat_degrees");
    check(r.height_meters_raw() as i64 == i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "NavPvt.height_meters_raw");
    check(close(r.height_meters() as f64, (i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as f64) * 1e-3), "NavPvt.height_meters");
    check(r.height_msl_raw() as i64 == i32::from_le_bytes([p[36], p[37], p[38], p[39]]) as i64, "NavPvt.height_msl_raw");
    check(close(r.height_msl() as f64, (i32::from_le_bytes([p[36], p[37], p[38], p[39]]) as f64) * 1e-3), "NavPvt.height_msl");
    check(r.horiz_accuracy() as i64 == u32::from_le_bytes([p[40], p[41], p[42], p[43]]) as i64, "NavPvt.horiz_accuracy");
    check(r.vert_accuracy() as i64 == u32::from_le_bytes([p[44], p[45], p[46], p[47]]) as i64, "NavPvt.vert_accuracy");
    check(r.vel_north_raw() as i64 == i32::from_le_bytes([p[48], p[49], p[50], p[51]]) as i64, "NavPvt.vel_north_raw");
    check(close(r.vel_north() as f64, (i32::from_le_bytes([p[48], p[49], p[50], p[51]]) as f64) * 1e-3), "NavPvt.vel_north");
    check(r.vel_east_raw() as i64 == i32::from_le_bytes([p[52], p[53], p[54], p[55]]) as i64, "NavPvt.vel_east_raw");
    check(close(r.vel_east() as f64, (i32::from_le_bytes([p[52], p[53], p[54], p[55]]) as f64) * 1e-3), "NavPvt.vel_east");
    check(r.vel_down_raw() as i64 == i32::from_le_bytes([p[56], p[57], p[58], p[59]]) as i64, "NavPvt.vel_down_raw");
    check(close(r.vel_down() as f64, (i32::from_le_bytes([p[56], p[57], p[58], p[59]]) as f64) * 1e-3), "NavPvt.vel_down");
    check(r.ground_speed_raw() as i64 == u32::from_le_bytes([p[60], p[61], p[62], p[63]]) as i64, "NavPvt.ground_speed_raw");
    check(close(r.ground_speed() as f64, (u32::from_le_bytes([p[60], p[61], p[62], p[63]]) as f64) * 1e-3), "NavPvt.ground_speed");
    check(r.heading_degrees_raw() as i64 == i32::from_le_bytes([p[64], p[65], p[66], p[67]]) as i64, "NavPvt.heading_degrees_raw");
    check(close(r.heading_degrees() as f64, (i32::from_le_bytes([p[64], p[65], p[66], p[67]]) as f64) * 1e-5), "NavPvt.heading_degrees");
    check(r.speed_accuracy_estimate_raw() as i64 == u32::from_le_bytes([p[68], p[69], p[70], p[71]]) as i64, "NavPvt.speed_accuracy_estimate_raw");
    check(close(r.speed_accuracy_estimate() as f64, (u32::from_le_bytes([p[68], p[69], p[70], p[71]]) as f64) * 1e-3), "NavPvt.speed_accuracy_estimate");
    check(r.heading_accuracy_estimate_raw() as i64 == u32::from_le_bytes([p[72], p[73], p[74], p[75]]) as i64, "NavPvt.heading_accuracy_estimate_raw");
    check(close(r.heading_accuracy_estimate() as f64, (u32::from_le_bytes([p[72], p[73], p[74], p[75]]) as f64) * 1e-5), "NavPvt.heading_accuracy_estimate");
    check(r.pdop() as i64 == u16::from_le_bytes([p[76], p[77]]) as i64, "NavPvt.pdop");
    check(eq_bytes(&r.reserved1(), &p[78..84]), "NavPvt.reserved1");
    check(r.heading_of_vehicle_degrees_raw() as i64 == i32::from_le_bytes([p[84], p[85], p[86], p[87]]) as i64, "NavPvt.heading_of_vehicle_degrees_raw");
    check(close(r.heading_of_vehicle_degrees() as f64, (i32::from_le_bytes([p[84], p[85], p[86], p[87]]) as f64) * 1e-5), "NavPvt.heading_of_vehicle_degrees");
    check(r.magnetic_declination_degrees_raw() as i64 == i16::from_le_bytes([p[88], p[89]]) as i64, "NavPvt.magnetic_declination_degrees_raw");
    check(close(r.magnetic_declination_degrees() as f64, (i16::from_le_bytes([p[88], p[89]]) as f64) * 1e-2), "NavPvt.magnetic_declination_degrees");
    check(r.magnetic_declination_accuracy_degrees_raw() as i64 == u16::from_le_bytes([p[90], p[91]]) as i64, "NavPvt.magnetic_declination_accuracy_degrees_raw");
    check(close(r.magnetic_declination_accuracy_degrees() as f64, (u16::from_le_bytes([p[90], p[91]]) as f64) * 1e-2), "NavPvt.magnetic_declination_accuracy_degrees");
}
pub fn get_NavSolution(r: &NavSolutionRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavSolution.itow");
    check(r.ftow_ns() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavSolution.ftow_ns");
    check(r.week() as i64 == i16::from_le_bytes([p[8], p[9]]) as i64, "NavSolution.week");
    check(r.fix_type_raw() as i64 == p[10] as i64, "NavSolution.fix_type_raw");
    check(r.fix_type() as u8 == p[10], "NavSolution.fix_type");
    check(r.flags_raw() as i64 == p[11] as i64, "NavSolution.flags_raw");
    check(r.flags().bits() as u64 == p[11] as u64, "NavSolution.flags");
    check(r.ecef_x_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavSolution.ecef_x_raw");
    check(close(r.ecef_x() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-2), "NavSolution.ecef_x");
    check(r.ecef_y_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavSolution.ecef_y_raw");
    check(close(r.ecef_y() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-2), "NavSolution.ecef_y");
    check(r.ecef_z_raw() as i64 == i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "NavSolution.ecef_z_raw");
    check(close(r.ecef_z() as f64, (i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-2), "NavSolution.ecef_z");
    check(r.position_accuracy_estimate_raw() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "NavSolution.position_accuracy_estimate_raw");
    check(close(r.position_accuracy_estimate() as f64, (u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-2), "NavSolution.position_accuracy_estimate");
    check(r.ecef_vx_raw() as i64 == i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "NavSolution.ecef_vx_raw");
    check(close(r.ecef_vx() as f64, (i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-2), "NavSolution.ecef_vx");
    check(r.ecef_vy_raw() as i64 == i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "NavSolution.ecef_vy_raw");
    check(close(r.ecef_vy() as f64, (i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as f64) * 1e-2), "NavSolution.ecef_vy");
    check(r.ecef_vz_raw() as i64 == i32::from_le_bytes([p[36], p[37], p[38], p[39]]) as i64, "NavSolution.ecef_vz_raw");
    check(close(r.ecef_vz() as f64, (i32::from_le_bytes([p[36], p[37], p[38], p[39]]) as f64) * 1e-2), "NavSolution.ecef_vz");
    check(r.speed_accuracy_estimate_raw() as i64 == u32::from_le_bytes([p[40], p[41], p[42], p[43]]) as i64, "NavSolution.speed_accuracy_estimate_raw");
    check(close(r.speed_accuracy_estimate() as f64, (u32::from_le_bytes([p[40], p[41], p[42], p[43]]) as f64) * 1e-2), "NavSolution.speed_accuracy_estimate");
    check(r.pdop_raw() as i64 == u16::from_le_bytes([p[44], p[45]]) as i64, "NavSolution.pdop_raw");
    check(close32(r.pdop() as f32, (u16::from_le_bytes([p[44], p[45]]) as f32) * 1e-2), "NavSolution.pdop");
    check(r.reserved1() as i64 == p[46] as i64, "NavSolution.reserved1");
    check(r.num_sv() as i64 == p[47] as i64, "NavSolution.num_sv");
    check(eq_bytes(&r.reserved2(), &p[48..52]), "NavSolution.reserved2");
}
pub fn get_NavVelNed(r: &NavVelNedRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavVelNed.itow");
    check(r.vel_north_raw() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavVelNed.vel_north_raw");
    check(close(r.vel_north() as f64, (i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as f64) * 1e-2), "NavVelNed.vel_north");
    check(r.vel_east_raw() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavVelNed.vel_east_raw");
    check(close(r.vel_east() as f64, (i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 1e-2), "NavVelNed.vel_east");
    check(r.vel_down_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavVelNed.vel_down_raw");
    check(close(r.vel_down() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-2), "NavVelNed.vel_down");
    check(r.speed_3d_raw() as i64 == u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavVelNed.speed_3d_raw");
    check(close(r.speed_3d() as f64, (u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-2), "NavVelNed.speed_3d");
    check(r.ground_speed_raw() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "NavVelNed.ground_speed_raw");
    check(close(r.ground_speed() as f64, (u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-2), "NavVelNed.ground_speed");
    check(r.heading_degrees_raw() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "NavVelNed.heading_degrees_raw");
    check(close(r.heading_degrees() as f64, (i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-5), "NavVelNed.heading_degrees");
    check(r.speed_accuracy_estimate_raw() as i64 == u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "NavVelNed.speed_accuracy_estimate_raw");
    check(close(r.speed_accuracy_estimate() as f64, (u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-2), "NavVelNed.speed_accuracy_estimate");
    check(r.course_heading_accuracy_estimate_raw() as i64 == u32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "NavVelNed.course_heading_accuracy_estimate_raw");
    check(close(r.course_heading_accuracy_estimate() as f64, (u32::from_le_bytes([p[32], p[33], p[34], p[35]]) as f64) * 1e-5), "NavVelNed.course_heading_accuracy_estimate");
}
pub fn get_NavHpPosLlh(r: &NavHpPosLlhRef, p: &[u8]) {
    check(r.version() as i64 == p[0] as i64, "NavHpPosLlh.version");
    check(eq_bytes(&r.reserved1(), &p[1..4]), "NavHpPosLlh.reserved1");
    check(r.itow() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavHpPosLlh.itow");
    check(r.lon_degrees_raw() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavHpPosLlh.lon_degrees_raw");
    check(close(r.lon_degrees() as f64, (i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 1e-7), "NavHpPosLlh.lon_degrees");
    check(r.lat_degrees_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavHpPosLlh.lat_degrees_raw");
    check(close(r.lat_degrees() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-7), "NavHpPosLlh.lat_degrees");
    check(r.height_meters_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavHpPosLlh.height_meters_raw");
    check(close(r.height_meters() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-3), "NavHpPosLlh.height_meters");
    check(r.height_msl_raw() as i64 == i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "NavHpPosLlh.height_msl_raw");
    check(close(r.height_msl() as f64, (i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-3), "NavHpPosLlh.height_msl");
    check(r.lon_hp_degrees_raw() as i64 == i8::from_le_bytes([p[24]]) as i64, "NavHpPosLlh.lon_hp_degrees_raw");
    check(close(r.lon_hp_degrees() as f64, (i8::from_le_bytes([p[24]]) as f64) * 1e-9), "NavHpPosLlh.lon_hp_degrees");
    check(r.lat_hp_degrees_raw() as i64 == i8::from_le_bytes([p[25]]) as i64, "NavHpPosLlh.lat_hp_degrees_raw");
    check(close(r.lat_hp_degrees() as f64, (i8::from_le_bytes([p[25]]) as f64) * 1e-9), "NavHpPosLlh.lat_hp_degrees");
    check(r.height_hp_meters_raw() as i64 == i8::from_le_bytes([p[26]]) as i64, "NavHpPosLlh.height_hp_meters_raw");
    check(close(r.height_hp_meters() as f64, (i8::from_le_bytes([p[26]]) as f64) * 1e-1), "NavHpPosLlh.height_hp_meters");
    check(r.height_hp_msl_raw() as i64 == i8::from_le_bytes([p[27]]) as i64, "NavHpPosLlh.height_hp_msl_raw");
    check(close(r.height_hp_msl() as f64, (i8::from_le_bytes([p[27]]) as f64) * 1e-1), "NavHpPosLlh.height_hp_msl");
    check(r.horizontal_accuracy_raw() as i64 == u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "NavHpPosLlh.horizontal_accuracy_raw");
    check(close(r.horizontal_accuracy() as f64, (u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-1), "NavHpPosLlh.horizontal_accuracy");
    check(r.vertical_accuracy_raw() as i64 == u32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "NavHpPosLlh.vertical_accuracy_raw");
    check(close(r.vertical_accuracy() as f64, (u32::from_le_bytes([p[32], p[33], p[34], p[35]]) as f64) * 1e-1), "NavHpPosLlh.vertical_accuracy");
}
pub fn get_NavHpPosEcef(r: &NavHpPosEcefRef, p: &[u8]) {
    check(r.version() as i64 == p[0] as i64, "NavHpPosEcef.version");
    check(eq_bytes(&r.reserved1(), &p[1..4]), "NavHpPosEcef.reserved1");
    check(r.itow() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavHpPosEcef.itow");
    check(r.ecef_x_cm_raw() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavHpPosEcef.ecef_x_cm_raw");
    check(close(r.ecef_x_cm() as f64, (i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64)), "NavHpPosEcef.ecef_x_cm");
    check(r.ecef_y_cm_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavHpPosEcef.ecef_y_cm_raw");
    check(close(r.ecef_y_cm() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64)), "NavHpPosEcef.ecef_y_cm");
    check(r.ecef_z_cm_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavHpPosEcef.ecef_z_cm_raw");
    check(close(r.ecef_z_cm() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64)), "NavHpPosEcef.ecef_z_cm");
    check(r.ecef_x_hp_mm_raw() as i64 == i8::from_le_bytes([p[20]]) as i64, "NavHpPosEcef.ecef_x_hp_mm_raw");
    check(close(r.ecef_x_hp_mm() as f64, (i8::from_le_bytes([p[20]]) as f64) * 1e-1), "NavHpPosEcef.ecef_x_hp_mm");
    check(r.ecef_y_hp_mm_raw() as i64 == i8::from_le_bytes([p[21]]) as i64, "NavHpPosEcef.ecef_y_hp_mm_raw");
    check(close(r.ecef_y_hp_mm() as f64, (i8::from_le_bytes([p[21]]) as f64) * 1e-1), "NavHpPosEcef.ecef_y_hp_mm");
    check(r.ecef_z_hp_mm_raw() as i64 == i8::from_le_bytes([p[22]]) as i64, "NavHpPosEcef.ecef_z_hp_mm_raw");
    check(close(r.ecef_z_hp_mm() as f64, (i8::from_le_bytes([p[22]]) as f64) * 1e-1), "NavHpPosEcef.ecef_z_hp_mm");
    check(r.flags_raw() as i64 == p[23] as i64, "NavHpPosEcef.flags_raw");
    check(r.flags().bits() as u64 == p[23] as u64, "NavHpPosEcef.flags");
    check(r.p_acc_raw() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "NavHpPosEcef.p_acc_raw");
    check(close(r.p_acc() as f64, (u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-1), "NavHpPosEcef.p_acc");
}
pub fn get_NavTimeUTC(r: &NavTimeUTCRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavTimeUTC.itow");
    check(r.time_accuracy_estimate_ns() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavTimeUTC.time_accuracy_estimate_ns");
    check(r.nanos() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavTimeUTC.nanos");
    check(r.year() as i64 == u16::from_le_bytes([p[12], p[13]]) as i64, "NavTimeUTC.year");
    check(r.month() as i64 == p[14] as i64, "NavTimeUTC.month");
    check(r.day() as i64 == p[15] as i64, "NavTimeUTC.day");
    check(r.hour() as i64 == p[16] as i64, "NavTimeUTC.hour");
    check(r.min() as i64 == p[17] as i64, "NavTimeUTC.min");
    check(r.sec() as i64 == p[18] as i64, "NavTimeUTC.sec");
    check(r.valid_raw() as i64 == p[19] as i64, "NavTimeUTC.valid_raw");
    check(r.valid().bits() as u64 == p[19] as u64, "NavTimeUTC.valid");
}
pub fn get_NavTimeLs(r: &NavTimeLsRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavTimeLs.itow");
    check(r.version() as i64 == p[4] as i64, "NavTimeLs.version");
    check(eq_bytes(&r.reserved_1(), &p[5..8]), "NavTimeLs.reserved_1");
    check(r.src_of_curr_ls() as i64 == p[8] as i64, "NavTimeLs.src_of_curr_ls");
    check(r.current_ls() as i64 == i8::from_le_bytes([p[9]]) as i64, "NavTimeLs.current_ls");
    check(r.src_of_ls_change() as i64 == p[10] as i64, "NavTimeLs.src_of_ls_change");
    check(r.ls_change() as i64 == i8::from_le_bytes([p[11]]) as i64, "NavTimeLs.ls_change");
    check(r.time_to_ls_event() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavTimeLs.time_to_ls_event");
    check(r.date_of_ls_gps_wn() as i64 == u16::from_le_bytes([p[16], p[17]]) as i64, "NavTimeLs.date_of_ls_gps_wn");
    check(r.date_of_ls_gps_dn() as i64 == u16::from_le_bytes([p[18], p[19]]) as i64, "NavTimeLs.date_of_ls_gps_dn");
    check(eq_bytes(&r.reserved_2(), &p[20..23]), "NavTimeLs.reserved_2");
    check(r.valid_raw() as i64 == p[23] as i64, "NavTimeLs.valid_raw");
    check(r.valid().bits() as u64 == p[23] as u64, "NavTimeLs.valid");
}
pub fn get_NavSat(r: &NavSatRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavSat.itow");
    check(r.version() as i64 == p[4] as i64, "NavSat.version");
    check(r.num_svs() as i64 == p[5] as i64, "NavSat.num_svs");
    check(eq_bytes(&r.reserved(), &p[6..8]), "NavSat.reserved");
}
pub fn get_NavEoe(r: &NavEoeRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavEoe.itow");
}
pub fn get_NavOdo(r: &NavOdoRef, p: &[u8]) {
    check(r.version() as i64 == p[0] as i64, "NavOdo.version");
    check(eq_bytes(&r.reserved(), &p[1..4]), "NavOdo.reserved");
    check(r.itow() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavOdo.itow");
    check(r.distance() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavOdo.distance");
    check(r.total_distance() as i64 == u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavOdo.total_distance");
    check(r.distance_std() as i64 == u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavOdo.distance_std");
}
pub fn get_CfgOdo(r: &CfgOdoRef, p: &[u8]) {
    check(r.version() as i64 == p[0] as i64, "CfgOdo.version");
    check(eq_bytes(&r.reserved(), &p[1..4]), "CfgOdo.reserved");
    check(r.flags_raw() as i64 == p[4] as i64, "CfgOdo.flags_raw");
    check(r.flags().bits() as u64 == p[4] as u64, "CfgOdo.flags");
    check(r.odo_cfg_raw() as i64 == p[5] as i64, "CfgOdo.odo_cfg_raw");
    check(r.odo_cfg() as u8 == p[5], "CfgOdo.odo_cfg");
    check(eq_bytes(&r.reserved2(), &p[6..12]), "CfgOdo.reserved2");
    check(r.cog_max_speed() as i64 == p[12] as i64, "CfgOdo.cog_max_speed");
    check(r.cog_max_pos_acc() as i64 == p[13] as i64, "CfgOdo.cog_max_pos_acc");
    check(eq_bytes(&r.reserved3(), &p[14..16]), "CfgOdo.reserved3");
    check(r.vel_lp_gain() as i64 == p[16] as i64, "CfgOdo.vel_lp_gain");
    check(r.cog_lp_gain() as i64 == p[17] as i64, "CfgOdo.cog_lp_gain");
    check(eq_bytes(&r.reserved4(), &p[18..20]), "CfgOdo.reserved4");
}
pub fn get_MgaAck(r: &MgaAckRef, p: &[u8]) {
    check(r.ack_type() as i64 == p[0] as i64, "MgaAck.ack_type");
    check(r.version() as i64 == p[1] as i64, "MgaAck.version");
    check(r.info_code_raw() as i64 == p[2] as i64, "MgaAck.info_code_raw");
    check(r.info_code() as u8 == p[2], "MgaAck.info_code");
    check(r.msg_id() as i64 == p[3] as i64, "MgaAck.msg_id");
    check(eq_bytes(&r.msg_payload_start(), &p[4..8]), "MgaAck.msg_payload_start");
}
pub fn get_MgaGpsIono(r: &MgaGpsIonoRef, p: &[u8]) {
    check(r.msg_type() as i64 == p[0] as i64, "MgaGpsIono.msg_type");
    check(r.version() as i64 == p[1] as i64, "MgaGpsIono.version");
    check(eq_bytes(&r.reserved1(), &p[2..4]), "MgaGpsIono.reserved1");
    check(r.alpha0_raw() as i64 == i8::from_le_bytes([p[4]]) as i64, "MgaGpsIono.alpha0_raw");
    check(close(r.alpha0() as f64, (i8::from_le_bytes([p[4]]) as f64) * 1.0), "MgaGpsIono.alpha0");
    check(r.alpha1_raw() as i64 == i8::from_le_bytes([p[5]]) as i64, "MgaGpsIono.alpha1_raw");
    check(close(r.alpha1() as f64, (i8::from_le_bytes([p[5]]) as f64) * 1.0), "MgaGpsIono.alpha1");
    check(r.alpha2_raw() as i64 == i8::from_le_bytes([p[6]]) as i64, "MgaGpsIono.alpha2_raw");
    check(close(r.alpha2() as f64, (i8::from_le_bytes([p[6]]) as f64) * 1.0), "MgaGpsIono.alpha2");
    check(r.alpha3_raw() as i64 == i8::from_le_bytes([p[7]]) as i64, "MgaGpsIono.alpha3_raw");
    check(close(r.alpha3() as f64, (i8::from_le_bytes([p[7]]) as f64) * 1.0), "MgaGpsIono.alpha3");
    check(r.beta0_raw() as i64 == i8::from_le_bytes([p[8]]) as i64, "MgaGpsIono.beta0_raw");
    check(close(r.beta0() as f64, (i8::from_le_bytes([p[8]]) as f64) * 1.0), "MgaGpsIono.beta0");
    check(r.beta1_raw() as i64 == i8::from_le_bytes([p[9]]) as i64, "MgaGpsIono.beta1_raw");
    check(close(r.beta1() as f64, (i8::from_le_bytes([p[9]]) as f64) * 1.0), "MgaGpsIono.beta1");
    check(r.beta2_raw() as i64 == i8::from_le_bytes([p[10]]) as i64, "MgaGpsIono.beta2_raw");
    check(close(r.beta2() as f64, (i8::from_le_bytes([p[10]]) as f64) * 1.0), "MgaGpsIono.beta2");
    check(r.beta3_raw() as i64 == i8::from_le_bytes([p[11]]) as i64, "MgaGpsIono.beta3_raw");
    check(close(r.beta3() as f64, (i8::from_le_bytes([p[11]]) as f64) * 1.0), "MgaGpsIono.beta3");
    check(eq_bytes(&r.reserved2(), &p[12..16]), "MgaGpsIono.reserved2");
}
pub fn get_MgaGpsEph(r: &MgaGpsEphRef, p: &[u8]) {
    check(r.msg_type() as i64 == p[0] as i64, "MgaGpsEph.msg_type");
    check(r.version() as i64 == p[1] as i64, "MgaGpsEph.version");
    check(r.sv_id() as i64 == p[2] as i64, "MgaGpsEph.sv_id");
    check(r.reserved1() as i64 == p[3] as i64, "MgaGpsEph.reserved1");
    check(r.fit_interval() as i64 == p[4] as i64, "MgaGpsEph.fit_interval");
    check(r.ura_index() as i64 == p[5] as i64, "MgaGpsEph.ura_index");
    check(r.sv_health() as i64 == p[6] as i64, "MgaGpsEph.sv_health");
    check(r.tgd() as i64 == i8::from_le_bytes([p[7]]) as i64, "MgaGpsEph.tgd");
    check(r.iodc() as i64 == u16::from_le_bytes([p[8], p[9]]) as i64, "MgaGpsEph.iodc");
    check(r.toc() as i64 == u16::from_le_bytes([p[10], p[11]]) as i64, "MgaGpsEph.toc");
    check(r.reserved2() as i64 == p[12] as i64, "MgaGpsEph.reserved2");
    check(r.af2() as i64 == i8::from_le_bytes([p[13]]) as i64, "MgaGpsEph.af2");
    check(r.af1() as i64 == i16::from_le_bytes([p[14], p[15]]) as i64, "MgaGpsEph.af1");
    check(r.af0() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "MgaGpsEph.af0");
    check(r.crs() as i64 == i16::from_le_bytes([p[20], p[21]]) as i64, "MgaGpsEph.crs");
    check(r.delta_n() as i64 == i16::from_le_bytes([p[22], p[23]]) as i64, "MgaGpsEph.delta_n");
    check(r.m0() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "MgaGpsEph.m0");
    check(r.cuc() as i64 == i16::from_le_bytes([p[28], p[29]]) as i64, "MgaGpsEph.cuc");
    check(r.cus() as i64 == i16::from_le_bytes([p[30], p[31]]) as i64, "MgaGpsEph.cus");
    check(r.e() as i64 == u32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "MgaGpsEph.e");
    check(r.sqrt_a() as i64 == u32::from_le_bytes([p[36], p[37], p[38], p[39]]) as i64, "MgaGpsEph.sqrt_a");
    check(r.toe() as i64 == u16::from_le_bytes([p[40], p[41]]) as i64, "MgaGpsEph.toe");
    check(r.cic() as i64 == i16::from_le_bytes([p[42], p[43]]) as i64, "MgaGpsEph.cic");
    check(r.omega0() as i64 == i32::from_le_bytes([p[44], p[45], p[46], p[47]]) as i64, "MgaGpsEph.omega0");
    check(r.cis() as i64 == i16::from_le_bytes([p[48], p[49]]) as i64, "MgaGpsEph.cis");
    check(r.crc() as i64 == i16::from_le_bytes([p[50], p[51]]) as i64, "MgaGpsEph.crc");
    check(r.i0() as i64 == i32::from_le_bytes([p[52], p[53], p[54], p[55]]) as i64, "MgaGpsEph.i0");
    check(r.omega() as i64 == i32::from_le_bytes([p[56], p[57], p[58], p[59]]) as i64, "MgaGpsEph.omega");
    check(r.omega_dot() as i64 == i32::from_le_bytes([p[60], p[61], p[62], p[63]]) as i64, "MgaGpsEph.omega_dot");
    check(r.idot() as i64 == i16::from_le_bytes([p[64], p[65]]) as i64, "MgaGpsEph.idot");
    check(eq_bytes(&r.reserved3(), &p[66..68]), "MgaGpsEph.reserved3");
}
pub fn get_MgaGloEph(r: &MgaGloEphRef, p: &[u8]) {
    check(r.msg_type() as i64 == p[0] as i64, "MgaGloEph.msg_type");
    check(r.version() as i64 == p[1] as i64, "MgaGloEph.version");
    check(r.sv_id() as i64 == p[2] as i64, "MgaGloEph.sv_id");
    check(r.reserved1() as i64 == p[3] as i64, "MgaGloEph.reserved1");
    check(r.ft() as i64 == p[4] as i64, "MgaGloEph.ft");
    check(r.b() as i64 == p[5] as i64, "MgaGloEph.b");
    check(r.m() as i64 == p[6] as i64, "MgaGloEph.m");
    check(r.h() as i64 == i8::from_le_bytes([p[7]]) as i64, "MgaGloEph.h");
    check(r.x() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "MgaGloEph.x");
    check(r.y() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "MgaGloEph.y");
    check(r.z() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "MgaGloEph.z");
    check(r.dx() as i64 == i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "MgaGloEph.dx");
    check(r.dy() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "MgaGloEph.dy");
    check(r.dz() as i64 == i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "MgaGloEph.dz");
    check(r.ddx() as i64 == i8::from_le_bytes([p[32]]) as i64, "MgaGloEph.ddx");
    check(r.ddy() as i64 == i8::from_le_bytes([p[33]]) as i64, "MgaGloEph.ddy");
    check(r.ddz() as i64 == i8::from_le_bytes([p[34]]) as i64, "MgaGloEph.ddz");
    check(r.tb() as i64 == p[35] as i64, "MgaGloEph.tb");
    check(r.gamma() as i64 == u16::from_le_bytes([p[36], p[37]]) as i64, "MgaGloEph.gamma");
    check(r.e() as i64 == p[38] as i64, "MgaGloEph.e");
    check(r.delta_tau() as i64 == p[39] as i64, "MgaGloEph.delta_tau");
    check(r.tau() as i64 == i32::from_le_bytes([p[40], p[41], p[42], p[43]]) as i64, "MgaGloEph.tau");
    check(eq_bytes(&r.reserved2(), &p[44..48]), "MgaGloEph.reserved2");
}
pub fn get_AlpSrv(r: &AlpSrvRef, p: &[u8]) {
    check(r.id_size() as i64 == p[0] as i64, "AlpSrv.id_size");
    check(r.data_type() as i64 == p[1] as i64, "AlpSrv.data_type");
    check(r.offset() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "AlpSrv.offset");
    check(r.size() as i64 == u16::from_le_bytes([p[4], p[5]]) as i64, "AlpSrv.size");
    check(r.file_id() as i64 == u16::from_le_bytes([p[6], p[7]]) as i64, "AlpSrv.file_id");
    check(r.data_size() as i64 == u16::from_le_bytes([p[8], p[9]]) as i64, "AlpSrv.data_size");
    check(r.id1() as i64 == p[10] as i64, "AlpSrv.id1");
    check(r.id2() as i64 == p[11] as i64, "AlpSrv.id2");
    check(r.id3() as i64 == u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "AlpSrv.id3");
}
pub fn get_AckAck(r: &AckAckRef, p: &[u8]) {
    check(r.class() as i64 == p[0] as i64, "AckAck.class");
    check(r.msg_id() as i64 == p[1] as i64, "AckAck.msg_id");
}
pub fn get_AckNak(r: &AckNakRef, p: &[u8]) {
    check(r.class() as i64 == p[0] as i64, "AckNak.class");
    check(r.msg_id() as i64 == p[1] as i64, "AckNak.msg_id");
}
pub fn get_CfgItfm(r: &CfgItfmRef, p: &[u8]) {
    check(r.config_raw() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "CfgItfm.config_raw");
    check(r.config2_raw() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "CfgItfm.config2_raw");
}
pub fn get_CfgPrtI2c(r: &CfgPrtI2cRef, p: &[u8]) {
    check(r.portid_raw() as i64 == p[0] as i64, "CfgPrtI2c.portid_raw");
    check(r.portid() as u8 == p[0], "CfgPrtI2c.portid");
    check(r.reserved1() as i64 == p[1] as i64, "CfgPrtI2c.reserved1");
    check(r.tx_ready() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "CfgPrtI2c.tx_ready");
    check(r.mode() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "CfgPrtI2c.mode");
    check(r.reserved2() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "CfgPrtI2c.reserved2");
    check(r.in_proto_mask_raw() as i64 == u16::from_le_bytes([p[12], p[13]]) as i64, "CfgPrtI2c.in_proto_mask_raw");
    check(r.in_proto_mask().bits() as u64 == u16::from_le_bytes([p[12], p[13]]) as u64, "CfgPrtI2c.in_proto_mask");
    check(r.out_proto_mask_raw() as i64 == u16::from_le_bytes([p[14], p[15]]) as i64, "CfgPrtI2c.out_proto_mask_raw");
    check(r.out_proto_mask().bits() as u64 == u16::from_le_bytes([p[14], p[15]]) as u64, "CfgPrtI2c.out_proto_mask");
    check(r.flags() as i64 == u16::from_le_bytes([p[16], p[17]]) as i64, "CfgPrtI2c.flags");
    check(r.reserved3() as i64 == u16::from_le_bytes([p[18], p[19]]) as i64, "CfgPrtI2c.reserved3");
}
pub fn get_CfgPrtSpi(r: &CfgPrtSpiRef, p: &[u8]) {
    check(r.portid_raw() as i64 == p[0] as i64, "CfgPrtSpi.portid_raw");
    check(r.portid() as u8 == p[0], "CfgPrtSpi.portid");
    check(r.reserved0() as i64 == p[1] as i64, "CfgPrtSpi.reserved0");
    check(r.tx_ready() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "CfgPrtSpi.tx_ready");
    check(r.mode() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "CfgPrtSpi.mode");
    check(r.reserved3() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "CfgPrtSpi.reserved3");
    check(r.in_proto_mask_raw() as i64 == u16::from_le_bytes([p[12], p[13]]) as i64, "CfgPrtSpi.in_proto_mask_raw");
    check(r.in_proto_mask().bits() as u64 == u16::from_le_bytes([p[12], p[13]]) as u64, "CfgPrtSpi.in_proto_mask");
    check(r.out_proto_mask_raw() as i64 == u16::from_le_bytes([p[14], p[15]]) as i64, "CfgPrtSpi.out_proto_mask_raw");
    check(r.out_proto_mask().bits() as u64 == u16::from_le_bytes([p[14], p[15]]) as u64, "CfgPrtSpi.out_proto_mask");
    check(r.flags() as i64 == u16::from_le_bytes([p[16], p[17]]) as i64, "CfgPrtSpi.flags");
    check(r.reserved5() as i64 == u16::from_le_bytes([p[18], p[19]]) as i64, "CfgPrtSpi.reserved5");
}
pub fn get_CfgPrtUart(r: &CfgPrtUartRef, p: &[u8]) {
    check(r.portid_raw() as i64 == p[0] as i64, "CfgPrtUart.portid_raw");
    check(r.portid() as u8 == p[0], "CfgPrtUart.portid");
    check(r.reserved0() as i64 == p[1] as i64, "CfgPrtUart.reserved0");
    check(r.tx_ready() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "CfgPrtUart.tx_ready");
    check(r.mode_raw() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "CfgPrtUart.mode_raw");
    check(r.baud_rate() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "CfgPrtUart.baud_rate");
    check(r.in_proto_mask_raw() as i64 == u16::from_le_bytes([p[12], p[13]]) as i64, "CfgPrtUart.in_proto_mask_raw");
    check(r.in_proto_mask().bits() as u64 == u16::from_le_bytes([p[12], p[13]]) as u64, "CfgPrtUart.in_proto_mask");
    check(r.out_proto_mask_raw() as i64 == u16::from_le_bytes([p[14], p[15]]) as i64, "CfgPrtUart.out_proto_mask_raw");
    check(r.out_proto_mask().bits() as u64 == u16::from_le_bytes([p[14], p[15]]) as u64, "CfgPrtUart.out_proto_mask");
    check(r.flags() as i64 == u16::from_le_bytes([p[16], p[17]]) as i64, "CfgPrtUart.flags");
    check(r.reserved5() as i64 == u16::from_le_bytes([p[18], p[19]]) as i64, "CfgPrtUart.reserved5");
}
pub fn get_CfgNav5(r: &CfgNav5Ref, p: &[u8]) {
    check(r.mask_raw() as i64 == u16::from_le_bytes([p[0], p[1]]) as i64, "CfgNav5.mask_raw");
    check(r.mask().bits() as u64 == u16::from_le_bytes([p[0], p[1]]) as u64, "CfgNav5.mask");
    check(r.dyn_model_raw() as i64 == p[2] as i64, "CfgNav5.dyn_model_raw");
    check(r.dyn_model() as u8 == p[2], "CfgNav5.dyn_model");
    check(r.fix_mode_raw() as i64 == p[3] as i64, "CfgNav5.fix_mode_raw");
    check(r.fix_mode() as u8 == p[3], "CfgNav5.fix_mode");
    check(r.fixed_alt_raw() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "CfgNav5.fixed_alt_raw");
    check(close(r.fixed_alt() as f64, (i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as f64) * 0.01), "CfgNav5.fixed_alt");
    check(r.fixed_alt_var_raw() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "CfgNav5.fixed_alt_var_raw");
    check(close(r.fixed_alt_var() as f64, (u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 0.0001), "CfgNav5.fixed_alt_var");
    check(r.min_elev_degrees() as i64 == i8::from_le_bytes([p[12]]) as i64, "CfgNav5.min_elev_degrees");
    check(r.dr_limit() as i64 == p[13] as i64, "CfgNav5.dr_limit");
    check(r.pdop_raw() as i64 == u16::from_le_bytes([p[14], p[15]]) as i64, "CfgNav5.pdop_raw");
    check(close32(r.pdop() as f32, (u16::from_le_bytes([p[14], p[15]]) as f32) * 0.1), "CfgNav5.pdop");
    check(r.tdop_raw() as i64 == u16::from_le_bytes([p[16], p[17]]) as i64, "CfgNav5.tdop_raw");
    check(close32(r.tdop() as f32, (u16::from_le_bytes([p[16], p[17]]) as f32) * 0.1), "CfgNav5.tdop");
    check(r.pacc() as i64 == u16::from_le_bytes([p[18], p[19]]) as i64, "CfgNav5.pacc");
    check(r.tacc() as i64 == u16::from_le_bytes([p[20], p[21]]) as i64, "CfgNav5.tacc");
    check(r.static_hold_thresh_raw() as i64 == p[22] as i64, "CfgNav5.static_hold_thresh_raw");
    check(close32(r.static_hold_thresh() as f32, (p[22] as f32) * 0.01), "CfgNav5.static_hold_thresh");
    check(r.dgps_time_out() as i64 == p[23] as i64, "CfgNav5.dgps_time_out");
    check(r.cno_thresh_num_svs() as i64 == p[24] as i64, "CfgNav5.cno_thresh_num_svs");
    check(r.cno_thresh() as i64 == p[25] as i64, "CfgNav5.cno_thresh");
    check(eq_bytes(&r.reserved1(), &p[26..28]), "CfgNav5.reserved1");
    check(r.static_hold_max_dist() as i64 == u16::from_le_bytes([p[28], p[29]]) as i64, "CfgNav5.static_hold_max_dist");
    check(r.utc_standard_raw() as i64 == p[30] as i64, "CfgNav5.utc_standard_raw");
    check(r.utc_standard() as u8 == p[30], "CfgNav5.utc_standard");
    check(eq_bytes(&r.reserved2(), &p[31..36]), "CfgNav5.reserved2");
}
pub fn get_CfgAnt(r: &CfgAntRef, p: &[u8]) {
    check(r.flags_raw() as i64 == u16::from_le_bytes([p[0], p[1]]) as i64, "CfgAnt.flags_raw");
    check(r.flags().bits() as u64 == u16::from_le_bytes([p[0], p[1]]) as u64, "CfgAnt.flags");
    check(r.pins() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "CfgAnt.pins");
}
pub fn get_CfgTmode2(r: &CfgTmode2Ref, p: &[u8]) {
    check(r.time_transfer_mode_raw() as i64 == p[0] as i64, "CfgTmode2.time_transfer_mode_raw");
    check(r.time_transfer_mode() as u8 == p[0], "CfgTmode2.time_transfer_mode");
    check(r.reserved1() as i64 == p[1] as i64, "CfgTmode2.reserved1");
    check(r.flags_raw() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "CfgTmode2.flags_raw");
    check(r.flags().bits() as u64 == u16::from_le_bytes([p[2], p[3]]) as u64, "CfgTmode2.flags");
    check(r.ecef_x_or_lat_raw() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "CfgTmode2.ecef_x_or_lat_raw");
    check(close(r.ecef_x_or_lat() as f64, (i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as f64) * 1e-2), "CfgTmode2.ecef_x_or_lat");
    check(r.ecef_y_or_lon_raw() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "CfgTmode2.ecef_y_or_lon_raw");
    check(close(r.ecef_y_or_lon() as f64, (i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 1e-2), "CfgTmode2.ecef_y_or_lon");
    check(r.ecef_z_or_alt_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "CfgTmode2.ecef_z_or_alt_raw");
    check(close(r.ecef_z_or_alt() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-2), "CfgTmode2.ecef_z_or_alt");
    check(r.fixed_pos_acc_raw() as i64 == u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "CfgTmode2.fixed_pos_acc_raw");
    check(close(r.fixed_pos_acc() as f64, (u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-3), "CfgTmode2.fixed_pos_acc");
    check(r.survey_in_min_duration() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "CfgTmode2.survey_in_min_duration");
    check(r.survery_in_accur_limit_raw() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "CfgTmode2.survery_in_accur_limit_raw");
    check(close(r.survery_in_accur_limit() as f64, (u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-3), "CfgTmode2.survery_in_accur_limit");
}
pub fn get_CfgTmode3(r: &CfgTmode3Ref, p: &[u8]) {
    check(r.version() as i64 == p[0] as i64, "CfgTmode3.version");
    check(r.reserved1() as i64 == p[1] as i64, "CfgTmode3.reserved1");
    check(r.rcvr_mode_raw() as i64 == p[2] as i64, "CfgTmode3.rcvr_mode_raw");
    check(r.rcvr_mode().bits() as u64 == p[2] as u64, "CfgTmode3.rcvr_mode");
    check(r.flags_raw() as i64 == p[3] as i64, "CfgTmode3.flags_raw");
    check(r.flags().bits() as u64 == p[3] as u64, "CfgTmode3.flags");
    check(r.ecef_x_or_lat_raw() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "CfgTmode3.ecef_x_or_lat_raw");
    check(close(r.ecef_x_or_lat() as f64, (i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as f64) * 1e-2), "CfgTmode3.ecef_x_or_lat");
    check(r.ecef_y_or_lon_raw() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "CfgTmode3.ecef_y_or_lon_raw");
    check(close(r.ecef_y_or_lon() as f64, (i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 1e-2), "CfgTmode3.ecef_y_or_lon");
    check(r.ecef_z_or_alt_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "CfgTmode3.ecef_z_or_alt_raw");
    check(close(r.ecef_z_or_alt() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-2), "CfgTmode3.ecef_z_or_alt");
    check(r.ecef_x_or_lat_hp_raw() as i64 == i8::from_le_bytes([p[16]]) as i64, "CfgTmode3.ecef_x_or_lat_hp_raw");
    check(close32(r.ecef_x_or_lat_hp() as f32, (i8::from_le_bytes([p[16]]) as f32) * 1.0), "CfgTmode3.ecef_x_or_lat_hp");
    check(r.ecef_y_or_lon_hp_raw() as i64 == i8::from_le_bytes([p[17]]) as i64, "CfgTmode3.ecef_y_or_lon_hp_raw");
    check(close32(r.ecef_y_or_lon_hp() as f32, (i8::from_le_bytes([p[17]]) as f32) * 1.0), "CfgTmode3.ecef_y_or_lon_hp");
    check(r.ecef_z_or_alt_hp_raw() as i64 == i8::from_le_bytes([p[18]]) as i64, "CfgTmode3.ecef_z_or_alt_hp_raw");
    check(close32(r.ecef_z_or_alt_hp() as f32, (i8::from_le_bytes([p[18]]) as f32) * 1.0), "CfgTmode3.ecef_z_or_alt_hp");
    check(r.reserved2() as i64 == p[19] as i64, "CfgTmode3.reserved2");
    check(r.fixed_pos_acc_raw() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "CfgTmode3.fixed_pos_acc_raw");
    check(close(r.fixed_pos_acc() as f64, (u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-4), "CfgTmode3.fixed_pos_acc");
    check(r.sv_in_min_duration() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "CfgTmode3.sv_in_min_duration");
    check(r.sv_in_accur_limit_raw() as i64 == u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "CfgTmode3.sv_in_accur_limit_raw");
    check(close(r.sv_in_accur_limit() as f64, (u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-4), "CfgTmode3.sv_in_accur_limit");
    check(eq_bytes(&r.reserved3(), &p[32..40]), "CfgTmode3.reserved3");
}
pub fn get_CfgTp5(r: &CfgTp5Ref, p: &[u8]) {
    check(r.tp_idx_raw() as i64 == p[0] as i64, "CfgTp5.tp_idx_raw");
    check(r.tp_idx() as u8 == p[0], "CfgTp5.tp_idx");
    check(r.version() as i64 == p[1] as i64, "CfgTp5.version");
    check(eq_bytes(&r.reserved1(), &p[2..4]), "CfgTp5.reserved1");
    check(r.ant_cable_delay_raw() as i64 == i16::from_le_bytes([p[4], p[5]]) as i64, "CfgTp5.ant_cable_delay_raw");
    check(close32(r.ant_cable_delay() as f32, (i16::from_le_bytes([p[4], p[5]]) as f32) * 1.0), "CfgTp5.ant_cable_delay");
    check(r.rf_group_delay_raw() as i64 == i16::from_le_bytes([p[6], p[7]]) as i64, "CfgTp5.rf_group_delay_raw");
    check(close32(r.rf_group_delay() as f32, (i16::from_le_bytes([p[6], p[7]]) as f32) * 1.0), "CfgTp5.rf_group_delay");
    check(r.freq_period_raw() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "CfgTp5.freq_period_raw");
    check(close(r.freq_period() as f64, (u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 1.0), "CfgTp5.freq_period");
    check(r.freq_period_lock_raw() as i64 == u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "CfgTp5.freq_period_lock_raw");
    check(close(r.freq_period_lock() as f64, (u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1.0), "CfgTp5.freq_period_lock");
    check(r.pulse_len_ratio_raw() as i64 == u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "CfgTp5.pulse_len_ratio_raw");
    check(close(r.pulse_len_ratio() as f64, (u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1.0), "CfgTp5.pulse_len_ratio");
    check(r.pulse_len_ratio_lock_raw() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "CfgTp5.pulse_len_ratio_lock_raw");
    check(close(r.pulse_len_ratio_lock() as f64, (u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1.0), "CfgTp5.pulse_len_ratio_lock");
    check(r.user_delay_raw() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "CfgTp5.user_delay_raw");
    check(close(r.user_delay() as f64, (i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1.0), "CfgTp5.user_delay");
    check(r.flags_raw() as i64 == u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "CfgTp5.flags_raw");
    check(r.flags().bits() as u64 == u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as u64, "CfgTp5.flags");
}
pub fn get_CfgInf(r: &CfgInfRef, p: &[u8]) {
    check(r.protocol_id() as i64 == p[0] as i64, "CfgInf.protocol_id");
    check(eq_bytes(&r.reserved(), &p[1..4]), "CfgInf.reserved");
    check(r.inf_msg_mask_0_raw() as i64 == p[4] as i64, "CfgInf.inf_msg_mask_0_raw");
    check(r.inf_msg_mask_0().bits() as u64 == p[4] as u64, "CfgInf.inf_msg_mask_0");
    check(r.inf_msg_mask_1_raw() as i64 == p[5] as i64, "CfgInf.inf_msg_mask_1_raw");
    check(r.inf_msg_mask_1().bits() as u64 == p[5] as u64, "CfgInf.inf_msg_mask_1");
    check(r.inf_msg_mask_2_raw() as i64 == p[6] as i64, "CfgInf.inf_msg_mask_2_raw");
    check(r.inf_msg_mask_2().bits() as u64 == p[6] as u64, "CfgInf.inf_msg_mask_2");
    check(r.inf_msg_mask_3_raw() as i64 == p[7] as i64, "CfgInf.inf_msg_mask_3_raw");
    check(r.inf_msg_mask_3().bits() as u64 == p[7] as u64, "CfgInf.inf_msg_mask_3");
    check(r.inf_msg_mask_4_raw() as i64 == p[8] as i64, "CfgInf.inf_msg_mask_4_raw");
    check(r.inf_msg_mask_4().bits() as u64 == p[8] as u64, "CfgInf.inf_msg_mask_4");
    check(r.inf_msg_mask_5_raw() as i64 == p[9] as i64, "CfgInf.inf_msg_mask_5_raw");
    check(r.inf_msg_mask_5().bits() as u64 == p[9] as u64, "CfgInf.inf_msg_mask_5");
}
pub fn get_CfgNavX5(r: &CfgNavX5Ref, p: &[u8]) {
    check(r.version() as i64 == u16::from_le_bytes([p[0], p[1]]) as i64, "CfgNavX5.version");
    check(r.mask1_raw() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "CfgNavX5.mask1_raw");
    check(r.mask1().bits() as u64 == u16::from_le_bytes([p[2], p[3]]) as u64, "CfgNavX5.mask1");
    check(r.mask2_raw() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "CfgNavX5.mask2_raw");
    check(r.mask2().bits() as u64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as u64, "CfgNavX5.mask2");
    check(eq_bytes(&r.reserved1(), &p[8..10]), "CfgNavX5.reserved1");
    check(r.min_svs() as i64 == p[10] as i64, "CfgNavX5.min_svs");
    check(r.max_svs() as i64 == p[11] as i64, "CfgNavX5.max_svs");
    check(r.min_cno_dbhz() as i64 == p[12] as i64, "CfgNavX5.min_cno_dbhz");
    check(r.reserved2() as i64 == p[13] as i64, "CfgNavX5.reserved2");
    check(r.ini_fix_3d() as i64 == p[14] as i64, "CfgNavX5.ini_fix_3d");
    check(eq_bytes(&r.reserved3(), &p[15..17]), "CfgNavX5.reserved3");
    check(r.ack_aiding() as i64 == p[17] as i64, "CfgNavX5.ack_aiding");
    check(r.wkn_rollover() as i64 == u16::from_le_bytes([p[18], p[19]]) as i64, "CfgNavX5.wkn_rollover");
    check(r.sig_atten_comp_mode() as i64 == p[20] as i64, "CfgNavX5.sig_atten_comp_mode");
    check(r.reserved4() as i64 == p[21] as i64, "CfgNavX5.reserved4");
    check(eq_bytes(&r.reserved5(), &p[22..24]), "CfgNavX5.reserved5");
    check(eq_bytes(&r.reserved6(), &p[24..26]), "CfgNavX5.reserved6");
    check(r.use_ppp() as i64 == p[26] as i64, "CfgNavX5.use_ppp");
    check(r.aop_cfg() as i64 == p[27] as i64, "CfgNavX5.aop_cfg");
    check(eq_bytes(&r.reserved7(), &p[28..30]), "CfgNavX5.reserved7");
    check(r.aop_orb_max_err() as i64 == u16::from_le_bytes([p[30], p[31]]) as i64, "CfgNavX5.aop_orb_max_err");
    check(eq_bytes(&r.reserved8(), &p[32..36]), "CfgNavX5.reserved8");
    check(eq_bytes(&r.reserved9(), &p[36..39]), "CfgNavX5.reserved9");
    check(r.use_adr() as i64 == p[39] as i64, "CfgNavX5.use_adr");
}
pub fn get_InfError(r: &InfErrorRef, p: &[u8]) {
}
pub fn get_InfWarning(r: &InfWarningRef, p: &[u8]) {
}
pub fn get_InfNotice(r: &InfNoticeRef, p: &[u8]) {
}
pub fn get_InfTest(r: &InfTestRef, p: &[u8]) {
}
pub fn get_InfDebug(r: &InfDebugRef, p: &[u8]) {
}
pub fn get_RxmRawx(r: &RxmRawxRef, p: &[u8]) {
    check((r.rcv_tow() as f64).to_bits() == (f64::from_le_bytes([p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]])).to_bits(), "RxmRawx.rcv_tow");
    check(r.week() as i64 == u16::from_le_bytes([p[8], p[9]]) as i64, "RxmRawx.week");
    check(r.leap_s() as i64 == i8::from_le_bytes([p[10]]) as i64, "RxmRawx.leap_s");
    check(r.num_meas() as i64 == p[11] as i64, "RxmRawx.num_meas");
    check(r.rec_stat_raw() as i64 == p[12] as i64, "RxmRawx.rec_stat_raw");
    check(r.rec_stat().bits() as u64 == p[12] as u64, "RxmRawx.rec_stat");
    check(r.version() as i64 == p[13] as i64, "RxmRawx.version");
    check(eq_bytes(&r.reserved1(), &p[14..16]), "RxmRawx.reserved1");
}
pub fn get_TimTp(r: &TimTpRef, p: &[u8]) {
    check(r.tow_ms() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "TimTp.tow_ms");
    check(r.tow_sub_ms() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "TimTp.tow_sub_ms");
    check(r.q_err() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "TimTp.q_err");
    check(r.week() as i64 == u16::from_le_bytes([p[12], p[13]]) as i64, "TimTp.week");
    check(r.flags_raw() as i64 == p[14] as i64, "TimTp.flags_raw");
    check(r.ref_info_raw() as i64 == p[15] as i64, "TimTp.ref_info_raw");
}
pub fn get_TimTm2(r: &TimTm2Ref, p: &[u8]) {
    check(r.ch() as i64 == p[0] as i64, "TimTm2.ch");
    check(r.flags_raw() as i64 == p[1] as i64, "TimTm2.flags_raw");
    check(r.count() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "TimTm2.count");
    check(r.wn_r() as i64 == u16::from_le_bytes([p[4], p[5]]) as i64, "TimTm2.wn_r");
    check(r.wn_f() as i64 == u16::from_le_bytes([p[6], p[7]]) as i64, "TimTm2.wn_f");
    check(r.tow_ms_r() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "TimTm2.tow_ms_r");
    check(r.tow_sub_ms_r() as i64 == u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "TimTm2.tow_sub_ms_r");
    check(r.tow_ms_f() as i64 == u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "TimTm2.tow_ms_f");
    check(r.tow_sub_ms_f() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "TimTm2.tow_sub_ms_f");
    check(r.acc_est() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "TimTm2.acc_est");
}
pub fn get_MonVer(r: &MonVerRef, p: &[u8]) {
}
pub fn get_MonGnss(r: &MonGnssRef, p: &[u8]) {
    check(r.version() as i64 == p[0] as i64, "MonGnss.version");
    check(r.supported_raw() as i64 == p[1] as i64, "MonGnss.supported_raw");
    check(r.supported().bits() as u64 == p[1] as u64, "MonGnss.supported");
    check(r.default_raw() as i64 == p[2] as i64, "MonGnss.default_raw");
    check(r.default().bits() as u64 == p[2] as u64, "MonGnss.default");
    check(r.enabled_raw() as i64 == p[3] as i64, "MonGnss.enabled_raw");
    check(r.enabled().bits() as u64 == p[3] as u64, "MonGnss.enabled");
    check(r.simultaneous() as i64 == p[4] as i64, "MonGnss.simultaneous");
    check(eq_bytes(&r.reserved1(), &p[5..8]), "MonGnss.reserved1");
}
pub fn get_MonHw(r: &MonHwRef, p: &[u8]) {
    check(r.pin_sel() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "MonHw.pin_sel");
    check(r.pin_bank() as i64 == u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "MonHw.pin_bank");
    check(r.pin_dir() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "MonHw.pin_dir");
    check(r.pin_val() as i64 == u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "MonHw.pin_val");
    check(r.noise_per_ms() as i64 == u16::from_le_bytes([p[16], p[17]]) as i64, "MonHw.noise_per_ms");
    check(r.agc_cnt() as i64 == u16::from_le_bytes([p[18], p[19]]) as i64, "MonHw.agc_cnt");
    check(r.a_status_raw() as i64 == p[20] as i64, "MonHw.a_status_raw");
    check(r.a_status() as u8 == p[20], "MonHw.a_status");
    check(r.a_power_raw() as i64 == p[21] as i64, "MonHw.a_power_raw");
    check(r.a_power() as u8 == p[21], "MonHw.a_power");
    check(r.flags() as i64 == p[22] as i64, "MonHw.flags");
    check(r.reserved1() as i64 == p[23] as i64, "MonHw.reserved1");
    check(r.used_mask() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "MonHw.used_mask");
    check(eq_bytes(&r.vp(), &p[28..45]), "MonHw.vp");
    check(r.jam_ind() as i64 == p[45] as i64, "MonHw.jam_ind");
    check(eq_bytes(&r.reserved2(), &p[46..48]), "MonHw.reserved2");
    check(r.pin_irq() as i64 == u32::from_le_bytes([p[48], p[49], p[50], p[51]]) as i64, "MonHw.pin_irq");
    check(r.pull_h() as i64 == u32::from_le_bytes([p[52], p[53], p[54], p[55]]) as i64, "MonHw.pull_h");
    check(r.pull_l() as i64 == u32::from_le_bytes([p[56], p[57], p[58], p[59]]) as i64, "MonHw.pull_l");
}
pub fn get_RxmRtcm(r: &RxmRtcmRef, p: &[u8]) {
    check(r.version() as i64 == p[0] as i64, "RxmRtcm.version");
    check(r.flags() as i64 == p[1] as i64, "RxmRtcm.flags");
    check(r.sub_type() as i64 == u16::from_le_bytes([p[2], p[3]]) as i64, "RxmRtcm.sub_type");
    check(r.ref_station() as i64 == u16::from_le_bytes([p[4], p[5]]) as i64, "RxmRtcm.ref_station");
    check(r.msg_type() as i64 == u16::from_le_bytes([p[6], p[7]]) as i64, "RxmRtcm.msg_type");
}
pub fn get_EsfMeas(r: &EsfMeasRef, p: &[u8]) {
    check(r.time_tag() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "EsfMeas.time_tag");
    check(r.flags() as i64 == u16::from_le_bytes([p[4], p[5]]) as i64, "EsfMeas.flags");
    check(r.id() as i64 == u16::from_le_bytes([p[6], p[7]]) as i64, "EsfMeas.id");
}
pub fn get_EsfIns(r: &EsfInsRef, p: &[u8]) {
    check(r.bit_field_raw() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "EsfIns.bit_field_raw");
    check(r.bit_field().bits() as u64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as u64, "EsfIns.bit_field");
    check(eq_bytes(&r.reserved(), &p[4..8]), "EsfIns.reserved");
    check(r.itow() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "EsfIns.itow");
    check(r.x_angular_rate_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "EsfIns.x_angular_rate_raw");
    check(close(r.x_angular_rate() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-3), "EsfIns.x_angular_rate");
    check(r.y_angular_rate_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "EsfIns.y_angular_rate_raw");
    check(close(r.y_angular_rate() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-3), "EsfIns.y_angular_rate");
    check(r.z_angular_rate_raw() as i64 == i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "EsfIns.z_angular_rate_raw");
    check(close(r.z_angular_rate() as f64, (i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-3), "EsfIns.z_angular_rate");
    check(r.x_acceleration_raw() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "EsfIns.x_acceleration_raw");
    check(close(r.x_acceleration() as f64, (i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-2), "EsfIns.x_acceleration");
    check(r.y_acceleration_raw() as i64 == i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "EsfIns.y_acceleration_raw");
    check(close(r.y_acceleration() as f64, (i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-2), "EsfIns.y_acceleration");
    check(r.z_acceleration_raw() as i64 == i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "EsfIns.z_acceleration_raw");
    check(close(r.z_acceleration() as f64, (i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as f64) * 1e-2), "EsfIns.z_acceleration");
}
pub fn get_HnrAtt(r: &HnrAttRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "HnrAtt.itow");
    check(r.version() as i64 == p[4] as i64, "HnrAtt.version");
    check(eq_bytes(&r.reserved1(), &p[5..8]), "HnrAtt.reserved1");
    check(r.vehicle_roll_raw() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "HnrAtt.vehicle_roll_raw");
    check(close(r.vehicle_roll() as f64, (i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 1e-5), "HnrAtt.vehicle_roll");
    check(r.vehicle_pitch_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "HnrAtt.vehicle_pitch_raw");
    check(close(r.vehicle_pitch() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-5), "HnrAtt.vehicle_pitch");
    check(r.vehicle_heading_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "HnrAtt.vehicle_heading_raw");
    check(close(r.vehicle_heading() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-5), "HnrAtt.vehicle_heading");
    check(r.vehicle_roll_accuracy_raw() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "HnrAtt.vehicle_roll_accuracy_raw");
    check(close(r.vehicle_roll_accuracy() as f64, (u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-5), "HnrAtt.vehicle_roll_accuracy");
    check(r.vehicle_pitch_accuracy_raw() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "HnrAtt.vehicle_pitch_accuracy_raw");
    check(close(r.vehicle_pitch_accuracy() as f64, (u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-5), "HnrAtt.vehicle_pitch_accuracy");
    check(r.vehicle_heading_accuracy_raw() as i64 == u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "HnrAtt.vehicle_heading_accuracy_raw");
    check(close(r.vehicle_heading_accuracy() as f64, (u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-5), "HnrAtt.vehicle_heading_accuracy");
}
pub fn get_HnrIns(r: &HnrInsRef, p: &[u8]) {
    check(r.bit_field_raw() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "HnrIns.bit_field_raw");
    check(r.bit_field().bits() as u64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as u64, "HnrIns.bit_field");
    check(eq_bytes(&r.reserved(), &p[4..8]), "HnrIns.reserved");
    check(r.itow() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "HnrIns.itow");
    check(r.x_angular_rate_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "HnrIns.x_angular_rate_raw");
    check(close(r.x_angular_rate() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-3), "HnrIns.x_angular_rate");
    check(r.y_angular_rate_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "HnrIns.y_angular_rate_raw");
    check(close(r.y_angular_rate() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-3), "HnrIns.y_angular_rate");
    check(r.z_angular_rate_raw() as i64 == i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "HnrIns.z_angular_rate_raw");
    check(close(r.z_angular_rate() as f64, (i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-3), "HnrIns.z_angular_rate");
    check(r.x_acceleration_raw() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "HnrIns.x_acceleration_raw");
    check(close(r.x_acceleration() as f64, (i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-2), "HnrIns.x_acceleration");
    check(r.y_acceleration_raw() as i64 == i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "HnrIns.y_acceleration_raw");
    check(close(r.y_acceleration() as f64, (i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-2), "HnrIns.y_acceleration");
    check(r.z_acceleration_raw() as i64 == i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "HnrIns.z_acceleration_raw");
    check(close(r.z_acceleration() as f64, (i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as f64) * 1e-2), "HnrIns.z_acceleration");
}
pub fn get_HnrPvt(r: &HnrPvtRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "HnrPvt.itow");
    check(r.year() as i64 == u16::from_le_bytes([p[4], p[5]]) as i64, "HnrPvt.year");
    check(r.month() as i64 == p[6] as i64, "HnrPvt.month");
    check(r.day() as i64 == p[7] as i64, "HnrPvt.day");
    check(r.hour() as i64 == p[8] as i64, "HnrPvt.hour");
    check(r.min() as i64 == p[9] as i64, "HnrPvt.min");
    check(r.sec() as i64 == p[10] as i64, "HnrPvt.sec");
    check(r.valid_raw() as i64 == p[11] as i64, "HnrPvt.valid_raw");
    check(r.valid().bits() as u64 == p[11] as u64, "HnrPvt.valid");
    check(r.nano() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "HnrPvt.nano");
    check(r.gps_fix_raw() as i64 == p[16] as i64, "HnrPvt.gps_fix_raw");
    check(r.gps_fix() as u8 == p[16], "HnrPvt.gps_fix");
    check(r.flags_raw() as i64 == p[17] as i64, "HnrPvt.flags_raw");
    check(r.flags().bits() as u64 == p[17] as u64, "HnrPvt.flags");
    check(eq_bytes(&r.reserved1(), &p[18..20]), "HnrPvt.reserved1");
    check(r.longitude_raw() as i64 == i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "HnrPvt.longitude_raw");
    check(close(r.longitude() as f64, (i32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-7), "HnrPvt.longitude");
    check(r.latitude_raw() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "HnrPvt.latitude_raw");
    check(close(r.latitude() as f64, (i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-7), "HnrPvt.latitude");
    check(r.height_above_ellipsoid_raw() as i64 == i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "HnrPvt.height_above_ellipsoid_raw");
    check(close(r.height_above_ellipsoid() as f64, (i32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-3), "HnrPvt.height_above_ellipsoid");
    check(r.height_msl_raw() as i64 == i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "HnrPvt.height_msl_raw");
    check(close(r.height_msl() as f64, (i32::from_le_bytes([p[32], p[33], p[34], p[35]]) as f64) * 1e-3), "HnrPvt.height_msl");
    check(r.ground_speed_2d_raw() as i64 == i32::from_le_bytes([p[36], p[37], p[38], p[39]]) as i64, "HnrPvt.ground_speed_2d_raw");
    check(close(r.ground_speed_2d() as f64, (i32::from_le_bytes([p[36], p[37], p[38], p[39]]) as f64) * 1e-3), "HnrPvt.ground_speed_2d");
    check(r.speed_3d_raw() as i64 == i32::from_le_bytes([p[40], p[41], p[42], p[43]]) as i64, "HnrPvt.speed_3d_raw");
    check(close(r.speed_3d() as f64, (i32::from_le_bytes([p[40], p[41], p[42], p[43]]) as f64) * 1e-3), "HnrPvt.speed_3d");
    check(r.heading_motion_raw() as i64 == i32::from_le_bytes([p[44], p[45], p[46], p[47]]) as i64, "HnrPvt.heading_motion_raw");
    check(close(r.heading_motion() as f64, (i32::from_le_bytes([p[44], p[45], p[46], p[47]]) as f64) * 1e-5), "HnrPvt.heading_motion");
    check(r.heading_vehicle_raw() as i64 == i32::from_le_bytes([p[48], p[49], p[50], p[51]]) as i64, "HnrPvt.heading_vehicle_raw");
    check(close(r.heading_vehicle() as f64, (i32::from_le_bytes([p[48], p[49], p[50], p[51]]) as f64) * 1e-5), "HnrPvt.heading_vehicle");
    check(r.h_acc() as i64 == u32::from_le_bytes([p[52], p[53], p[54], p[55]]) as i64, "HnrPvt.h_acc");
    check(r.v_acc() as i64 == u32::from_le_bytes([p[56], p[57], p[58], p[59]]) as i64, "HnrPvt.v_acc");
    check(r.s_acc() as i64 == u32::from_le_bytes([p[60], p[61], p[62], p[63]]) as i64, "HnrPvt.s_acc");
    check(r.heading_accurracy_raw() as i64 == u32::from_le_bytes([p[64], p[65], p[66], p[67]]) as i64, "HnrPvt.heading_accurracy_raw");
    check(close(r.heading_accurracy() as f64, (u32::from_le_bytes([p[64], p[65], p[66], p[67]]) as f64) * 1e-5), "HnrPvt.heading_accurracy");
    check(eq_bytes(&r.reserved2(), &p[68..72]), "HnrPvt.reserved2");
}
pub fn get_NavAtt(r: &NavAttRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavAtt.itow");
    check(r.version() as i64 == p[4] as i64, "NavAtt.version");
    check(eq_bytes(&r.reserved1(), &p[5..8]), "NavAtt.reserved1");
    check(r.vehicle_roll_raw() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavAtt.vehicle_roll_raw");
    check(close(r.vehicle_roll() as f64, (i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as f64) * 1e-5), "NavAtt.vehicle_roll");
    check(r.vehicle_pitch_raw() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavAtt.vehicle_pitch_raw");
    check(close(r.vehicle_pitch() as f64, (i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as f64) * 1e-5), "NavAtt.vehicle_pitch");
    check(r.vehicle_heading_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavAtt.vehicle_heading_raw");
    check(close(r.vehicle_heading() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 1e-5), "NavAtt.vehicle_heading");
    check(r.vehicle_roll_accuracy_raw() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "NavAtt.vehicle_roll_accuracy_raw");
    check(close(r.vehicle_roll_accuracy() as f64, (u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as f64) * 1e-5), "NavAtt.vehicle_roll_accuracy");
    check(r.vehicle_pitch_accuracy_raw() as i64 == u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "NavAtt.vehicle_pitch_accuracy_raw");
    check(close(r.vehicle_pitch_accuracy() as f64, (u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 1e-5), "NavAtt.vehicle_pitch_accuracy");
    check(r.vehicle_heading_accuracy_raw() as i64 == u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as i64, "NavAtt.vehicle_heading_accuracy_raw");
    check(close(r.vehicle_heading_accuracy() as f64, (u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as f64) * 1e-5), "NavAtt.vehicle_heading_accuracy");
}
pub fn get_NavClock(r: &NavClockRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavClock.itow");
    check(r.clk_b() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavClock.clk_b");
    check(r.clk_d() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavClock.clk_d");
    check(r.t_acc() as i64 == u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavClock.t_acc");
    check(r.f_acc() as i64 == u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavClock.f_acc");
}
pub fn get_NavVelECEF(r: &NavVelECEFRef, p: &[u8]) {
    check(r.itow() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "NavVelECEF.itow");
    check(r.ecef_vx() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "NavVelECEF.ecef_vx");
    check(r.ecef_vy() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavVelECEF.ecef_vy");
    check(r.ecef_vz() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "NavVelECEF.ecef_vz");
    check(r.s_acc() as i64 == u32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "NavVelECEF.s_acc");
}
pub fn get_MgaGpsEPH(r: &MgaGpsEPHRef, p: &[u8]) {
    check(r.msg_type() as i64 == p[0] as i64, "MgaGpsEPH.msg_type");
    check(r.version() as i64 == p[1] as i64, "MgaGpsEPH.version");
    check(r.sv_id() as i64 == p[2] as i64, "MgaGpsEPH.sv_id");
    check(r.reserved1() as i64 == p[3] as i64, "MgaGpsEPH.reserved1");
    check(r.fit_interval() as i64 == p[4] as i64, "MgaGpsEPH.fit_interval");
    check(r.ura_index() as i64 == p[5] as i64, "MgaGpsEPH.ura_index");
    check(r.sv_health() as i64 == p[6] as i64, "MgaGpsEPH.sv_health");
    check(r.tgd_raw() as i64 == i8::from_le_bytes([p[7]]) as i64, "MgaGpsEPH.tgd_raw");
    check(close(r.tgd() as f64, (i8::from_le_bytes([p[7]]) as f64) * 2e-31), "MgaGpsEPH.tgd");
    check(r.iodc() as i64 == u16::from_le_bytes([p[8], p[9]]) as i64, "MgaGpsEPH.iodc");
    check(r.toc_raw() as i64 == u16::from_le_bytes([p[10], p[11]]) as i64, "MgaGpsEPH.toc_raw");
    check(close(r.toc() as f64, (u16::from_le_bytes([p[10], p[11]]) as f64) * 2e+4), "MgaGpsEPH.toc");
    check(r.reserved2() as i64 == p[12] as i64, "MgaGpsEPH.reserved2");
    check(r.af2_raw() as i64 == i8::from_le_bytes([p[13]]) as i64, "MgaGpsEPH.af2_raw");
    check(close(r.af2() as f64, (i8::from_le_bytes([p[13]]) as f64) * 2e-55), "MgaGpsEPH.af2");
    check(r.afl_raw() as i64 == i16::from_le_bytes([p[14], p[15]]) as i64, "MgaGpsEPH.afl_raw");
    check(close(r.afl() as f64, (i16::from_le_bytes([p[14], p[15]]) as f64) * 2e-43), "MgaGpsEPH.afl");
    check(r.af0_raw() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "MgaGpsEPH.af0_raw");
    check(close(r.af0() as f64, (i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as f64) * 2e-31), "MgaGpsEPH.af0");
    check(r.crs_raw() as i64 == i16::from_le_bytes([p[20], p[21]]) as i64, "MgaGpsEPH.crs_raw");
    check(close(r.crs() as f64, (i16::from_le_bytes([p[20], p[21]]) as f64) * 2e-5), "MgaGpsEPH.crs");
    check(r.delta_n_raw() as i64 == i16::from_le_bytes([p[22], p[23]]) as i64, "MgaGpsEPH.delta_n_raw");
    check(close(r.delta_n() as f64, (i16::from_le_bytes([p[22], p[23]]) as f64) * 2e-43), "MgaGpsEPH.delta_n");
    check(r.m0_raw() as i64 == i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as i64, "MgaGpsEPH.m0_raw");
    check(close(r.m0() as f64, (i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as f64) * 2e-31), "MgaGpsEPH.m0");
    check(r.cuc_raw() as i64 == i16::from_le_bytes([p[28], p[29]]) as i64, "MgaGpsEPH.cuc_raw");
    check(close(r.cuc() as f64, (i16::from_le_bytes([p[28], p[29]]) as f64) * 2e-29), "MgaGpsEPH.cuc");
    check(r.cus_raw() as i64 == i16::from_le_bytes([p[30], p[31]]) as i64, "MgaGpsEPH.cus_raw");
    check(close(r.cus() as f64, (i16::from_le_bytes([p[30], p[31]]) as f64) * 2e-29), "MgaGpsEPH.cus");
    check(r.e_raw() as i64 == u32::from_le_bytes([p[32], p[33], p[34], p[35]]) as i64, "MgaGpsEPH.e_raw");
    check(close(r.e() as f64, (u32::from_le_bytes([p[32], p[33], p[34], p[35]]) as f64) * 2e-33), "MgaGpsEPH.e");
    check(r.sqrt_a_raw() as i64 == u32::from_le_bytes([p[36], p[37], p[38], p[39]]) as i64, "MgaGpsEPH.sqrt_a_raw");
    check(close(r.sqrt_a() as f64, (u32::from_le_bytes([p[36], p[37], p[38], p[39]]) as f64) * 2e-19), "MgaGpsEPH.sqrt_a");
    check(r.toe_raw() as i64 == u16::from_le_bytes([p[40], p[41]]) as i64, "MgaGpsEPH.toe_raw");
    check(close(r.toe() as f64, (u16::from_le_bytes([p[40], p[41]]) as f64) * 2e+4), "MgaGpsEPH.toe");
    check(r.cic_raw() as i64 == i16::from_le_bytes([p[42], p[43]]) as i64, "MgaGpsEPH.cic_raw");
    check(close(r.cic() as f64, (i16::from_le_bytes([p[42], p[43]]) as f64) * 2e-29), "MgaGpsEPH.cic");
    check(r.omega0_raw() as i64 == i32::from_le_bytes([p[44], p[45], p[46], p[47]]) as i64, "MgaGpsEPH.omega0_raw");
    check(close(r.omega0() as f64, (i32::from_le_bytes([p[44], p[45], p[46], p[47]]) as f64) * 2e-31), "MgaGpsEPH.omega0");
    check(r.cis_raw() as i64 == i16::from_le_bytes([p[48], p[49]]) as i64, "MgaGpsEPH.cis_raw");
    check(close(r.cis() as f64, (i16::from_le_bytes([p[48], p[49]]) as f64) * 2e-29), "MgaGpsEPH.cis");
    check(r.crc_raw() as i64 == i16::from_le_bytes([p[50], p[51]]) as i64, "MgaGpsEPH.crc_raw");
    check(close(r.crc() as f64, (i16::from_le_bytes([p[50], p[51]]) as f64) * 2e-5), "MgaGpsEPH.crc");
    check(r.i0_raw() as i64 == i32::from_le_bytes([p[52], p[53], p[54], p[55]]) as i64, "MgaGpsEPH.i0_raw");
    check(close(r.i0() as f64, (i32::from_le_bytes([p[52], p[53], p[54], p[55]]) as f64) * 2e-31), "MgaGpsEPH.i0");
    check(r.omega_raw() as i64 == i32::from_le_bytes([p[56], p[57], p[58], p[59]]) as i64, "MgaGpsEPH.omega_raw");
    check(close(r.omega() as f64, (i32::from_le_bytes([p[56], p[57], p[58], p[59]]) as f64) * 2e-31), "MgaGpsEPH.omega");
    check(r.omega_dot_raw() as i64 == i32::from_le_bytes([p[60], p[61], p[62], p[63]]) as i64, "MgaGpsEPH.omega_dot_raw");
    check(close(r.omega_dot() as f64, (i32::from_le_bytes([p[60], p[61], p[62], p[63]]) as f64) * 2e-43), "MgaGpsEPH.omega_dot");
    check(r.idot_raw() as i64 == i16::from_le_bytes([p[64], p[65]]) as i64, "MgaGpsEPH.idot_raw");
    check(close(r.idot() as f64, (i16::from_le_bytes([p[64], p[65]]) as f64) * 2e-43), "MgaGpsEPH.idot");
    check(eq_bytes(&r.reserved3(), &p[66..68]), "MgaGpsEPH.reserved3");
}
pub fn get_RxmSfrbx(r: &RxmSfrbxRef, p: &[u8]) {
    check(r.gnss_id() as i64 == p[0] as i64, "RxmSfrbx.gnss_id");
    check(r.sv_id() as i64 == p[1] as i64, "RxmSfrbx.sv_id");
    check(r.reserved1() as i64 == p[2] as i64, "RxmSfrbx.reserved1");
    check(r.freq_id() as i64 == p[3] as i64, "RxmSfrbx.freq_id");
    check(r.num_words() as i64 == p[4] as i64, "RxmSfrbx.num_words");
    check(r.reserved2() as i64 == p[5] as i64, "RxmSfrbx.reserved2");
    check(r.version() as i64 == p[6] as i64, "RxmSfrbx.version");
    check(r.reserved3() as i64 == p[7] as i64, "RxmSfrbx.reserved3");
}
pub fn get_EsfRaw(r: &EsfRawRef, p: &[u8]) {
    check(r.msss() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "EsfRaw.msss");
}
pub fn get_TimSvin(r: &TimSvinRef, p: &[u8]) {
    check(r.dur() as i64 == u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, "TimSvin.dur");
    check(r.mean_x() as i64 == i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as i64, "TimSvin.mean_x");
    check(r.mean_y() as i64 == i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "TimSvin.mean_y");
    check(r.mean_z() as i64 == i32::from_le_bytes([p[12], p[13], p[14], p[15]]) as i64, "TimSvin.mean_z");
    check(r.mean_v() as i64 == i32::from_le_bytes([p[16], p[17], p[18], p[19]]) as i64, "TimSvin.mean_v");
    check(r.obs() as i64 == u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as i64, "TimSvin.obs");
    check(r.valid() as i64 == p[24] as i64, "TimSvin.valid");
    check(r.active() as i64 == p[25] as i64, "TimSvin.active");
    check(eq_bytes(&r.reserved(), &p[26..28]), "TimSvin.reserved");
}
pub fn get_SecUniqId(r: &SecUniqIdRef, p: &[u8]) {
    check(r.version() as i64 == p[0] as i64, "SecUniqId.version");
    check(eq_bytes(&r.reserved1(), &p[1..4]), "SecUniqId.reserved1");
    check(eq_bytes(&r.unique_id(), &p[4..9]), "SecUniqId.unique_id");
}
pub fn get_NavSatSvInfo(r: &NavSatSvInfoRef, p: &[u8]) {
    check(r.gnss_id() as i64 == p[0] as i64, "NavSatSvInfo.gnss_id");
    check(r.sv_id() as i64 == p[1] as i64, "NavSatSvInfo.sv_id");
    check(r.cno() as i64 == p[2] as i64, "NavSatSvInfo.cno");
    check(r.elev() as i64 == i8::from_le_bytes([p[3]]) as i64, "NavSatSvInfo.elev");
    check(r.azim() as i64 == i16::from_le_bytes([p[4], p[5]]) as i64, "NavSatSvInfo.azim");
    check(r.pr_res() as i64 == i16::from_le_bytes([p[6], p[7]]) as i64, "NavSatSvInfo.pr_res");
    check(r.flags_raw() as i64 == u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as i64, "NavSatSvInfo.flags_raw");
}
pub fn get_RxmRawxInfo(r: &RxmRawxInfoRef, p: &[u8]) {
    check((r.pr_mes() as f64).to_bits() == (f64::from_le_bytes([p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]])).to_bits(), "RxmRawxInfo.pr_mes");
    check((r.cp_mes() as f64).to_bits() == (f64::from_le_bytes([p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]])).to_bits(), "RxmRawxInfo.cp_mes");
    check((r.do_mes() as f32).to_bits() == (f32::from_le_bytes([p[16], p[17], p[18], p[19]])).to_bits(), "RxmRawxInfo.do_mes");
    check(r.gnss_id() as i64 == p[20] as i64, "RxmRawxInfo.gnss_id");
    check(r.sv_id() as i64 == p[21] as i64, "RxmRawxInfo.sv_id");
    check(r.reserved2() as i64 == p[22] as i64, "RxmRawxInfo.reserved2");
    check(r.freq_id() as i64 == p[23] as i64, "RxmRawxInfo.freq_id");
    check(r.lock_time() as i64 == u16::from_le_bytes([p[24], p[25]]) as i64, "RxmRawxInfo.lock_time");
    check(r.cno() as i64 == p[26] as i64, "RxmRawxInfo.cno");
    check(r.pr_stdev_raw() as i64 == p[27] as i64, "RxmRawxInfo.pr_stdev_raw");
    check(r.pr_stdev().bits() as u64 == p[27] as u64, "RxmRawxInfo.pr_stdev");
    check(r.cp_stdev_raw() as i64 == p[28] as i64, "RxmRawxInfo.cp_stdev_raw");
    check(r.cp_stdev().bits() as u64 == p[28] as u64, "RxmRawxInfo.cp_stdev");
    check(r.do_stdev_raw() as i64 == p[29] as i64, "RxmRawxInfo.do_stdev_raw");
    check(r.do_stdev().bits() as u64 == p[29] as u64, "RxmRawxInfo.do_stdev");
    check(r.trk_stat_raw() as i64 == p[30] as i64, "RxmRawxInfo.trk_stat_raw");
    check(r.trk_stat().bits() as u64 == p[30] as u64, "RxmRawxInfo.trk_stat");
    check(r.reserved3() as i64 == p[31] as i64, "RxmRawxInfo.reserved3");
}
pub fn use_NavPosLlh(r: &NavPosLlhRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.lon_degrees_raw() as u64);
    obs(r.lon_degrees().to_bits() as u64);
    obs(r.lat_degrees_raw() as u64);
    obs(r.lat_degrees().to_bits() as u64);
    obs(r.height_meters_raw() as u64);
    obs(r.height_meters().to_bits() as u64);
    obs(r.height_msl_raw() as u64);
    obs(r.height_msl().to_bits() as u64);
    obs(r.h_ack_raw() as u64);
    obs(r.h_ack().to_bits() as u64);
    obs(r.v_acc_raw() as u64);
    obs(r.v_acc().to_bits() as u64);
}
pub fn use_NavStatus(r: &NavStatusRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.fix_type_raw() as u64);
    obs(r.fix_type() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.fix_stat_raw() as u64);
    obs(r.fix_stat().has_pr_prr_correction() as u64);
    obs(r.fix_stat().map_matching() as u64);
    obs(r.flags2_raw() as u64);
    let _ = r.flags2();
    obs(r.time_to_first_fix() as u64);
    obs(r.uptime_ms() as u64);
}
pub fn use_NavDop(r: &NavDopRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.geometric_dop_raw() as u64);
    obs(r.geometric_dop().to_bits() as u64);
    obs(r.position_dop_raw() as u64);
    obs(r.position_dop().to_bits() as u64);
    obs(r.time_dop_raw() as u64);
    obs(r.time_dop().to_bits() as u64);
    obs(r.vertical_dop_raw() as u64);
    obs(r.vertical_dop().to_bits() as u64);
    obs(r.horizontal_dop_raw() as u64);
    obs(r.horizontal_dop().to_bits() as u64);
    obs(r.northing_dop_raw() as u64);
    obs(r.northing_dop().to_bits() as u64);
    obs(r.easting_dop_raw() as u64);
    obs(r.easting_dop().to_bits() as u64);
}
pub fn use_NavPvt(r: &NavPvtRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.year() as u64);
    obs(r.month() as u64);
    obs(r.day() as u64);
    obs(r.hour() as u64);
    obs(r.min() as u64);
    obs(r.sec() as u64);
    obs(r.valid() as u64);
    obs(r.time_accuracy() as u64);
    obs(r.nanosecond() as u64);
    obs(r.fix_type_raw() as u64);
    obs(r.fix_type() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.flags2_raw() as u64);
    obs(r.flags2().bits() as u64);
    obs(r.num_satellites() as u64);
    obs(r.lon_degrees_raw() as u64);
    obs(r.lon_degrees().to_bits() as u64);
    obs(r.lat_degrees_raw() as u64);
    obs(r.lat_degrees().to_bits() as u64);
    obs(r.height_meters_raw() as u64);
    obs(r.height_meters().to_bits() as u64);
    obs(r.height_msl_raw() as u64);
    obs(r.height_msl().to_bits() as u64);
    obs(r.horiz_accuracy() as u64);
    obs(r.vert_accuracy() as u64);
    obs(r.vel_north_raw() as u64);
    obs(r.vel_north().to_bits() as u64);
    obs(r.vel_east_raw() as u64);
    obs(r.vel_east().to_bits() as u64);
    obs(r.vel_down_raw() as u64);
    obs(r.vel_down().to_bits() as u64);
    obs(r.ground_speed_raw() as u64);
    obs(r.ground_speed().to_bits() as u64);
    obs(r.heading_degrees_raw() as u64);
    obs(r.heading_degrees().to_bits() as u64);
    obs(r.speed_accuracy_estimate_raw() as u64);
    obs(r.speed_accuracy_estimate().to_bits() as u64);
    obs(r.heading_accuracy_estimate_raw() as u64);
    obs(r.heading_accuracy_estimate().to_bits() as u64);
    obs(r.pdop() as u64);
    obs(r.reserved1()[5] as u64);
    obs(r.heading_of_vehicle_degrees_raw() as u64);
    obs(r.heading_of_vehicle_degrees().to_bits() as u64);
    obs(r.magnetic_declination_degrees_raw() as u64);
    obs(r.magnetic_declination_degrees().to_bits() as u64);
    obs(r.magnetic_declination_accuracy_degrees_raw() as u64);
    obs(r.magnetic_declination_accuracy_degrees().to_bits() as u64);
}
pub fn use_NavSolution(r: &NavSolutionRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.ftow_ns() as u64);
    obs(r.week() as u64);
    obs(r.fix_type_raw() as u64);
    obs(r.fix_type() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.ecef_x_raw() as u64);
    obs(r.ecef_x().to_bits() as u64);
    obs(r.ecef_y_raw() as u64);
    obs(r.ecef_y().to_bits() as u64);
    obs(r.ecef_z_raw() as u64);
    obs(r.ecef_z().to_bits() as u64);
    obs(r.position_accuracy_estimate_raw() as u64);
    obs(r.position_accuracy_estimate().to_bits() as u64);
    obs(r.ecef_vx_raw() as u64);
    obs(r.ecef_vx().to_bits() as u64);
    obs(r.ecef_vy_raw() as u64);
    obs(r.ecef_vy().to_bits() as u64);
    obs(r.ecef_vz_raw() as u64);
    obs(r.ecef_vz().to_bits() as u64);
    obs(r.speed_accuracy_estimate_raw() as u64);
    obs(r.speed_accuracy_estimate().to_bits() as u64);
    obs(r.pdop_raw() as u64);
    obs(r.pdop().to_bits() as u64);
    obs(r.reserved1() as u64);
    obs(r.num_sv() as u64);
    obs(r.reserved2()[3] as u64);
}
pub fn use_NavVelNed(r: &NavVelNedRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.vel_north_raw() as u64);
    obs(r.vel_north().to_bits() as u64);
    obs(r.vel_east_raw() as u64);
    obs(r.vel_east().to_bits() as u64);
    obs(r.vel_down_raw() as u64);
    obs(r.vel_down().to_bits() as u64);
    obs(r.speed_3d_raw() as u64);
    obs(r.speed_3d().to_bits() as u64);
    obs(r.ground_speed_raw() as u64);
    obs(r.ground_speed().to_bits() as u64);
    obs(r.heading_degrees_raw() as u64);
    obs(r.heading_degrees().to_bits() as u64);
    obs(r.speed_accuracy_estimate_raw() as u64);
    obs(r.speed_accuracy_estimate().to_bits() as u64);
    obs(r.course_heading_accuracy_estimate_raw() as u64);
    obs(r.course_heading_accuracy_estimate().to_bits() as u64);
}
pub fn use_NavHpPosLlh(r: &NavHpPosLlhRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.reserved1()[2] as u64);
    obs(r.itow() as u64);
    obs(r.lon_degrees_raw() as u64);
    obs(r.lon_degrees().to_bits() as u64);
    obs(r.lat_degrees_raw() as u64);
    obs(r.lat_degrees().to_bits() as u64);
    obs(r.height_meters_raw() as u64);
    obs(r.height_meters().to_bits() as u64);
    obs(r.height_msl_raw() as u64);
    obs(r.height_msl().to_bits() as u64);
    obs(r.lon_hp_degrees_raw() as u64);
    obs(r.lon_hp_degrees().to_bits() as u64);
    obs(r.lat_hp_degrees_raw() as u64);
    obs(r.lat_hp_degrees().to_bits() as u64);
    obs(r.height_hp_meters_raw() as u64);
    obs(r.height_hp_meters().to_bits() as u64);
    obs(r.height_hp_msl_raw() as u64);
    obs(r.height_hp_msl().to_bits() as u64);
    obs(r.horizontal_accuracy_raw() as u64);
    obs(r.horizontal_accuracy().to_bits() as u64);
    obs(r.vertical_accuracy_raw() as u64);
    obs(r.vertical_accuracy().to_bits() as u64);
}
pub fn use_NavHpPosEcef(r: &NavHpPosEcefRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.reserved1()[2] as u64);
    obs(r.itow() as u64);
    obs(r.ecef_x_cm_raw() as u64);
    obs(r.ecef_x_cm().to_bits() as u64);
    obs(r.ecef_y_cm_raw() as u64);
    obs(r.ecef_y_cm().to_bits() as u64);
    obs(r.ecef_z_cm_raw() as u64);
    obs(r.ecef_z_cm().to_bits() as u64);
    obs(r.ecef_x_hp_mm_raw() as u64);
    obs(r.ecef_x_hp_mm().to_bits() as u64);
    obs(r.ecef_y_hp_mm_raw() as u64);
    obs(r.ecef_y_hp_mm().to_bits() as u64);
    obs(r.ecef_z_hp_mm_raw() as u64);
    obs(r.ecef_z_hp_mm().to_bits() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.p_acc_raw() as u64);
    obs(r.p_acc().to_bits() as u64);
}
pub fn use_NavTimeUTC(r: &NavTimeUTCRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.time_accuracy_estimate_ns() as u64);
    obs(r.nanos() as u64);
    obs(r.year() as u64);
    obs(r.month() as u64);
    obs(r.day() as u64);
    obs(r.hour() as u64);
    obs(r.min() as u64);
    obs(r.sec() as u64);
    obs(r.valid_raw() as u64);
    obs(r.valid().bits() as u64);
}
pub fn use_NavTimeLs(r: &NavTimeLsRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.version() as u64);
    obs(r.reserved_1()[2] as u64);
    obs(r.src_of_curr_ls() as u64);
    obs(r.current_ls() as u64);
    obs(r.src_of_ls_change() as u64);
    obs(r.ls_change() as u64);
    obs(r.time_to_ls_event() as u64);
    obs(r.date_of_ls_gps_wn() as u64);
    obs(r.date_of_ls_gps_dn() as u64);
    obs(r.reserved_2()[2] as u64);
    obs(r.valid_raw() as u64);
    obs(r.valid().bits() as u64);
}
pub fn use_NavSat(r: &NavSatRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.version() as u64);
    obs(r.num_svs() as u64);
    obs(r.reserved()[1] as u64);
    crate::pkt::use_navsatiter(r.svs());
}
pub fn use_NavEoe(r: &NavEoeRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
}
pub fn use_NavOdo(r: &NavOdoRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.reserved()[2] as u64);
    obs(r.itow() as u64);
    obs(r.distance() as u64);
    obs(r.total_distance() as u64);
    obs(r.distance_std() as u64);
}
pub fn use_CfgOdo(r: &CfgOdoRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.reserved()[2] as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.odo_cfg_raw() as u64);
    obs(r.odo_cfg() as u64);
    obs(r.reserved2()[5] as u64);
    obs(r.cog_max_speed() as u64);
    obs(r.cog_max_pos_acc() as u64);
    obs(r.reserved3()[1] as u64);
    obs(r.vel_lp_gain() as u64);
    obs(r.cog_lp_gain() as u64);
    obs(r.reserved4()[1] as u64);
}
pub fn use_MgaAck(r: &MgaAckRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.ack_type() as u64);
    obs(r.version() as u64);
    obs(r.info_code_raw() as u64);
    obs(r.info_code() as u64);
    obs(r.msg_id() as u64);
    obs(r.msg_payload_start()[3] as u64);
}
pub fn use_MgaGpsIono(r: &MgaGpsIonoRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.msg_type() as u64);
    obs(r.version() as u64);
    obs(r.reserved1()[1] as u64);
    obs(r.alpha0_raw() as u64);
    obs(r.alpha0().to_bits() as u64);
    obs(r.alpha1_raw() as u64);
    obs(r.alpha1().to_bits() as u64);
    obs(r.alpha2_raw() as u64);
    obs(r.alpha2().to_bits() as u64);
    obs(r.alpha3_raw() as u64);
    obs(r.alpha3().to_bits() as u64);
    obs(r.beta0_raw() as u64);
    obs(r.beta0().to_bits() as u64);
    obs(r.beta1_raw() as u64);
    obs(r.beta1().to_bits() as u64);
    obs(r.beta2_raw() as u64);
    obs(r.beta2().to_bits() as u64);
    obs(r.beta3_raw() as u64);
    obs(r.beta3().to_bits() as u64);
    obs(r.reserved2()[3] as u64);
}
pub fn use_MgaGpsEph(r: &MgaGpsEphRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.msg_type() as u64);
    obs(r.version() as u64);
    obs(r.sv_id() as u64);
    obs(r.reserved1() as u64);
    obs(r.fit_interval() as u64);
    obs(r.ura_index() as u64);
    obs(r.sv_health() as u64);
    obs(r.tgd() as u64);
    obs(r.iodc() as u64);
    obs(r.toc() as u64);
    obs(r.reserved2() as u64);
    obs(r.af2() as u64);
    obs(r.af1() as u64);
    obs(r.af0() as u64);
    obs(r.crs() as u64);
    obs(r.delta_n() as u64);
    obs(r.m0() as u64);
    obs(r.cuc() as u64);
    obs(r.cus() as u64);
    obs(r.e() as u64);
    obs(r.sqrt_a() as u64);
    obs(r.toe() as u64);
    obs(r.cic() as u64);
    obs(r.omega0() as u64);
    obs(r.cis() as u64);
    obs(r.crc() as u64);
    obs(r.i0() as u64);
    obs(r.omega() as u64);
    obs(r.omega_dot() as u64);
    obs(r.idot() as u64);
    obs(r.reserved3()[1] as u64);
}
pub fn use_MgaGloEph(r: &MgaGloEphRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.msg_type() as u64);
    obs(r.version() as u64);
    obs(r.sv_id() as u64);
    obs(r.reserved1() as u64);
    obs(r.ft() as u64);
    obs(r.b() as u64);
    obs(r.m() as u64);
    obs(r.h() as u64);
    obs(r.x() as u64);
    obs(r.y() as u64);
    obs(r.z() as u64);
    obs(r.dx() as u64);
    obs(r.dy() as u64);
    obs(r.dz() as u64);
    obs(r.ddx() as u64);
    obs(r.ddy() as u64);
    obs(r.ddz() as u64);
    obs(r.tb() as u64);
    obs(r.gamma() as u64);
    obs(r.e() as u64);
    obs(r.delta_tau() as u64);
    obs(r.tau() as u64);
    obs(r.reserved2()[3] as u64);
}
pub fn use_AlpSrv(r: &AlpSrvRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.id_size() as u64);
    obs(r.data_type() as u64);
    obs(r.offset() as u64);
    obs(r.size() as u64);
    obs(r.file_id() as u64);
    obs(r.data_size() as u64);
    obs(r.id1() as u64);
    obs(r.id2() as u64);
    obs(r.id3() as u64);
}
pub fn use_AckAck(r: &AckAckRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.class() as u64);
    obs(r.msg_id() as u64);
}
pub fn use_AckNak(r: &AckNakRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.class() as u64);
    obs(r.msg_id() as u64);
}
pub fn use_CfgItfm(r: &CfgItfmRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.config_raw() as u64);
    let _ = r.config();
    obs(r.config2_raw() as u64);
    let _ = r.config2();
}
pub fn use_CfgPrtI2c(r: &CfgPrtI2cRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.portid_raw() as u64);
    obs(r.portid() as u64);
    obs(r.reserved1() as u64);
    obs(r.tx_ready() as u64);
    obs(r.mode() as u64);
    obs(r.reserved2() as u64);
    obs(r.in_proto_mask_raw() as u64);
    obs(r.in_proto_mask().bits() as u64);
    obs(r.out_proto_mask_raw() as u64);
    obs(r.out_proto_mask().bits() as u64);
    obs(r.flags() as u64);
    obs(r.reserved3() as u64);
}
pub fn use_CfgPrtSpi(r: &CfgPrtSpiRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.portid_raw() as u64);
    obs(r.portid() as u64);
    obs(r.reserved0() as u64);
    obs(r.tx_ready() as u64);
    obs(r.mode() as u64);
    obs(r.reserved3() as u64);
    obs(r.in_proto_mask_raw() as u64);
    obs(r.in_proto_mask().bits() as u64);
    obs(r.out_proto_mask_raw() as u64);
    obs(r.out_proto_mask().bits() as u64);
    obs(r.flags() as u64);
    obs(r.reserved5() as u64);
}
pub fn use_CfgPrtUart(r: &CfgPrtUartRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.portid_raw() as u64);
    obs(r.portid() as u64);
    obs(r.reserved0() as u64);
    obs(r.tx_ready() as u64);
    obs(r.mode_raw() as u64);
    let _ = r.mode();
    obs(r.baud_rate() as u64);
    obs(r.in_proto_mask_raw() as u64);
    obs(r.in_proto_mask().bits() as u64);
    obs(r.out_proto_mask_raw() as u64);
    obs(r.out_proto_mask().bits() as u64);
    obs(r.flags() as u64);
    obs(r.reserved5() as u64);
}
pub fn use_CfgNav5(r: &CfgNav5Ref) {
    obs(r.as_bytes().len() as u64);
    obs(r.mask_raw() as u64);
    obs(r.mask().bits() as u64);
    obs(r.dyn_model_raw() as u64);
    obs(r.dyn_model() as u64);
    obs(r.fix_mode_raw() as u64);
    obs(r.fix_mode() as u64);
    obs(r.fixed_alt_raw() as u64);
    obs(r.fixed_alt().to_bits() as u64);
    obs(r.fixed_alt_var_raw() as u64);
    obs(r.fixed_alt_var().to_bits() as u64);
    obs(r.min_elev_degrees() as u64);
    obs(r.dr_limit() as u64);
    obs(r.pdop_raw() as u64);
    obs(r.pdop().to_bits() as u64);
    obs(r.tdop_raw() as u64);
    obs(r.tdop().to_bits() as u64);
    obs(r.pacc() as u64);
    obs(r.tacc() as u64);
    obs(r.static_hold_thresh_raw() as u64);
    obs(r.static_hold_thresh().to_bits() as u64);
    obs(r.dgps_time_out() as u64);
    obs(r.cno_thresh_num_svs() as u64);
    obs(r.cno_thresh() as u64);
    obs(r.reserved1()[1] as u64);
    obs(r.static_hold_max_dist() as u64);
    obs(r.utc_standard_raw() as u64);
    obs(r.utc_standard() as u64);
    obs(r.reserved2()[4] as u64);
}
pub fn use_CfgAnt(r: &CfgAntRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.pins() as u64);
}
pub fn use_CfgTmode2(r: &CfgTmode2Ref) {
    obs(r.as_bytes().len() as u64);
    obs(r.time_transfer_mode_raw() as u64);
    obs(r.time_transfer_mode() as u64);
    obs(r.reserved1() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.ecef_x_or_lat_raw() as u64);
    obs(r.ecef_x_or_lat().to_bits() as u64);
    obs(r.ecef_y_or_lon_raw() as u64);
    obs(r.ecef_y_or_lon().to_bits() as u64);
    obs(r.ecef_z_or_alt_raw() as u64);
    obs(r.ecef_z_or_alt().to_bits() as u64);
    obs(r.fixed_pos_acc_raw() as u64);
    obs(r.fixed_pos_acc().to_bits() as u64);
    obs(r.survey_in_min_duration() as u64);
    obs(r.survery_in_accur_limit_raw() as u64);
    obs(r.survery_in_accur_limit().to_bits() as u64);
}
pub fn use_CfgTmode3(r: &CfgTmode3Ref) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.reserved1() as u64);
    obs(r.rcvr_mode_raw() as u64);
    obs(r.rcvr_mode().bits() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.ecef_x_or_lat_raw() as u64);
    obs(r.ecef_x_or_lat().to_bits() as u64);
    obs(r.ecef_y_or_lon_raw() as u64);
    obs(r.ecef_y_or_lon().to_bits() as u64);
    obs(r.ecef_z_or_alt_raw() as u64);
    obs(r.ecef_z_or_alt().to_bits() as u64);
    obs(r.ecef_x_or_lat_hp_raw() as u64);
    obs(r.ecef_x_or_lat_hp().to_bits() as u64);
    obs(r.ecef_y_or_lon_hp_raw() as u64);
    obs(r.ecef_y_or_lon_hp().to_bits() as u64);
    obs(r.ecef_z_or_alt_hp_raw() as u64);
    obs(r.ecef_z_or_alt_hp().to_bits() as u64);
    obs(r.reserved2() as u64);
    obs(r.fixed_pos_acc_raw() as u64);
    obs(r.fixed_pos_acc().to_bits() as u64);
    obs(r.sv_in_min_duration() as u64);
    obs(r.sv_in_accur_limit_raw() as u64);
    obs(r.sv_in_accur_limit().to_bits() as u64);
    obs(r.reserved3()[7] as u64);
}
pub fn use_CfgTp5(r: &CfgTp5Ref) {
    obs(r.as_bytes().len() as u64);
    obs(r.tp_idx_raw() as u64);
    obs(r.tp_idx() as u64);
    obs(r.version() as u64);
    obs(r.reserved1()[1] as u64);
    obs(r.ant_cable_delay_raw() as u64);
    obs(r.ant_cable_delay().to_bits() as u64);
    obs(r.rf_group_delay_raw() as u64);
    obs(r.rf_group_delay().to_bits() as u64);
    obs(r.freq_period_raw() as u64);
    obs(r.freq_period().to_bits() as u64);
    obs(r.freq_period_lock_raw() as u64);
    obs(r.freq_period_lock().to_bits() as u64);
    obs(r.pulse_len_ratio_raw() as u64);
    obs(r.pulse_len_ratio().to_bits() as u64);
    obs(r.pulse_len_ratio_lock_raw() as u64);
    obs(r.pulse_len_ratio_lock().to_bits() as u64);
    obs(r.user_delay_raw() as u64);
    obs(r.user_delay().to_bits() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
}
pub fn use_CfgInf(r: &CfgInfRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.protocol_id() as u64);
    obs(r.reserved()[2] as u64);
    obs(r.inf_msg_mask_0_raw() as u64);
    obs(r.inf_msg_mask_0().bits() as u64);
    obs(r.inf_msg_mask_1_raw() as u64);
    obs(r.inf_msg_mask_1().bits() as u64);
    obs(r.inf_msg_mask_2_raw() as u64);
    obs(r.inf_msg_mask_2().bits() as u64);
    obs(r.inf_msg_mask_3_raw() as u64);
    obs(r.inf_msg_mask_3().bits() as u64);
    obs(r.inf_msg_mask_4_raw() as u64);
    obs(r.inf_msg_mask_4().bits() as u64);
    obs(r.inf_msg_mask_5_raw() as u64);
    obs(r.inf_msg_mask_5().bits() as u64);
}
pub fn use_CfgNavX5(r: &CfgNavX5Ref) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.mask1_raw() as u64);
    obs(r.mask1().bits() as u64);
    obs(r.mask2_raw() as u64);
    obs(r.mask2().bits() as u64);
    obs(r.reserved1()[1] as u64);
    obs(r.min_svs() as u64);
    obs(r.max_svs() as u64);
    obs(r.min_cno_dbhz() as u64);
    obs(r.reserved2() as u64);
    obs(r.ini_fix_3d() as u64);
    obs(r.reserved3()[1] as u64);
    obs(r.ack_aiding() as u64);
    obs(r.wkn_rollover() as u64);
    obs(r.sig_atten_comp_mode() as u64);
    obs(r.reserved4() as u64);
    obs(r.reserved5()[1] as u64);
    obs(r.reserved6()[1] as u64);
    obs(r.use_ppp() as u64);
    obs(r.aop_cfg() as u64);
    obs(r.reserved7()[1] as u64);
    obs(r.aop_orb_max_err() as u64);
    obs(r.reserved8()[3] as u64);
    obs(r.reserved9()[2] as u64);
    obs(r.use_adr() as u64);
}
pub fn use_InfError(r: &InfErrorRef) {
    obs(r.as_bytes().len() as u64);
    crate::pkt::use_text(r.message());
}
pub fn use_InfWarning(r: &InfWarningRef) {
    obs(r.as_bytes().len() as u64);
    crate::pkt::use_text(r.message());
}
pub fn use_InfNotice(r: &InfNoticeRef) {
    obs(r.as_bytes().len() as u64);
    crate::pkt::use_text(r.message());
}
pub fn use_InfTest(r: &InfTestRef) {
    obs(r.as_bytes().len() as u64);
    crate::pkt::use_text(r.message());
}
pub fn use_InfDebug(r: &InfDebugRef) {
    obs(r.as_bytes().len() as u64);
    crate::pkt::use_text(r.message());
}
pub fn use_RxmRawx(r: &RxmRawxRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.rcv_tow().to_bits() as u64);
    obs(r.week() as u64);
    obs(r.leap_s() as u64);
    obs(r.num_meas() as u64);
    obs(r.rec_stat_raw() as u64);
    obs(r.rec_stat().bits() as u64);
    obs(r.version() as u64);
    obs(r.reserved1()[1] as u64);
    crate::pkt::use_rxmrawxinfoiter(r.measurements());
}
pub fn use_TimTp(r: &TimTpRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.tow_ms() as u64);
    obs(r.tow_sub_ms() as u64);
    obs(r.q_err() as u64);
    obs(r.week() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().time_base() as u64);
    obs(r.flags().utc_available() as u64);
    obs(r.flags().raim_active().map_or(9, |x| x as u64));
    obs(r.flags().q_err_valid() as u64);
    obs(r.ref_info_raw() as u64);
    obs(r.ref_info().time_ref_gnss().map_or(99, |x| x as u64));
    obs(r.ref_info().utc_standard().map_or(99, |x| x as u64));
}
pub fn use_TimTm2(r: &TimTm2Ref) {
    obs(r.as_bytes().len() as u64);
    obs(r.ch() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().mode() as u64);
    obs(r.flags().run() as u64);
    obs(r.flags().new_falling_edge() as u64);
    obs(r.flags().new_rising_edge() as u64);
    obs(r.flags().time_base() as u64);
    obs(r.flags().utc_available() as u64);
    obs(r.flags().time_valid() as u64);
    obs(r.count() as u64);
    obs(r.wn_r() as u64);
    obs(r.wn_f() as u64);
    obs(r.tow_ms_r() as u64);
    obs(r.tow_sub_ms_r() as u64);
    obs(r.tow_ms_f() as u64);
    obs(r.tow_sub_ms_f() as u64);
    obs(r.acc_est() as u64);
}
pub fn use_MonVer(r: &MonVerRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.software_version_raw().len() as u64); crate::pkt::use_text(Some(r.software_version()));
    obs(r.hardware_version_raw().len() as u64); crate::pkt::use_text(Some(r.hardware_version()));
    crate::pkt::use_monverextensioniter(r.extension());
}
pub fn use_MonGnss(r: &MonGnssRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.supported_raw() as u64);
    obs(r.supported().bits() as u64);
    obs(r.default_raw() as u64);
    obs(r.default().bits() as u64);
    obs(r.enabled_raw() as u64);
    obs(r.enabled().bits() as u64);
    obs(r.simultaneous() as u64);
    obs(r.reserved1()[2] as u64);
}
pub fn use_MonHw(r: &MonHwRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.pin_sel() as u64);
    obs(r.pin_bank() as u64);
    obs(r.pin_dir() as u64);
    obs(r.pin_val() as u64);
    obs(r.noise_per_ms() as u64);
    obs(r.agc_cnt() as u64);
    obs(r.a_status_raw() as u64);
    obs(r.a_status() as u64);
    obs(r.a_power_raw() as u64);
    obs(r.a_power() as u64);
    obs(r.flags() as u64);
    obs(r.reserved1() as u64);
    obs(r.used_mask() as u64);
    obs(r.vp()[16] as u64);
    obs(r.jam_ind() as u64);
    obs(r.reserved2()[1] as u64);
    obs(r.pin_irq() as u64);
    obs(r.pull_h() as u64);
    obs(r.pull_l() as u64);
}
pub fn use_RxmRtcm(r: &RxmRtcmRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.flags() as u64);
    obs(r.sub_type() as u64);
    obs(r.ref_station() as u64);
    obs(r.msg_type() as u64);
}
pub fn use_EsfMeas(r: &EsfMeasRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.time_tag() as u64);
    obs(r.flags() as u64);
    obs(r.id() as u64);
    crate::pkt::use_esfmeasdataiter(r.data());
    obs(r.calib_tag().map_or(7, |x| x as u64));
}
pub fn use_EsfIns(r: &EsfInsRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.bit_field_raw() as u64);
    obs(r.bit_field().bits() as u64);
    obs(r.reserved()[3] as u64);
    obs(r.itow() as u64);
    obs(r.x_angular_rate_raw() as u64);
    obs(r.x_angular_rate().to_bits() as u64);
    obs(r.y_angular_rate_raw() as u64);
    obs(r.y_angular_rate().to_bits() as u64);
    obs(r.z_angular_rate_raw() as u64);
    obs(r.z_angular_rate().to_bits() as u64);
    obs(r.x_acceleration_raw() as u64);
    obs(r.x_acceleration().to_bits() as u64);
    obs(r.y_acceleration_raw() as u64);
    obs(r.y_acceleration().to_bits() as u64);
    obs(r.z_acceleration_raw() as u64);
    obs(r.z_acceleration().to_bits() as u64);
}
pub fn use_HnrAtt(r: &HnrAttRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.version() as u64);
    obs(r.reserved1()[2] as u64);
    obs(r.vehicle_roll_raw() as u64);
    obs(r.vehicle_roll().to_bits() as u64);
    obs(r.vehicle_pitch_raw() as u64);
    obs(r.vehicle_pitch().to_bits() as u64);
    obs(r.vehicle_heading_raw() as u64);
    obs(r.vehicle_heading().to_bits() as u64);
    obs(r.vehicle_roll_accuracy_raw() as u64);
    obs(r.vehicle_roll_accuracy().to_bits() as u64);
    obs(r.vehicle_pitch_accuracy_raw() as u64);
    obs(r.vehicle_pitch_accuracy().to_bits() as u64);
    obs(r.vehicle_heading_accuracy_raw() as u64);
    obs(r.vehicle_heading_accuracy().to_bits() as u64);
}
pub fn use_HnrIns(r: &HnrInsRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.bit_field_raw() as u64);
    obs(r.bit_field().bits() as u64);
    obs(r.reserved()[3] as u64);
    obs(r.itow() as u64);
    obs(r.x_angular_rate_raw() as u64);
    obs(r.x_angular_rate().to_bits() as u64);
    obs(r.y_angular_rate_raw() as u64);
    obs(r.y_angular_rate().to_bits() as u64);
    obs(r.z_angular_rate_raw() as u64);
    obs(r.z_angular_rate().to_bits() as u64);
    obs(r.x_acceleration_raw() as u64);
    obs(r.x_acceleration().to_bits() as u64);
    obs(r.y_acceleration_raw() as u64);
    obs(r.y_acceleration().to_bits() as u64);
    obs(r.z_acceleration_raw() as u64);
    obs(r.z_acceleration().to_bits() as u64);
}
pub fn use_HnrPvt(r: &HnrPvtRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.year() as u64);
    obs(r.month() as u64);
    obs(r.day() as u64);
    obs(r.hour() as u64);
    obs(r.min() as u64);
    obs(r.sec() as u64);
    obs(r.valid_raw() as u64);
    obs(r.valid().bits() as u64);
    obs(r.nano() as u64);
    obs(r.gps_fix_raw() as u64);
    obs(r.gps_fix() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().bits() as u64);
    obs(r.reserved1()[1] as u64);
    obs(r.longitude_raw() as u64);
    obs(r.longitude().to_bits() as u64);
    obs(r.latitude_raw() as u64);
    obs(r.latitude().to_bits() as u64);
    obs(r.height_above_ellipsoid_raw() as u64);
    obs(r.height_above_ellipsoid().to_bits() as u64);
    obs(r.height_msl_raw() as u64);
    obs(r.height_msl().to_bits() as u64);
    obs(r.ground_speed_2d_raw() as u64);
    obs(r.ground_speed_2d().to_bits() as u64);
    obs(r.speed_3d_raw() as u64);
    obs(r.speed_3d().to_bits() as u64);
    obs(r.heading_motion_raw() as u64);
    obs(r.heading_motion().to_bits() as u64);
    obs(r.heading_vehicle_raw() as u64);
    obs(r.heading_vehicle().to_bits() as u64);
    obs(r.h_acc() as u64);
    obs(r.v_acc() as u64);
    obs(r.s_acc() as u64);
    obs(r.heading_accurracy_raw() as u64);
    obs(r.heading_accurracy().to_bits() as u64);
    obs(r.reserved2()[3] as u64);
}
pub fn use_NavAtt(r: &NavAttRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.version() as u64);
    obs(r.reserved1()[2] as u64);
    obs(r.vehicle_roll_raw() as u64);
    obs(r.vehicle_roll().to_bits() as u64);
    obs(r.vehicle_pitch_raw() as u64);
    obs(r.vehicle_pitch().to_bits() as u64);
    obs(r.vehicle_heading_raw() as u64);
    obs(r.vehicle_heading().to_bits() as u64);
    obs(r.vehicle_roll_accuracy_raw() as u64);
    obs(r.vehicle_roll_accuracy().to_bits() as u64);
    obs(r.vehicle_pitch_accuracy_raw() as u64);
    obs(r.vehicle_pitch_accuracy().to_bits() as u64);
    obs(r.vehicle_heading_accuracy_raw() as u64);
    obs(r.vehicle_heading_accuracy().to_bits() as u64);
}
pub fn use_NavClock(r: &NavClockRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.clk_b() as u64);
    obs(r.clk_d() as u64);
    obs(r.t_acc() as u64);
    obs(r.f_acc() as u64);
}
pub fn use_NavVelECEF(r: &NavVelECEFRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.itow() as u64);
    obs(r.ecef_vx() as u64);
    obs(r.ecef_vy() as u64);
    obs(r.ecef_vz() as u64);
    obs(r.s_acc() as u64);
}
pub fn use_MgaGpsEPH(r: &MgaGpsEPHRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.msg_type() as u64);
    obs(r.version() as u64);
    obs(r.sv_id() as u64);
    obs(r.reserved1() as u64);
    obs(r.fit_interval() as u64);
    obs(r.ura_index() as u64);
    obs(r.sv_health() as u64);
    obs(r.tgd_raw() as u64);
    obs(r.tgd().to_bits() as u64);
    obs(r.iodc() as u64);
    obs(r.toc_raw() as u64);
    obs(r.toc().to_bits() as u64);
    obs(r.reserved2() as u64);
    obs(r.af2_raw() as u64);
    obs(r.af2().to_bits() as u64);
    obs(r.afl_raw() as u64);
    obs(r.afl().to_bits() as u64);
    obs(r.af0_raw() as u64);
    obs(r.af0().to_bits() as u64);
    obs(r.crs_raw() as u64);
    obs(r.crs().to_bits() as u64);
    obs(r.delta_n_raw() as u64);
    obs(r.delta_n().to_bits() as u64);
    obs(r.m0_raw() as u64);
    obs(r.m0().to_bits() as u64);
    obs(r.cuc_raw() as u64);
    obs(r.cuc().to_bits() as u64);
    obs(r.cus_raw() as u64);
    obs(r.cus().to_bits() as u64);
    obs(r.e_raw() as u64);
    obs(r.e().to_bits() as u64);
    obs(r.sqrt_a_raw() as u64);
    obs(r.sqrt_a().to_bits() as u64);
    obs(r.toe_raw() as u64);
    obs(r.toe().to_bits() as u64);
    obs(r.cic_raw() as u64);
    obs(r.cic().to_bits() as u64);
    obs(r.omega0_raw() as u64);
    obs(r.omega0().to_bits() as u64);
    obs(r.cis_raw() as u64);
    obs(r.cis().to_bits() as u64);
    obs(r.crc_raw() as u64);
    obs(r.crc().to_bits() as u64);
    obs(r.i0_raw() as u64);
    obs(r.i0().to_bits() as u64);
    obs(r.omega_raw() as u64);
    obs(r.omega().to_bits() as u64);
    obs(r.omega_dot_raw() as u64);
    obs(r.omega_dot().to_bits() as u64);
    obs(r.idot_raw() as u64);
    obs(r.idot().to_bits() as u64);
    obs(r.reserved3()[1] as u64);
}
pub fn use_RxmSfrbx(r: &RxmSfrbxRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.gnss_id() as u64);
    obs(r.sv_id() as u64);
    obs(r.reserved1() as u64);
    obs(r.freq_id() as u64);
    obs(r.num_words() as u64);
    obs(r.reserved2() as u64);
    obs(r.version() as u64);
    obs(r.reserved3() as u64);
    crate::pkt::use_dwrditer(r.dwrd());
}
pub fn use_EsfRaw(r: &EsfRawRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.msss() as u64);
    crate::pkt::use_esfrawdataiter(r.data());
}
pub fn use_TimSvin(r: &TimSvinRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.dur() as u64);
    obs(r.mean_x() as u64);
    obs(r.mean_y() as u64);
    obs(r.mean_z() as u64);
    obs(r.mean_v() as u64);
    obs(r.obs() as u64);
    obs(r.valid() as u64);
    obs(r.active() as u64);
    obs(r.reserved()[1] as u64);
}
pub fn use_SecUniqId(r: &SecUniqIdRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.version() as u64);
    obs(r.reserved1()[2] as u64);
    obs(r.unique_id()[4] as u64);
}
pub fn use_NavSatSvInfo(r: &NavSatSvInfoRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.gnss_id() as u64);
    obs(r.sv_id() as u64);
    obs(r.cno() as u64);
    obs(r.elev() as u64);
    obs(r.azim() as u64);
    obs(r.pr_res() as u64);
    obs(r.flags_raw() as u64);
    obs(r.flags().quality_ind() as u64);
    obs(r.flags().sv_used() as u64);
    obs(r.flags().differential_correction_available() as u64);
    obs(r.flags().smoothed() as u64);
    obs(r.flags().ephemeris_available() as u64);
    obs(r.flags().almanac_available() as u64);
    obs(r.flags().an_offline_available() as u64);
    obs(r.flags().an_auto_available() as u64);
    obs(r.flags().sbas_corr() as u64);
    obs(r.flags().rtcm_corr() as u64);
    obs(r.flags().slas_corr() as u64);
    obs(r.flags().spartn_corr() as u64);
    obs(r.flags().pr_corr() as u64);
    obs(r.flags().cr_corr() as u64);
    obs(r.flags().do_corr() as u64);
    obs(match r.flags().health() { NavSatSvHealth::Healthy => 1, NavSatSvHealth::Unhealthy => 2, NavSatSvHealth::Unknown(x) => 100 + x as u64 });
    obs(match r.flags().orbit_source() { NavSatOrbitSource::NoInfoAvailable => 0, NavSatOrbitSource::Ephemeris => 1, NavSatOrbitSource::Almanac => 2, NavSatOrbitSource::AssistNowOffline => 3, NavSatOrbitSource::AssistNowAutonomous => 4, NavSatOrbitSource::Other(x) => 100 + x as u64 });
}
pub fn use_RxmRawxInfo(r: &RxmRawxInfoRef) {
    obs(r.as_bytes().len() as u64);
    obs(r.pr_mes().to_bits() as u64);
    obs(r.cp_mes().to_bits() as u64);
    obs(r.do_mes().to_bits() as u64);
    obs(r.gnss_id() as u64);
    obs(r.sv_id() as u64);
    obs(r.reserved2() as u64);
    obs(r.freq_id() as u64);
    obs(r.lock_time() as u64);
    obs(r.cno() as u64);
    obs(r.pr_stdev_raw() as u64);
    obs(r.pr_stdev().bits() as u64);
    obs(r.cp_stdev_raw() as u64);
    obs(r.cp_stdev().bits() as u64);
    obs(r.do_stdev_raw() as u64);
    obs(r.do_stdev().bits() as u64);
    obs(r.trk_stat_raw() as u64);
    obs(r.trk_stat().bits() as u64);
    obs(r.reserved3() as u64);
}
/// compare every accessor with the documented bytes
pub fn get_all(pk: &PacketRef, p: &[u8]) {
    match pk {
        PacketRef::NavPosLlh(r) => get_NavPosLlh(r, p),
        PacketRef::NavStatus(r) => get_NavStatus(r, p),
        PacketRef::NavDop(r) => get_NavDop(r, p),
        PacketRef::NavPvt(r) => get_NavPvt(r, p),
        PacketRef::NavSolution(r) => get_NavSolution(r, p),
        PacketRef::NavVelNed(r) => get_NavVelNed(r, p),
        PacketRef::NavHpPosLlh(r) => get_NavHpPosLlh(r, p),
        PacketRef::NavHpPosEcef(r) => get_NavHpPosEcef(r, p),
        PacketRef::NavTimeUTC(r) => get_NavTimeUTC(r, p),
        PacketRef::NavTimeLs(r) => get_NavTimeLs(r, p),
        PacketRef::NavSat(r) => get_NavSat(r, p),
        PacketRef::NavEoe(r) => get_NavEoe(r, p),
        PacketRef::NavOdo(r) => get_NavOdo(r, p),
        PacketRef::CfgOdo(r) => get_CfgOdo(r, p),
        PacketRef::MgaAck(r) => get_MgaAck(r, p),
        PacketRef::MgaGpsIono(r) => get_MgaGpsIono(r, p),
        PacketRef::MgaGpsEph(r) => get_MgaGpsEph(r, p),
        PacketRef::MgaGloEph(r) => get_MgaGloEph(r, p),
        PacketRef::AlpSrv(r) => get_AlpSrv(r, p),
        PacketRef::AckAck(r) => get_AckAck(r, p),
        PacketRef::AckNak(r) => get_AckNak(r, p),
        PacketRef::CfgItfm(r) => get_CfgItfm(r, p),
        PacketRef::CfgPrtI2c(r) => get_CfgPrtI2c(r, p),
        PacketRef::CfgPrtSpi(r) => get_CfgPrtSpi(r, p),
        PacketRef::CfgPrtUart(r) => get_CfgPrtUart(r, p),
        PacketRef::CfgNav5(r) => get_CfgNav5(r, p),
        PacketRef::CfgAnt(r) => get_CfgAnt(r, p),
        PacketRef::CfgTmode2(r) => get_CfgTmode2(r, p),
        PacketRef::CfgTmode3(r) => get_CfgTmode3(r, p),
        PacketRef::CfgTp5(r) => get_CfgTp5(r, p),
        PacketRef::CfgInf(r) => get_CfgInf(r, p),
        PacketRef::CfgNavX5(r) => get_CfgNavX5(r, p),
        PacketRef::InfError(r) => get_InfError(r, p),
        PacketRef::InfWarning(r) => get_InfWarning(r, p),
        PacketRef::InfNotice(r) => get_InfNotice(r, p),
        PacketRef::InfTest(r) => get_InfTest(r, p),
        PacketRef::InfDebug(r) => get_InfDebug(r, p),
        PacketRef::RxmRawx(r) => get_RxmRawx(r, p),
        PacketRef::TimTp(r) => get_TimTp(r, p),
        PacketRef::TimTm2(r) => get_TimTm2(r, p),
        PacketRef::MonVer(r) => get_MonVer(r, p),
        PacketRef::MonGnss(r) => get_MonGnss(r, p),
        PacketRef::MonHw(r) => get_MonHw(r, p),
        PacketRef::RxmRtcm(r) => get_RxmRtcm(r, p),
        PacketRef::EsfMeas(r) => get_EsfMeas(r, p),
        PacketRef::EsfIns(r) => get_EsfIns(r, p),
        PacketRef::HnrAtt(r) => get_HnrAtt(r, p),
        PacketRef::HnrIns(r) => get_HnrIns(r, p),
        PacketRef::HnrPvt(r) => get_HnrPvt(r, p),
        PacketRef::NavAtt(r) => get_NavAtt(r, p),
        PacketRef::NavClock(r) => get_NavClock(r, p),
        PacketRef::NavVelECEF(r) => get_NavVelECEF(r, p),
        PacketRef::MgaGpsEPH(r) => get_MgaGpsEPH(r, p),
        PacketRef::RxmSfrbx(r) => get_RxmSfrbx(r, p),
        PacketRef::EsfRaw(r) => get_EsfRaw(r, p),
        PacketRef::TimSvin(r) => get_TimSvin(r, p),
        PacketRef::SecUniqId(r) => get_SecUniqId(r, p),
        _ => {}
    }
}
/// call every accessor
pub fn use_all(pk: &PacketRef) {
    match pk {
        PacketRef::NavPosLlh(r) => use_NavPosLlh(r),
        PacketRef::NavStatus(r) => use_NavStatus(r),
        PacketRef::NavDop(r) => use_NavDop(r),
        PacketRef::NavPvt(r) => use_NavPvt(r),
        PacketRef::NavSolution(r) => use_NavSolution(r),
        PacketRef::NavVelNed(r) => use_NavVelNed(r),
        PacketRef::NavHpPosLlh(r) => use_NavHpPosLlh(r),
        PacketRef::NavHpPosEcef(r) => use_NavHpPosEcef(r),
        PacketRef::NavTimeUTC(r) => use_NavTimeUTC(r),
        PacketRef::NavTimeLs(r) => use_NavTimeLs(r),
        PacketRef::NavSat(r) => use_NavSat(r),
        PacketRef::NavEoe(r) => use_NavEoe(r),
        PacketRef::NavOdo(r) => use_NavOdo(r),
        PacketRef::CfgOdo(r) => use_CfgOdo(r),
        PacketRef::MgaAck(r) => use_MgaAck(r),
        PacketRef::MgaGpsIono(r) => use_MgaGpsIono(r),
        PacketRef::MgaGpsEph(r) => use_MgaGpsEph(r),
        PacketRef::MgaGloEph(r) => use_MgaGloEph(r),
        PacketRef::AlpSrv(r) => use_AlpSrv(r),
        PacketRef::AckAck(r) => use_AckAck(r),
        PacketRef::AckNak(r) => use_AckNak(r),
        PacketRef::CfgItfm(r) => use_CfgItfm(r),
        PacketRef::CfgPrtI2c(r) => use_CfgPrtI2c(r),
        PacketRef::CfgPrtSpi(r) => use_CfgPrtSpi(r),
        PacketRef::CfgPrtUart(r) => use_CfgPrtUart(r),
        PacketRef::CfgNav5(r) => use_CfgNav5(r),
        PacketRef::CfgAnt(r) => use_CfgAnt(r),
        PacketRef::CfgTmode2(r) => use_CfgTmode2(r),
        PacketRef::CfgTmode3(r) => use_CfgTmode3(r),
        PacketRef::CfgTp5(r) => use_CfgTp5(r),
        PacketRef::CfgInf(r) => use_CfgInf(r),
        PacketRef::CfgNavX5(r) => use_CfgNavX5(r),
        PacketRef::InfError(r) => use_InfError(r),
        PacketRef::InfWarning(r) => use_InfWarning(r),
        PacketRef::InfNotice(r) => use_InfNotice(r),
        PacketRef::InfTest(r) => use_InfTest(r),
        PacketRef::InfDebug(r) => use_InfDebug(r),
        PacketRef::RxmRawx(r) => use_RxmRawx(r),
        PacketRef::TimTp(r) => use_TimTp(r),
        PacketRef::TimTm2(r) => use_TimTm2(r),
        PacketRef::MonVer(r) => use_MonVer(r),
        PacketRef::MonGnss(r) => use_MonGnss(r),
        PacketRef::MonHw(r) => use_MonHw(r),
        PacketRef::RxmRtcm(r) => use_RxmRtcm(r),
        PacketRef::EsfMeas(r) => use_EsfMeas(r),
        PacketRef::EsfIns(r) => use_EsfIns(r),
        PacketRef::HnrAtt(r) => use_HnrAtt(r),
        PacketRef::HnrIns(r) => use_HnrIns(r),
        PacketRef::HnrPvt(r) => use_HnrPvt(r),
        PacketRef::NavAtt(r) => use_NavAtt(r),
        PacketRef::NavClock(r) => use_NavClock(r),
        PacketRef::NavVelECEF(r) => use_NavVelECEF(r),
        PacketRef::MgaGpsEPH(r) => use_MgaGpsEPH(r),
        PacketRef::RxmSfrbx(r) => use_RxmSfrbx(r),
        PacketRef::EsfRaw(r) => use_EsfRaw(r),
        PacketRef::TimSvin(r) => use_TimSvin(r),
        PacketRef::SecUniqId(r) => use_SecUniqId(r),
        _ => {}
    }
}
pub const NAMES: [&str; 57] = ["NavPosLlh", "NavStatus", "NavDop", "NavPvt", "NavSolution", "NavVelNed", "NavHpPosLlh", "NavHpPosEcef", "NavTimeUTC", "NavTimeLs", "NavSat", "NavEoe", "NavOdo", "CfgOdo", "MgaAck", "MgaGpsIono", "MgaGpsEph", "MgaGloEph", "AlpSrv", "AckAck", "AckNak", "CfgItfm", "CfgPrtI2c", "CfgPrtSpi", "CfgPrtUart", "CfgNav5", "CfgAnt", "CfgTmode2", "CfgTmode3", "CfgTp5", "CfgInf", "CfgNavX5", "InfError", "InfWarning", "InfNotice", "InfTest", "InfDebug", "RxmRawx", "TimTp", "TimTm2", "MonVer", "MonGnss", "MonHw", "RxmRtcm", "EsfMeas", "EsfIns", "HnrAtt", "HnrIns", "HnrPvt", "NavAtt", "NavClock", "NavVelECEF", "MgaGpsEPH", "RxmSfrbx", "EsfRaw", "TimSvin", "SecUniqId"];
pub const DELIVERED: [&str; 57] = ["NavPosLlh is delivered as NavPosLlh", "NavStatus is delivered as NavStatus", "NavDop is delivered as NavDop", "NavPvt is delivered as NavPvt", "NavSolution is delivered as NavSolution", "NavVelNed is delivered as NavVelNed", "NavHpPosLlh is delivered as NavHpPosLlh", "NavHpPosEcef is delivered as NavHpPosEcef", "NavTimeUTC is delivered as NavTimeUTC", "NavTimeLs is delivered as NavTimeLs", "NavSat is delivered as NavSat", "NavEoe is delivered as NavEoe", "NavOdo is delivered as NavOdo", "CfgOdo is delivered as CfgOdo", "MgaAck is delivered as MgaAck", "MgaGpsIono is delivered as MgaGpsIono", "MgaGpsEph is delivered as MgaGpsEph", "MgaGloEph is delivered as MgaGloEph", "AlpSrv is delivered as AlpSrv", "AckAck is delivered as AckAck", "AckNak is delivered as AckNak", "CfgItfm is delivered as CfgItfm", "CfgPrtI2c is delivered as CfgPrtI2c", "CfgPrtSpi is delivered as CfgPrtSpi", "CfgPrtUart is delivered as CfgPrtUart", "CfgNav5 is delivered as CfgNav5", "CfgAnt is delivered as CfgAnt", "CfgTmode2 is delivered as CfgTmode2", "CfgTmode3 is delivered as CfgTmode3", "CfgTp5 is delivered as CfgTp5", "CfgInf is delivered as CfgInf", "CfgNavX5 is delivered as CfgNavX5", "InfError is delivered as InfError", "InfWarning is delivered as InfWarning", "InfNotice is delivered as InfNotice", "InfTest is delivered as InfTest", "InfDebug is delivered as InfDebug", "RxmRawx is delivered as RxmRawx", "TimTp is delivered as TimTp", "TimTm2 is delivered as TimTm2", "MonVer is delivered as MonVer", "MonGnss is delivered as MonGnss", "MonHw is delivered as MonHw", "RxmRtcm is delivered as RxmRtcm", "EsfMeas is delivered as EsfMeas", "EsfIns is delivered as EsfIns", "HnrAtt is delivered as HnrAtt", "HnrIns is delivered as HnrIns", "HnrPvt is delivered as HnrPvt", "NavAtt is delivered as NavAtt", "NavClock is delivered as NavClock", "NavVelECEF is delivered as NavVelECEF", "MgaGpsEPH is delivered as MgaGpsEPH", "RxmSfrbx is delivered as RxmSfrbx", "EsfRaw is delivered as EsfRaw", "TimSvin is delivered as TimSvin", "SecUniqId is delivered as SecUniqId"];
pub const REFUSED: [&str; 57] = ["NavPosLlh is not presented for a payload it does not allow", "NavStatus is not presented for a payload it does not allow", "NavDop is not presented for a payload it does not allow", "NavPvt is not presented for a payload it does not allow", "NavSolution is not presented for a payload it does not allow", "NavVelNed is not presented for a payload it does not allow", "NavHpPosLlh is not presented for a payload it does not allow", "NavHpPosEcef is not presented for a payload it does not allow", "NavTimeUTC is not presented for a payload it does not allow", "NavTimeLs is not presented for a payload it does not allow", "NavSat is not presented for a payload it does not allow", "NavEoe is not presented for a payload it does not allow", "NavOdo is not presented for a payload it does not allow", "CfgOdo is not presented for a payload it does not allow", "MgaAck is not presented for a payload it does not allow", "MgaGpsIono is not presented for a payload it does not allow", "MgaGpsEph is not presented for a payload it does not allow", "MgaGloEph is not presented for a payload it does not allow", "AlpSrv is not presented for a payload it does not allow", "AckAck is not presented for a payload it does not allow", "AckNak is not presented for a payload it does not allow", "CfgItfm is not presented for a payload it does not allow", "CfgPrtI2c is not presented for a payload it does not allow", "CfgPrtSpi is not presented for a payload it does not allow", "CfgPrtUart is not presented for a payload it does not allow", "CfgNav5 is not presented for a payload it does not allow", "CfgAnt is not presented for a payload it does not allow", "CfgTmode2 is not presented for a payload it does not allow", "CfgTmode3 is not presented for a payload it does not allow", "CfgTp5 is not presented for a payload it does not allow", "CfgInf is not presented for a payload it does not allow", "CfgNavX5 is not presented for a payload it does not allow", "InfError is not presented for a payload it does not allow", "InfWarning is not presented for a payload it does not allow", "InfNotice is not presented for a payload it does not allow", "InfTest is not presented for a payload it does not allow", "InfDebug is not presented for a payload it does not allow", "RxmRawx is not presented for a payload it does not allow", "TimTp is not presented for a payload it does not allow", "TimTm2 is not presented for a payload it does not allow", "MonVer is not presented for a payload it does not allow", "MonGnss is not presented for a payload it does not allow", "MonHw is not presented for a payload it does not allow", "RxmRtcm is not presented for a payload it does not allow", "EsfMeas is not presented for a payload it does not allow", "EsfIns is not presented for a payload it does not allow", "HnrAtt is not presented for a payload it does not allow", "HnrIns is not presented for a payload it does not allow", "HnrPvt is not presented for a payload it does not allow", "NavAtt is not presented for a payload it does not allow", "NavClock is not presented for a payload it does not allow", "NavVelECEF is not presented for a payload it does not allow", "MgaGpsEPH is not presented for a payload it does not allow", "RxmSfrbx is not presented for a payload it does not allow", "EsfRaw is not presented for a payload it does not allow", "TimSvin is not presented for a payload it does not allow", "SecUniqId is not presented for a payload it does not allow"];
