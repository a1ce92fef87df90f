// generated by /verif/tools/gen.py from /verif/spec -- do not edit
#![allow(non_snake_case, unused_variables, clippy::all)]
use crate::rt::*;
use ublox::*;
pub fn names_NavStatus(r: &NavStatusRef, p: &[u8]) {
    let (v, e) = (p[4] as u64, r.fix_type());
    let k = match e { GpsFix::NoFix => 0, GpsFix::DeadReckoningOnly => 1, GpsFix::Fix2D => 2, GpsFix::Fix3D => 3, GpsFix::GPSPlusDeadReckoning => 4, GpsFix::TimeOnlyFix => 5, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 | 3 | 4 | 5 => v, _ => 999 }, "NavStatus.fix_type: each number has its name, and no other");
    check(e as u64 == v, "NavStatus.fix_type: distinct numbers stay distinct");
    cover("GpsFix");
    let (v, w) = (p[5] as u64, r.flags());
    check(w.bits() as u64 == v, "NavStatus.flags: no bit is lost");
    check(w.contains(NavStatusFlags::GPS_FIX_OK) == (v & 1 == 1), "NavStatus.flags contains GPS_FIX_OK");
    check(w.contains(NavStatusFlags::DIFF_SOLN) == (v & 2 == 2), "NavStatus.flags contains DIFF_SOLN");
    check(w.contains(NavStatusFlags::WKN_SET) == (v & 4 == 4), "NavStatus.flags contains WKN_SET");
    check(w.contains(NavStatusFlags::TOW_SET) == (v & 8 == 8), "NavStatus.flags contains TOW_SET");
    cover("NavStatusFlags");
    let v = p[6] as u64;
    check(r.fix_stat().has_pr_prr_correction() == ((v >> 0) & 1 == 1), "NavStatus.fix_stat.has_pr_prr_correction");
    let q = (v >> 6) & 3;
    check(match r.fix_stat().map_matching() { MapMatchingStatus::None => 0, MapMatchingStatus::Valid => 1, MapMatchingStatus::Used => 2, MapMatchingStatus::Dr => 3, #[allow(unreachable_patterns)] _ => 999 } == q, "NavStatus.fix_stat.map_matching");
    cover("FixStatusInfo");
}
pub fn names_NavPvt(r: &NavPvtRef, p: &[u8]) {
    let (v, e) = (p[20] as u64, r.fix_type());
    let k = match e { GpsFix::NoFix => 0, GpsFix::DeadReckoningOnly => 1, GpsFix::Fix2D => 2, GpsFix::Fix3D => 3, GpsFix::GPSPlusDeadReckoning => 4, GpsFix::TimeOnlyFix => 5, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 | 3 | 4 | 5 => v, _ => 999 }, "NavPvt.fix_type: each number has its name, and no other");
    check(e as u64 == v, "NavPvt.fix_type: distinct numbers stay distinct");
    cover("GpsFix");
    let (v, w) = (p[21] as u64, r.flags());
    check(w.bits() as u64 == v, "NavPvt.flags: no bit is lost");
    check(w.contains(NavPvtFlags::GPS_FIX_OK) == (v & 1 == 1), "NavPvt.flags contains GPS_FIX_OK");
    check(w.contains(NavPvtFlags::DIFF_SOLN) == (v & 2 == 2), "NavPvt.flags contains DIFF_SOLN");
    check(w.contains(NavPvtFlags::HEAD_VEH_VALID) == (v & 32 == 32), "NavPvt.flags contains HEAD_VEH_VALID");
    check(w.contains(NavPvtFlags::CARR_SOLN_FLOAT) == (v & 64 == 64), "NavPvt.flags contains CARR_SOLN_FLOAT");
    check(w.contains(NavPvtFlags::CARR_SOLN_FIXED) == (v & 128 == 128), "NavPvt.flags contains CARR_SOLN_FIXED");
    cover("NavPvtFlags");
    let (v, w) = (p[22] as u64, r.flags2());
    check(w.bits() as u64 == v, "NavPvt.flags2: no bit is lost");
    check(w.contains(NavPvtFlags2::CONFIRMED_AVAI) == (v & 32 == 32), "NavPvt.flags2 contains CONFIRMED_AVAI");
    check(w.contains(NavPvtFlags2::CONFIRMED_DATE) == (v & 64 == 64), "NavPvt.flags2 contains CONFIRMED_DATE");
    check(w.contains(NavPvtFlags2::CONFIRMED_TIME) == (v & 128 == 128), "NavPvt.flags2 contains CONFIRMED_TIME");
    cover("NavPvtFlags2");
}
pub fn names_NavSolution(r: &NavSolutionRef, p: &[u8]) {
    let (v, e) = (p[10] as u64, r.fix_type());
    let k = match e { GpsFix::NoFix => 0, GpsFix::DeadReckoningOnly => 1, GpsFix::Fix2D => 2, GpsFix::Fix3D => 3, GpsFix::GPSPlusDeadReckoning => 4, GpsFix::TimeOnlyFix => 5, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 | 3 | 4 | 5 => v, _ => 999 }, "NavSolution.fix_type: each number has its name, and no other");
    check(e as u64 == v, "NavSolution.fix_type: distinct numbers stay distinct");
    cover("GpsFix");
    let (v, w) = (p[11] as u64, r.flags());
    check(w.bits() as u64 == v, "NavSolution.flags: no bit is lost");
    check(w.contains(NavStatusFlags::GPS_FIX_OK) == (v & 1 == 1), "NavSolution.flags contains GPS_FIX_OK");
    check(w.contains(NavStatusFlags::DIFF_SOLN) == (v & 2 == 2), "NavSolution.flags contains DIFF_SOLN");
    check(w.contains(NavStatusFlags::WKN_SET) == (v & 4 == 4), "NavSolution.flags contains WKN_SET");
    check(w.contains(NavStatusFlags::TOW_SET) == (v & 8 == 8), "NavSolution.flags contains TOW_SET");
    cover("NavStatusFlags");
}
pub fn names_NavHpPosEcef(r: &NavHpPosEcefRef, p: &[u8]) {
    let (v, w) = (p[23] as u64, r.flags());
    check(w.bits() as u64 == v, "NavHpPosEcef.flags: no bit is lost");
    check(w.contains(NavHpPosEcefFlags::INVALID_ECEF) == (v & 1 == 1), "NavHpPosEcef.flags contains INVALID_ECEF");
    cover("NavHpPosEcefFlags");
}
pub fn names_NavTimeUTC(r: &NavTimeUTCRef, p: &[u8]) {
    let (v, w) = (p[19] as u64, r.valid());
    check(w.bits() as u64 == v, "NavTimeUTC.valid: no bit is lost");
    check(w.contains(NavTimeUtcFlags::VALID_TOW) == (v & 1 == 1), "NavTimeUTC.valid contains VALID_TOW");
    check(w.contains(NavTimeUtcFlags::VALID_WKN) == (v & 2 == 2), "NavTimeUTC.valid contains VALID_WKN");
    check(w.contains(NavTimeUtcFlags::VALID_UTC) == (v & 4 == 4), "NavTimeUTC.valid contains VALID_UTC");
    cover("NavTimeUtcFlags");
}
pub fn names_NavTimeLs(r: &NavTimeLsRef, p: &[u8]) {
    let (v, w) = (p[23] as u64, r.valid());
    check(w.bits() as u64 == v, "NavTimeLs.valid: no bit is lost");
    check(w.contains(NavTimeLsFlags::VALID_CURR_LS) == (v & 1 == 1), "NavTimeLs.valid contains VALID_CURR_LS");
    check(w.contains(NavTimeLsFlags::VALID_TIME_TO_LS_EVENT) == (v & 2 == 2), "NavTimeLs.valid contains VALID_TIME_TO_LS_EVENT");
    cover("NavTimeLsFlags");
}
pub fn names_CfgOdo(r: &CfgOdoRef, p: &[u8]) {
    let (v, w) = (p[4] as u64, r.flags());
    check(w.bits() as u64 == v, "CfgOdo.flags: no bit is lost");
    check(w.contains(OdoCogFilterFlags::USE_ODO) == (v & 1 == 1), "CfgOdo.flags contains USE_ODO");
    check(w.contains(OdoCogFilterFlags::USE_COG) == (v & 2 == 2), "CfgOdo.flags contains USE_COG");
    check(w.contains(OdoCogFilterFlags::OUT_LP_VEL) == (v & 4 == 4), "CfgOdo.flags contains OUT_LP_VEL");
    check(w.contains(OdoCogFilterFlags::OUT_LP_COG) == (v & 8 == 8), "CfgOdo.flags contains OUT_LP_COG");
    cover("OdoCogFilterFlags");
    let (v, e) = (p[5] as u64, r.odo_cfg());
    let k = match e { OdoProfile::Running => 0, OdoProfile::Cycling => 1, OdoProfile::Swimming => 2, OdoProfile::Car => 3, OdoProfile::Custom => 4, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 | 3 | 4 => v, _ => 999 }, "CfgOdo.odo_cfg: each number has its name, and no other");
    check(e as u64 == v, "CfgOdo.odo_cfg: distinct numbers stay distinct");
    cover("OdoProfile");
}
pub fn names_MgaAck(r: &MgaAckRef, p: &[u8]) {
    let (v, e) = (p[2] as u64, r.info_code());
    let k = match e { MsgAckInfoCode::Accepted => 0, MsgAckInfoCode::RejectedNoTime => 1, MsgAckInfoCode::RejectedBadVersion => 2, MsgAckInfoCode::RejectedBadSize => 3, MsgAckInfoCode::RejectedDBStoreFailed => 4, MsgAckInfoCode::RejectedNotReady => 5, MsgAckInfoCode::RejectedUnknownType => 6, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 | 3 | 4 | 5 | 6 => v, _ => 999 }, "MgaAck.info_code: each number has its name, and no other");
    check(e as u64 == v, "MgaAck.info_code: distinct numbers stay distinct");
    cover("MsgAckInfoCode");
}
pub fn names_CfgPrtI2c(r: &CfgPrtI2cRef, p: &[u8]) {
    let (v, e) = (p[0] as u64, r.portid());
    let k = match e { I2cPortId::I2c => 0, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 => v, _ => 999 }, "CfgPrtI2c.portid: each number has its name, and no other");
    check(e as u64 == v, "CfgPrtI2c.portid: distinct numbers stay distinct");
    cover("I2cPortId");
    let (v, w) = (u16::from_le_bytes([p[12], p[13]]) as u64, r.in_proto_mask());
    check(w.bits() as u64 == v, "CfgPrtI2c.in_proto_mask: no bit is lost");
    check(w.contains(InProtoMask::UBLOX) == (v & 1 == 1), "CfgPrtI2c.in_proto_mask contains UBLOX");
    check(w.contains(InProtoMask::NMEA) == (v & 2 == 2), "CfgPrtI2c.in_proto_mask contains NMEA");
    check(w.contains(InProtoMask::RTCM) == (v & 4 == 4), "CfgPrtI2c.in_proto_mask contains RTCM");
    check(w.contains(InProtoMask::RTCM3) == (v & 32 == 32), "CfgPrtI2c.in_proto_mask contains RTCM3");
    cover("InProtoMask");
    let (v, w) = (u16::from_le_bytes([p[14], p[15]]) as u64, r.out_proto_mask());
    check(w.bits() as u64 == v, "CfgPrtI2c.out_proto_mask: no bit is lost");
    check(w.contains(OutProtoMask::UBLOX) == (v & 1 == 1), "CfgPrtI2c.out_proto_mask contains UBLOX");
    check(w.contains(OutProtoMask::NMEA) == (v & 2 == 2), "CfgPrtI2c.out_proto_mask contains NMEA");
    check(w.contains(OutProtoMask::RTCM3) == (v & 32 == 32), "CfgPrtI2c.out_proto_mask contains RTCM3");
    cover("OutProtoMask");
}
pub fn names_CfgPrtSpi(r: &CfgPrtSpiRef, p: &[u8]) {
    let (v, e) = (p[0] as u64, r.portid());
    let k = match e { SpiPortId::Spi => 4, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 4 => v, _ => 999 }, "CfgPrtSpi.portid: each number has its name, and no other");
    check(e as u64 == v, "CfgPrtSpi.portid: distinct numbers stay distinct");
    cover("SpiPortId");
    let (v, w) = (u16::from_le_bytes([p[12], p[13]]) as u64, r.in_proto_mask());
    check(w.bits() as u64 == v, "CfgPrtSpi.in_proto_mask: no bit is lost");
    check(w.contains(InProtoMask::UBLOX) == (v & 1 == 1), "CfgPrtSpi.in_proto_mask contains UBLOX");
    check(w.contains(InProtoMask::NMEA) == (v & 2 == 2), "CfgPrtSpi.in_proto_mask contains NMEA");
    check(w.contains(InProtoMask::RTCM) == (v & 4 == 4), "CfgPrtSpi.in_proto_mask contains RTCM");
    check(w.contains(InProtoMask::RTCM3) == (v & 32 == 32), "CfgPrtSpi.in_proto_mask contains RTCM3");
    cover("InProtoMask");
    let (v, w) = (u16::from_le_bytes([p[14], p[15]]) as u64, r.out_proto_mask());
    check(w.bits() as u64 == v, "CfgPrtSpi.out_proto_mask: no bit is lost");
    check(w.contains(OutProtoMask::UBLOX) == (v & 1 == 1), "CfgPrtSpi.out_proto_mask contains UBLOX");
    check(w.contains(OutProtoMask::NMEA) == (v & 2 == 2), "CfgPrtSpi.out_proto_mask contains NMEA");
    check(w.contains(OutProtoMask::RTCM3) == (v & 32 == 32), "CfgPrtSpi.out_proto_mask contains RTCM3");
    cover("OutProtoMask");
}
pub fn names_CfgPrtUart(r: &CfgPrtUartRef, p: &[u8]) {
    let (v, e) = (p[0] as u64, r.portid());
    let k = match e { UartPortId::Uart1 => 1, UartPortId::Uart2 => 2, UartPortId::Usb => 3, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 1 | 2 | 3 => v, _ => 999 }, "CfgPrtUart.portid: each number has its name, and no other");
    check(e as u64 == v, "CfgPrtUart.portid: distinct numbers stay distinct");
    cover("UartPortId");
    let (v, w) = (u16::from_le_bytes([p[12], p[13]]) as u64, r.in_proto_mask());
    check(w.bits() as u64 == v, "CfgPrtUart.in_proto_mask: no bit is lost");
    check(w.contains(InProtoMask::UBLOX) == (v & 1 == 1), "CfgPrtUart.in_proto_mask contains UBLOX");
    check(w.contains(InProtoMask::NMEA) == (v & 2 == 2), "CfgPrtUart.in_proto_mask contains NMEA");
    check(w.contains(InProtoMask::RTCM) == (v & 4 == 4), "CfgPrtUart.in_proto_mask contains RTCM");
    check(w.contains(InProtoMask::RTCM3) == (v & 32 == 32), "CfgPrtUart.in_proto_mask contains RTCM3");
    cover("InProtoMask");
    let (v, w) = (u16::from_le_bytes([p[14], p[15]]) as u64, r.out_proto_mask());
    check(w.bits() as u64 == v, "CfgPrtUart.out_proto_mask: no bit is lost");
    check(w.contains(OutProtoMask::UBLOX) == (v & 1 == 1), "CfgPrtUart.out_proto_mask contains UBLOX");
    check(w.contains(OutProtoMask::NMEA) == (v & 2 == 2), "CfgPrtUart.out_proto_mask contains NMEA");
    check(w.contains(OutProtoMask::RTCM3) == (v & 32 == 32), "CfgPrtUart.out_proto_mask contains RTCM3");
    cover("OutProtoMask");
}
pub fn names_CfgNav5(r: &CfgNav5Ref, p: &[u8]) {
    let (v, w) = (u16::from_le_bytes([p[0], p[1]]) as u64, r.mask());
    check(w.bits() as u64 == v, "CfgNav5.mask: no bit is lost");
    check(w.contains(CfgNav5Params::DYN) == (v & 1 == 1), "CfgNav5.mask contains DYN");
    check(w.contains(CfgNav5Params::MIN_EL) == (v & 2 == 2), "CfgNav5.mask contains MIN_EL");
    check(w.contains(CfgNav5Params::POS_FIX_MODE) == (v & 4 == 4), "CfgNav5.mask contains POS_FIX_MODE");
    check(w.contains(CfgNav5Params::DR_LIM) == (v & 8 == 8), "CfgNav5.mask contains DR_LIM");
    check(w.contains(CfgNav5Params::POS_MASK_APPLY) == (v & 16 == 16), "CfgNav5.mask contains POS_MASK_APPLY");
    check(w.contains(CfgNav5Params::TIME_MASK) == (v & 32 == 32), "CfgNav5.mask contains TIME_MASK");
    check(w.contains(CfgNav5Params::STATIC_HOLD_MASK) == (v & 64 == 64), "CfgNav5.mask contains STATIC_HOLD_MASK");
    check(w.contains(CfgNav5Params::DGPS_MASK) == (v & 128 == 128), "CfgNav5.mask contains DGPS_MASK");
    check(w.contains(CfgNav5Params::CNO_THRESHOLD) == (v & 256 == 256), "CfgNav5.mask contains CNO_THRESHOLD");
    check(w.contains(CfgNav5Params::UTC) == (v & 1024 == 1024), "CfgNav5.mask contains UTC");
    cover("CfgNav5Params");
    let (v, e) = (p[2] as u64, r.dyn_model());
    let k = match e { CfgNav5DynModel::Portable => 0, CfgNav5DynModel::Stationary => 2, CfgNav5DynModel::Pedestrian => 3, CfgNav5DynModel::Automotive => 4, CfgNav5DynModel::Sea => 5, CfgNav5DynModel::AirborneWithLess1gAcceleration => 6, CfgNav5DynModel::AirborneWithLess2gAcceleration => 7, CfgNav5DynModel::AirborneWith4gAcceleration => 8, CfgNav5DynModel::WristWornWatch => 9, CfgNav5DynModel::Bike => 10, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 2 | 3 | 4 | 5 | 6 | 7 | 8 | 9 | 10 => v, _ => 999 }, "CfgNav5.dyn_model: each number has its name, and no other");
    check(e as u64 == v, "CfgNav5.dyn_model: distinct numbers stay distinct");
    cover("CfgNav5DynModel");
    let (v, e) = (p[3] as u64, r.fix_mode());
    let k = match e { CfgNav5FixMode::Only2D => 1, CfgNav5FixMode::Only3D => 2, CfgNav5FixMode::Auto2D3D => 3, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 1 | 2 | 3 => v, _ => 999 }, "CfgNav5.fix_mode: each number has its name, and no other");
    check(e as u64 == v, "CfgNav5.fix_mode: distinct numbers stay distinct");
    cover("CfgNav5FixMode");
    let (v, e) = (p[30] as u64, r.utc_standard());
    let k = match e { CfgNav5UtcStandard::Automatic => 0, CfgNav5UtcStandard::Usno => 3, CfgNav5UtcStandard::UtcSu => 6, CfgNav5UtcStandard::UtcChina => 7, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 3 | 6 | 7 => v, _ => 999 }, "CfgNav5.utc_standard: each number has its name, and no other");
    check(e as u64 == v, "CfgNav5.utc_standard: distinct numbers stay distinct");
    cover("CfgNav5UtcStandard");
}
pub fn names_CfgAnt(r: &CfgAntRef, p: &[u8]) {
    let (v, w) = (u16::from_le_bytes([p[0], p[1]]) as u64, r.flags());
    check(w.bits() as u64 == v, "CfgAnt.flags: no bit is lost");
    check(w.contains(AntFlags::SVCS) == (v & 1 == 1), "CfgAnt.flags contains SVCS");
    check(w.contains(AntFlags::SCD) == (v & 2 == 2), "CfgAnt.flags contains SCD");
    check(w.contains(AntFlags::OCD) == (v & 4 == 4), "CfgAnt.flags contains OCD");
    check(w.contains(AntFlags::PDWN_ON_SCD) == (v & 8 == 8), "CfgAnt.flags contains PDWN_ON_SCD");
    check(w.contains(AntFlags::RECOVERY) == (v & 16 == 16), "CfgAnt.flags contains RECOVERY");
    cover("AntFlags");
}
pub fn names_CfgTmode2(r: &CfgTmode2Ref, p: &[u8]) {
    let (v, e) = (p[0] as u64, r.time_transfer_mode());
    let k = match e { CfgTmode2TimeXferModes::Disabled => 0, CfgTmode2TimeXferModes::SurveyIn => 1, CfgTmode2TimeXferModes::FixedMode => 2, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 => v, _ => 999 }, "CfgTmode2.time_transfer_mode: each number has its name, and no other");
    check(e as u64 == v, "CfgTmode2.time_transfer_mode: distinct numbers stay distinct");
    cover("CfgTmode2TimeXferModes");
    let (v, w) = (u16::from_le_bytes([p[2], p[3]]) as u64, r.flags());
    check(w.bits() as u64 == v, "CfgTmode2.flags: no bit is lost");
    check(w.contains(CfgTmode2Flags::LLA) == (v & 1 == 1), "CfgTmode2.flags contains LLA");
    check(w.contains(CfgTmode2Flags::ALT_INVALID) == (v & 2 == 2), "CfgTmode2.flags contains ALT_INVALID");
    cover("CfgTmode2Flags");
}
pub fn names_CfgTmode3(r: &CfgTmode3Ref, p: &[u8]) {
    let (v, w) = (p[2] as u64, r.rcvr_mode());
    check(w.bits() as u64 == v, "CfgTmode3.rcvr_mode: no bit is lost");
    check(w.contains(CfgTmode3RcvrMode::DISABLED) == (v & 1 == 1), "CfgTmode3.rcvr_mode contains DISABLED");
    check(w.contains(CfgTmode3RcvrMode::SURVEY_IN) == (v & 2 == 2), "CfgTmode3.rcvr_mode contains SURVEY_IN");
    check(w.contains(CfgTmode3RcvrMode::FIXED_MODE) == (v & 4 == 4), "CfgTmode3.rcvr_mode contains FIXED_MODE");
    cover("CfgTmode3RcvrMode");
    let (v, w) = (p[3] as u64, r.flags());
    check(w.bits() as u64 == v, "CfgTmode3.flags: no bit is lost");
    check(w.contains(CfgTmode3Flags::LLA) == (v & 1 == 1), "CfgTmode3.flags contains LLA");
    cover("CfgTmode3Flags");
}
pub fn names_CfgTp5(r: &CfgTp5Ref, p: &[u8]) {
    let (v, e) = (p[0] as u64, r.tp_idx());
    let k = match e { CfgTp5TimePulseMode::TimePulse => 0, CfgTp5TimePulseMode::TimePulse2 => 1, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 => v, _ => 999 }, "CfgTp5.tp_idx: each number has its name, and no other");
    check(e as u64 == v, "CfgTp5.tp_idx: distinct numbers stay distinct");
    cover("CfgTp5TimePulseMode");
    let (v, w) = (u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as u64, r.flags());
    check(w.bits() as u64 == v, "CfgTp5.flags: no bit is lost");
    check(w.contains(CfgTp5Flags::ACTIVE) == (v & 1 == 1), "CfgTp5.flags contains ACTIVE");
    check(w.contains(CfgTp5Flags::LOCK_GNSS_FREQ) == (v & 2 == 2), "CfgTp5.flags contains LOCK_GNSS_FREQ");
    check(w.contains(CfgTp5Flags::LOCKED_OTHER_SET) == (v & 4 == 4), "CfgTp5.flags contains LOCKED_OTHER_SET");
    check(w.contains(CfgTp5Flags::IS_FREQ) == (v & 8 == 8), "CfgTp5.flags contains IS_FREQ");
    check(w.contains(CfgTp5Flags::IS_LENGTH) == (v & 16 == 16), "CfgTp5.flags contains IS_LENGTH");
    check(w.contains(CfgTp5Flags::ALIGN_TO_TOW) == (v & 32 == 32), "CfgTp5.flags contains ALIGN_TO_TOW");
    check(w.contains(CfgTp5Flags::POLARITY) == (v & 64 == 64), "CfgTp5.flags contains POLARITY");
    check(w.contains(CfgTp5Flags::UTC_TIME_GRID) == (v & 128 == 128), "CfgTp5.flags contains UTC_TIME_GRID");
    check(w.contains(CfgTp5Flags::GPS_TIME_GRID) == (v & 256 == 256), "CfgTp5.flags contains GPS_TIME_GRID");
    check(w.contains(CfgTp5Flags::GLO_TIME_GRID) == (v & 512 == 512), "CfgTp5.flags contains GLO_TIME_GRID");
    check(w.contains(CfgTp5Flags::BDS_TIME_GRID) == (v & 1024 == 1024), "CfgTp5.flags contains BDS_TIME_GRID");
    check(w.contains(CfgTp5Flags::GAL_TIME_GRID) == (v & 2048 == 2048), "CfgTp5.flags contains GAL_TIME_GRID");
    check(w.contains(CfgTp5Flags::SYNC_MODE_0) == (v & 4096 == 4096), "CfgTp5.flags contains SYNC_MODE_0");
    check(w.contains(CfgTp5Flags::SYNC_MODE_1) == (v & 8192 == 8192), "CfgTp5.flags contains SYNC_MODE_1");
    cover("CfgTp5Flags");
}
pub fn names_CfgInf(r: &CfgInfRef, p: &[u8]) {
    let (v, w) = (p[4] as u64, r.inf_msg_mask_0());
    check(w.bits() as u64 == v, "CfgInf.inf_msg_mask_0: no bit is lost");
    check(w.contains(CfgInfMask::ERROR) == (v & 1 == 1), "CfgInf.inf_msg_mask_0 contains ERROR");
    check(w.contains(CfgInfMask::WARNING) == (v & 2 == 2), "CfgInf.inf_msg_mask_0 contains WARNING");
    check(w.contains(CfgInfMask::NOTICE) == (v & 4 == 4), "CfgInf.inf_msg_mask_0 contains NOTICE");
    check(w.contains(CfgInfMask::TEST) == (v & 8 == 8), "CfgInf.inf_msg_mask_0 contains TEST");
    check(w.contains(CfgInfMask::DEBUG) == (v & 16 == 16), "CfgInf.inf_msg_mask_0 contains DEBUG");
    cover("CfgInfMask");
    let (v, w) = (p[5] as u64, r.inf_msg_mask_1());
    check(w.bits() as u64 == v, "CfgInf.inf_msg_mask_1: no bit is lost");
    check(w.contains(CfgInfMask::ERROR) == (v & 1 == 1), "CfgInf.inf_msg_mask_1 contains ERROR");
    check(w.contains(CfgInfMask::WARNING) == (v & 2 == 2), "CfgInf.inf_msg_mask_1 contains WARNING");
    check(w.contains(CfgInfMask::NOTICE) == (v & 4 == 4), "CfgInf.inf_msg_mask_1 contains NOTICE");
    check(w.contains(CfgInfMask::TEST) == (v & 8 == 8), "CfgInf.inf_msg_mask_1 contains TEST");
    check(w.contains(CfgInfMask::DEBUG) == (v & 16 == 16), "CfgInf.inf_msg_mask_1 contains DEBUG");
    cover("CfgInfMask");
    let (v, w) = (p[6] as u64, r.inf_msg_mask_2());
    check(w.bits() as u64 == v, "CfgInf.inf_msg_mask_2: no bit is lost");
    check(w.contains(CfgInfMask::ERROR) == (v & 1 == 1), "CfgInf.inf_msg_mask_2 contains ERROR");
    check(w.contains(CfgInfMask::WARNING) == (v & 2 == 2), "CfgInf.inf_msg_mask_2 contains WARNING");
    check(w.contains(CfgInfMask::NOTICE) == (v & 4 == 4), "CfgInf.inf_msg_mask_2 contains NOTICE");
    check(w.contains(CfgInfMask::TEST) == (v & 8 == 8), "CfgInf.inf_msg_mask_2 contains TEST");
    check(w.contains(CfgInfMask::DEBUG) == (v & 16 == 16), "CfgInf.inf_msg_mask_2 contains DEBUG");
    cover("CfgInfMask");
    let (v, w) = (p[7] as u64, r.inf_msg_mask_3());
    check(w.bits() as u64 == v, "CfgInf.inf_msg_mask_3: no bit is lost");
    check(w.contains(CfgInfMask::ERROR) == (v & 1 == 1), "CfgInf.inf_msg_mask_3 contains ERROR");
    check(w.contains(CfgInfMask::WARNING) == (v & 2 == 2), "CfgInf.inf_msg_mask_3 contains WARNING");
    check(w.contains(CfgInfMask::NOTICE) == (v & 4 == 4), "CfgInf.inf_msg_mask_3 contains NOTICE");
    check(w.contains(CfgInfMask::TEST) == (v & 8 == 8), "CfgInf.inf_msg_mask_3 contains TEST");
    check(w.contains(CfgInfMask::DEBUG) == (v & 16 == 16), "CfgInf.inf_msg_mask_3 contains DEBUG");
    cover("CfgInfMask");
    let (v, w) = (p[8] as u64, r.inf_msg_mask_4());
    check(w.bits() as u64 == v, "CfgInf.inf_msg_mask_4: no bit is lost");
    check(w.contains(CfgInfMask::ERROR) == (v & 1 == 1), "CfgInf.inf_msg_mask_4 contains ERROR");
    check(w.contains(CfgInfMask::WARNING) == (v & 2 == 2), "CfgInf.inf_msg_mask_4 contains WARNING");
    check(w.contains(CfgInfMask::NOTICE) == (v & 4 == 4), "CfgInf.inf_msg_mask_4 contains NOTICE");
    check(w.contains(CfgInfMask::TEST) == (v & 8 == 8), "CfgInf.inf_msg_mask_4 contains TEST");
    check(w.contains(CfgInfMask::DEBUG) == (v & 16 == 16), "CfgInf.inf_msg_mask_4 contains DEBUG");
    cover("CfgInfMask");
    let (v, w) = (p[9] as u64, r.inf_msg_mask_5());
    check(w.bits() as u64 == v, "CfgInf.inf_msg_mask_5: no bit is lost");
    check(w.contains(CfgInfMask::ERROR) == (v & 1 == 1), "CfgInf.inf_msg_mask_5 contains ERROR");
    check(w.contains(CfgInfMask::WARNING) == (v & 2 == 2), "CfgInf.inf_msg_mask_5 contains WARNING");
    check(w.contains(CfgInfMask::NOTICE) == (v & 4 == 4), "CfgInf.inf_msg_mask_5 contains NOTICE");
    check(w.contains(CfgInfMask::TEST) == (v & 8 == 8), "CfgInf.inf_msg_mask_5 contains TEST");
    check(w.contains(CfgInfMask::DEBUG) == (v & 16 == 16), "CfgInf.inf_msg_mask_5 contains DEBUG");
    cover("CfgInfMask");
}
pub fn names_CfgNavX5(r: &CfgNavX5Ref, p: &[u8]) {
    let (v, w) = (u16::from_le_bytes([p[2], p[3]]) as u64, r.mask1());
    check(w.bits() as u64 == v, "CfgNavX5.mask1: no bit is lost");
    check(w.contains(CfgNavX5Params1::MIN_MAX) == (v & 4 == 4), "CfgNavX5.mask1 contains MIN_MAX");
    check(w.contains(CfgNavX5Params1::MIN_CNO) == (v & 8 == 8), "CfgNavX5.mask1 contains MIN_CNO");
    check(w.contains(CfgNavX5Params1::INITIAL_3D_FIX) == (v & 64 == 64), "CfgNavX5.mask1 contains INITIAL_3D_FIX");
    check(w.contains(CfgNavX5Params1::WKN_ROLL) == (v & 512 == 512), "CfgNavX5.mask1 contains WKN_ROLL");
    check(w.contains(CfgNavX5Params1::AID_ACK) == (v & 1024 == 1024), "CfgNavX5.mask1 contains AID_ACK");
    check(w.contains(CfgNavX5Params1::USE_PPP) == (v & 8192 == 8192), "CfgNavX5.mask1 contains USE_PPP");
    check(w.contains(CfgNavX5Params1::AOP_CFG) == (v & 16384 == 16384), "CfgNavX5.mask1 contains AOP_CFG");
    cover("CfgNavX5Params1");
    let (v, w) = (u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as u64, r.mask2());
    check(w.bits() as u64 == v, "CfgNavX5.mask2: no bit is lost");
    check(w.contains(CfgNavX5Params2::USE_ADR) == (v & 64 == 64), "CfgNavX5.mask2 contains USE_ADR");
    check(w.contains(CfgNavX5Params2::USE_SIG_ATTEN_COMP) == (v & 128 == 128), "CfgNavX5.mask2 contains USE_SIG_ATTEN_COMP");
    cover("CfgNavX5Params2");
}
pub fn names_RxmRawx(r: &RxmRawxRef, p: &[u8]) {
    let (v, w) = (p[12] as u64, r.rec_stat());
    check(w.bits() as u64 == v, "RxmRawx.rec_stat: no bit is lost");
    check(w.contains(RecStatFlags::LEAP_SEC) == (v & 1 == 1), "RxmRawx.rec_stat contains LEAP_SEC");
    check(w.contains(RecStatFlags::CLK_RESET) == (v & 2 == 2), "RxmRawx.rec_stat contains CLK_RESET");
    cover("RecStatFlags");
}
pub fn names_TimTp(r: &TimTpRef, p: &[u8]) {
    let v = p[14] as u64;
    let q = v & 1;
    check(match r.flags().time_base() { TimTpTimeBase::Gnss => 0, TimTpTimeBase::Utc => 1, #[allow(unreachable_patterns)] _ => 999 } == q, "TimTp.flags.time_base");
    check(r.flags().utc_available() == ((v >> 1) & 1 == 1), "TimTp.flags.utc_available");
    check(r.flags().raim_active().map_or(9, |x| x as u64) == (match (v >> 2) & 3 { 1 => 0, 2 => 1, _ => 9 }), "TimTp.flags.raim_active");
    check(r.flags().q_err_valid() == ((v >> 4) & 1 == 0), "TimTp.flags.q_err_valid");
    cover("TimTpFlags");
    let v = p[15] as u64;
    let q = v & 15;
    check(r.ref_info().time_ref_gnss().map_or(999, |x| match x { TimTpRefInfoTimeRefGnss::Gps => 0, TimTpRefInfoTimeRefGnss::Glo => 1, TimTpRefInfoTimeRefGnss::Bds => 2, TimTpRefInfoTimeRefGnss::Gal => 3, TimTpRefInfoTimeRefGnss::NavIc => 4, #[allow(unreachable_patterns)] _ => 999 }) == match q { 0 | 1 | 2 | 3 | 4 => q, _ => 999 }, "TimTp.ref_info.time_ref_gnss");
    let q = (v >> 4) & 15;
    check(r.ref_info().utc_standard().map_or(999, |x| match x { TimTpRefInfoUtcStandard::Crl => 1, TimTpRefInfoUtcStandard::Nist => 2, TimTpRefInfoUtcStandard::Usno => 3, TimTpRefInfoUtcStandard::Bipm => 4, TimTpRefInfoUtcStandard::Eu => 5, TimTpRefInfoUtcStandard::Su => 6, TimTpRefInfoUtcStandard::Ntsc => 7, TimTpRefInfoUtcStandard::Npli => 8, #[allow(unreachable_patterns)] _ => 999 }) == match q { 1 | 2 | 3 | 4 | 5 | 6 | 7 | 8 => q, _ => 999 }, "TimTp.ref_info.utc_standard");
    cover("TimTpRefInfo");
}
pub fn names_TimTm2(r: &TimTm2Ref, p: &[u8]) {
    let v = p[1] as u64;
    let q = v & 1;
    check(match r.flags().mode() { TimTm2Mode::Single => 0, TimTm2Mode::Running => 1, #[allow(unreachable_patterns)] _ => 999 } == q, "TimTm2.flags.mode");
    let q = (v >> 1) & 1;
    check(match r.flags().run() { TimTm2Run::Armed => 0, TimTm2Run::Stopped => 1, #[allow(unreachable_patterns)] _ => 999 } == q, "TimTm2.flags.run");
    check(r.flags().new_falling_edge() == ((v >> 2) & 1 == 1), "TimTm2.flags.new_falling_edge");
    let q = (v >> 3) & 3;
    check(match r.flags().time_base() { TimTm2TimeBase::Receiver => 0, TimTm2TimeBase::Gnss => 1, TimTm2TimeBase::Utc => 2, TimTm2TimeBase::Reserved => 3, #[allow(unreachable_patterns)] _ => 999 } == q, "TimTm2.flags.time_base");
    check(r.flags().utc_available() == ((v >> 5) & 1 == 1), "TimTm2.flags.utc_available");
    check(r.flags().time_valid() == ((v >> 6) & 1 == 1), "TimTm2.flags.time_valid");
    check(r.flags().new_rising_edge() == ((v >> 7) & 1 == 1), "TimTm2.flags.new_rising_edge");
    cover("TimTm2Flags");
}
pub fn names_MonGnss(r: &MonGnssRef, p: &[u8]) {
    let (v, w) = (p[1] as u64, r.supported());
    check(w.bits() as u64 == v, "MonGnss.supported: no bit is lost");
    check(w.contains(MonGnssConstellMask::GPS) == (v & 1 == 1), "MonGnss.supported contains GPS");
    check(w.contains(MonGnssConstellMask::GLO) == (v & 2 == 2), "MonGnss.supported contains GLO");
    check(w.contains(MonGnssConstellMask::BDC) == (v & 4 == 4), "MonGnss.supported contains BDC");
    check(w.contains(MonGnssConstellMask::GAL) == (v & 8 == 8), "MonGnss.supported contains GAL");
    cover("MonGnssConstellMask");
    let (v, w) = (p[2] as u64, r.default());
    check(w.bits() as u64 == v, "MonGnss.default: no bit is lost");
    check(w.contains(MonGnssConstellMask::GPS) == (v & 1 == 1), "MonGnss.default contains GPS");
    check(w.contains(MonGnssConstellMask::GLO) == (v & 2 == 2), "MonGnss.default contains GLO");
    check(w.contains(MonGnssConstellMask::BDC) == (v & 4 == 4), "MonGnss.default contains BDC");
    check(w.contains(MonGnssConstellMask::GAL) == (v & 8 == 8), "MonGnss.default contains GAL");
    cover("MonGnssConstellMask");
    let (v, w) = (p[3] as u64, r.enabled());
    check(w.bits() as u64 == v, "MonGnss.enabled: no bit is lost");
    check(w.contains(MonGnssConstellMask::GPS) == (v & 1 == 1), "MonGnss.enabled contains GPS");
    check(w.contains(MonGnssConstellMask::GLO) == (v & 2 == 2), "MonGnss.enabled contains GLO");
    check(w.contains(MonGnssConstellMask::BDC) == (v & 4 == 4), "MonGnss.enabled contains BDC");
    check(w.contains(MonGnssConstellMask::GAL) == (v & 8 == 8), "MonGnss.enabled contains GAL");
    cover("MonGnssConstellMask");
}
pub fn names_MonHw(r: &MonHwRef, p: &[u8]) {
    let (v, e) = (p[20] as u64, r.a_status());
    let k = match e { AntennaStatus::Init => 0, AntennaStatus::DontKnow => 1, AntennaStatus::Ok => 2, AntennaStatus::Short => 3, AntennaStatus::Open => 4, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 | 3 | 4 => v, _ => 999 }, "MonHw.a_status: each number has its name, and no other");
    check(e as u64 == v, "MonHw.a_status: distinct numbers stay distinct");
    cover("AntennaStatus");
    let (v, e) = (p[21] as u64, r.a_power());
    let k = match e { AntennaPower::Off => 0, AntennaPower::On => 1, AntennaPower::DontKnow => 2, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 => v, _ => 999 }, "MonHw.a_power: each number has its name, and no other");
    check(e as u64 == v, "MonHw.a_power: distinct numbers stay distinct");
    cover("AntennaPower");
}
pub fn names_EsfIns(r: &EsfInsRef, p: &[u8]) {
    let (v, w) = (u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as u64, r.bit_field());
    check(w.bits() as u64 == v, "EsfIns.bit_field: no bit is lost");
    check(w.contains(EsfInsBitFlags::VERSION) == (v & 1 == 1), "EsfIns.bit_field contains VERSION");
    check(w.contains(EsfInsBitFlags::X_ANG_RATE_VALID) == (v & 256 == 256), "EsfIns.bit_field contains X_ANG_RATE_VALID");
    check(w.contains(EsfInsBitFlags::Y_ANG_RATE_VALID) == (v & 512 == 512), "EsfIns.bit_field contains Y_ANG_RATE_VALID");
    check(w.contains(EsfInsBitFlags::Z_ANG_RATE_VALID) == (v & 1024 == 1024), "EsfIns.bit_field contains Z_ANG_RATE_VALID");
    check(w.contains(EsfInsBitFlags::X_ACCEL_VALID) == (v & 2048 == 2048), "EsfIns.bit_field contains X_ACCEL_VALID");
    check(w.contains(EsfInsBitFlags::Y_ACCEL_VALID) == (v & 4096 == 4096), "EsfIns.bit_field contains Y_ACCEL_VALID");
    check(w.contains(EsfInsBitFlags::Z_ACCEL_VALID) == (v & 8192 == 8192), "EsfIns.bit_field contains Z_ACCEL_VALID");
    cover("EsfInsBitFlags");
}
pub fn names_HnrIns(r: &HnrInsRef, p: &[u8]) {
    let (v, w) = (u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as u64, r.bit_field());
    check(w.bits() as u64 == v, "HnrIns.bit_field: no bit is lost");
    check(w.contains(HnrInsBitFlags::VERSION) == (v & 1 == 1), "HnrIns.bit_field contains VERSION");
    check(w.contains(HnrInsBitFlags::X_ANG_RATE_VALID) == (v & 256 == 256), "HnrIns.bit_field contains X_ANG_RATE_VALID");
    check(w.contains(HnrInsBitFlags::Y_ANG_RATE_VALID) == (v & 512 == 512), "HnrIns.bit_field contains Y_ANG_RATE_VALID");
    check(w.contains(HnrInsBitFlags::Z_ANG_RATE_VALID) == (v & 1024 == 1024), "HnrIns.bit_field contains Z_ANG_RATE_VALID");
    check(w.contains(HnrInsBitFlags::X_ACCEL_VALID) == (v & 2048 == 2048), "HnrIns.bit_field contains X_ACCEL_VALID");
    check(w.contains(HnrInsBitFlags::Y_ACCEL_VALID) == (v & 4096 == 4096), "HnrIns.bit_field contains Y_ACCEL_VALID");
    check(w.contains(HnrInsBitFlags::Z_ACCEL_VALID) == (v & 8192 == 8192), "HnrIns.bit_field contains Z_ACCEL_VALID");
    cover("HnrInsBitFlags");
}
pub fn names_HnrPvt(r: &HnrPvtRef, p: &[u8]) {
    let (v, w) = (p[11] as u64, r.valid());
    check(w.bits() as u64 == v, "HnrPvt.valid: no bit is lost");
    check(w.contains(HnrPvtValidFlags::VALID_DATE) == (v & 1 == 1), "HnrPvt.valid contains VALID_DATE");
    check(w.contains(HnrPvtValidFlags::VALID_TIME) == (v & 2 == 2), "HnrPvt.valid contains VALID_TIME");
    check(w.contains(HnrPvtValidFlags::FULLY_RESOLVED) == (v & 4 == 4), "HnrPvt.valid contains FULLY_RESOLVED");
    cover("HnrPvtValidFlags");
    let (v, e) = (p[16] as u64, r.gps_fix());
    let k = match e { GpsFix::NoFix => 0, GpsFix::DeadReckoningOnly => 1, GpsFix::Fix2D => 2, GpsFix::Fix3D => 3, GpsFix::GPSPlusDeadReckoning => 4, GpsFix::TimeOnlyFix => 5, #[allow(unreachable_patterns)] _ => 999 };
    check(k == match v { 0 | 1 | 2 | 3 | 4 | 5 => v, _ => 999 }, "HnrPvt.gps_fix: each number has its name, and no other");
    check(e as u64 == v, "HnrPvt.gps_fix: distinct numbers stay distinct");
    cover("GpsFix");
    let (v, w) = (p[17] as u64, r.flags());
    check(w.bits() as u64 == v, "HnrPvt.flags: no bit is lost");
    check(w.contains(HnrPvtFlags::GPS_FIX_OK) == (v & 1 == 1), "HnrPvt.flags contains GPS_FIX_OK");
    check(w.contains(HnrPvtFlags::DIFF_SOLN) == (v & 2 == 2), "HnrPvt.flags contains DIFF_SOLN");
    check(w.contains(HnrPvtFlags::WKN_SET) == (v & 4 == 4), "HnrPvt.flags contains WKN_SET");
    check(w.contains(HnrPvtFlags::TOW_SET) == (v & 8 == 8), "HnrPvt.flags contains TOW_SET");
    check(w.contains(HnrPvtFlags::HEAD_VEH_VALID) == (v & 16 == 16), "HnrPvt.flags contains HEAD_VEH_VALID");
    cover("HnrPvtFlags");
}
pub fn names_NavSatSvInfo(r: &NavSatSvInfoRef, p: &[u8]) {
    let v = u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as u64;
    let q = (v & 7).min(5);
    check(match r.flags().quality_ind() { NavSatQualityIndicator::NoSignal => 0, NavSatQualityIndicator::Searching => 1, NavSatQualityIndicator::SignalAcquired => 2, NavSatQualityIndicator::SignalDetected => 3, NavSatQualityIndicator::CodeLock => 4, NavSatQualityIndicator::CarrierLock => 5, #[allow(unreachable_patterns)] _ => 999 } == q, "NavSatSvInfo.flags.quality_ind");
    check(r.flags().sv_used() == ((v >> 3) & 1 == 1), "NavSatSvInfo.flags.sv_used");
    check(r.flags().differential_correction_available() == ((v >> 6) & 1 == 1), "NavSatSvInfo.flags.differential_correction_available");
    check(r.flags().smoothed() == ((v >> 7) & 1 == 1), "NavSatSvInfo.flags.smoothed");
    check(r.flags().ephemeris_available() == ((v >> 11) & 1 == 1), "NavSatSvInfo.flags.ephemeris_available");
    check(r.flags().almanac_available() == ((v >> 12) & 1 == 1), "NavSatSvInfo.flags.almanac_available");
    check(r.flags().an_offline_available() == ((v >> 13) & 1 == 1), "NavSatSvInfo.flags.an_offline_available");
    check(r.flags().an_auto_available() == ((v >> 14) & 1 == 1), "NavSatSvInfo.flags.an_auto_available");
    check(r.flags().sbas_corr() == ((v >> 16) & 1 == 1), "NavSatSvInfo.flags.sbas_corr");
    check(r.flags().rtcm_corr() == ((v >> 17) & 1 == 1), "NavSatSvInfo.flags.rtcm_corr");
    check(r.flags().slas_corr() == ((v >> 18) & 1 == 1), "NavSatSvInfo.flags.slas_corr");
    check(r.flags().spartn_corr() == ((v >> 19) & 1 == 1), "NavSatSvInfo.flags.spartn_corr");
    check(r.flags().pr_corr() == ((v >> 20) & 1 == 1), "NavSatSvInfo.flags.pr_corr");
    check(r.flags().cr_corr() == ((v >> 21) & 1 == 1), "NavSatSvInfo.flags.cr_corr");
    check(r.flags().do_corr() == ((v >> 22) & 1 == 1), "NavSatSvInfo.flags.do_corr");
    let q = (v >> 4) & 3;
    check(match r.flags().health() { NavSatSvHealth::Healthy => 1, NavSatSvHealth::Unhealthy => 2, NavSatSvHealth::Unknown(x) => x as u64, #[allow(unreachable_patterns)] _ => 999 } == q, "NavSatSvInfo.flags.health");
    let q = (v >> 8) & 7;
    check(match r.flags().orbit_source() { NavSatOrbitSource::NoInfoAvailable => 0, NavSatOrbitSource::Ephemeris => 1, NavSatOrbitSource::Almanac => 2, NavSatOrbitSource::AssistNowOffline => 3, NavSatOrbitSource::AssistNowAutonomous => 4, NavSatOrbitSource::Other(x) => x as u64, #[allow(unreachable_patterns)] _ => 999 } == q, "NavSatSvInfo.flags.orbit_source");
    cover("NavSatSvFlags");
}
pub fn names_RxmRawxInfo(r: &RxmRawxInfoRef, p: &[u8]) {
    let (v, w) = (p[27] as u64, r.pr_stdev());
    check(w.bits() as u64 == v, "RxmRawxInfo.pr_stdev: no bit is lost");
    check(w.contains(StdevFlags::STD_1) == (v & 1 == 1), "RxmRawxInfo.pr_stdev contains STD_1");
    check(w.contains(StdevFlags::STD_2) == (v & 2 == 2), "RxmRawxInfo.pr_stdev contains STD_2");
    check(w.contains(StdevFlags::STD_3) == (v & 4 == 4), "RxmRawxInfo.pr_stdev contains STD_3");
    check(w.contains(StdevFlags::STD_4) == (v & 8 == 8), "RxmRawxInfo.pr_stdev contains STD_4");
    cover("StdevFlags");
    let (v, w) = (p[28] as u64, r.cp_stdev());
    check(w.bits() as u64 == v, "RxmRawxInfo.cp_stdev: no bit is lost");
    check(w.contains(StdevFlags::STD_1) == (v & 1 == 1), "RxmRawxInfo.cp_stdev contains STD_1");
    check(w.contains(StdevFlags::STD_2) == (v & 2 == 2), "RxmRawxInfo.cp_stdev contains STD_2");
    check(w.contains(StdevFlags::STD_3) == (v & 4 == 4), "RxmRawxInfo.cp_stdev contains STD_3");
    check(w.contains(StdevFlags::STD_4) == (v & 8 == 8), "RxmRawxInfo.cp_stdev contains STD_4");
    cover("StdevFlags");
    let (v, w) = (p[29] as u64, r.do_stdev());
    check(w.bits() as u64 == v, "RxmRawxInfo.do_stdev: no bit is lost");
    check(w.contains(StdevFlags::STD_1) == (v & 1 == 1), "RxmRawxInfo.do_stdev contains STD_1");
    check(w.contains(StdevFlags::STD_2) == (v & 2 == 2), "RxmRawxInfo.do_stdev contains STD_2");
    check(w.contains(StdevFlags::STD_3) == (v & 4 == 4), "RxmRawxInfo.do_stdev contains STD_3");
    check(w.contains(StdevFlags::STD_4) == (v & 8 == 8), "RxmRawxInfo.do_stdev contains STD_4");
    cover("StdevFlags");
    let (v, w) = (p[30] as u64, r.trk_stat());
    check(w.bits() as u64 == v, "RxmRawxInfo.trk_stat: no bit is lost");
    check(w.contains(TrkStatFlags::PR_VALID) == (v & 1 == 1), "RxmRawxInfo.trk_stat contains PR_VALID");
    check(w.contains(TrkStatFlags::CP_VALID) == (v & 2 == 2), "RxmRawxInfo.trk_stat contains CP_VALID");
    check(w.contains(TrkStatFlags::HALF_CYCLE) == (v & 4 == 4), "RxmRawxInfo.trk_stat contains HALF_CYCLE");
    check(w.contains(TrkStatFlags::SUB_HALF_CYCLE) == (v & 8 == 8), "RxmRawxInfo.trk_stat contains SUB_HALF_CYCLE");
    cover("TrkStatFlags");
}
/// messages with named values (indices into the table of receivable messages)
pub const NAMED: [usize; 26] = [1, 3, 4, 7, 8, 9, 13, 14, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 37, 38, 39, 41, 42, 45, 47, 48];
pub fn names(pk: &PacketRef, p: &[u8]) {
    match pk {
        PacketRef::NavStatus(r) => names_NavStatus(r, p),
        PacketRef::NavPvt(r) => names_NavPvt(r, p),
        PacketRef::NavSolution(r) => names_NavSolution(r, p),
        PacketRef::NavHpPosEcef(r) => names_NavHpPosEcef(r, p),
        PacketRef::NavTimeUTC(r) => names_NavTimeUTC(r, p),
        PacketRef::NavTimeLs(r) => names_NavTimeLs(r, p),
        PacketRef::CfgOdo(r) => names_CfgOdo(r, p),
        PacketRef::MgaAck(r) => names_MgaAck(r, p),
        PacketRef::CfgPrtI2c(r) => names_CfgPrtI2c(r, p),
        PacketRef::CfgPrtSpi(r) => names_CfgPrtSpi(r, p),
        PacketRef::CfgPrtUart(r) => names_CfgPrtUart(r, p),
        PacketRef::CfgNav5(r) => names_CfgNav5(r, p),
        PacketRef::CfgAnt(r) => names_CfgAnt(r, p),
        PacketRef::CfgTmode2(r) => names_CfgTmode2(r, p),
        PacketRef::CfgTmode3(r) => names_CfgTmode3(r, p),
        PacketRef::CfgTp5(r) => names_CfgTp5(r, p),
        PacketRef::CfgInf(r) => names_CfgInf(r, p),
        PacketRef::CfgNavX5(r) => names_CfgNavX5(r, p),
        PacketRef::RxmRawx(r) => names_RxmRawx(r, p),
        PacketRef::TimTp(r) => names_TimTp(r, p),
        PacketRef::TimTm2(r) => names_TimTm2(r, p),
        PacketRef::MonGnss(r) => names_MonGnss(r, p),
        PacketRef::MonHw(r) => names_MonHw(r, p),
        PacketRef::EsfIns(r) => names_EsfIns(r, p),
        PacketRef::HnrIns(r) => names_HnrIns(r, p),
        PacketRef::HnrPvt(r) => names_HnrPvt(r, p),
        _ => {}
    }
}
/// the constants of the flag words
pub const CONSTANTS: u32 = 140;
pub fn constant(i: u32) {
    match i {
        0 => check(NavHpPosEcefFlags::INVALID_ECEF.bits() as u64 == 1, "NavHpPosEcefFlags::INVALID_ECEF is the protocol's value"),
        1 => check(NavPvtFlags::GPS_FIX_OK.bits() as u64 == 1, "NavPvtFlags::GPS_FIX_OK is the protocol's value"),
        2 => check(NavPvtFlags::DIFF_SOLN.bits() as u64 == 2, "NavPvtFlags::DIFF_SOLN is the protocol's value"),
        3 => check(NavPvtFlags::HEAD_VEH_VALID.bits() as u64 == 32, "NavPvtFlags::HEAD_VEH_VALID is the protocol's value"),
        4 => check(NavPvtFlags::CARR_SOLN_FLOAT.bits() as u64 == 64, "NavPvtFlags::CARR_SOLN_FLOAT is the protocol's value"),
        5 => check(NavPvtFlags::CARR_SOLN_FIXED.bits() as u64 == 128, "NavPvtFlags::CARR_SOLN_FIXED is the protocol's value"),
        6 => check(NavPvtFlags2::CONFIRMED_AVAI.bits() as u64 == 32, "NavPvtFlags2::CONFIRMED_AVAI is the protocol's value"),
        7 => check(NavPvtFlags2::CONFIRMED_DATE.bits() as u64 == 64, "NavPvtFlags2::CONFIRMED_DATE is the protocol's value"),
        8 => check(NavPvtFlags2::CONFIRMED_TIME.bits() as u64 == 128, "NavPvtFlags2::CONFIRMED_TIME is the protocol's value"),
        9 => check(NavStatusFlags::GPS_FIX_OK.bits() as u64 == 1, "NavStatusFlags::GPS_FIX_OK is the protocol's value"),
        10 => check(NavStatusFlags::DIFF_SOLN.bits() as u64 == 2, "NavStatusFlags::DIFF_SOLN is the protocol's value"),
        11 => check(NavStatusFlags::WKN_SET.bits() as u64 == 4, "NavStatusFlags::WKN_SET is the protocol's value"),
        12 => check(NavStatusFlags::TOW_SET.bits() as u64 == 8, "NavStatusFlags::TOW_SET is the protocol's value"),
        13 => check(OdoCogFilterFlags::USE_ODO.bits() as u64 == 1, "OdoCogFilterFlags::USE_ODO is the protocol's value"),
        14 => check(OdoCogFilterFlags::USE_COG.bits() as u64 == 2, "OdoCogFilterFlags::USE_COG is the protocol's value"),
        15 => check(OdoCogFilterFlags::OUT_LP_VEL.bits() as u64 == 4, "OdoCogFilterFlags::OUT_LP_VEL is the protocol's value"),
        16 => check(OdoCogFilterFlags::OUT_LP_COG.bits() as u64 == 8, "OdoCogFilterFlags::OUT_LP_COG is the protocol's value"),
        17 => check(CfgInfMask::ERROR.bits() as u64 == 1, "CfgInfMask::ERROR is the protocol's value"),
        18 => check(CfgInfMask::WARNING.bits() as u64 == 2, "CfgInfMask::WARNING is the protocol's value"),
        19 => check(CfgInfMask::NOTICE.bits() as u64 == 4, "CfgInfMask::NOTICE is the protocol's value"),
        20 => check(CfgInfMask::TEST.bits() as u64 == 8, "CfgInfMask::TEST is the protocol's value"),
        21 => check(CfgInfMask::DEBUG.bits() as u64 == 16, "CfgInfMask::DEBUG is the protocol's value"),
        22 => check(AntFlags::SVCS.bits() as u64 == 1, "AntFlags::SVCS is the protocol's value"),
        23 => check(AntFlags::SCD.bits() as u64 == 2, "AntFlags::SCD is the protocol's value"),
        24 => check(AntFlags::OCD.bits() as u64 == 4, "AntFlags::OCD is the protocol's value"),
        25 => check(AntFlags::PDWN_ON_SCD.bits() as u64 == 8, "AntFlags::PDWN_ON_SCD is the protocol's value"),
        26 => check(AntFlags::RECOVERY.bits() as u64 == 16, "AntFlags::RECOVERY is the protocol's value"),
        27 => check(CfgTmode2Flags::LLA.bits() as u64 == 1, "CfgTmode2Flags::LLA is the protocol's value"),
        28 => check(CfgTmode2Flags::ALT_INVALID.bits() as u64 == 2, "CfgTmode2Flags::ALT_INVALID is the protocol's value"),
        29 => check(NavTimeLsFlags::VALID_CURR_LS.bits() as u64 == 1, "NavTimeLsFlags::VALID_CURR_LS is the protocol's value"),
        30 => check(NavTimeLsFlags::VALID_TIME_TO_LS_EVENT.bits() as u64 == 2, "NavTimeLsFlags::VALID_TIME_TO_LS_EVENT is the protocol's value"),
        31 => check(CfgTmode3RcvrMode::DISABLED.bits() as u64 == 0, "CfgTmode3RcvrMode::DISABLED is the protocol's value"),
        32 => check(CfgTmode3RcvrMode::DISABLED.bits() as u64 == 0 || CfgTmode3RcvrMode::DISABLED.bits() as u64 == 1, "CfgTmode3RcvrMode::DISABLED is one of two known values"),
        33 => check(CfgTmode3RcvrMode::SURVEY_IN.bits() as u64 == 1, "CfgTmode3RcvrMode::SURVEY_IN is the protocol's value"),
        34 => check(CfgTmode3RcvrMode::SURVEY_IN.bits() as u64 == 1 || CfgTmode3RcvrMode::SURVEY_IN.bits() as u64 == 2, "CfgTmode3RcvrMode::SURVEY_IN is one of two known values"),
        35 => check(CfgTmode3RcvrMode::FIXED_MODE.bits() as u64 == 2, "CfgTmode3RcvrMode::FIXED_MODE is the protocol's value"),
        36 => check(CfgTmode3RcvrMode::FIXED_MODE.bits() as u64 == 2 || CfgTmode3RcvrMode::FIXED_MODE.bits() as u64 == 4, "CfgTmode3RcvrMode::FIXED_MODE is one of two known values"),
        37 => check(CfgTp5Flags::ACTIVE.bits() as u64 == 1, "CfgTp5Flags::ACTIVE is the protocol's value"),
        38 => check(CfgTp5Flags::LOCK_GNSS_FREQ.bits() as u64 == 2, "CfgTp5Flags::LOCK_GNSS_FREQ is the protocol's value"),
        39 => check(CfgTp5Flags::LOCKED_OTHER_SET.bits() as u64 == 4, "CfgTp5Flags::LOCKED_OTHER_SET is the protocol's value"),
        40 => check(CfgTp5Flags::IS_FREQ.bits() as u64 == 8, "CfgTp5Flags::IS_FREQ is the protocol's value"),
        41 => check(CfgTp5Flags::IS_LENGTH.bits() as u64 == 16, "CfgTp5Flags::IS_LENGTH is the protocol's value"),
        42 => check(CfgTp5Flags::ALIGN_TO_TOW.bits() as u64 == 32, "CfgTp5Flags::ALIGN_TO_TOW is the protocol's value"),
        43 => check(CfgTp5Flags::POLARITY.bits() as u64 == 64, "CfgTp5Flags::POLARITY is the protocol's value"),
        44 => check(CfgTp5Flags::UTC_TIME_GRID.bits() as u64 == 0, "CfgTp5Flags::UTC_TIME_GRID is the protocol's value"),
        45 => check(CfgTp5Flags::UTC_TIME_GRID.bits() as u64 == 0 || CfgTp5Flags::UTC_TIME_GRID.bits() as u64 == 128, "CfgTp5Flags::UTC_TIME_GRID is one of two known values"),
        46 => check(CfgTp5Flags::GPS_TIME_GRID.bits() as u64 == 128, "CfgTp5Flags::GPS_TIME_GRID is the protocol's value"),
        47 => check(CfgTp5Flags::GPS_TIME_GRID.bits() as u64 == 128 || CfgTp5Flags::GPS_TIME_GRID.bits() as u64 == 256, "CfgTp5Flags::GPS_TIME_GRID is one of two known values"),
        48 => check(CfgTp5Flags::GLO_TIME_GRID.bits() as u64 == 256, "CfgTp5Flags::GLO_TIME_GRID is the protocol's value"),
        49 => check(CfgTp5Flags::GLO_TIME_GRID.bits() as u64 == 256 || CfgTp5Flags::GLO_TIME_GRID.bits() as u64 == 512, "CfgTp5Flags::GLO_TIME_GRID is one of two known values"),
        50 => check(CfgTp5Flags::BDS_TIME_GRID.bits() as u64 == 384, "CfgTp5Flags::BDS_TIME_GRID is the protocol's value"),
        51 => check(CfgTp5Flags::BDS_TIME_GRID.bits() as u64 == 384 || CfgTp5Flags::BDS_TIME_GRID.bits() as u64 == 1024, "CfgTp5Flags::BDS_TIME_GRID is one of two known values"),
        52 => check(CfgTp5Flags::GAL_TIME_GRID.bits() as u64 == 512, "CfgTp5Flags::GAL_TIME_GRID is the protocol's value"),
        53 => check(CfgTp5Flags::GAL_TIME_GRID.bits() as u64 == 512 || CfgTp5Flags::GAL_TIME_GRID.bits() as u64 == 2048, "CfgTp5Flags::GAL_TIME_GRID is one of two known values"),
        54 => check(CfgTp5Flags::SYNC_MODE_0.bits() as u64 == 0, "CfgTp5Flags::SYNC_MODE_0 is the protocol's value"),
        55 => check(CfgTp5Flags::SYNC_MODE_0.bits() as u64 == 0 || CfgTp5Flags::SYNC_MODE_0.bits() as u64 == 4096, "CfgTp5Flags::SYNC_MODE_0 is one of two known values"),
        56 => check(CfgTp5Flags::SYNC_MODE_1.bits() as u64 == 2048, "CfgTp5Flags::SYNC_MODE_1 is the protocol's value"),
        57 => check(CfgTp5Flags::SYNC_MODE_1.bits() as u64 == 2048 || CfgTp5Flags::SYNC_MODE_1.bits() as u64 == 8192, "CfgTp5Flags::SYNC_MODE_1 is one of two known values"),
        58 => check(CfgTmode3Flags::LLA.bits() as u64 == 1, "CfgTmode3Flags::LLA is the protocol's value"),
        59 => check(NavBbrMask::EPHEMERIS.bits() as u64 == 1, "NavBbrMask::EPHEMERIS is the protocol's value"),
        60 => check(NavBbrMask::ALMANACH.bits() as u64 == 2, "NavBbrMask::ALMANACH is the protocol's value"),
        61 => check(NavBbrMask::HEALTH.bits() as u64 == 4, "NavBbrMask::HEALTH is the protocol's value"),
        62 => check(NavBbrMask::KLOBUCHARD.bits() as u64 == 8, "NavBbrMask::KLOBUCHARD is the protocol's value"),
        63 => check(NavBbrMask::POSITION.bits() as u64 == 16, "NavBbrMask::POSITION is the protocol's value"),
        64 => check(NavBbrMask::CLOCK_DRIFT.bits() as u64 == 32, "NavBbrMask::CLOCK_DRIFT is the protocol's value"),
        65 => check(NavBbrMask::OSCILATOR_PARAMETER.bits() as u64 == 64, "NavBbrMask::OSCILATOR_PARAMETER is the protocol's value"),
        66 => check(NavBbrMask::UTC_CORRECTION_PARAMETERS.bits() as u64 == 128, "NavBbrMask::UTC_CORRECTION_PARAMETERS is the protocol's value"),
        67 => check(NavBbrMask::RTC.bits() as u64 == 256, "NavBbrMask::RTC is the protocol's value"),
        68 => check(NavBbrMask::SFDR_PARAMETERS.bits() as u64 == 2048, "NavBbrMask::SFDR_PARAMETERS is the protocol's value"),
        69 => check(NavBbrMask::SFDR_VEHICLE_MONITORING_PARAMETERS.bits() as u64 == 4096, "NavBbrMask::SFDR_VEHICLE_MONITORING_PARAMETERS is the protocol's value"),
        70 => check(NavBbrMask::TCT_PARAMETERS.bits() as u64 == 8192, "NavBbrMask::TCT_PARAMETERS is the protocol's value"),
        71 => check(NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS.bits() as u64 == 32768, "NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS is the protocol's value"),
        72 => check(CfgLayer::RAM.bits() as u64 == 1, "CfgLayer::RAM is the protocol's value"),
        73 => check(CfgLayer::BBR.bits() as u64 == 2, "CfgLayer::BBR is the protocol's value"),
        74 => check(CfgLayer::FLASH.bits() as u64 == 4, "CfgLayer::FLASH is the protocol's value"),
        75 => check(InProtoMask::UBLOX.bits() as u64 == 1, "InProtoMask::UBLOX is the protocol's value"),
        76 => check(InProtoMask::NMEA.bits() as u64 == 2, "InProtoMask::NMEA is the protocol's value"),
        77 => check(InProtoMask::RTCM.bits() as u64 == 4, "InProtoMask::RTCM is the protocol's value"),
        78 => check(InProtoMask::RTCM3.bits() as u64 == 32, "InProtoMask::RTCM3 is the protocol's value"),
        79 => check(OutProtoMask::UBLOX.bits() as u64 == 1, "OutProtoMask::UBLOX is the protocol's value"),
        80 => check(OutProtoMask::NMEA.bits() as u64 == 2, "OutProtoMask::NMEA is the protocol's value"),
        81 => check(OutProtoMask::RTCM3.bits() as u64 == 32, "OutProtoMask::RTCM3 is the protocol's value"),
        82 => check(NavTimeUtcFlags::VALID_TOW.bits() as u64 == 1, "NavTimeUtcFlags::VALID_TOW is the protocol's value"),
        83 => check(NavTimeUtcFlags::VALID_WKN.bits() as u64 == 2, "NavTimeUtcFlags::VALID_WKN is the protocol's value"),
        84 => check(NavTimeUtcFlags::VALID_UTC.bits() as u64 == 4, "NavTimeUtcFlags::VALID_UTC is the protocol's value"),
        85 => check(CfgNav5Params::DYN.bits() as u64 == 1, "CfgNav5Params::DYN is the protocol's value"),
        86 => check(CfgNav5Params::MIN_EL.bits() as u64 == 2, "CfgNav5Params::MIN_EL is the protocol's value"),
        87 => check(CfgNav5Params::POS_FIX_MODE.bits() as u64 == 4, "CfgNav5Params::POS_FIX_MODE is the protocol's value"),
        88 => check(CfgNav5Params::DR_LIM.bits() as u64 == 8, "CfgNav5Params::DR_LIM is the protocol's value"),
        89 => check(CfgNav5Params::POS_MASK_APPLY.bits() as u64 == 16, "CfgNav5Params::POS_MASK_APPLY is the protocol's value"),
        90 => check(CfgNav5Params::TIME_MASK.bits() as u64 == 32, "CfgNav5Params::TIME_MASK is the protocol's value"),
        91 => check(CfgNav5Params::STATIC_HOLD_MASK.bits() as u64 == 64, "CfgNav5Params::STATIC_HOLD_MASK is the protocol's value"),
        92 => check(CfgNav5Params::DGPS_MASK.bits() as u64 == 128, "CfgNav5Params::DGPS_MASK is the protocol's value"),
        93 => check(CfgNav5Params::CNO_THRESHOLD.bits() as u64 == 256, "CfgNav5Params::CNO_THRESHOLD is the protocol's value"),
        94 => check(CfgNav5Params::UTC.bits() as u64 == 1024, "CfgNav5Params::UTC is the protocol's value"),
        95 => check(CfgNavX5Params1::MIN_MAX.bits() as u64 == 4, "CfgNavX5Params1::MIN_MAX is the protocol's value"),
        96 => check(CfgNavX5Params1::MIN_CNO.bits() as u64 == 8, "CfgNavX5Params1::MIN_CNO is the protocol's value"),
        97 => check(CfgNavX5Params1::INITIAL_3D_FIX.bits() as u64 == 64, "CfgNavX5Params1::INITIAL_3D_FIX is the protocol's value"),
        98 => check(CfgNavX5Params1::WKN_ROLL.bits() as u64 == 512, "CfgNavX5Params1::WKN_ROLL is the protocol's value"),
        99 => check(CfgNavX5Params1::AID_ACK.bits() as u64 == 1024, "CfgNavX5Params1::AID_ACK is the protocol's value"),
        100 => check(CfgNavX5Params1::USE_PPP.bits() as u64 == 8192, "CfgNavX5Params1::USE_PPP is the protocol's value"),
        101 => check(CfgNavX5Params1::AOP_CFG.bits() as u64 == 16384, "CfgNavX5Params1::AOP_CFG is the protocol's value"),
        102 => check(CfgNavX5Params2::USE_ADR.bits() as u64 == 64, "CfgNavX5Params2::USE_ADR is the protocol's value"),
        103 => check(CfgNavX5Params2::USE_SIG_ATTEN_COMP.bits() as u64 == 128, "CfgNavX5Params2::USE_SIG_ATTEN_COMP is the protocol's value"),
        104 => check(RecStatFlags::LEAP_SEC.bits() as u64 == 1, "RecStatFlags::LEAP_SEC is the protocol's value"),
        105 => check(RecStatFlags::CLK_RESET.bits() as u64 == 2, "RecStatFlags::CLK_RESET is the protocol's value"),
        106 => check(MonGnssConstellMask::GPS.bits() as u64 == 1, "MonGnssConstellMask::GPS is the protocol's value"),
        107 => check(MonGnssConstellMask::GLO.bits() as u64 == 2, "MonGnssConstellMask::GLO is the protocol's value"),
        108 => check(MonGnssConstellMask::BDC.bits() as u64 == 4, "MonGnssConstellMask::BDC is the protocol's value"),
        109 => check(MonGnssConstellMask::GAL.bits() as u64 == 8, "MonGnssConstellMask::GAL is the protocol's value"),
        110 => check(EsfInsBitFlags::VERSION.bits() as u64 == 1, "EsfInsBitFlags::VERSION is the protocol's value"),
        111 => check(EsfInsBitFlags::X_ANG_RATE_VALID.bits() as u64 == 256, "EsfInsBitFlags::X_ANG_RATE_VALID is the protocol's value"),
        112 => check(EsfInsBitFlags::Y_ANG_RATE_VALID.bits() as u64 == 512, "EsfInsBitFlags::Y_ANG_RATE_VALID is the protocol's value"),
        113 => check(EsfInsBitFlags::Z_ANG_RATE_VALID.bits() as u64 == 1024, "EsfInsBitFlags::Z_ANG_RATE_VALID is the protocol's value"),
        114 => check(EsfInsBitFlags::X_ACCEL_VALID.bits() as u64 == 2048, "EsfInsBitFlags::X_ACCEL_VALID is the protocol's value"),
        115 => check(EsfInsBitFlags::Y_ACCEL_VALID.bits() as u64 == 4096, "EsfInsBitFlags::Y_ACCEL_VALID is the protocol's value"),
        116 => check(EsfInsBitFlags::Z_ACCEL_VALID.bits() as u64 == 8192, "EsfInsBitFlags::Z_ACCEL_VALID is the protocol's value"),
        117 => check(HnrInsBitFlags::VERSION.bits() as u64 == 1, "HnrInsBitFlags::VERSION is the protocol's value"),
        118 => check(HnrInsBitFlags::X_ANG_RATE_VALID.bits() as u64 == 256, "HnrInsBitFlags::X_ANG_RATE_VALID is the protocol's value"),
        119 => check(HnrInsBitFlags::Y_ANG_RATE_VALID.bits() as u64 == 512, "HnrInsBitFlags::Y_ANG_RATE_VALID is the protocol's value"),
        120 => check(HnrInsBitFlags::Z_ANG_RATE_VALID.bits() as u64 == 1024, "HnrInsBitFlags::Z_ANG_RATE_VALID is the protocol's value"),
        121 => check(HnrInsBitFlags::X_ACCEL_VALID.bits() as u64 == 2048, "HnrInsBitFlags::X_ACCEL_VALID is the protocol's value"),
        122 => check(HnrInsBitFlags::Y_ACCEL_VALID.bits() as u64 == 4096, "HnrInsBitFlags::Y_ACCEL_VALID is the protocol's value"),
        123 => check(HnrInsBitFlags::Z_ACCEL_VALID.bits() as u64 == 8192, "HnrInsBitFlags::Z_ACCEL_VALID is the protocol's value"),
        124 => check(HnrPvtFlags::GPS_FIX_OK.bits() as u64 == 1, "HnrPvtFlags::GPS_FIX_OK is the protocol's value"),
        125 => check(HnrPvtFlags::DIFF_SOLN.bits() as u64 == 2, "HnrPvtFlags::DIFF_SOLN is the protocol's value"),
        126 => check(HnrPvtFlags::WKN_SET.bits() as u64 == 4, "HnrPvtFlags::WKN_SET is the protocol's value"),
        127 => check(HnrPvtFlags::TOW_SET.bits() as u64 == 8, "HnrPvtFlags::TOW_SET is the protocol's value"),
        128 => check(HnrPvtFlags::HEAD_VEH_VALID.bits() as u64 == 16, "HnrPvtFlags::HEAD_VEH_VALID is the protocol's value"),
        129 => check(HnrPvtValidFlags::VALID_DATE.bits() as u64 == 1, "HnrPvtValidFlags::VALID_DATE is the protocol's value"),
        130 => check(HnrPvtValidFlags::VALID_TIME.bits() as u64 == 2, "HnrPvtValidFlags::VALID_TIME is the protocol's value"),
        131 => check(HnrPvtValidFlags::FULLY_RESOLVED.bits() as u64 == 4, "HnrPvtValidFlags::FULLY_RESOLVED is the protocol's value"),
        132 => check(StdevFlags::STD_1.bits() as u64 == 1, "StdevFlags::STD_1 is the protocol's value"),
        133 => check(StdevFlags::STD_2.bits() as u64 == 2, "StdevFlags::STD_2 is the protocol's value"),
        134 => check(StdevFlags::STD_3.bits() as u64 == 4, "StdevFlags::STD_3 is the protocol's value"),
        135 => check(StdevFlags::STD_4.bits() as u64 == 8, "StdevFlags::STD_4 is the protocol's value"),
        136 => check(TrkStatFlags::PR_VALID.bits() as u64 == 1, "TrkStatFlags::PR_VALID is the protocol's value"),
        137 => check(TrkStatFlags::CP_VALID.bits() as u64 == 2, "TrkStatFlags::CP_VALID is the protocol's value"),
        138 => check(TrkStatFlags::HALF_CYCLE.bits() as u64 == 4, "TrkStatFlags::HALF_CYCLE is the protocol's value"),
        139 => check(TrkStatFlags::SUB_HALF_CYCLE.bits() as u64 == 8, "TrkStatFlags::SUB_HALF_CYCLE is the protocol's value"),
        _ => {}
    }
}
