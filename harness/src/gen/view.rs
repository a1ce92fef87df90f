// generated by /verif/tools/gen.py from /verif/spec -- do not edit
#![allow(non_upper_case_globals)]
use ublox::*;
pub const V_NavPosLlh: u32 = 0;
pub const V_NavStatus: u32 = 1;
pub const V_NavDop: u32 = 2;
pub const V_NavPvt: u32 = 3;
pub const V_NavSolution: u32 = 4;
pub const V_NavVelNed: u32 = 5;
pub const V_NavHpPosLlh: u32 = 6;
pub const V_NavHpPosEcef: u32 = 7;
pub const V_NavTimeUTC: u32 = 8;
pub const V_NavTimeLs: u32 = 9;
pub const V_NavSat: u32 = 10;
pub const V_NavEoe: u32 = 11;
pub const V_NavOdo: u32 = 12;
pub const V_CfgOdo: u32 = 13;
pub const V_MgaAck: u32 = 14;
pub const V_MgaGpsIono: u32 = 15;
pub const V_MgaGpsEph: u32 = 16;
pub const V_MgaGloEph: u32 = 17;
pub const V_AlpSrv: u32 = 18;
pub const V_AckAck: u32 = 19;
pub const V_AckNak: u32 = 20;
pub const V_CfgItfm: u32 = 21;
pub const V_CfgPrtI2c: u32 = 22;
pub const V_CfgPrtSpi: u32 = 23;
pub const V_CfgPrtUart: u32 = 24;
pub const V_CfgNav5: u32 = 25;
pub const V_CfgAnt: u32 = 26;
pub const V_CfgTmode2: u32 = 27;
pub const V_CfgTmode3: u32 = 28;
pub const V_CfgTp5: u32 = 29;
pub const V_CfgInf: u32 = 30;
pub const V_CfgNavX5: u32 = 31;
pub const V_InfError: u32 = 32;
pub const V_InfWarning: u32 = 33;
pub const V_InfNotice: u32 = 34;
pub const V_InfTest: u32 = 35;
pub const V_InfDebug: u32 = 36;
pub const V_RxmRawx: u32 = 37;
pub const V_TimTp: u32 = 38;
pub const V_TimTm2: u32 = 39;
pub const V_MonVer: u32 = 40;
pub const V_MonGnss: u32 = 41;
pub const V_MonHw: u32 = 42;
pub const V_RxmRtcm: u32 = 43;
pub const V_EsfMeas: u32 = 44;
pub const V_EsfIns: u32 = 45;
pub const V_HnrAtt: u32 = 46;
pub const V_HnrIns: u32 = 47;
pub const V_HnrPvt: u32 = 48;
pub const V_NavAtt: u32 = 49;
pub const V_NavClock: u32 = 50;
pub const V_NavVelECEF: u32 = 51;
pub const V_MgaGpsEPH: u32 = 52;
pub const V_RxmSfrbx: u32 = 53;
pub const V_EsfRaw: u32 = 54;
pub const V_TimSvin: u32 = 55;
pub const V_SecUniqId: u32 = 56;
pub const V_UNKNOWN: u32 = 1000;
pub const V_OTHER: u32 = 1001;
pub const CLASS_ID: [(u8, u8); 57] = [(1, 2), (1, 3), (1, 4), (1, 7), (1, 6), (1, 18), (1, 20), (1, 19), (1, 33), (1, 38), (1, 53), (1, 97), (1, 9), (6, 30), (19, 96), (19, 0), (19, 0), (19, 6), (11, 50), (5, 1), (5, 0), (6, 57), (6, 0), (6, 0), (6, 0), (6, 36), (6, 19), (6, 61), (6, 113), (6, 49), (6, 2), (6, 35), (4, 0), (4, 1), (4, 2), (4, 3), (4, 4), (2, 21), (13, 1), (13, 3), (10, 4), (10, 40), (10, 9), (2, 50), (16, 2), (16, 21), (40, 1), (40, 2), (40, 0), (1, 5), (1, 34), (1, 17), (19, 0), (2, 19), (16, 3), (13, 4), (39, 3)];
/// (declared message the value is presented as, its class, id and payload)
pub fn view<'a>(p: &'a PacketRef<'a>) -> (u32, u8, u8, &'a [u8]) {
    #[allow(unreachable_patterns)]
    match p {
        PacketRef::NavPosLlh(r) => (0, 1, 2, r.as_bytes()),
        PacketRef::NavStatus(r) => (1, 1, 3, r.as_bytes()),
        PacketRef::NavDop(r) => (2, 1, 4, r.as_bytes()),
        PacketRef::NavPvt(r) => (3, 1, 7, r.as_bytes()),
        PacketRef::NavSolution(r) => (4, 1, 6, r.as_bytes()),
        PacketRef::NavVelNed(r) => (5, 1, 18, r.as_bytes()),
        PacketRef::NavHpPosLlh(r) => (6, 1, 20, r.as_bytes()),
        PacketRef::NavHpPosEcef(r) => (7, 1, 19, r.as_bytes()),
        PacketRef::NavTimeUTC(r) => (8, 1, 33, r.as_bytes()),
        PacketRef::NavTimeLs(r) => (9, 1, 38, r.as_bytes()),
        PacketRef::NavSat(r) => (10, 1, 53, r.as_bytes()),
        PacketRef::NavEoe(r) => (11, 1, 97, r.as_bytes()),
        PacketRef::NavOdo(r) => (12, 1, 9, r.as_bytes()),
        PacketRef::CfgOdo(r) => (13, 6, 30, r.as_bytes()),
        PacketRef::MgaAck(r) => (14, 19, 96, r.as_bytes()),
        PacketRef::MgaGpsIono(r) => (15, 19, 0, r.as_bytes()),
        PacketRef::MgaGpsEph(r) => (16, 19, 0, r.as_bytes()),
        PacketRef::MgaGloEph(r) => (17, 19, 6, r.as_bytes()),
        PacketRef::AlpSrv(r) => (18, 11, 50, r.as_bytes()),
        PacketRef::AckAck(r) => (19, 5, 1, r.as_bytes()),
        PacketRef::AckNak(r) => (20, 5, 0, r.as_bytes()),
        PacketRef::CfgItfm(r) => (21, 6, 57, r.as_bytes()),
        PacketRef::CfgPrtI2c(r) => (22, 6, 0, r.as_bytes()),
        PacketRef::CfgPrtSpi(r) => (23, 6, 0, r.as_bytes()),
        PacketRef::CfgPrtUart(r) => (24, 6, 0, r.as_bytes()),
        PacketRef::CfgNav5(r) => (25, 6, 36, r.as_bytes()),
        PacketRef::CfgAnt(r) => (26, 6, 19, r.as_bytes()),
        PacketRef::CfgTmode2(r) => (27, 6, 61, r.as_bytes()),
        PacketRef::CfgTmode3(r) => (28, 6, 113, r.as_bytes()),
        PacketRef::CfgTp5(r) => (29, 6, 49, r.as_bytes()),
        PacketRef::CfgInf(r) => (30, 6, 2, r.as_bytes()),
        PacketRef::CfgNavX5(r) => (31, 6, 35, r.as_bytes()),
        PacketRef::InfError(r) => (32, 4, 0, r.as_bytes()),
        PacketRef::InfWarning(r) => (33, 4, 1, r.as_bytes()),
        PacketRef::InfNotice(r) => (34, 4, 2, r.as_bytes()),
        PacketRef::InfTest(r) => (35, 4, 3, r.as_bytes()),
        PacketRef::InfDebug(r) => (36, 4, 4, r.as_bytes()),
        PacketRef::RxmRawx(r) => (37, 2, 21, r.as_bytes()),
        PacketRef::TimTp(r) => (38, 13, 1, r.as_bytes()),
        PacketRef::TimTm2(r) => (39, 13, 3, r.as_bytes()),
        PacketRef::MonVer(r) => (40, 10, 4, r.as_bytes()),
        PacketRef::MonGnss(r) => (41, 10, 40, r.as_bytes()),
        PacketRef::MonHw(r) => (42, 10, 9, r.as_bytes()),
        PacketRef::RxmRtcm(r) => (43, 2, 50, r.as_bytes()),
        PacketRef::EsfMeas(r) => (44, 16, 2, r.as_bytes()),
        PacketRef::EsfIns(r) => (45, 16, 21, r.as_bytes()),
        PacketRef::HnrAtt(r) => (46, 40, 1, r.as_bytes()),
        PacketRef::HnrIns(r) => (47, 40, 2, r.as_bytes()),
        PacketRef::HnrPvt(r) => (48, 40, 0, r.as_bytes()),
        PacketRef::NavAtt(r) => (49, 1, 5, r.as_bytes()),
        PacketRef::NavClock(r) => (50, 1, 34, r.as_bytes()),
        PacketRef::NavVelECEF(r) => (51, 1, 17, r.as_bytes()),
        PacketRef::MgaGpsEPH(r) => (52, 19, 0, r.as_bytes()),
        PacketRef::RxmSfrbx(r) => (53, 2, 19, r.as_bytes()),
        PacketRef::EsfRaw(r) => (54, 16, 3, r.as_bytes()),
        PacketRef::TimSvin(r) => (55, 13, 4, r.as_bytes()),
        PacketRef::SecUniqId(r) => (56, 39, 3, r.as_bytes()),
        PacketRef::Unknown(u) => (V_UNKNOWN, u.class, u.msg_id, u.payload),
        _ => (V_OTHER, 0, 0, &[]),
    }
}
