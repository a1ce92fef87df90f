// generated by /verif/tools/gen.py from /verif/spec -- do not edit
#![allow(non_snake_case, unused_variables, non_upper_case_globals, clippy::all)]
use ublox::*;

/// a scaled field of a builder: (payload offset, bytes, signed, f32, scale)
pub struct Scaled {
    pub off: usize,
    pub size: usize,
    pub signed: bool,
    pub single: bool,
    pub scale: f64,
    pub name: &'static str,
}
pub const B_NAMES: [&str; 18] = ["NavResetOdo", "CfgOdo", "CfgItfm", "CfgInf", "AidIni", "CfgRst", "CfgAnt", "CfgTp5", "CfgTmode2", "CfgTmode3", "CfgPrtI2c", "CfgPrtUart", "CfgPrtSpi", "CfgRate", "CfgMsgSinglePort", "CfgMsgAllPorts", "CfgNav5", "CfgNavX5"];
pub const B_ID: [(u8, u8); 18] = [(1, 16), (6, 30), (6, 57), (6, 2), (11, 1), (6, 4), (6, 19), (6, 49), (6, 61), (6, 113), (6, 0), (6, 0), (6, 0), (6, 8), (6, 1), (6, 1), (6, 36), (6, 35)];
pub const B_LEN: [usize; 18] = [0, 20, 8, 10, 48, 4, 4, 32, 28, 40, 20, 20, 20, 6, 3, 8, 36, 40];
/// index of the same message in the table of receivable ones, 1000: cannot be received
pub const B_RECV: [u32; 18] = [1000, 13, 21, 30, 1000, 1000, 26, 29, 27, 28, 22, 24, 23, 1000, 1000, 1000, 25, 31];
pub const SCALED: [&[Scaled]; 18] = [
    &[],
    &[],
    &[],
    &[],
    &[],
    &[],
    &[],
    &[Scaled { off: 4, size: 2, signed: true, single: true, scale: 1.0, name: "CfgTp5.ant_cable_delay" }, Scaled { off: 6, size: 2, signed: true, single: true, scale: 1.0, name: "CfgTp5.rf_group_delay" }, Scaled { off: 8, size: 4, signed: false, single: false, scale: 1.0, name: "CfgTp5.freq_period" }, Scaled { off: 12, size: 4, signed: false, single: false, scale: 1.0, name: "CfgTp5.freq_period_lock" }, Scaled { off: 16, size: 4, signed: false, single: false, scale: 1.0, name: "CfgTp5.pulse_len_ratio" }, Scaled { off: 20, size: 4, signed: false, single: false, scale: 1.0, name: "CfgTp5.pulse_len_ratio_lock" }, Scaled { off: 24, size: 4, signed: true, single: false, scale: 1.0, name: "CfgTp5.user_delay" }],
    &[Scaled { off: 4, size: 4, signed: true, single: false, scale: 1e-2, name: "CfgTmode2.ecef_x_or_lat" }, Scaled { off: 8, size: 4, signed: true, single: false, scale: 1e-2, name: "CfgTmode2.ecef_y_or_lon" }, Scaled { off: 12, size: 4, signed: true, single: false, scale: 1e-2, name: "CfgTmode2.ecef_z_or_alt" }, Scaled { off: 16, size: 4, signed: false, single: false, scale: 1e-3, name: "CfgTmode2.fixed_pos_acc" }, Scaled { off: 24, size: 4, signed: false, single: false, scale: 1e-3, name: "CfgTmode2.survery_in_accur_limit" }],
    &[Scaled { off: 4, size: 4, signed: true, single: false, scale: 1e-2, name: "CfgTmode3.ecef_x_or_lat" }, Scaled { off: 8, size: 4, signed: true, single: false, scale: 1e-2, name: "CfgTmode3.ecef_y_or_lon" }, Scaled { off: 12, size: 4, signed: true, single: false, scale: 1e-2, name: "CfgTmode3.ecef_z_or_alt" }, Scaled { off: 16, size: 1, signed: true, single: true, scale: 1.0, name: "CfgTmode3.ecef_x_or_lat_hp" }, Scaled { off: 17, size: 1, signed: true, single: true, scale: 1.0, name: "CfgTmode3.ecef_y_or_lon_hp" }, Scaled { off: 18, size: 1, signed: true, single: true, scale: 1.0, name: "CfgTmode3.ecef_z_or_alt_hp" }, Scaled { off: 20, size: 4, signed: false, single: false, scale: 1e-4, name: "CfgTmode3.fixed_pos_acc" }, Scaled { off: 28, size: 4, signed: false, single: false, scale: 1e-4, name: "CfgTmode3.sv_in_accur_limit" }],
    &[],
    &[],
    &[],
    &[],
    &[],
    &[],
    &[Scaled { off: 4, size: 4, signed: true, single: false, scale: 0.01, name: "CfgNav5.fixed_alt" }, Scaled { off: 8, size: 4, signed: false, single: false, scale: 0.0001, name: "CfgNav5.fixed_alt_var" }, Scaled { off: 14, size: 2, signed: false, single: true, scale: 0.1, name: "CfgNav5.pdop" }, Scaled { off: 16, size: 2, signed: false, single: true, scale: 0.1, name: "CfgNav5.tdop" }, Scaled { off: 22, size: 1, signed: false, single: true, scale: 0.01, name: "CfgNav5.static_hold_thresh" }],
    &[],
];
/// payload images the builder can produce (every builder value has exactly one image)
pub fn producible(i: usize, p: &[u8]) -> bool {
    match i {
        1 => ((p[5] == 0) | (p[5] == 1) | (p[5] == 2) | (p[5] == 3) | (p[5] == 4)), // CfgOdo
        2 => (((u32::from_le_bytes([p[0], p[1], p[2], p[3]]) >> 9) & 0x3fffff) == 0x16B156) & ((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) & 0xfff) == 0x31E) & (((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 12) & 3) < 3) & ((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 15) == 0), // CfgItfm
        5 => ((p[2] == 0) | (p[2] == 1) | (p[2] == 2) | (p[2] == 4) | (p[2] == 8) | (p[2] == 9)), // CfgRst
        7 => ((p[0] == 0) | (p[0] == 1)), // CfgTp5
        8 => ((p[0] == 0) | (p[0] == 1) | (p[0] == 2)), // CfgTmode2
        10 => ((p[0] == 0)), // CfgPrtI2c
        11 => ((p[0] == 1) | (p[0] == 2) | (p[0] == 3)) & ((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) & !0x3ec0) == 0) & ((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 6) & 3 >= 2) & (((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 9) & 7 == 0) | ((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 9) & 7 == 1) | ((u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 9) & 7 == 4)), // CfgPrtUart
        12 => ((p[0] == 4)), // CfgPrtSpi
        13 => ((u16::from_le_bytes([p[4], p[5]]) == 0) | (u16::from_le_bytes([p[4], p[5]]) == 1) | (u16::from_le_bytes([p[4], p[5]]) == 2) | (u16::from_le_bytes([p[4], p[5]]) == 3) | (u16::from_le_bytes([p[4], p[5]]) == 4)), // CfgRate
        16 => ((p[2] == 0) | (p[2] == 2) | (p[2] == 3) | (p[2] == 4) | (p[2] == 5) | (p[2] == 6) | (p[2] == 7) | (p[2] == 8) | (p[2] == 9) | (p[2] == 10)) & ((p[3] == 1) | (p[3] == 2) | (p[3] == 3)) & ((p[30] == 0) | (p[30] == 3) | (p[30] == 6) | (p[30] == 7)), // CfgNav5
        _ => true,
    }
}
pub fn mk_NavResetOdo(p: &[u8], x: &[f64]) -> NavResetOdoBuilder {
    NavResetOdoBuilder {
    }
}
pub fn mk_CfgOdo(p: &[u8], x: &[f64]) -> CfgOdoBuilder {
    CfgOdoBuilder {
        version: p[0] as _,
        reserved: [p[1], p[2], p[3]],
        flags: OdoCogFilterFlags::from_bits_truncate(p[4] as _),
        odo_cfg: match p[5] { 0 => OdoProfile::Running, 1 => OdoProfile::Cycling, 2 => OdoProfile::Swimming, 3 => OdoProfile::Car, _ => OdoProfile::Custom },
        reserved2: [p[6], p[7], p[8], p[9], p[10], p[11]],
        cog_max_speed: p[12] as _,
        cog_max_pos_acc: p[13] as _,
        reserved3: [p[14], p[15]],
        vel_lp_gain: p[16] as _,
        cog_lp_gain: p[17] as _,
        reserved4: [p[18], p[19]],
    }
}
pub fn re_CfgOdo(r: &CfgOdoRef) -> CfgOdoBuilder {
    CfgOdoBuilder {
        version: r.version() as _,
        reserved: [r.reserved()[0], r.reserved()[1], r.reserved()[2]],
        flags: r.flags(),
        odo_cfg: r.odo_cfg(),
        reserved2: [r.reserved2()[0], r.reserved2()[1], r.reserved2()[2], r.reserved2()[3], r.reserved2()[4], r.reserved2()[5]],
        cog_max_speed: r.cog_max_speed() as _,
        cog_max_pos_acc: r.cog_max_pos_acc() as _,
        reserved3: [r.reserved3()[0], r.reserved3()[1]],
        vel_lp_gain: r.vel_lp_gain() as _,
        cog_lp_gain: r.cog_lp_gain() as _,
        reserved4: [r.reserved4()[0], r.reserved4()[1]],
    }
}
pub fn mk_CfgItfm(p: &[u8], x: &[f64]) -> CfgItfmBuilder {
    CfgItfmBuilder {
        config: CfgItfmConfig::new(u32::from_le_bytes([p[0], p[1], p[2], p[3]]) >> 31 == 1, u32::from_le_bytes([p[0], p[1], p[2], p[3]]) & 15, (u32::from_le_bytes([p[0], p[1], p[2], p[3]]) >> 4) & 31),
        config2: CfgItfmConfig2::new(match (u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 12) & 3 { 0 => CfgItfmAntennaSettings::Unknown, 1 => CfgItfmAntennaSettings::Active, _ => CfgItfmAntennaSettings::Passive }, (u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 14) & 1 == 1),
    }
}
pub fn re_CfgItfm(r: &CfgItfmRef) -> CfgItfmBuilder {
    CfgItfmBuilder {
        config: r.config(),
        config2: r.config2(),
    }
}
pub fn mk_CfgInf(p: &[u8], x: &[f64]) -> CfgInfBuilder {
    CfgInfBuilder {
        protocol_id: p[0] as _,
        reserved: [p[1], p[2], p[3]],
        inf_msg_mask_0: CfgInfMask::from_bits_truncate(p[4] as _),
        inf_msg_mask_1: CfgInfMask::from_bits_truncate(p[5] as _),
        inf_msg_mask_2: CfgInfMask::from_bits_truncate(p[6] as _),
        inf_msg_mask_3: CfgInfMask::from_bits_truncate(p[7] as _),
        inf_msg_mask_4: CfgInfMask::from_bits_truncate(p[8] as _),
        inf_msg_mask_5: CfgInfMask::from_bits_truncate(p[9] as _),
    }
}
pub fn re_CfgInf(r: &CfgInfRef) -> CfgInfBuilder {
    CfgInfBuilder {
        protocol_id: r.protocol_id() as _,
        reserved: [r.reserved()[0], r.reserved()[1], r.reserved()[2]],
        inf_msg_mask_0: r.inf_msg_mask_0(),
        inf_msg_mask_1: r.inf_msg_mask_1(),
        inf_msg_mask_2: r.inf_msg_mask_2(),
        inf_msg_mask_3: r.inf_msg_mask_3(),
        inf_msg_mask_4: r.inf_msg_mask_4(),
        inf_msg_mask_5: r.inf_msg_mask_5(),
    }
}
pub fn mk_AidIni(p: &[u8], x: &[f64]) -> AidIniBuilder {
    AidIniBuilder {
        ecef_x_or_lat: i32::from_le_bytes([p[0], p[1], p[2], p[3]]) as _,
        ecef_y_or_lon: i32::from_le_bytes([p[4], p[5], p[6], p[7]]) as _,
        ecef_z_or_alt: i32::from_le_bytes([p[8], p[9], p[10], p[11]]) as _,
        pos_accuracy: u32::from_le_bytes([p[12], p[13], p[14], p[15]]) as _,
        time_cfg: u16::from_le_bytes([p[16], p[17]]) as _,
        week_or_ym: u16::from_le_bytes([p[18], p[19]]) as _,
        tow_or_hms: u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as _,
        tow_ns: i32::from_le_bytes([p[24], p[25], p[26], p[27]]) as _,
        tm_accuracy_ms: u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as _,
        tm_accuracy_ns: u32::from_le_bytes([p[32], p[33], p[34], p[35]]) as _,
        clk_drift_or_freq: i32::from_le_bytes([p[36], p[37], p[38], p[39]]) as _,
        clk_drift_or_freq_accuracy: u32::from_le_bytes([p[40], p[41], p[42], p[43]]) as _,
        flags: u32::from_le_bytes([p[44], p[45], p[46], p[47]]) as _,
    }
}
pub fn mk_CfgRst(p: &[u8], x: &[f64]) -> CfgRstBuilder {
    CfgRstBuilder {
        nav_bbr_mask: NavBbrMask::from_bits_truncate(u16::from_le_bytes([p[0], p[1]]) as _),
        reset_mode: match p[2] { 0 => ResetMode::HardwareResetImmediately, 1 => ResetMode::ControlledSoftwareReset, 2 => ResetMode::ControlledSoftwareResetGpsOnly, 4 => ResetMode::HardwareResetAfterShutdown, 8 => ResetMode::ControlledGpsStop, _ => ResetMode::ControlledGpsStart },
        reserved1: p[3] as _,
    }
}
pub fn mk_CfgAnt(p: &[u8], x: &[f64]) -> CfgAntBuilder {
    CfgAntBuilder {
        flags: AntFlags::from_bits_truncate(u16::from_le_bytes([p[0], p[1]]) as _),
        pins: u16::from_le_bytes([p[2], p[3]]) as _,
    }
}
pub fn re_CfgAnt(r: &CfgAntRef) -> CfgAntBuilder {
    CfgAntBuilder {
        flags: r.flags(),
        pins: r.pins() as _,
    }
}
pub fn mk_CfgTp5(p: &[u8], x: &[f64]) -> CfgTp5Builder {
    CfgTp5Builder {
        tp_idx: match p[0] { 0 => CfgTp5TimePulseMode::TimePulse, _ => CfgTp5TimePulseMode::TimePulse2 },
        version: p[1] as _,
        reserved1: [p[2], p[3]],
        ant_cable_delay: x[0] as _,
        rf_group_delay: x[1] as _,
        freq_period: x[2] as _,
        freq_period_lock: x[3] as _,
        pulse_len_ratio: x[4] as _,
        pulse_len_ratio_lock: x[5] as _,
        user_delay: x[6] as _,
        flags: CfgTp5Flags::from_bits_truncate(u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as _),
    }
}
pub fn re_CfgTp5(r: &CfgTp5Ref) -> CfgTp5Builder {
    CfgTp5Builder {
        tp_idx: r.tp_idx(),
        version: r.version() as _,
        reserved1: [r.reserved1()[0], r.reserved1()[1]],
        ant_cable_delay: r.ant_cable_delay(),
        rf_group_delay: r.rf_group_delay(),
        freq_period: r.freq_period(),
        freq_period_lock: r.freq_period_lock(),
        pulse_len_ratio: r.pulse_len_ratio(),
        pulse_len_ratio_lock: r.pulse_len_ratio_lock(),
        user_delay: r.user_delay(),
        flags: r.flags(),
    }
}
pub fn mk_CfgTmode2(p: &[u8], x: &[f64]) -> CfgTmode2Builder {
    CfgTmode2Builder {
        time_transfer_mode: match p[0] { 0 => CfgTmode2TimeXferModes::Disabled, 1 => CfgTmode2TimeXferModes::SurveyIn, _ => CfgTmode2TimeXferModes::FixedMode },
        reserved1: p[1] as _,
        flags: CfgTmode2Flags::from_bits_truncate(u16::from_le_bytes([p[2], p[3]]) as _),
        ecef_x_or_lat: x[0] as _,
        ecef_y_or_lon: x[1] as _,
        ecef_z_or_alt: x[2] as _,
        fixed_pos_acc: x[3] as _,
        survey_in_min_duration: u32::from_le_bytes([p[20], p[21], p[22], p[23]]) as _,
        survery_in_accur_limit: x[4] as _,
    }
}
pub fn re_CfgTmode2(r: &CfgTmode2Ref) -> CfgTmode2Builder {
    CfgTmode2Builder {
        time_transfer_mode: r.time_transfer_mode(),
        reserved1: r.reserved1() as _,
        flags: r.flags(),
        ecef_x_or_lat: r.ecef_x_or_lat(),
        ecef_y_or_lon: r.ecef_y_or_lon(),
        ecef_z_or_alt: r.ecef_z_or_alt(),
        fixed_pos_acc: r.fixed_pos_acc(),
        survey_in_min_duration: r.survey_in_min_duration() as _,
        survery_in_accur_limit: r.survery_in_accur_limit(),
    }
}
pub fn mk_CfgTmode3(p: &[u8], x: &[f64]) -> CfgTmode3Builder {
    CfgTmode3Builder {
        version: p[0] as _,
        reserved1: p[1] as _,
        rcvr_mode: CfgTmode3RcvrMode::from_bits_truncate(p[2] as _),
        flags: CfgTmode3Flags::from_bits_truncate(p[3] as _),
        ecef_x_or_lat: x[0] as _,
        ecef_y_or_lon: x[1] as _,
        ecef_z_or_alt: x[2] as _,
        ecef_x_or_lat_hp: x[3] as _,
        ecef_y_or_lon_hp: x[4] as _,
        ecef_z_or_alt_hp: x[5] as _,
        reserved2: p[19] as _,
        fixed_pos_acc: x[6] as _,
        sv_in_min_duration: u32::from_le_bytes([p[24], p[25], p[26], p[27]]) as _,
        sv_in_accur_limit: x[7] as _,
        reserved3: [p[32], p[33], p[34], p[35], p[36], p[37], p[38], p[39]],
    }
}
pub fn re_CfgTmode3(r: &CfgTmode3Ref) -> CfgTmode3Builder {
    CfgTmode3Builder {
        version: r.version() as _,
        reserved1: r.reserved1() as _,
        rcvr_mode: r.rcvr_mode(),
        flags: r.flags(),
        ecef_x_or_lat: r.ecef_x_or_lat(),
        ecef_y_or_lon: r.ecef_y_or_lon(),
        ecef_z_or_alt: r.ecef_z_or_alt(),
        ecef_x_or_lat_hp: r.ecef_x_or_lat_hp(),
        ecef_y_or_lon_hp: r.ecef_y_or_lon_hp(),
        ecef_z_or_alt_hp: r.ecef_z_or_alt_hp(),
        reserved2: r.reserved2() as _,
        fixed_pos_acc: r.fixed_pos_acc(),
        sv_in_min_duration: r.sv_in_min_duration() as _,
        sv_in_accur_limit: r.sv_in_accur_limit(),
        reserved3: [r.reserved3()[0], r.reserved3()[1], r.reserved3()[2], r.reserved3()[3], r.reserved3()[4], r.reserved3()[5], r.reserved3()[6], r.reserved3()[7]],
    }
}
pub fn mk_CfgPrtI2c(p: &[u8], x: &[f64]) -> CfgPrtI2cBuilder {
    CfgPrtI2cBuilder {
        portid: match p[0] { _ => I2cPortId::I2c },
        reserved1: p[1] as _,
        tx_ready: u16::from_le_bytes([p[2], p[3]]) as _,
        mode: u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as _,
        reserved2: u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as _,
        in_proto_mask: InProtoMask::from_bits_truncate(u16::from_le_bytes([p[12], p[13]]) as _),
        out_proto_mask: OutProtoMask::from_bits_truncate(u16::from_le_bytes([p[14], p[15]]) as _),
        flags: u16::from_le_bytes([p[16], p[17]]) as _,
        reserved3: u16::from_le_bytes([p[18], p[19]]) as _,
    }
}
pub fn re_CfgPrtI2c(r: &CfgPrtI2cRef) -> CfgPrtI2cBuilder {
    CfgPrtI2cBuilder {
        portid: r.portid(),
        reserved1: r.reserved1() as _,
        tx_ready: r.tx_ready() as _,
        mode: r.mode() as _,
        reserved2: r.reserved2() as _,
        in_proto_mask: r.in_proto_mask(),
        out_proto_mask: r.out_proto_mask(),
        flags: r.flags() as _,
        reserved3: r.reserved3() as _,
    }
}
pub fn mk_CfgPrtUart(p: &[u8], x: &[f64]) -> CfgPrtUartBuilder {
    CfgPrtUartBuilder {
        portid: match p[0] { 1 => UartPortId::Uart1, 2 => UartPortId::Uart2, _ => UartPortId::Usb },
        reserved0: p[1] as _,
        tx_ready: u16::from_le_bytes([p[2], p[3]]) as _,
        mode: UartMode::new(
            if (u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 6) & 1 == 0 { DataBits::Seven } else { DataBits::Eight },
            match (u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 9) & 7 { 0 => Parity::Even, 1 => Parity::Odd, _ => Parity::None },
            match (u32::from_le_bytes([p[4], p[5], p[6], p[7]]) >> 12) & 3 { 0 => StopBits::One, 1 => StopBits::OneHalf, 2 => StopBits::Two, _ => StopBits::Half },
        ),
        baud_rate: u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as _,
        in_proto_mask: InProtoMask::from_bits_truncate(u16::from_le_bytes([p[12], p[13]]) as _),
        out_proto_mask: OutProtoMask::from_bits_truncate(u16::from_le_bytes([p[14], p[15]]) as _),
        flags: u16::from_le_bytes([p[16], p[17]]) as _,
        reserved5: u16::from_le_bytes([p[18], p[19]]) as _,
    }
}
pub fn re_CfgPrtUart(r: &CfgPrtUartRef) -> CfgPrtUartBuilder {
    CfgPrtUartBuilder {
        portid: r.portid(),
        reserved0: r.reserved0() as _,
        tx_ready: r.tx_ready() as _,
        mode: r.mode(),
        baud_rate: r.baud_rate() as _,
        in_proto_mask: r.in_proto_mask(),
        out_proto_mask: r.out_proto_mask(),
        flags: r.flags() as _,
        reserved5: r.reserved5() as _,
    }
}
pub fn mk_CfgPrtSpi(p: &[u8], x: &[f64]) -> CfgPrtSpiBuilder {
    CfgPrtSpiBuilder {
        portid: match p[0] { _ => SpiPortId::Spi },
        reserved0: p[1] as _,
        tx_ready: u16::from_le_bytes([p[2], p[3]]) as _,
        mode: u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as _,
        reserved3: u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as _,
        in_proto_mask: InProtoMask::from_bits_truncate(u16::from_le_bytes([p[12], p[13]]) as _),
        out_proto_mask: OutProtoMask::from_bits_truncate(u16::from_le_bytes([p[14], p[15]]) as _),
        flags: u16::from_le_bytes([p[16], p[17]]) as _,
        reserved5: u16::from_le_bytes([p[18], p[19]]) as _,
    }
}
pub fn re_CfgPrtSpi(r: &CfgPrtSpiRef) -> CfgPrtSpiBuilder {
    CfgPrtSpiBuilder {
        portid: r.portid(),
        reserved0: r.reserved0() as _,
        tx_ready: r.tx_ready() as _,
        mode: r.mode() as _,
        reserved3: r.reserved3() as _,
        in_proto_mask: r.in_proto_mask(),
        out_proto_mask: r.out_proto_mask(),
        flags: r.flags() as _,
        reserved5: r.reserved5() as _,
    }
}
pub fn mk_CfgRate(p: &[u8], x: &[f64]) -> CfgRateBuilder {
    CfgRateBuilder {
        measure_rate_ms: u16::from_le_bytes([p[0], p[1]]) as _,
        nav_rate: u16::from_le_bytes([p[2], p[3]]) as _,
        time_ref: match u16::from_le_bytes([p[4], p[5]]) { 0 => AlignmentToReferenceTime::Utc, 1 => AlignmentToReferenceTime::Gps, 2 => AlignmentToReferenceTime::Glo, 3 => AlignmentToReferenceTime::Bds, _ => AlignmentToReferenceTime::Gal },
    }
}
pub fn mk_CfgMsgSinglePort(p: &[u8], x: &[f64]) -> CfgMsgSinglePortBuilder {
    CfgMsgSinglePortBuilder {
        msg_class: p[0] as _,
        msg_id: p[1] as _,
        rate: p[2] as _,
    }
}
pub fn mk_CfgMsgAllPorts(p: &[u8], x: &[f64]) -> CfgMsgAllPortsBuilder {
    CfgMsgAllPortsBuilder {
        msg_class: p[0] as _,
        msg_id: p[1] as _,
        rates: [p[2], p[3], p[4], p[5], p[6], p[7]],
    }
}
pub fn mk_CfgNav5(p: &[u8], x: &[f64]) -> CfgNav5Builder {
    CfgNav5Builder {
        mask: CfgNav5Params::from_bits_truncate(u16::from_le_bytes([p[0], p[1]]) as _),
        dyn_model: match p[2] { 0 => CfgNav5DynModel::Portable, 2 => CfgNav5DynModel::Stationary, 3 => CfgNav5DynModel::Pedestrian, 4 => CfgNav5DynModel::Automotive, 5 => CfgNav5DynModel::Sea, 6 => CfgNav5DynModel::AirborneWithLess1gAcceleration, 7 => CfgNav5DynModel::AirborneWithLess2gAcceleration, 8 => CfgNav5DynModel::AirborneWith4gAcceleration, 9 => CfgNav5DynModel::WristWornWatch, _ => CfgNav5DynModel::Bike },
        fix_mode: match p[3] { 1 => CfgNav5FixMode::Only2D, 2 => CfgNav5FixMode::Only3D, _ => CfgNav5FixMode::Auto2D3D },
        fixed_alt: x[0] as _,
        fixed_alt_var: x[1] as _,
        min_elev_degrees: i8::from_le_bytes([p[12]]) as _,
        dr_limit: p[13] as _,
        pdop: x[2] as _,
        tdop: x[3] as _,
        pacc: u16::from_le_bytes([p[18], p[19]]) as _,
        tacc: u16::from_le_bytes([p[20], p[21]]) as _,
        static_hold_thresh: x[4] as _,
        dgps_time_out: p[23] as _,
        cno_thresh_num_svs: p[24] as _,
        cno_thresh: p[25] as _,
        reserved1: [p[26], p[27]],
        static_hold_max_dist: u16::from_le_bytes([p[28], p[29]]) as _,
        utc_standard: match p[30] { 0 => CfgNav5UtcStandard::Automatic, 3 => CfgNav5UtcStandard::Usno, 6 => CfgNav5UtcStandard::UtcSu, _ => CfgNav5UtcStandard::UtcChina },
        reserved2: [p[31], p[32], p[33], p[34], p[35]],
    }
}
pub fn re_CfgNav5(r: &CfgNav5Ref) -> CfgNav5Builder {
    CfgNav5Builder {
        mask: r.mask(),
        dyn_model: r.dyn_model(),
        fix_mode: r.fix_mode(),
        fixed_alt: r.fixed_alt(),
        fixed_alt_var: r.fixed_alt_var(),
        min_elev_degrees: r.min_elev_degrees() as _,
        dr_limit: r.dr_limit() as _,
        pdop: r.pdop(),
        tdop: r.tdop(),
        pacc: r.pacc() as _,
        tacc: r.tacc() as _,
        static_hold_thresh: r.static_hold_thresh(),
        dgps_time_out: r.dgps_time_out() as _,
        cno_thresh_num_svs: r.cno_thresh_num_svs() as _,
        cno_thresh: r.cno_thresh() as _,
        reserved1: [r.reserved1()[0], r.reserved1()[1]],
        static_hold_max_dist: r.static_hold_max_dist() as _,
        utc_standard: r.utc_standard(),
        reserved2: [r.reserved2()[0], r.reserved2()[1], r.reserved2()[2], r.reserved2()[3], r.reserved2()[4]],
    }
}
pub fn mk_CfgNavX5(p: &[u8], x: &[f64]) -> CfgNavX5Builder {
    CfgNavX5Builder {
        version: u16::from_le_bytes([p[0], p[1]]) as _,
        mask1: CfgNavX5Params1::from_bits_truncate(u16::from_le_bytes([p[2], p[3]]) as _),
        mask2: CfgNavX5Params2::from_bits_truncate(u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as _),
        reserved1: [p[8], p[9]],
        min_svs: p[10] as _,
        max_svs: p[11] as _,
        min_cno_dbhz: p[12] as _,
        reserved2: p[13] as _,
        ini_fix_3d: p[14] as _,
        reserved3: [p[15], p[16]],
        ack_aiding: p[17] as _,
        wkn_rollover: u16::from_le_bytes([p[18], p[19]]) as _,
        sig_atten_comp_mode: p[20] as _,
        reserved4: p[21] as _,
        reserved5: [p[22], p[23]],
        reserved6: [p[24], p[25]],
        use_ppp: p[26] as _,
        aop_cfg: p[27] as _,
        reserved7: [p[28], p[29]],
        aop_orb_max_err: u16::from_le_bytes([p[30], p[31]]) as _,
        reserved8: [p[32], p[33], p[34], p[35]],
        reserved9: [p[36], p[37], p[38]],
        use_adr: p[39] as _,
    }
}
pub fn re_CfgNavX5(r: &CfgNavX5Ref) -> CfgNavX5Builder {
    CfgNavX5Builder {
        version: r.version() as _,
        mask1: r.mask1(),
        mask2: r.mask2(),
        reserved1: [r.reserved1()[0], r.reserved1()[1]],
        min_svs: r.min_svs() as _,
        max_svs: r.max_svs() as _,
        min_cno_dbhz: r.min_cno_dbhz() as _,
        reserved2: r.reserved2() as _,
        ini_fix_3d: r.ini_fix_3d() as _,
        reserved3: [r.reserved3()[0], r.reserved3()[1]],
        ack_aiding: r.ack_aiding() as _,
        wkn_rollover: r.wkn_rollover() as _,
        sig_atten_comp_mode: r.sig_atten_comp_mode() as _,
        reserved4: r.reserved4() as _,
        reserved5: [r.reserved5()[0], r.reserved5()[1]],
        reserved6: [r.reserved6()[0], r.reserved6()[1]],
        use_ppp: r.use_ppp() as _,
        aop_cfg: r.aop_cfg() as _,
        reserved7: [r.reserved7()[0], r.reserved7()[1]],
        aop_orb_max_err: r.aop_orb_max_err() as _,
        reserved8: [r.reserved8()[0], r.reserved8()[1], r.reserved8()[2], r.reserved8()[3]],
        reserved9: [r.reserved9()[0], r.reserved9()[1], r.reserved9()[2]],
        use_adr: r.use_adr() as _,
    }
}
pub fn array_of(i: usize, p: &[u8], x: &[f64]) -> Vec<u8> {
    match i {
        0 => mk_NavResetOdo(p, x).into_packet_bytes().to_vec(),
        1 => mk_CfgOdo(p, x).into_packet_bytes().to_vec(),
        2 => mk_CfgItfm(p, x).into_packet_bytes().to_vec(),
        3 => mk_CfgInf(p, x).into_packet_bytes().to_vec(),
        4 => mk_AidIni(p, x).into_packet_bytes().to_vec(),
        5 => mk_CfgRst(p, x).into_packet_bytes().to_vec(),
        6 => mk_CfgAnt(p, x).into_packet_bytes().to_vec(),
        7 => mk_CfgTp5(p, x).into_packet_bytes().to_vec(),
        8 => mk_CfgTmode2(p, x).into_packet_bytes().to_vec(),
        9 => mk_CfgTmode3(p, x).into_packet_bytes().to_vec(),
        10 => mk_CfgPrtI2c(p, x).into_packet_bytes().to_vec(),
        11 => mk_CfgPrtUart(p, x).into_packet_bytes().to_vec(),
        12 => mk_CfgPrtSpi(p, x).into_packet_bytes().to_vec(),
        13 => mk_CfgRate(p, x).into_packet_bytes().to_vec(),
        14 => mk_CfgMsgSinglePort(p, x).into_packet_bytes().to_vec(),
        15 => mk_CfgMsgAllPorts(p, x).into_packet_bytes().to_vec(),
        16 => mk_CfgNav5(p, x).into_packet_bytes().to_vec(),
        17 => mk_CfgNavX5(p, x).into_packet_bytes().to_vec(),
        _ => unreachable!(),
    }
}
pub fn from_of(i: usize, p: &[u8], x: &[f64]) -> Vec<u8> {
    match i {
        0 => <[u8; NavResetOdoBuilder::PACKET_LEN]>::from(mk_NavResetOdo(p, x)).to_vec(),
        1 => <[u8; CfgOdoBuilder::PACKET_LEN]>::from(mk_CfgOdo(p, x)).to_vec(),
        2 => <[u8; CfgItfmBuilder::PACKET_LEN]>::from(mk_CfgItfm(p, x)).to_vec(),
        3 => <[u8; CfgInfBuilder::PACKET_LEN]>::from(mk_CfgInf(p, x)).to_vec(),
        4 => <[u8; AidIniBuilder::PACKET_LEN]>::from(mk_AidIni(p, x)).to_vec(),
        5 => <[u8; CfgRstBuilder::PACKET_LEN]>::from(mk_CfgRst(p, x)).to_vec(),
        6 => <[u8; CfgAntBuilder::PACKET_LEN]>::from(mk_CfgAnt(p, x)).to_vec(),
        7 => <[u8; CfgTp5Builder::PACKET_LEN]>::from(mk_CfgTp5(p, x)).to_vec(),
        8 => <[u8; CfgTmode2Builder::PACKET_LEN]>::from(mk_CfgTmode2(p, x)).to_vec(),
        9 => <[u8; CfgTmode3Builder::PACKET_LEN]>::from(mk_CfgTmode3(p, x)).to_vec(),
        10 => <[u8; CfgPrtI2cBuilder::PACKET_LEN]>::from(mk_CfgPrtI2c(p, x)).to_vec(),
        11 => <[u8; CfgPrtUartBuilder::PACKET_LEN]>::from(mk_CfgPrtUart(p, x)).to_vec(),
        12 => <[u8; CfgPrtSpiBuilder::PACKET_LEN]>::from(mk_CfgPrtSpi(p, x)).to_vec(),
        13 => <[u8; CfgRateBuilder::PACKET_LEN]>::from(mk_CfgRate(p, x)).to_vec(),
        14 => <[u8; CfgMsgSinglePortBuilder::PACKET_LEN]>::from(mk_CfgMsgSinglePort(p, x)).to_vec(),
        15 => <[u8; CfgMsgAllPortsBuilder::PACKET_LEN]>::from(mk_CfgMsgAllPorts(p, x)).to_vec(),
        16 => <[u8; CfgNav5Builder::PACKET_LEN]>::from(mk_CfgNav5(p, x)).to_vec(),
        17 => <[u8; CfgNavX5Builder::PACKET_LEN]>::from(mk_CfgNavX5(p, x)).to_vec(),
        _ => unreachable!(),
    }
}
pub fn packet_len(i: usize) -> usize {
    match i {
        0 => NavResetOdoBuilder::PACKET_LEN,
        1 => CfgOdoBuilder::PACKET_LEN,
        2 => CfgItfmBuilder::PACKET_LEN,
        3 => CfgInfBuilder::PACKET_LEN,
        4 => AidIniBuilder::PACKET_LEN,
        5 => CfgRstBuilder::PACKET_LEN,
        6 => CfgAntBuilder::PACKET_LEN,
        7 => CfgTp5Builder::PACKET_LEN,
        8 => CfgTmode2Builder::PACKET_LEN,
        9 => CfgTmode3Builder::PACKET_LEN,
        10 => CfgPrtI2cBuilder::PACKET_LEN,
        11 => CfgPrtUartBuilder::PACKET_LEN,
        12 => CfgPrtSpiBuilder::PACKET_LEN,
        13 => CfgRateBuilder::PACKET_LEN,
        14 => CfgMsgSinglePortBuilder::PACKET_LEN,
        15 => CfgMsgAllPortsBuilder::PACKET_LEN,
        16 => CfgNav5Builder::PACKET_LEN,
        17 => CfgNavX5Builder::PACKET_LEN,
        _ => unreachable!(),
    }
}
pub fn create_of<T: MemWriter>(i: usize, p: &[u8], x: &[f64], out: &mut T) -> Result<(), MemWriterError<T::Error>> {
    match i {
        0 => mk_NavResetOdo(p, x).create_packet(out),
        1 => mk_CfgOdo(p, x).create_packet(out),
        2 => mk_CfgItfm(p, x).create_packet(out),
        3 => mk_CfgInf(p, x).create_packet(out),
        4 => mk_AidIni(p, x).create_packet(out),
        5 => mk_CfgRst(p, x).create_packet(out),
        6 => mk_CfgAnt(p, x).create_packet(out),
        7 => mk_CfgTp5(p, x).create_packet(out),
        8 => mk_CfgTmode2(p, x).create_packet(out),
        9 => mk_CfgTmode3(p, x).create_packet(out),
        10 => mk_CfgPrtI2c(p, x).create_packet(out),
        11 => mk_CfgPrtUart(p, x).create_packet(out),
        12 => mk_CfgPrtSpi(p, x).create_packet(out),
        13 => mk_CfgRate(p, x).create_packet(out),
        14 => mk_CfgMsgSinglePort(p, x).create_packet(out),
        15 => mk_CfgMsgAllPorts(p, x).create_packet(out),
        16 => mk_CfgNav5(p, x).create_packet(out),
        17 => mk_CfgNavX5(p, x).create_packet(out),
        _ => unreachable!(),
    }
}
/// build again from what the accessors of a received message return
pub fn rebuild(pk: &PacketRef) -> Option<Vec<u8>> {
    match pk {
        PacketRef::CfgOdo(r) => Some(re_CfgOdo(r).into_packet_bytes().to_vec()),
        PacketRef::CfgItfm(r) => Some(re_CfgItfm(r).into_packet_bytes().to_vec()),
        PacketRef::CfgInf(r) => Some(re_CfgInf(r).into_packet_bytes().to_vec()),
        PacketRef::CfgAnt(r) => Some(re_CfgAnt(r).into_packet_bytes().to_vec()),
        PacketRef::CfgTp5(r) => Some(re_CfgTp5(r).into_packet_bytes().to_vec()),
        PacketRef::CfgTmode2(r) => Some(re_CfgTmode2(r).into_packet_bytes().to_vec()),
        PacketRef::CfgTmode3(r) => Some(re_CfgTmode3(r).into_packet_bytes().to_vec()),
        PacketRef::CfgPrtI2c(r) => Some(re_CfgPrtI2c(r).into_packet_bytes().to_vec()),
        PacketRef::CfgPrtUart(r) => Some(re_CfgPrtUart(r).into_packet_bytes().to_vec()),
        PacketRef::CfgPrtSpi(r) => Some(re_CfgPrtSpi(r).into_packet_bytes().to_vec()),
        PacketRef::CfgNav5(r) => Some(re_CfgNav5(r).into_packet_bytes().to_vec()),
        PacketRef::CfgNavX5(r) => Some(re_CfgNavX5(r).into_packet_bytes().to_vec()),
        _ => None,
    }
}
/// default builders
pub fn defaults(i: usize) -> Option<Vec<u8>> {
    match i {
        1 => Some(CfgOdoBuilder::default().into_packet_bytes().to_vec()),
        3 => Some(CfgInfBuilder::default().into_packet_bytes().to_vec()),
        4 => Some(AidIniBuilder::default().into_packet_bytes().to_vec()),
        7 => Some(CfgTp5Builder::default().into_packet_bytes().to_vec()),
        8 => Some(CfgTmode2Builder::default().into_packet_bytes().to_vec()),
        9 => Some(CfgTmode3Builder::default().into_packet_bytes().to_vec()),
        10 => Some(CfgPrtI2cBuilder::default().into_packet_bytes().to_vec()),
        12 => Some(CfgPrtSpiBuilder::default().into_packet_bytes().to_vec()),
        16 => Some(CfgNav5Builder::default().into_packet_bytes().to_vec()),
        17 => Some(CfgNavX5Builder::default().into_packet_bytes().to_vec()),
        _ => None,
    }
}
pub const META: [(u8, u8); 66] = [(1, 2), (1, 18), (1, 20), (1, 19), (1, 7), (1, 3), (1, 4), (1, 97), (1, 6), (1, 53), (1, 53), (1, 9), (1, 16), (6, 30), (6, 57), (6, 2), (4, 0), (4, 2), (4, 3), (4, 1), (4, 4), (11, 1), (11, 50), (5, 1), (5, 0), (6, 4), (6, 19), (6, 49), (6, 61), (13, 4), (1, 38), (6, 113), (6, 138), (6, 0), (6, 0), (6, 0), (1, 33), (6, 8), (6, 1), (6, 1), (6, 36), (6, 35), (19, 96), (19, 6), (19, 0), (19, 0), (13, 1), (13, 3), (2, 21), (10, 9), (10, 40), (10, 4), (2, 50), (16, 2), (16, 3), (16, 21), (40, 1), (40, 2), (40, 0), (1, 5), (1, 34), (2, 19), (1, 17), (19, 0), (2, 21), (39, 3)];
pub const META_NAMES: [&str; 66] = ["NavPosLlh", "NavVelNed", "NavHpPosLlh", "NavHpPosEcef", "NavPvt", "NavStatus", "NavDop", "NavEoe", "NavSolution", "NavSatSvInfo", "NavSat", "NavOdo", "NavResetOdo", "CfgOdo", "CfgItfm", "CfgInf", "InfError", "InfNotice", "InfTest", "InfWarning", "InfDebug", "AidIni", "AlpSrv", "AckAck", "AckNak", "CfgRst", "CfgAnt", "CfgTp5", "CfgTmode2", "TimSvin", "NavTimeLs", "CfgTmode3", "CfgValSet", "CfgPrtI2c", "CfgPrtUart", "CfgPrtSpi", "NavTimeUTC", "CfgRate", "CfgMsgSinglePort", "CfgMsgAllPorts", "CfgNav5", "CfgNavX5", "MgaAck", "MgaGloEph", "MgaGpsIono", "MgaGpsEph", "TimTp", "TimTm2", "RxmRawx", "MonHw", "MonGnss", "MonVer", "RxmRtcm", "EsfMeas", "EsfRaw", "EsfIns", "HnrAtt", "HnrIns", "HnrPvt", "NavAtt", "NavClock", "RxmSfrbx", "NavVelECEF", "MgaGpsEPH", "RxmRawxInfo", "SecUniqId"];
pub fn poll(i: usize) -> [u8; 8] {
    match i {
        0 => UbxPacketRequest::request_for::<NavPosLlh>().into_packet_bytes(),
        1 => UbxPacketRequest::request_for::<NavVelNed>().into_packet_bytes(),
        2 => UbxPacketRequest::request_for::<NavHpPosLlh>().into_packet_bytes(),
        3 => UbxPacketRequest::request_for::<NavHpPosEcef>().into_packet_bytes(),
        4 => UbxPacketRequest::request_for::<NavPvt>().into_packet_bytes(),
        5 => UbxPacketRequest::request_for::<NavStatus>().into_packet_bytes(),
        6 => UbxPacketRequest::request_for::<NavDop>().into_packet_bytes(),
        7 => UbxPacketRequest::request_for::<NavEoe>().into_packet_bytes(),
        8 => UbxPacketRequest::request_for::<NavSolution>().into_packet_bytes(),
        9 => UbxPacketRequest::request_for::<NavSatSvInfo>().into_packet_bytes(),
        10 => UbxPacketRequest::request_for::<NavSat>().into_packet_bytes(),
        11 => UbxPacketRequest::request_for::<NavOdo>().into_packet_bytes(),
        12 => UbxPacketRequest::request_for::<NavResetOdo>().into_packet_bytes(),
        13 => UbxPacketRequest::request_for::<CfgOdo>().into_packet_bytes(),
        14 => UbxPacketRequest::request_for::<CfgItfm>().into_packet_bytes(),
        15 => UbxPacketRequest::request_for::<CfgInf>().into_packet_bytes(),
        16 => UbxPacketRequest::request_for::<InfError>().into_packet_bytes(),
        17 => UbxPacketRequest::request_for::<InfNotice>().into_packet_bytes(),
        18 => UbxPacketRequest::request_for::<InfTest>().into_packet_bytes(),
        19 => UbxPacketRequest::request_for::<InfWarning>().into_packet_bytes(),
        20 => UbxPacketRequest::request_for::<InfDebug>().into_packet_bytes(),
        21 => UbxPacketRequest::request_for::<AidIni>().into_packet_bytes(),
        22 => UbxPacketRequest::request_for::<AlpSrv>().into_packet_bytes(),
        23 => UbxPacketRequest::request_for::<AckAck>().into_packet_bytes(),
        24 => UbxPacketRequest::request_for::<AckNak>().into_packet_bytes(),
        25 => UbxPacketRequest::request_for::<CfgRst>().into_packet_bytes(),
        26 => UbxPacketRequest::request_for::<CfgAnt>().into_packet_bytes(),
        27 => UbxPacketRequest::request_for::<CfgTp5>().into_packet_bytes(),
        28 => UbxPacketRequest::request_for::<CfgTmode2>().into_packet_bytes(),
        29 => UbxPacketRequest::request_for::<TimSvin>().into_packet_bytes(),
        30 => UbxPacketRequest::request_for::<NavTimeLs>().into_packet_bytes(),
        31 => UbxPacketRequest::request_for::<CfgTmode3>().into_packet_bytes(),
        32 => UbxPacketRequest::request_for::<CfgValSet>().into_packet_bytes(),
        33 => UbxPacketRequest::request_for::<CfgPrtI2c>().into_packet_bytes(),
        34 => UbxPacketRequest::request_for::<CfgPrtUart>().into_packet_bytes(),
        35 => UbxPacketRequest::request_for::<CfgPrtSpi>().into_packet_bytes(),
        36 => UbxPacketRequest::request_for::<NavTimeUTC>().into_packet_bytes(),
        37 => UbxPacketRequest::request_for::<CfgRate>().into_packet_bytes(),
        38 => UbxPacketRequest::request_for::<CfgMsgSinglePort>().into_packet_bytes(),
        39 => UbxPacketRequest::request_for::<CfgMsgAllPorts>().into_packet_bytes(),
        40 => UbxPacketRequest::request_for::<CfgNav5>().into_packet_bytes(),
        41 => UbxPacketRequest::request_for::<CfgNavX5>().into_packet_bytes(),
        42 => UbxPacketRequest::request_for::<MgaAck>().into_packet_bytes(),
        43 => UbxPacketRequest::request_for::<MgaGloEph>().into_packet_bytes(),
        44 => UbxPacketRequest::request_for::<MgaGpsIono>().into_packet_bytes(),
        45 => UbxPacketRequest::request_for::<MgaGpsEph>().into_packet_bytes(),
        46 => UbxPacketRequest::request_for::<TimTp>().into_packet_bytes(),
        47 => UbxPacketRequest::request_for::<TimTm2>().into_packet_bytes(),
        48 => UbxPacketRequest::request_for::<RxmRawx>().into_packet_bytes(),
        49 => UbxPacketRequest::request_for::<MonHw>().into_packet_bytes(),
        50 => UbxPacketRequest::request_for::<MonGnss>().into_packet_bytes(),
        51 => UbxPacketRequest::request_for::<MonVer>().into_packet_bytes(),
        52 => UbxPacketRequest::request_for::<RxmRtcm>().into_packet_bytes(),
        53 => UbxPacketRequest::request_for::<EsfMeas>().into_packet_bytes(),
        54 => UbxPacketRequest::request_for::<EsfRaw>().into_packet_bytes(),
        55 => UbxPacketRequest::request_for::<EsfIns>().into_packet_bytes(),
        56 => UbxPacketRequest::request_for::<HnrAtt>().into_packet_bytes(),
        57 => UbxPacketRequest::request_for::<HnrIns>().into_packet_bytes(),
        58 => UbxPacketRequest::request_for::<HnrPvt>().into_packet_bytes(),
        59 => UbxPacketRequest::request_for::<NavAtt>().into_packet_bytes(),
        60 => UbxPacketRequest::request_for::<NavClock>().into_packet_bytes(),
        61 => UbxPacketRequest::request_for::<RxmSfrbx>().into_packet_bytes(),
        62 => UbxPacketRequest::request_for::<NavVelECEF>().into_packet_bytes(),
        63 => UbxPacketRequest::request_for::<MgaGpsEPH>().into_packet_bytes(),
        64 => UbxPacketRequest::request_for::<RxmRawxInfo>().into_packet_bytes(),
        65 => UbxPacketRequest::request_for::<SecUniqId>().into_packet_bytes(),
        _ => unreachable!(),
    }
}
pub fn acks(i: usize, r: &AckAckRef) -> bool {
    match i {
        0 => r.is_ack_for::<NavPosLlh>(),
        1 => r.is_ack_for::<NavVelNed>(),
        2 => r.is_ack_for::<NavHpPosLlh>(),
        3 => r.is_ack_for::<NavHpPosEcef>(),
        4 => r.is_ack_for::<NavPvt>(),
        5 => r.is_ack_for::<NavStatus>(),
        6 => r.is_ack_for::<NavDop>(),
        7 => r.is_ack_for::<NavEoe>(),
        8 => r.is_ack_for::<NavSolution>(),
        9 => r.is_ack_for::<NavSatSvInfo>(),
        10 => r.is_ack_for::<NavSat>(),
        11 => r.is_ack_for::<NavOdo>(),
        12 => r.is_ack_for::<NavResetOdo>(),
        13 => r.is_ack_for::<CfgOdo>(),
        14 => r.is_ack_for::<CfgItfm>(),
        15 => r.is_ack_for::<CfgInf>(),
        16 => r.is_ack_for::<InfError>(),
        17 => r.is_ack_for::<InfNotice>(),
        18 => r.is_ack_for::<InfTest>(),
        19 => r.is_ack_for::<InfWarning>(),
        20 => r.is_ack_for::<InfDebug>(),
        21 => r.is_ack_for::<AidIni>(),
        22 => r.is_ack_for::<AlpSrv>(),
        23 => r.is_ack_for::<AckAck>(),
        24 => r.is_ack_for::<AckNak>(),
        25 => r.is_ack_for::<CfgRst>(),
        26 => r.is_ack_for::<CfgAnt>(),
        27 => r.is_ack_for::<CfgTp5>(),
        28 => r.is_ack_for::<CfgTmode2>(),
        29 => r.is_ack_for::<TimSvin>(),
        30 => r.is_ack_for::<NavTimeLs>(),
        31 => r.is_ack_for::<CfgTmode3>(),
        32 => r.is_ack_for::<CfgValSet>(),
        33 => r.is_ack_for::<CfgPrtI2c>(),
        34 => r.is_ack_for::<CfgPrtUart>(),
        35 => r.is_ack_for::<CfgPrtSpi>(),
        36 => r.is_ack_for::<NavTimeUTC>(),
        37 => r.is_ack_for::<CfgRate>(),
        38 => r.is_ack_for::<CfgMsgSinglePort>(),
        39 => r.is_ack_for::<CfgMsgAllPorts>(),
        40 => r.is_ack_for::<CfgNav5>(),
        41 => r.is_ack_for::<CfgNavX5>(),
        42 => r.is_ack_for::<MgaAck>(),
        43 => r.is_ack_for::<MgaGloEph>(),
        44 => r.is_ack_for::<MgaGpsIono>(),
        45 => r.is_ack_for::<MgaGpsEph>(),
        46 => r.is_ack_for::<TimTp>(),
        47 => r.is_ack_for::<TimTm2>(),
        48 => r.is_ack_for::<RxmRawx>(),
        49 => r.is_ack_for::<MonHw>(),
        50 => r.is_ack_for::<MonGnss>(),
        51 => r.is_ack_for::<MonVer>(),
        52 => r.is_ack_for::<RxmRtcm>(),
        53 => r.is_ack_for::<EsfMeas>(),
        54 => r.is_ack_for::<EsfRaw>(),
        55 => r.is_ack_for::<EsfIns>(),
        56 => r.is_ack_for::<HnrAtt>(),
        57 => r.is_ack_for::<HnrIns>(),
        58 => r.is_ack_for::<HnrPvt>(),
        59 => r.is_ack_for::<NavAtt>(),
        60 => r.is_ack_for::<NavClock>(),
        61 => r.is_ack_for::<RxmSfrbx>(),
        62 => r.is_ack_for::<NavVelECEF>(),
        63 => r.is_ack_for::<MgaGpsEPH>(),
        64 => r.is_ack_for::<RxmRawxInfo>(),
        65 => r.is_ack_for::<SecUniqId>(),
        _ => unreachable!(),
    }
}
pub fn naks(i: usize, r: &AckNakRef) -> bool {
    match i {
        0 => r.is_nak_for::<NavPosLlh>(),
        1 => r.is_nak_for::<NavVelNed>(),
        2 => r.is_nak_for::<NavHpPosLlh>(),
        3 => r.is_nak_for::<NavHpPosEcef>(),
        4 => r.is_nak_for::<NavPvt>(),
        5 => r.is_nak_for::<NavStatus>(),
        6 => r.is_nak_for::<NavDop>(),
        7 => r.is_nak_for::<NavEoe>(),
        8 => r.is_nak_for::<NavSolution>(),
        9 => r.is_nak_for::<NavSatSvInfo>(),
        10 => r.is_nak_for::<NavSat>(),
        11 => r.is_nak_for::<NavOdo>(),
        12 => r.is_nak_for::<NavResetOdo>(),
        13 => r.is_nak_for::<CfgOdo>(),
        14 => r.is_nak_for::<CfgItfm>(),
        15 => r.is_nak_for::<CfgInf>(),
        16 => r.is_nak_for::<InfError>(),
        17 => r.is_nak_for::<InfNotice>(),
        18 => r.is_nak_for::<InfTest>(),
        19 => r.is_nak_for::<InfWarning>(),
        20 => r.is_nak_for::<InfDebug>(),
        21 => r.is_nak_for::<AidIni>(),
        22 => r.is_nak_for::<AlpSrv>(),
        23 => r.is_nak_for::<AckAck>(),
        24 => r.is_nak_for::<AckNak>(),
        25 => r.is_nak_for::<CfgRst>(),
        26 => r.is_nak_for::<CfgAnt>(),
        27 => r.is_nak_for::<CfgTp5>(),
        28 => r.is_nak_for::<CfgTmode2>(),
        29 => r.is_nak_for::<TimSvin>(),
        30 => r.is_nak_for::<NavTimeLs>(),
        31 => r.is_nak_for::<CfgTmode3>(),
        32 => r.is_nak_for::<CfgValSet>(),
        33 => r.is_nak_for::<CfgPrtI2c>(),
        34 => r.is_nak_for::<CfgPrtUart>(),
        35 => r.is_nak_for::<CfgPrtSpi>(),
        36 => r.is_nak_for::<NavTimeUTC>(),
        37 => r.is_nak_for::<CfgRate>(),
        38 => r.is_nak_for::<CfgMsgSinglePort>(),
        39 => r.is_nak_for::<CfgMsgAllPorts>(),
        40 => r.is_nak_for::<CfgNav5>(),
        41 => r.is_nak_for::<CfgNavX5>(),
        42 => r.is_nak_for::<MgaAck>(),
        43 => r.is_nak_for::<MgaGloEph>(),
        44 => r.is_nak_for::<MgaGpsIono>(),
        45 => r.is_nak_for::<MgaGpsEph>(),
        46 => r.is_nak_for::<TimTp>(),
        47 => r.is_nak_for::<TimTm2>(),
        48 => r.is_nak_for::<RxmRawx>(),
        49 => r.is_nak_for::<MonHw>(),
        50 => r.is_nak_for::<MonGnss>(),
        51 => r.is_nak_for::<MonVer>(),
        52 => r.is_nak_for::<RxmRtcm>(),
        53 => r.is_nak_for::<EsfMeas>(),
        54 => r.is_nak_for::<EsfRaw>(),
        55 => r.is_nak_for::<EsfIns>(),
        56 => r.is_nak_for::<HnrAtt>(),
        57 => r.is_nak_for::<HnrIns>(),
        58 => r.is_nak_for::<HnrPvt>(),
        59 => r.is_nak_for::<NavAtt>(),
        60 => r.is_nak_for::<NavClock>(),
        61 => r.is_nak_for::<RxmSfrbx>(),
        62 => r.is_nak_for::<NavVelECEF>(),
        63 => r.is_nak_for::<MgaGpsEPH>(),
        64 => r.is_nak_for::<RxmRawxInfo>(),
        65 => r.is_nak_for::<SecUniqId>(),
        _ => unreachable!(),
    }
}
pub fn rate1(i: usize, r: u8) -> Vec<u8> {
    match i {
        0 => CfgMsgSinglePortBuilder::set_rate_for::<NavPosLlh>(r).into_packet_bytes().to_vec(),
        1 => CfgMsgSinglePortBuilder::set_rate_for::<NavVelNed>(r).into_packet_bytes().to_vec(),
        2 => CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosLlh>(r).into_packet_bytes().to_vec(),
        3 => CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosEcef>(r).into_packet_bytes().to_vec(),
        4 => CfgMsgSinglePortBuilder::set_rate_for::<NavPvt>(r).into_packet_bytes().to_vec(),
        5 => CfgMsgSinglePortBuilder::set_rate_for::<NavStatus>(r).into_packet_bytes().to_vec(),
        6 => CfgMsgSinglePortBuilder::set_rate_for::<NavDop>(r).into_packet_bytes().to_vec(),
        7 => CfgMsgSinglePortBuilder::set_rate_for::<NavEoe>(r).into_packet_bytes().to_vec(),
        8 => CfgMsgSinglePortBuilder::set_rate_for::<NavSolution>(r).into_packet_bytes().to_vec(),
        9 => CfgMsgSinglePortBuilder::set_rate_for::<NavSatSvInfo>(r).into_packet_bytes().to_vec(),
        10 => CfgMsgSinglePortBuilder::set_rate_for::<NavSat>(r).into_packet_bytes().to_vec(),
        11 => CfgMsgSinglePortBuilder::set_rate_for::<NavOdo>(r).into_packet_bytes().to_vec(),
        12 => CfgMsgSinglePortBuilder::set_rate_for::<NavResetOdo>(r).into_packet_bytes().to_vec(),
        13 => CfgMsgSinglePortBuilder::set_rate_for::<CfgOdo>(r).into_packet_bytes().to_vec(),
        14 => CfgMsgSinglePortBuilder::set_rate_for::<CfgItfm>(r).into_packet_bytes().to_vec(),
        15 => CfgMsgSinglePortBuilder::set_rate_for::<CfgInf>(r).into_packet_bytes().to_vec(),
        16 => CfgMsgSinglePortBuilder::set_rate_for::<InfError>(r).into_packet_bytes().to_vec(),
        17 => CfgMsgSinglePortBuilder::set_rate_for::<InfNotice>(r).into_packet_bytes().to_vec(),
        18 => CfgMsgSinglePortBuilder::set_rate_for::<InfTest>(r).into_packet_bytes().to_vec(),
        19 => CfgMsgSinglePortBuilder::set_rate_for::<InfWarning>(r).into_packet_bytes().to_vec(),
        20 => CfgMsgSinglePortBuilder::set_rate_for::<InfDebug>(r).into_packet_bytes().to_vec(),
        21 => CfgMsgSinglePortBuilder::set_rate_for::<AidIni>(r).into_packet_bytes().to_vec(),
        22 => CfgMsgSinglePortBuilder::set_rate_for::<AlpSrv>(r).into_packet_bytes().to_vec(),
        23 => CfgMsgSinglePortBuilder::set_rate_for::<AckAck>(r).into_packet_bytes().to_vec(),
        24 => CfgMsgSinglePortBuilder::set_rate_for::<AckNak>(r).into_packet_bytes().to_vec(),
        25 => CfgMsgSinglePortBuilder::set_rate_for::<CfgRst>(r).into_packet_bytes().to_vec(),
        26 => CfgMsgSinglePortBuilder::set_rate_for::<CfgAnt>(r).into_packet_bytes().to_vec(),
        27 => CfgMsgSinglePortBuilder::set_rate_for::<CfgTp5>(r).into_packet_bytes().to_vec(),
        28 => CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode2>(r).into_packet_bytes().to_vec(),
        29 => CfgMsgSinglePortBuilder::set_rate_for::<TimSvin>(r).into_packet_bytes().to_vec(),
        30 => CfgMsgSinglePortBuilder::set_rate_for::<NavTimeLs>(r).into_packet_bytes().to_vec(),
        31 => CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode3>(r).into_packet_bytes().to_vec(),
        32 => CfgMsgSinglePortBuilder::set_rate_for::<CfgValSet>(r).into_packet_bytes().to_vec(),
        33 => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtI2c>(r).into_packet_bytes().to_vec(),
        34 => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtUart>(r).into_packet_bytes().to_vec(),
        35 => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtSpi>(r).into_packet_bytes().to_vec(),
        36 => CfgMsgSinglePortBuilder::set_rate_for::<NavTimeUTC>(r).into_packet_bytes().to_vec(),
        37 => CfgMsgSinglePortBuilder::set_rate_for::<CfgRate>(r).into_packet_bytes().to_vec(),
        38 => CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgSinglePort>(r).into_packet_bytes().to_vec(),
        39 => CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgAllPorts>(r).into_packet_bytes().to_vec(),
        40 => CfgMsgSinglePortBuilder::set_rate_for::<CfgNav5>(r).into_packet_bytes().to_vec(),
        41 => CfgMsgSinglePortBuilder::set_rate_for::<CfgNavX5>(r).into_packet_bytes().to_vec(),
        42 => CfgMsgSinglePortBuilder::set_rate_for::<MgaAck>(r).into_packet_bytes().to_vec(),
        43 => CfgMsgSinglePortBuilder::set_rate_for::<MgaGloEph>(r).into_packet_bytes().to_vec(),
        44 => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsIono>(r).into_packet_bytes().to_vec(),
        45 => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEph>(r).into_packet_bytes().to_vec(),
        46 => CfgMsgSinglePortBuilder::set_rate_for::<TimTp>(r).into_packet_bytes().to_vec(),
        47 => CfgMsgSinglePortBuilder::set_rate_for::<TimTm2>(r).into_packet_bytes().to_vec(),
        48 => CfgMsgSinglePortBuilder::set_rate_for::<RxmRawx>(r).into_packet_bytes().to_vec(),
        49 => CfgMsgSinglePortBuilder::set_rate_for::<MonHw>(r).into_packet_bytes().to_vec(),
        50 => CfgMsgSinglePortBuilder::set_rate_for::<MonGnss>(r).into_packet_bytes().to_vec(),
        51 => CfgMsgSinglePortBuilder::set_rate_for::<MonVer>(r).into_packet_bytes().to_vec(),
        52 => CfgMsgSinglePortBuilder::set_rate_for::<RxmRtcm>(r).into_packet_bytes().to_vec(),
        53 => CfgMsgSinglePortBuilder::set_rate_for::<EsfMeas>(r).into_packet_bytes().to_vec(),
        54 => CfgMsgSinglePortBuilder::set_rate_for::<EsfRaw>(r).into_packet_bytes().to_vec(),
        55 => CfgMsgSinglePortBuilder::set_rate_for::<EsfIns>(r).into_packet_bytes().to_vec(),
        56 => CfgMsgSinglePortBuilder::set_rate_for::<HnrAtt>(r).into_packet_bytes().to_vec(),
        57 => CfgMsgSinglePortBuilder::set_rate_for::<HnrIns>(r).into_packet_bytes().to_vec(),
        58 => CfgMsgSinglePortBuilder::set_rate_for::<HnrPvt>(r).into_packet_bytes().to_vec(),
        59 => CfgMsgSinglePortBuilder::set_rate_for::<NavAtt>(r).into_packet_bytes().to_vec(),
        60 => CfgMsgSinglePortBuilder::set_rate_for::<NavClock>(r).into_packet_bytes().to_vec(),
        61 => CfgMsgSinglePortBuilder::set_rate_for::<RxmSfrbx>(r).into_packet_bytes().to_vec(),
        62 => CfgMsgSinglePortBuilder::set_rate_for::<NavVelECEF>(r).into_packet_bytes().to_vec(),
        63 => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEPH>(r).into_packet_bytes().to_vec(),
        64 => CfgMsgSinglePortBuilder::set_rate_for::<RxmRawxInfo>(r).into_packet_bytes().to_vec(),
        65 => CfgMsgSinglePortBuilder::set_rate_for::<SecUniqId>(r).into_packet_bytes().to_vec(),
        _ => unreachable!(),
    }
}
pub fn rate6(i: usize, r: [u8; 6]) -> Vec<u8> {
    match i {
        0 => CfgMsgAllPortsBuilder::set_rate_for::<NavPosLlh>(r).into_packet_bytes().to_vec(),
        1 => CfgMsgAllPortsBuilder::set_rate_for::<NavVelNed>(r).into_packet_bytes().to_vec(),
        2 => CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosLlh>(r).into_packet_bytes().to_vec(),
        3 => CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosEcef>(r).into_packet_bytes().to_vec(),
        4 => CfgMsgAllPortsBuilder::set_rate_for::<NavPvt>(r).into_packet_bytes().to_vec(),
        5 => CfgMsgAllPortsBuilder::set_rate_for::<NavStatus>(r).into_packet_bytes().to_vec(),
        6 => CfgMsgAllPortsBuilder::set_rate_for::<NavDop>(r).into_packet_bytes().to_vec(),
        7 => CfgMsgAllPortsBuilder::set_rate_for::<NavEoe>(r).into_packet_bytes().to_vec(),
        8 => CfgMsgAllPortsBuilder::set_rate_for::<NavSolution>(r).into_packet_bytes().to_vec(),
        9 => CfgMsgAllPortsBuilder::set_rate_for::<NavSatSvInfo>(r).into_packet_bytes().to_vec(),
        10 => CfgMsgAllPortsBuilder::set_rate_for::<NavSat>(r).into_packet_bytes().to_vec(),
        11 => CfgMsgAllPortsBuilder::set_rate_for::<NavOdo>(r).into_packet_bytes().to_vec(),
        12 => CfgMsgAllPortsBuilder::set_rate_for::<NavResetOdo>(r).into_packet_bytes().to_vec(),
        13 => CfgMsgAllPortsBuilder::set_rate_for::<CfgOdo>(r).into_packet_bytes().to_vec(),
        14 => CfgMsgAllPortsBuilder::set_rate_for::<CfgItfm>(r).into_packet_bytes().to_vec(),
        15 => CfgMsgAllPortsBuilder::set_rate_for::<CfgInf>(r).into_packet_bytes().to_vec(),
        16 => CfgMsgAllPortsBuilder::set_rate_for::<InfError>(r).into_packet_bytes().to_vec(),
        17 => CfgMsgAllPortsBuilder::set_rate_for::<InfNotice>(r).into_packet_bytes().to_vec(),
        18 => CfgMsgAllPortsBuilder::set_rate_for::<InfTest>(r).into_packet_bytes().to_vec(),
        19 => CfgMsgAllPortsBuilder::set_rate_for::<InfWarning>(r).into_packet_bytes().to_vec(),
        20 => CfgMsgAllPortsBuilder::set_rate_for::<InfDebug>(r).into_packet_bytes().to_vec(),
        21 => CfgMsgAllPortsBuilder::set_rate_for::<AidIni>(r).into_packet_bytes().to_vec(),
        22 => CfgMsgAllPortsBuilder::set_rate_for::<AlpSrv>(r).into_packet_bytes().to_vec(),
        23 => CfgMsgAllPortsBuilder::set_rate_for::<AckAck>(r).into_packet_bytes().to_vec(),
        24 => CfgMsgAllPortsBuilder::set_rate_for::<AckNak>(r).into_packet_bytes().to_vec(),
        25 => CfgMsgAllPortsBuilder::set_rate_for::<CfgRst>(r).into_packet_bytes().to_vec(),
        26 => CfgMsgAllPortsBuilder::set_rate_for::<CfgAnt>(r).into_packet_bytes().to_vec(),
        27 => CfgMsgAllPortsBuilder::set_rate_for::<CfgTp5>(r).into_packet_bytes().to_vec(),
        28 => CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode2>(r).into_packet_bytes().to_vec(),
        29 => CfgMsgAllPortsBuilder::set_rate_for::<TimSvin>(r).into_packet_bytes().to_vec(),
        30 => CfgMsgAllPortsBuilder::set_rate_for::<NavTimeLs>(r).into_packet_bytes().to_vec(),
        31 => CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode3>(r).into_packet_bytes().to_vec(),
        32 => CfgMsgAllPortsBuilder::set_rate_for::<CfgValSet>(r).into_packet_bytes().to_vec(),
        33 => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtI2c>(r).into_packet_bytes().to_vec(),
        34 => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtUart>(r).into_packet_bytes().to_vec(),
        35 => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtSpi>(r).into_packet_bytes().to_vec(),
        36 => CfgMsgAllPortsBuilder::set_rate_for::<NavTimeUTC>(r).into_packet_bytes().to_vec(),
        37 => CfgMsgAllPortsBuilder::set_rate_for::<CfgRate>(r).into_packet_bytes().to_vec(),
        38 => CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgSinglePort>(r).into_packet_bytes().to_vec(),
        39 => CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgAllPorts>(r).into_packet_bytes().to_vec(),
        40 => CfgMsgAllPortsBuilder::set_rate_for::<CfgNav5>(r).into_packet_bytes().to_vec(),
        41 => CfgMsgAllPortsBuilder::set_rate_for::<CfgNavX5>(r).into_packet_bytes().to_vec(),
        42 => CfgMsgAllPortsBuilder::set_rate_for::<MgaAck>(r).into_packet_bytes().to_vec(),
        43 => CfgMsgAllPortsBuilder::set_rate_for::<MgaGloEph>(r).into_packet_bytes().to_vec(),
        44 => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsIono>(r).into_packet_bytes().to_vec(),
        45 => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEph>(r).into_packet_bytes().to_vec(),
        46 => CfgMsgAllPortsBuilder::set_rate_for::<TimTp>(r).into_packet_bytes().to_vec(),
        47 => CfgMsgAllPortsBuilder::set_rate_for::<TimTm2>(r).into_packet_bytes().to_vec(),
        48 => CfgMsgAllPortsBuilder::set_rate_for::<RxmRawx>(r).into_packet_bytes().to_vec(),
        49 => CfgMsgAllPortsBuilder::set_rate_for::<MonHw>(r).into_packet_bytes().to_vec(),
        50 => CfgMsgAllPortsBuilder::set_rate_for::<MonGnss>(r).into_packet_bytes().to_vec(),
        51 => CfgMsgAllPortsBuilder::set_rate_for::<MonVer>(r).into_packet_bytes().to_vec(),
        52 => CfgMsgAllPortsBuilder::set_rate_for::<RxmRtcm>(r).into_packet_bytes().to_vec(),
        53 => CfgMsgAllPortsBuilder::set_rate_for::<EsfMeas>(r).into_packet_bytes().to_vec(),
        54 => CfgMsgAllPortsBuilder::set_rate_for::<EsfRaw>(r).into_packet_bytes().to_vec(),
        55 => CfgMsgAllPortsBuilder::set_rate_for::<EsfIns>(r).into_packet_bytes().to_vec(),
        56 => CfgMsgAllPortsBuilder::set_rate_for::<HnrAtt>(r).into_packet_bytes().to_vec(),
        57 => CfgMsgAllPortsBuilder::set_rate_for::<HnrIns>(r).into_packet_bytes().to_vec(),
        58 => CfgMsgAllPortsBuilder::set_rate_for::<HnrPvt>(r).into_packet_bytes().to_vec(),
        59 => CfgMsgAllPortsBuilder::set_rate_for::<NavAtt>(r).into_packet_bytes().to_vec(),
        60 => CfgMsgAllPortsBuilder::set_rate_for::<NavClock>(r).into_packet_bytes().to_vec(),
        61 => CfgMsgAllPortsBuilder::set_rate_for::<RxmSfrbx>(r).into_packet_bytes().to_vec(),
        62 => CfgMsgAllPortsBuilder::set_rate_for::<NavVelECEF>(r).into_packet_bytes().to_vec(),
        63 => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEPH>(r).into_packet_bytes().to_vec(),
        64 => CfgMsgAllPortsBuilder::set_rate_for::<RxmRawxInfo>(r).into_packet_bytes().to_vec(),
        65 => CfgMsgAllPortsBuilder::set_rate_for::<SecUniqId>(r).into_packet_bytes().to_vec(),
        _ => unreachable!(),
    }
}
pub fn meta(i: usize) -> (u8, u8) {
    match i {
        0 => (<NavPosLlh as UbxPacketMeta>::CLASS, <NavPosLlh as UbxPacketMeta>::ID),
        1 => (<NavVelNed as UbxPacketMeta>::CLASS, <NavVelNed as UbxPacketMeta>::ID),
        2 => (<NavHpPosLlh as UbxPacketMeta>::CLASS, <NavHpPosLlh as UbxPacketMeta>::ID),
        3 => (<NavHpPosEcef as UbxPacketMeta>::CLASS, <NavHpPosEcef as UbxPacketMeta>::ID),
        4 => (<NavPvt as UbxPacketMeta>::CLASS, <NavPvt as UbxPacketMeta>::ID),
        5 => (<NavStatus as UbxPacketMeta>::CLASS, <NavStatus as UbxPacketMeta>::ID),
        6 => (<NavDop as UbxPacketMeta>::CLASS, <NavDop as UbxPacketMeta>::ID),
        7 => (<NavEoe as UbxPacketMeta>::CLASS, <NavEoe as UbxPacketMeta>::ID),
        8 => (<NavSolution as UbxPacketMeta>::CLASS, <NavSolution as UbxPacketMeta>::ID),
        9 => (<NavSatSvInfo as UbxPacketMeta>::CLASS, <NavSatSvInfo as UbxPacketMeta>::ID),
        10 => (<NavSat as UbxPacketMeta>::CLASS, <NavSat as UbxPacketMeta>::ID),
        11 => (<NavOdo as UbxPacketMeta>::CLASS, <NavOdo as UbxPacketMeta>::ID),
        12 => (<NavResetOdo as UbxPacketMeta>::CLASS, <NavResetOdo as UbxPacketMeta>::ID),
        13 => (<CfgOdo as UbxPacketMeta>::CLASS, <CfgOdo as UbxPacketMeta>::ID),
        14 => (<CfgItfm as UbxPacketMeta>::CLASS, <CfgItfm as UbxPacketMeta>::ID),
        15 => (<CfgInf as UbxPacketMeta>::CLASS, <CfgInf as UbxPacketMeta>::ID),
        16 => (<InfError as UbxPacketMeta>::CLASS, <InfError as UbxPacketMeta>::ID),
        17 => (<InfNotice as UbxPacketMeta>::CLASS, <InfNotice as UbxPacketMeta>::ID),
        18 => (<InfTest as UbxPacketMeta>::CLASS, <InfTest as UbxPacketMeta>::ID),
        19 => (<InfWarning as UbxPacketMeta>::CLASS, <InfWarning as UbxPacketMeta>::ID),
        20 => (<InfDebug as UbxPacketMeta>::CLASS, <InfDebug as UbxPacketMeta>::ID),
        21 => (<AidIni as UbxPacketMeta>::CLASS, <AidIni as UbxPacketMeta>::ID),
        22 => (<AlpSrv as UbxPacketMeta>::CLASS, <AlpSrv as UbxPacketMeta>::ID),
        23 => (<AckAck as UbxPacketMeta>::CLASS, <AckAck as UbxPacketMeta>::ID),
        24 => (<AckNak as UbxPacketMeta>::CLASS, <AckNak as UbxPacketMeta>::ID),
        25 => (<CfgRst as UbxPacketMeta>::CLASS, <CfgRst as UbxPacketMeta>::ID),
        26 => (<CfgAnt as UbxPacketMeta>::CLASS, <CfgAnt as UbxPacketMeta>::ID),
        27 => (<CfgTp5 as UbxPacketMeta>::CLASS, <CfgTp5 as UbxPacketMeta>::ID),
        28 => (<CfgTmode2 as UbxPacketMeta>::CLASS, <CfgTmode2 as UbxPacketMeta>::ID),
        29 => (<TimSvin as UbxPacketMeta>::CLASS, <TimSvin as UbxPacketMeta>::ID),
        30 => (<NavTimeLs as UbxPacketMeta>::CLASS, <NavTimeLs as UbxPacketMeta>::ID),
        31 => (<CfgTmode3 as UbxPacketMeta>::CLASS, <CfgTmode3 as UbxPacketMeta>::ID),
        32 => (<CfgValSet as UbxPacketMeta>::CLASS, <CfgValSet as UbxPacketMeta>::ID),
        33 => (<CfgPrtI2c as UbxPacketMeta>::CLASS, <CfgPrtI2c as UbxPacketMeta>::ID),
        34 => (<CfgPrtUart as UbxPacketMeta>::CLASS, <CfgPrtUart as UbxPacketMeta>::ID),
        35 => (<CfgPrtSpi as UbxPacketMeta>::CLASS, <CfgPrtSpi as UbxPacketMeta>::ID),
        36 => (<NavTimeUTC as UbxPacketMeta>::CLASS, <NavTimeUTC as UbxPacketMeta>::ID),
        37 => (<CfgRate as UbxPacketMeta>::CLASS, <CfgRate as UbxPacketMeta>::ID),
        38 => (<CfgMsgSinglePort as UbxPacketMeta>::CLASS, <CfgMsgSinglePort as UbxPacketMeta>::ID),
        39 => (<CfgMsgAllPorts as UbxPacketMeta>::CLASS, <CfgMsgAllPorts as UbxPacketMeta>::ID),
        40 => (<CfgNav5 as UbxPacketMeta>::CLASS, <CfgNav5 as UbxPacketMeta>::ID),
        41 => (<CfgNavX5 as UbxPacketMeta>::CLASS, <CfgNavX5 as UbxPacketMeta>::ID),
        42 => (<MgaAck as UbxPacketMeta>::CLASS, <MgaAck as UbxPacketMeta>::ID),
        43 => (<MgaGloEph as UbxPacketMeta>::CLASS, <MgaGloEph as UbxPacketMeta>::ID),
        44 => (<MgaGpsIono as UbxPacketMeta>::CLASS, <MgaGpsIono as UbxPacketMeta>::ID),
        45 => (<MgaGpsEph as UbxPacketMeta>::CLASS, <MgaGpsEph as UbxPacketMeta>::ID),
        46 => (<TimTp as UbxPacketMeta>::CLASS, <TimTp as UbxPacketMeta>::ID),
        47 => (<TimTm2 as UbxPacketMeta>::CLASS, <TimTm2 as UbxPacketMeta>::ID),
        48 => (<RxmRawx as UbxPacketMeta>::CLASS, <RxmRawx as UbxPacketMeta>::ID),
        49 => (<MonHw as UbxPacketMeta>::CLASS, <MonHw as UbxPacketMeta>::ID),
        50 => (<MonGnss as UbxPacketMeta>::CLASS, <MonGnss as UbxPacketMeta>::ID),
        51 => (<MonVer as UbxPacketMeta>::CLASS, <MonVer as UbxPacketMeta>::ID),
        52 => (<RxmRtcm as UbxPacketMeta>::CLASS, <RxmRtcm as UbxPacketMeta>::ID),
        53 => (<EsfMeas as UbxPacketMeta>::CLASS, <EsfMeas as UbxPacketMeta>::ID),
        54 => (<EsfRaw as UbxPacketMeta>::CLASS, <EsfRaw as UbxPacketMeta>::ID),
        55 => (<EsfIns as UbxPacketMeta>::CLASS, <EsfIns as UbxPacketMeta>::ID),
        56 => (<HnrAtt as UbxPacketMeta>::CLASS, <HnrAtt as UbxPacketMeta>::ID),
        57 => (<HnrIns as UbxPacketMeta>::CLASS, <HnrIns as UbxPacketMeta>::ID),
        58 => (<HnrPvt as UbxPacketMeta>::CLASS, <HnrPvt as UbxPacketMeta>::ID),
        59 => (<NavAtt as UbxPacketMeta>::CLASS, <NavAtt as UbxPacketMeta>::ID),
        60 => (<NavClock as UbxPacketMeta>::CLASS, <NavClock as UbxPacketMeta>::ID),
        61 => (<RxmSfrbx as UbxPacketMeta>::CLASS, <RxmSfrbx as UbxPacketMeta>::ID),
        62 => (<NavVelECEF as UbxPacketMeta>::CLASS, <NavVelECEF as UbxPacketMeta>::ID),
        63 => (<MgaGpsEPH as UbxPacketMeta>::CLASS, <MgaGpsEPH as UbxPacketMeta>::ID),
        64 => (<RxmRawxInfo as UbxPacketMeta>::CLASS, <RxmRawxInfo as UbxPacketMeta>::ID),
        65 => (<SecUniqId as UbxPacketMeta>::CLASS, <SecUniqId as UbxPacketMeta>::ID),
        _ => unreachable!(),
    }
}
