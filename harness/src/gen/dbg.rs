// generated by /verif/tools/gen.py from /verif/spec -- do not edit
#![allow(non_snake_case, unused_variables, clippy::all)]
use crate::dbg::*;
use ublox::*;
pub fn dbg_NavPosLlh(o: &mut Text, r: &NavPosLlhRef) {
    o.open("NavPosLlh");
    o.field("itow", &r.itow());
    o.field("lon", &r.lon_degrees());
    o.field("lat", &r.lat_degrees());
    o.field("height_meters", &r.height_meters());
    o.field("height_msl", &r.height_msl());
    o.field("h_ack", &r.h_ack());
    o.field("v_acc", &r.v_acc());
    o.close();
}
pub fn dbg_NavStatus(o: &mut Text, r: &NavStatusRef) {
    o.open("NavStatus");
    o.field("itow", &r.itow());
    o.field("fix_type", &r.fix_type());
    o.field("flags", &r.flags());
    o.fix_status("fix_stat", r.fix_stat());
    o.field("flags2", &r.flags2());
    o.field("time_to_first_fix", &r.time_to_first_fix());
    o.field("uptime_ms", &r.uptime_ms());
    o.close();
}
pub fn dbg_NavDop(o: &mut Text, r: &NavDopRef) {
    o.open("NavDop");
    o.field("itow", &r.itow());
    o.field("geometric_dop", &r.geometric_dop());
    o.field("position_dop", &r.position_dop());
    o.field("time_dop", &r.time_dop());
    o.field("vertical_dop", &r.vertical_dop());
    o.field("horizontal_dop", &r.horizontal_dop());
    o.field("northing_dop", &r.northing_dop());
    o.field("easting_dop", &r.easting_dop());
    o.close();
}
pub fn dbg_NavPvt(o: &mut Text, r: &NavPvtRef) {
    o.open("NavPvt");
    o.field("itow", &r.itow());
    o.field("year", &r.year());
    o.field("month", &r.month());
    o.field("day", &r.day());
    o.field("hour", &r.hour());
    o.field("min", &r.min());
    o.field("sec", &r.sec());
    o.field("valid", &r.valid());
    o.field("time_accuracy", &r.time_accuracy());
    o.field("nanosecond", &r.nanosecond());
    o.field("fix_type", &r.fix_type());
    o.field("flags", &r.flags());
    o.field("flags2", &r.flags2());
    o.field("num_satellites", &r.num_satellites());
    o.field("lon", &r.lon_degrees());
    o.field("lat", &r.lat_degrees());
    o.field("height_meters", &r.height_meters());
    o.field("height_msl", &r.height_msl());
    o.field("horiz_accuracy", &r.horiz_accuracy());
    o.field("vert_accuracy", &r.vert_accuracy());
    o.field("vel_north", &r.vel_north());
    o.field("vel_east", &r.vel_east());
    o.field("vel_down", &r.vel_down());
    o.field("ground_speed", &r.ground_speed());
    o.field("heading", &r.heading_degrees());
    o.field("speed_accuracy_estimate", &r.speed_accuracy_estimate());
    o.field("heading_accuracy_estimate", &r.heading_accuracy_estimate());
    o.field("pdop", &r.pdop());
    o.field("reserved1", &r.reserved1());
    o.field("heading_of_vehicle", &r.heading_of_vehicle_degrees());
    o.field("magnetic_declination", &r.magnetic_declination_degrees());
    o.field("magnetic_declination_accuracy", &r.magnetic_declination_accuracy_degrees());
    o.close();
}
pub fn dbg_NavSolution(o: &mut Text, r: &NavSolutionRef) {
    o.open("NavSolution");
    o.field("itow", &r.itow());
    o.field("ftow_ns", &r.ftow_ns());
    o.field("week", &r.week());
    o.field("fix_type", &r.fix_type());
    o.field("flags", &r.flags());
    o.field("ecef_x", &r.ecef_x());
    o.field("ecef_y", &r.ecef_y());
    o.field("ecef_z", &r.ecef_z());
    o.field("position_accuracy_estimate", &r.position_accuracy_estimate());
    o.field("ecef_vx", &r.ecef_vx());
    o.field("ecef_vy", &r.ecef_vy());
    o.field("ecef_vz", &r.ecef_vz());
    o.field("speed_accuracy_estimate", &r.speed_accuracy_estimate());
    o.field("pdop", &r.pdop());
    o.field("reserved1", &r.reserved1());
    o.field("num_sv", &r.num_sv());
    o.field("reserved2", &r.reserved2());
    o.close();
}
pub fn dbg_NavVelNed(o: &mut Text, r: &NavVelNedRef) {
    o.open("NavVelNed");
    o.field("itow", &r.itow());
    o.field("vel_north", &r.vel_north());
    o.field("vel_east", &r.vel_east());
    o.field("vel_down", &r.vel_down());
    o.field("speed_3d", &r.speed_3d());
    o.field("ground_speed", &r.ground_speed());
    o.field("heading", &r.heading_degrees());
    o.field("speed_accuracy_estimate", &r.speed_accuracy_estimate());
    o.field("course_heading_accuracy_estimate", &r.course_heading_accuracy_estimate());
    o.close();
}
pub fn dbg_NavHpPosLlh(o: &mut Text, r: &NavHpPosLlhRef) {
    o.open("NavHpPosLlh");
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("itow", &r.itow());
    o.field("lon", &r.lon_degrees());
    o.field("lat", &r.lat_degrees());
    o.field("height_meters", &r.height_meters());
    o.field("height_msl", &r.height_msl());
    o.field("lon_hp", &r.lon_hp_degrees());
    o.field("lat_hp", &r.lat_hp_degrees());
    o.field("height_hp_meters", &r.height_hp_meters());
    o.field("height_hp_msl", &r.height_hp_msl());
    o.field("horizontal_accuracy", &r.horizontal_accuracy());
    o.field("vertical_accuracy", &r.vertical_accuracy());
    o.close();
}
pub fn dbg_NavHpPosEcef(o: &mut Text, r: &NavHpPosEcefRef) {
    o.open("NavHpPosEcef");
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("itow", &r.itow());
    o.field("ecef_x", &r.ecef_x_cm());
    o.field("ecef_y", &r.ecef_y_cm());
    o.field("ecef_z", &r.ecef_z_cm());
    o.field("ecef_x_hp", &r.ecef_x_hp_mm());
    o.field("ecef_y_hp", &r.ecef_y_hp_mm());
    o.field("ecef_z_hp", &r.ecef_z_hp_mm());
    o.field("flags", &r.flags());
    o.field("p_acc", &r.p_acc());
    o.close();
}
pub fn dbg_NavTimeUTC(o: &mut Text, r: &NavTimeUTCRef) {
    o.open("NavTimeUTC");
    o.field("itow", &r.itow());
    o.field("time_accuracy_estimate_ns", &r.time_accuracy_estimate_ns());
    o.field("nanos", &r.nanos());
    o.field("year", &r.year());
    o.field("month", &r.month());
    o.field("day", &r.day());
    o.field("hour", &r.hour());
    o.field("min", &r.min());
    o.field("sec", &r.sec());
    o.field("valid", &r.valid());
    o.close();
}
pub fn dbg_NavTimeLs(o: &mut Text, r: &NavTimeLsRef) {
    o.open("NavTimeLs");
    o.field("itow", &r.itow());
    o.field("version", &r.version());
    o.field("reserved_1", &r.reserved_1());
    o.field("src_of_curr_ls", &r.src_of_curr_ls());
    o.field("current_ls", &r.current_ls());
    o.field("src_of_ls_change", &r.src_of_ls_change());
    o.field("ls_change", &r.ls_change());
    o.field("time_to_ls_event", &r.time_to_ls_event());
    o.field("date_of_ls_gps_wn", &r.date_of_ls_gps_wn());
    o.field("date_of_ls_gps_dn", &r.date_of_ls_gps_dn());
    o.field("reserved_2", &r.reserved_2());
    o.field("valid", &r.valid());
    o.close();
}
pub fn dbg_NavSat(o: &mut Text, r: &NavSatRef) {
    o.open("NavSat");
    o.field("itow", &r.itow());
    o.field("version", &r.version());
    o.field("num_svs", &r.num_svs());
    o.field("reserved", &r.reserved());
    o.field("svs", &r.svs());
    o.close();
}
pub fn dbg_NavEoe(o: &mut Text, r: &NavEoeRef) {
    o.open("NavEoe");
    o.field("itow", &r.itow());
    o.close();
}
pub fn dbg_NavOdo(o: &mut Text, r: &NavOdoRef) {
    o.open("NavOdo");
    o.field("version", &r.version());
    o.field("reserved", &r.reserved());
    o.field("itow", &r.itow());
    o.field("distance", &r.distance());
    o.field("total_distance", &r.total_distance());
    o.field("distance_std", &r.distance_std());
    o.close();
}
pub fn dbg_CfgOdo(o: &mut Text, r: &CfgOdoRef) {
    o.open("CfgOdo");
    o.field("version", &r.version());
    o.field("reserved", &r.reserved());
    o.field("flags", &r.flags());
    o.field("odo_cfg", &r.odo_cfg());
    o.field("reserved2", &r.reserved2());
    o.field("cog_max_speed", &r.cog_max_speed());
    o.field("cog_max_pos_acc", &r.cog_max_pos_acc());
    o.field("reserved3", &r.reserved3());
    o.field("vel_lp_gain", &r.vel_lp_gain());
    o.field("cog_lp_gain", &r.cog_lp_gain());
    o.field("reserved4", &r.reserved4());
    o.close();
}
pub fn dbg_MgaAck(o: &mut Text, r: &MgaAckRef) {
    o.open("MgaAck");
    o.field("ack_type", &r.ack_type());
    o.field("version", &r.version());
    o.field("info_code", &r.info_code());
    o.field("msg_id", &r.msg_id());
    o.field("msg_payload_start", &r.msg_payload_start());
    o.close();
}
pub fn dbg_MgaGpsIono(o: &mut Text, r: &MgaGpsIonoRef) {
    o.open("MgaGpsIono");
    o.field("msg_type", &r.msg_type());
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("alpha0", &r.alpha0());
    o.field("alpha1", &r.alpha1());
    o.field("alpha2", &r.alpha2());
    o.field("alpha3", &r.alpha3());
    o.field("beta0", &r.beta0());
    o.field("beta1", &r.beta1());
    o.field("beta2", &r.beta2());
    o.field("beta3", &r.beta3());
    o.field("reserved2", &r.reserved2());
    o.close();
}
pub fn dbg_MgaGpsEph(o: &mut Text, r: &MgaGpsEphRef) {
    o.open("MgaGpsEph");
    o.field("msg_type", &r.msg_type());
    o.field("version", &r.version());
    o.field("sv_id", &r.sv_id());
    o.field("reserved1", &r.reserved1());
    o.field("fit_interval", &r.fit_interval());
    o.field("ura_index", &r.ura_index());
    o.field("sv_health", &r.sv_health());
    o.field("tgd", &r.tgd());
    o.field("iodc", &r.iodc());
    o.field("toc", &r.toc());
    o.field("reserved2", &r.reserved2());
    o.field("af2", &r.af2());
    o.field("af1", &r.af1());
    o.field("af0", &r.af0());
    o.field("crs", &r.crs());
    o.field("delta_n", &r.delta_n());
    o.field("m0", &r.m0());
    o.field("cuc", &r.cuc());
    o.field("cus", &r.cus());
    o.field("e", &r.e());
    o.field("sqrt_a", &r.sqrt_a());
    o.field("toe", &r.toe());
    o.field("cic", &r.cic());
    o.field("omega0", &r.omega0());
    o.field("cis", &r.cis());
    o.field("crc", &r.crc());
    o.field("i0", &r.i0());
    o.field("omega", &r.omega());
    o.field("omega_dot", &r.omega_dot());
    o.field("idot", &r.idot());
    o.field("reserved3", &r.reserved3());
    o.close();
}
pub fn dbg_MgaGloEph(o: &mut Text, r: &MgaGloEphRef) {
    o.open("MgaGloEph");
    o.field("msg_type", &r.msg_type());
    o.field("version", &r.version());
    o.field("sv_id", &r.sv_id());
    o.field("reserved1", &r.reserved1());
    o.field("ft", &r.ft());
    o.field("b", &r.b());
    o.field("m", &r.m());
    o.field("h", &r.h());
    o.field("x", &r.x());
    o.field("y", &r.y());
    o.field("z", &r.z());
    o.field("dx", &r.dx());
    o.field("dy", &r.dy());
    o.field("dz", &r.dz());
    o.field("ddx", &r.ddx());
    o.field("ddy", &r.ddy());
    o.field("ddz", &r.ddz());
    o.field("tb", &r.tb());
    o.field("gamma", &r.gamma());
    o.field("e", &r.e());
    o.field("delta_tau", &r.delta_tau());
    o.field("tau", &r.tau());
    o.field("reserved2", &r.reserved2());
    o.close();
}
pub fn dbg_AlpSrv(o: &mut Text, r: &AlpSrvRef) {
    o.open("AlpSrv");
    o.field("id_size", &r.id_size());
    o.field("data_type", &r.data_type());
    o.field("offset", &r.offset());
    o.field("size", &r.size());
    o.field("file_id", &r.file_id());
    o.field("data_size", &r.data_size());
    o.field("id1", &r.id1());
    o.field("id2", &r.id2());
    o.field("id3", &r.id3());
    o.close();
}
pub fn dbg_AckAck(o: &mut Text, r: &AckAckRef) {
    o.open("AckAck");
    o.field("class", &r.class());
    o.field("msg_id", &r.msg_id());
    o.close();
}
pub fn dbg_AckNak(o: &mut Text, r: &AckNakRef) {
    o.open("AckNak");
    o.field("class", &r.class());
    o.field("msg_id", &r.msg_id());
    o.close();
}
pub fn dbg_CfgItfm(o: &mut Text, r: &CfgItfmRef) {
    o.open("CfgItfm");
    o.field("config", &r.config());
    o.field("config2", &r.config2());
    o.close();
}
pub fn dbg_CfgPrtI2c(o: &mut Text, r: &CfgPrtI2cRef) {
    o.open("CfgPrtI2c");
    o.field("portid", &r.portid());
    o.field("reserved1", &r.reserved1());
    o.field("tx_ready", &r.tx_ready());
    o.field("mode", &r.mode());
    o.field("reserved2", &r.reserved2());
    o.field("in_proto_mask", &r.in_proto_mask());
    o.field("out_proto_mask", &r.out_proto_mask());
    o.field("flags", &r.flags());
    o.field("reserved3", &r.reserved3());
    o.close();
}
pub fn dbg_CfgPrtSpi(o: &mut Text, r: &CfgPrtSpiRef) {
    o.open("CfgPrtSpi");
    o.field("portid", &r.portid());
    o.field("reserved0", &r.reserved0());
    o.field("tx_ready", &r.tx_ready());
    o.field("mode", &r.mode());
    o.field("reserved3", &r.reserved3());
    o.field("in_proto_mask", &r.in_proto_mask());
    o.field("out_proto_mask", &r.out_proto_mask());
    o.field("flags", &r.flags());
    o.field("reserved5", &r.reserved5());
    o.close();
}
pub fn dbg_CfgPrtUart(o: &mut Text, r: &CfgPrtUartRef) {
    o.open("CfgPrtUart");
    o.field("portid", &r.portid());
    o.field("reserved0", &r.reserved0());
    o.field("tx_ready", &r.tx_ready());
    o.field("mode", &r.mode());
    o.field("baud_rate", &r.baud_rate());
    o.field("in_proto_mask", &r.in_proto_mask());
    o.field("out_proto_mask", &r.out_proto_mask());
    o.field("flags", &r.flags());
    o.field("reserved5", &r.reserved5());
    o.close();
}
pub fn dbg_CfgNav5(o: &mut Text, r: &CfgNav5Ref) {
    o.open("CfgNav5");
    o.field("mask", &r.mask());
    o.field("dyn_model", &r.dyn_model());
    o.field("fix_mode", &r.fix_mode());
    o.field("fixed_alt", &r.fixed_alt());
    o.field("fixed_alt_var", &r.fixed_alt_var());
    o.field("min_elev_degrees", &r.min_elev_degrees());
    o.field("dr_limit", &r.dr_limit());
    o.field("pdop", &r.pdop());
    o.field("tdop", &r.tdop());
    o.field("pacc", &r.pacc());
    o.field("tacc", &r.tacc());
    o.field("static_hold_thresh", &r.static_hold_thresh());
    o.field("dgps_time_out", &r.dgps_time_out());
    o.field("cno_thresh_num_svs", &r.cno_thresh_num_svs());
    o.field("cno_thresh", &r.cno_thresh());
    o.field("reserved1", &r.reserved1());
    o.field("static_hold_max_dist", &r.static_hold_max_dist());
    o.field("utc_standard", &r.utc_standard());
    o.field("reserved2", &r.reserved2());
    o.close();
}
pub fn dbg_CfgAnt(o: &mut Text, r: &CfgAntRef) {
    o.open("CfgAnt");
    o.field("flags", &r.flags());
    o.field("pins", &r.pins());
    o.close();
}
pub fn dbg_CfgTmode2(o: &mut Text, r: &CfgTmode2Ref) {
    o.open("CfgTmode2");
    o.field("time_transfer_mode", &r.time_transfer_mode());
    o.field("reserved1", &r.reserved1());
    o.field("flags", &r.flags());
    o.field("ecef_x_or_lat", &r.ecef_x_or_lat());
    o.field("ecef_y_or_lon", &r.ecef_y_or_lon());
    o.field("ecef_z_or_alt", &r.ecef_z_or_alt());
    o.field("fixed_pos_acc", &r.fixed_pos_acc());
    o.field("survey_in_min_duration", &r.survey_in_min_duration());
    o.field("survery_in_accur_limit", &r.survery_in_accur_limit());
    o.close();
}
pub fn dbg_CfgTmode3(o: &mut Text, r: &CfgTmode3Ref) {
    o.open("CfgTmode3");
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("rcvr_mode", &r.rcvr_mode());
    o.field("flags", &r.flags());
    o.field("ecef_x_or_lat", &r.ecef_x_or_lat());
    o.field("ecef_y_or_lon", &r.ecef_y_or_lon());
    o.field("ecef_z_or_alt", &r.ecef_z_or_alt());
    o.field("ecef_x_or_lat_hp", &r.ecef_x_or_lat_hp());
    o.field("ecef_y_or_lon_hp", &r.ecef_y_or_lon_hp());
    o.field("ecef_z_or_alt_hp", &r.ecef_z_or_alt_hp());
    o.field("reserved2", &r.reserved2());
    o.field("fixed_pos_acc", &r.fixed_pos_acc());
    o.field("sv_in_min_duration", &r.sv_in_min_duration());
    o.field("sv_in_accur_limit", &r.sv_in_accur_limit());
    o.field("reserved3", &r.reserved3());
    o.close();
}
pub fn dbg_CfgTp5(o: &mut Text, r: &CfgTp5Ref) {
    o.open("CfgTp5");
    o.field("tp_idx", &r.tp_idx());
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("ant_cable_delay", &r.ant_cable_delay());
    o.field("rf_group_delay", &r.rf_group_delay());
    o.field("freq_period", &r.freq_period());
    o.field("freq_period_lock", &r.freq_period_lock());
    o.field("pulse_len_ratio", &r.pulse_len_ratio());
    o.field("pulse_len_ratio_lock", &r.pulse_len_ratio_lock());
    o.field("user_delay", &r.user_delay());
    o.field("flags", &r.flags());
    o.close();
}
pub fn dbg_CfgInf(o: &mut Text, r: &CfgInfRef) {
    o.open("CfgInf");
    o.field("protocol_id", &r.protocol_id());
    o.field("reserved", &r.reserved());
    o.field("inf_msg_mask_0", &r.inf_msg_mask_0());
    o.field("inf_msg_mask_1", &r.inf_msg_mask_1());
    o.field("inf_msg_mask_2", &r.inf_msg_mask_2());
    o.field("inf_msg_mask_3", &r.inf_msg_mask_3());
    o.field("inf_msg_mask_4", &r.inf_msg_mask_4());
    o.field("inf_msg_mask_5", &r.inf_msg_mask_5());
    o.close();
}
pub fn dbg_CfgNavX5(o: &mut Text, r: &CfgNavX5Ref) {
    o.open("CfgNavX5");
    o.field("version", &r.version());
    o.field("mask1", &r.mask1());
    o.field("mask2", &r.mask2());
    o.field("reserved1", &r.reserved1());
    o.field("min_svs", &r.min_svs());
    o.field("max_svs", &r.max_svs());
    o.field("min_cno_dbhz", &r.min_cno_dbhz());
    o.field("reserved2", &r.reserved2());
    o.field("ini_fix_3d", &r.ini_fix_3d());
    o.field("reserved3", &r.reserved3());
    o.field("ack_aiding", &r.ack_aiding());
    o.field("wkn_rollover", &r.wkn_rollover());
    o.field("sig_atten_comp_mode", &r.sig_atten_comp_mode());
    o.field("reserved4", &r.reserved4());
    o.field("reserved5", &r.reserved5());
    o.field("reserved6", &r.reserved6());
    o.field("use_ppp", &r.use_ppp());
    o.field("aop_cfg", &r.aop_cfg());
    o.field("reserved7", &r.reserved7());
    o.field("aop_orb_max_err", &r.aop_orb_max_err());
    o.field("reserved8", &r.reserved8());
    o.field("reserved9", &r.reserved9());
    o.field("use_adr", &r.use_adr());
    o.close();
}
pub fn dbg_InfError(o: &mut Text, r: &InfErrorRef) {
    o.open("InfError");
    o.field("message", &r.message());
    o.close();
}
pub fn dbg_InfWarning(o: &mut Text, r: &InfWarningRef) {
    o.open("InfWarning");
    o.field("message", &r.message());
    o.close();
}
pub fn dbg_InfNotice(o: &mut Text, r: &InfNoticeRef) {
    o.open("InfNotice");
    o.field("message", &r.message());
    o.close();
}
pub fn dbg_InfTest(o: &mut Text, r: &InfTestRef) {
    o.open("InfTest");
    o.field("message", &r.message());
    o.close();
}
pub fn dbg_InfDebug(o: &mut Text, r: &InfDebugRef) {
    o.open("InfDebug");
    o.field("message", &r.message());
    o.close();
}
pub fn dbg_RxmRawx(o: &mut Text, r: &RxmRawxRef) {
    o.open("RxmRawx");
    o.field("rcv_tow", &r.rcv_tow());
    o.field("week", &r.week());
    o.field("leap_s", &r.leap_s());
    o.field("num_meas", &r.num_meas());
    o.field("rec_stat", &r.rec_stat());
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("measurements", &r.measurements());
    o.close();
}
pub fn dbg_TimTp(o: &mut Text, r: &TimTpRef) {
    o.open("TimTp");
    o.field("tow_ms", &r.tow_ms());
    o.field("tow_sub_ms", &r.tow_sub_ms());
    o.field("q_err", &r.q_err());
    o.field("week", &r.week());
    o.field("flags", &r.flags());
    o.field("ref_info", &r.ref_info());
    o.close();
}
pub fn dbg_TimTm2(o: &mut Text, r: &TimTm2Ref) {
    o.open("TimTm2");
    o.field("ch", &r.ch());
    o.field("flags", &r.flags());
    o.field("count", &r.count());
    o.field("wn_r", &r.wn_r());
    o.field("wn_f", &r.wn_f());
    o.field("tow_ms_r", &r.tow_ms_r());
    o.field("tow_sub_ms_r", &r.tow_sub_ms_r());
    o.field("tow_ms_f", &r.tow_ms_f());
    o.field("tow_sub_ms_f", &r.tow_sub_ms_f());
    o.field("acc_est", &r.acc_est());
    o.close();
}
pub fn dbg_MonVer(o: &mut Text, r: &MonVerRef) {
    o.open("MonVer");
    o.field("software_version", &r.software_version());
    o.field("hardware_version", &r.hardware_version());
    o.field("extension", &r.extension());
    o.close();
}
pub fn dbg_MonGnss(o: &mut Text, r: &MonGnssRef) {
    o.open("MonGnss");
    o.field("version", &r.version());
    o.field("supported", &r.supported());
    o.field("default", &r.default());
    o.field("enabled", &r.enabled());
    o.field("simultaneous", &r.simultaneous());
    o.field("reserved1", &r.reserved1());
    o.close();
}
pub fn dbg_MonHw(o: &mut Text, r: &MonHwRef) {
    o.open("MonHw");
    o.field("pin_sel", &r.pin_sel());
    o.field("pin_bank", &r.pin_bank());
    o.field("pin_dir", &r.pin_dir());
    o.field("pin_val", &r.pin_val());
    o.field("noise_per_ms", &r.noise_per_ms());
    o.field("agc_cnt", &r.agc_cnt());
    o.field("a_status", &r.a_status());
    o.field("a_power", &r.a_power());
    o.field("flags", &r.flags());
    o.field("reserved1", &r.reserved1());
    o.field("used_mask", &r.used_mask());
    o.field("vp", &r.vp());
    o.field("jam_ind", &r.jam_ind());
    o.field("reserved2", &r.reserved2());
    o.field("pin_irq", &r.pin_irq());
    o.field("pull_h", &r.pull_h());
    o.field("pull_l", &r.pull_l());
    o.close();
}
pub fn dbg_RxmRtcm(o: &mut Text, r: &RxmRtcmRef) {
    o.open("RxmRtcm");
    o.field("version", &r.version());
    o.field("flags", &r.flags());
    o.field("sub_type", &r.sub_type());
    o.field("ref_station", &r.ref_station());
    o.field("msg_type", &r.msg_type());
    o.close();
}
pub fn dbg_EsfMeas(o: &mut Text, r: &EsfMeasRef) {
    o.open("EsfMeas");
    o.field("time_tag", &r.time_tag());
    o.field("flags", &r.flags());
    o.field("id", &r.id());
    o.field("data", &r.data());
    o.field("calib_tag", &r.calib_tag());
    o.close();
}
pub fn dbg_EsfIns(o: &mut Text, r: &EsfInsRef) {
    o.open("EsfIns");
    o.field("bit_field", &r.bit_field());
    o.field("reserved", &r.reserved());
    o.field("itow", &r.itow());
    o.field("x_ang_rate", &r.x_angular_rate());
    o.field("y_ang_rate", &r.y_angular_rate());
    o.field("z_ang_rate", &r.z_angular_rate());
    o.field("x_accel", &r.x_acceleration());
    o.field("y_accel", &r.y_acceleration());
    o.field("z_accel", &r.z_acceleration());
    o.close();
}
pub fn dbg_HnrAtt(o: &mut Text, r: &HnrAttRef) {
    o.open("HnrAtt");
    o.field("itow", &r.itow());
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("roll", &r.vehicle_roll());
    o.field("pitch", &r.vehicle_pitch());
    o.field("heading", &r.vehicle_heading());
    o.field("acc_roll", &r.vehicle_roll_accuracy());
    o.field("acc_pitch", &r.vehicle_pitch_accuracy());
    o.field("acc_heading", &r.vehicle_heading_accuracy());
    o.close();
}
pub fn dbg_HnrIns(o: &mut Text, r: &HnrInsRef) {
    o.open("HnrIns");
    o.field("bit_field", &r.bit_field());
    o.field("reserved", &r.reserved());
    o.field("itow", &r.itow());
    o.field("x_ang_rate", &r.x_angular_rate());
    o.field("y_ang_rate", &r.y_angular_rate());
    o.field("z_ang_rate", &r.z_angular_rate());
    o.field("x_accel", &r.x_acceleration());
    o.field("y_accel", &r.y_acceleration());
    o.field("z_accel", &r.z_acceleration());
    o.close();
}
pub fn dbg_HnrPvt(o: &mut Text, r: &HnrPvtRef) {
    o.open("HnrPvt");
    o.field("itow", &r.itow());
    o.field("year", &r.year());
    o.field("month", &r.month());
    o.field("day", &r.day());
    o.field("hour", &r.hour());
    o.field("min", &r.min());
    o.field("sec", &r.sec());
    o.field("valid", &r.valid());
    o.field("nano", &r.nano());
    o.field("gps_fix", &r.gps_fix());
    o.field("flags", &r.flags());
    o.field("reserved1", &r.reserved1());
    o.field("lon", &r.longitude());
    o.field("lat", &r.latitude());
    o.field("height", &r.height_above_ellipsoid());
    o.field("height_msl", &r.height_msl());
    o.field("g_speed", &r.ground_speed_2d());
    o.field("speed", &r.speed_3d());
    o.field("head_mot", &r.heading_motion());
    o.field("head_veh", &r.heading_vehicle());
    o.field("h_acc", &r.h_acc());
    o.field("v_acc", &r.v_acc());
    o.field("s_acc", &r.s_acc());
    o.field("head_acc", &r.heading_accurracy());
    o.field("reserved2", &r.reserved2());
    o.close();
}
pub fn dbg_NavAtt(o: &mut Text, r: &NavAttRef) {
    o.open("NavAtt");
    o.field("itow", &r.itow());
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("roll", &r.vehicle_roll());
    o.field("pitch", &r.vehicle_pitch());
    o.field("heading", &r.vehicle_heading());
    o.field("acc_roll", &r.vehicle_roll_accuracy());
    o.field("acc_pitch", &r.vehicle_pitch_accuracy());
    o.field("acc_heading", &r.vehicle_heading_accuracy());
    o.close();
}
pub fn dbg_NavClock(o: &mut Text, r: &NavClockRef) {
    o.open("NavClock");
    o.field("itow", &r.itow());
    o.field("clk_b", &r.clk_b());
    o.field("clk_d", &r.clk_d());
    o.field("t_acc", &r.t_acc());
    o.field("f_acc", &r.f_acc());
    o.close();
}
pub fn dbg_NavVelECEF(o: &mut Text, r: &NavVelECEFRef) {
    o.open("NavVelECEF");
    o.field("itow", &r.itow());
    o.field("ecef_vx", &r.ecef_vx());
    o.field("ecef_vy", &r.ecef_vy());
    o.field("ecef_vz", &r.ecef_vz());
    o.field("s_acc", &r.s_acc());
    o.close();
}
pub fn dbg_MgaGpsEPH(o: &mut Text, r: &MgaGpsEPHRef) {
    o.open("MgaGpsEPH");
    o.field("msg_type", &r.msg_type());
    o.field("version", &r.version());
    o.field("sv_id", &r.sv_id());
    o.field("reserved1", &r.reserved1());
    o.field("fit_interval", &r.fit_interval());
    o.field("ura_index", &r.ura_index());
    o.field("sv_health", &r.sv_health());
    o.field("tgd", &r.tgd());
    o.field("iodc", &r.iodc());
    o.field("toc", &r.toc());
    o.field("reserved2", &r.reserved2());
    o.field("af2", &r.af2());
    o.field("afl", &r.afl());
    o.field("af0", &r.af0());
    o.field("crs", &r.crs());
    o.field("delta_n", &r.delta_n());
    o.field("m0", &r.m0());
    o.field("cuc", &r.cuc());
    o.field("cus", &r.cus());
    o.field("e", &r.e());
    o.field("sqrt_a", &r.sqrt_a());
    o.field("toe", &r.toe());
    o.field("cic", &r.cic());
    o.field("omega0", &r.omega0());
    o.field("cis", &r.cis());
    o.field("crc", &r.crc());
    o.field("i0", &r.i0());
    o.field("omega", &r.omega());
    o.field("omega_dot", &r.omega_dot());
    o.field("idot", &r.idot());
    o.field("reserved3", &r.reserved3());
    o.close();
}
pub fn dbg_RxmSfrbx(o: &mut Text, r: &RxmSfrbxRef) {
    o.open("RxmSfrbx");
    o.field("gnss_id", &r.gnss_id());
    o.field("sv_id", &r.sv_id());
    o.field("reserved1", &r.reserved1());
    o.field("freq_id", &r.freq_id());
    o.field("num_words", &r.num_words());
    o.field("reserved2", &r.reserved2());
    o.field("version", &r.version());
    o.field("reserved3", &r.reserved3());
    o.field("dwrd", &r.dwrd());
    o.close();
}
pub fn dbg_EsfRaw(o: &mut Text, r: &EsfRawRef) {
    o.open("EsfRaw");
    o.field("msss", &r.msss());
    o.field("data", &r.data());
    o.close();
}
pub fn dbg_TimSvin(o: &mut Text, r: &TimSvinRef) {
    o.open("TimSvin");
    o.field("dur", &r.dur());
    o.field("mean_x", &r.mean_x());
    o.field("mean_y", &r.mean_y());
    o.field("mean_z", &r.mean_z());
    o.field("mean_v", &r.mean_v());
    o.field("obs", &r.obs());
    o.field("valid", &r.valid());
    o.field("active", &r.active());
    o.field("reserved", &r.reserved());
    o.close();
}
pub fn dbg_SecUniqId(o: &mut Text, r: &SecUniqIdRef) {
    o.open("SecUniqId");
    o.field("version", &r.version());
    o.field("reserved1", &r.reserved1());
    o.field("unique_id", &r.unique_id());
    o.close();
}
pub fn dbg_NavSatSvInfo(o: &mut Text, r: &NavSatSvInfoRef) {
    o.open("NavSatSvInfo");
    o.field("gnss_id", &r.gnss_id());
    o.field("sv_id", &r.sv_id());
    o.field("cno", &r.cno());
    o.field("elev", &r.elev());
    o.field("azim", &r.azim());
    o.field("pr_res", &r.pr_res());
    o.sv_flags("flags", r.flags());
    o.close();
}
pub fn dbg_RxmRawxInfo(o: &mut Text, r: &RxmRawxInfoRef) {
    o.open("RxmRawxInfo");
    o.field("pr_mes", &r.pr_mes());
    o.field("cp_mes", &r.cp_mes());
    o.field("do_mes", &r.do_mes());
    o.field("gnss_id", &r.gnss_id());
    o.field("sv_id", &r.sv_id());
    o.field("reserved2", &r.reserved2());
    o.field("freq_id", &r.freq_id());
    o.field("lock_time", &r.lock_time());
    o.field("cno", &r.cno());
    o.field("pr_stdev", &r.pr_stdev());
    o.field("cp_stdev", &r.cp_stdev());
    o.field("do_stdev", &r.do_stdev());
    o.field("trk_stat", &r.trk_stat());
    o.field("reserved3", &r.reserved3());
    o.close();
}
pub fn dbg_all(o: &mut Text, pk: &PacketRef) {
    match pk {
        PacketRef::NavPosLlh(r) => dbg_NavPosLlh(o, r),
        PacketRef::NavStatus(r) => dbg_NavStatus(o, r),
        PacketRef::NavDop(r) => dbg_NavDop(o, r),
        PacketRef::NavPvt(r) => dbg_NavPvt(o, r),
        PacketRef::NavSolution(r) => dbg_NavSolution(o, r),
        PacketRef::NavVelNed(r) => dbg_NavVelNed(o, r),
        PacketRef::NavHpPosLlh(r) => dbg_NavHpPosLlh(o, r),
        PacketRef::NavHpPosEcef(r) => dbg_NavHpPosEcef(o, r),
        PacketRef::NavTimeUTC(r) => dbg_NavTimeUTC(o, r),
        PacketRef::NavTimeLs(r) => dbg_NavTimeLs(o, r),
        PacketRef::NavSat(r) => dbg_NavSat(o, r),
        PacketRef::NavEoe(r) => dbg_NavEoe(o, r),
        PacketRef::NavOdo(r) => dbg_NavOdo(o, r),
        PacketRef::CfgOdo(r) => dbg_CfgOdo(o, r),
        PacketRef::MgaAck(r) => dbg_MgaAck(o, r),
        PacketRef::MgaGpsIono(r) => dbg_MgaGpsIono(o, r),
        PacketRef::MgaGpsEph(r) => dbg_MgaGpsEph(o, r),
        PacketRef::MgaGloEph(r) => dbg_MgaGloEph(o, r),
        PacketRef::AlpSrv(r) => dbg_AlpSrv(o, r),
        PacketRef::AckAck(r) => dbg_AckAck(o, r),
        PacketRef::AckNak(r) => dbg_AckNak(o, r),
        PacketRef::CfgItfm(r) => dbg_CfgItfm(o, r),
        PacketRef::CfgPrtI2c(r) => dbg_CfgPrtI2c(o, r),
        PacketRef::CfgPrtSpi(r) => dbg_CfgPrtSpi(o, r),
        PacketRef::CfgPrtUart(r) => dbg_CfgPrtUart(o, r),
        PacketRef::CfgNav5(r) => dbg_CfgNav5(o, r),
        PacketRef::CfgAnt(r) => dbg_CfgAnt(o, r),
        PacketRef::CfgTmode2(r) => dbg_CfgTmode2(o, r),
        PacketRef::CfgTmode3(r) => dbg_CfgTmode3(o, r),
        PacketRef::CfgTp5(r) => dbg_CfgTp5(o, r),
        PacketRef::CfgInf(r) => dbg_CfgInf(o, r),
        PacketRef::CfgNavX5(r) => dbg_CfgNavX5(o, r),
        PacketRef::InfError(r) => dbg_InfError(o, r),
        PacketRef::InfWarning(r) => dbg_InfWarning(o, r),
        PacketRef::InfNotice(r) => dbg_InfNotice(o, r),
        PacketRef::InfTest(r) => dbg_InfTest(o, r),
        PacketRef::InfDebug(r) => dbg_InfDebug(o, r),
        PacketRef::RxmRawx(r) => dbg_RxmRawx(o, r),
        PacketRef::TimTp(r) => dbg_TimTp(o, r),
        PacketRef::TimTm2(r) => dbg_TimTm2(o, r),
        PacketRef::MonVer(r) => dbg_MonVer(o, r),
        PacketRef::MonGnss(r) => dbg_MonGnss(o, r),
        PacketRef::MonHw(r) => dbg_MonHw(o, r),
        PacketRef::RxmRtcm(r) => dbg_RxmRtcm(o, r),
        PacketRef::EsfMeas(r) => dbg_EsfMeas(o, r),
        PacketRef::EsfIns(r) => dbg_EsfIns(o, r),
        PacketRef::HnrAtt(r) => dbg_HnrAtt(o, r),
        PacketRef::HnrIns(r) => dbg_HnrIns(o, r),
        PacketRef::HnrPvt(r) => dbg_HnrPvt(o, r),
        PacketRef::NavAtt(r) => dbg_NavAtt(o, r),
        PacketRef::NavClock(r) => dbg_NavClock(o, r),
        PacketRef::NavVelECEF(r) => dbg_NavVelECEF(o, r),
        PacketRef::MgaGpsEPH(r) => dbg_MgaGpsEPH(o, r),
        PacketRef::RxmSfrbx(r) => dbg_RxmSfrbx(o, r),
        PacketRef::EsfRaw(r) => dbg_EsfRaw(o, r),
        PacketRef::TimSvin(r) => dbg_TimSvin(o, r),
        PacketRef::SecUniqId(r) => dbg_SecUniqId(o, r),
        _ => {}
    }
}
pub fn own(o: &mut Text, pk: &PacketRef) {
    match pk {
        PacketRef::NavPosLlh(r) => o.value(r),
        PacketRef::NavStatus(r) => o.value(r),
        PacketRef::NavDop(r) => o.value(r),
        PacketRef::NavPvt(r) => o.value(r),
        PacketRef::NavSolution(r) => o.value(r),
        PacketRef::NavVelNed(r) => o.value(r),
        PacketRef::NavHpPosLlh(r) => o.value(r),
        PacketRef::NavHpPosEcef(r) => o.value(r),
        PacketRef::NavTimeUTC(r) => o.value(r),
        PacketRef::NavTimeLs(r) => o.value(r),
        PacketRef::NavSat(r) => o.value(r),
        PacketRef::NavEoe(r) => o.value(r),
        PacketRef::NavOdo(r) => o.value(r),
        PacketRef::CfgOdo(r) => o.value(r),
        PacketRef::MgaAck(r) => o.value(r),
        PacketRef::MgaGpsIono(r) => o.value(r),
        PacketRef::MgaGpsEph(r) => o.value(r),
        PacketRef::MgaGloEph(r) => o.value(r),
        PacketRef::AlpSrv(r) => o.value(r),
        PacketRef::AckAck(r) => o.value(r),
        PacketRef::AckNak(r) => o.value(r),
        PacketRef::CfgItfm(r) => o.value(r),
        PacketRef::CfgPrtI2c(r) => o.value(r),
        PacketRef::CfgPrtSpi(r) => o.value(r),
        PacketRef::CfgPrtUart(r) => o.value(r),
        PacketRef::CfgNav5(r) => o.value(r),
        PacketRef::CfgAnt(r) => o.value(r),
        PacketRef::CfgTmode2(r) => o.value(r),
        PacketRef::CfgTmode3(r) => o.value(r),
        PacketRef::CfgTp5(r) => o.value(r),
        PacketRef::CfgInf(r) => o.value(r),
        PacketRef::CfgNavX5(r) => o.value(r),
        PacketRef::InfError(r) => o.value(r),
        PacketRef::InfWarning(r) => o.value(r),
        PacketRef::InfNotice(r) => o.value(r),
        PacketRef::InfTest(r) => o.value(r),
        PacketRef::InfDebug(r) => o.value(r),
        PacketRef::RxmRawx(r) => o.value(r),
        PacketRef::TimTp(r) => o.value(r),
        PacketRef::TimTm2(r) => o.value(r),
        PacketRef::MonVer(r) => o.value(r),
        PacketRef::MonGnss(r) => o.value(r),
        PacketRef::MonHw(r) => o.value(r),
        PacketRef::RxmRtcm(r) => o.value(r),
        PacketRef::EsfMeas(r) => o.value(r),
        PacketRef::EsfIns(r) => o.value(r),
        PacketRef::HnrAtt(r) => o.value(r),
        PacketRef::HnrIns(r) => o.value(r),
        PacketRef::HnrPvt(r) => o.value(r),
        PacketRef::NavAtt(r) => o.value(r),
        PacketRef::NavClock(r) => o.value(r),
        PacketRef::NavVelECEF(r) => o.value(r),
        PacketRef::MgaGpsEPH(r) => o.value(r),
        PacketRef::RxmSfrbx(r) => o.value(r),
        PacketRef::EsfRaw(r) => o.value(r),
        PacketRef::TimSvin(r) => o.value(r),
        PacketRef::SecUniqId(r) => o.value(r),
        _ => {}
    }
}
/// (offset, bytes, how much of it may be symbolic)
pub const FIELDS: [&[(usize, usize, u8)]; 57] = [
    &[(0, 4, 0), (4, 4, 3), (8, 4, 3), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 4, 3)],
    &[(0, 4, 0), (4, 1, 0), (5, 1, 1), (6, 1, 0), (7, 1, 0), (8, 4, 0), (12, 4, 0)],
    &[(0, 4, 0), (4, 2, 3), (6, 2, 3), (8, 2, 3), (10, 2, 3), (12, 2, 3), (14, 2, 3), (16, 2, 3)],
    &[(0, 4, 0), (4, 2, 0), (6, 1, 0), (7, 1, 0), (8, 1, 0), (9, 1, 0), (10, 1, 0), (11, 1, 0), (12, 4, 0), (16, 4, 0), (20, 1, 0), (21, 1, 1), (22, 1, 1), (23, 1, 0), (24, 4, 3), (28, 4, 3), (32, 4, 3), (36, 4, 3), (40, 4, 0), (44, 4, 0), (48, 4, 3), (52, 4, 3), (56, 4, 3), (60, 4, 3), (64, 4, 3), (68, 4, 3), (72, 4, 3), (76, 2, 0), (78, 6, 2), (84, 4, 3), (88, 2, 3), (90, 2, 3)],
    &[(0, 4, 0), (4, 4, 0), (8, 2, 0), (10, 1, 0), (11, 1, 1), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 4, 3), (28, 4, 3), (32, 4, 3), (36, 4, 3), (40, 4, 3), (44, 2, 3), (46, 1, 0), (47, 1, 0), (48, 4, 2)],
    &[(0, 4, 0), (4, 4, 3), (8, 4, 3), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 4, 3), (28, 4, 3), (32, 4, 3)],
    &[(0, 1, 0), (1, 3, 2), (4, 4, 0), (8, 4, 3), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 1, 3), (25, 1, 3), (26, 1, 3), (27, 1, 3), (28, 4, 3), (32, 4, 3)],
    &[(0, 1, 0), (1, 3, 2), (4, 4, 0), (8, 4, 3), (12, 4, 3), (16, 4, 3), (20, 1, 3), (21, 1, 3), (22, 1, 3), (23, 1, 1), (24, 4, 3)],
    &[(0, 4, 0), (4, 4, 0), (8, 4, 0), (12, 2, 0), (14, 1, 0), (15, 1, 0), (16, 1, 0), (17, 1, 0), (18, 1, 0), (19, 1, 1)],
    &[(0, 4, 0), (4, 1, 0), (5, 3, 2), (8, 1, 0), (9, 1, 0), (10, 1, 0), (11, 1, 0), (12, 4, 0), (16, 2, 0), (18, 2, 0), (20, 3, 2), (23, 1, 1)],
    &[(0, 4, 0), (4, 1, 0), (5, 1, 0), (6, 2, 2)],
    &[(0, 4, 0)],
    &[(0, 1, 0), (1, 3, 2), (4, 4, 0), (8, 4, 0), (12, 4, 0), (16, 4, 0)],
    &[(0, 1, 0), (1, 3, 2), (4, 1, 1), (5, 1, 0), (6, 6, 2), (12, 1, 0), (13, 1, 0), (14, 2, 2), (16, 1, 0), (17, 1, 0), (18, 2, 2)],
    &[(0, 1, 0), (1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 4, 2)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 2), (4, 1, 3), (5, 1, 3), (6, 1, 3), (7, 1, 3), (8, 1, 3), (9, 1, 3), (10, 1, 3), (11, 1, 3), (12, 4, 2)],
    &[(0, 1, 0), (1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 1, 0), (5, 1, 0), (6, 1, 0), (7, 1, 0), (8, 2, 0), (10, 2, 0), (12, 1, 0), (13, 1, 0), (14, 2, 0), (16, 4, 0), (20, 2, 0), (22, 2, 0), (24, 4, 0), (28, 2, 0), (30, 2, 0), (32, 4, 0), (36, 4, 0), (40, 2, 0), (42, 2, 0), (44, 4, 0), (48, 2, 0), (50, 2, 0), (52, 4, 0), (56, 4, 0), (60, 4, 0), (64, 2, 0), (66, 2, 2)],
    &[(0, 1, 0), (1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 1, 0), (5, 1, 0), (6, 1, 0), (7, 1, 0), (8, 4, 0), (12, 4, 0), (16, 4, 0), (20, 4, 0), (24, 4, 0), (28, 4, 0), (32, 1, 0), (33, 1, 0), (34, 1, 0), (35, 1, 0), (36, 2, 0), (38, 1, 0), (39, 1, 0), (40, 4, 0), (44, 4, 2)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 0), (4, 2, 0), (6, 2, 0), (8, 2, 0), (10, 1, 0), (11, 1, 0), (12, 4, 0)],
    &[(0, 1, 0), (1, 1, 0)],
    &[(0, 1, 0), (1, 1, 0)],
    &[(0, 4, 1), (4, 4, 1)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 0), (4, 4, 0), (8, 4, 0), (12, 2, 1), (14, 2, 1), (16, 2, 0), (18, 2, 0)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 0), (4, 4, 0), (8, 4, 0), (12, 2, 1), (14, 2, 1), (16, 2, 0), (18, 2, 0)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 0), (4, 4, 1), (8, 4, 0), (12, 2, 1), (14, 2, 1), (16, 2, 0), (18, 2, 0)],
    &[(0, 2, 1), (2, 1, 0), (3, 1, 0), (4, 4, 3), (8, 4, 3), (12, 1, 0), (13, 1, 0), (14, 2, 3), (16, 2, 3), (18, 2, 0), (20, 2, 0), (22, 1, 3), (23, 1, 0), (24, 1, 0), (25, 1, 0), (26, 2, 2), (28, 2, 0), (30, 1, 0), (31, 5, 2)],
    &[(0, 2, 1), (2, 2, 0)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 1), (4, 4, 3), (8, 4, 3), (12, 4, 3), (16, 4, 3), (20, 4, 0), (24, 4, 3)],
    &[(0, 1, 0), (1, 1, 0), (2, 1, 1), (3, 1, 1), (4, 4, 3), (8, 4, 3), (12, 4, 3), (16, 1, 3), (17, 1, 3), (18, 1, 3), (19, 1, 0), (20, 4, 3), (24, 4, 0), (28, 4, 3), (32, 8, 2)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 2), (4, 2, 3), (6, 2, 3), (8, 4, 3), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 4, 3), (28, 4, 1)],
    &[(0, 1, 0), (1, 3, 2), (4, 1, 1), (5, 1, 1), (6, 1, 1), (7, 1, 1), (8, 1, 1), (9, 1, 1)],
    &[(0, 2, 0), (2, 2, 1), (4, 4, 1), (8, 2, 2), (10, 1, 0), (11, 1, 0), (12, 1, 0), (13, 1, 0), (14, 1, 0), (15, 2, 2), (17, 1, 0), (18, 2, 0), (20, 1, 0), (21, 1, 0), (22, 2, 2), (24, 2, 2), (26, 1, 0), (27, 1, 0), (28, 2, 2), (30, 2, 0), (32, 4, 2), (36, 3, 2), (39, 1, 0)],
    &[],
    &[],
    &[],
    &[],
    &[],
    &[(0, 8, 3), (8, 2, 0), (10, 1, 0), (11, 1, 0), (12, 1, 1), (13, 1, 0), (14, 2, 2)],
    &[(0, 4, 0), (4, 4, 0), (8, 4, 0), (12, 2, 0), (14, 1, 0), (15, 1, 0)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 0), (4, 2, 0), (6, 2, 0), (8, 4, 0), (12, 4, 0), (16, 4, 0), (20, 4, 0), (24, 4, 0)],
    &[],
    &[(0, 1, 0), (1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 0), (5, 3, 2)],
    &[(0, 4, 0), (4, 4, 0), (8, 4, 0), (12, 4, 0), (16, 2, 0), (18, 2, 0), (20, 1, 0), (21, 1, 0), (22, 1, 0), (23, 1, 0), (24, 4, 0), (28, 17, 2), (45, 1, 0), (46, 2, 2), (48, 4, 0), (52, 4, 0), (56, 4, 0)],
    &[(0, 1, 0), (1, 1, 0), (2, 2, 0), (4, 2, 0), (6, 2, 0)],
    &[(0, 4, 0), (4, 2, 0), (6, 2, 0)],
    &[(0, 4, 1), (4, 4, 2), (8, 4, 0), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 4, 3), (28, 4, 3), (32, 4, 3)],
    &[(0, 4, 0), (4, 1, 0), (5, 3, 2), (8, 4, 3), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 4, 3), (28, 4, 3)],
    &[(0, 4, 1), (4, 4, 2), (8, 4, 0), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 4, 3), (28, 4, 3), (32, 4, 3)],
    &[(0, 4, 0), (4, 2, 0), (6, 1, 0), (7, 1, 0), (8, 1, 0), (9, 1, 0), (10, 1, 0), (11, 1, 1), (12, 4, 0), (16, 1, 0), (17, 1, 1), (18, 2, 2), (20, 4, 3), (24, 4, 3), (28, 4, 3), (32, 4, 3), (36, 4, 3), (40, 4, 3), (44, 4, 3), (48, 4, 3), (52, 4, 0), (56, 4, 0), (60, 4, 0), (64, 4, 3), (68, 4, 2)],
    &[(0, 4, 0), (4, 1, 0), (5, 3, 2), (8, 4, 3), (12, 4, 3), (16, 4, 3), (20, 4, 3), (24, 4, 3), (28, 4, 3)],
    &[(0, 4, 0), (4, 4, 0), (8, 4, 0), (12, 4, 0), (16, 4, 0)],
    &[(0, 4, 0), (4, 4, 0), (8, 4, 0), (12, 4, 0), (16, 4, 0)],
    &[(0, 1, 0), (1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 1, 0), (5, 1, 0), (6, 1, 0), (7, 1, 3), (8, 2, 0), (10, 2, 3), (12, 1, 0), (13, 1, 3), (14, 2, 3), (16, 4, 3), (20, 2, 3), (22, 2, 3), (24, 4, 3), (28, 2, 3), (30, 2, 3), (32, 4, 3), (36, 4, 3), (40, 2, 3), (42, 2, 3), (44, 4, 3), (48, 2, 3), (50, 2, 3), (52, 4, 3), (56, 4, 3), (60, 4, 3), (64, 2, 3), (66, 2, 2)],
    &[(0, 1, 0), (1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 1, 0), (5, 1, 0), (6, 1, 0), (7, 1, 0)],
    &[(0, 4, 0)],
    &[(0, 4, 0), (4, 4, 0), (8, 4, 0), (12, 4, 0), (16, 4, 0), (20, 4, 0), (24, 1, 0), (25, 1, 0), (26, 2, 2)],
    &[(0, 1, 0), (1, 3, 2), (4, 5, 2)],
];
#[allow(non_upper_case_globals)]
pub const FIELDS_NavSatSvInfo: &[(usize, usize, u8)] = &[(0, 1, 0), (1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 2, 0), (6, 2, 0), (8, 4, 1)];
#[allow(non_upper_case_globals)]
pub const FIELDS_RxmRawxInfo: &[(usize, usize, u8)] = &[(0, 8, 3), (8, 8, 3), (16, 4, 3), (20, 1, 0), (21, 1, 0), (22, 1, 0), (23, 1, 0), (24, 2, 0), (26, 1, 0), (27, 1, 1), (28, 1, 1), (29, 1, 1), (30, 1, 1), (31, 1, 0)];
