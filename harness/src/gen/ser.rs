// generated by /verif/tools/gen.py from /verif/spec -- do not edit
#![allow(non_snake_case, unused_variables, clippy::all)]
use crate::ser::*;
use ublox::*;
pub fn ser_NavPosLlh(e: &mut Exp, r: &NavPosLlhRef, p: &[u8]) {
    e.key("itow", "NavPosLlh.itow");
    e.int(r.itow() as i64 as u64, "NavPosLlh.itow");
    e.key("lon", "NavPosLlh.lon");
    e.float(r.lon_degrees() as f64, "NavPosLlh.lon");
    e.key("lat", "NavPosLlh.lat");
    e.float(r.lat_degrees() as f64, "NavPosLlh.lat");
    e.key("height_meters", "NavPosLlh.height_meters");
    e.float(r.height_meters() as f64, "NavPosLlh.height_meters");
    e.key("height_msl", "NavPosLlh.height_msl");
    e.float(r.height_msl() as f64, "NavPosLlh.height_msl");
    e.key("h_ack", "NavPosLlh.h_ack");
    e.float(r.h_ack() as f64, "NavPosLlh.h_ack");
    e.key("v_acc", "NavPosLlh.v_acc");
    e.float(r.v_acc() as f64, "NavPosLlh.v_acc");
}
pub fn ser_NavStatus(e: &mut Exp, r: &NavStatusRef, p: &[u8]) {
    e.key("itow", "NavStatus.itow");
    e.int(r.itow() as i64 as u64, "NavStatus.itow");
    e.key("fix_type", "NavStatus.fix_type");
    e.int(p[4] as u64, "NavStatus.fix_type");
    e.key("flags", "NavStatus.flags");
    e.int(p[5] as u64, "NavStatus.flags");
    e.key("fix_stat", "NavStatus.fix_stat");
    e.int(p[6] as u64, "NavStatus.fix_stat");
    e.key("flags2", "NavStatus.flags2");
    e.int(p[7] as u64, "NavStatus.flags2");
    e.key("time_to_first_fix", "NavStatus.time_to_first_fix");
    e.int(r.time_to_first_fix() as i64 as u64, "NavStatus.time_to_first_fix");
    e.key("uptime_ms", "NavStatus.uptime_ms");
    e.int(r.uptime_ms() as i64 as u64, "NavStatus.uptime_ms");
}
pub fn ser_NavDop(e: &mut Exp, r: &NavDopRef, p: &[u8]) {
    e.key("itow", "NavDop.itow");
    e.int(r.itow() as i64 as u64, "NavDop.itow");
    e.key("geometric_dop", "NavDop.geometric_dop");
    e.float(r.geometric_dop() as f64, "NavDop.geometric_dop");
    e.key("position_dop", "NavDop.position_dop");
    e.float(r.position_dop() as f64, "NavDop.position_dop");
    e.key("time_dop", "NavDop.time_dop");
    e.float(r.time_dop() as f64, "NavDop.time_dop");
    e.key("vertical_dop", "NavDop.vertical_dop");
    e.float(r.vertical_dop() as f64, "NavDop.vertical_dop");
    e.key("horizontal_dop", "NavDop.horizontal_dop");
    e.float(r.horizontal_dop() as f64, "NavDop.horizontal_dop");
    e.key("northing_dop", "NavDop.northing_dop");
    e.float(r.northing_dop() as f64, "NavDop.northing_dop");
    e.key("easting_dop", "NavDop.easting_dop");
    e.float(r.easting_dop() as f64, "NavDop.easting_dop");
}
pub fn ser_NavPvt(e: &mut Exp, r: &NavPvtRef, p: &[u8]) {
    e.key("itow", "NavPvt.itow");
    e.int(r.itow() as i64 as u64, "NavPvt.itow");
    e.key("year", "NavPvt.year");
    e.int(r.year() as i64 as u64, "NavPvt.year");
    e.key("month", "NavPvt.month");
    e.int(r.month() as i64 as u64, "NavPvt.month");
    e.key("day", "NavPvt.day");
    e.int(r.day() as i64 as u64, "NavPvt.day");
    e.key("hour", "NavPvt.hour");
    e.int(r.hour() as i64 as u64, "NavPvt.hour");
    e.key("min", "NavPvt.min");
    e.int(r.min() as i64 as u64, "NavPvt.min");
    e.key("sec", "NavPvt.sec");
    e.int(r.sec() as i64 as u64, "NavPvt.sec");
    e.key("valid", "NavPvt.valid");
    e.int(r.valid() as i64 as u64, "NavPvt.valid");
    e.key("time_accuracy", "NavPvt.time_accuracy");
    e.int(r.time_accuracy() as i64 as u64, "NavPvt.time_accuracy");
    e.key("nanosecond", "NavPvt.nanosecond");
    e.int(r.nanosecond() as i64 as u64, "NavPvt.nanosecond");
    e.key("fix_type", "NavPvt.fix_type");
    e.int(p[20] as u64, "NavPvt.fix_type");
    e.key("flags", "NavPvt.flags");
    e.int(p[21] as u64, "NavPvt.flags");
    e.key("flags2", "NavPvt.flags2");
    e.int(p[22] as u64, "NavPvt.flags2");
    e.key("num_satellites", "NavPvt.num_satellites");
    e.int(r.num_satellites() as i64 as u64, "NavPvt.num_satellites");
    e.key("lon", "NavPvt.lon");
    e.float(r.lon_degrees() as f64, "NavPvt.lon");
    e.key("lat", "NavPvt.lat");
    e.float(r.lat_degrees() as f64, "NavPvt.lat");
    e.key("height_meters", "NavPvt.height_meters");
    e.float(r.height_meters() as f64, "NavPvt.height_meters");
    e.key("height_msl", "NavPvt.height_msl");
    e.float(r.height_msl() as f64, "NavPvt.height_msl");
    e.key("horiz_accuracy", "NavPvt.horiz_accuracy");
    e.int(r.horiz_accuracy() as i64 as u64, "NavPvt.horiz_accuracy");
    e.key("vert_accuracy", "NavPvt.vert_accuracy");
    e.int(r.vert_accuracy() as i64 as u64, "NavPvt.vert_accuracy");
    e.key("vel_north", "NavPvt.vel_north");
    e.float(r.vel_north() as f64, "NavPvt.vel_north");
    e.key("vel_east", "NavPvt.vel_east");
    e.float(r.vel_east() as f64, "NavPvt.vel_east");
    e.key("vel_down", "NavPvt.vel_down");
    e.float(r.vel_down() as f64, "NavPvt.vel_down");
    e.key("ground_speed", "NavPvt.ground_speed");
    e.float(r.ground_speed() as f64, "NavPvt.ground_speed");
    e.key("heading", "NavPvt.heading");
    e.float(r.heading_degrees() as f64, "NavPvt.heading");
    e.key("speed_accuracy_estimate", "NavPvt.speed_accuracy_estimate");
    e.float(r.speed_accuracy_estimate() as f64, "NavPvt.speed_accuracy_estimate");
    e.key("heading_accuracy_estimate", "NavPvt.heading_accuracy_estimate");
    e.float(r.heading_accuracy_estimate() as f64, "NavPvt.heading_accuracy_estimate");
    e.key("pdop", "NavPvt.pdop");
    e.int(r.pdop() as i64 as u64, "NavPvt.pdop");
    e.key("reserved1", "NavPvt.reserved1");
    e.bytes(&p[78..84], "NavPvt.reserved1");
    e.key("heading_of_vehicle", "NavPvt.heading_of_vehicle");
    e.float(r.heading_of_vehicle_degrees() as f64, "NavPvt.heading_of_vehicle");
    e.key("magnetic_declination", "NavPvt.magnetic_declination");
    e.float(r.magnetic_declination_degrees() as f64, "NavPvt.magnetic_declination");
    e.key("magnetic_declination_accuracy", "NavPvt.magnetic_declination_accuracy");
    e.float(r.magnetic_declination_accuracy_degrees() as f64, "NavPvt.magnetic_declination_accuracy");
}
pub fn ser_NavSolution(e: &mut Exp, r: &NavSolutionRef, p: &[u8]) {
    e.key("itow", "NavSolution.itow");
    e.int(r.itow() as i64 as u64, "NavSolution.itow");
    e.key("ftow_ns", "NavSolution.ftow_ns");
    e.int(r.ftow_ns() as i64 as u64, "NavSolution.ftow_ns");
    e.key("week", "NavSolution.week");
    e.int(r.week() as i64 as u64, "NavSolution.week");
    e.key("fix_type", "NavSolution.fix_type");
    e.int(p[10] as u64, "NavSolution.fix_type");
    e.key("flags", "NavSolution.flags");
    e.int(p[11] as u64, "NavSolution.flags");
    e.key("ecef_x", "NavSolution.ecef_x");
    e.float(r.ecef_x() as f64, "NavSolution.ecef_x");
    e.key("ecef_y", "NavSolution.ecef_y");
    e.float(r.ecef_y() as f64, "NavSolution.ecef_y");
    e.key("ecef_z", "NavSolution.ecef_z");
    e.float(r.ecef_z() as f64, "NavSolution.ecef_z");
    e.key("position_accuracy_estimate", "NavSolution.position_accuracy_estimate");
    e.float(r.position_accuracy_estimate() as f64, "NavSolution.position_accuracy_estimate");
    e.key("ecef_vx", "NavSolution.ecef_vx");
    e.float(r.ecef_vx() as f64, "NavSolution.ecef_vx");
    e.key("ecef_vy", "NavSolution.ecef_vy");
    e.float(r.ecef_vy() as f64, "NavSolution.ecef_vy");
    e.key("ecef_vz", "NavSolution.ecef_vz");
    e.float(r.ecef_vz() as f64, "NavSolution.ecef_vz");
    e.key("speed_accuracy_estimate", "NavSolution.speed_accuracy_estimate");
    e.float(r.speed_accuracy_estimate() as f64, "NavSolution.speed_accuracy_estimate");
    e.key("pdop", "NavSolution.pdop");
    e.float(r.pdop() as f64, "NavSolution.pdop");
    e.key("reserved1", "NavSolution.reserved1");
    e.int(r.reserved1() as i64 as u64, "NavSolution.reserved1");
    e.key("num_sv", "NavSolution.num_sv");
    e.int(r.num_sv() as i64 as u64, "NavSolution.num_sv");
    e.key("reserved2", "NavSolution.reserved2");
    e.bytes(&p[48..52], "NavSolution.reserved2");
}
pub fn ser_NavVelNed(e: &mut Exp, r: &NavVelNedRef, p: &[u8]) {
    e.key("itow", "NavVelNed.itow");
    e.int(r.itow() as i64 as u64, "NavVelNed.itow");
    e.key("vel_north", "NavVelNed.vel_north");
    e.float(r.vel_north() as f64, "NavVelNed.vel_north");
    e.key("vel_east", "NavVelNed.vel_east");
    e.float(r.vel_east() as f64, "NavVelNed.vel_east");
    e.key("vel_down", "NavVelNed.vel_down");
    e.float(r.vel_down() as f64, "NavVelNed.vel_down");
    e.key("speed_3d", "NavVelNed.speed_3d");
    e.float(r.speed_3d() as f64, "NavVelNed.speed_3d");
    e.key("ground_speed", "NavVelNed.ground_speed");
    e.float(r.ground_speed() as f64, "NavVelNed.ground_speed");
    e.key("heading", "NavVelNed.heading");
    e.float(r.heading_degrees() as f64, "NavVelNed.heading");
    e.key("speed_accuracy_estimate", "NavVelNed.speed_accuracy_estimate");
    e.float(r.speed_accuracy_estimate() as f64, "NavVelNed.speed_accuracy_estimate");
    e.key("course_heading_accuracy_estimate", "NavVelNed.course_heading_accuracy_estimate");
    e.float(r.course_heading_accuracy_estimate() as f64, "NavVelNed.course_heading_accuracy_estimate");
}
pub fn ser_NavHpPosLlh(e: &mut Exp, r: &NavHpPosLlhRef, p: &[u8]) {
    e.key("version", "NavHpPosLlh.version");
    e.int(r.version() as i64 as u64, "NavHpPosLlh.version");
    e.key("reserved1", "NavHpPosLlh.reserved1");
    e.bytes(&p[1..4], "NavHpPosLlh.reserved1");
    e.key("itow", "NavHpPosLlh.itow");
    e.int(r.itow() as i64 as u64, "NavHpPosLlh.itow");
    e.key("lon", "NavHpPosLlh.lon");
    e.float(r.lon_degrees() as f64, "NavHpPosLlh.lon");
    e.key("lat", "NavHpPosLlh.lat");
    e.float(r.lat_degrees() as f64, "NavHpPosLlh.lat");
    e.key("height_meters", "NavHpPosLlh.height_meters");
    e.float(r.height_meters() as f64, "NavHpPosLlh.height_meters");
    e.key("height_msl", "NavHpPosLlh.height_msl");
    e.float(r.height_msl() as f64, "NavHpPosLlh.height_msl");
    e.key("lon_hp", "NavHpPosLlh.lon_hp");
    e.float(r.lon_hp_degrees() as f64, "NavHpPosLlh.lon_hp");
    e.key("lat_hp", "NavHpPosLlh.lat_hp");
    e.float(r.lat_hp_degrees() as f64, "NavHpPosLlh.lat_hp");
    e.key("height_hp_meters", "NavHpPosLlh.height_hp_meters");
    e.float(r.height_hp_meters() as f64, "NavHpPosLlh.height_hp_meters");
    e.key("height_hp_msl", "NavHpPosLlh.height_hp_msl");
    e.float(r.height_hp_msl() as f64, "NavHpPosLlh.height_hp_msl");
    e.key("horizontal_accuracy", "NavHpPosLlh.horizontal_accuracy");
    e.float(r.horizontal_accuracy() as f64, "NavHpPosLlh.horizontal_accuracy");
    e.key("vertical_accuracy", "NavHpPosLlh.vertical_accuracy");
    e.float(r.vertical_accuracy() as f64, "NavHpPosLlh.vertical_accuracy");
}
pub fn ser_NavHpPosEcef(e: &mut Exp, r: &NavHpPosEcefRef, p: &[u8]) {
    e.key("version", "NavHpPosEcef.version");
    e.int(r.version() as i64 as u64, "NavHpPosEcef.version");
    e.key("reserved1", "NavHpPosEcef.reserved1");
    e.bytes(&p[1..4], "NavHpPosEcef.reserved1");
    e.key("itow", "NavHpPosEcef.itow");
    e.int(r.itow() as i64 as u64, "NavHpPosEcef.itow");
    e.key("ecef_x", "NavHpPosEcef.ecef_x");
    e.float(r.ecef_x_cm() as f64, "NavHpPosEcef.ecef_x");
    e.key("ecef_y", "NavHpPosEcef.ecef_y");
    e.float(r.ecef_y_cm() as f64, "NavHpPosEcef.ecef_y");
    e.key("ecef_z", "NavHpPosEcef.ecef_z");
    e.float(r.ecef_z_cm() as f64, "NavHpPosEcef.ecef_z");
    e.key("ecef_x_hp", "NavHpPosEcef.ecef_x_hp");
    e.float(r.ecef_x_hp_mm() as f64, "NavHpPosEcef.ecef_x_hp");
    e.key("ecef_y_hp", "NavHpPosEcef.ecef_y_hp");
    e.float(r.ecef_y_hp_mm() as f64, "NavHpPosEcef.ecef_y_hp");
    e.key("ecef_z_hp", "NavHpPosEcef.ecef_z_hp");
    e.float(r.ecef_z_hp_mm() as f64, "NavHpPosEcef.ecef_z_hp");
    e.key("flags", "NavHpPosEcef.flags");
    e.int(p[23] as u64, "NavHpPosEcef.flags");
    e.key("p_acc", "NavHpPosEcef.p_acc");
    e.float(r.p_acc() as f64, "NavHpPosEcef.p_acc");
}
pub fn ser_NavTimeUTC(e: &mut Exp, r: &NavTimeUTCRef, p: &[u8]) {
    e.key("itow", "NavTimeUTC.itow");
    e.int(r.itow() as i64 as u64, "NavTimeUTC.itow");
    e.key("time_accuracy_estimate_ns", "NavTimeUTC.time_accuracy_estimate_ns");
    e.int(r.time_accuracy_estimate_ns() as i64 as u64, "NavTimeUTC.time_accuracy_estimate_ns");
    e.key("nanos", "NavTimeUTC.nanos");
    e.int(r.nanos() as i64 as u64, "NavTimeUTC.nanos");
    e.key("year", "NavTimeUTC.year");
    e.int(r.year() as i64 as u64, "NavTimeUTC.year");
    e.key("month", "NavTimeUTC.month");
    e.int(r.month() as i64 as u64, "NavTimeUTC.month");
    e.key("day", "NavTimeUTC.day");
    e.int(r.day() as i64 as u64, "NavTimeUTC.day");
    e.key("hour", "NavTimeUTC.hour");
    e.int(r.hour() as i64 as u64, "NavTimeUTC.hour");
    e.key("min", "NavTimeUTC.min");
    e.int(r.min() as i64 as u64, "NavTimeUTC.min");
    e.key("sec", "NavTimeUTC.sec");
    e.int(r.sec() as i64 as u64, "NavTimeUTC.sec");
    e.key("valid", "NavTimeUTC.valid");
    e.int(p[19] as u64, "NavTimeUTC.valid");
}
pub fn ser_NavTimeLs(e: &mut Exp, r: &NavTimeLsRef, p: &[u8]) {
    e.key("itow", "NavTimeLs.itow");
    e.int(r.itow() as i64 as u64, "NavTimeLs.itow");
    e.key("version", "NavTimeLs.version");
    e.int(r.version() as i64 as u64, "NavTimeLs.version");
    e.key("reserved_1", "NavTimeLs.reserved_1");
    e.bytes(&p[5..8], "NavTimeLs.reserved_1");
    e.key("src_of_curr_ls", "NavTimeLs.src_of_curr_ls");
    e.int(r.src_of_curr_ls() as i64 as u64, "NavTimeLs.src_of_curr_ls");
    e.key("current_ls", "NavTimeLs.current_ls");
    e.int(r.current_ls() as i64 as u64, "NavTimeLs.current_ls");
    e.key("src_of_ls_change", "NavTimeLs.src_of_ls_change");
    e.int(r.src_of_ls_change() as i64 as u64, "NavTimeLs.src_of_ls_change");
    e.key("ls_change", "NavTimeLs.ls_change");
    e.int(r.ls_change() as i64 as u64, "NavTimeLs.ls_change");
    e.key("time_to_ls_event", "NavTimeLs.time_to_ls_event");
    e.int(r.time_to_ls_event() as i64 as u64, "NavTimeLs.time_to_ls_event");
    e.key("date_of_ls_gps_wn", "NavTimeLs.date_of_ls_gps_wn");
    e.int(r.date_of_ls_gps_wn() as i64 as u64, "NavTimeLs.date_of_ls_gps_wn");
    e.key("date_of_ls_gps_dn", "NavTimeLs.date_of_ls_gps_dn");
    e.int(r.date_of_ls_gps_dn() as i64 as u64, "NavTimeLs.date_of_ls_gps_dn");
    e.key("reserved_2", "NavTimeLs.reserved_2");
    e.bytes(&p[20..23], "NavTimeLs.reserved_2");
    e.key("valid", "NavTimeLs.valid");
    e.int(p[23] as u64, "NavTimeLs.valid");
}
pub fn ser_NavSat(e: &mut Exp, r: &NavSatRef, p: &[u8]) {
    e.key("itow", "NavSat.itow");
    e.int(r.itow() as i64 as u64, "NavSat.itow");
    e.key("version", "NavSat.version");
    e.int(r.version() as i64 as u64, "NavSat.version");
    e.key("num_svs", "NavSat.num_svs");
    e.int(r.num_svs() as i64 as u64, "NavSat.num_svs");
    e.key("reserved", "NavSat.reserved");
    e.bytes(&p[6..8], "NavSat.reserved");
    e.key("svs", "NavSat.svs");
    e.seq("NavSat.svs");
    for (k, x) in r.svs().enumerate() {
        e.map("block");
        ser_NavSatSvInfo(e, &x, &p[8 + 12 * k..]);
        e.end("block");
    }
    e.end("NavSat.svs");
}
pub fn ser_NavEoe(e: &mut Exp, r: &NavEoeRef, p: &[u8]) {
    e.key("itow", "NavEoe.itow");
    e.int(r.itow() as i64 as u64, "NavEoe.itow");
}
pub fn ser_NavOdo(e: &mut Exp, r: &NavOdoRef, p: &[u8]) {
    e.key("version", "NavOdo.version");
    e.int(r.version() as i64 as u64, "NavOdo.version");
    e.key("reserved", "NavOdo.reserved");
    e.bytes(&p[1..4], "NavOdo.reserved");
    e.key("itow", "NavOdo.itow");
    e.int(r.itow() as i64 as u64, "NavOdo.itow");
    e.key("distance", "NavOdo.distance");
    e.int(r.distance() as i64 as u64, "NavOdo.distance");
    e.key("total_distance", "NavOdo.total_distance");
    e.int(r.total_distance() as i64 as u64, "NavOdo.total_distance");
    e.key("distance_std", "NavOdo.distance_std");
    e.int(r.distance_std() as i64 as u64, "NavOdo.distance_std");
}
pub fn ser_CfgOdo(e: &mut Exp, r: &CfgOdoRef, p: &[u8]) {
    e.key("version", "CfgOdo.version");
    e.int(r.version() as i64 as u64, "CfgOdo.version");
    e.key("reserved", "CfgOdo.reserved");
    e.bytes(&p[1..4], "CfgOdo.reserved");
    e.key("flags", "CfgOdo.flags");
    e.int(p[4] as u64, "CfgOdo.flags");
    e.key("odo_cfg", "CfgOdo.odo_cfg");
    e.int(p[5] as u64, "CfgOdo.odo_cfg");
    e.key("reserved2", "CfgOdo.reserved2");
    e.bytes(&p[6..12], "CfgOdo.reserved2");
    e.key("cog_max_speed", "CfgOdo.cog_max_speed");
    e.int(r.cog_max_speed() as i64 as u64, "CfgOdo.cog_max_speed");
    e.key("cog_max_pos_acc", "CfgOdo.cog_max_pos_acc");
    e.int(r.cog_max_pos_acc() as i64 as u64, "CfgOdo.cog_max_pos_acc");
    e.key("reserved3", "CfgOdo.reserved3");
    e.bytes(&p[14..16], "CfgOdo.reserved3");
    e.key("vel_lp_gain", "CfgOdo.vel_lp_gain");
    e.int(r.vel_lp_gain() as i64 as u64, "CfgOdo.vel_lp_gain");
    e.key("cog_lp_gain", "CfgOdo.cog_lp_gain");
    e.int(r.cog_lp_gain() as i64 as u64, "CfgOdo.cog_lp_gain");
    e.key("reserved4", "CfgOdo.reserved4");
    e.bytes(&p[18..20], "CfgOdo.reserved4");
}
pub fn ser_MgaAck(e: &mut Exp, r: &MgaAckRef, p: &[u8]) {
    e.key("ack_type", "MgaAck.ack_type");
    e.int(r.ack_type() as i64 as u64, "MgaAck.ack_type");
    e.key("version", "MgaAck.version");
    e.int(r.version() as i64 as u64, "MgaAck.version");
    e.key("info_code", "MgaAck.info_code");
    e.int(p[2] as u64, "MgaAck.info_code");
    e.key("msg_id", "MgaAck.msg_id");
    e.int(r.msg_id() as i64 as u64, "MgaAck.msg_id");
    e.key("msg_payload_start", "MgaAck.msg_payload_start");
    e.bytes(&p[4..8], "MgaAck.msg_payload_start");
}
pub fn ser_MgaGpsIono(e: &mut Exp, r: &MgaGpsIonoRef, p: &[u8]) {
    e.key("msg_type", "MgaGpsIono.msg_type");
    e.int(r.msg_type() as i64 as u64, "MgaGpsIono.msg_type");
    e.key("version", "MgaGpsIono.version");
    e.int(r.version() as i64 as u64, "MgaGpsIono.version");
    e.key("reserved1", "MgaGpsIono.reserved1");
    e.bytes(&p[2..4], "MgaGpsIono.reserved1");
    e.key("alpha0", "MgaGpsIono.alpha0");
    e.float(r.alpha0() as f64, "MgaGpsIono.alpha0");
    e.key("alpha1", "MgaGpsIono.alpha1");
    e.float(r.alpha1() as f64, "MgaGpsIono.alpha1");
    e.key("alpha2", "MgaGpsIono.alpha2");
    e.float(r.alpha2() as f64, "MgaGpsIono.alpha2");
    e.key("alpha3", "MgaGpsIono.alpha3");
    e.float(r.alpha3() as f64, "MgaGpsIono.alpha3");
    e.key("beta0", "MgaGpsIono.beta0");
    e.float(r.beta0() as f64, "MgaGpsIono.beta0");
    e.key("beta1", "MgaGpsIono.beta1");
    e.float(r.beta1() as f64, "MgaGpsIono.beta1");
    e.key("beta2", "MgaGpsIono.beta2");
    e.float(r.beta2() as f64, "MgaGpsIono.beta2");
    e.key("beta3", "MgaGpsIono.beta3");
    e.float(r.beta3() as f64, "MgaGpsIono.beta3");
    e.key("reserved2", "MgaGpsIono.reserved2");
    e.bytes(&p[12..16], "MgaGpsIono.reserved2");
}
pub fn ser_MgaGpsEph(e: &mut Exp, r: &MgaGpsEphRef, p: &[u8]) {
    e.key("msg_type", "MgaGpsEph.msg_type");
    e.int(r.msg_type() as i64 as u64, "MgaGpsEph.msg_type");
    e.key("version", "MgaGpsEph.version");
    e.int(r.version() as i64 as u64, "MgaGpsEph.version");
    e.key("sv_id", "MgaGpsEph.sv_id");
    e.int(r.sv_id() as i64 as u64, "MgaGpsEph.sv_id");
    e.key("reserved1", "MgaGpsEph.reserved1");
    e.int(r.reserved1() as i64 as u64, "MgaGpsEph.reserved1");
    e.key("fit_interval", "MgaGpsEph.fit_interval");
    e.int(r.fit_interval() as i64 as u64, "MgaGpsEph.fit_interval");
    e.key("ura_index", "MgaGpsEph.ura_index");
    e.int(r.ura_index() as i64 as u64, "MgaGpsEph.ura_index");
    e.key("sv_health", "MgaGpsEph.sv_health");
    e.int(r.sv_health() as i64 as u64, "MgaGpsEph.sv_health");
    e.key("tgd", "MgaGpsEph.tgd");
    e.int(r.tgd() as i64 as u64, "MgaGpsEph.tgd");
    e.key("iodc", "MgaGpsEph.iodc");
    e.int(r.iodc() as i64 as u64, "MgaGpsEph.iodc");
    e.key("toc", "MgaGpsEph.toc");
    e.int(r.toc() as i64 as u64, "MgaGpsEph.toc");
    e.key("reserved2", "MgaGpsEph.reserved2");
    e.int(r.reserved2() as i64 as u64, "MgaGpsEph.reserved2");
    e.key("af2", "MgaGpsEph.af2");
    e.int(r.af2() as i64 as u64, "MgaGpsEph.af2");
    e.key("af1", "MgaGpsEph.af1");
    e.int(r.af1() as i64 as u64, "MgaGpsEph.af1");
    e.key("af0", "MgaGpsEph.af0");
    e.int(r.af0() as i64 as u64, "MgaGpsEph.af0");
    e.key("crs", "MgaGpsEph.crs");
    e.int(r.crs() as i64 as u64, "MgaGpsEph.crs");
    e.key("delta_n", "MgaGpsEph.delta_n");
    e.int(r.delta_n() as i64 as u64, "MgaGpsEph.delta_n");
    e.key("m0", "MgaGpsEph.m0");
    e.int(r.m0() as i64 as u64, "MgaGpsEph.m0");
    e.key("cuc", "MgaGpsEph.cuc");
    e.int(r.cuc() as i64 as u64, "MgaGpsEph.cuc");
    e.key("cus", "MgaGpsEph.cus");
    e.int(r.cus() as i64 as u64, "MgaGpsEph.cus");
    e.key("e", "MgaGpsEph.e");
    e.int(r.e() as i64 as u64, "MgaGpsEph.e");
    e.key("sqrt_a", "MgaGpsEph.sqrt_a");
    e.int(r.sqrt_a() as i64 as u64, "MgaGpsEph.sqrt_a");
    e.key("toe", "MgaGpsEph.toe");
    e.int(r.toe() as i64 as u64, "MgaGpsEph.toe");
    e.key("cic", "MgaGpsEph.cic");
    e.int(r.cic() as i64 as u64, "MgaGpsEph.cic");
    e.key("omega0", "MgaGpsEph.omega0");
    e.int(r.omega0() as i64 as u64, "MgaGpsEph.omega0");
    e.key("cis", "MgaGpsEph.cis");
    e.int(r.cis() as i64 as u64, "MgaGpsEph.cis");
    e.key("crc", "MgaGpsEph.crc");
    e.int(r.crc() as i64 as u64, "MgaGpsEph.crc");
    e.key("i0", "MgaGpsEph.i0");
    e.int(r.i0() as i64 as u64, "MgaGpsEph.i0");
    e.key("omega", "MgaGpsEph.omega");
    e.int(r.omega() as i64 as u64, "MgaGpsEph.omega");
    e.key("omega_dot", "MgaGpsEph.omega_dot");
    e.int(r.omega_dot() as i64 as u64, "MgaGpsEph.omega_dot");
    e.key("idot", "MgaGpsEph.idot");
    e.int(r.idot() as i64 as u64, "MgaGpsEph.idot");
    e.key("reserved3", "MgaGpsEph.reserved3");
    e.bytes(&p[66..68], "MgaGpsEph.reserved3");
}
pub fn ser_MgaGloEph(e: &mut Exp, r: &MgaGloEphRef, p: &[u8]) {
    e.key("msg_type", "MgaGloEph.msg_type");
    e.int(r.msg_type() as i64 as u64, "MgaGloEph.msg_type");
    e.key("version", "MgaGloEph.version");
    e.int(r.version() as i64 as u64, "MgaGloEph.version");
    e.key("sv_id", "MgaGloEph.sv_id");
    e.int(r.sv_id() as i64 as u64, "MgaGloEph.sv_id");
    e.key("reserved1", "MgaGloEph.reserved1");
    e.int(r.reserved1() as i64 as u64, "MgaGloEph.reserved1");
    e.key("ft", "MgaGloEph.ft");
    e.int(r.ft() as i64 as u64, "MgaGloEph.ft");
    e.key("b", "MgaGloEph.b");
    e.int(r.b() as i64 as u64, "MgaGloEph.b");
    e.key("m", "MgaGloEph.m");
    e.int(r.m() as i64 as u64, "MgaGloEph.m");
    e.key("h", "MgaGloEph.h");
    e.int(r.h() as i64 as u64, "MgaGloEph.h");
    e.key("x", "MgaGloEph.x");
    e.int(r.x() as i64 as u64, "MgaGloEph.x");
    e.key("y", "MgaGloEph.y");
    e.int(r.y() as i64 as u64, "MgaGloEph.y");
    e.key("z", "MgaGloEph.z");
    e.int(r.z() as i64 as u64, "MgaGloEph.z");
    e.key("dx", "MgaGloEph.dx");
    e.int(r.dx() as i64 as u64, "MgaGloEph.dx");
    e.key("dy", "MgaGloEph.dy");
    e.int(r.dy() as i64 as u64, "MgaGloEph.dy");
    e.key("dz", "MgaGloEph.dz");
    e.int(r.dz() as i64 as u64, "MgaGloEph.dz");
    e.key("ddx", "MgaGloEph.ddx");
    e.int(r.ddx() as i64 as u64, "MgaGloEph.ddx");
    e.key("ddy", "MgaGloEph.ddy");
    e.int(r.ddy() as i64 as u64, "MgaGloEph.ddy");
    e.key("ddz", "MgaGloEph.ddz");
    e.int(r.ddz() as i64 as u64, "MgaGloEph.ddz");
    e.key("tb", "MgaGloEph.tb");
    e.int(r.tb() as i64 as u64, "MgaGloEph.tb");
    e.key("gamma", "MgaGloEph.gamma");
    e.int(r.gamma() as i64 as u64, "MgaGloEph.gamma");
    e.key("e", "MgaGloEph.e");
    e.int(r.e() as i64 as u64, "MgaGloEph.e");
    e.key("delta_tau", "MgaGloEph.delta_tau");
    e.int(r.delta_tau() as i64 as u64, "MgaGloEph.delta_tau");
    e.key("tau", "MgaGloEph.tau");
    e.int(r.tau() as i64 as u64, "MgaGloEph.tau");
    e.key("reserved2", "MgaGloEph.reserved2");
    e.bytes(&p[44..48], "MgaGloEph.reserved2");
}
pub fn ser_AlpSrv(e: &mut Exp, r: &AlpSrvRef, p: &[u8]) {
    e.key("id_size", "AlpSrv.id_size");
    e.int(r.id_size() as i64 as u64, "AlpSrv.id_size");
    e.key("data_type", "AlpSrv.data_type");
    e.int(r.data_type() as i64 as u64, "AlpSrv.data_type");
    e.key("offset", "AlpSrv.offset");
    e.int(r.offset() as i64 as u64, "AlpSrv.offset");
    e.key("size", "AlpSrv.size");
    e.int(r.size() as i64 as u64, "AlpSrv.size");
    e.key("file_id", "AlpSrv.file_id");
    e.int(r.file_id() as i64 as u64, "AlpSrv.file_id");
    e.key("data_size", "AlpSrv.data_size");
    e.int(r.data_size() as i64 as u64, "AlpSrv.data_size");
    e.key("id1", "AlpSrv.id1");
    e.int(r.id1() as i64 as u64, "AlpSrv.id1");
    e.key("id2", "AlpSrv.id2");
    e.int(r.id2() as i64 as u64, "AlpSrv.id2");
    e.key("id3", "AlpSrv.id3");
    e.int(r.id3() as i64 as u64, "AlpSrv.id3");
}
pub fn ser_AckAck(e: &mut Exp, r: &AckAckRef, p: &[u8]) {
    e.key("class", "AckAck.class");
    e.int(r.class() as i64 as u64, "AckAck.class");
    e.key("msg_id", "AckAck.msg_id");
    e.int(r.msg_id() as i64 as u64, "AckAck.msg_id");
}
pub fn ser_AckNak(e: &mut Exp, r: &AckNakRef, p: &[u8]) {
    e.key("class", "AckNak.class");
    e.int(r.class() as i64 as u64, "AckNak.class");
    e.key("msg_id", "AckNak.msg_id");
    e.int(r.msg_id() as i64 as u64, "AckNak.msg_id");
}
pub fn ser_CfgItfm(e: &mut Exp, r: &CfgItfmRef, p: &[u8]) {
    e.key("config", "CfgItfm.config");
    e.itfm(u32::from_le_bytes([p[0], p[1], p[2], p[3]]), "CfgItfm.config");
    e.key("config2", "CfgItfm.config2");
    e.itfm2(u32::from_le_bytes([p[4], p[5], p[6], p[7]]), "CfgItfm.config2");
}
pub fn ser_CfgPrtI2c(e: &mut Exp, r: &CfgPrtI2cRef, p: &[u8]) {
    e.key("portid", "CfgPrtI2c.portid");
    e.int(p[0] as u64, "CfgPrtI2c.portid");
    e.key("reserved1", "CfgPrtI2c.reserved1");
    e.int(r.reserved1() as i64 as u64, "CfgPrtI2c.reserved1");
    e.key("tx_ready", "CfgPrtI2c.tx_ready");
    e.int(r.tx_ready() as i64 as u64, "CfgPrtI2c.tx_ready");
    e.key("mode", "CfgPrtI2c.mode");
    e.int(r.mode() as i64 as u64, "CfgPrtI2c.mode");
    e.key("reserved2", "CfgPrtI2c.reserved2");
    e.int(r.reserved2() as i64 as u64, "CfgPrtI2c.reserved2");
    e.key("in_proto_mask", "CfgPrtI2c.in_proto_mask");
    e.int(u16::from_le_bytes([p[12], p[13]]) as u64, "CfgPrtI2c.in_proto_mask");
    e.key("out_proto_mask", "CfgPrtI2c.out_proto_mask");
    e.int(u16::from_le_bytes([p[14], p[15]]) as u64, "CfgPrtI2c.out_proto_mask");
    e.key("flags", "CfgPrtI2c.flags");
    e.int(r.flags() as i64 as u64, "CfgPrtI2c.flags");
    e.key("reserved3", "CfgPrtI2c.reserved3");
    e.int(r.reserved3() as i64 as u64, "CfgPrtI2c.reserved3");
}
pub fn ser_CfgPrtSpi(e: &mut Exp, r: &CfgPrtSpiRef, p: &[u8]) {
    e.key("portid", "CfgPrtSpi.portid");
    e.int(p[0] as u64, "CfgPrtSpi.portid");
    e.key("reserved0", "CfgPrtSpi.reserved0");
    e.int(r.reserved0() as i64 as u64, "CfgPrtSpi.reserved0");
    e.key("tx_ready", "CfgPrtSpi.tx_ready");
    e.int(r.tx_ready() as i64 as u64, "CfgPrtSpi.tx_ready");
    e.key("mode", "CfgPrtSpi.mode");
    e.int(r.mode() as i64 as u64, "CfgPrtSpi.mode");
    e.key("reserved3", "CfgPrtSpi.reserved3");
    e.int(r.reserved3() as i64 as u64, "CfgPrtSpi.reserved3");
    e.key("in_proto_mask", "CfgPrtSpi.in_proto_mask");
    e.int(u16::from_le_bytes([p[12], p[13]]) as u64, "CfgPrtSpi.in_proto_mask");
    e.key("out_proto_mask", "CfgPrtSpi.out_proto_mask");
    e.int(u16::from_le_bytes([p[14], p[15]]) as u64, "CfgPrtSpi.out_proto_mask");
    e.key("flags", "CfgPrtSpi.flags");
    e.int(r.flags() as i64 as u64, "CfgPrtSpi.flags");
    e.key("reserved5", "CfgPrtSpi.reserved5");
    e.int(r.reserved5() as i64 as u64, "CfgPrtSpi.reserved5");
}
pub fn ser_CfgPrtUart(e: &mut Exp, r: &CfgPrtUartRef, p: &[u8]) {
    e.key("portid", "CfgPrtUart.portid");
    e.int(p[0] as u64, "CfgPrtUart.portid");
    e.key("reserved0", "CfgPrtUart.reserved0");
    e.int(r.reserved0() as i64 as u64, "CfgPrtUart.reserved0");
    e.key("tx_ready", "CfgPrtUart.tx_ready");
    e.int(r.tx_ready() as i64 as u64, "CfgPrtUart.tx_ready");
    e.key("mode", "CfgPrtUart.mode");
    e.uart(u32::from_le_bytes([p[4], p[5], p[6], p[7]]), "CfgPrtUart.mode");
    e.key("baud_rate", "CfgPrtUart.baud_rate");
    e.int(r.baud_rate() as i64 as u64, "CfgPrtUart.baud_rate");
    e.key("in_proto_mask", "CfgPrtUart.in_proto_mask");
    e.int(u16::from_le_bytes([p[12], p[13]]) as u64, "CfgPrtUart.in_proto_mask");
    e.key("out_proto_mask", "CfgPrtUart.out_proto_mask");
    e.int(u16::from_le_bytes([p[14], p[15]]) as u64, "CfgPrtUart.out_proto_mask");
    e.key("flags", "CfgPrtUart.flags");
    e.int(r.flags() as i64 as u64, "CfgPrtUart.flags");
    e.key("reserved5", "CfgPrtUart.reserved5");
    e.int(r.reserved5() as i64 as u64, "CfgPrtUart.reserved5");
}
pub fn ser_CfgNav5(e: &mut Exp, r: &CfgNav5Ref, p: &[u8]) {
    e.key("mask", "CfgNav5.mask");
    e.int(u16::from_le_bytes([p[0], p[1]]) as u64, "CfgNav5.mask");
    e.key("dyn_model", "CfgNav5.dyn_model");
    e.int(p[2] as u64, "CfgNav5.dyn_model");
    e.key("fix_mode", "CfgNav5.fix_mode");
    e.int(p[3] as u64, "CfgNav5.fix_mode");
    e.key("fixed_alt", "CfgNav5.fixed_alt");
    e.float(r.fixed_alt() as f64, "CfgNav5.fixed_alt");
    e.key("fixed_alt_var", "CfgNav5.fixed_alt_var");
    e.float(r.fixed_alt_var() as f64, "CfgNav5.fixed_alt_var");
    e.key("min_elev_degrees", "CfgNav5.min_elev_degrees");
    e.int(r.min_elev_degrees() as i64 as u64, "CfgNav5.min_elev_degrees");
    e.key("dr_limit", "CfgNav5.dr_limit");
    e.int(r.dr_limit() as i64 as u64, "CfgNav5.dr_limit");
    e.key("pdop", "CfgNav5.pdop");
    e.float(r.pdop() as f64, "CfgNav5.pdop");
    e.key("tdop", "CfgNav5.tdop");
    e.float(r.tdop() as f64, "CfgNav5.tdop");
    e.key("pacc", "CfgNav5.pacc");
    e.int(r.pacc() as i64 as u64, "CfgNav5.pacc");
    e.key("tacc", "CfgNav5.tacc");
    e.int(r.tacc() as i64 as u64, "CfgNav5.tacc");
    e.key("static_hold_thresh", "CfgNav5.static_hold_thresh");
    e.float(r.static_hold_thresh() as f64, "CfgNav5.static_hold_thresh");
    e.key("dgps_time_out", "CfgNav5.dgps_time_out");
    e.int(r.dgps_time_out() as i64 as u64, "CfgNav5.dgps_time_out");
    e.key("cno_thresh_num_svs", "CfgNav5.cno_thresh_num_svs");
    e.int(r.cno_thresh_num_svs() as i64 as u64, "CfgNav5.cno_thresh_num_svs");
    e.key("cno_thresh", "CfgNav5.cno_thresh");
    e.int(r.cno_thresh() as i64 as u64, "CfgNav5.cno_thresh");
    e.key("reserved1", "CfgNav5.reserved1");
    e.bytes(&p[26..28], "CfgNav5.reserved1");
    e.key("static_hold_max_dist", "CfgNav5.static_hold_max_dist");
    e.int(r.static_hold_max_dist() as i64 as u64, "CfgNav5.static_hold_max_dist");
    e.key("utc_standard", "CfgNav5.utc_standard");
    e.int(p[30] as u64, "CfgNav5.utc_standard");
    e.key("reserved2", "CfgNav5.reserved2");
    e.bytes(&p[31..36], "CfgNav5.reserved2");
}
pub fn ser_CfgAnt(e: &mut Exp, r: &CfgAntRef, p: &[u8]) {
    e.key("flags", "CfgAnt.flags");
    e.int(u16::from_le_bytes([p[0], p[1]]) as u64, "CfgAnt.flags");
    e.key("pins", "CfgAnt.pins");
    e.int(r.pins() as i64 as u64, "CfgAnt.pins");
}
pub fn ser_CfgTmode2(e: &mut Exp, r: &CfgTmode2Ref, p: &[u8]) {
    e.key("time_transfer_mode", "CfgTmode2.time_transfer_mode");
    e.int(p[0] as u64, "CfgTmode2.time_transfer_mode");
    e.key("reserved1", "CfgTmode2.reserved1");
    e.int(r.reserved1() as i64 as u64, "CfgTmode2.reserved1");
    e.key("flags", "CfgTmode2.flags");
    e.int(u16::from_le_bytes([p[2], p[3]]) as u64, "CfgTmode2.flags");
    e.key("ecef_x_or_lat", "CfgTmode2.ecef_x_or_lat");
    e.float(r.ecef_x_or_lat() as f64, "CfgTmode2.ecef_x_or_lat");
    e.key("ecef_y_or_lon", "CfgTmode2.ecef_y_or_lon");
    e.float(r.ecef_y_or_lon() as f64, "CfgTmode2.ecef_y_or_lon");
    e.key("ecef_z_or_alt", "CfgTmode2.ecef_z_or_alt");
    e.float(r.ecef_z_or_alt() as f64, "CfgTmode2.ecef_z_or_alt");
    e.key("fixed_pos_acc", "CfgTmode2.fixed_pos_acc");
    e.float(r.fixed_pos_acc() as f64, "CfgTmode2.fixed_pos_acc");
    e.key("survey_in_min_duration", "CfgTmode2.survey_in_min_duration");
    e.int(r.survey_in_min_duration() as i64 as u64, "CfgTmode2.survey_in_min_duration");
    e.key("survery_in_accur_limit", "CfgTmode2.survery_in_accur_limit");
    e.float(r.survery_in_accur_limit() as f64, "CfgTmode2.survery_in_accur_limit");
}
pub fn ser_CfgTmode3(e: &mut Exp, r: &CfgTmode3Ref, p: &[u8]) {
    e.key("version", "CfgTmode3.version");
    e.int(r.version() as i64 as u64, "CfgTmode3.version");
    e.key("reserved1", "CfgTmode3.reserved1");
    e.int(r.reserved1() as i64 as u64, "CfgTmode3.reserved1");
    e.key("rcvr_mode", "CfgTmode3.rcvr_mode");
    e.int(p[2] as u64, "CfgTmode3.rcvr_mode");
    e.key("flags", "CfgTmode3.flags");
    e.int(p[3] as u64, "CfgTmode3.flags");
    e.key("ecef_x_or_lat", "CfgTmode3.ecef_x_or_lat");
    e.float(r.ecef_x_or_lat() as f64, "CfgTmode3.ecef_x_or_lat");
    e.key("ecef_y_or_lon", "CfgTmode3.ecef_y_or_lon");
    e.float(r.ecef_y_or_lon() as f64, "CfgTmode3.ecef_y_or_lon");
    e.key("ecef_z_or_alt", "CfgTmode3.ecef_z_or_alt");
    e.float(r.ecef_z_or_alt() as f64, "CfgTmode3.ecef_z_or_alt");
    e.key("ecef_x_or_lat_hp", "CfgTmode3.ecef_x_or_lat_hp");
    e.float(r.ecef_x_or_lat_hp() as f64, "CfgTmode3.ecef_x_or_lat_hp");
    e.key("ecef_y_or_lon_hp", "CfgTmode3.ecef_y_or_lon_hp");
    e.float(r.ecef_y_or_lon_hp() as f64, "CfgTmode3.ecef_y_or_lon_hp");
    e.key("ecef_z_or_alt_hp", "CfgTmode3.ecef_z_or_alt_hp");
    e.float(r.ecef_z_or_alt_hp() as f64, "CfgTmode3.ecef_z_or_alt_hp");
    e.key("reserved2", "CfgTmode3.reserved2");
    e.int(r.reserved2() as i64 as u64, "CfgTmode3.reserved2");
    e.key("fixed_pos_acc", "CfgTmode3.fixed_pos_acc");
    e.float(r.fixed_pos_acc() as f64, "CfgTmode3.fixed_pos_acc");
    e.key("sv_in_min_duration", "CfgTmode3.sv_in_min_duration");
    e.int(r.sv_in_min_duration() as i64 as u64, "CfgTmode3.sv_in_min_duration");
    e.key("sv_in_accur_limit", "CfgTmode3.sv_in_accur_limit");
    e.float(r.sv_in_accur_limit() as f64, "CfgTmode3.sv_in_accur_limit");
    e.key("reserved3", "CfgTmode3.reserved3");
    e.bytes(&p[32..40], "CfgTmode3.reserved3");
}
pub fn ser_CfgTp5(e: &mut Exp, r: &CfgTp5Ref, p: &[u8]) {
    e.key("tp_idx", "CfgTp5.tp_idx");
    e.int(p[0] as u64, "CfgTp5.tp_idx");
    e.key("version", "CfgTp5.version");
    e.int(r.version() as i64 as u64, "CfgTp5.version");
    e.key("reserved1", "CfgTp5.reserved1");
    e.bytes(&p[2..4], "CfgTp5.reserved1");
    e.key("ant_cable_delay", "CfgTp5.ant_cable_delay");
    e.float(r.ant_cable_delay() as f64, "CfgTp5.ant_cable_delay");
    e.key("rf_group_delay", "CfgTp5.rf_group_delay");
    e.float(r.rf_group_delay() as f64, "CfgTp5.rf_group_delay");
    e.key("freq_period", "CfgTp5.freq_period");
    e.float(r.freq_period() as f64, "CfgTp5.freq_period");
    e.key("freq_period_lock", "CfgTp5.freq_period_lock");
    e.float(r.freq_period_lock() as f64, "CfgTp5.freq_period_lock");
    e.key("pulse_len_ratio", "CfgTp5.pulse_len_ratio");
    e.float(r.pulse_len_ratio() as f64, "CfgTp5.pulse_len_ratio");
    e.key("pulse_len_ratio_lock", "CfgTp5.pulse_len_ratio_lock");
    e.float(r.pulse_len_ratio_lock() as f64, "CfgTp5.pulse_len_ratio_lock");
    e.key("user_delay", "CfgTp5.user_delay");
    e.float(r.user_delay() as f64, "CfgTp5.user_delay");
    e.key("flags", "CfgTp5.flags");
    e.int(u32::from_le_bytes([p[28], p[29], p[30], p[31]]) as u64, "CfgTp5.flags");
}
pub fn ser_CfgInf(e: &mut Exp, r: &CfgInfRef, p: &[u8]) {
    e.key("protocol_id", "CfgInf.protocol_id");
    e.int(r.protocol_id() as i64 as u64, "CfgInf.protocol_id");
    e.key("reserved", "CfgInf.reserved");
    e.bytes(&p[1..4], "CfgInf.reserved");
    e.key("inf_msg_mask_0", "CfgInf.inf_msg_mask_0");
    e.int(p[4] as u64, "CfgInf.inf_msg_mask_0");
    e.key("inf_msg_mask_1", "CfgInf.inf_msg_mask_1");
    e.int(p[5] as u64, "CfgInf.inf_msg_mask_1");
    e.key("inf_msg_mask_2", "CfgInf.inf_msg_mask_2");
    e.int(p[6] as u64, "CfgInf.inf_msg_mask_2");
    e.key("inf_msg_mask_3", "CfgInf.inf_msg_mask_3");
    e.int(p[7] as u64, "CfgInf.inf_msg_mask_3");
    e.key("inf_msg_mask_4", "CfgInf.inf_msg_mask_4");
    e.int(p[8] as u64, "CfgInf.inf_msg_mask_4");
    e.key("inf_msg_mask_5", "CfgInf.inf_msg_mask_5");
    e.int(p[9] as u64, "CfgInf.inf_msg_mask_5");
}
pub fn ser_CfgNavX5(e: &mut Exp, r: &CfgNavX5Ref, p: &[u8]) {
    e.key("version", "CfgNavX5.version");
    e.int(r.version() as i64 as u64, "CfgNavX5.version");
    e.key("mask1", "CfgNavX5.mask1");
    e.int(u16::from_le_bytes([p[2], p[3]]) as u64, "CfgNavX5.mask1");
    e.key("mask2", "CfgNavX5.mask2");
    e.int(u32::from_le_bytes([p[4], p[5], p[6], p[7]]) as u64, "CfgNavX5.mask2");
    e.key("reserved1", "CfgNavX5.reserved1");
    e.bytes(&p[8..10], "CfgNavX5.reserved1");
    e.key("min_svs", "CfgNavX5.min_svs");
    e.int(r.min_svs() as i64 as u64, "CfgNavX5.min_svs");
    e.key("max_svs", "CfgNavX5.max_svs");
    e.int(r.max_svs() as i64 as u64, "CfgNavX5.max_svs");
    e.key("min_cno_dbhz", "CfgNavX5.min_cno_dbhz");
    e.int(r.min_cno_dbhz() as i64 as u64, "CfgNavX5.min_cno_dbhz");
    e.key("reserved2", "CfgNavX5.reserved2");
    e.int(r.reserved2() as i64 as u64, "CfgNavX5.reserved2");
    e.key("ini_fix_3d", "CfgNavX5.ini_fix_3d");
    e.int(r.ini_fix_3d() as i64 as u64, "CfgNavX5.ini_fix_3d");
    e.key("reserved3", "CfgNavX5.reserved3");
    e.bytes(&p[15..17], "CfgNavX5.reserved3");
    e.key("ack_aiding", "CfgNavX5.ack_aiding");
    e.int(r.ack_aiding() as i64 as u64, "CfgNavX5.ack_aiding");
    e.key("wkn_rollover", "CfgNavX5.wkn_rollover");
    e.int(r.wkn_rollover() as i64 as u64, "CfgNavX5.wkn_rollover");
    e.key("sig_atten_comp_mode", "CfgNavX5.sig_atten_comp_mode");
    e.int(r.sig_atten_comp_mode() as i64 as u64, "CfgNavX5.sig_atten_comp_mode");
    e.key("reserved4", "CfgNavX5.reserved4");
    e.int(r.reserved4() as i64 as u64, "CfgNavX5.reserved4");
    e.key("reserved5", "CfgNavX5.reserved5");
    e.bytes(&p[22..24], "CfgNavX5.reserved5");
    e.key("reserved6", "CfgNavX5.reserved6");
    e.bytes(&p[24..26], "CfgNavX5.reserved6");
    e.key("use_ppp", "CfgNavX5.use_ppp");
    e.int(r.use_ppp() as i64 as u64, "CfgNavX5.use_ppp");
    e.key("aop_cfg", "CfgNavX5.aop_cfg");
    e.int(r.aop_cfg() as i64 as u64, "CfgNavX5.aop_cfg");
    e.key("reserved7", "CfgNavX5.reserved7");
    e.bytes(&p[28..30], "CfgNavX5.reserved7");
    e.key("aop_orb_max_err", "CfgNavX5.aop_orb_max_err");
    e.int(r.aop_orb_max_err() as i64 as u64, "CfgNavX5.aop_orb_max_err");
    e.key("reserved8", "CfgNavX5.reserved8");
    e.bytes(&p[32..36], "CfgNavX5.reserved8");
    e.key("reserved9", "CfgNavX5.reserved9");
    e.bytes(&p[36..39], "CfgNavX5.reserved9");
    e.key("use_adr", "CfgNavX5.use_adr");
    e.int(r.use_adr() as i64 as u64, "CfgNavX5.use_adr");
}
pub fn ser_InfError(e: &mut Exp, r: &InfErrorRef, p: &[u8]) {
    e.key("message", "InfError.message");
    match r.message() {
        Some(t) => e.str(t, "InfError.message"),
        None => e.none("InfError.message"),
    }
}
pub fn ser_InfWarning(e: &mut Exp, r: &InfWarningRef, p: &[u8]) {
    e.key("message", "InfWarning.message");
    match r.message() {
        Some(t) => e.str(t, "InfWarning.message"),
        None => e.none("InfWarning.message"),
    }
}
pub fn ser_InfNotice(e: &mut Exp, r: &InfNoticeRef, p: &[u8]) {
    e.key("message", "InfNotice.message");
    match r.message() {
        Some(t) => e.str(t, "InfNotice.message"),
        None => e.none("InfNotice.message"),
    }
}
pub fn ser_InfTest(e: &mut Exp, r: &InfTestRef, p: &[u8]) {
    e.key("message", "InfTest.message");
    match r.message() {
        Some(t) => e.str(t, "InfTest.message"),
        None => e.none("InfTest.message"),
    }
}
pub fn ser_InfDebug(e: &mut Exp, r: &InfDebugRef, p: &[u8]) {
    e.key("message", "InfDebug.message");
    match r.message() {
        Some(t) => e.str(t, "InfDebug.message"),
        None => e.none("InfDebug.message"),
    }
}
pub fn ser_RxmRawx(e: &mut Exp, r: &RxmRawxRef, p: &[u8]) {
    e.key("rcv_tow", "RxmRawx.rcv_tow");
    e.float(r.rcv_tow() as f64, "RxmRawx.rcv_tow");
    e.key("week", "RxmRawx.week");
    e.int(r.week() as i64 as u64, "RxmRawx.week");
    e.key("leap_s", "RxmRawx.leap_s");
    e.int(r.leap_s() as i64 as u64, "RxmRawx.leap_s");
    e.key("num_meas", "RxmRawx.num_meas");
    e.int(r.num_meas() as i64 as u64, "RxmRawx.num_meas");
    e.key("rec_stat", "RxmRawx.rec_stat");
    e.int(p[12] as u64, "RxmRawx.rec_stat");
    e.key("version", "RxmRawx.version");
    e.int(r.version() as i64 as u64, "RxmRawx.version");
    e.key("reserved1", "RxmRawx.reserved1");
    e.bytes(&p[14..16], "RxmRawx.reserved1");
    e.key("measurements", "RxmRawx.measurements");
    e.seq("RxmRawx.measurements");
    for (k, x) in r.measurements().enumerate() {
        e.map("block");
        ser_RxmRawxInfo(e, &x, &p[16 + 32 * k..]);
        e.end("block");
    }
    e.end("RxmRawx.measurements");
}
pub fn ser_TimTp(e: &mut Exp, r: &TimTpRef, p: &[u8]) {
    e.key("tow_ms", "TimTp.tow_ms");
    e.int(r.tow_ms() as i64 as u64, "TimTp.tow_ms");
    e.key("tow_sub_ms", "TimTp.tow_sub_ms");
    e.int(r.tow_sub_ms() as i64 as u64, "TimTp.tow_sub_ms");
    e.key("q_err", "TimTp.q_err");
    e.int(r.q_err() as i64 as u64, "TimTp.q_err");
    e.key("week", "TimTp.week");
    e.int(r.week() as i64 as u64, "TimTp.week");
    e.key("flags", "TimTp.flags");
    e.int(p[14] as u64, "TimTp.flags");
    e.key("ref_info", "TimTp.ref_info");
    e.int(p[15] as u64, "TimTp.ref_info");
}
pub fn ser_TimTm2(e: &mut Exp, r: &TimTm2Ref, p: &[u8]) {
    e.key("ch", "TimTm2.ch");
    e.int(r.ch() as i64 as u64, "TimTm2.ch");
    e.key("flags", "TimTm2.flags");
    e.int(p[1] as u64, "TimTm2.flags");
    e.key("count", "TimTm2.count");
    e.int(r.count() as i64 as u64, "TimTm2.count");
    e.key("wn_r", "TimTm2.wn_r");
    e.int(r.wn_r() as i64 as u64, "TimTm2.wn_r");
    e.key("wn_f", "TimTm2.wn_f");
    e.int(r.wn_f() as i64 as u64, "TimTm2.wn_f");
    e.key("tow_ms_r", "TimTm2.tow_ms_r");
    e.int(r.tow_ms_r() as i64 as u64, "TimTm2.tow_ms_r");
    e.key("tow_sub_ms_r", "TimTm2.tow_sub_ms_r");
    e.int(r.tow_sub_ms_r() as i64 as u64, "TimTm2.tow_sub_ms_r");
    e.key("tow_ms_f", "TimTm2.tow_ms_f");
    e.int(r.tow_ms_f() as i64 as u64, "TimTm2.tow_ms_f");
    e.key("tow_sub_ms_f", "TimTm2.tow_sub_ms_f");
    e.int(r.tow_sub_ms_f() as i64 as u64, "TimTm2.tow_sub_ms_f");
    e.key("acc_est", "TimTm2.acc_est");
    e.int(r.acc_est() as i64 as u64, "TimTm2.acc_est");
}
pub fn ser_MonVer(e: &mut Exp, r: &MonVerRef, p: &[u8]) {
    e.key("software_version", "MonVer.software_version");
    e.str(r.software_version(), "MonVer.software_version");
    e.key("hardware_version", "MonVer.hardware_version");
    e.str(r.hardware_version(), "MonVer.hardware_version");
    e.key("extension", "MonVer.extension");
    e.seq("MonVer.extension");
    for (k, x) in r.extension().enumerate() {
        e.str(x, "block");
    }
    e.end("MonVer.extension");
}
pub fn ser_MonGnss(e: &mut Exp, r: &MonGnssRef, p: &[u8]) {
    e.key("version", "MonGnss.version");
    e.int(r.version() as i64 as u64, "MonGnss.version");
    e.key("supported", "MonGnss.supported");
    e.int(p[1] as u64, "MonGnss.supported");
    e.key("default", "MonGnss.default");
    e.int(p[2] as u64, "MonGnss.default");
    e.key("enabled", "MonGnss.enabled");
    e.int(p[3] as u64, "MonGnss.enabled");
    e.key("simultaneous", "MonGnss.simultaneous");
    e.int(r.simultaneous() as i64 as u64, "MonGnss.simultaneous");
    e.key("reserved1", "MonGnss.reserved1");
    e.bytes(&p[5..8], "MonGnss.reserved1");
}
pub fn ser_MonHw(e: &mut Exp, r: &MonHwRef, p: &[u8]) {
    e.key("pin_sel", "MonHw.pin_sel");
    e.int(r.pin_sel() as i64 as u64, "MonHw.pin_sel");
    e.key("pin_bank", "MonHw.pin_bank");
    e.int(r.pin_bank() as i64 as u64, "MonHw.pin_bank");
    e.key("pin_dir", "MonHw.pin_dir");
    e.int(r.pin_dir() as i64 as u64, "MonHw.pin_dir");
    e.key("pin_val", "MonHw.pin_val");
    e.int(r.pin_val() as i64 as u64, "MonHw.pin_val");
    e.key("noise_per_ms", "MonHw.noise_per_ms");
    e.int(r.noise_per_ms() as i64 as u64, "MonHw.noise_per_ms");
    e.key("agc_cnt", "MonHw.agc_cnt");
    e.int(r.agc_cnt() as i64 as u64, "MonHw.agc_cnt");
    e.key("a_status", "MonHw.a_status");
    e.int(p[20] as u64, "MonHw.a_status");
    e.key("a_power", "MonHw.a_power");
    e.int(p[21] as u64, "MonHw.a_power");
    e.key("flags", "MonHw.flags");
    e.int(r.flags() as i64 as u64, "MonHw.flags");
    e.key("reserved1", "MonHw.reserved1");
    e.int(r.reserved1() as i64 as u64, "MonHw.reserved1");
    e.key("used_mask", "MonHw.used_mask");
    e.int(r.used_mask() as i64 as u64, "MonHw.used_mask");
    e.key("vp", "MonHw.vp");
    e.bytes(&p[28..45], "MonHw.vp");
    e.key("jam_ind", "MonHw.jam_ind");
    e.int(r.jam_ind() as i64 as u64, "MonHw.jam_ind");
    e.key("reserved2", "MonHw.reserved2");
    e.bytes(&p[46..48], "MonHw.reserved2");
    e.key("pin_irq", "MonHw.pin_irq");
    e.int(r.pin_irq() as i64 as u64, "MonHw.pin_irq");
    e.key("pull_h", "MonHw.pull_h");
    e.int(r.pull_h() as i64 as u64, "MonHw.pull_h");
    e.key("pull_l", "MonHw.pull_l");
    e.int(r.pull_l() as i64 as u64, "MonHw.pull_l");
}
pub fn ser_RxmRtcm(e: &mut Exp, r: &RxmRtcmRef, p: &[u8]) {
    e.key("version", "RxmRtcm.version");
    e.int(r.version() as i64 as u64, "RxmRtcm.version");
    e.key("flags", "RxmRtcm.flags");
    e.int(r.flags() as i64 as u64, "RxmRtcm.flags");
    e.key("sub_type", "RxmRtcm.sub_type");
    e.int(r.sub_type() as i64 as u64, "RxmRtcm.sub_type");
    e.key("ref_station", "RxmRtcm.ref_station");
    e.int(r.ref_station() as i64 as u64, "RxmRtcm.ref_station");
    e.key("msg_type", "RxmRtcm.msg_type");
    e.int(r.msg_type() as i64 as u64, "RxmRtcm.msg_type");
}
pub fn ser_EsfMeas(e: &mut Exp, r: &EsfMeasRef, p: &[u8]) {
    e.key("time_tag", "EsfMeas.time_tag");
    e.int(r.time_tag() as i64 as u64, "EsfMeas.time_tag");
    e.key("flags", "EsfMeas.flags");
    e.int(r.flags() as i64 as u64, "EsfMeas.flags");
    e.key("id", "EsfMeas.id");
    e.int(r.id() as i64 as u64, "EsfMeas.id");
    e.key("data", "EsfMeas.data");
    e.seq("EsfMeas.data");
    for (k, x) in r.data().enumerate() {
        e.map("block");
        e.key("data_type", "block");
        e.int(x.data_type as u64, "block");
        e.key("data_field", "block");
        e.int(x.data_field as u64, "block");
        e.end("block");
    }
    e.end("EsfMeas.data");
    e.key("calib_tag", "EsfMeas.calib_tag");
    match r.calib_tag() {
        Some(t) => e.int(t as u64, "EsfMeas.calib_tag"),
        None => e.none("EsfMeas.calib_tag"),
    }
}
pub fn ser_EsfIns(e: &mut Exp, r: &EsfInsRef, p: &[u8]) {
    e.key("bit_field", "EsfIns.bit_field");
    e.int(u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as u64, "EsfIns.bit_field");
    e.key("reserved", "EsfIns.reserved");
    e.bytes(&p[4..8], "EsfIns.reserved");
    e.key("itow", "EsfIns.itow");
    e.int(r.itow() as i64 as u64, "EsfIns.itow");
    e.key("x_ang_rate", "EsfIns.x_ang_rate");
    e.float(r.x_angular_rate() as f64, "EsfIns.x_ang_rate");
    e.key("y_ang_rate", "EsfIns.y_ang_rate");
    e.float(r.y_angular_rate() as f64, "EsfIns.y_ang_rate");
    e.key("z_ang_rate", "EsfIns.z_ang_rate");
    e.float(r.z_angular_rate() as f64, "EsfIns.z_ang_rate");
    e.key("x_accel", "EsfIns.x_accel");
    e.float(r.x_acceleration() as f64, "EsfIns.x_accel");
    e.key("y_accel", "EsfIns.y_accel");
    e.float(r.y_acceleration() as f64, "EsfIns.y_accel");
    e.key("z_accel", "EsfIns.z_accel");
    e.float(r.z_acceleration() as f64, "EsfIns.z_accel");
}
pub fn ser_HnrAtt(e: &mut Exp, r: &HnrAttRef, p: &[u8]) {
    e.key("itow", "HnrAtt.itow");
    e.int(r.itow() as i64 as u64, "HnrAtt.itow");
    e.key("version", "HnrAtt.version");
    e.int(r.version() as i64 as u64, "HnrAtt.version");
    e.key("reserved1", "HnrAtt.reserved1");
    e.bytes(&p[5..8], "HnrAtt.reserved1");
    e.key("roll", "HnrAtt.roll");
    e.float(r.vehicle_roll() as f64, "HnrAtt.roll");
    e.key("pitch", "HnrAtt.pitch");
    e.float(r.vehicle_pitch() as f64, "HnrAtt.pitch");
    e.key("heading", "HnrAtt.heading");
    e.float(r.vehicle_heading() as f64, "HnrAtt.heading");
    e.key("acc_roll", "HnrAtt.acc_roll");
    e.float(r.vehicle_roll_accuracy() as f64, "HnrAtt.acc_roll");
    e.key("acc_pitch", "HnrAtt.acc_pitch");
    e.float(r.vehicle_pitch_accuracy() as f64, "HnrAtt.acc_pitch");
    e.key("acc_heading", "HnrAtt.acc_heading");
    e.float(r.vehicle_heading_accuracy() as f64, "HnrAtt.acc_heading");
}
pub fn ser_HnrIns(e: &mut Exp, r: &HnrInsRef, p: &[u8]) {
    e.key("bit_field", "HnrIns.bit_field");
    e.int(u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as u64, "HnrIns.bit_field");
    e.key("reserved", "HnrIns.reserved");
    e.bytes(&p[4..8], "HnrIns.reserved");
    e.key("itow", "HnrIns.itow");
    e.int(r.itow() as i64 as u64, "HnrIns.itow");
    e.key("x_ang_rate", "HnrIns.x_ang_rate");
    e.float(r.x_angular_rate() as f64, "HnrIns.x_ang_rate");
    e.key("y_ang_rate", "HnrIns.y_ang_rate");
    e.float(r.y_angular_rate() as f64, "HnrIns.y_ang_rate");
    e.key("z_ang_rate", "HnrIns.z_ang_rate");
    e.float(r.z_angular_rate() as f64, "HnrIns.z_ang_rate");
    e.key("x_accel", "HnrIns.x_accel");
    e.float(r.x_acceleration() as f64, "HnrIns.x_accel");
    e.key("y_accel", "HnrIns.y_accel");
    e.float(r.y_acceleration() as f64, "HnrIns.y_accel");
    e.key("z_accel", "HnrIns.z_accel");
    e.float(r.z_acceleration() as f64, "HnrIns.z_accel");
}
pub fn ser_HnrPvt(e: &mut Exp, r: &HnrPvtRef, p: &[u8]) {
    e.key("itow", "HnrPvt.itow");
    e.int(r.itow() as i64 as u64, "HnrPvt.itow");
    e.key("year", "HnrPvt.year");
    e.int(r.year() as i64 as u64, "HnrPvt.year");
    e.key("month", "HnrPvt.month");
    e.int(r.month() as i64 as u64, "HnrPvt.month");
    e.key("day", "HnrPvt.day");
    e.int(r.day() as i64 as u64, "HnrPvt.day");
    e.key("hour", "HnrPvt.hour");
    e.int(r.hour() as i64 as u64, "HnrPvt.hour");
    e.key("min", "HnrPvt.min");
    e.int(r.min() as i64 as u64, "HnrPvt.min");
    e.key("sec", "HnrPvt.sec");
    e.int(r.sec() as i64 as u64, "HnrPvt.sec");
    e.key("valid", "HnrPvt.valid");
    e.int(p[11] as u64, "HnrPvt.valid");
    e.key("nano", "HnrPvt.nano");
    e.int(r.nano() as i64 as u64, "HnrPvt.nano");
    e.key("gps_fix", "HnrPvt.gps_fix");
    e.int(p[16] as u64, "HnrPvt.gps_fix");
    e.key("flags", "HnrPvt.flags");
    e.int(p[17] as u64, "HnrPvt.flags");
    e.key("reserved1", "HnrPvt.reserved1");
    e.bytes(&p[18..20], "HnrPvt.reserved1");
    e.key("lon", "HnrPvt.lon");
    e.float(r.longitude() as f64, "HnrPvt.lon");
    e.key("lat", "HnrPvt.lat");
    e.float(r.latitude() as f64, "HnrPvt.lat");
    e.key("height", "HnrPvt.height");
    e.float(r.height_above_ellipsoid() as f64, "HnrPvt.height");
    e.key("height_msl", "HnrPvt.height_msl");
    e.float(r.height_msl() as f64, "HnrPvt.height_msl");
    e.key("g_speed", "HnrPvt.g_speed");
    e.float(r.ground_speed_2d() as f64, "HnrPvt.g_speed");
    e.key("speed", "HnrPvt.speed");
    e.float(r.speed_3d() as f64, "HnrPvt.speed");
    e.key("head_mot", "HnrPvt.head_mot");
    e.float(r.heading_motion() as f64, "HnrPvt.head_mot");
    e.key("head_veh", "HnrPvt.head_veh");
    e.float(r.heading_vehicle() as f64, "HnrPvt.head_veh");
    e.key("h_acc", "HnrPvt.h_acc");
    e.int(r.h_acc() as i64 as u64, "HnrPvt.h_acc");
    e.key("v_acc", "HnrPvt.v_acc");
    e.int(r.v_acc() as i64 as u64, "HnrPvt.v_acc");
    e.key("s_acc", "HnrPvt.s_acc");
    e.int(r.s_acc() as i64 as u64, "HnrPvt.s_acc");
    e.key("head_acc", "HnrPvt.head_acc");
    e.float(r.heading_accurracy() as f64, "HnrPvt.head_acc");
    e.key("reserved2", "HnrPvt.reserved2");
    e.bytes(&p[68..72], "HnrPvt.reserved2");
}
pub fn ser_NavAtt(e: &mut Exp, r: &NavAttRef, p: &[u8]) {
    e.key("itow", "NavAtt.itow");
    e.int(r.itow() as i64 as u64, "NavAtt.itow");
    e.key("version", "NavAtt.version");
    e.int(r.version() as i64 as u64, "NavAtt.version");
    e.key("reserved1", "NavAtt.reserved1");
    e.bytes(&p[5..8], "NavAtt.reserved1");
    e.key("roll", "NavAtt.roll");
    e.float(r.vehicle_roll() as f64, "NavAtt.roll");
    e.key("pitch", "NavAtt.pitch");
    e.float(r.vehicle_pitch() as f64, "NavAtt.pitch");
    e.key("heading", "NavAtt.heading");
    e.float(r.vehicle_heading() as f64, "NavAtt.heading");
    e.key("acc_roll", "NavAtt.acc_roll");
    e.float(r.vehicle_roll_accuracy() as f64, "NavAtt.acc_roll");
    e.key("acc_pitch", "NavAtt.acc_pitch");
    e.float(r.vehicle_pitch_accuracy() as f64, "NavAtt.acc_pitch");
    e.key("acc_heading", "NavAtt.acc_heading");
    e.float(r.vehicle_heading_accuracy() as f64, "NavAtt.acc_heading");
}
pub fn ser_NavClock(e: &mut Exp, r: &NavClockRef, p: &[u8]) {
    e.key("itow", "NavClock.itow");
    e.int(r.itow() as i64 as u64, "NavClock.itow");
    e.key("clk_b", "NavClock.clk_b");
    e.int(r.clk_b() as i64 as u64, "NavClock.clk_b");
    e.key("clk_d", "NavClock.clk_d");
    e.int(r.clk_d() as i64 as u64, "NavClock.clk_d");
    e.key("t_acc", "NavClock.t_acc");
    e.int(r.t_acc() as i64 as u64, "NavClock.t_acc");
    e.key("f_acc", "NavClock.f_acc");
    e.int(r.f_acc() as i64 as u64, "NavClock.f_acc");
}
pub fn ser_NavVelECEF(e: &mut Exp, r: &NavVelECEFRef, p: &[u8]) {
    e.key("itow", "NavVelECEF.itow");
    e.int(r.itow() as i64 as u64, "NavVelECEF.itow");
    e.key("ecef_vx", "NavVelECEF.ecef_vx");
    e.int(r.ecef_vx() as i64 as u64, "NavVelECEF.ecef_vx");
    e.key("ecef_vy", "NavVelECEF.ecef_vy");
    e.int(r.ecef_vy() as i64 as u64, "NavVelECEF.ecef_vy");
    e.key("ecef_vz", "NavVelECEF.ecef_vz");
    e.int(r.ecef_vz() as i64 as u64, "NavVelECEF.ecef_vz");
    e.key("s_acc", "NavVelECEF.s_acc");
    e.int(r.s_acc() as i64 as u64, "NavVelECEF.s_acc");
}
pub fn ser_MgaGpsEPH(e: &mut Exp, r: &MgaGpsEPHRef, p: &[u8]) {
    e.key("msg_type", "MgaGpsEPH.msg_type");
    e.int(r.msg_type() as i64 as u64, "MgaGpsEPH.msg_type");
    e.key("version", "MgaGpsEPH.version");
    e.int(r.version() as i64 as u64, "MgaGpsEPH.version");
    e.key("sv_id", "MgaGpsEPH.sv_id");
    e.int(r.sv_id() as i64 as u64, "MgaGpsEPH.sv_id");
    e.key("reserved1", "MgaGpsEPH.reserved1");
    e.int(r.reserved1() as i64 as u64, "MgaGpsEPH.reserved1");
    e.key("fit_interval", "MgaGpsEPH.fit_interval");
    e.int(r.fit_interval() as i64 as u64, "MgaGpsEPH.fit_interval");
    e.key("ura_index", "MgaGpsEPH.ura_index");
    e.int(r.ura_index() as i64 as u64, "MgaGpsEPH.ura_index");
    e.key("sv_health", "MgaGpsEPH.sv_health");
    e.int(r.sv_health() as i64 as u64, "MgaGpsEPH.sv_health");
    e.key("tgd", "MgaGpsEPH.tgd");
    e.float(r.tgd() as f64, "MgaGpsEPH.tgd");
    e.key("iodc", "MgaGpsEPH.iodc");
    e.int(r.iodc() as i64 as u64, "MgaGpsEPH.iodc");
    e.key("toc", "MgaGpsEPH.toc");
    e.float(r.toc() as f64, "MgaGpsEPH.toc");
    e.key("reserved2", "MgaGpsEPH.reserved2");
    e.int(r.reserved2() as i64 as u64, "MgaGpsEPH.reserved2");
    e.key("af2", "MgaGpsEPH.af2");
    e.float(r.af2() as f64, "MgaGpsEPH.af2");
    e.key("afl", "MgaGpsEPH.afl");
    e.float(r.afl() as f64, "MgaGpsEPH.afl");
    e.key("af0", "MgaGpsEPH.af0");
    e.float(r.af0() as f64, "MgaGpsEPH.af0");
    e.key("crs", "MgaGpsEPH.crs");
    e.float(r.crs() as f64, "MgaGpsEPH.crs");
    e.key("delta_n", "MgaGpsEPH.delta_n");
    e.float(r.delta_n() as f64, "MgaGpsEPH.delta_n");
    e.key("m0", "MgaGpsEPH.m0");
    e.float(r.m0() as f64, "MgaGpsEPH.m0");
    e.key("cuc", "MgaGpsEPH.cuc");
    e.float(r.cuc() as f64, "MgaGpsEPH.cuc");
    e.key("cus", "MgaGpsEPH.cus");
    e.float(r.cus() as f64, "MgaGpsEPH.cus");
    e.key("e", "MgaGpsEPH.e");
    e.float(r.e() as f64, "MgaGpsEPH.e");
    e.key("sqrt_a", "MgaGpsEPH.sqrt_a");
    e.float(r.sqrt_a() as f64, "MgaGpsEPH.sqrt_a");
    e.key("toe", "MgaGpsEPH.toe");
    e.float(r.toe() as f64, "MgaGpsEPH.toe");
    e.key("cic", "MgaGpsEPH.cic");
    e.float(r.cic() as f64, "MgaGpsEPH.cic");
    e.key("omega0", "MgaGpsEPH.omega0");
    e.float(r.omega0() as f64, "MgaGpsEPH.omega0");
    e.key("cis", "MgaGpsEPH.cis");
    e.float(r.cis() as f64, "MgaGpsEPH.cis");
    e.key("crc", "MgaGpsEPH.crc");
    e.float(r.crc() as f64, "MgaGpsEPH.crc");
    e.key("i0", "MgaGpsEPH.i0");
    e.float(r.i0() as f64, "MgaGpsEPH.i0");
    e.key("omega", "MgaGpsEPH.omega");
    e.float(r.omega() as f64, "MgaGpsEPH.omega");
    e.key("omega_dot", "MgaGpsEPH.omega_dot");
    e.float(r.omega_dot() as f64, "MgaGpsEPH.omega_dot");
    e.key("idot", "MgaGpsEPH.idot");
    e.float(r.idot() as f64, "MgaGpsEPH.idot");
    e.key("reserved3", "MgaGpsEPH.reserved3");
    e.bytes(&p[66..68], "MgaGpsEPH.reserved3");
}
pub fn ser_RxmSfrbx(e: &mut Exp, r: &RxmSfrbxRef, p: &[u8]) {
    e.key("gnss_id", "RxmSfrbx.gnss_id");
    e.int(r.gnss_id() as i64 as u64, "RxmSfrbx.gnss_id");
    e.key("sv_id", "RxmSfrbx.sv_id");
    e.int(r.sv_id() as i64 as u64, "RxmSfrbx.sv_id");
    e.key("reserved1", "RxmSfrbx.reserved1");
    e.int(r.reserved1() as i64 as u64, "RxmSfrbx.reserved1");
    e.key("freq_id", "RxmSfrbx.freq_id");
    e.int(r.freq_id() as i64 as u64, "RxmSfrbx.freq_id");
    e.key("num_words", "RxmSfrbx.num_words");
    e.int(r.num_words() as i64 as u64, "RxmSfrbx.num_words");
    e.key("reserved2", "RxmSfrbx.reserved2");
    e.int(r.reserved2() as i64 as u64, "RxmSfrbx.reserved2");
    e.key("version", "RxmSfrbx.version");
    e.int(r.version() as i64 as u64, "RxmSfrbx.version");
    e.key("reserved3", "RxmSfrbx.reserved3");
    e.int(r.reserved3() as i64 as u64, "RxmSfrbx.reserved3");
    e.key("dwrd", "RxmSfrbx.dwrd");
    e.seq("RxmSfrbx.dwrd");
    for (k, x) in r.dwrd().enumerate() {
        e.int(x as u64, "block");
    }
    e.end("RxmSfrbx.dwrd");
}
pub fn ser_EsfRaw(e: &mut Exp, r: &EsfRawRef, p: &[u8]) {
    e.key("msss", "EsfRaw.msss");
    e.int(r.msss() as i64 as u64, "EsfRaw.msss");
    e.key("data", "EsfRaw.data");
    e.seq("EsfRaw.data");
    for (k, x) in r.data().enumerate() {
        e.map("block");
        e.key("data_type", "block");
        e.int(x.data_type as u64, "block");
        e.key("data_field", "block");
        e.int(x.data_field as u64, "block");
        e.key("sensor_time_tag", "block");
        e.int(x.sensor_time_tag as u64, "block");
        e.end("block");
    }
    e.end("EsfRaw.data");
}
pub fn ser_TimSvin(e: &mut Exp, r: &TimSvinRef, p: &[u8]) {
    e.key("dur", "TimSvin.dur");
    e.int(r.dur() as i64 as u64, "TimSvin.dur");
    e.key("mean_x", "TimSvin.mean_x");
    e.int(r.mean_x() as i64 as u64, "TimSvin.mean_x");
    e.key("mean_y", "TimSvin.mean_y");
    e.int(r.mean_y() as i64 as u64, "TimSvin.mean_y");
    e.key("mean_z", "TimSvin.mean_z");
    e.int(r.mean_z() as i64 as u64, "TimSvin.mean_z");
    e.key("mean_v", "TimSvin.mean_v");
    e.int(r.mean_v() as i64 as u64, "TimSvin.mean_v");
    e.key("obs", "TimSvin.obs");
    e.int(r.obs() as i64 as u64, "TimSvin.obs");
    e.key("valid", "TimSvin.valid");
    e.int(r.valid() as i64 as u64, "TimSvin.valid");
    e.key("active", "TimSvin.active");
    e.int(r.active() as i64 as u64, "TimSvin.active");
    e.key("reserved", "TimSvin.reserved");
    e.bytes(&p[26..28], "TimSvin.reserved");
}
pub fn ser_SecUniqId(e: &mut Exp, r: &SecUniqIdRef, p: &[u8]) {
    e.key("version", "SecUniqId.version");
    e.int(r.version() as i64 as u64, "SecUniqId.version");
    e.key("reserved1", "SecUniqId.reserved1");
    e.bytes(&p[1..4], "SecUniqId.reserved1");
    e.key("unique_id", "SecUniqId.unique_id");
    e.bytes(&p[4..9], "SecUniqId.unique_id");
}
pub fn ser_NavSatSvInfo(e: &mut Exp, r: &NavSatSvInfoRef, p: &[u8]) {
    e.key("gnss_id", "NavSatSvInfo.gnss_id");
    e.int(r.gnss_id() as i64 as u64, "NavSatSvInfo.gnss_id");
    e.key("sv_id", "NavSatSvInfo.sv_id");
    e.int(r.sv_id() as i64 as u64, "NavSatSvInfo.sv_id");
    e.key("cno", "NavSatSvInfo.cno");
    e.int(r.cno() as i64 as u64, "NavSatSvInfo.cno");
    e.key("elev", "NavSatSvInfo.elev");
    e.int(r.elev() as i64 as u64, "NavSatSvInfo.elev");
    e.key("azim", "NavSatSvInfo.azim");
    e.int(r.azim() as i64 as u64, "NavSatSvInfo.azim");
    e.key("pr_res", "NavSatSvInfo.pr_res");
    e.int(r.pr_res() as i64 as u64, "NavSatSvInfo.pr_res");
    e.key("flags", "NavSatSvInfo.flags");
    e.int(u32::from_le_bytes([p[8], p[9], p[10], p[11]]) as u64, "NavSatSvInfo.flags");
}
pub fn ser_RxmRawxInfo(e: &mut Exp, r: &RxmRawxInfoRef, p: &[u8]) {
    e.key("pr_mes", "RxmRawxInfo.pr_mes");
    e.float(r.pr_mes() as f64, "RxmRawxInfo.pr_mes");
    e.key("cp_mes", "RxmRawxInfo.cp_mes");
    e.float(r.cp_mes() as f64, "RxmRawxInfo.cp_mes");
    e.key("do_mes", "RxmRawxInfo.do_mes");
    e.float(r.do_mes() as f64, "RxmRawxInfo.do_mes");
    e.key("gnss_id", "RxmRawxInfo.gnss_id");
    e.int(r.gnss_id() as i64 as u64, "RxmRawxInfo.gnss_id");
    e.key("sv_id", "RxmRawxInfo.sv_id");
    e.int(r.sv_id() as i64 as u64, "RxmRawxInfo.sv_id");
    e.key("reserved2", "RxmRawxInfo.reserved2");
    e.int(r.reserved2() as i64 as u64, "RxmRawxInfo.reserved2");
    e.key("freq_id", "RxmRawxInfo.freq_id");
    e.int(r.freq_id() as i64 as u64, "RxmRawxInfo.freq_id");
    e.key("lock_time", "RxmRawxInfo.lock_time");
    e.int(r.lock_time() as i64 as u64, "RxmRawxInfo.lock_time");
    e.key("cno", "RxmRawxInfo.cno");
    e.int(r.cno() as i64 as u64, "RxmRawxInfo.cno");
    e.key("pr_stdev", "RxmRawxInfo.pr_stdev");
    e.int(p[27] as u64, "RxmRawxInfo.pr_stdev");
    e.key("cp_stdev", "RxmRawxInfo.cp_stdev");
    e.int(p[28] as u64, "RxmRawxInfo.cp_stdev");
    e.key("do_stdev", "RxmRawxInfo.do_stdev");
    e.int(p[29] as u64, "RxmRawxInfo.do_stdev");
    e.key("trk_stat", "RxmRawxInfo.trk_stat");
    e.int(p[30] as u64, "RxmRawxInfo.trk_stat");
    e.key("reserved3", "RxmRawxInfo.reserved3");
    e.int(r.reserved3() as i64 as u64, "RxmRawxInfo.reserved3");
}
pub fn ser_all(e: &mut Exp, pk: &PacketRef, p: &[u8]) {
    match pk {
        PacketRef::NavPosLlh(r) => ser_NavPosLlh(e, r, p),
        PacketRef::NavStatus(r) => ser_NavStatus(e, r, p),
        PacketRef::NavDop(r) => ser_NavDop(e, r, p),
        PacketRef::NavPvt(r) => ser_NavPvt(e, r, p),
        PacketRef::NavSolution(r) => ser_NavSolution(e, r, p),
        PacketRef::NavVelNed(r) => ser_NavVelNed(e, r, p),
        PacketRef::NavHpPosLlh(r) => ser_NavHpPosLlh(e, r, p),
        PacketRef::NavHpPosEcef(r) => ser_NavHpPosEcef(e, r, p),
        PacketRef::NavTimeUTC(r) => ser_NavTimeUTC(e, r, p),
        PacketRef::NavTimeLs(r) => ser_NavTimeLs(e, r, p),
        PacketRef::NavSat(r) => ser_NavSat(e, r, p),
        PacketRef::NavEoe(r) => ser_NavEoe(e, r, p),
        PacketRef::NavOdo(r) => ser_NavOdo(e, r, p),
        PacketRef::CfgOdo(r) => ser_CfgOdo(e, r, p),
        PacketRef::MgaAck(r) => ser_MgaAck(e, r, p),
        PacketRef::MgaGpsIono(r) => ser_MgaGpsIono(e, r, p),
        PacketRef::MgaGpsEph(r) => ser_MgaGpsEph(e, r, p),
        PacketRef::MgaGloEph(r) => ser_MgaGloEph(e, r, p),
        PacketRef::AlpSrv(r) => ser_AlpSrv(e, r, p),
        PacketRef::AckAck(r) => ser_AckAck(e, r, p),
        PacketRef::AckNak(r) => ser_AckNak(e, r, p),
        PacketRef::CfgItfm(r) => ser_CfgItfm(e, r, p),
        PacketRef::CfgPrtI2c(r) => ser_CfgPrtI2c(e, r, p),
        PacketRef::CfgPrtSpi(r) => ser_CfgPrtSpi(e, r, p),
        PacketRef::CfgPrtUart(r) => ser_CfgPrtUart(e, r, p),
        PacketRef::CfgNav5(r) => ser_CfgNav5(e, r, p),
        PacketRef::CfgAnt(r) => ser_CfgAnt(e, r, p),
        PacketRef::CfgTmode2(r) => ser_CfgTmode2(e, r, p),
        PacketRef::CfgTmode3(r) => ser_CfgTmode3(e, r, p),
        PacketRef::CfgTp5(r) => ser_CfgTp5(e, r, p),
        PacketRef::CfgInf(r) => ser_CfgInf(e, r, p),
        PacketRef::CfgNavX5(r) => ser_CfgNavX5(e, r, p),
        PacketRef::InfError(r) => ser_InfError(e, r, p),
        PacketRef::InfWarning(r) => ser_InfWarning(e, r, p),
        PacketRef::InfNotice(r) => ser_InfNotice(e, r, p),
        PacketRef::InfTest(r) => ser_InfTest(e, r, p),
        PacketRef::InfDebug(r) => ser_InfDebug(e, r, p),
        PacketRef::RxmRawx(r) => ser_RxmRawx(e, r, p),
        PacketRef::TimTp(r) => ser_TimTp(e, r, p),
        PacketRef::TimTm2(r) => ser_TimTm2(e, r, p),
        PacketRef::MonVer(r) => ser_MonVer(e, r, p),
        PacketRef::MonGnss(r) => ser_MonGnss(e, r, p),
        PacketRef::MonHw(r) => ser_MonHw(e, r, p),
        PacketRef::RxmRtcm(r) => ser_RxmRtcm(e, r, p),
        PacketRef::EsfMeas(r) => ser_EsfMeas(e, r, p),
        PacketRef::EsfIns(r) => ser_EsfIns(e, r, p),
        PacketRef::HnrAtt(r) => ser_HnrAtt(e, r, p),
        PacketRef::HnrIns(r) => ser_HnrIns(e, r, p),
        PacketRef::HnrPvt(r) => ser_HnrPvt(e, r, p),
        PacketRef::NavAtt(r) => ser_NavAtt(e, r, p),
        PacketRef::NavClock(r) => ser_NavClock(e, r, p),
        PacketRef::NavVelECEF(r) => ser_NavVelECEF(e, r, p),
        PacketRef::MgaGpsEPH(r) => ser_MgaGpsEPH(e, r, p),
        PacketRef::RxmSfrbx(r) => ser_RxmSfrbx(e, r, p),
        PacketRef::EsfRaw(r) => ser_EsfRaw(e, r, p),
        PacketRef::TimSvin(r) => ser_TimSvin(e, r, p),
        PacketRef::SecUniqId(r) => ser_SecUniqId(e, r, p),
        _ => {}
    }
}
pub fn own(pk: &PacketRef, c: Cap) -> Option<Result<(), Refused>> {
    use serde::Serialize;
    match pk {
        PacketRef::NavPosLlh(r) => Some(r.serialize(c)),
        PacketRef::NavStatus(r) => Some(r.serialize(c)),
        PacketRef::NavDop(r) => Some(r.serialize(c)),
        PacketRef::NavPvt(r) => Some(r.serialize(c)),
        PacketRef::NavSolution(r) => Some(r.serialize(c)),
        PacketRef::NavVelNed(r) => Some(r.serialize(c)),
        PacketRef::NavHpPosLlh(r) => Some(r.serialize(c)),
        PacketRef::NavHpPosEcef(r) => Some(r.serialize(c)),
        PacketRef::NavTimeUTC(r) => Some(r.serialize(c)),
        PacketRef::NavTimeLs(r) => Some(r.serialize(c)),
        PacketRef::NavSat(r) => Some(r.serialize(c)),
        PacketRef::NavEoe(r) => Some(r.serialize(c)),
        PacketRef::NavOdo(r) => Some(r.serialize(c)),
        PacketRef::CfgOdo(r) => Some(r.serialize(c)),
        PacketRef::MgaAck(r) => Some(r.serialize(c)),
        PacketRef::MgaGpsIono(r) => Some(r.serialize(c)),
        PacketRef::MgaGpsEph(r) => Some(r.serialize(c)),
        PacketRef::MgaGloEph(r) => Some(r.serialize(c)),
        PacketRef::AlpSrv(r) => Some(r.serialize(c)),
        PacketRef::AckAck(r) => Some(r.serialize(c)),
        PacketRef::AckNak(r) => Some(r.serialize(c)),
        PacketRef::CfgItfm(r) => Some(r.serialize(c)),
        PacketRef::CfgPrtI2c(r) => Some(r.serialize(c)),
        PacketRef::CfgPrtSpi(r) => Some(r.serialize(c)),
        PacketRef::CfgPrtUart(r) => Some(r.serialize(c)),
        PacketRef::CfgNav5(r) => Some(r.serialize(c)),
        PacketRef::CfgAnt(r) => Some(r.serialize(c)),
        PacketRef::CfgTmode2(r) => Some(r.serialize(c)),
        PacketRef::CfgTmode3(r) => Some(r.serialize(c)),
        PacketRef::CfgTp5(r) => Some(r.serialize(c)),
        PacketRef::CfgInf(r) => Some(r.serialize(c)),
        PacketRef::CfgNavX5(r) => Some(r.serialize(c)),
        PacketRef::InfError(r) => Some(r.serialize(c)),
        PacketRef::InfWarning(r) => Some(r.serialize(c)),
        PacketRef::InfNotice(r) => Some(r.serialize(c)),
        PacketRef::InfTest(r) => Some(r.serialize(c)),
        PacketRef::InfDebug(r) => Some(r.serialize(c)),
        PacketRef::RxmRawx(r) => Some(r.serialize(c)),
        PacketRef::TimTp(r) => Some(r.serialize(c)),
        PacketRef::TimTm2(r) => Some(r.serialize(c)),
        PacketRef::MonVer(r) => Some(r.serialize(c)),
        PacketRef::MonGnss(r) => Some(r.serialize(c)),
        PacketRef::MonHw(r) => Some(r.serialize(c)),
        PacketRef::RxmRtcm(r) => Some(r.serialize(c)),
        PacketRef::EsfMeas(r) => Some(r.serialize(c)),
        PacketRef::EsfIns(r) => Some(r.serialize(c)),
        PacketRef::HnrAtt(r) => Some(r.serialize(c)),
        PacketRef::HnrIns(r) => Some(r.serialize(c)),
        PacketRef::HnrPvt(r) => Some(r.serialize(c)),
        PacketRef::NavAtt(r) => Some(r.serialize(c)),
        PacketRef::NavClock(r) => Some(r.serialize(c)),
        PacketRef::NavVelECEF(r) => Some(r.serialize(c)),
        PacketRef::MgaGpsEPH(r) => Some(r.serialize(c)),
        PacketRef::RxmSfrbx(r) => Some(r.serialize(c)),
        PacketRef::EsfRaw(r) => Some(r.serialize(c)),
        PacketRef::TimSvin(r) => Some(r.serialize(c)),
        PacketRef::SecUniqId(r) => Some(r.serialize(c)),
        _ => None,
    }
}
