// generated by /verif/tools/gen.py from /verif/spec -- do not edit
#![allow(clippy::all)]
use ublox::cfg_val::*;
use ublox::*;
/// (key, type, value bytes)
pub const K: [(u32, u8, usize); 434] = [
    (0x40520001, 4, 4), // Uart1Baudrate
    (0x20520002, 9, 1), // Uart1StopBits
    (0x20520003, 7, 1), // Uart1DataBits
    (0x20520004, 8, 1), // Uart1Parity
    (0x10520005, 0, 1), // Uart1Enabled
    (0x10730001, 0, 1), // Uart1InProtUbx
    (0x10730002, 0, 1), // Uart1InProtNmea
    (0x10730004, 0, 1), // Uart1InProtRtcm3x
    (0x10740001, 0, 1), // Uart1OutProtUbx
    (0x10740002, 0, 1), // Uart1OutProtNmea
    (0x10740004, 0, 1), // Uart1OutProtRtcm3x
    (0x40530001, 4, 4), // Uart2Baudrate
    (0x20530002, 9, 1), // Uart2StopBits
    (0x20530003, 7, 1), // Uart2DataBits
    (0x20530004, 8, 1), // Uart2Parity
    (0x10530005, 0, 1), // Uart2Enabled
    (0x10530006, 0, 1), // Uart2Remap
    (0x10750001, 0, 1), // Uart2InProtUbx
    (0x10750002, 0, 1), // Uart2InProtNmea
    (0x10750004, 0, 1), // Uart2InProtRtcm3x
    (0x10760001, 0, 1), // Uart2OutProtUbx
    (0x10760002, 0, 1), // Uart2OutProtNmea
    (0x10760004, 0, 1), // Uart2OutProtRtcm3x
    (0x10650001, 0, 1), // UsbEnabled
    (0x10650002, 0, 1), // UsbSelfpow
    (0x3065000a, 2, 2), // UsbVendorId
    (0x3065000b, 2, 2), // UsbProductId
    (0x3065000c, 2, 2), // UsbPower
    (0x5065000d, 5, 8), // UsbVendorStr0
    (0x5065000e, 5, 8), // UsbVendorStr1
    (0x5065000f, 5, 8), // UsbVendorStr2
    (0x50650010, 5, 8), // UsbVendorStr3
    (0x50650011, 5, 8), // UsbProductStr0
    (0x50650012, 5, 8), // UsbProductStr1
    (0x50650013, 5, 8), // UsbProductStr2
    (0x50650014, 5, 8), // UsbProductStr3
    (0x50650015, 5, 8), // UsbSerialNoStr0
    (0x50650016, 5, 8), // UsbSerialNoStr1
    (0x50650017, 5, 8), // UsbSerialNoStr2
    (0x50650018, 5, 8), // UsbSerialNoStr3
    (0x10770001, 0, 1), // UsbinprotUbx
    (0x10770002, 0, 1), // UsbinprotNmea
    (0x10770004, 0, 1), // UsbinprotRtcm3X
    (0x10780001, 0, 1), // UsbOutProtUbx
    (0x10780002, 0, 1), // UsbOutProtNmea
    (0x10780004, 0, 1), // UsbOutProtRtcm3x
    (0x20920001, 6, 1), // InfmsgUbxI2c
    (0x20920002, 6, 1), // InfmsgUbxUart1
    (0x20920003, 6, 1), // InfmsgUbxUart2
    (0x20920004, 6, 1), // InfmsgUbxUsb
    (0x20920005, 6, 1), // InfmsgUbxSpi
    (0x20920006, 6, 1), // InfmsgNmeaI2c
    (0x20920007, 6, 1), // InfmsgNmeaUart1
    (0x20920008, 6, 1), // InfmsgNmeaUart2
    (0x20920009, 6, 1), // InfmsgNmeaUsb
    (0x2092000a, 6, 1), // InfmsgNmeaSpi
    (0x30210001, 2, 2), // RateMeas
    (0x30210002, 2, 2), // RateNav
    (0x20210003, 10, 1), // RateTimeref
    (0x209100a6, 1, 1), // MsgoutNmeaIdDtmI2c
    (0x209100aa, 1, 1), // MsgoutNmeaIdDtmSpi
    (0x209100a7, 1, 1), // MsgoutNmeaIdDtmUart1
    (0x209100a8, 1, 1), // MsgoutNmeaIdDtmUart2
    (0x209100a9, 1, 1), // MsgoutNmeaIdDtmUsb
    (0x209100dd, 1, 1), // MsgoutNmeaIdGbsI2c
    (0x209100e1, 1, 1), // MsgoutNmeaIdGbsSpi
    (0x209100de, 1, 1), // MsgoutNmeaIdGbsUart1
    (0x209100df, 1, 1), // MsgoutNmeaIdGbsUart2
    (0x209100e0, 1, 1), // MsgoutNmeaIdGbsUsb
    (0x209100ba, 1, 1), // MsgoutNmeaIdGgaI2c
    (0x209100be, 1, 1), // MsgoutNmeaIdGgaSpi
    (0x209100bb, 1, 1), // MsgoutNmeaIdGgaUart1
    (0x209100bc, 1, 1), // MsgoutNmeaIdGgaUart2
    (0x209100bd, 1, 1), // MsgoutNmeaIdGgaUsb
    (0x209100c9, 1, 1), // MsgoutNmeaIdGllI2c
    (0x209100cd, 1, 1), // MsgoutNmeaIdGllSpi
    (0x209100ca, 1, 1), // MsgoutNmeaIdGllUart1
    (0x209100cb, 1, 1), // MsgoutNmeaIdGllUart2
    (0x209100cc, 1, 1), // MsgoutNmeaIdGllUsb
    (0x209100b5, 1, 1), // MsgoutNmeaIdGnsI2c
    (0x209100b9, 1, 1), // MsgoutNmeaIdGnsSpi
    (0x209100b6, 1, 1), // MsgoutNmeaIdGnsUart1
    (0x209100b7, 1, 1), // MsgoutNmeaIdGnsUart2
    (0x209100b8, 1, 1), // MsgoutNmeaIdGnsUsb
    (0x209100ce, 1, 1), // MsgoutNmeaIdGrsI2c
    (0x209100d2, 1, 1), // MsgoutNmeaIdGrsSpi
    (0x209100cf, 1, 1), // MsgoutNmeaIdGrsUart1
    (0x209100d0, 1, 1), // MsgoutNmeaIdGrsUart2
    (0x209100d1, 1, 1), // MsgoutNmeaIdGrsUsb
    (0x209100bf, 1, 1), // MsgoutNmeaIdGsaI2c
    (0x209100c3, 1, 1), // MsgoutNmeaIdGsaSpi
    (0x209100c0, 1, 1), // MsgoutNmeaIdGsaUart1
    (0x209100c1, 1, 1), // MsgoutNmeaIdGsaUart2
    (0x209100c2, 1, 1), // MsgoutNmeaIdGsaUsb
    (0x209100d3, 1, 1), // MsgoutNmeaIdGstI2c
    (0x209100d7, 1, 1), // MsgoutNmeaIdGstSpi
    (0x209100d4, 1, 1), // MsgoutNmeaIdGstUart1
    (0x209100d5, 1, 1), // MsgoutNmeaIdGstUart2
    (0x209100d6, 1, 1), // MsgoutNmeaIdGstUsb
    (0x209100c4, 1, 1), // MsgoutNmeaIdGsvI2c
    (0x209100c8, 1, 1), // MsgoutNmeaIdGsvSpi
    (0x209100c5, 1, 1), // MsgoutNmeaIdGsvUart1
    (0x209100c6, 1, 1), // MsgoutNmeaIdGsvUart2
    (0x209100c7, 1, 1), // MsgoutNmeaIdGsvUsb
    (0x209100ab, 1, 1), // MsgoutNmeaIdRmcI2c
    (0x209100af, 1, 1), // MsgoutNmeaIdRmcSpi
    (0x209100ac, 1, 1), // MsgoutNmeaIdRmcUart1
    (0x209100ad, 1, 1), // MsgoutNmeaIdRmcUart2
    (0x209100ae, 1, 1), // MsgoutNmeaIdRmcUsb
    (0x209100e7, 1, 1), // MsgoutNmeaIdVlwI2c
    (0x209100eb, 1, 1), // MsgoutNmeaIdVlwSpi
    (0x209100e8, 1, 1), // MsgoutNmeaIdVlwUart1
    (0x209100e9, 1, 1), // MsgoutNmeaIdVlwUart2
    (0x209100ea, 1, 1), // MsgoutNmeaIdVlwUsb
    (0x209100b0, 1, 1), // MsgoutNmeaIdVtgI2c
    (0x209100b4, 1, 1), // MsgoutNmeaIdVtgSpi
    (0x209100b1, 1, 1), // MsgoutNmeaIdVtgUart1
    (0x209100b2, 1, 1), // MsgoutNmeaIdVtgUart2
    (0x209100b3, 1, 1), // MsgoutNmeaIdVtgUsb
    (0x209100d8, 1, 1), // MsgoutNmeaIdZdaI2c
    (0x209100dc, 1, 1), // MsgoutNmeaIdZdaSpi
    (0x209100d9, 1, 1), // MsgoutNmeaIdZdaUart1
    (0x209100da, 1, 1), // MsgoutNmeaIdZdaUart2
    (0x209100db, 1, 1), // MsgoutNmeaIdZdaUsb
    (0x209100ec, 1, 1), // MsgoutPubxIdPolypI2c
    (0x209100f0, 1, 1), // MsgoutPubxIdPolypSpi
    (0x209100ed, 1, 1), // MsgoutPubxIdPolypUart1
    (0x209100ee, 1, 1), // MsgoutPubxIdPolypUart2
    (0x209100ef, 1, 1), // MsgoutPubxIdPolypUsb
    (0x209100f1, 1, 1), // MsgoutPubxIdPolysI2c
    (0x209100f5, 1, 1), // MsgoutPubxIdPolysSpi
    (0x209100f2, 1, 1), // MsgoutPubxIdPolysUart1
    (0x209100f3, 1, 1), // MsgoutPubxIdPolysUart2
    (0x209100f4, 1, 1), // MsgoutPubxIdPolysUsb
    (0x209100f6, 1, 1), // MsgoutPubxIdPolytI2c
    (0x209100fa, 1, 1), // MsgoutPubxIdPolytSpi
    (0x209100f7, 1, 1), // MsgoutPubxIdPolytUart1
    (0x209100f8, 1, 1), // MsgoutPubxIdPolytUart2
    (0x209100f9, 1, 1), // MsgoutPubxIdPolytUsb
    (0x209102bd, 1, 1), // MsgoutRtcm3xType1005I2c
    (0x209102c1, 1, 1), // MsgoutRtcm3xType1005Spi
    (0x209102be, 1, 1), // MsgoutRtcm3xType1005Uart1
    (0x209102bf, 1, 1), // MsgoutRtcm3xType1005Uart2
    (0x209102c0, 1, 1), // MsgoutRtcm3xType1005Usb
    (0x2091035e, 1, 1), // MsgoutRtcm3xType1074I2c
    (0x20910362, 1, 1), // MsgoutRtcm3xType1074Spi
    (0x2091035f, 1, 1), // MsgoutRtcm3xType1074Uart1
    (0x20910360, 1, 1), // MsgoutRtcm3xType1074Uart2
    (0x20910361, 1, 1), // MsgoutRtcm3xType1074Usb
    (0x209102cc, 1, 1), // MsgoutRtcm3xType1077I2c
    (0x209102d0, 1, 1), // MsgoutRtcm3xType1077Spi
    (0x209102cd, 1, 1), // MsgoutRtcm3xType1077Uart1
    (0x209102ce, 1, 1), // MsgoutRtcm3xType1077Uart2
    (0x209102cf, 1, 1), // MsgoutRtcm3xType1077Usb
    (0x20910363, 1, 1), // MsgoutRtcm3xType1084I2c
    (0x20910367, 1, 1), // MsgoutRtcm3xType1084Spi
    (0x20910364, 1, 1), // MsgoutRtcm3xType1084Uart1
    (0x20910365, 1, 1), // MsgoutRtcm3xType1084Uart2
    (0x20910366, 1, 1), // MsgoutRtcm3xType1084Usb
    (0x209102d1, 1, 1), // MsgoutRtcm3xType1087I2c
    (0x209102d5, 1, 1), // MsgoutRtcm3xType1087Spi
    (0x209102d2, 1, 1), // MsgoutRtcm3xType1087Uart1
    (0x209102d3, 1, 1), // MsgoutRtcm3xType1087Uart2
    (0x209102d4, 1, 1), // MsgoutRtcm3xType1087Usb
    (0x20910368, 1, 1), // MsgoutRtcm3xType1094I2c
    (0x2091036c, 1, 1), // MsgoutRtcm3xType1094Spi
    (0x20910369, 1, 1), // MsgoutRtcm3xType1094Uart1
    (0x2091036a, 1, 1), // MsgoutRtcm3xType1094Uart2
    (0x2091036b, 1, 1), // MsgoutRtcm3xType1094Usb
    (0x20910318, 1, 1), // MsgoutRtcm3xType1097I2c
    (0x2091031c, 1, 1), // MsgoutRtcm3xType1097Spi
    (0x20910319, 1, 1), // MsgoutRtcm3xType1097Uart1
    (0x2091031a, 1, 1), // MsgoutRtcm3xType1097Uart2
    (0x2091031b, 1, 1), // MsgoutRtcm3xType1097Usb
    (0x2091036d, 1, 1), // MsgoutRtcm3xType1124I2c
    (0x20910371, 1, 1), // MsgoutRtcm3xType1124Spi
    (0x2091036e, 1, 1), // MsgoutRtcm3xType1124Uart1
    (0x2091036f, 1, 1), // MsgoutRtcm3xType1124Uart2
    (0x20910370, 1, 1), // MsgoutRtcm3xType1124Usb
    (0x209102d6, 1, 1), // MsgoutRtcm3xType1127I2c
    (0x209102da, 1, 1), // MsgoutRtcm3xType1127Spi
    (0x209102d7, 1, 1), // MsgoutRtcm3xType1127Uart1
    (0x209102d8, 1, 1), // MsgoutRtcm3xType1127Uart2
    (0x209102d9, 1, 1), // MsgoutRtcm3xType1127Usb
    (0x20910303, 1, 1), // MsgoutRtcm3xType1230I2c
    (0x20910307, 1, 1), // MsgoutRtcm3xType1230Spi
    (0x20910304, 1, 1), // MsgoutRtcm3xType1230Uart1
    (0x20910305, 1, 1), // MsgoutRtcm3xType1230Uart2
    (0x20910306, 1, 1), // MsgoutRtcm3xType1230Usb
    (0x20910259, 1, 1), // MsgoutUbxLogInfoI2c
    (0x2091025d, 1, 1), // MsgoutUbxLogInfoSpi
    (0x2091025a, 1, 1), // MsgoutUbxLogInfoUart1
    (0x2091025b, 1, 1), // MsgoutUbxLogInfoUart2
    (0x2091025c, 1, 1), // MsgoutUbxLogInfoUsb
    (0x2091034f, 1, 1), // MsgoutUbxMonCommsI2c
    (0x20910353, 1, 1), // MsgoutUbxMonCommsSpi
    (0x20910350, 1, 1), // MsgoutUbxMonCommsUart1
    (0x20910351, 1, 1), // MsgoutUbxMonCommsUart2
    (0x20910352, 1, 1), // MsgoutUbxMonCommsUsb
    (0x209101b9, 1, 1), // MsgoutUbxMonHw2I2c
    (0x209101bd, 1, 1), // MsgoutUbxMonHw2Spi
    (0x209101ba, 1, 1), // MsgoutUbxMonHw2Uart1
    (0x209101bb, 1, 1), // MsgoutUbxMonHw2Uart2
    (0x209101bc, 1, 1), // MsgoutUbxMonHw2Usb
    (0x20910354, 1, 1), // MsgoutUbxMonHw3I2c
    (0x20910358, 1, 1), // MsgoutUbxMonHw3Spi
    (0x20910355, 1, 1), // MsgoutUbxMonHw3Uart1
    (0x20910356, 1, 1), // MsgoutUbxMonHw3Uart2
    (0x20910357, 1, 1), // MsgoutUbxMonHw3Usb
    (0x209101b4, 1, 1), // MsgoutUbxMonHwI2c
    (0x209101b8, 1, 1), // MsgoutUbxMonHwSpi
    (0x209101b5, 1, 1), // MsgoutUbxMonHwUart1
    (0x209101b6, 1, 1), // MsgoutUbxMonHwUart2
    (0x209101b7, 1, 1), // MsgoutUbxMonHwUsb
    (0x209101a5, 1, 1), // MsgoutUbxMonIoI2c
    (0x209101a9, 1, 1), // MsgoutUbxMonIoSpi
    (0x209101a6, 1, 1), // MsgoutUbxMonIoUart1
    (0x209101a7, 1, 1), // MsgoutUbxMonIoUart2
    (0x209101a8, 1, 1), // MsgoutUbxMonIoUsb
    (0x20910196, 1, 1), // MsgoutUbxMonMsgPpI2c
    (0x2091019a, 1, 1), // MsgoutUbxMonMsgPpSpi
    (0x20910197, 1, 1), // MsgoutUbxMonMsgPpUart1
    (0x20910198, 1, 1), // MsgoutUbxMonMsgPpUart2
    (0x20910199, 1, 1), // MsgoutUbxMonMsgPpUsb
    (0x20910359, 1, 1), // MsgoutUbxMonRfI2c
    (0x2091035d, 1, 1), // MsgoutUbxMonRfSpi
    (0x2091035a, 1, 1), // MsgoutUbxMonRfUart1
    (0x2091035b, 1, 1), // MsgoutUbxMonRfUart2
    (0x2091035c, 1, 1), // MsgoutUbxMonRfUsb
    (0x209101a0, 1, 1), // MsgoutUbxMonRxbufI2c
    (0x209101a4, 1, 1), // MsgoutUbxMonRxbufSpi
    (0x209101a1, 1, 1), // MsgoutUbxMonRxbufUart1
    (0x209101a2, 1, 1), // MsgoutUbxMonRxbufUart2
    (0x209101a3, 1, 1), // MsgoutUbxMonRxbufUsb
    (0x20910187, 1, 1), // MsgoutUbxMonRxrI2c
    (0x2091018b, 1, 1), // MsgoutUbxMonRxrSpi
    (0x20910188, 1, 1), // MsgoutUbxMonRxrUart1
    (0x20910189, 1, 1), // MsgoutUbxMonRxrUart2
    (0x2091018a, 1, 1), // MsgoutUbxMonRxrUsb
    (0x2091019b, 1, 1), // MsgoutUbxMonTxbufI2c
    (0x2091019f, 1, 1), // MsgoutUbxMonTxbufSpi
    (0x2091019c, 1, 1), // MsgoutUbxMonTxbufUart1
    (0x2091019d, 1, 1), // MsgoutUbxMonTxbufUart2
    (0x2091019e, 1, 1), // MsgoutUbxMonTxbufUsb
    (0x20910065, 1, 1), // MsgoutUbxNavClockI2c
    (0x20910069, 1, 1), // MsgoutUbxNavClockSpi
    (0x20910066, 1, 1), // MsgoutUbxNavClockUart1
    (0x20910067, 1, 1), // MsgoutUbxNavClockUart2
    (0x20910068, 1, 1), // MsgoutUbxNavClockUsb
    (0x20910038, 1, 1), // MsgoutUbxNavDopI2c
    (0x2091003c, 1, 1), // MsgoutUbxNavDopSpi
    (0x20910039, 1, 1), // MsgoutUbxNavDopUart1
    (0x2091003a, 1, 1), // MsgoutUbxNavDopUart2
    (0x2091003b, 1, 1), // MsgoutUbxNavDopUsb
    (0x2091015f, 1, 1), // MsgoutUbxNavEoeI2c
    (0x20910163, 1, 1), // MsgoutUbxNavEoeSpi
    (0x20910160, 1, 1), // MsgoutUbxNavEoeUart1
    (0x20910161, 1, 1), // MsgoutUbxNavEoeUart2
    (0x20910162, 1, 1), // MsgoutUbxNavEoeUsb
    (0x209100a1, 1, 1), // MsgoutUbxNavGeofenceI2c
    (0x209100a5, 1, 1), // MsgoutUbxNavGeofenceSpi
    (0x209100a2, 1, 1), // MsgoutUbxNavGeofenceUart1
    (0x209100a3, 1, 1), // MsgoutUbxNavGeofenceUart2
    (0x209100a4, 1, 1), // MsgoutUbxNavGeofenceUsb
    (0x2091002e, 1, 1), // MsgoutUbxNavHpPosEcefI2c
    (0x20910032, 1, 1), // MsgoutUbxNavHpPosEcefSpi
    (0x2091002f, 1, 1), // MsgoutUbxNavHpPosEcefUart1
    (0x20910030, 1, 1), // MsgoutUbxNavHpPosEcefUart2
    (0x20910031, 1, 1), // MsgoutUbxNavHpPosEcefUsb
    (0x20910033, 1, 1), // MsgoutUbxNavHpPosllhI2c
    (0x20910037, 1, 1), // MsgoutUbxNavHpPosllhSpi
    (0x20910034, 1, 1), // MsgoutUbxNavHpPosllhUart1
    (0x20910035, 1, 1), // MsgoutUbxNavHpPosllhUart2
    (0x20910036, 1, 1), // MsgoutUbxNavHpPosllhUsb
    (0x2091007e, 1, 1), // MsgoutUbxNavOdoI2c
    (0x20910082, 1, 1), // MsgoutUbxNavOdoSpi
    (0x2091007f, 1, 1), // MsgoutUbxNavOdoUart1
    (0x20910080, 1, 1), // MsgoutUbxNavOdoUart2
    (0x20910081, 1, 1), // MsgoutUbxNavOdoUsb
    (0x20910010, 1, 1), // MsgoutUbxNavOrbI2c
    (0x20910014, 1, 1), // MsgoutUbxNavOrbSpi
    (0x20910011, 1, 1), // MsgoutUbxNavOrbUart1
    (0x20910012, 1, 1), // MsgoutUbxNavOrbUart2
    (0x20910013, 1, 1), // MsgoutUbxNavOrbUsb
    (0x20910024, 1, 1), // MsgoutUbxNavPosEcefI2c
    (0x20910028, 1, 1), // MsgoutUbxNavPosEcefSpi
    (0x20910025, 1, 1), // MsgoutUbxNavPosEcefUart1
    (0x20910026, 1, 1), // MsgoutUbxNavPosEcefUart2
    (0x20910027, 1, 1), // MsgoutUbxNavPosEcefUsb
    (0x20910029, 1, 1), // MsgoutUbxNavPosLlhI2c
    (0x2091002d, 1, 1), // MsgoutUbxNavPosLlhSpi
    (0x2091002a, 1, 1), // MsgoutUbxNavPosLlhUart1
    (0x2091002b, 1, 1), // MsgoutUbxNavPosLlhUart2
    (0x2091002c, 1, 1), // MsgoutUbxNavPosLlhUsb
    (0x20910006, 1, 1), // MsgoutUbxNavPvtI2c
    (0x2091000a, 1, 1), // MsgoutUbxNavPvtSpi
    (0x20910007, 1, 1), // MsgoutUbxNavPvtUart1
    (0x20910008, 1, 1), // MsgoutUbxNavPvtUart2
    (0x20910009, 1, 1), // MsgoutUbxNavPvtUsb
    (0x2091008d, 1, 1), // MsgoutUbxNavRelposnedI2c
    (0x20910091, 1, 1), // MsgoutUbxNavRelposnedSpi
    (0x2091008e, 1, 1), // MsgoutUbxNavRelposnedUart1
    (0x2091008f, 1, 1), // MsgoutUbxNavRelposnedUart2
    (0x20910090, 1, 1), // MsgoutUbxNavRelposnedUsb
    (0x20910015, 1, 1), // MsgoutUbxNavSatI2c
    (0x20910019, 1, 1), // MsgoutUbxNavSatSpi
    (0x20910016, 1, 1), // MsgoutUbxNavSatUart1
    (0x20910017, 1, 1), // MsgoutUbxNavSatUart2
    (0x20910018, 1, 1), // MsgoutUbxNavSatUsb
    (0x20910345, 1, 1), // MsgoutUbxNavSigI2c
    (0x20910349, 1, 1), // MsgoutUbxNavSigSpi
    (0x20910346, 1, 1), // MsgoutUbxNavSigUart1
    (0x20910347, 1, 1), // MsgoutUbxNavSigUart2
    (0x20910348, 1, 1), // MsgoutUbxNavSigUsb
    (0x2091001a, 1, 1), // MsgoutUbxNavStatusI2c
    (0x2091001e, 1, 1), // MsgoutUbxNavStatusSpi
    (0x2091001b, 1, 1), // MsgoutUbxNavStatusUart1
    (0x2091001c, 1, 1), // MsgoutUbxNavStatusUart2
    (0x2091001d, 1, 1), // MsgoutUbxNavStatusUsb
    (0x20910088, 1, 1), // MsgoutUbxNavSvinI2c
    (0x2091008c, 1, 1), // MsgoutUbxNavSvinSpi
    (0x20910089, 1, 1), // MsgoutUbxNavSvinUart1
    (0x2091008a, 1, 1), // MsgoutUbxNavSvinUart2
    (0x2091008b, 1, 1), // MsgoutUbxNavSvinUsb
    (0x20910051, 1, 1), // MsgoutUbxNavTimeBdsI2c
    (0x20910055, 1, 1), // MsgoutUbxNavTimeBdsSpi
    (0x20910052, 1, 1), // MsgoutUbxNavTimeBdsUart1
    (0x20910053, 1, 1), // MsgoutUbxNavTimeBdsUart2
    (0x20910054, 1, 1), // MsgoutUbxNavTimeBdsUsb
    (0x20910056, 1, 1), // MsgoutUbxNavTimeGalI2c
    (0x2091005a, 1, 1), // MsgoutUbxNavTimeGalSpi
    (0x20910057, 1, 1), // MsgoutUbxNavTimeGalUart1
    (0x20910058, 1, 1), // MsgoutUbxNavTimeGalUart2
    (0x20910059, 1, 1), // MsgoutUbxNavTimeGalUsb
    (0x2091004c, 1, 1), // MsgoutUbxNavTimeGloI2c
    (0x20910050, 1, 1), // MsgoutUbxNavTimeGloSpi
    (0x2091004d, 1, 1), // MsgoutUbxNavTimeGloUart1
    (0x2091004e, 1, 1), // MsgoutUbxNavTimeGloUart2
    (0x2091004f, 1, 1), // MsgoutUbxNavTimeGloUsb
    (0x20910047, 1, 1), // MsgoutUbxNavTimeGpsI2c
    (0x2091004b, 1, 1), // MsgoutUbxNavTimeGpsSpi
    (0x20910048, 1, 1), // MsgoutUbxNavTimeGpsUart1
    (0x20910049, 1, 1), // MsgoutUbxNavTimeGpsUart2
    (0x2091004a, 1, 1), // MsgoutUbxNavTimeGpsUsb
    (0x20910060, 1, 1), // MsgoutUbxNavTimeLsI2c
    (0x20910064, 1, 1), // MsgoutUbxNavTimeLsSpi
    (0x20910061, 1, 1), // MsgoutUbxNavTimeLsUart1
    (0x20910062, 1, 1), // MsgoutUbxNavTimeLsUart2
    (0x20910063, 1, 1), // MsgoutUbxNavTimeLsUsb
    (0x2091005b, 1, 1), // MsgoutUbxNavTimeUtcI2c
    (0x2091005f, 1, 1), // MsgoutUbxNavTimeUtcSpi
    (0x2091005c, 1, 1), // MsgoutUbxNavTimeUtcUart1
    (0x2091005d, 1, 1), // MsgoutUbxNavTimeUtcUart2
    (0x2091005e, 1, 1), // MsgoutUbxNavTimeUtcUsb
    (0x2091003d, 1, 1), // MsgoutUbxNavVelEcefI2c
    (0x20910041, 1, 1), // MsgoutUbxNavVelEcefSpi
    (0x2091003e, 1, 1), // MsgoutUbxNavVelEcefUart1
    (0x2091003f, 1, 1), // MsgoutUbxNavVelEcefUart2
    (0x20910040, 1, 1), // MsgoutUbxNavVelEcefUsb
    (0x20910042, 1, 1), // MsgoutUbxNavVelNedI2c
    (0x20910046, 1, 1), // MsgoutUbxNavVelNedSpi
    (0x20910043, 1, 1), // MsgoutUbxNavVelNedUart1
    (0x20910044, 1, 1), // MsgoutUbxNavVelNedUart2
    (0x20910045, 1, 1), // MsgoutUbxNavVelNedUsb
    (0x20910204, 1, 1), // MsgoutUbxRxmMeasxI2c
    (0x20910208, 1, 1), // MsgoutUbxRxmMeasxSpi
    (0x20910205, 1, 1), // MsgoutUbxRxmMeasxUart1
    (0x20910206, 1, 1), // MsgoutUbxRxmMeasxUart2
    (0x20910207, 1, 1), // MsgoutUbxRxmMeasxUsb
    (0x209102a4, 1, 1), // MsgoutUbxRxmRawxI2c
    (0x209102a8, 1, 1), // MsgoutUbxRxmRawxSpi
    (0x209102a5, 1, 1), // MsgoutUbxRxmRawxUart1
    (0x209102a6, 1, 1), // MsgoutUbxRxmRawxUart2
    (0x209102a7, 1, 1), // MsgoutUbxRxmRawxUsb
    (0x2091025e, 1, 1), // MsgoutUbxRxmRlmI2c
    (0x20910262, 1, 1), // MsgoutUbxRxmRlmSpi
    (0x2091025f, 1, 1), // MsgoutUbxRxmRlmUart1
    (0x20910260, 1, 1), // MsgoutUbxRxmRlmUart2
    (0x20910261, 1, 1), // MsgoutUbxRxmRlmUsb
    (0x20910268, 1, 1), // MsgoutUbxRxmRtcmI2c
    (0x2091026c, 1, 1), // MsgoutUbxRxmRtcmSpi
    (0x20910269, 1, 1), // MsgoutUbxRxmRtcmUart1
    (0x2091026a, 1, 1), // MsgoutUbxRxmRtcmUart2
    (0x2091026b, 1, 1), // MsgoutUbxRxmRtcmUsb
    (0x20910231, 1, 1), // MsgoutUbxRxmSfrbxI2c
    (0x20910235, 1, 1), // MsgoutUbxRxmSfrbxSpi
    (0x20910232, 1, 1), // MsgoutUbxRxmSfrbxUart1
    (0x20910233, 1, 1), // MsgoutUbxRxmSfrbxUart2
    (0x20910234, 1, 1), // MsgoutUbxRxmSfrbxUsb
    (0x20910178, 1, 1), // MsgoutUbxTimTm2I2c
    (0x2091017c, 1, 1), // MsgoutUbxTimTm2Spi
    (0x20910179, 1, 1), // MsgoutUbxTimTm2Uart1
    (0x2091017a, 1, 1), // MsgoutUbxTimTm2Uart2
    (0x2091017b, 1, 1), // MsgoutUbxTimTm2Usb
    (0x2091017d, 1, 1), // MsgoutUbxTimTpI2c
    (0x20910181, 1, 1), // MsgoutUbxTimTpSpi
    (0x2091017e, 1, 1), // MsgoutUbxTimTpUart1
    (0x2091017f, 1, 1), // MsgoutUbxTimTpUart2
    (0x20910180, 1, 1), // MsgoutUbxTimTpUsb
    (0x20910092, 1, 1), // MsgoutUbxTimVrfyI2c
    (0x20910096, 1, 1), // MsgoutUbxTimVrfySpi
    (0x20910093, 1, 1), // MsgoutUbxTimVrfyUart1
    (0x20910094, 1, 1), // MsgoutUbxTimVrfyUart2
    (0x20910095, 1, 1), // MsgoutUbxTimVrfyUsb
    (0x1031001f, 0, 1), // SignalGpsEna
    (0x10310001, 0, 1), // SignalGpsL1caEna
    (0x10310003, 0, 1), // SignalGpsL2cEna
    (0x10310021, 0, 1), // SignalGalEna
    (0x10310007, 0, 1), // SignalGalE1Ena
    (0x1031000a, 0, 1), // SignalGalE5bEna
    (0x10310022, 0, 1), // SignalBdsEna
    (0x1031000d, 0, 1), // SignalBdsB1Ena
    (0x1031000e, 0, 1), // SignalBdsB2Ena
    (0x10310024, 0, 1), // SignalQzssEna
    (0x10310012, 0, 1), // SignalQzssL1caEna
    (0x10310015, 0, 1), // SignalQzssL2cEna
    (0x10310025, 0, 1), // SignalGloEna
    (0x10310018, 0, 1), // SignalGloL1Ena
    (0x1031001a, 0, 1), // SignalGLoL2Ena
    (0x20050023, 11, 1), // TpPulseDef
    (0x20050030, 12, 1), // TpPulseLengthDef
    (0x30050001, 3, 2), // TpAntCableDelay
    (0x40050002, 4, 4), // TpPeriodTp1
    (0x40050003, 4, 4), // TpPeriodLockTp1
    (0x40050024, 4, 4), // TpFreqTp1
    (0x40050025, 4, 4), // TpFreqLockTp1
    (0x40050004, 4, 4), // TpLenTp1
    (0x40050005, 4, 4), // TpLenLockTp1
    (0x10050007, 0, 1), // TpTp1Ena
    (0x10050008, 0, 1), // TpSyncGnssTp1
    (0x10050009, 0, 1), // TpUseLockedTp1
    (0x1005000a, 0, 1), // TpAlignToTowTp1
    (0x1005000b, 0, 1), // TpPolTp1
    (0x2005000c, 10, 1), // TpTimegridTp1
];
/// number of values of the enumerations
pub const VALUES: [u8; 13] = [2, 0, 0, 0, 0, 0, 0, 2, 3, 4, 5, 2, 2];
fn mk_DataBits(v: u64) -> DataBits {
    match v {
        0 => DataBits::Eight,
        _ => DataBits::Seven,
    }
}
fn raw_DataBits(v: &DataBits) -> u64 {
    match v {
        DataBits::Eight => 0,
        DataBits::Seven => 1,
    }
}
fn mk_Parity(v: u64) -> Parity {
    match v {
        0 => Parity::None,
        1 => Parity::Odd,
        _ => Parity::Even,
    }
}
fn raw_Parity(v: &Parity) -> u64 {
    match v {
        Parity::None => 0,
        Parity::Odd => 1,
        Parity::Even => 2,
    }
}
fn mk_StopBits(v: u64) -> StopBits {
    match v {
        0 => StopBits::Half,
        1 => StopBits::One,
        2 => StopBits::OneHalf,
        _ => StopBits::Two,
    }
}
fn raw_StopBits(v: &StopBits) -> u64 {
    match v {
        StopBits::Half => 0,
        StopBits::One => 1,
        StopBits::OneHalf => 2,
        StopBits::Two => 3,
    }
}
fn mk_AlignmentToReferenceTime(v: u64) -> AlignmentToReferenceTime {
    match v {
        0 => AlignmentToReferenceTime::Utc,
        1 => AlignmentToReferenceTime::Gps,
        2 => AlignmentToReferenceTime::Glo,
        3 => AlignmentToReferenceTime::Bds,
        _ => AlignmentToReferenceTime::Gal,
    }
}
fn raw_AlignmentToReferenceTime(v: &AlignmentToReferenceTime) -> u64 {
    match v {
        AlignmentToReferenceTime::Utc => 0,
        AlignmentToReferenceTime::Gps => 1,
        AlignmentToReferenceTime::Glo => 2,
        AlignmentToReferenceTime::Bds => 3,
        AlignmentToReferenceTime::Gal => 4,
    }
}
fn mk_TpPulse(v: u64) -> TpPulse {
    match v {
        0 => TpPulse::Period,
        _ => TpPulse::Freq,
    }
}
fn raw_TpPulse(v: &TpPulse) -> u64 {
    match v {
        TpPulse::Period => 0,
        TpPulse::Freq => 1,
    }
}
fn mk_TpPulseLength(v: u64) -> TpPulseLength {
    match v {
        0 => TpPulseLength::Ratio,
        _ => TpPulseLength::Length,
    }
}
fn raw_TpPulseLength(v: &TpPulseLength) -> u64 {
    match v {
        TpPulseLength::Ratio => 0,
        TpPulseLength::Length => 1,
    }
}
pub fn item(i: usize, v: u64) -> CfgVal {
    match i {
        0 => CfgVal::Uart1Baudrate(v as u32),
        1 => CfgVal::Uart1StopBits(mk_StopBits(v)),
        2 => CfgVal::Uart1DataBits(mk_DataBits(v)),
        3 => CfgVal::Uart1Parity(mk_Parity(v)),
        4 => CfgVal::Uart1Enabled(v == 1),
        5 => CfgVal::Uart1InProtUbx(v == 1),
        6 => CfgVal::Uart1InProtNmea(v == 1),
        7 => CfgVal::Uart1InProtRtcm3x(v == 1),
        8 => CfgVal::Uart1OutProtUbx(v == 1),
        9 => CfgVal::Uart1OutProtNmea(v == 1),
        10 => CfgVal::Uart1OutProtRtcm3x(v == 1),
        11 => CfgVal::Uart2Baudrate(v as u32),
        12 => CfgVal::Uart2StopBits(mk_StopBits(v)),
        13 => CfgVal::Uart2DataBits(mk_DataBits(v)),
        14 => CfgVal::Uart2Parity(mk_Parity(v)),
        15 => CfgVal::Uart2Enabled(v == 1),
        16 => CfgVal::Uart2Remap(v == 1),
        17 => CfgVal::Uart2InProtUbx(v == 1),
        18 => CfgVal::Uart2InProtNmea(v == 1),
        19 => CfgVal::Uart2InProtRtcm3x(v == 1),
        20 => CfgVal::Uart2OutProtUbx(v == 1),
        21 => CfgVal::Uart2OutProtNmea(v == 1),
        22 => CfgVal::Uart2OutProtRtcm3x(v == 1),
        23 => CfgVal::UsbEnabled(v == 1),
        24 => CfgVal::UsbSelfpow(v == 1),
        25 => CfgVal::UsbVendorId(v as u16),
        26 => CfgVal::UsbProductId(v as u16),
        27 => CfgVal::UsbPower(v as u16),
        28 => CfgVal::UsbVendorStr0(v as u64),
        29 => CfgVal::UsbVendorStr1(v as u64),
        30 => CfgVal::UsbVendorStr2(v as u64),
        31 => CfgVal::UsbVendorStr3(v as u64),
        32 => CfgVal::UsbProductStr0(v as u64),
        33 => CfgVal::UsbProductStr1(v as u64),
        34 => CfgVal::UsbProductStr2(v as u64),
        35 => CfgVal::UsbProductStr3(v as u64),
        36 => CfgVal::UsbSerialNoStr0(v as u64),
        37 => CfgVal::UsbSerialNoStr1(v as u64),
        38 => CfgVal::UsbSerialNoStr2(v as u64),
        39 => CfgVal::UsbSerialNoStr3(v as u64),
        40 => CfgVal::UsbinprotUbx(v == 1),
        41 => CfgVal::UsbinprotNmea(v == 1),
        42 => CfgVal::UsbinprotRtcm3X(v == 1),
        43 => CfgVal::UsbOutProtUbx(v == 1),
        44 => CfgVal::UsbOutProtNmea(v == 1),
        45 => CfgVal::UsbOutProtRtcm3x(v == 1),
        46 => CfgVal::InfmsgUbxI2c(CfgInfMask::from_bits_truncate(v as u8)),
        47 => CfgVal::InfmsgUbxUart1(CfgInfMask::from_bits_truncate(v as u8)),
        48 => CfgVal::InfmsgUbxUart2(CfgInfMask::from_bits_truncate(v as u8)),
        49 => CfgVal::InfmsgUbxUsb(CfgInfMask::from_bits_truncate(v as u8)),
        50 => CfgVal::InfmsgUbxSpi(CfgInfMask::from_bits_truncate(v as u8)),
        51 => CfgVal::InfmsgNmeaI2c(CfgInfMask::from_bits_truncate(v as u8)),
        52 => CfgVal::InfmsgNmeaUart1(CfgInfMask::from_bits_truncate(v as u8)),
        53 => CfgVal::InfmsgNmeaUart2(CfgInfMask::from_bits_truncate(v as u8)),
        54 => CfgVal::InfmsgNmeaUsb(CfgInfMask::from_bits_truncate(v as u8)),
        55 => CfgVal::InfmsgNmeaSpi(CfgInfMask::from_bits_truncate(v as u8)),
        56 => CfgVal::RateMeas(v as u16),
        57 => CfgVal::RateNav(v as u16),
        58 => CfgVal::RateTimeref(mk_AlignmentToReferenceTime(v)),
        59 => CfgVal::MsgoutNmeaIdDtmI2c(v as u8),
        60 => CfgVal::MsgoutNmeaIdDtmSpi(v as u8),
        61 => CfgVal::MsgoutNmeaIdDtmUart1(v as u8),
        62 => CfgVal::MsgoutNmeaIdDtmUart2(v as u8),
        63 => CfgVal::MsgoutNmeaIdDtmUsb(v as u8),
        64 => CfgVal::MsgoutNmeaIdGbsI2c(v as u8),
        65 => CfgVal::MsgoutNmeaIdGbsSpi(v as u8),
        66 => CfgVal::MsgoutNmeaIdGbsUart1(v as u8),
        67 => CfgVal::MsgoutNmeaIdGbsUart2(v as u8),
        68 => CfgVal::MsgoutNmeaIdGbsUsb(v as u8),
        69 => CfgVal::MsgoutNmeaIdGgaI2c(v as u8),
        70 => CfgVal::MsgoutNmeaIdGgaSpi(v as u8),
        71 => CfgVal::MsgoutNmeaIdGgaUart1(v as u8),
        72 => CfgVal::MsgoutNmeaIdGgaUart2(v as u8),
        73 => CfgVal::MsgoutNmeaIdGgaUsb(v as u8),
        74 => CfgVal::MsgoutNmeaIdGllI2c(v as u8),
        75 => CfgVal::MsgoutNmeaIdGllSpi(v as u8),
        76 => CfgVal::MsgoutNmeaIdGllUart1(v as u8),
        77 => CfgVal::MsgoutNmeaIdGllUart2(v as u8),
        78 => CfgVal::MsgoutNmeaIdGllUsb(v as u8),
        79 => CfgVal::MsgoutNmeaIdGnsI2c(v as u8),
        80 => CfgVal::MsgoutNmeaIdGnsSpi(v as u8),
        81 => CfgVal::MsgoutNmeaIdGnsUart1(v as u8),
        82 => CfgVal::MsgoutNmeaIdGnsUart2(v as u8),
        83 => CfgVal::MsgoutNmeaIdGnsUsb(v as u8),
        84 => CfgVal::MsgoutNmeaIdGrsI2c(v as u8),
        85 => CfgVal::MsgoutNmeaIdGrsSpi(v as u8),
        86 => CfgVal::MsgoutNmeaIdGrsUart1(v as u8),
        87 => CfgVal::MsgoutNmeaIdGrsUart2(v as u8),
        88 => CfgVal::MsgoutNmeaIdGrsUsb(v as u8),
        89 => CfgVal::MsgoutNmeaIdGsaI2c(v as u8),
        90 => CfgVal::MsgoutNmeaIdGsaSpi(v as u8),
        91 => CfgVal::MsgoutNmeaIdGsaUart1(v as u8),
        92 => CfgVal::MsgoutNmeaIdGsaUart2(v as u8),
        93 => CfgVal::MsgoutNmeaIdGsaUsb(v as u8),
        94 => CfgVal::MsgoutNmeaIdGstI2c(v as u8),
        95 => CfgVal::MsgoutNmeaIdGstSpi(v as u8),
        96 => CfgVal::MsgoutNmeaIdGstUart1(v as u8),
        97 => CfgVal::MsgoutNmeaIdGstUart2(v as u8),
        98 => CfgVal::MsgoutNmeaIdGstUsb(v as u8),
        99 => CfgVal::MsgoutNmeaIdGsvI2c(v as u8),
        100 => CfgVal::MsgoutNmeaIdGsvSpi(v as u8),
        101 => CfgVal::MsgoutNmeaIdGsvUart1(v as u8),
        102 => CfgVal::MsgoutNmeaIdGsvUart2(v as u8),
        103 => CfgVal::MsgoutNmeaIdGsvUsb(v as u8),
        104 => CfgVal::MsgoutNmeaIdRmcI2c(v as u8),
        105 => CfgVal::MsgoutNmeaIdRmcSpi(v as u8),
        106 => CfgVal::MsgoutNmeaIdRmcUart1(v as u8),
        107 => CfgVal::MsgoutNmeaIdRmcUart2(v as u8),
        108 => CfgVal::MsgoutNmeaIdRmcUsb(v as u8),
        109 => CfgVal::MsgoutNmeaIdVlwI2c(v as u8),
        110 => CfgVal::MsgoutNmeaIdVlwSpi(v as u8),
        111 => CfgVal::MsgoutNmeaIdVlwUart1(v as u8),
        112 => CfgVal::MsgoutNmeaIdVlwUart2(v as u8),
        113 => CfgVal::MsgoutNmeaIdVlwUsb(v as u8),
        114 => CfgVal::MsgoutNmeaIdVtgI2c(v as u8),
        115 => CfgVal::MsgoutNmeaIdVtgSpi(v as u8),
        116 => CfgVal::MsgoutNmeaIdVtgUart1(v as u8),
        117 => CfgVal::MsgoutNmeaIdVtgUart2(v as u8),
        118 => CfgVal::MsgoutNmeaIdVtgUsb(v as u8),
        119 => CfgVal::MsgoutNmeaIdZdaI2c(v as u8),
        120 => CfgVal::MsgoutNmeaIdZdaSpi(v as u8),
        121 => CfgVal::MsgoutNmeaIdZdaUart1(v as u8),
        122 => CfgVal::MsgoutNmeaIdZdaUart2(v as u8),
        123 => CfgVal::MsgoutNmeaIdZdaUsb(v as u8),
        124 => CfgVal::MsgoutPubxIdPolypI2c(v as u8),
        125 => CfgVal::MsgoutPubxIdPolypSpi(v as u8),
        126 => CfgVal::MsgoutPubxIdPolypUart1(v as u8),
        127 => CfgVal::MsgoutPubxIdPolypUart2(v as u8),
        128 => CfgVal::MsgoutPubxIdPolypUsb(v as u8),
        129 => CfgVal::MsgoutPubxIdPolysI2c(v as u8),
        130 => CfgVal::MsgoutPubxIdPolysSpi(v as u8),
        131 => CfgVal::MsgoutPubxIdPolysUart1(v as u8),
        132 => CfgVal::MsgoutPubxIdPolysUart2(v as u8),
        133 => CfgVal::MsgoutPubxIdPolysUsb(v as u8),
        134 => CfgVal::MsgoutPubxIdPolytI2c(v as u8),
        135 => CfgVal::MsgoutPubxIdPolytSpi(v as u8),
        136 => CfgVal::MsgoutPubxIdPolytUart1(v as u8),
        137 => CfgVal::MsgoutPubxIdPolytUart2(v as u8),
        138 => CfgVal::MsgoutPubxIdPolytUsb(v as u8),
        139 => CfgVal::MsgoutRtcm3xType1005I2c(v as u8),
        140 => CfgVal::MsgoutRtcm3xType1005Spi(v as u8),
        141 => CfgVal::MsgoutRtcm3xType1005Uart1(v as u8),
        142 => CfgVal::MsgoutRtcm3xType1005Uart2(v as u8),
        143 => CfgVal::MsgoutRtcm3xType1005Usb(v as u8),
        144 => CfgVal::MsgoutRtcm3xType1074I2c(v as u8),
        145 => CfgVal::MsgoutRtcm3xType1074Spi(v as u8),
        146 => CfgVal::MsgoutRtcm3xType1074Uart1(v as u8),
        147 => CfgVal::MsgoutRtcm3xType1074Uart2(v as u8),
        148 => CfgVal::MsgoutRtcm3xType1074Usb(v as u8),
        149 => CfgVal::MsgoutRtcm3xType1077I2c(v as u8),
        150 => CfgVal::MsgoutRtcm3xType1077Spi(v as u8),
        151 => CfgVal::MsgoutRtcm3xType1077Uart1(v as u8),
        152 => CfgVal::MsgoutRtcm3xType1077Uart2(v as u8),
        153 => CfgVal::MsgoutRtcm3xType1077Usb(v as u8),
        154 => CfgVal::MsgoutRtcm3xType1084I2c(v as u8),
        155 => CfgVal::MsgoutRtcm3xType1084Spi(v as u8),
        156 => CfgVal::MsgoutRtcm3xType1084Uart1(v as u8),
        157 => CfgVal::MsgoutRtcm3xType1084Uart2(v as u8),
        158 => CfgVal::MsgoutRtcm3xType1084Usb(v as u8),
        159 => CfgVal::MsgoutRtcm3xType1087I2c(v as u8),
        160 => CfgVal::MsgoutRtcm3xType1087Spi(v as u8),
        161 => CfgVal::MsgoutRtcm3xType1087Uart1(v as u8),
        162 => CfgVal::MsgoutRtcm3xType1087Uart2(v as u8),
        163 => CfgVal::MsgoutRtcm3xType1087Usb(v as u8),
        164 => CfgVal::MsgoutRtcm3xType1094I2c(v as u8),
        165 => CfgVal::MsgoutRtcm3xType1094Spi(v as u8),
        166 => CfgVal::MsgoutRtcm3xType1094Uart1(v as u8),
        167 => CfgVal::MsgoutRtcm3xType1094Uart2(v as u8),
        168 => CfgVal::MsgoutRtcm3xType1094Usb(v as u8),
        169 => CfgVal::MsgoutRtcm3xType1097I2c(v as u8),
        170 => CfgVal::MsgoutRtcm3xType1097Spi(v as u8),
        171 => CfgVal::MsgoutRtcm3xType1097Uart1(v as u8),
        172 => CfgVal::MsgoutRtcm3xType1097Uart2(v as u8),
        173 => CfgVal::MsgoutRtcm3xType1097Usb(v as u8),
        174 => CfgVal::MsgoutRtcm3xType1124I2c(v as u8),
        175 => CfgVal::MsgoutRtcm3xType1124Spi(v as u8),
        176 => CfgVal::MsgoutRtcm3xType1124Uart1(v as u8),
        177 => CfgVal::MsgoutRtcm3xType1124Uart2(v as u8),
        178 => CfgVal::MsgoutRtcm3xType1124Usb(v as u8),
        179 => CfgVal::MsgoutRtcm3xType1127I2c(v as u8),
        180 => CfgVal::MsgoutRtcm3xType1127Spi(v as u8),
        181 => CfgVal::MsgoutRtcm3xType1127Uart1(v as u8),
        182 => CfgVal::MsgoutRtcm3xType1127Uart2(v as u8),
        183 => CfgVal::MsgoutRtcm3xType1127Usb(v as u8),
        184 => CfgVal::MsgoutRtcm3xType1230I2c(v as u8),
        185 => CfgVal::MsgoutRtcm3xType1230Spi(v as u8),
        186 => CfgVal::MsgoutRtcm3xType1230Uart1(v as u8),
        187 => CfgVal::MsgoutRtcm3xType1230Uart2(v as u8),
        188 => CfgVal::MsgoutRtcm3xType1230Usb(v as u8),
        189 => CfgVal::MsgoutUbxLogInfoI2c(v as u8),
        190 => CfgVal::MsgoutUbxLogInfoSpi(v as u8),
        191 => CfgVal::MsgoutUbxLogInfoUart1(v as u8),
        192 => CfgVal::MsgoutUbxLogInfoUart2(v as u8),
        193 => CfgVal::MsgoutUbxLogInfoUsb(v as u8),
        194 => CfgVal::MsgoutUbxMonCommsI2c(v as u8),
        195 => CfgVal::MsgoutUbxMonCommsSpi(v as u8),
        196 => CfgVal::MsgoutUbxMonCommsUart1(v as u8),
        197 => CfgVal::MsgoutUbxMonCommsUart2(v as u8),
        198 => CfgVal::MsgoutUbxMonCommsUsb(v as u8),
        199 => CfgVal::MsgoutUbxMonHw2I2c(v as u8),
        200 => CfgVal::MsgoutUbxMonHw2Spi(v as u8),
        201 => CfgVal::MsgoutUbxMonHw2Uart1(v as u8),
        202 => CfgVal::MsgoutUbxMonHw2Uart2(v as u8),
        203 => CfgVal::MsgoutUbxMonHw2Usb(v as u8),
        204 => CfgVal::MsgoutUbxMonHw3I2c(v as u8),
        205 => CfgVal::MsgoutUbxMonHw3Spi(v as u8),
        206 => CfgVal::MsgoutUbxMonHw3Uart1(v as u8),
        207 => CfgVal::MsgoutUbxMonHw3Uart2(v as u8),
        208 => CfgVal::MsgoutUbxMonHw3Usb(v as u8),
        209 => CfgVal::MsgoutUbxMonHwI2c(v as u8),
        210 => CfgVal::MsgoutUbxMonHwSpi(v as u8),
        211 => CfgVal::MsgoutUbxMonHwUart1(v as u8),
        212 => CfgVal::MsgoutUbxMonHwUart2(v as u8),
        213 => CfgVal::MsgoutUbxMonHwUsb(v as u8),
        214 => CfgVal::MsgoutUbxMonIoI2c(v as u8),
        215 => CfgVal::MsgoutUbxMonIoSpi(v as u8),
        216 => CfgVal::MsgoutUbxMonIoUart1(v as u8),
        217 => CfgVal::MsgoutUbxMonIoUart2(v as u8),
        218 => CfgVal::MsgoutUbxMonIoUsb(v as u8),
        219 => CfgVal::MsgoutUbxMonMsgPpI2c(v as u8),
        220 => CfgVal::MsgoutUbxMonMsgPpSpi(v as u8),
        221 => CfgVal::MsgoutUbxMonMsgPpUart1(v as u8),
        222 => CfgVal::MsgoutUbxMonMsgPpUart2(v as u8),
        223 => CfgVal::MsgoutUbxMonMsgPpUsb(v as u8),
        224 => CfgVal::MsgoutUbxMonRfI2c(v as u8),
        225 => CfgVal::MsgoutUbxMonRfSpi(v as u8),
        226 => CfgVal::MsgoutUbxMonRfUart1(v as u8),
        227 => CfgVal::MsgoutUbxMonRfUart2(v as u8),
        228 => CfgVal::MsgoutUbxMonRfUsb(v as u8),
        229 => CfgVal::MsgoutUbxMonRxbufI2c(v as u8),
        230 => CfgVal::MsgoutUbxMonRxbufSpi(v as u8),
        231 => CfgVal::MsgoutUbxMonRxbufUart1(v as u8),
        232 => CfgVal::MsgoutUbxMonRxbufUart2(v as u8),
        233 => CfgVal::MsgoutUbxMonRxbufUsb(v as u8),
        234 => CfgVal::MsgoutUbxMonRxrI2c(v as u8),
        235 => CfgVal::MsgoutUbxMonRxrSpi(v as u8),
        236 => CfgVal::MsgoutUbxMonRxrUart1(v as u8),
        237 => CfgVal::MsgoutUbxMonRxrUart2(v as u8),
        238 => CfgVal::MsgoutUbxMonRxrUsb(v as u8),
        239 => CfgVal::MsgoutUbxMonTxbufI2c(v as u8),
        240 => CfgVal::MsgoutUbxMonTxbufSpi(v as u8),
        241 => CfgVal::MsgoutUbxMonTxbufUart1(v as u8),
        242 => CfgVal::MsgoutUbxMonTxbufUart2(v as u8),
        243 => CfgVal::MsgoutUbxMonTxbufUsb(v as u8),
        244 => CfgVal::MsgoutUbxNavClockI2c(v as u8),
        245 => CfgVal::MsgoutUbxNavClockSpi(v as u8),
        246 => CfgVal::MsgoutUbxNavClockUart1(v as u8),
        247 => CfgVal::MsgoutUbxNavClockUart2(v as u8),
        248 => CfgVal::MsgoutUbxNavClockUsb(v as u8),
        249 => CfgVal::MsgoutUbxNavDopI2c(v as u8),
        250 => CfgVal::MsgoutUbxNavDopSpi(v as u8),
        251 => CfgVal::MsgoutUbxNavDopUart1(v as u8),
        252 => CfgVal::MsgoutUbxNavDopUart2(v as u8),
        253 => CfgVal::MsgoutUbxNavDopUsb(v as u8),
        254 => CfgVal::MsgoutUbxNavEoeI2c(v as u8),
        255 => CfgVal::MsgoutUbxNavEoeSpi(v as u8),
        256 => CfgVal::MsgoutUbxNavEoeUart1(v as u8),
        257 => CfgVal::MsgoutUbxNavEoeUart2(v as u8),
        258 => CfgVal::MsgoutUbxNavEoeUsb(v as u8),
        259 => CfgVal::MsgoutUbxNavGeofenceI2c(v as u8),
        260 => CfgVal::MsgoutUbxNavGeofenceSpi(v as u8),
        261 => CfgVal::MsgoutUbxNavGeofenceUart1(v as u8),
        262 => CfgVal::MsgoutUbxNavGeofenceUart2(v as u8),
        263 => CfgVal::MsgoutUbxNavGeofenceUsb(v as u8),
        264 => CfgVal::MsgoutUbxNavHpPosEcefI2c(v as u8),
        265 => CfgVal::MsgoutUbxNavHpPosEcefSpi(v as u8),
        266 => CfgVal::MsgoutUbxNavHpPosEcefUart1(v as u8),
        267 => CfgVal::MsgoutUbxNavHpPosEcefUart2(v as u8),
        268 => CfgVal::MsgoutUbxNavHpPosEcefUsb(v as u8),
        269 => CfgVal::MsgoutUbxNavHpPosllhI2c(v as u8),
        270 => CfgVal::MsgoutUbxNavHpPosllhSpi(v as u8),
        271 => CfgVal::MsgoutUbxNavHpPosllhUart1(v as u8),
        272 => CfgVal::MsgoutUbxNavHpPosllhUart2(v as u8),
        273 => CfgVal::MsgoutUbxNavHpPosllhUsb(v as u8),
        274 => CfgVal::MsgoutUbxNavOdoI2c(v as u8),
        275 => CfgVal::MsgoutUbxNavOdoSpi(v as u8),
        276 => CfgVal::MsgoutUbxNavOdoUart1(v as u8),
        277 => CfgVal::MsgoutUbxNavOdoUart2(v as u8),
        278 => CfgVal::MsgoutUbxNavOdoUsb(v as u8),
        279 => CfgVal::MsgoutUbxNavOrbI2c(v as u8),
        280 => CfgVal::MsgoutUbxNavOrbSpi(v as u8),
        281 => CfgVal::MsgoutUbxNavOrbUart1(v as u8),
        282 => CfgVal::MsgoutUbxNavOrbUart2(v as u8),
        283 => CfgVal::MsgoutUbxNavOrbUsb(v as u8),
        284 => CfgVal::MsgoutUbxNavPosEcefI2c(v as u8),
        285 => CfgVal::MsgoutUbxNavPosEcefSpi(v as u8),
        286 => CfgVal::MsgoutUbxNavPosEcefUart1(v as u8),
        287 => CfgVal::MsgoutUbxNavPosEcefUart2(v as u8),
        288 => CfgVal::MsgoutUbxNavPosEcefUsb(v as u8),
        289 => CfgVal::MsgoutUbxNavPosLlhI2c(v as u8),
        290 => CfgVal::MsgoutUbxNavPosLlhSpi(v as u8),
        291 => CfgVal::MsgoutUbxNavPosLlhUart1(v as u8),
        292 => CfgVal::MsgoutUbxNavPosLlhUart2(v as u8),
        293 => CfgVal::MsgoutUbxNavPosLlhUsb(v as u8),
        294 => CfgVal::MsgoutUbxNavPvtI2c(v as u8),
        295 => CfgVal::MsgoutUbxNavPvtSpi(v as u8),
        296 => CfgVal::MsgoutUbxNavPvtUart1(v as u8),
        297 => CfgVal::MsgoutUbxNavPvtUart2(v as u8),
        298 => CfgVal::MsgoutUbxNavPvtUsb(v as u8),
        299 => CfgVal::MsgoutUbxNavRelposnedI2c(v as u8),
        300 => CfgVal::MsgoutUbxNavRelposnedSpi(v as u8),
        301 => CfgVal::MsgoutUbxNavRelposnedUart1(v as u8),
        302 => CfgVal::MsgoutUbxNavRelposnedUart2(v as u8),
        303 => CfgVal::MsgoutUbxNavRelposnedUsb(v as u8),
        304 => CfgVal::MsgoutUbxNavSatI2c(v as u8),
        305 => CfgVal::MsgoutUbxNavSatSpi(v as u8),
        306 => CfgVal::MsgoutUbxNavSatUart1(v as u8),
        307 => CfgVal::MsgoutUbxNavSatUart2(v as u8),
        308 => CfgVal::MsgoutUbxNavSatUsb(v as u8),
        309 => CfgVal::MsgoutUbxNavSigI2c(v as u8),
        310 => CfgVal::MsgoutUbxNavSigSpi(v as u8),
        311 => CfgVal::MsgoutUbxNavSigUart1(v as u8),
        312 => CfgVal::MsgoutUbxNavSigUart2(v as u8),
        313 => CfgVal::MsgoutUbxNavSigUsb(v as u8),
        314 => CfgVal::MsgoutUbxNavStatusI2c(v as u8),
        315 => CfgVal::MsgoutUbxNavStatusSpi(v as u8),
        316 => CfgVal::MsgoutUbxNavStatusUart1(v as u8),
        317 => CfgVal::MsgoutUbxNavStatusUart2(v as u8),
        318 => CfgVal::MsgoutUbxNavStatusUsb(v as u8),
        319 => CfgVal::MsgoutUbxNavSvinI2c(v as u8),
        320 => CfgVal::MsgoutUbxNavSvinSpi(v as u8),
        321 => CfgVal::MsgoutUbxNavSvinUart1(v as u8),
        322 => CfgVal::MsgoutUbxNavSvinUart2(v as u8),
        323 => CfgVal::MsgoutUbxNavSvinUsb(v as u8),
        324 => CfgVal::MsgoutUbxNavTimeBdsI2c(v as u8),
        325 => CfgVal::MsgoutUbxNavTimeBdsSpi(v as u8),
        326 => CfgVal::MsgoutUbxNavTimeBdsUart1(v as u8),
        327 => CfgVal::MsgoutUbxNavTimeBdsUart2(v as u8),
        328 => CfgVal::MsgoutUbxNavTimeBdsUsb(v as u8),
        329 => CfgVal::MsgoutUbxNavTimeGalI2c(v as u8),
        330 => CfgVal::MsgoutUbxNavTimeGalSpi(v as u8),
        331 => CfgVal::MsgoutUbxNavTimeGalUart1(v as u8),
        332 => CfgVal::MsgoutUbxNavTimeGalUart2(v as u8),
        333 => CfgVal::MsgoutUbxNavTimeGalUsb(v as u8),
        334 => CfgVal::MsgoutUbxNavTimeGloI2c(v as u8),
        335 => CfgVal::MsgoutUbxNavTimeGloSpi(v as u8),
        336 => CfgVal::MsgoutUbxNavTimeGloUart1(v as u8),
        337 => CfgVal::MsgoutUbxNavTimeGloUart2(v as u8),
        338 => CfgVal::MsgoutUbxNavTimeGloUsb(v as u8),
        339 => CfgVal::MsgoutUbxNavTimeGpsI2c(v as u8),
        340 => CfgVal::MsgoutUbxNavTimeGpsSpi(v as u8),
        341 => CfgVal::MsgoutUbxNavTimeGpsUart1(v as u8),
        342 => CfgVal::MsgoutUbxNavTimeGpsUart2(v as u8),
        343 => CfgVal::MsgoutUbxNavTimeGpsUsb(v as u8),
        344 => CfgVal::MsgoutUbxNavTimeLsI2c(v as u8),
        345 => CfgVal::MsgoutUbxNavTimeLsSpi(v as u8),
        346 => CfgVal::MsgoutUbxNavTimeLsUart1(v as u8),
        347 => CfgVal::MsgoutUbxNavTimeLsUart2(v as u8),
        348 => CfgVal::MsgoutUbxNavTimeLsUsb(v as u8),
        349 => CfgVal::MsgoutUbxNavTimeUtcI2c(v as u8),
        350 => CfgVal::MsgoutUbxNavTimeUtcSpi(v as u8),
        351 => CfgVal::MsgoutUbxNavTimeUtcUart1(v as u8),
        352 => CfgVal::MsgoutUbxNavTimeUtcUart2(v as u8),
        353 => CfgVal::MsgoutUbxNavTimeUtcUsb(v as u8),
        354 => CfgVal::MsgoutUbxNavVelEcefI2c(v as u8),
        355 => CfgVal::MsgoutUbxNavVelEcefSpi(v as u8),
        356 => CfgVal::MsgoutUbxNavVelEcefUart1(v as u8),
        357 => CfgVal::MsgoutUbxNavVelEcefUart2(v as u8),
        358 => CfgVal::MsgoutUbxNavVelEcefUsb(v as u8),
        359 => CfgVal::MsgoutUbxNavVelNedI2c(v as u8),
        360 => CfgVal::MsgoutUbxNavVelNedSpi(v as u8),
        361 => CfgVal::MsgoutUbxNavVelNedUart1(v as u8),
        362 => CfgVal::MsgoutUbxNavVelNedUart2(v as u8),
        363 => CfgVal::MsgoutUbxNavVelNedUsb(v as u8),
        364 => CfgVal::MsgoutUbxRxmMeasxI2c(v as u8),
        365 => CfgVal::MsgoutUbxRxmMeasxSpi(v as u8),
        366 => CfgVal::MsgoutUbxRxmMeasxUart1(v as u8),
        367 => CfgVal::MsgoutUbxRxmMeasxUart2(v as u8),
        368 => CfgVal::MsgoutUbxRxmMeasxUsb(v as u8),
        369 => CfgVal::MsgoutUbxRxmRawxI2c(v as u8),
        370 => CfgVal::MsgoutUbxRxmRawxSpi(v as u8),
        371 => CfgVal::MsgoutUbxRxmRawxUart1(v as u8),
        372 => CfgVal::MsgoutUbxRxmRawxUart2(v as u8),
        373 => CfgVal::MsgoutUbxRxmRawxUsb(v as u8),
        374 => CfgVal::MsgoutUbxRxmRlmI2c(v as u8),
        375 => CfgVal::MsgoutUbxRxmRlmSpi(v as u8),
        376 => CfgVal::MsgoutUbxRxmRlmUart1(v as u8),
        377 => CfgVal::MsgoutUbxRxmRlmUart2(v as u8),
        378 => CfgVal::MsgoutUbxRxmRlmUsb(v as u8),
        379 => CfgVal::MsgoutUbxRxmRtcmI2c(v as u8),
        380 => CfgVal::MsgoutUbxRxmRtcmSpi(v as u8),
        381 => CfgVal::MsgoutUbxRxmRtcmUart1(v as u8),
        382 => CfgVal::MsgoutUbxRxmRtcmUart2(v as u8),
        383 => CfgVal::MsgoutUbxRxmRtcmUsb(v as u8),
        384 => CfgVal::MsgoutUbxRxmSfrbxI2c(v as u8),
        385 => CfgVal::MsgoutUbxRxmSfrbxSpi(v as u8),
        386 => CfgVal::MsgoutUbxRxmSfrbxUart1(v as u8),
        387 => CfgVal::MsgoutUbxRxmSfrbxUart2(v as u8),
        388 => CfgVal::MsgoutUbxRxmSfrbxUsb(v as u8),
        389 => CfgVal::MsgoutUbxTimTm2I2c(v as u8),
        390 => CfgVal::MsgoutUbxTimTm2Spi(v as u8),
        391 => CfgVal::MsgoutUbxTimTm2Uart1(v as u8),
        392 => CfgVal::MsgoutUbxTimTm2Uart2(v as u8),
        393 => CfgVal::MsgoutUbxTimTm2Usb(v as u8),
        394 => CfgVal::MsgoutUbxTimTpI2c(v as u8),
        395 => CfgVal::MsgoutUbxTimTpSpi(v as u8),
        396 => CfgVal::MsgoutUbxTimTpUart1(v as u8),
        397 => CfgVal::MsgoutUbxTimTpUart2(v as u8),
        398 => CfgVal::MsgoutUbxTimTpUsb(v as u8),
        399 => CfgVal::MsgoutUbxTimVrfyI2c(v as u8),
        400 => CfgVal::MsgoutUbxTimVrfySpi(v as u8),
        401 => CfgVal::MsgoutUbxTimVrfyUart1(v as u8),
        402 => CfgVal::MsgoutUbxTimVrfyUart2(v as u8),
        403 => CfgVal::MsgoutUbxTimVrfyUsb(v as u8),
        404 => CfgVal::SignalGpsEna(v == 1),
        405 => CfgVal::SignalGpsL1caEna(v == 1),
        406 => CfgVal::SignalGpsL2cEna(v == 1),
        407 => CfgVal::SignalGalEna(v == 1),
        408 => CfgVal::SignalGalE1Ena(v == 1),
        409 => CfgVal::SignalGalE5bEna(v == 1),
        410 => CfgVal::SignalBdsEna(v == 1),
        411 => CfgVal::SignalBdsB1Ena(v == 1),
        412 => CfgVal::SignalBdsB2Ena(v == 1),
        413 => CfgVal::SignalQzssEna(v == 1),
        414 => CfgVal::SignalQzssL1caEna(v == 1),
        415 => CfgVal::SignalQzssL2cEna(v == 1),
        416 => CfgVal::SignalGloEna(v == 1),
        417 => CfgVal::SignalGloL1Ena(v == 1),
        418 => CfgVal::SignalGLoL2Ena(v == 1),
        419 => CfgVal::TpPulseDef(mk_TpPulse(v)),
        420 => CfgVal::TpPulseLengthDef(mk_TpPulseLength(v)),
        421 => CfgVal::TpAntCableDelay(v as i16),
        422 => CfgVal::TpPeriodTp1(v as u32),
        423 => CfgVal::TpPeriodLockTp1(v as u32),
        424 => CfgVal::TpFreqTp1(v as u32),
        425 => CfgVal::TpFreqLockTp1(v as u32),
        426 => CfgVal::TpLenTp1(v as u32),
        427 => CfgVal::TpLenLockTp1(v as u32),
        428 => CfgVal::TpTp1Ena(v == 1),
        429 => CfgVal::TpSyncGnssTp1(v == 1),
        430 => CfgVal::TpUseLockedTp1(v == 1),
        431 => CfgVal::TpAlignToTowTp1(v == 1),
        432 => CfgVal::TpPolTp1(v == 1),
        433 => CfgVal::TpTimegridTp1(mk_AlignmentToReferenceTime(v)),
        _ => unreachable!(),
    }
}
/// which item, and its value
#[allow(unreachable_patterns)]
pub fn which(c: &CfgVal) -> (usize, u64) {
    match c {
        CfgVal::Uart1Baudrate(x) => (0, *x as u64),
        CfgVal::Uart1StopBits(x) => (1, raw_StopBits(x)),
        CfgVal::Uart1DataBits(x) => (2, raw_DataBits(x)),
        CfgVal::Uart1Parity(x) => (3, raw_Parity(x)),
        CfgVal::Uart1Enabled(x) => (4, *x as u64),
        CfgVal::Uart1InProtUbx(x) => (5, *x as u64),
        CfgVal::Uart1InProtNmea(x) => (6, *x as u64),
        CfgVal::Uart1InProtRtcm3x(x) => (7, *x as u64),
        CfgVal::Uart1OutProtUbx(x) => (8, *x as u64),
        CfgVal::Uart1OutProtNmea(x) => (9, *x as u64),
        CfgVal::Uart1OutProtRtcm3x(x) => (10, *x as u64),
        CfgVal::Uart2Baudrate(x) => (11, *x as u64),
        CfgVal::Uart2StopBits(x) => (12, raw_StopBits(x)),
        CfgVal::Uart2DataBits(x) => (13, raw_DataBits(x)),
        CfgVal::Uart2Parity(x) => (14, raw_Parity(x)),
        CfgVal::Uart2Enabled(x) => (15, *x as u64),
        CfgVal::Uart2Remap(x) => (16, *x as u64),
        CfgVal::Uart2InProtUbx(x) => (17, *x as u64),
        CfgVal::Uart2InProtNmea(x) => (18, *x as u64),
        CfgVal::Uart2InProtRtcm3x(x) => (19, *x as u64),
        CfgVal::Uart2OutProtUbx(x) => (20, *x as u64),
        CfgVal::Uart2OutProtNmea(x) => (21, *x as u64),
        CfgVal::Uart2OutProtRtcm3x(x) => (22, *x as u64),
        CfgVal::UsbEnabled(x) => (23, *x as u64),
        CfgVal::UsbSelfpow(x) => (24, *x as u64),
        CfgVal::UsbVendorId(x) => (25, *x as u64),
        CfgVal::UsbProductId(x) => (26, *x as u64),
        CfgVal::UsbPower(x) => (27, *x as u64),
        CfgVal::UsbVendorStr0(x) => (28, *x as u64),
        CfgVal::UsbVendorStr1(x) => (29, *x as u64),
        CfgVal::UsbVendorStr2(x) => (30, *x as u64),
        CfgVal::UsbVendorStr3(x) => (31, *x as u64),
        CfgVal::UsbProductStr0(x) => (32, *x as u64),
        CfgVal::UsbProductStr1(x) => (33, *x as u64),
        CfgVal::UsbProductStr2(x) => (34, *x as u64),
        CfgVal::UsbProductStr3(x) => (35, *x as u64),
        CfgVal::UsbSerialNoStr0(x) => (36, *x as u64),
        CfgVal::UsbSerialNoStr1(x) => (37, *x as u64),
        CfgVal::UsbSerialNoStr2(x) => (38, *x as u64),
        CfgVal::UsbSerialNoStr3(x) => (39, *x as u64),
        CfgVal::UsbinprotUbx(x) => (40, *x as u64),
        CfgVal::UsbinprotNmea(x) => (41, *x as u64),
        CfgVal::UsbinprotRtcm3X(x) => (42, *x as u64),
        CfgVal::UsbOutProtUbx(x) => (43, *x as u64),
        CfgVal::UsbOutProtNmea(x) => (44, *x as u64),
        CfgVal::UsbOutProtRtcm3x(x) => (45, *x as u64),
        CfgVal::InfmsgUbxI2c(x) => (46, x.bits() as u64),
        CfgVal::InfmsgUbxUart1(x) => (47, x.bits() as u64),
        CfgVal::InfmsgUbxUart2(x) => (48, x.bits() as u64),
        CfgVal::InfmsgUbxUsb(x) => (49, x.bits() as u64),
        CfgVal::InfmsgUbxSpi(x) => (50, x.bits() as u64),
        CfgVal::InfmsgNmeaI2c(x) => (51, x.bits() as u64),
        CfgVal::InfmsgNmeaUart1(x) => (52, x.bits() as u64),
        CfgVal::InfmsgNmeaUart2(x) => (53, x.bits() as u64),
        CfgVal::InfmsgNmeaUsb(x) => (54, x.bits() as u64),
        CfgVal::InfmsgNmeaSpi(x) => (55, x.bits() as u64),
        CfgVal::RateMeas(x) => (56, *x as u64),
        CfgVal::RateNav(x) => (57, *x as u64),
        CfgVal::RateTimeref(x) => (58, raw_AlignmentToReferenceTime(x)),
        CfgVal::MsgoutNmeaIdDtmI2c(x) => (59, *x as u64),
        CfgVal::MsgoutNmeaIdDtmSpi(x) => (60, *x as u64),
        CfgVal::MsgoutNmeaIdDtmUart1(x) => (61, *x as u64),
        CfgVal::MsgoutNmeaIdDtmUart2(x) => (62, *x as u64),
        CfgVal::MsgoutNmeaIdDtmUsb(x) => (63, *x as u64),
        CfgVal::MsgoutNmeaIdGbsI2c(x) => (64, *x as u64),
        CfgVal::MsgoutNmeaIdGbsSpi(x) => (65, *x as u64),
        CfgVal::MsgoutNmeaIdGbsUart1(x) => (66, *x as u64),
        CfgVal::MsgoutNmeaIdGbsUart2(x) => (67, *x as u64),
        CfgVal::MsgoutNmeaIdGbsUsb(x) => (68, *x as u64),
        CfgVal::MsgoutNmeaIdGgaI2c(x) => (69, *x as u64),
        CfgVal::MsgoutNmeaIdGgaSpi(x) => (70, *x as u64),
        CfgVal::MsgoutNmeaIdGgaUart1(x) => (71, *x as u64),
        CfgVal::MsgoutNmeaIdGgaUart2(x) => (72, *x as u64),
        CfgVal::MsgoutNmeaIdGgaUsb(x) => (73, *x as u64),
        CfgVal::MsgoutNmeaIdGllI2c(x) => (74, *x as u64),
        CfgVal::MsgoutNmeaIdGllSpi(x) => (75, *x as u64),
        CfgVal::MsgoutNmeaIdGllUart1(x) => (76, *x as u64),
        CfgVal::MsgoutNmeaIdGllUart2(x) => (77, *x as u64),
        CfgVal::MsgoutNmeaIdGllUsb(x) => (78, *x as u64),
        CfgVal::MsgoutNmeaIdGnsI2c(x) => (79, *x as u64),
        CfgVal::MsgoutNmeaIdGnsSpi(x) => (80, *x as u64),
        CfgVal::MsgoutNmeaIdGnsUart1(x) => (81, *x as u64),
        CfgVal::MsgoutNmeaIdGnsUart2(x) => (82, *x as u64),
        CfgVal::MsgoutNmeaIdGnsUsb(x) => (83, *x as u64),
        CfgVal::MsgoutNmeaIdGrsI2c(x) => (84, *x as u64),
        CfgVal::MsgoutNmeaIdGrsSpi(x) => (85, *x as u64),
        CfgVal::MsgoutNmeaIdGrsUart1(x) => (86, *x as u64),
        CfgVal::MsgoutNmeaIdGrsUart2(x) => (87, *x as u64),
        CfgVal::MsgoutNmeaIdGrsUsb(x) => (88, *x as u64),
        CfgVal::MsgoutNmeaIdGsaI2c(x) => (89, *x as u64),
        CfgVal::MsgoutNmeaIdGsaSpi(x) => (90, *x as u64),
        CfgVal::MsgoutNmeaIdGsaUart1(x) => (91, *x as u64),
        CfgVal::MsgoutNmeaIdGsaUart2(x) => (92, *x as u64),
        CfgVal::MsgoutNmeaIdGsaUsb(x) => (93, *x as u64),
        CfgVal::MsgoutNmeaIdGstI2c(x) => (94, *x as u64),
        CfgVal::MsgoutNmeaIdGstSpi(x) => (95, *x as u64),
        CfgVal::MsgoutNmeaIdGstUart1(x) => (96, *x as u64),
        CfgVal::MsgoutNmeaIdGstUart2(x) => (97, *x as u64),
        CfgVal::MsgoutNmeaIdGstUsb(x) => (98, *x as u64),
        CfgVal::MsgoutNmeaIdGsvI2c(x) => (99, *x as u64),
        CfgVal::MsgoutNmeaIdGsvSpi(x) => (100, *x as u64),
        CfgVal::MsgoutNmeaIdGsvUart1(x) => (101, *x as u64),
        CfgVal::MsgoutNmeaIdGsvUart2(x) => (102, *x as u64),
        CfgVal::MsgoutNmeaIdGsvUsb(x) => (103, *x as u64),
        CfgVal::MsgoutNmeaIdRmcI2c(x) => (104, *x as u64),
        CfgVal::MsgoutNmeaIdRmcSpi(x) => (105, *x as u64),
        CfgVal::MsgoutNmeaIdRmcUart1(x) => (106, *x as u64),
        CfgVal::MsgoutNmeaIdRmcUart2(x) => (107, *x as u64),
        CfgVal::MsgoutNmeaIdRmcUsb(x) => (108, *x as u64),
        CfgVal::MsgoutNmeaIdVlwI2c(x) => (109, *x as u64),
        CfgVal::MsgoutNmeaIdVlwSpi(x) => (110, *x as u64),
        CfgVal::MsgoutNmeaIdVlwUart1(x) => (111, *x as u64),
        CfgVal::MsgoutNmeaIdVlwUart2(x) => (112, *x as u64),
        CfgVal::MsgoutNmeaIdVlwUsb(x) => (113, *x as u64),
        CfgVal::MsgoutNmeaIdVtgI2c(x) => (114, *x as u64),
        CfgVal::MsgoutNmeaIdVtgSpi(x) => (115, *x as u64),
        CfgVal::MsgoutNmeaIdVtgUart1(x) => (116, *x as u64),
        CfgVal::MsgoutNmeaIdVtgUart2(x) => (117, *x as u64),
        CfgVal::MsgoutNmeaIdVtgUsb(x) => (118, *x as u64),
        CfgVal::MsgoutNmeaIdZdaI2c(x) => (119, *x as u64),
        CfgVal::MsgoutNmeaIdZdaSpi(x) => (120, *x as u64),
        CfgVal::MsgoutNmeaIdZdaUart1(x) => (121, *x as u64),
        CfgVal::MsgoutNmeaIdZdaUart2(x) => (122, *x as u64),
        CfgVal::MsgoutNmeaIdZdaUsb(x) => (123, *x as u64),
        CfgVal::MsgoutPubxIdPolypI2c(x) => (124, *x as u64),
        CfgVal::MsgoutPubxIdPolypSpi(x) => (125, *x as u64),
        CfgVal::MsgoutPubxIdPolypUart1(x) => (126, *x as u64),
        CfgVal::MsgoutPubxIdPolypUart2(x) => (127, *x as u64),
        CfgVal::MsgoutPubxIdPolypUsb(x) => (128, *x as u64),
        CfgVal::MsgoutPubxIdPolysI2c(x) => (129, *x as u64),
        CfgVal::MsgoutPubxIdPolysSpi(x) => (130, *x as u64),
        CfgVal::MsgoutPubxIdPolysUart1(x) => (131, *x as u64),
        CfgVal::MsgoutPubxIdPolysUart2(x) => (132, *x as u64),
        CfgVal::MsgoutPubxIdPolysUsb(x) => (133, *x as u64),
        CfgVal::MsgoutPubxIdPolytI2c(x) => (134, *x as u64),
        CfgVal::MsgoutPubxIdPolytSpi(x) => (135, *x as u64),
        CfgVal::MsgoutPubxIdPolytUart1(x) => (136, *x as u64),
        CfgVal::MsgoutPubxIdPolytUart2(x) => (137, *x as u64),
        CfgVal::MsgoutPubxIdPolytUsb(x) => (138, *x as u64),
        CfgVal::MsgoutRtcm3xType1005I2c(x) => (139, *x as u64),
        CfgVal::MsgoutRtcm3xType1005Spi(x) => (140, *x as u64),
        CfgVal::MsgoutRtcm3xType1005Uart1(x) => (141, *x as u64),
        CfgVal::MsgoutRtcm3xType1005Uart2(x) => (142, *x as u64),
        CfgVal::MsgoutRtcm3xType1005Usb(x) => (143, *x as u64),
        CfgVal::MsgoutRtcm3xType1074I2c(x) => (144, *x as u64),
        CfgVal::MsgoutRtcm3xType1074Spi(x) => (145, *x as u64),
        CfgVal::MsgoutRtcm3xType1074Uart1(x) => (146, *x as u64),
        CfgVal::MsgoutRtcm3xType1074Uart2(x) => (147, *x as u64),
        CfgVal::MsgoutRtcm3xType1074Usb(x) => (148, *x as u64),
        CfgVal::MsgoutRtcm3xType1077I2c(x) => (149, *x as u64),
        CfgVal::MsgoutRtcm3xType1077Spi(x) => (150, *x as u64),
        CfgVal::MsgoutRtcm3xType1077Uart1(x) => (151, *x as u64),
        CfgVal::MsgoutRtcm3xType1077Uart2(x) => (152, *x as u64),
        CfgVal::MsgoutRtcm3xType1077Usb(x) => (153, *x as u64),
        CfgVal::MsgoutRtcm3xType1084I2c(x) => (154, *x as u64),
        CfgVal::MsgoutRtcm3xType1084Spi(x) => (155, *x as u64),
        CfgVal::MsgoutRtcm3xType1084Uart1(x) => (156, *x as u64),
        CfgVal::MsgoutRtcm3xType1084Uart2(x) => (157, *x as u64),
        CfgVal::MsgoutRtcm3xType1084Usb(x) => (158, *x as u64),
        CfgVal::MsgoutRtcm3xType1087I2c(x) => (159, *x as u64),
        CfgVal::MsgoutRtcm3xType1087Spi(x) => (160, *x as u64),
        CfgVal::MsgoutRtcm3xType1087Uart1(x) => (161, *x as u64),
        CfgVal::MsgoutRtcm3xType1087Uart2(x) => (162, *x as u64),
        CfgVal::MsgoutRtcm3xType1087Usb(x) => (163, *x as u64),
        CfgVal::MsgoutRtcm3xType1094I2c(x) => (164, *x as u64),
        CfgVal::MsgoutRtcm3xType1094Spi(x) => (165, *x as u64),
        CfgVal::MsgoutRtcm3xType1094Uart1(x) => (166, *x as u64),
        CfgVal::MsgoutRtcm3xType1094Uart2(x) => (167, *x as u64),
        CfgVal::MsgoutRtcm3xType1094Usb(x) => (168, *x as u64),
        CfgVal::MsgoutRtcm3xType1097I2c(x) => (169, *x as u64),
        CfgVal::MsgoutRtcm3xType1097Spi(x) => (170, *x as u64),
        CfgVal::MsgoutRtcm3xType1097Uart1(x) => (171, *x as u64),
        CfgVal::MsgoutRtcm3xType1097Uart2(x) => (172, *x as u64),
        CfgVal::MsgoutRtcm3xType1097Usb(x) => (173, *x as u64),
        CfgVal::MsgoutRtcm3xType1124I2c(x) => (174, *x as u64),
        CfgVal::MsgoutRtcm3xType1124Spi(x) => (175, *x as u64),
        CfgVal::MsgoutRtcm3xType1124Uart1(x) => (176, *x as u64),
        CfgVal::MsgoutRtcm3xType1124Uart2(x) => (177, *x as u64),
        CfgVal::MsgoutRtcm3xType1124Usb(x) => (178, *x as u64),
        CfgVal::MsgoutRtcm3xType1127I2c(x) => (179, *x as u64),
        CfgVal::MsgoutRtcm3xType1127Spi(x) => (180, *x as u64),
        CfgVal::MsgoutRtcm3xType1127Uart1(x) => (181, *x as u64),
        CfgVal::MsgoutRtcm3xType1127Uart2(x) => (182, *x as u64),
        CfgVal::MsgoutRtcm3xType1127Usb(x) => (183, *x as u64),
        CfgVal::MsgoutRtcm3xType1230I2c(x) => (184, *x as u64),
        CfgVal::MsgoutRtcm3xType1230Spi(x) => (185, *x as u64),
        CfgVal::MsgoutRtcm3xType1230Uart1(x) => (186, *x as u64),
        CfgVal::MsgoutRtcm3xType1230Uart2(x) => (187, *x as u64),
        CfgVal::MsgoutRtcm3xType1230Usb(x) => (188, *x as u64),
        CfgVal::MsgoutUbxLogInfoI2c(x) => (189, *x as u64),
        CfgVal::MsgoutUbxLogInfoSpi(x) => (190, *x as u64),
        CfgVal::MsgoutUbxLogInfoUart1(x) => (191, *x as u64),
        CfgVal::MsgoutUbxLogInfoUart2(x) => (192, *x as u64),
        CfgVal::MsgoutUbxLogInfoUsb(x) => (193, *x as u64),
        CfgVal::MsgoutUbxMonCommsI2c(x) => (194, *x as u64),
        CfgVal::MsgoutUbxMonCommsSpi(x) => (195, *x as u64),
        CfgVal::MsgoutUbxMonCommsUart1(x) => (196, *x as u64),
        CfgVal::MsgoutUbxMonCommsUart2(x) => (197, *x as u64),
        CfgVal::MsgoutUbxMonCommsUsb(x) => (198, *x as u64),
        CfgVal::MsgoutUbxMonHw2I2c(x) => (199, *x as u64),
        CfgVal::MsgoutUbxMonHw2Spi(x) => (200, *x as u64),
        CfgVal::MsgoutUbxMonHw2Uart1(x) => (201, *x as u64),
        CfgVal::MsgoutUbxMonHw2Uart2(x) => (202, *x as u64),
        CfgVal::MsgoutUbxMonHw2Usb(x) => (203, *x as u64),
        CfgVal::MsgoutUbxMonHw3I2c(x) => (204, *x as u64),
        CfgVal::MsgoutUbxMonHw3Spi(x) => (205, *x as u64),
        CfgVal::MsgoutUbxMonHw3Uart1(x) => (206, *x as u64),
        CfgVal::MsgoutUbxMonHw3Uart2(x) => (207, *x as u64),
        CfgVal::MsgoutUbxMonHw3Usb(x) => (208, *x as u64),
        CfgVal::MsgoutUbxMonHwI2c(x) => (209, *x as u64),
        CfgVal::MsgoutUbxMonHwSpi(x) => (210, *x as u64),
        CfgVal::MsgoutUbxMonHwUart1(x) => (211, *x as u64),
        CfgVal::MsgoutUbxMonHwUart2(x) => (212, *x as u64),
        CfgVal::MsgoutUbxMonHwUsb(x) => (213, *x as u64),
        CfgVal::MsgoutUbxMonIoI2c(x) => (214, *x as u64),
        CfgVal::MsgoutUbxMonIoSpi(x) => (215, *x as u64),
        CfgVal::MsgoutUbxMonIoUart1(x) => (216, *x as u64),
        CfgVal::MsgoutUbxMonIoUart2(x) => (217, *x as u64),
        CfgVal::MsgoutUbxMonIoUsb(x) => (218, *x as u64),
        CfgVal::MsgoutUbxMonMsgPpI2c(x) => (219, *x as u64),
        CfgVal::MsgoutUbxMonMsgPpSpi(x) => (220, *x as u64),
        CfgVal::MsgoutUbxMonMsgPpUart1(x) => (221, *x as u64),
        CfgVal::MsgoutUbxMonMsgPpUart2(x) => (222, *x as u64),
        CfgVal::MsgoutUbxMonMsgPpUsb(x) => (223, *x as u64),
        CfgVal::MsgoutUbxMonRfI2c(x) => (224, *x as u64),
        CfgVal::MsgoutUbxMonRfSpi(x) => (225, *x as u64),
        CfgVal::MsgoutUbxMonRfUart1(x) => (226, *x as u64),
        CfgVal::MsgoutUbxMonRfUart2(x) => (227, *x as u64),
        CfgVal::MsgoutUbxMonRfUsb(x) => (228, *x as u64),
        CfgVal::MsgoutUbxMonRxbufI2c(x) => (229, *x as u64),
        CfgVal::MsgoutUbxMonRxbufSpi(x) => (230, *x as u64),
        CfgVal::MsgoutUbxMonRxbufUart1(x) => (231, *x as u64),
        CfgVal::MsgoutUbxMonRxbufUart2(x) => (232, *x as u64),
        CfgVal::MsgoutUbxMonRxbufUsb(x) => (233, *x as u64),
        CfgVal::MsgoutUbxMonRxrI2c(x) => (234, *x as u64),
        CfgVal::MsgoutUbxMonRxrSpi(x) => (235, *x as u64),
        CfgVal::MsgoutUbxMonRxrUart1(x) => (236, *x as u64),
        CfgVal::MsgoutUbxMonRxrUart2(x) => (237, *x as u64),
        CfgVal::MsgoutUbxMonRxrUsb(x) => (238, *x as u64),
        CfgVal::MsgoutUbxMonTxbufI2c(x) => (239, *x as u64),
        CfgVal::MsgoutUbxMonTxbufSpi(x) => (240, *x as u64),
        CfgVal::MsgoutUbxMonTxbufUart1(x) => (241, *x as u64),
        CfgVal::MsgoutUbxMonTxbufUart2(x) => (242, *x as u64),
        CfgVal::MsgoutUbxMonTxbufUsb(x) => (243, *x as u64),
        CfgVal::MsgoutUbxNavClockI2c(x) => (244, *x as u64),
        CfgVal::MsgoutUbxNavClockSpi(x) => (245, *x as u64),
        CfgVal::MsgoutUbxNavClockUart1(x) => (246, *x as u64),
        CfgVal::MsgoutUbxNavClockUart2(x) => (247, *x as u64),
        CfgVal::MsgoutUbxNavClockUsb(x) => (248, *x as u64),
        CfgVal::MsgoutUbxNavDopI2c(x) => (249, *x as u64),
        CfgVal::MsgoutUbxNavDopSpi(x) => (250, *x as u64),
        CfgVal::MsgoutUbxNavDopUart1(x) => (251, *x as u64),
        CfgVal::MsgoutUbxNavDopUart2(x) => (252, *x as u64),
        CfgVal::MsgoutUbxNavDopUsb(x) => (253, *x as u64),
        CfgVal::MsgoutUbxNavEoeI2c(x) => (254, *x as u64),
        CfgVal::MsgoutUbxNavEoeSpi(x) => (255, *x as u64),
        CfgVal::MsgoutUbxNavEoeUart1(x) => (256, *x as u64),
        CfgVal::MsgoutUbxNavEoeUart2(x) => (257, *x as u64),
        CfgVal::MsgoutUbxNavEoeUsb(x) => (258, *x as u64),
        CfgVal::MsgoutUbxNavGeofenceI2c(x) => (259, *x as u64),
        CfgVal::MsgoutUbxNavGeofenceSpi(x) => (260, *x as u64),
        CfgVal::MsgoutUbxNavGeofenceUart1(x) => (261, *x as u64),
        CfgVal::MsgoutUbxNavGeofenceUart2(x) => (262, *x as u64),
        CfgVal::MsgoutUbxNavGeofenceUsb(x) => (263, *x as u64),
        CfgVal::MsgoutUbxNavHpPosEcefI2c(x) => (264, *x as u64),
        CfgVal::MsgoutUbxNavHpPosEcefSpi(x) => (265, *x as u64),
        CfgVal::MsgoutUbxNavHpPosEcefUart1(x) => (266, *x as u64),
        CfgVal::MsgoutUbxNavHpPosEcefUart2(x) => (267, *x as u64),
        CfgVal::MsgoutUbxNavHpPosEcefUsb(x) => (268, *x as u64),
        CfgVal::MsgoutUbxNavHpPosllhI2c(x) => (269, *x as u64),
        CfgVal::MsgoutUbxNavHpPosllhSpi(x) => (270, *x as u64),
        CfgVal::MsgoutUbxNavHpPosllhUart1(x) => (271, *x as u64),
        CfgVal::MsgoutUbxNavHpPosllhUart2(x) => (272, *x as u64),
        CfgVal::MsgoutUbxNavHpPosllhUsb(x) => (273, *x as u64),
        CfgVal::MsgoutUbxNavOdoI2c(x) => (274, *x as u64),
        CfgVal::MsgoutUbxNavOdoSpi(x) => (275, *x as u64),
        CfgVal::MsgoutUbxNavOdoUart1(x) => (276, *x as u64),
        CfgVal::MsgoutUbxNavOdoUart2(x) => (277, *x as u64),
        CfgVal::MsgoutUbxNavOdoUsb(x) => (278, *x as u64),
        CfgVal::MsgoutUbxNavOrbI2c(x) => (279, *x as u64),
        CfgVal::MsgoutUbxNavOrbSpi(x) => (280, *x as u64),
        CfgVal::MsgoutUbxNavOrbUart1(x) => (281, *x as u64),
        CfgVal::MsgoutUbxNavOrbUart2(x) => (282, *x as u64),
        CfgVal::MsgoutUbxNavOrbUsb(x) => (283, *x as u64),
        CfgVal::MsgoutUbxNavPosEcefI2c(x) => (284, *x as u64),
        CfgVal::MsgoutUbxNavPosEcefSpi(x) => (285, *x as u64),
        CfgVal::MsgoutUbxNavPosEcefUart1(x) => (286, *x as u64),
        CfgVal::MsgoutUbxNavPosEcefUart2(x) => (287, *x as u64),
        CfgVal::MsgoutUbxNavPosEcefUsb(x) => (288, *x as u64),
        CfgVal::MsgoutUbxNavPosLlhI2c(x) => (289, *x as u64),
        CfgVal::MsgoutUbxNavPosLlhSpi(x) => (290, *x as u64),
        CfgVal::MsgoutUbxNavPosLlhUart1(x) => (291, *x as u64),
        CfgVal::MsgoutUbxNavPosLlhUart2(x) => (292, *x as u64),
        CfgVal::MsgoutUbxNavPosLlhUsb(x) => (293, *x as u64),
        CfgVal::MsgoutUbxNavPvtI2c(x) => (294, *x as u64),
        CfgVal::MsgoutUbxNavPvtSpi(x) => (295, *x as u64),
        CfgVal::MsgoutUbxNavPvtUart1(x) => (296, *x as u64),
        CfgVal::MsgoutUbxNavPvtUart2(x) => (297, *x as u64),
        CfgVal::MsgoutUbxNavPvtUsb(x) => (298, *x as u64),
        CfgVal::MsgoutUbxNavRelposnedI2c(x) => (299, *x as u64),
        CfgVal::MsgoutUbxNavRelposnedSpi(x) => (300, *x as u64),
        CfgVal::MsgoutUbxNavRelposnedUart1(x) => (301, *x as u64),
        CfgVal::MsgoutUbxNavRelposnedUart2(x) => (302, *x as u64),
        CfgVal::MsgoutUbxNavRelposnedUsb(x) => (303, *x as u64),
        CfgVal::MsgoutUbxNavSatI2c(x) => (304, *x as u64),
        CfgVal::MsgoutUbxNavSatSpi(x) => (305, *x as u64),
        CfgVal::MsgoutUbxNavSatUart1(x) => (306, *x as u64),
        CfgVal::MsgoutUbxNavSatUart2(x) => (307, *x as u64),
        CfgVal::MsgoutUbxNavSatUsb(x) => (308, *x as u64),
        CfgVal::MsgoutUbxNavSigI2c(x) => (309, *x as u64),
        CfgVal::MsgoutUbxNavSigSpi(x) => (310, *x as u64),
        CfgVal::MsgoutUbxNavSigUart1(x) => (311, *x as u64),
        CfgVal::MsgoutUbxNavSigUart2(x) => (312, *x as u64),
        CfgVal::MsgoutUbxNavSigUsb(x) => (313, *x as u64),
        CfgVal::MsgoutUbxNavStatusI2c(x) => (314, *x as u64),
        CfgVal::MsgoutUbxNavStatusSpi(x) => (315, *x as u64),
        CfgVal::MsgoutUbxNavStatusUart1(x) => (316, *x as u64),
        CfgVal::MsgoutUbxNavStatusUart2(x) => (317, *x as u64),
        CfgVal::MsgoutUbxNavStatusUsb(x) => (318, *x as u64),
        CfgVal::MsgoutUbxNavSvinI2c(x) => (319, *x as u64),
        CfgVal::MsgoutUbxNavSvinSpi(x) => (320, *x as u64),
        CfgVal::MsgoutUbxNavSvinUart1(x) => (321, *x as u64),
        CfgVal::MsgoutUbxNavSvinUart2(x) => (322, *x as u64),
        CfgVal::MsgoutUbxNavSvinUsb(x) => (323, *x as u64),
        CfgVal::MsgoutUbxNavTimeBdsI2c(x) => (324, *x as u64),
        CfgVal::MsgoutUbxNavTimeBdsSpi(x) => (325, *x as u64),
        CfgVal::MsgoutUbxNavTimeBdsUart1(x) => (326, *x as u64),
        CfgVal::MsgoutUbxNavTimeBdsUart2(x) => (327, *x as u64),
        CfgVal::MsgoutUbxNavTimeBdsUsb(x) => (328, *x as u64),
        CfgVal::MsgoutUbxNavTimeGalI2c(x) => (329, *x as u64),
        CfgVal::MsgoutUbxNavTimeGalSpi(x) => (330, *x as u64),
        CfgVal::MsgoutUbxNavTimeGalUart1(x) => (331, *x as u64),
        CfgVal::MsgoutUbxNavTimeGalUart2(x) => (332, *x as u64),
        CfgVal::MsgoutUbxNavTimeGalUsb(x) => (333, *x as u64),
        CfgVal::MsgoutUbxNavTimeGloI2c(x) => (334, *x as u64),
        CfgVal::MsgoutUbxNavTimeGloSpi(x) => (335, *x as u64),
        CfgVal::MsgoutUbxNavTimeGloUart1(x) => (336, *x as u64),
        CfgVal::MsgoutUbxNavTimeGloUart2(x) => (337, *x as u64),
        CfgVal::MsgoutUbxNavTimeGloUsb(x) => (338, *x as u64),
        CfgVal::MsgoutUbxNavTimeGpsI2c(x) => (339, *x as u64),
        CfgVal::MsgoutUbxNavTimeGpsSpi(x) => (340, *x as u64),
        CfgVal::MsgoutUbxNavTimeGpsUart1(x) => (341, *x as u64),
        CfgVal::MsgoutUbxNavTimeGpsUart2(x) => (342, *x as u64),
        CfgVal::MsgoutUbxNavTimeGpsUsb(x) => (343, *x as u64),
        CfgVal::MsgoutUbxNavTimeLsI2c(x) => (344, *x as u64),
        CfgVal::MsgoutUbxNavTimeLsSpi(x) => (345, *x as u64),
        CfgVal::MsgoutUbxNavTimeLsUart1(x) => (346, *x as u64),
        CfgVal::MsgoutUbxNavTimeLsUart2(x) => (347, *x as u64),
        CfgVal::MsgoutUbxNavTimeLsUsb(x) => (348, *x as u64),
        CfgVal::MsgoutUbxNavTimeUtcI2c(x) => (349, *x as u64),
        CfgVal::MsgoutUbxNavTimeUtcSpi(x) => (350, *x as u64),
        CfgVal::MsgoutUbxNavTimeUtcUart1(x) => (351, *x as u64),
        CfgVal::MsgoutUbxNavTimeUtcUart2(x) => (352, *x as u64),
        CfgVal::MsgoutUbxNavTimeUtcUsb(x) => (353, *x as u64),
        CfgVal::MsgoutUbxNavVelEcefI2c(x) => (354, *x as u64),
        CfgVal::MsgoutUbxNavVelEcefSpi(x) => (355, *x as u64),
        CfgVal::MsgoutUbxNavVelEcefUart1(x) => (356, *x as u64),
        CfgVal::MsgoutUbxNavVelEcefUart2(x) => (357, *x as u64),
        CfgVal::MsgoutUbxNavVelEcefUsb(x) => (358, *x as u64),
        CfgVal::MsgoutUbxNavVelNedI2c(x) => (359, *x as u64),
        CfgVal::MsgoutUbxNavVelNedSpi(x) => (360, *x as u64),
        CfgVal::MsgoutUbxNavVelNedUart1(x) => (361, *x as u64),
        CfgVal::MsgoutUbxNavVelNedUart2(x) => (362, *x as u64),
        CfgVal::MsgoutUbxNavVelNedUsb(x) => (363, *x as u64),
        CfgVal::MsgoutUbxRxmMeasxI2c(x) => (364, *x as u64),
        CfgVal::MsgoutUbxRxmMeasxSpi(x) => (365, *x as u64),
        CfgVal::MsgoutUbxRxmMeasxUart1(x) => (366, *x as u64),
        CfgVal::MsgoutUbxRxmMeasxUart2(x) => (367, *x as u64),
        CfgVal::MsgoutUbxRxmMeasxUsb(x) => (368, *x as u64),
        CfgVal::MsgoutUbxRxmRawxI2c(x) => (369, *x as u64),
        CfgVal::MsgoutUbxRxmRawxSpi(x) => (370, *x as u64),
        CfgVal::MsgoutUbxRxmRawxUart1(x) => (371, *x as u64),
        CfgVal::MsgoutUbxRxmRawxUart2(x) => (372, *x as u64),
        CfgVal::MsgoutUbxRxmRawxUsb(x) => (373, *x as u64),
        CfgVal::MsgoutUbxRxmRlmI2c(x) => (374, *x as u64),
        CfgVal::MsgoutUbxRxmRlmSpi(x) => (375, *x as u64),
        CfgVal::MsgoutUbxRxmRlmUart1(x) => (376, *x as u64),
        CfgVal::MsgoutUbxRxmRlmUart2(x) => (377, *x as u64),
        CfgVal::MsgoutUbxRxmRlmUsb(x) => (378, *x as u64),
        CfgVal::MsgoutUbxRxmRtcmI2c(x) => (379, *x as u64),
        CfgVal::MsgoutUbxRxmRtcmSpi(x) => (380, *x as u64),
        CfgVal::MsgoutUbxRxmRtcmUart1(x) => (381, *x as u64),
        CfgVal::MsgoutUbxRxmRtcmUart2(x) => (382, *x as u64),
        CfgVal::MsgoutUbxRxmRtcmUsb(x) => (383, *x as u64),
        CfgVal::MsgoutUbxRxmSfrbxI2c(x) => (384, *x as u64),
        CfgVal::MsgoutUbxRxmSfrbxSpi(x) => (385, *x as u64),
        CfgVal::MsgoutUbxRxmSfrbxUart1(x) => (386, *x as u64),
        CfgVal::MsgoutUbxRxmSfrbxUart2(x) => (387, *x as u64),
        CfgVal::MsgoutUbxRxmSfrbxUsb(x) => (388, *x as u64),
        CfgVal::MsgoutUbxTimTm2I2c(x) => (389, *x as u64),
        CfgVal::MsgoutUbxTimTm2Spi(x) => (390, *x as u64),
        CfgVal::MsgoutUbxTimTm2Uart1(x) => (391, *x as u64),
        CfgVal::MsgoutUbxTimTm2Uart2(x) => (392, *x as u64),
        CfgVal::MsgoutUbxTimTm2Usb(x) => (393, *x as u64),
        CfgVal::MsgoutUbxTimTpI2c(x) => (394, *x as u64),
        CfgVal::MsgoutUbxTimTpSpi(x) => (395, *x as u64),
        CfgVal::MsgoutUbxTimTpUart1(x) => (396, *x as u64),
        CfgVal::MsgoutUbxTimTpUart2(x) => (397, *x as u64),
        CfgVal::MsgoutUbxTimTpUsb(x) => (398, *x as u64),
        CfgVal::MsgoutUbxTimVrfyI2c(x) => (399, *x as u64),
        CfgVal::MsgoutUbxTimVrfySpi(x) => (400, *x as u64),
        CfgVal::MsgoutUbxTimVrfyUart1(x) => (401, *x as u64),
        CfgVal::MsgoutUbxTimVrfyUart2(x) => (402, *x as u64),
        CfgVal::MsgoutUbxTimVrfyUsb(x) => (403, *x as u64),
        CfgVal::SignalGpsEna(x) => (404, *x as u64),
        CfgVal::SignalGpsL1caEna(x) => (405, *x as u64),
        CfgVal::SignalGpsL2cEna(x) => (406, *x as u64),
        CfgVal::SignalGalEna(x) => (407, *x as u64),
        CfgVal::SignalGalE1Ena(x) => (408, *x as u64),
        CfgVal::SignalGalE5bEna(x) => (409, *x as u64),
        CfgVal::SignalBdsEna(x) => (410, *x as u64),
        CfgVal::SignalBdsB1Ena(x) => (411, *x as u64),
        CfgVal::SignalBdsB2Ena(x) => (412, *x as u64),
        CfgVal::SignalQzssEna(x) => (413, *x as u64),
        CfgVal::SignalQzssL1caEna(x) => (414, *x as u64),
        CfgVal::SignalQzssL2cEna(x) => (415, *x as u64),
        CfgVal::SignalGloEna(x) => (416, *x as u64),
        CfgVal::SignalGloL1Ena(x) => (417, *x as u64),
        CfgVal::SignalGLoL2Ena(x) => (418, *x as u64),
        CfgVal::TpPulseDef(x) => (419, raw_TpPulse(x)),
        CfgVal::TpPulseLengthDef(x) => (420, raw_TpPulseLength(x)),
        CfgVal::TpAntCableDelay(x) => (421, *x as u16 as u64),
        CfgVal::TpPeriodTp1(x) => (422, *x as u64),
        CfgVal::TpPeriodLockTp1(x) => (423, *x as u64),
        CfgVal::TpFreqTp1(x) => (424, *x as u64),
        CfgVal::TpFreqLockTp1(x) => (425, *x as u64),
        CfgVal::TpLenTp1(x) => (426, *x as u64),
        CfgVal::TpLenLockTp1(x) => (427, *x as u64),
        CfgVal::TpTp1Ena(x) => (428, *x as u64),
        CfgVal::TpSyncGnssTp1(x) => (429, *x as u64),
        CfgVal::TpUseLockedTp1(x) => (430, *x as u64),
        CfgVal::TpAlignToTowTp1(x) => (431, *x as u64),
        CfgVal::TpPolTp1(x) => (432, *x as u64),
        CfgVal::TpTimegridTp1(x) => (433, raw_AlignmentToReferenceTime(x)),
        _ => (usize::MAX, 0),
    }
}
pub const REPS: [usize; 13] = [432, 403, 57, 421, 427, 39, 55, 13, 14, 12, 433, 419, 420];
