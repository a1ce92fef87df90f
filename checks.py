def e(entry, split=1, tier='quick', covers=(), mod='stream', **k):
    return dict(entry=entry, split=split, tier=tier, covers=list(covers), mod=mod, **k)

STREAM_OUT = 'longer streams, more than three calls, other backing buffer implementations; message contents beyond the header for long payloads are mostly a fixed pattern'
CHECKS = {}
CHECKS['C01'] = dict(
    bounds='every byte stream of 9 bytes (thorough: 10) cut into 3 calls with a growable buffer; every stream of 9 (thorough: 11) bytes cut into 2 calls with fixed buffers of every capacity 4..12 (4..14); a header with symbolic length low byte, 13 bytes with 1 noise byte, 2 payload, 2 tail (thorough 18); declared lengths 255,256,257,1240,8175,8176,8177,65535 with 0, 1, all-2 and all bytes present',
    outside=STREAM_OUT,
    entries=[e('h_c01_vec9', 8, covers=['ok', 'err']), e('h_c01_fix9', 8, covers=['ok', 'err']), e('h_c01_tpl', 8, covers=['ok', 'err']),
             e('h_c01_big', 8, covers=['ok', 'err'], steps=20_000_000),
             e('h_c01_vec10', 11, 'thorough'), e('h_c01_fix11', 11, 'thorough'), e('h_c01_tpl_deep', 19, 'thorough')])
CHECKS['C02'] = dict(
    bounds='every stream of 8 (thorough 10) bytes in 3 calls, growable; 9 (11) bytes in 2 calls, fixed buffers of capacity 4..12 (4..14); structured 12 to 24 byte streams with symbolic noise, length, payload and checksum; every one-byte damage to frames with payload 0,2,5,9; payload lengths 128,255,256,257,300,512,1240,4097,8176 with any one of 11 bytes (class, id, payload, checksum) changed to any value, then an intact frame, 7 split positions; the same up to 1240 with a fixed buffer that just fits',
    outside=STREAM_OUT,
    entries=[e('h_c02_vec8', 9, covers=['frame', 'bad']), e('h_c02_fix9', 8, covers=['frame', 'bad', 'err']), e('h_c02_tpl', 8, covers=['frame', 'bad']),
             e('h_c02_two', 4, cost=5, covers=['frame', 'bad', 'err']), e('h_c02_flip', 4, covers=['bad']), e('h_c02_long', 9, covers=['frame', 'bad'], steps=20_000_000, cost=3), e('h_c02_long_fix', 7, covers=['frame', 'bad', 'partial'], steps=20_000_000, cost=2),
             e('h_c02_vec10', 11, 'thorough'), e('h_c02_tpl_deep', 15, 'thorough'), e('h_c02_fix11', 11, 'thorough')])
CHECKS['C03'] = dict(
    bounds='inductive step: any bytes already buffered plus one call with any bytes, 11 bytes together at every split (thorough 13), by induction over calls; structured streams of 14 (thorough 21) bytes; 0..7 (thorough 0..9) bytes of arbitrary noise before an intact frame; declared lengths 255,256,257,1240,8175,8176,8177 around the limits (thorough: 8 split positions); payload lengths 128,255,256,257,300,512,1240,4097,8176 with any one of 11 bytes (class, id, payload, checksum) changed to any value, then an intact frame, 7 split positions',
    outside=STREAM_OUT,
    entries=[e('h_c03_n11', 12, covers=['frame', 'bad', 'partial', 'end']), e('h_c03_tpl', 8, covers=['frame', 'bad', 'partial']), e('h_c03_big', 7, covers=['frame', 'bad'], steps=20_000_000),
             e('h_c03_noise', 8, covers=['frame', 'bad', 'partial']), e('h_c02_long', 9, covers=['frame', 'bad'], steps=20_000_000, cost=3),
             e('h_c03_n13', 14, 'thorough'), e('h_c03_noise9', 10, 'thorough'), e('h_c03_big_split', 7, 'thorough', steps=20_000_000), e('h_c03_tpl2', 17, 'thorough'), e('h_c03_tpl_deep', 22, 'thorough')])
CHECKS['C04'] = dict(
    bounds='one call against 3 calls at all cuts: every stream of 8 (thorough 10) bytes; 1 call against 2 at all cuts: 9 (11) bytes; against a fixed buffer of 9 for 9-byte streams; 14-byte structured streams against 3 calls and byte by byte; two frames of 21 bytes; iterator dropped after 0..2 items; payload lengths 255,256,1240,8176',
    outside=STREAM_OUT,
    entries=[e('h_c04_vec8', 9, covers=['frame', 'bad']), e('h_c04_two9', 10, covers=['frame', 'bad']), e('h_c04_fix9', 10, covers=['frame', 'bad']), e('h_c04_bytes', 1, covers=['bad']),
             e('h_c04_two_frames', 8, covers=['frame']), e('h_c04_undrained9', 10, covers=['frame', 'bad']), e('h_c04_undrained_two', 1, covers=['frame']), e('h_c04_big', 4, covers=['frame', 'bad'], steps=20_000_000),
             e('h_c04_vec10', 11, 'thorough'), e('h_c04_two11', 12, 'thorough'), e('h_c04_undrained', 11, 'thorough'), e('h_c04_tpl', 8, 'thorough')])
CHECKS['C05'] = dict(
    bounds='capacities 4..12 (thorough 4..14): every stream of 9 (11) bytes in 2 calls; capacities 4..9: every stream of 8 bytes in 3 calls; an oversized frame then one that fits, capacities 8..16, payload 3..10, every cut; structured 12-byte streams, capacities 6..13; byte-by-byte delivery, capacities 4..12; capacities 64,100,255,256,257,300 (thorough also 1000, 1024): frames of about the capacity (-1..+40, thorough -12..+13) followed by two small ones, 11 cut positions',
    outside=STREAM_OUT + '; undrained iterators (loss is then documented)',
    entries=[e('h_c05_n9', 8, covers=['frame', 'bad', 'partial', 'oom-partial', 'oom-header']), e('h_c05_three8', 6, covers=['frame', 'oom-header']), e('h_c05_recover', 8, covers=['frame', 'oom-complete', 'oom-partial']),
             e('h_c05_recover3', 4, covers=['frame', 'oom-complete']), e('h_c05_tpl', 8, covers=['frame', 'bad', 'oom-partial']), e('h_c05_bytes', 8, covers=['frame', 'bad', 'oom-header']), e('h_c02_long_fix', 7, covers=['frame', 'bad', 'partial'], steps=20_000_000, cost=2), e('h_c05_big', 6, covers=['frame', 'bad', 'oom-complete', 'oom-partial', 'partial'], steps=20_000_000),
             e('h_c05_n11', 11, 'thorough'), e('h_c05_big_deep', 6, 'thorough', steps=20_000_000)])
CHECKS['C06'] = dict(
    bounds='any frame with payload 0..4 (thorough 0..8) and any wrong checksum, then an intact frame, 3 split positions; corrupt or valid outer frame with an intact frame nested after 0..3 and before 0..3 arbitrary bytes, every split; every implausible length with an intact frame behind; a truncated frame followed by two intact ones; every 10 (thorough 12) byte stream as inductive step; payload lengths 128,255,256,257,300,512,1240,4097,8176 with any one of 11 bytes (class, id, payload, checksum) changed to any value, then an intact frame, 7 split positions',
    outside=STREAM_OUT,
    entries=[e('h_c06_flip', 5, covers=['bad', 'damaged', 'frame']), e('h_c06_nested', 4, covers=['bad', 'frame']), e('h_c06_badlen', 8, covers=['frame']), e('h_c06_trunc', 5, covers=['frame', 'bad']), e('h_c06_n10', 11, covers=['bad', 'frame']), e('h_c02_long', 9, covers=['frame', 'bad'], steps=20_000_000, cost=3),
             e('h_c06_flip_deep', 9, 'thorough'), e('h_c06_n12', 13, 'thorough')])
CHECKS['C07'] = dict(
    bounds='capacities 0..6, all sequences of 3 operations (append 0..5 symbolic bytes, remove, search, clear) with full comparison after each; growable buffer likewise; guard bytes around the memory; every range read (thorough: capacities 0..8, 4 operations); capacities 64,65,100,255,256,257,300,1000 and growable: append up to capacity + 5, remove 1..len, append, remove, search, with the first, middle and last byte of each append symbolic',
    outside='other capacities and longer operation sequences; user supplied buffers',
    entries=[e('h_c07_fixed', 7, covers=['extend', 'overflow', 'drain', 'find', 'clear']), e('h_c07_vec', 4, covers=['extend', 'drain', 'find', 'clear']), e('h_c07_guard'), e('h_c07_oob'), e('h_c07_big', 8, covers=['overflow', 'find'], steps=20_000_000), e('h_c07_vec_big', 4, covers=['find'], steps=20_000_000),
             e('h_c07_fixed4', 9, 'thorough'), e('h_c07_vec4', 4, 'thorough')])

import json as _json, os as _os
_S = _json.load(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'spec/packets.json')))
ALL = list(_S['dispatch'])
NOTEXT = [n for n in ALL if n != 'MonVer' and not n.startswith('Inf')]
REACH = [n for n in NOTEXT if n != 'MgaGpsEPH']
PKT_OUT = 'one frame per parser (streams: C01-C07); repeated counts and lengths beyond those stated'
CHECKS['C08'] = dict(
    bounds='any class, id and payload of 0..100 bytes (all symbolic); lengths 128,255,256,257,772,1239..1241,8175,8176 with any class/id and 16 symbolic payload bytes; each of the 57 declared messages with every payload it allows (variable ones with 0..2 blocks); MonVer with 0..2 extensions; every block count of NavSat (0..104), RxmRawx (0..255), EsfRaw (0..155), EsfMeas (0..34), RxmSfrbx (0..64), MonVer (0..40) and texts of 0..128 bytes (thorough: every length 101..300 with any class/id)',
    outside=PKT_OUT + '; MonVer text contents (C12)',
    entries=[e('h_c08_all', 8, covers=['known', 'unknown'], mod='pkt'), e('h_c08_each', 2, covers=NOTEXT, mod='pkt'), e('h_c08_monver', covers=['monver'], mod='pkt'), e('h_c08_long', 5, covers=['known', 'unknown'], mod='pkt'), e('h_c08_counts', 7, covers=['NavSat', 'RxmRawx', 'EsfRaw', 'EsfMeas', 'RxmSfrbx', 'MonVer', 'InfError'], mod='pkt'),
             e('h_c08_lens', 8, 'thorough', covers=['known', 'unknown'], mod='pkt')])
CHECKS['C09'] = dict(
    bounds='every accepted payload (all bytes symbolic) of each of the declared messages, variable ones with 0 and 1 block: every accessor and raw accessor',
    outside='text and iterator contents (C12), packed sub-fields of flag words (C17, C21); floating-point scaling is compared up to a relative 1e-12 (f64) / 1e-6 (f32)',
    entries=[e('h_c09', 4, covers=REACH, mod='pkt')])
CHECKS['C10'] = dict(
    bounds='every payload (all bytes symbolic) of every declared message; variable ones with every length from the header to one block and 2 bytes more (ESF-MEAS, RXM-SFRBX: 0..13 bytes); long ones up to 8176 bytes with 24 symbolic bytes; texts with a 3-byte symbolic window in 7 (5) positions; all accessors, sub-accessors, iterators',
    outside='Debug formatting (C28) and serialisation (C26)',
    entries=[e('h_c10', 4, covers=REACH, mod='pkt'), e('h_c10_text', 5, covers=['MonVer', 'InfError', 'InfDebug'], mod='pkt'), e('h_c10_long', 2, covers=['NavSat', 'RxmRawx', 'EsfMeas'], mod='pkt')])
CHECKS['C11'] = dict(
    bounds='each declared message at 11 lengths around and far from its own with up to 108 symbolic payload bytes; every value of every field whose type refuses values (all payload bytes symbolic), followed by an intact frame',
    outside='text contents of MonVer (C12)',
    entries=[e('h_c11_len', 4, covers=['allowed', 'refused'], mod='pkt'), e('h_c11_field', 3, covers=['allowed', 'refused'], mod='pkt'), e('h_c12_text', 5, covers=['monver', 'refused'], mod='pkt')])
CHECKS['C12'] = dict(
    bounds='payloads ending inside a block, at every place, behind 0,1,2,5 whole ones; NavSat 0-3,7,102 blocks, RxmRawx 0-3,255, EsfRaw 0-3,7,154, RxmSfrbx 0-3,8,10,16 (thorough: 20 further counts), all bytes of up to 8 blocks or of the first, middle and last symbolic; ESF-MEAS with 0-5,31-33 words and every flag word; Inf* and MonVer texts with a 4-byte (thorough 5) symbolic window at 7 (3 per field) positions',
    outside='windows of more symbolic text bytes',
    entries=[e('h_c12_blocks', 2, covers=['NavSat', 'RxmRawx', 'EsfRaw', 'RxmSfrbx'], mod='pkt'), e('h_c12_esfmeas', 2, covers=['tag', 'notag', 'refused'], mod='pkt'), e('h_c12_partial', 5, covers=['refused'], mod='pkt'), e('h_c12_text4', 10, covers=['text', 'notext', 'monver', 'refused'], mod='pkt'),
             e('h_c12_blocks_deep', 4, 'thorough', mod='pkt'), e('h_c12_text5', 10, 'thorough', mod='pkt')])

# ---------------------------------------------------------------- messages to send
BLD = ['NavResetOdo', 'CfgOdo', 'CfgItfm', 'CfgMsgSinglePort', 'CfgMsgAllPorts', 'CfgRst', 'AidIni', 'CfgTp5', 'CfgTmode2', 'CfgTmode3', 'CfgPrtI2c', 'CfgPrtUart', 'CfgPrtSpi', 'CfgRate', 'CfgAnt', 'CfgNav5', 'CfgNavX5', 'CfgInf']
BLD_RECV = ['CfgOdo', 'CfgItfm', 'CfgTp5', 'CfgTmode2', 'CfgTmode3', 'CfgPrtI2c', 'CfgPrtUart', 'CfgPrtSpi', 'CfgAnt', 'CfgNav5', 'CfgNavX5', 'CfgInf']
SCALED = ['CfgTp5', 'CfgTmode2', 'CfgTmode3', 'CfgNav5']
CHECKS['C13'] = dict(
    bounds='each of the 18 builders: every value of every integer, flag, enumeration and reserved field at once (all payload bytes symbolic), scaled fields at fixed values; each scaled field alone over every double or float (bounded, huge, infinite, NaN with any payload), the rest fixed; poll requests for every class and id; default builders; CFG-VALSET with lists of 0..64 items as in C19',
    outside='two scaled fields symbolic at once; CFG-VALSET with more than 64 items',
    entries=[e('h_c13_float', 25, covers=SCALED, mod='build', cost=5), e('h_c13', 1, covers=BLD, mod='build'), e('h_c13_poll', covers=['poll'], mod='build'), e('h_c13_default', covers=['default'], mod='build'), e('h_c19_set', 9, covers=['empty', 'one', 'few', 'many', 'two-byte length'], mod='cfg', cost=2)])
CHECKS['C14'] = dict(
    bounds='each of the 18 builders, every value of its integer, flag and enumeration fields: array conversion, into_packet_bytes, create_packet into a vector holding 0..4 arbitrary bytes, and a second frame behind it; CFG-VALSET lists of 0..64 items: into_packet_vec against extend_to behind other bytes',
    outside='scaled fields are at fixed values (all paths share their conversion: C16); vectors holding more than 4 bytes before',
    entries=[e('h_c14', 2, covers=BLD, mod='build'), e('h_c19_set', 9, covers=['empty', 'one', 'few', 'many', 'two-byte length'], mod='cfg', cost=2)])
CHECKS['C15'] = dict(
    bounds='each of the 12 messages that exist in both directions: every value of its integer, flag and enumeration fields; built, parsed, every accessor compared, rebuilt from the accessors; each scaled field alone with every stored value: read, written, and the same number stored',
    outside='two scaled fields symbolic at once; values between two steps (C16)',
    entries=[e('h_c15', 2, covers=BLD_RECV, mod='build'), e('h_c16_raw', 25, covers=['CfgTp5.ant_cable_delay', 'CfgTmode3.ecef_x_or_lat_hp'], mod='num', cost=3)])
CHECKS['C20'] = dict(
    bounds='each of the 18 builders with any field values: an output failing with either kind of error (any error code) at its 1st..36th operation or never; outputs with room for 0..51 bytes that do or do not refuse in reserve_allocate',
    outside='outputs that panic; CFG-VALSET (writes to a vector only)',
    entries=[e('h_c20', 2, covers=['ok', 'err'], mod='build'), e('h_c20_space', 2, covers=['fits', 'full'], mod='build')])
CHECKS['C24'] = dict(
    bounds='all 66 message types: poll frame, set_rate_for with every rate on one and on all six ports; every acknowledgement and refusal payload against all 66 types',
    outside='-',
    entries=[e('h_c24', covers=['poll'], mod='build'), e('h_c24_ack', covers=['ack', 'nak'], mod='build')])

# ---------------------------------------------------------------- numbers and units
CHECKS['C16'] = dict(
    bounds='each of the 25 scaled fields of the messages that can be sent, alone: every double (float) up to a thousand times the range in both directions, every infinity, NaN and huge value; every stored integer decoded and encoded again; decoding: every accessor of every message against the stored integer times the scale (all payload bytes symbolic)',
    outside='two scaled fields symbolic at once (they do not interact: C13); "nearest" is up to 4e-6 steps (0.02 for the two 32-bit float fields) of rounding in the conversion itself',
    entries=[e('h_c09', 4, covers=REACH, mod='pkt'), e('h_c16_near', 25, covers=['CfgTp5.ant_cable_delay'], mod='num', cost=8), e('h_c16_raw', 25, covers=['CfgTp5.ant_cable_delay'], mod='num', cost=3), e('h_c16_extreme', 25, covers=['nan', 'huge', 'hugeneg'], mod='num', cost=4)])
CHECKS['C22'] = dict(
    bounds='every content of the message: year 0..65535, month, day, hour, minute, second 0..255, any signed 32-bit nanoseconds (thorough: additionally 10 years with the calendar fields of the result read back one by one)',
    outside='-',
    entries=[e('h_c22_year', 28, covers=['time', 'borrow', 'borrow day', 'error'], mod='num'), e('h_c22', 10, 'thorough', mod='num')])
CHECKS['C23'] = dict(
    bounds='every payload (all bytes symbolic) of NAV-POSLLH, NAV-HPPOSLLH, NAV-HPPOSECEF, NAV-VELNED and NAV-PVT; tolerance one thousandth of the smallest unit (1e-10 degrees, 1e-7 m, ...)',
    outside='negative ground speeds in NAV-PVT (the accessor reads the field as unsigned)',
    entries=[e('h_c23', 2, covers=['NavPosLlh', 'NavHpPosLlh', 'NavHpPosEcef', 'NavVelNed', 'NavPvt position', 'NavPvt velocity'], mod='num')])
CHECKS['C25'] = dict(
    bounds='every latitude -90..90, longitude -180..180, height -20000..21000 km as doubles, every prior content of the message; every second of the years 2000..2099, any nanoseconds',
    outside='years before 2000 or after 2099 (two-digit year), leap seconds; the position is compared within one unit of the protocol (1e-7 degrees, 1 cm)',
    entries=[e('h_c25_pos', 1, covers=['position'], mod='num'), e('h_c25_time', 12, covers=['time'], mod='num')])

# ---------------------------------------------------------------- configuration items
KINDS = ['bool', 'u8', 'u16', 'i16', 'u32', 'u64', 'CfgInfMask', 'DataBits', 'Parity', 'StopBits', 'AlignmentToReferenceTime', 'TpPulse', 'TpPulseLength']
CHECKS['C18'] = dict(
    bounds='each of the 434 configuration items with every value of its type: written, appended, parsed; each of the 434 keys with every value bytes, one too few, exactly enough, 1 and 5 more; every one of the other 2^32 - 434 keys in inputs of 4..12 bytes, and inputs of 0..3 bytes; buffers one byte too small',
    outside='longer inputs behind an item; reserved bits of the message-class masks are dropped by design',
    entries=[e('h_c18_encode', 2, covers=KINDS, mod='cfg'), e('h_c18_decode', 2, covers=['item', 'reserved', 'short'], mod='cfg'), e('h_c18_unknown', 1, covers=['unknown key', 'no key'], mod='cfg'),
             e('h_c18_rewrite', 2, covers=KINDS, mod='cfg'), e('h_c19_small', 1, covers=KINDS, mod='cfg')])
CHECKS['C19'] = dict(
    bounds='lists with every value of: each of the 434 items alone, all pairs and triples of the 13 value types, each item behind each type, the same item repeated, 0, 1, 4, 20, 21, 22, 63, 64 items of 12 bytes (payload 4..772), 64 items of mixed sizes, 64 items with one starting at every byte position up to 300 (5-byte items) and 740 (12-byte items); every version, layer mask and reserved bytes; iteration buffers exactly fitting or 5 bytes longer; clones',
    outside='more than 64 items (the protocol limit; not enforced by the builder)',
    entries=[e('h_c19_set', 9, covers=['empty', 'one', 'few', 'many', 'two-byte length'], mod='cfg'), e('h_c19_iter', 9, covers=['empty', 'items'], mod='cfg')])

# ---------------------------------------------------------------- named values, packed words, serialisation
NAMED = ['AntFlags', 'AntennaPower', 'AntennaStatus', 'CfgInfMask', 'CfgNav5DynModel', 'CfgNav5FixMode', 'CfgNav5Params', 'CfgNav5UtcStandard', 'CfgNavX5Params1', 'CfgNavX5Params2', 'CfgTmode2Flags', 'CfgTmode2TimeXferModes',
         'CfgTmode3Flags', 'CfgTmode3RcvrMode', 'CfgTp5Flags', 'CfgTp5TimePulseMode', 'EsfInsBitFlags', 'FixStatusInfo', 'GpsFix', 'HnrInsBitFlags', 'HnrPvtFlags', 'HnrPvtValidFlags', 'I2cPortId', 'InProtoMask', 'MonGnssConstellMask',
         'MsgAckInfoCode', 'NavHpPosEcefFlags', 'NavPvtFlags', 'NavPvtFlags2', 'NavStatusFlags', 'NavTimeLsFlags', 'NavTimeUtcFlags', 'OdoCogFilterFlags', 'OdoProfile', 'OutProtoMask', 'SpiPortId', 'TimTm2Flags', 'TimTpFlags', 'TimTpRefInfo', 'UartPortId']
CHECKS['C17'] = dict(
    bounds='every raw value of every enumeration, flag word and packed status word of every receivable message (all payload bytes symbolic) and of NAV-SAT and RXM-RAWX blocks: names, numbers, contained flags, sub-fields; every value of every builder field; decode and encode again for the 12 messages that can be both; the 127 flag constants',
    outside='the second status byte of NAV-STATUS (its type is private; its number is checked in C26); types of configuration items (C18)',
    entries=[e('h_c17_recv', 4, covers=NAMED, mod='bits'), e('h_c17_block', 2, covers=['NavSatSvFlags', 'StdevFlags', 'TrkStatFlags'], mod='bits'), e('h_c17_send', 4, covers=BLD, mod='bits'), e('h_c17_roundtrip', 4, covers=BLD_RECV, mod='bits'), e('h_c17_const', covers=['constants'], mod='bits')])
CHECKS['C21'] = dict(
    bounds='all 2^32 accepted UART mode words and all 2^64 pairs of interference configuration words (the rest of the message symbolic as well): each sub-field as the serialised message shows it, and the words sent for the values read; every setting of every sub-field (thresholds: all 32-bit arguments)',
    outside='-',
    entries=[e('h_c21_decode', 2, covers=['CfgPrtUart', 'CfgItfm'], mod='ser'), e('h_c21_again', 2, covers=['uart', 'itfm'], mod='ser'), e('h_c21_encode', 2, covers=['uart', 'uart read back', 'itfm', 'itfm read back'], mod='ser')])
CHECKS['C26'] = dict(
    bounds='each of the 57 declared messages with every accepted payload (all bytes symbolic; 0..2 repeated blocks), as a packet and by itself; Inf* and MonVer texts with a 3-byte symbolic window; unknown packets with 0..5 byte payloads and any other class and id; a serialiser that refuses any one of its first 45 steps, 8 messages; 3,4,7,15,16,17,31,32,33 (thorough up to 150) repeated blocks of a fixed pattern with one symbolic',
    outside='what a particular format (JSON, ...) makes of the steps; more than two symbolic repeated blocks',
    entries=[e('h_c26_each', 4, covers=REACH, mod='ser'), e('h_c26_text', 4, covers=['MonVer', 'InfError', 'InfWarning', 'InfNotice', 'InfTest', 'InfDebug'], mod='ser'), e('h_c26_unknown', 3, covers=['unknown'], mod='ser'), e('h_c26_refuse', 4, covers=['refused', 'accepted'], mod='ser'),
             e('h_c26_long', 6, covers=['NavSat', 'RxmRawx', 'EsfMeas', 'EsfRaw', 'RxmSfrbx', 'MonVer'], mod='ser', steps=20_000_000), e('h_c26_long_deep', 5, 'thorough', mod='ser', steps=100_000_000)])
CHECKS['C28'] = dict(
    bounds='each of the 57 declared messages: three base payloads (zeros, two patterns of distinct bytes), and on each every value of one field at a time (words of at most 4 bytes; a nibble of flag words; one byte of reserved arrays; floating-point fields at the base values); the blocks of NAV-SAT and RXM-RAWX likewise; Inf* and MonVer texts with one ASCII character symbolic; unknown packets with 0..3 byte payloads',
    outside='two fields symbolic at once (the text of one does not depend on another), every value of floating-point fields (core::fmt prints both sides), other characters in texts; how a value by itself is printed (the oracle prints it with the same formatter)',
    entries=[e('h_c28_each', 8, covers=[n for n in NOTEXT if n != 'MonVer'], mod='dbg', cost=6), e('h_c28_block', 2, covers=['NavSatSvInfo', 'RxmRawxInfo'], mod='dbg', cost=2),
             e('h_c28_text', 2, covers=['MonVer', 'InfError', 'InfWarning', 'InfNotice', 'InfTest', 'InfDebug'], mod='dbg'), e('h_c28_unknown', 1, covers=['unknown'], mod='dbg')])

# ---------------------------------------------------------------- the description macros
CHECKS['C27'] = dict(
    bounds='definitions of up to 12 fields: declared lengths of up to 3 digits (any) with array lengths with any last digit; field types: every identifier of 2 or 3 characters with every one-digit length; array element types likewise; each known attribute name of headers, fields, enumerations and flag words with any one character replaced by any other; each header attribute 0, 1 or 2 times; class and id of any 3 digits, maximal length of any 5 digits; each of 3 fields of fixed size, variable size, or with a size function, with either kind of length; maximal lengths of any 2 digits against 8 layouts; every pair of conversion attributes with and without a type; each attribute repeated at each position; enumeration values of any 3 digits, representations of any 2 or 3 characters, all combinations of conversion and treatment of other values; flags around each power of two and the end of the word; every kind of item',
    outside='the text of the generated code (for the messages of this repository: C08-C21, C26, C28), more than a few symbolic characters at once, what rustc itself refuses later (identifiers defined twice, missing conversions, incomplete matches), hash keys of the standard library (fixed)',
    entries=[e('h_c27_len', 8, covers=['accepted', 'refused'], mod='derive', cost=5), e('h_c27_enum', 20, covers=['accepted', 'refused'], mod='derive', cost=4), e('h_c27_flags', 17, covers=['accepted', 'refused'], mod='derive', cost=4), e('h_c27_values', 12, covers=['accepted', 'refused'], mod='derive', cost=3),
             e('h_c27_last', 9, covers=['accepted', 'refused'], mod='derive', cost=2)] +
            [e(f'h_c27_{n}', k, covers=['accepted', 'refused'], mod='derive', cost=1) for n, k in (('max', 8), ('orphan', 8), ('twice', 18), ('type', 2), ('array', 4), ('keys', 4), ('header', 4), ('field', 4), ('map', 4), ('kind', 14), ('list', 4))])
