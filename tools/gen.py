#!/usr/bin/env python3
"""Generates the table-driven parts of the harness crate (harness/src/gen/*.rs) from the
committed tables in /verif/spec.  Not run by the checks; its output is committed."""
import json, os
S = json.load(open('/verif/spec/packets.json'))
P = {p['name']: p for p in S['packets']}
O = S['dispatch']
out = '/verif/harness/src/gen'
def w(n, s):
    open(f'{out}/{n}', 'w').write('// generated by /verif/tools/gen.py from /verif/spec -- do not edit\n' + s)

# ---- packet variant / payload access
s = '#![allow(non_upper_case_globals)]\nuse ublox::*;\n'
for i, n in enumerate(O):
    s += f'pub const V_{n}: u32 = {i};\n'
s += 'pub const V_UNKNOWN: u32 = 1000;\npub const V_OTHER: u32 = 1001;\n'
s += 'pub const CLASS_ID: [(u8, u8); %d] = [%s];\n' % (len(O), ', '.join(f'({P[n]["class"]}, {P[n]["id"]})' for n in O))
s += '/// (declared message the value is presented as, its class, id and payload)\npub fn view<\'a>(p: &\'a PacketRef<\'a>) -> (u32, u8, u8, &\'a [u8]) {\n    #[allow(unreachable_patterns)]\n    match p {\n'
for i, n in enumerate(O):
    s += f'        PacketRef::{n}(r) => ({i}, {P[n]["class"]}, {P[n]["id"]}, r.as_bytes()),\n'
s += '        PacketRef::Unknown(u) => (V_UNKNOWN, u.class, u.msg_id, u.payload),\n        _ => (V_OTHER, 0, 0, &[]),\n    }\n}\n'
w('view.rs', s)

# ---- validity, accessors
T = json.load(open('/verif/spec/types.json'))
EN, FL = T['enums'], T['flags']
ITER = {'NavSatIter', 'RxmRawxInfoIter', 'EsfMeasDataIter', 'EsfRawDataIter', 'DwrdIter', 'MonVerExtensionIter'}
BLK = {'NavSat': (8, 12), 'RxmRawx': (16, 32), 'RxmSfrbx': (8, 4), 'EsfRaw': (4, 8)}
INF = [n for n in O if n.startswith('Inf')]
def acc(f): return f.get('alias') or f['name']
def rd(f, p='p', base=0):
    o, ty = f['off'] + base, f['ty']
    if ty.startswith('['): return f'&{p}[{o}..{o + f["size"]}]'
    if ty in ('u8',): return f'{p}[{o}]'
    return f'{ty}::from_le_bytes([{", ".join(f"{p}[{o + i}]" for i in range(f["size"]))}])'
def en_valid(n, v):
    return ' | '.join(f'({v} == {x})' for _, x in EN[n]['variants'])
s = '''#![allow(non_snake_case, unused_variables, clippy::all)]
use super::view::*;
use crate::rt::*;
use ublox::*;

/// scaled value: identical, or equal up to floating-point rounding
#[inline(always)]
pub fn close(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-12 * b.abs()
}
#[inline(always)]
pub fn close32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-6 * b.abs()
}
'''
VALID = {}
for n in O:
    p = P[n]
    conds = []
    for f in p['fields']:
        if f.get('may_fail') and f.get('size'):
            v = rd(f)
            m = f['map_type']
            if m in EN: conds.append('(' + en_valid(m, v) + ')')
            elif m == 'UartMode':
                conds.append(f'((({v} >> 6) & 3) >= 2)'); conds.append(f'((({v} >> 9) & 7 == 0) | (({v} >> 9) & 7 == 1) | (({v} >> 9) & 6 == 4))')
            else: assert m == '&str', (n, f)
    VALID[n] = conds
s += '/// the declared message `v` allows this payload (text contents of MonVer excepted)\npub fn allows(v: u32, p: &[u8]) -> bool {\n    let n = p.len();\n    match v {\n'
for i, n in enumerate(O):
    p = P[n]
    if p['fixed'] is not None: l = f'n == {p["fixed"]}'
    elif n in BLK: l = f'n >= {BLK[n][0]} && (n - {BLK[n][0]}) % {BLK[n][1]} == 0'
    elif n in INF: l = 'true'
    elif n == 'EsfMeas': l = 'n >= 8 && n % 4 == 0 && n >= 8 + 4 * (p[5] >> 3) as usize + (if p[4] & 8 != 0 { 4 } else { 0 })'
    elif n == 'MonVer': l = 'n >= 40 && (n - 40) % 30 == 0'
    else: assert 0, n
    c = ' & '.join(VALID[n])
    s += f'        {i} => {l}{" && (" + c + ")" if c else ""}, // {n}\n'
s += '        _ => false,\n    }\n}\n'
s += '/// the message a frame has to be presented as\npub fn expected(class: u8, id: u8, p: &[u8]) -> u32 {\n    match (class, id) {\n'
byci = {}
for i, n in enumerate(O): byci.setdefault((P[n]['class'], P[n]['id']), []).append(i)
for (c, d), l in byci.items():
    s += f'        ({c}, {d}) => ' + ''.join(f'if allows({i}, p) {{ {i} }} else ' for i in l) + '{ V_UNKNOWN },\n'
s += '        _ => V_UNKNOWN,\n    }\n}\n'
s += 'pub const FIXED: [usize; %d] = [%s];\n' % (len(O), ', '.join(str(P[n]['fixed'] if P[n]['fixed'] is not None else 9999) for n in O))
s += 'pub const HEADER: [usize; %d] = [%s];\n' % (len(O), ', '.join(str(P[n]['sum']) for n in O))
s += 'pub const BLOCK: [usize; %d] = [%s];\n' % (len(O), ', '.join(str(BLK[n][1] if n in BLK else 4 if n == 'EsfMeas' else 30 if n == 'MonVer' else 1 if n in INF else 0) for n in O))

def getter(n, f, r='r', p='p'):
    a, m, ty = acc(f), f.get('map_type'), f['ty']
    out = []
    if not f.get('size'): return out
    x = rd(f, p)
    L = f'{n}.{a}'
    if m is None:
        if ty.startswith('['): out.append((f'eq_bytes(&{r}.{a}(), {x})', L))
        elif ty in ('f64', 'f32'): out.append((f'({r}.{a}() as {ty}).to_bits() == ({x}).to_bits()', L))
        else: out.append((f'{r}.{a}() as i64 == {x} as i64', L))
        return out
    if ty.startswith('['): return out      # text, see C12
    out.append((f'{r}.{a}_raw() as i64 == {x} as i64', L + '_raw'))
    if m in ('f64', 'f32'):
        c = 'close' if m == 'f64' else 'close32'
        e = f'({x} as {m})' + (f' * {f["scale"]}' if f.get('scale') else '')
        out.append((f'{c}({r}.{a}() as {m}, {e})', L))
    elif m in EN:
        if EN[m]['pub']: out.append((f'{r}.{a}() as u8 == {x}', L))
    elif m in FL: out.append((f'{r}.{a}().bits() as u64 == {x} as u64', L))
    return out
for n in O + ['NavSatSvInfo', 'RxmRawxInfo']:
    s += f'pub fn get_{n}(r: &{n}Ref, p: &[u8]) {{\n'
    for f in P[n]['fields']:
        for c, l in getter(n, f): s += f'    check({c}, "{l}");\n'
    s += '}\n'
# uses (C10)
SUB = {
 'FixStatusInfo': ['has_pr_prr_correction() as u64', 'map_matching() as u64'],
 'TimTpFlags': ['time_base() as u64', 'utc_available() as u64', 'raim_active().map_or(9, |x| x as u64)', 'q_err_valid() as u64'],
 'TimTpRefInfo': ['time_ref_gnss().map_or(99, |x| x as u64)', 'utc_standard().map_or(99, |x| x as u64)'],
 'TimTm2Flags': ['mode() as u64', 'run() as u64', 'new_falling_edge() as u64', 'new_rising_edge() as u64', 'time_base() as u64', 'utc_available() as u64', 'time_valid() as u64'],
 'NavSatSvFlags': ['quality_ind() as u64', 'sv_used() as u64', 'differential_correction_available() as u64', 'smoothed() as u64', 'ephemeris_available() as u64', 'almanac_available() as u64',
   'an_offline_available() as u64', 'an_auto_available() as u64', 'sbas_corr() as u64', 'rtcm_corr() as u64', 'slas_corr() as u64', 'spartn_corr() as u64', 'pr_corr() as u64', 'cr_corr() as u64', 'do_corr() as u64',
   'health()', 'orbit_source()'],
}
def uses(n, f):
    a, m, ty = acc(f), f.get('map_type'), f['ty']
    o = []
    if not f.get('size'): return [f'crate::pkt::use_{m.lower()}(r.{a}());'] if m in ITER else [f'crate::pkt::use_text(r.{a}());'] if m == 'Option<&str>' else [f'obs(r.{a}().map_or(7, |x| x as u64));'] if m == 'Option<u32>' else []
    if m is not None and not ty.startswith('['): o.append(f'obs(r.{a}_raw() as u64);')
    if m is None:
        if ty.startswith('['): o.append(f'obs(r.{a}()[{f["size"] - 1}] as u64);')
        elif ty in ('f64', 'f32'): o.append(f'obs(r.{a}().to_bits() as u64);')
        else: o.append(f'obs(r.{a}() as u64);')
    elif m == '&str': o.append(f'obs(r.{a}_raw().len() as u64); crate::pkt::use_text(Some(r.{a}()));')
    elif m in ('f64', 'f32'): o.append(f'obs(r.{a}().to_bits() as u64);')
    elif m in EN: o.append(f'obs(r.{a}() as u64);' if EN[m]['pub'] else f'let _ = r.{a}();')
    elif m in FL: o.append(f'obs(r.{a}().bits() as u64);')
    elif m in SUB:
        for x in SUB[m]:
            if x == 'health()': o.append(f'obs(match r.{a}().health() {{ NavSatSvHealth::Healthy => 1, NavSatSvHealth::Unhealthy => 2, NavSatSvHealth::Unknown(x) => 100 + x as u64 }});')
            elif x == 'orbit_source()': o.append(f'obs(match r.{a}().orbit_source() {{ NavSatOrbitSource::NoInfoAvailable => 0, NavSatOrbitSource::Ephemeris => 1, NavSatOrbitSource::Almanac => 2, NavSatOrbitSource::AssistNowOffline => 3, NavSatOrbitSource::AssistNowAutonomous => 4, NavSatOrbitSource::Other(x) => 100 + x as u64 }});')
            else: o.append(f'obs(r.{a}().{x});')
    else: o.append(f'let _ = r.{a}();')
    return o
for n in O + ['NavSatSvInfo', 'RxmRawxInfo']:
    s += f'pub fn use_{n}(r: &{n}Ref) {{\n    obs(r.as_bytes().len() as u64);\n'
    for f in P[n]['fields']:
        for c in uses(n, f): s += f'    {c}\n'
    s += '}\n'
for nm in ('get', 'use'):
    arg = ', p' if nm == 'get' else ''
    s += f'/// {"compare every accessor with the documented bytes" if nm == "get" else "call every accessor"}\npub fn {nm}_all(pk: &PacketRef{", p: &[u8]" if nm == "get" else ""}) {{\n    match pk {{\n'
    for n in O: s += f'        PacketRef::{n}(r) => {nm}_{n}(r{arg}),\n'
    s += '        _ => {}\n    }\n}\n'
w('pkt.rs', s)
s = open(f'{out}/pkt.rs').read().split('\n', 1)[1]
s += 'pub const NAMES: [&str; %d] = [%s];\n' % (len(O), ', '.join(f'"{n}"' for n in O))
s += 'pub const DELIVERED: [&str; %d] = [%s];\n' % (len(O), ', '.join(f'"{n} is delivered as {n}"' for n in O))
s += 'pub const REFUSED: [&str; %d] = [%s];\n' % (len(O), ', '.join(f'"{n} is not presented for a payload it does not allow"' for n in O))
w('pkt.rs', s)

# ---- builders
BO = [p['name'] for p in S['packets'] if p['kind'] != 'recv' and p['fixed'] is not None]
SC = {n for n in O}
def bty(f): return f.get('map_type')
NUMF = {}
for n in BO: NUMF[n] = [f for f in P[n]['fields'] if bty(f) in ('f64', 'f32')]
s = '''#![allow(non_snake_case, unused_variables, non_upper_case_globals, clippy::all)]
use ublox::*;

/// a scaled field of a builder: (payload offset, bytes, signed, f32, scale)
pub struct Scaled {
    pub off: usize,
    pub size: usize,
    pub signed: bool,
    pub single: bool,
    pub scale: f64,
    pub name: &'static str,
}
'''
s += 'pub const B_NAMES: [&str; %d] = [%s];\n' % (len(BO), ', '.join(f'"{n}"' for n in BO))
s += 'pub const B_ID: [(u8, u8); %d] = [%s];\n' % (len(BO), ', '.join(f'({P[n]["class"]}, {P[n]["id"]})' for n in BO))
s += 'pub const B_LEN: [usize; %d] = [%s];\n' % (len(BO), ', '.join(str(P[n]['fixed']) for n in BO))
s += '/// index of the same message in the table of receivable ones, 1000: cannot be received\npub const B_RECV: [u32; %d] = [%s];\n' % (len(BO), ', '.join(str(O.index(n)) if n in SC else '1000' for n in BO))
s += 'pub const SCALED: [&[Scaled]; %d] = [\n' % len(BO)
for n in BO:
    s += '    &[' + ', '.join(f'Scaled {{ off: {f["off"]}, size: {f["size"]}, signed: {str(f["ty"][0] == "i").lower()}, single: {str(bty(f) == "f32").lower()}, scale: {f["scale"]}, name: "{n}.{acc(f)}" }}' for f in NUMF[n]) + '],\n'
s += '];\n'
s += '/// payload images the builder can produce (every builder value has exactly one image)\npub fn producible(i: usize, p: &[u8]) -> bool {\n    match i {\n'
for i, n in enumerate(BO):
    c = []
    for f in P[n]['fields']:
        m = bty(f)
        v = rd(f)
        if m in EN: c.append('(' + en_valid(m, v) + ')')
        elif m == 'UartMode': c.append(f'(({v} & !0x3ec0) == 0) & (({v} >> 6) & 3 >= 2) & ((({v} >> 9) & 7 == 0) | (({v} >> 9) & 7 == 1) | (({v} >> 9) & 7 == 4))')
        elif m == 'CfgItfmConfig': c.append(f'((({v} >> 9) & 0x3fffff) == 0x16B156)')
        elif m == 'CfgItfmConfig2': c.append(f'(({v} & 0xfff) == 0x31E) & ((({v} >> 12) & 3) < 3) & (({v} >> 15) == 0)')
    if c: s += f'        {i} => {" & ".join(c)}, // {n}\n'
s += '        _ => true,\n    }\n}\n'
def mkval(n, f, k):
    m, ty, v = bty(f), f['ty'], rd(f)
    if m is None:
        if ty.startswith('['): return '[' + ', '.join(f'p[{f["off"] + j}]' for j in range(f['size'])) + ']'
        return f'{v} as _'
    if m in ('f64', 'f32'): return f'x[{k}] as _'
    if m in FL: return f'{m}::from_bits_truncate({v} as _)'
    if m in EN: return f'match {v} {{ ' + ', '.join((f'{q}' if j + 1 < len(EN[m]['variants']) else '_') + f' => {m}::{a}' for j, (a, q) in enumerate(EN[m]['variants'])) + ' }'
    if m == 'UartMode': return f'''UartMode::new(
            if ({v} >> 6) & 1 == 0 {{ DataBits::Seven }} else {{ DataBits::Eight }},
            match ({v} >> 9) & 7 {{ 0 => Parity::Even, 1 => Parity::Odd, _ => Parity::None }},
            match ({v} >> 12) & 3 {{ 0 => StopBits::One, 1 => StopBits::OneHalf, 2 => StopBits::Two, _ => StopBits::Half }},
        )'''
    if m == 'CfgItfmConfig': return f'CfgItfmConfig::new({v} >> 31 == 1, {v} & 15, ({v} >> 4) & 31)'
    if m == 'CfgItfmConfig2': return f'CfgItfmConfig2::new(match ({v} >> 12) & 3 {{ 0 => CfgItfmAntennaSettings::Unknown, 1 => CfgItfmAntennaSettings::Active, _ => CfgItfmAntennaSettings::Passive }}, ({v} >> 14) & 1 == 1)'
    assert 0, (n, f)
for n in BO:
    k = 0
    s += f'pub fn mk_{n}(p: &[u8], x: &[f64]) -> {n}Builder {{\n    {n}Builder {{\n'
    for f in P[n]['fields']:
        s += f'        {acc(f)}: {mkval(n, f, k)},\n'
        if bty(f) in ('f64', 'f32'): k += 1
    s += '    }\n}\n'
    if n in SC:
        s += f'pub fn re_{n}(r: &{n}Ref) -> {n}Builder {{\n    {n}Builder {{\n'
        for f in P[n]['fields']:
            if f['ty'].startswith('['): s += f'        {acc(f)}: [' + ', '.join(f'r.{acc(f)}()[{j}]' for j in range(f['size'])) + '],\n'
            else: s += f'        {acc(f)}: r.{acc(f)}() as _,\n' if bty(f) is None else f'        {acc(f)}: r.{acc(f)}(),\n'
        s += '    }\n}\n'
def arms(body): return '    match i {\n' + ''.join(f'        {i} => {body(n)},\n' for i, n in enumerate(BO)) + '        _ => unreachable!(),\n    }\n}\n'
s += 'pub fn array_of(i: usize, p: &[u8], x: &[f64]) -> Vec<u8> {\n' + arms(lambda n: f'mk_{n}(p, x).into_packet_bytes().to_vec()')
s += 'pub fn from_of(i: usize, p: &[u8], x: &[f64]) -> Vec<u8> {\n' + arms(lambda n: f'<[u8; {n}Builder::PACKET_LEN]>::from(mk_{n}(p, x)).to_vec()')
s += 'pub fn packet_len(i: usize) -> usize {\n' + arms(lambda n: f'{n}Builder::PACKET_LEN')
s += 'pub fn create_of<T: MemWriter>(i: usize, p: &[u8], x: &[f64], out: &mut T) -> Result<(), MemWriterError<T::Error>> {\n' + arms(lambda n: f'mk_{n}(p, x).create_packet(out)')
s += '/// build again from what the accessors of a received message return\npub fn rebuild(pk: &PacketRef) -> Option<Vec<u8>> {\n    match pk {\n' + ''.join(f'        PacketRef::{n}(r) => Some(re_{n}(r).into_packet_bytes().to_vec()),\n' for n in BO if n in SC) + '        _ => None,\n    }\n}\n'
DEF = [n for n in BO if P[n]['default']]
s += '/// default builders\npub fn defaults(i: usize) -> Option<Vec<u8>> {\n    match i {\n' + ''.join(f'        {BO.index(n)} => Some({n}Builder::default().into_packet_bytes().to_vec()),\n' for n in DEF) + '        _ => None,\n    }\n}\n'
META = [p['name'] for p in S['packets'] if 'class' in p and p['class'] is not None]
s += 'pub const META: [(u8, u8); %d] = [%s];\n' % (len(META), ', '.join(f'({P[n]["class"]}, {P[n]["id"]})' for n in META))
s += 'pub const META_NAMES: [&str; %d] = [%s];\n' % (len(META), ', '.join(f'"{n}"' for n in META))
def marms(body): return '    match i {\n' + ''.join(f'        {i} => {body(n)},\n' for i, n in enumerate(META)) + '        _ => unreachable!(),\n    }\n}\n'
s += 'pub fn poll(i: usize) -> [u8; 8] {\n' + marms(lambda n: f'UbxPacketRequest::request_for::<{n}>().into_packet_bytes()')
s += 'pub fn acks(i: usize, r: &AckAckRef) -> bool {\n' + marms(lambda n: f'r.is_ack_for::<{n}>()')
s += 'pub fn naks(i: usize, r: &AckNakRef) -> bool {\n' + marms(lambda n: f'r.is_nak_for::<{n}>()')
s += 'pub fn rate1(i: usize, r: u8) -> Vec<u8> {\n' + marms(lambda n: f'CfgMsgSinglePortBuilder::set_rate_for::<{n}>(r).into_packet_bytes().to_vec()')
s += 'pub fn rate6(i: usize, r: [u8; 6]) -> Vec<u8> {\n' + marms(lambda n: f'CfgMsgAllPortsBuilder::set_rate_for::<{n}>(r).into_packet_bytes().to_vec()')
s += 'pub fn meta(i: usize) -> (u8, u8) {\n' + marms(lambda n: f'(<{n} as UbxPacketMeta>::CLASS, <{n} as UbxPacketMeta>::ID)')
w('build.rs', s)

# ---- configuration items
K = json.load(open('/verif/spec/cfgval.json'))
KT = {'bool': 0, 'u8': 1, 'u16': 2, 'i16': 3, 'u32': 4, 'u64': 5, 'CfgInfMask': 6, 'DataBits': 7, 'Parity': 8, 'StopBits': 9, 'AlignmentToReferenceTime': 10, 'TpPulse': 11, 'TpPulseLength': 12}
KS = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8}
KV = {'DataBits': ['Eight', 'Seven'], 'Parity': ['None', 'Odd', 'Even'], 'StopBits': ['Half', 'One', 'OneHalf', 'Two'], 'AlignmentToReferenceTime': ['Utc', 'Gps', 'Glo', 'Bds', 'Gal'], 'TpPulse': ['Period', 'Freq'], 'TpPulseLength': ['Ratio', 'Length']}
s = '''#![allow(clippy::all)]
use ublox::cfg_val::*;
use ublox::*;
/// (key, type, value bytes)
pub const K: [(u32, u8, usize); %d] = [
''' % len(K)
for n, k, t in K: s += f'    (0x{k:08x}, {KT[t]}, {KS[(k >> 28) & 7]}), // {n}\n'
s += '];\n/// number of values of the enumerations\npub const VALUES: [u8; 13] = [2, 0, 0, 0, 0, 0, 0, ' + ', '.join(str(len(KV[t])) for t in KT if t in KV) + '];\n'
for t in KV:
    s += f'fn mk_{t}(v: u64) -> {t} {{\n    match v {{\n' + ''.join(f'        {j if j + 1 < len(KV[t]) else "_"} => {t}::{a},\n' for j, a in enumerate(KV[t])) + '    }\n}\n'
    s += f'fn raw_{t}(v: &{t}) -> u64 {{\n    match v {{\n' + ''.join(f'        {t}::{a} => {j},\n' for j, a in enumerate(KV[t])) + '    }\n}\n'
def mk(t):
    if t in KV: return f'mk_{t}(v)'
    if t == 'bool': return 'v == 1'
    if t == 'CfgInfMask': return 'CfgInfMask::from_bits_truncate(v as u8)'
    return f'v as {t}'
def rw(t):
    if t in KV: return f'raw_{t}(x)'
    if t == 'CfgInfMask': return 'x.bits() as u64'
    if t == 'i16': return '*x as u16 as u64'
    return '*x as u64'
s += 'pub fn item(i: usize, v: u64) -> CfgVal {\n    match i {\n' + ''.join(f'        {i} => CfgVal::{n}({mk(t)}),\n' for i, (n, k, t) in enumerate(K)) + '        _ => unreachable!(),\n    }\n}\n'
s += '/// which item, and its value\n#[allow(unreachable_patterns)]\npub fn which(c: &CfgVal) -> (usize, u64) {\n    match c {\n' + ''.join(f'        CfgVal::{n}(x) => ({i}, {rw(t)}),\n' for i, (n, k, t) in enumerate(K)) + '        _ => (usize::MAX, 0),\n    }\n}\n'
reps = []
for t in KT: reps.append([i for i, r in enumerate(K) if r[2] == t][-1])
s += 'pub const REPS: [usize; 13] = %s;\n' % reps
w('cfg.rs', s)

# ---- names of values: enumerations, flag words, packed sub-fields
SUBS, SV, PROTO = T['sub'], T['subvalues'], T['protocol']
def vals(t): return SV.get(t) or EN[t]['variants']
def num(t, x):   # expression of the protocol number of the value `x`, 999 for anything unnamed
    a = ', '.join((f'{t}::{v} => x as u64' if q == '*' else f'{t}::{v} => {q}') for v, q in vals(t))
    return f'match {x} {{ {a}, #[allow(unreachable_patterns)] _ => 999 }}'
s = '''#![allow(non_snake_case, unused_variables, clippy::all)]
use crate::rt::*;
use ublox::*;
'''
NM = []
for n in O + ['NavSatSvInfo', 'RxmRawxInfo']:
    b = []
    for f in P[n]['fields']:
        m = f.get('map_type')
        if not m or not f.get('size') or f['ty'].startswith('['): continue
        a, x = acc(f), rd(f)
        L = f'{n}.{a}'
        if m in EN and EN[m]['pub']:
            ns = ' | '.join(str(q) for _, q in vals(m))
            b.append(f'let (v, e) = ({x} as u64, r.{a}());\n    let k = {num(m, "e")};\n    check(k == match v {{ {ns} => v, _ => 999 }}, "{L}: each number has its name, and no other");\n    check(e as u64 == v, "{L}: distinct numbers stay distinct");')
            b.append(f'cover("{m}");')
        elif m in FL:
            b.append(f'let (v, w) = ({x} as u64, r.{a}());\n    check(w.bits() as u64 == v, "{L}: no bit is lost");')
            for c, q in FL[m]['consts']:
                b.append(f'check(w.contains({m}::{c}) == (v & {q} == {q}), "{L} contains {c}");')
            b.append(f'cover("{m}");')
        elif m in SUBS:
            b.append(f'let v = {x} as u64;')
            for g, t, o in SUBS[m]:
                sub = f'r.{a}().{g}()'
                l = f'{L}.{g}'
                if t == 'bool': b.append(f'check({sub} == ((v >> {o}) & 1 == 1), "{l}");')
                elif t == 'nbool': b.append(f'check({sub} == ((v >> {o}) & 1 == 0), "{l}");')
                elif t == 'opt': b.append(f'check({sub}.map_or(9, |x| x as u64) == ({o}), "{l}");')
                elif t[0] == '?':
                    ns = ' | '.join(str(q) for _, q in vals(t[1:]))
                    b.append(f'let q = {o};\n    check({sub}.map_or(999, |x| {num(t[1:], "x")}) == match q {{ {ns} => q, _ => 999 }}, "{l}");')
                else: b.append(f'let q = {o};\n    check({num(t, sub)} == q, "{l}");')
            b.append(f'cover("{m}");')
    if b:
        s += f'pub fn names_{n}(r: &{n}Ref, p: &[u8]) {{\n' + ''.join(f'    {x}\n' for x in b) + '}\n'
        NM.append(n)
s += '/// messages with named values (indices into the table of receivable messages)\npub const NAMED: [usize; %d] = %s;\n' % (len([n for n in NM if n in O]), [O.index(n) for n in NM if n in O])
s += 'pub fn names(pk: &PacketRef, p: &[u8]) {\n    match pk {\n' + ''.join(f'        PacketRef::{n}(r) => names_{n}(r, p),\n' for n in NM if n in O) + '        _ => {}\n    }\n}\n'
cs = []
for t in FL:
    for c, q in FL[t]['consts']:
        pv = PROTO.get(t, {}).get(c)
        if pv is None: cs.append(f'check({t}::{c}.bits() as u64 == {q}, "{t}::{c} is the protocol\'s value")')
        else:
            cs.append(f'check({t}::{c}.bits() as u64 == {pv}, "{t}::{c} is the protocol\'s value")')
            cs.append(f'check({t}::{c}.bits() as u64 == {pv} || {t}::{c}.bits() as u64 == {q}, "{t}::{c} is one of two known values")')
s += f'/// the constants of the flag words\npub const CONSTANTS: u32 = {len(cs)};\npub fn constant(i: u32) {{\n    match i {{\n' + ''.join(f'        {i} => {x},\n' for i, x in enumerate(cs)) + '        _ => {}\n    }\n}\n'
w('bits.rs', s)

# ---- serde (C26): the expected events for every message
s = '''#![allow(non_snake_case, unused_variables, clippy::all)]
use super::bits_none as _;
use crate::ser::*;
use ublox::*;
'''.replace('use super::bits_none as _;\n', '')
for n in O + ['NavSatSvInfo', 'RxmRawxInfo']:
    s += f'pub fn ser_{n}(e: &mut Exp, r: &{n}Ref, p: &[u8]) {{\n'
    for f in P[n]['fields']:
        m, a, ty = f.get('map_type'), acc(f), f['ty']
        L = f'"{n}.{f["name"]}"'
        s += f'    e.key("{f["name"]}", {L});\n'
        if not f.get('size') or ty.startswith('['):
            if m is None:
                s += f'    e.bytes(&p[{f["off"]}..{f["off"] + f["size"]}], {L});\n'
            elif m == '&str': s += f'    e.str(r.{a}(), {L});\n'
            elif m == 'Option<&str>': s += f'    match r.{a}() {{\n        Some(t) => e.str(t, {L}),\n        None => e.none({L}),\n    }}\n'
            elif m == 'Option<u32>': s += f'    match r.{a}() {{\n        Some(t) => e.int(t as u64, {L}),\n        None => e.none({L}),\n    }}\n'
            else:
                s += f'    e.seq({L});\n    for (k, x) in r.{a}().enumerate() {{\n'
                if m == 'NavSatIter': s += '        e.map("block");\n        ser_NavSatSvInfo(e, &x, &p[8 + 12 * k..]);\n        e.end("block");\n'
                elif m == 'RxmRawxInfoIter': s += '        e.map("block");\n        ser_RxmRawxInfo(e, &x, &p[16 + 32 * k..]);\n        e.end("block");\n'
                elif m == 'EsfMeasDataIter': s += '        e.map("block");\n        e.key("data_type", "block");\n        e.int(x.data_type as u64, "block");\n        e.key("data_field", "block");\n        e.int(x.data_field as u64, "block");\n        e.end("block");\n'
                elif m == 'EsfRawDataIter': s += '        e.map("block");\n        e.key("data_type", "block");\n        e.int(x.data_type as u64, "block");\n        e.key("data_field", "block");\n        e.int(x.data_field as u64, "block");\n        e.key("sensor_time_tag", "block");\n        e.int(x.sensor_time_tag as u64, "block");\n        e.end("block");\n'
                elif m == 'DwrdIter': s += '        e.int(x as u64, "block");\n'
                elif m == 'MonVerExtensionIter': s += '        e.str(x, "block");\n'
                else: assert 0, m
                s += f'    }}\n    e.end({L});\n'
            continue
        if m in ('f64', 'f32') or (m is None and ty in ('f64', 'f32')): s += f'    e.float(r.{a}() as f64, {L});\n'
        elif m is None: s += f'    e.int(r.{a}() as i64 as u64, {L});\n'
        elif m == 'UartMode': s += f'    e.uart({rd(f)}, {L});\n'
        elif m == 'CfgItfmConfig': s += f'    e.itfm({rd(f)}, {L});\n'
        elif m == 'CfgItfmConfig2': s += f'    e.itfm2({rd(f)}, {L});\n'
        else: s += f'    e.int({rd(f)} as u64, {L});\n'
    s += '}\n'
s += 'pub fn ser_all(e: &mut Exp, pk: &PacketRef, p: &[u8]) {\n    match pk {\n' + ''.join(f'        PacketRef::{n}(r) => ser_{n}(e, r, p),\n' for n in O) + '        _ => {}\n    }\n}\n'
s += 'pub fn own(pk: &PacketRef, c: Cap) -> Option<Result<(), Refused>> {\n    use serde::Serialize;\n    match pk {\n' + ''.join(f'        PacketRef::{n}(r) => Some(r.serialize(c)),\n' for n in O) + '        _ => None,\n    }\n}\n'
w('ser.rs', s)

# ---- Debug output (C28)
s = '''#![allow(non_snake_case, unused_variables, clippy::all)]
use crate::dbg::*;
use ublox::*;
'''
for n in O + ['NavSatSvInfo', 'RxmRawxInfo']:
    s += f'pub fn dbg_{n}(o: &mut Text, r: &{n}Ref) {{\n    o.open("{n}");\n'
    for f in P[n]['fields']:
        m = f.get('map_type')
        if m == 'FixStatusInfo': s += f'    o.fix_status("{f["name"]}", r.{acc(f)}());\n'
        elif m == 'NavSatSvFlags': s += f'    o.sv_flags("{f["name"]}", r.{acc(f)}());\n'
        else: s += f'    o.field("{f["name"]}", &r.{acc(f)}());\n'
    s += '    o.close();\n}\n'
s += 'pub fn dbg_all(o: &mut Text, pk: &PacketRef) {\n    match pk {\n' + ''.join(f'        PacketRef::{n}(r) => dbg_{n}(o, r),\n' for n in O) + '        _ => {}\n    }\n}\n'
s += 'pub fn own(o: &mut Text, pk: &PacketRef) {\n    match pk {\n' + ''.join(f'        PacketRef::{n}(r) => o.value(r),\n' for n in O) + '        _ => {}\n    }\n}\n'
# fields: offset, size, kind: 0 whole (at most 4 bytes of it), 1 a nibble of a flag word, 2 one byte, 3 fixed values only (floating point)
def dbgfields(n):
    l = []
    for f in P[n]['fields']:
        if not f.get('size') or n == 'MonVer': continue
        m = f.get('map_type')
        k = 2 if f['ty'].startswith('[') else 3 if m in ('f64', 'f32') or f['ty'] in ('f64', 'f32') else 1 if m in FL or m in ('UartMode', 'CfgItfmConfig', 'CfgItfmConfig2', 'NavSatSvFlags') else 0
        l.append(f'({f["off"]}, {f["size"]}, {k})')
    return '[' + ', '.join(l) + ']'
s += '/// (offset, bytes, how much of it may be symbolic)\npub const FIELDS: [&[(usize, usize, u8)]; %d] = [\n' % len(O)
for n in O: s += f'    &{dbgfields(n)},\n'
s += '];\n'
for n in ['NavSatSvInfo', 'RxmRawxInfo']: s += f'#[allow(non_upper_case_globals)]\npub const FIELDS_{n}: &[(usize, usize, u8)] = &{dbgfields(n)};\n'
w('dbg.rs', s)
