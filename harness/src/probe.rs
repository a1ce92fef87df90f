use crate::rt::*;
use ublox::*;
fn drain<T: UnderlyingBuffer>(p: &mut Parser<T>, d: &[u8]) -> u64 {
    let mut it = p.consume(d);
    let mut n = 0;
    loop {
        match it.next() {
            None => break,
            Some(Ok(_)) => n += 1,
            Some(Err(_)) => n += 100,
        }
    }
    n
}
fn stream<const N: usize>() {
    let b: [u8; N] = bytes();
    let mut p = Parser::default();
    obs(drain(&mut p, &b));
}
#[no_mangle]
pub fn h_s8() { stream::<8>() }
#[no_mangle]
pub fn h_s10() { stream::<10>() }
#[no_mangle]
pub fn h_s12() { stream::<12>() }
#[no_mangle]
pub fn h_s16() { stream::<16>() }
#[no_mangle]
pub fn h_dec() {
    let mut f = [0u8; 36];
    fill(&mut f);
    f[0]=0xb5; f[1]=0x62; f[2]=1; f[3]=2; f[4]=28; f[5]=0;
    let mut p = Parser::default();
    let mut it = p.consume(&f);
    match it.next() {
        Some(Ok(PacketRef::NavPosLlh(r))) => {
            cover("ok");
            check(r.itow() == u32::from_le_bytes([f[6],f[7],f[8],f[9]]), "itow");
            check(r.height_msl() == (i32::from_le_bytes([f[22],f[23],f[24],f[25]]) as f64) * 1e-3,"vacc");
        }
        Some(Ok(_)) => check(false, "other"),
        _ => {}
    }
}
pub const ENTRIES: &[(&str, fn())] = &[("h_s8", h_s8),("h_s10", h_s10),("h_s12", h_s12),("h_s16", h_s16),("h_dec", h_dec)];
