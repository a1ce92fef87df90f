//! Frames, built independently of the crate under test.
pub fn fletcher(b: &[u8]) -> (u8, u8) {
    let (mut x, mut y) = (0u8, 0u8);
    for v in b {
        x = x.wrapping_add(*v);
        y = y.wrapping_add(x);
    }
    (x, y)
}

/// one frame with a correct checksum
pub fn put_frame(o: &mut Vec<u8>, class: u8, id: u8, payload: &[u8]) {
    let at = o.len();
    o.extend_from_slice(&[0xb5, 0x62, class, id, payload.len() as u8, (payload.len() >> 8) as u8]);
    o.extend_from_slice(payload);
    let (a, b) = fletcher(&o[at + 2..]);
    o.push(a);
    o.push(b);
}
