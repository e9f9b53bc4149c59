//! Stand-in for base64 0.10 (standard alphabet, padding).
use std::fmt;
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DecodeError { InvalidByte(usize, u8), InvalidLength, InvalidLastSymbol(usize, u8) }
impl fmt::Display for DecodeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for DecodeError {}
pub fn encode<T: ?Sized + AsRef<[u8]>>(t: &T) -> String {
    let mut o = String::new();
    for c in t.as_ref().chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 { if i <= c.len() { o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } }
    }
    o
}
pub fn decode<T: ?Sized + AsRef<[u8]>>(t: &T) -> Result<Vec<u8>, DecodeError> {
    let mut b = t.as_ref();
    if b.len() % 4 == 0 { for _ in 0..2 { if b.last() == Some(&b'=') { b = &b[..b.len() - 1]; } } }
    if b.len() % 4 == 1 { return Err(DecodeError::InvalidLength); }
    let mut o = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for (i, c) in b.iter().enumerate() {
        let v = A.iter().position(|x| x == c).ok_or(DecodeError::InvalidByte(i, *c))? as u32;
        acc = (acc << 6) | v;
        bits += 6;
        if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
    }
    Ok(o)
}
