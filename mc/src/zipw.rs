//! Writes archives.
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Entry { pub name: Vec<u8>, pub data: Vec<u8>, pub deflate: bool, pub mode: u32 }
pub fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d { c ^= u32::from(*b); for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 }; } }
    !c
}
pub fn file(name: &str, data: &[u8], deflate: bool) -> Entry { Entry { name: name.as_bytes().to_vec(), data: data.to_vec(), deflate, mode: 0o100644 } }
pub fn dir(name: &str) -> Entry { Entry { name: format!("{}/", name).into_bytes(), data: vec![], deflate: false, mode: 0o40755 } }
pub fn archive(entries: &[Entry]) -> Vec<u8> {
    let mut out = vec![];
    let mut central = vec![];
    let p16 = |o: &mut Vec<u8>, v: usize| o.extend_from_slice(&(v as u16).to_le_bytes());
    let p32 = |o: &mut Vec<u8>, v: usize| o.extend_from_slice(&(v as u32).to_le_bytes());
    for e in entries {
        let body = if e.deflate { miniz_oxide::deflate::compress_to_vec(&e.data, 6) } else { e.data.clone() };
        let at = out.len();
        let common = |o: &mut Vec<u8>| {
            p16(o, 20); p16(o, 0x800); p16(o, if e.deflate { 8 } else { 0 }); p16(o, 0); p16(o, 0x21);
            p32(o, crc(&e.data) as usize); p32(o, body.len()); p32(o, e.data.len()); p16(o, e.name.len()); p16(o, 0);
        };
        out.extend_from_slice(b"PK\x03\x04");
        common(&mut out);
        out.extend_from_slice(&e.name);
        out.extend_from_slice(&body);
        central.extend_from_slice(b"PK\x01\x02");
        p16(&mut central, 0x31e);
        common(&mut central);
        p16(&mut central, 0); p16(&mut central, 0); p16(&mut central, 0);
        p32(&mut central, (e.mode << 16) as usize);
        p32(&mut central, at);
        central.extend_from_slice(&e.name);
    }
    let at = out.len();
    out.extend_from_slice(&central);
    out.extend_from_slice(b"PK\x05\x06");
    p32(&mut out, 0);
    p16(&mut out, entries.len()); p16(&mut out, entries.len());
    p32(&mut out, central.len()); p32(&mut out, at);
    p16(&mut out, 0);
    out
}
/// the files and directories below `dir`, as entries below `root`, parents first
pub fn entries(from: &Path, root: &str, deflate: bool, dirs: bool) -> Vec<Entry> {
    let mut v = if dirs { vec![dir(root)] } else { vec![] };
    for (p, c) in crate::c_models::snapshot(from) {
        let n = format!("{}/{}", root, p.display());
        match c { Some(d) => v.push(file(&n, &d, deflate)), None => if dirs { v.push(dir(&n)) } }
    }
    v
}
