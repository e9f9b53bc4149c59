//! Stand-in for the reading half of zip 0.5 (stored and deflated entries).
pub mod result {
    use std::{fmt, io};
    #[derive(Debug)]
    pub enum ZipError { Io(io::Error), InvalidArchive(&'static str), UnsupportedArchive(&'static str), FileNotFound }
    impl fmt::Display for ZipError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for ZipError {}
    impl From<io::Error> for ZipError { fn from(e: io::Error) -> Self { ZipError::Io(e) } }
    pub type ZipResult<T> = Result<T, ZipError>;
}
pub mod read { pub use super::{ZipArchive, ZipFile}; }
use result::*;
use std::io::{self, Cursor, Read, Seek, SeekFrom};
use std::path::{Component, Path, PathBuf};

#[derive(Debug, Clone)]
struct Entry { name: String, method: u16, csize: usize, usize_: usize, offset: usize, crc: u32, mode: Option<u32> }
#[derive(Debug, Clone)]
pub struct ZipArchive<R> { data: Vec<u8>, entries: Vec<Entry>, r: std::marker::PhantomData<R> }
fn u16_at(d: &[u8], i: usize) -> ZipResult<usize> { d.get(i..i + 2).map(|b| u16::from_le_bytes([b[0], b[1]]) as usize).ok_or(ZipError::InvalidArchive("truncated")) }
fn u32_at(d: &[u8], i: usize) -> ZipResult<usize> { d.get(i..i + 4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize).ok_or(ZipError::InvalidArchive("truncated")) }
impl<R: Read + Seek> ZipArchive<R> {
    pub fn new(mut r: R) -> ZipResult<Self> {
        let mut data = vec![];
        r.seek(SeekFrom::Start(0))?;
        r.read_to_end(&mut data)?;
        if data.len() < 22 { return Err(ZipError::InvalidArchive("Invalid zip header")); }
        let eocd = (0..=data.len() - 22).rev().find(|i| data[*i..*i + 4] == *b"PK\x05\x06").ok_or(ZipError::InvalidArchive("Could not find central directory end"))?;
        let n = u16_at(&data, eocd + 10)?;
        let mut p = u32_at(&data, eocd + 16)?;
        let mut entries = vec![];
        for _ in 0..n {
            if data.get(p..p + 4) != Some(&b"PK\x01\x02"[..]) { return Err(ZipError::InvalidArchive("Invalid Central Directory header")); }
            let (nl, el, cl) = (u16_at(&data, p + 28)?, u16_at(&data, p + 30)?, u16_at(&data, p + 32)?);
            let name = data.get(p + 46..p + 46 + nl).ok_or(ZipError::InvalidArchive("truncated"))?;
            let attr = u32_at(&data, p + 38)? as u32;
            entries.push(Entry {
                name: String::from_utf8_lossy(name).into_owned(),
                method: u16_at(&data, p + 10)? as u16,
                crc: u32_at(&data, p + 16)? as u32,
                csize: u32_at(&data, p + 20)?,
                usize_: u32_at(&data, p + 24)?,
                offset: u32_at(&data, p + 42)?,
                mode: if attr == 0 { None } else { Some(attr >> 16) },
            });
            p += 46 + nl + el + cl;
        }
        Ok(ZipArchive { data, entries, r: std::marker::PhantomData })
    }
    pub fn len(&self) -> usize { self.entries.len() }
    pub fn is_empty(&self) -> bool { self.entries.is_empty() }
    pub fn file_names(&self) -> impl Iterator<Item = &str> { self.entries.iter().map(|e| e.name.as_str()) }
    pub fn by_name(&mut self, name: &str) -> ZipResult<ZipFile<'_>> {
        let i = self.entries.iter().position(|e| e.name == name).ok_or(ZipError::FileNotFound)?;
        self.by_index(i)
    }
    pub fn by_index(&mut self, i: usize) -> ZipResult<ZipFile<'_>> {
        let e = self.entries.get(i).ok_or(ZipError::FileNotFound)?;
        let d = &self.data;
        if d.get(e.offset..e.offset + 4) != Some(&b"PK\x03\x04"[..]) { return Err(ZipError::InvalidArchive("Invalid local file header")); }
        let start = e.offset + 30 + u16_at(d, e.offset + 26)? + u16_at(d, e.offset + 28)?;
        let raw = d.get(start..start + e.csize).ok_or(ZipError::InvalidArchive("truncated"))?;
        let content: io::Result<Vec<u8>> = match e.method {
            0 => Ok(raw.to_vec()),
            8 => miniz_oxide::inflate::decompress_to_vec_with_limit(raw, 1 << 28).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "corrupt deflate stream")),
            _ => return Err(ZipError::UnsupportedArchive("Compression method not supported")),
        };
        // a checksum failure shows up while reading, as in the real crate
        let content = content.and_then(|c| if crc(&c) == e.crc { Ok(c) } else { Err(io::Error::new(io::ErrorKind::Other, "Invalid checksum")) });
        let (content, err) = match content { Ok(c) => (c, None), Err(x) => (vec![], Some(x)) };
        Ok(ZipFile { name: &e.name, size: e.usize_ as u64, mode: e.mode, content: Cursor::new(content), err })
    }
}
fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d { c ^= u32::from(*b); for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 }; } }
    !c
}
pub struct ZipFile<'a> { name: &'a str, size: u64, mode: Option<u32>, content: Cursor<Vec<u8>>, err: Option<io::Error> }
impl<'a> ZipFile<'a> {
    pub fn name(&self) -> &str { self.name }
    pub fn name_raw(&self) -> &[u8] { self.name.as_bytes() }
    pub fn size(&self) -> u64 { self.size }
    pub fn unix_mode(&self) -> Option<u32> { self.mode }
    pub fn is_dir(&self) -> bool { self.name.ends_with('/') || self.name.ends_with('\\') }
    pub fn is_file(&self) -> bool { !self.is_dir() }
    pub fn mangled_name(&self) -> PathBuf { self.sanitized_name() }
    /// none for a name that leads outside, or has a NUL
    pub fn enclosed_name(&self) -> Option<&Path> {
        if self.name.contains('\0') { return None; }
        let mut depth = 0usize;
        for c in Path::new(self.name).components() {
            match c { Component::Prefix(_) | Component::RootDir => return None, Component::ParentDir => depth = depth.checked_sub(1)?, Component::Normal(_) => depth += 1, Component::CurDir => {} }
        }
        Some(Path::new(self.name))
    }
    /// drops roots, prefixes, `.` and `..`
    pub fn sanitized_name(&self) -> PathBuf {
        let name = match self.name.find('\0') { Some(i) => &self.name[..i], None => self.name };
        let name = name.replace('\\', "/");
        Path::new(&name)
            .components()
            .filter(|c| match c { Component::Normal(_) => true, _ => false })
            .fold(PathBuf::new(), |mut p, c| { p.push(c.as_os_str()); p })
    }
}
impl<'a> Read for ZipFile<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some(e) = self.err.take() { return Err(e); }
        self.content.read(b)
    }
}
