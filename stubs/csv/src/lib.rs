//! Stand-in for the reading half of csv 1: separated records, optional quoting, blank lines skipped,
//! records of unequal length refused unless `flexible`.
use std::fmt;
use std::io::Read;
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "CSV error: {}", self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, PartialEq, Default)]
pub struct StringRecord(Vec<String>);
impl StringRecord {
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = &str> + ExactSizeIterator + Clone { self.0.iter().map(|s| s.as_str()) }
    pub fn get(&self, i: usize) -> Option<&str> { self.0.get(i).map(|s| s.as_str()) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn new() -> Self { Self::default() }
    pub fn trim(&mut self) { for f in self.0.iter_mut() { *f = f.trim().to_string(); } }
    pub fn clear(&mut self) { self.0.clear() }
}
impl std::ops::Index<usize> for StringRecord { type Output = str; fn index(&self, i: usize) -> &str { &self.0[i] } }
impl<'a> IntoIterator for &'a StringRecord { type Item = &'a str; type IntoIter = std::vec::IntoIter<&'a str>; fn into_iter(self) -> Self::IntoIter { self.iter().collect::<Vec<_>>().into_iter() } }
#[derive(Debug, Clone)]
pub enum Trim { None, Headers, Fields, All }
#[derive(Debug, Clone, Copy)]
pub enum Terminator { CRLF, Any(u8) }
#[derive(Debug, Clone)]
pub struct ReaderBuilder { delimiter: u8, quoting: bool, flexible: bool, headers: bool, trim: bool, comment: Option<u8>, quote: u8, double_quote: bool, escape: Option<u8>, end: Option<u8> }
impl Default for ReaderBuilder { fn default() -> Self { Self::new() } }
impl ReaderBuilder {
    pub fn new() -> Self { ReaderBuilder { delimiter: b',', quoting: true, flexible: false, headers: true, trim: false, comment: None, quote: b'"', double_quote: true, escape: None, end: None } }
    pub fn delimiter(&mut self, d: u8) -> &mut Self { self.delimiter = d; self }
    pub fn quoting(&mut self, q: bool) -> &mut Self { self.quoting = q; self }
    pub fn flexible(&mut self, q: bool) -> &mut Self { self.flexible = q; self }
    pub fn has_headers(&mut self, q: bool) -> &mut Self { self.headers = q; self }
    pub fn trim(&mut self, t: Trim) -> &mut Self { self.trim = match t { Trim::Fields | Trim::All => true, _ => false }; self }
    pub fn comment(&mut self, c: Option<u8>) -> &mut Self { self.comment = c; self }
    pub fn quote(&mut self, c: u8) -> &mut Self { self.quote = c; self }
    pub fn double_quote(&mut self, q: bool) -> &mut Self { self.double_quote = q; self }
    pub fn escape(&mut self, c: Option<u8>) -> &mut Self { self.escape = c; self }
    pub fn terminator(&mut self, t: Terminator) -> &mut Self { self.end = match t { Terminator::Any(c) => Some(c), Terminator::CRLF => None }; self }
    pub fn buffer_capacity(&mut self, _n: usize) -> &mut Self { self }
    pub fn from_reader<R: Read>(&self, mut r: R) -> Reader<R> {
        let mut d = vec![];
        let err = r.read_to_end(&mut d).err().map(|e| e.to_string());
        Reader { data: d, pos: 0, cfg: self.clone(), err, len: None, started: false, head: None, p: std::marker::PhantomData }
    }
    pub fn from_path<P: AsRef<std::path::Path>>(&self, p: P) -> Result<Reader<mc_std::fs::File>> {
        Ok(self.from_reader(mc_std::fs::File::open(p).map_err(|e| Error(e.to_string()))?))
    }
}
pub struct Reader<R> { data: Vec<u8>, pos: usize, cfg: ReaderBuilder, err: Option<String>, len: Option<usize>, started: bool, head: Option<StringRecord>, p: std::marker::PhantomData<R> }
impl<R: Read> Reader<R> {
    pub fn from_reader(r: R) -> Self { ReaderBuilder::new().from_reader(r) }
    pub fn records(&mut self) -> Records<'_, R> { Records(self) }
    pub fn into_records(self) -> IntoRecords<R> { IntoRecords(self) }
    pub fn read_record(&mut self, r: &mut StringRecord) -> Result<bool> { match self.next_record() { Some(x) => { *r = x?; Ok(true) } None => { *r = StringRecord::default(); Ok(false) } } }
    pub fn headers(&mut self) -> Result<&StringRecord> {
        if !self.started {
            self.started = true;
            let at = self.pos;
            let h = self.next_raw().unwrap_or_else(|| Ok(StringRecord::default()))?;
            if !self.cfg.headers { self.pos = at; self.len = None; }
            self.head = Some(h);
        }
        if self.head.is_none() { self.head = Some(StringRecord::default()); }
        Ok(self.head.as_ref().unwrap())
    }
    pub fn deserialize<D: serde::de::DeserializeOwned>(&mut self) -> Deserialized<'_, R, D> { Deserialized(self, std::marker::PhantomData) }
    fn next_raw(&mut self) -> Option<Result<StringRecord>> {
        if let Some(e) = self.err.take() { self.pos = self.data.len(); return Some(Err(Error(e))); }
        let d = &self.data;
        let last = self.cfg.end;
        let end = |c: u8| match last { Some(e) => c == e, None => c == b'\n' || c == b'\r' };
        loop {
            while self.pos < d.len() && end(d[self.pos]) { self.pos += 1; }
            if self.pos < d.len() && self.cfg.comment == Some(d[self.pos]) { while self.pos < d.len() && d[self.pos] != b'\n' { self.pos += 1; } } else { break; }
        }
        if self.pos >= d.len() { return None; }
        let mut fields: Vec<Vec<u8>> = vec![vec![]];
        let mut quoted = false;
        let q = self.cfg.quote;
        while self.pos < d.len() {
            let c = d[self.pos];
            self.pos += 1;
            if self.cfg.quoting && quoted {
                if self.cfg.escape == Some(c) && self.pos < d.len() { fields.last_mut().unwrap().push(d[self.pos]); self.pos += 1; }
                else if c == q { if self.cfg.double_quote && d.get(self.pos) == Some(&q) { fields.last_mut().unwrap().push(q); self.pos += 1; } else { quoted = false; } }
                else { fields.last_mut().unwrap().push(c); }
            } else if self.cfg.quoting && c == q && fields.last().unwrap().is_empty() { quoted = true; }
            else if c == self.cfg.delimiter { fields.push(vec![]); }
            else if end(c) { break; }
            else { fields.last_mut().unwrap().push(c); }
        }
        let trim = self.cfg.trim;
        let rec: std::result::Result<Vec<String>, _> = fields.into_iter().map(|f| String::from_utf8(f).map(|s| if trim { s.trim().to_string() } else { s })).collect();
        let rec = match rec { Ok(r) => r, Err(e) => return Some(Err(Error(e.to_string()))) };
        if !self.cfg.flexible {
            match self.len { Some(l) if l != rec.len() => return Some(Err(Error(format!("found record with {} fields, but the previous record has {} fields", rec.len(), l)))), None => self.len = Some(rec.len()), _ => {} }
        }
        Some(Ok(StringRecord(rec)))
    }
    fn next_record(&mut self) -> Option<Result<StringRecord>> {
        if !self.started { self.started = true; if self.cfg.headers { match self.next_raw() { Some(Err(e)) => return Some(Err(e)), None => return None, Some(Ok(h)) => self.head = Some(h) } } }
        self.next_raw()
    }
}
pub struct Deserialized<'a, R, D>(&'a mut Reader<R>, std::marker::PhantomData<D>);
impl<'a, R: Read, D: serde::de::DeserializeOwned> Iterator for Deserialized<'a, R, D> {
    type Item = Result<D>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next_record().map(|r| r.and_then(|r| serde_json::from_value(serde_json::json!(r.0)).map_err(|e| Error(e.to_string())))) }
}
pub struct Records<'a, R>(&'a mut Reader<R>);
impl<'a, R: Read> Iterator for Records<'a, R> { type Item = Result<StringRecord>; fn next(&mut self) -> Option<Self::Item> { self.0.next_record() } }
pub struct IntoRecords<R>(Reader<R>);
impl<R: Read> Iterator for IntoRecords<R> { type Item = Result<StringRecord>; fn next(&mut self) -> Option<Self::Item> { self.0.next_record() } }
