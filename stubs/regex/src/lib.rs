//! The regex crate, remembering compiled expressions: the checks load the same models many times.
pub use real::*;
use std::collections::HashMap;
use std::sync::Mutex;

static CACHE: Mutex<Option<HashMap<(String, [bool; 8]), Regex>>> = Mutex::new(None);

#[derive(Clone, Debug)]
pub struct RegexBuilder { pattern: String, o: [bool; 8], size_limit: Option<usize> }
impl RegexBuilder {
    pub fn new(pattern: &str) -> RegexBuilder { RegexBuilder { pattern: pattern.to_string(), o: [false, false, false, false, false, true, false, false], size_limit: None } }
    pub fn case_insensitive(&mut self, b: bool) -> &mut Self { self.o[0] = b; self }
    pub fn multi_line(&mut self, b: bool) -> &mut Self { self.o[1] = b; self }
    pub fn dot_matches_new_line(&mut self, b: bool) -> &mut Self { self.o[2] = b; self }
    pub fn swap_greed(&mut self, b: bool) -> &mut Self { self.o[3] = b; self }
    pub fn ignore_whitespace(&mut self, b: bool) -> &mut Self { self.o[4] = b; self }
    pub fn unicode(&mut self, b: bool) -> &mut Self { self.o[5] = b; self }
    pub fn size_limit(&mut self, n: usize) -> &mut Self { self.size_limit = Some(n); self }
    pub fn octal(&mut self, b: bool) -> &mut Self { self.o[6] = b; self }
    pub fn crlf(&mut self, b: bool) -> &mut Self { self.o[7] = b; self }
    pub fn dfa_size_limit(&mut self, _n: usize) -> &mut Self { self }
    pub fn nest_limit(&mut self, _n: u32) -> &mut Self { self }
    pub fn build(&self) -> Result<Regex, Error> {
        let key = (self.pattern.clone(), self.o);
        if let Some(r) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) { return Ok(r.clone()); }
        let mut b = real::RegexBuilder::new(&self.pattern);
        b.case_insensitive(self.o[0]).multi_line(self.o[1]).dot_matches_new_line(self.o[2]).swap_greed(self.o[3]).ignore_whitespace(self.o[4]).unicode(self.o[5]).octal(self.o[6]).crlf(self.o[7]);
        if let Some(n) = self.size_limit { b.size_limit(n); }
        let r = b.build()?;
        CACHE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, r.clone());
        Ok(r)
    }
}
