//! Stand-in for snips-nlu-utils 0.9.1.
pub mod language {
    use std::str::FromStr;
    #[allow(non_camel_case_types)]
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Language { DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR }
    impl FromStr for Language {
        type Err = failure::Error;
        fn from_str(s: &str) -> Result<Self, failure::Error> {
            use Language::*;
            Ok(match &*s.to_lowercase() {
                "de" => DE, "en" => EN, "es" => ES, "fr" => FR, "it" => IT, "ja" => JA, "ko" => KO, "pt_pt" => PT_PT, "pt_br" => PT_BR,
                _ => return Err(failure::format_err!("unknown language {}", s)),
            })
        }
    }
    impl std::fmt::Display for Language {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", format!("{:?}", self).to_lowercase()) }
    }
}
pub mod range {
    use std::ops::Range;
    pub fn ranges_overlap(a: &Range<usize>, b: &Range<usize>) -> bool { a.start < b.end && a.end > b.start }
}
pub mod string {
    use std::ops::Range;
    use unicode_normalization::{char::is_combining_mark, UnicodeNormalization};
    pub fn remove_diacritics(s: &str) -> String { s.nfd().filter(|c| !is_combining_mark(*c)).collect() }
    pub fn normalize(s: &str) -> String { remove_diacritics(s.trim()).to_lowercase() }
    pub fn get_shape(s: &str) -> &'static str {
        let cased: Vec<char> = s.chars().filter(|c| c.is_lowercase() || c.is_uppercase()).collect();
        if !cased.is_empty() && cased.iter().all(|c| c.is_lowercase()) { return "xxx"; }
        if !cased.is_empty() && cased.iter().all(|c| c.is_uppercase()) { return "XXX"; }
        let mut it = s.chars();
        if it.next().map(|c| c.is_uppercase()).unwrap_or(false) && it.all(|c| !c.is_uppercase()) { return "Xxx"; }
        "xX"
    }
    pub fn substring_with_char_range(s: String, r: &Range<usize>) -> String {
        if r.end <= r.start { return String::new(); }
        s.chars().skip(r.start).take(r.end - r.start).collect()
    }
    pub fn prefix_until_char_index(s: String, i: usize) -> String { s.chars().take(i).collect() }
    pub fn suffix_from_char_index(s: String, i: usize) -> String { s.chars().skip(i).collect() }
    pub fn convert_to_char_range(s: &str, r: &Range<usize>) -> Range<usize> {
        convert_to_char_index(s, r.start)..convert_to_char_index(s, r.end)
    }
    pub fn convert_to_char_index(s: &str, byte: usize) -> usize {
        if byte == 0 { return 0; }
        s.char_indices().take_while(|(i, _)| *i < byte).count()
    }
    pub fn convert_to_byte_index(s: &str, ci: usize) -> usize { s.char_indices().nth(ci).map(|(i, _)| i).unwrap_or_else(|| s.len()) }
    pub fn convert_to_byte_range(s: &str, r: &Range<usize>) -> Range<usize> { convert_to_byte_index(s, r.start)..convert_to_byte_index(s, r.end) }
    /// murmur3 32-bit
    pub fn hash_str_to_i32(s: &str) -> i32 {
        let data = s.as_bytes();
        let (c1, c2) = (0xcc9e2d51u32, 0x1b873593u32);
        let mut h = 0u32;
        let mut chunks = data.chunks_exact(4);
        for b in &mut chunks {
            let k = u32::from_le_bytes([b[0], b[1], b[2], b[3]]).wrapping_mul(c1).rotate_left(15).wrapping_mul(c2);
            h = (h ^ k).rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64);
        }
        let mut k = 0u32;
        for (i, b) in chunks.remainder().iter().enumerate() { k |= u32::from(*b) << (8 * i); }
        h ^= k.wrapping_mul(c1).rotate_left(15).wrapping_mul(c2);
        h ^= data.len() as u32;
        h = (h ^ (h >> 16)).wrapping_mul(0x85ebca6b);
        h = (h ^ (h >> 13)).wrapping_mul(0xc2b2ae35);
        (h ^ (h >> 16)) as i32
    }
}
pub mod token {
    use super::language::Language;
    use super::string::normalize;
    use lazy_static::lazy_static;
    use regex::Regex;
    use std::ops::Range;

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Token { pub value: String, pub range: Range<usize>, pub char_range: Range<usize> }
    impl Token {
        pub fn new(value: String, range: Range<usize>, char_range: Range<usize>) -> Token { Token { value, range, char_range } }
        pub fn normalized_value(&self) -> String { normalize(&self.value) }
    }
    const CURRENCIES: &str = "$؋ƒ៛¥₡₱£€¢﷼₪₩₭₮₦฿₫";
    lazy_static! {
        static ref WORDS_RE: Regex = Regex::new(r"\w+").unwrap();
        static ref SYMBOLS_RE: Regex = Regex::new(&format!("[?!&%{}]", CURRENCIES)).unwrap();
    }
    // a clone has its own matching memory, so threads do not wait for each other
    thread_local! {
        static WORDS: Regex = WORDS_RE.clone();
        static SYMBOLS: Regex = SYMBOLS_RE.clone();
    }
    /// words, and each of the symbols `?!&%` and currencies, are tokens; everything else separates
    pub fn tokenize(input: &str, _language: Language) -> Vec<Token> {
        let mut out: Vec<(usize, usize)> = WORDS.with(|w| w.find_iter(input).map(|m| (m.start(), m.end())).collect());
        SYMBOLS.with(|w| out.extend(w.find_iter(input).map(|m| (m.start(), m.end()))));
        out.sort();
        let mut ci = 0;
        let mut byte = 0;
        out.into_iter()
            .map(|(s, e)| {
                ci += input[byte..s].chars().count();
                let cs = ci;
                ci += input[s..e].chars().count();
                byte = e;
                Token::new(input[s..e].to_string(), s..e, cs..ci)
            })
            .collect()
    }
    pub fn tokenize_light(input: &str, language: Language) -> Vec<String> {
        tokenize(input, language).into_iter().map(|t| t.value).collect()
    }
    pub fn compute_all_ngrams(tokens: &[&str], max_ngram_size: usize) -> Vec<(String, Vec<usize>)> {
        let mut res = vec![];
        for start in 0..tokens.len() {
            let mut cur = String::new();
            let mut idx = vec![];
            for i in start..tokens.len().min(start.saturating_add(max_ngram_size)) {
                if i > start { cur.push(' '); }
                cur.push_str(tokens[i]);
                idx.push(i);
                res.push((cur.clone(), idx.clone()));
            }
        }
        res
    }
}
