use snips_nlu_utils::language::Language as ULang;
use snips_nlu_utils::string::normalize;
use snips_nlu_utils::token::tokenize_light;
pub fn placeholder(entity: &str) -> String { format!("%{}%", tokenize_light(entity, ULang::EN).join("").to_uppercase()) }
pub fn lookup_key(t: &str, stop: &[String]) -> String {
    tokenize_light(t, ULang::EN).into_iter().filter(|t| !stop.contains(&normalize(t))).collect::<Vec<_>>().join(" ").to_lowercase()
}
