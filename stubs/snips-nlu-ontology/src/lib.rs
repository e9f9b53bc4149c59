//! Stand-in for snips-nlu-ontology 0.67.1: the data types, identifiers and serde names.
use failure::{format_err, Error};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::Range;
use std::str::FromStr;

pub type Fallible<T> = std::result::Result<T, Error>;

#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Language { DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR }
impl Language {
    pub fn all() -> &'static [Language] {
        use Language::*;
        &[DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR]
    }
    pub fn full_name(&self) -> &'static str {
        use Language::*;
        match self { DE => "german", EN => "english", ES => "spanish", FR => "french", IT => "italian", JA => "japanese", KO => "korean", PT_PT => "portuguese - europe", PT_BR => "portuguese - brazil" }
    }
    fn code(&self) -> &'static str {
        use Language::*;
        match self { DE => "de", EN => "en", ES => "es", FR => "fr", IT => "it", JA => "ja", KO => "ko", PT_PT => "pt_pt", PT_BR => "pt_br" }
    }
}
impl fmt::Display for Language {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.code()) }
}
impl FromStr for Language {
    type Err = Error;
    fn from_str(s: &str) -> Fallible<Self> {
        let l = s.to_lowercase();
        Language::all().iter().find(|x| x.code() == l).cloned().ok_or_else(|| format_err!("Unknown language {}", s))
    }
}

macro_rules! kinds {
    ($all:ident; $($group:ident : [$($v:ident),*]);*) => {
        $(#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
        pub enum $group { $($v),* }
        impl $group {
            pub fn all() -> &'static [$group] { &[$($group::$v),*] }
            pub fn identifier(&self) -> &'static str { match self { $($group::$v => ident(stringify!($v))),* } }
            pub fn from_identifier(id: &str) -> Fallible<Self> {
                Self::all().iter().find(|k| k.identifier() == id).cloned().ok_or_else(|| format_err!("Unknown entity identifier: {}", id))
            }
            pub fn into_builtin_kind(self) -> BuiltinEntityKind { match self { $($group::$v => BuiltinEntityKind::$v),* } }
        }
        impl fmt::Display for $group { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.identifier()) } }
        impl FromStr for $group {
            type Err = Error;
            fn from_str(s: &str) -> Fallible<Self> { match s { $(stringify!($v) => Ok($group::$v),)* _ => Err(format_err!("Unknown entity {}", s)) } }
        })*
    };
}
fn ident(variant: &str) -> &'static str {
    match variant {
        "AmountOfMoney" => "snips/amountOfMoney", "Duration" => "snips/duration", "Number" => "snips/number",
        "Ordinal" => "snips/ordinal", "Temperature" => "snips/temperature", "Datetime" => "snips/datetime",
        "Date" => "snips/date", "Time" => "snips/time", "DatePeriod" => "snips/datePeriod", "TimePeriod" => "snips/timePeriod",
        "Percentage" => "snips/percentage", "MusicAlbum" => "snips/musicAlbum", "MusicArtist" => "snips/musicArtist",
        "MusicTrack" => "snips/musicTrack", "City" => "snips/city", "Country" => "snips/country", "Region" => "snips/region",
        _ => unreachable!(),
    }
}
kinds! { all;
    BuiltinEntityKind: [AmountOfMoney, Duration, Number, Ordinal, Temperature, Datetime, Date, Time, DatePeriod, TimePeriod, Percentage, MusicAlbum, MusicArtist, MusicTrack, City, Country, Region];
    GrammarEntityKind: [AmountOfMoney, Duration, Number, Ordinal, Temperature, Datetime, Date, Time, DatePeriod, TimePeriod, Percentage];
    BuiltinGazetteerEntityKind: [MusicAlbum, MusicArtist, MusicTrack, City, Country, Region]
}
impl BuiltinEntityKind {
    pub fn supported_languages(&self) -> &'static [Language] { Language::all() }
}
pub trait IntoBuiltinEntityKind { fn into_builtin_kind(self) -> BuiltinEntityKind; }
impl IntoBuiltinEntityKind for GrammarEntityKind { fn into_builtin_kind(self) -> BuiltinEntityKind { GrammarEntityKind::into_builtin_kind(self) } }
impl IntoBuiltinEntityKind for BuiltinGazetteerEntityKind { fn into_builtin_kind(self) -> BuiltinEntityKind { BuiltinGazetteerEntityKind::into_builtin_kind(self) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Grain { Year, Quarter, Month, Week, Day, Hour, Minute, Second }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Precision { Approximate, Exact }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum SlotValue {
    Custom(StringValue),
    Number(NumberValue),
    Ordinal(OrdinalValue),
    Percentage(PercentageValue),
    InstantTime(InstantTimeValue),
    TimeInterval(TimeIntervalValue),
    AmountOfMoney(AmountOfMoneyValue),
    Temperature(TemperatureValue),
    Duration(DurationValue),
    MusicAlbum(StringValue),
    MusicArtist(StringValue),
    MusicTrack(StringValue),
    City(StringValue),
    Country(StringValue),
    Region(StringValue),
}
macro_rules! val { ($n:ident { $($f:ident : $t:ty),* }) => {
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] pub struct $n { $(pub $f: $t),* }
} }
val!(StringValue { value: String });
val!(NumberValue { value: f64 });
val!(OrdinalValue { value: i64 });
val!(PercentageValue { value: f64 });
val!(InstantTimeValue { value: String, grain: Grain, precision: Precision });
val!(TimeIntervalValue { from: Option<String>, to: Option<String> });
val!(AmountOfMoneyValue { value: f32, precision: Precision, unit: Option<String> });
val!(TemperatureValue { value: f32, unit: Option<String> });
val!(DurationValue { years: i64, quarters: i64, months: i64, weeks: i64, days: i64, hours: i64, minutes: i64, seconds: i64, precision: Precision });
impl From<String> for StringValue { fn from(value: String) -> Self { StringValue { value } } }
impl<'a> From<&'a str> for StringValue { fn from(value: &'a str) -> Self { StringValue { value: value.to_string() } } }
impl From<f64> for NumberValue { fn from(value: f64) -> Self { NumberValue { value } } }
impl From<i64> for OrdinalValue { fn from(value: i64) -> Self { OrdinalValue { value } } }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct BuiltinEntity {
    pub value: String,
    pub range: Range<usize>,
    pub entity: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub entity_kind: BuiltinEntityKind,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentClassifierResult { pub intent_name: Option<String>, pub confidence_score: f32 }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Slot {
    pub raw_value: String,
    pub value: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub range: Range<usize>,
    pub entity: String,
    pub slot_name: String,
    pub confidence_score: Option<f32>,
}
impl Slot {
    pub fn new_custom(raw_value: String, range: Range<usize>, entity: String, slot_name: String, confidence_score: Option<f32>) -> Slot {
        Slot { value: SlotValue::Custom(raw_value.clone().into()), raw_value, alternatives: vec![], range, entity, slot_name, confidence_score }
    }
    pub fn with_slot_name(self, slot_name: String) -> Slot { Slot { slot_name, ..self } }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentParserAlternative { pub intent: IntentClassifierResult, pub slots: Vec<Slot> }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentParserResult {
    pub input: String,
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
    pub alternatives: Vec<IntentParserAlternative>,
}
