//! Stand-in for the C structures of the ontology, laid out as in libsnips_nlu.h. The parts of a
//! structure are counted per thread.
use libc::{c_char, c_float, c_void};
use snips_nlu_ontology::*;
use std::cell::Cell;
use std::ffi::CString;

thread_local! { static PARTS: Cell<isize> = Cell::new(0); }
/// parts alive that this thread has created minus those it has dropped
pub fn mc_parts() -> isize { PARTS.with(|p| p.get()) }
fn count(n: isize) { PARTS.with(|p| p.set(p.get() + n)) }

fn text(s: String) -> *const c_char { count(1); CString::new(s).expect("nul in a value").into_raw() }
fn opt(s: Option<String>) -> *const c_char { s.map(text).unwrap_or(std::ptr::null()) }
fn boxed<T>(t: T) -> *const T { count(1); Box::into_raw(Box::new(t)) }
fn array<T>(v: Vec<T>) -> (*const T, i32) { count(1); let n = v.len() as i32; (Box::into_raw(v.into_boxed_slice()) as *const T, n) }
unsafe fn free_text(p: *const c_char) { if !p.is_null() { count(-1); drop(CString::from_raw(p as *mut c_char)); } }
unsafe fn free_box<T>(p: *const T) { if !p.is_null() { count(-1); drop(Box::from_raw(p as *mut T)); } }
unsafe fn free_array<T>(p: *const T, n: i32) { count(-1); drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p as *mut T, n as usize))); }

macro_rules! c { ($n:ident { $($f:ident: $t:ty),* }) => { #[repr(C)] #[derive(Debug)] pub struct $n { $(pub $f: $t),* } } }
c!(CIntentClassifierResult { intent_name: *const c_char, confidence_score: c_float });
c!(CIntentClassifierResultArray { intent_classifier_results: *const CIntentClassifierResult, size: i32 });
c!(CSlotValue { value: *const c_void, value_type: i32 });
c!(CSlotValueArray { slot_values: *const CSlotValue, size: i32 });
c!(CSlot { value: *const CSlotValue, alternatives: *const CSlotValueArray, raw_value: *const c_char, entity: *const c_char, slot_name: *const c_char, range_start: i32, range_end: i32, confidence_score: c_float });
c!(CSlotList { slots: *const CSlot, size: i32 });
c!(CIntentParserAlternative { intent: *const CIntentClassifierResult, slots: *const CSlotList });
c!(CIntentParserAlternativeArray { intent_parser_alternatives: *const CIntentParserAlternative, size: i32 });
c!(CIntentParserResult { input: *const c_char, intent: *const CIntentClassifierResult, slots: *const CSlotList, alternatives: *const CIntentParserAlternativeArray });
c!(CInstantTimeValue { value: *const c_char, grain: i32, precision: i32 });
c!(CTimeIntervalValue { from: *const c_char, to: *const c_char });
c!(CAmountOfMoneyValue { unit: *const c_char, value: c_float, precision: i32 });
c!(CTemperatureValue { unit: *const c_char, value: c_float });
c!(CDurationValue { years: i64, quarters: i64, months: i64, weeks: i64, days: i64, hours: i64, minutes: i64, seconds: i64, precision: i32 });

impl From<SlotValue> for CSlotValue {
    fn from(v: SlotValue) -> Self {
        use SlotValue::*;
        let p = |p: Precision| p as i32;
        let (t, value): (i32, *const c_void) = match v {
            Custom(s) => (1, text(s.value) as _),
            Number(n) => (2, boxed(n.value) as _),
            Ordinal(n) => (3, boxed(n.value) as _),
            InstantTime(i) => (4, boxed(CInstantTimeValue { value: text(i.value), grain: i.grain as i32, precision: p(i.precision) }) as _),
            TimeInterval(i) => (5, boxed(CTimeIntervalValue { from: opt(i.from), to: opt(i.to) }) as _),
            AmountOfMoney(a) => (6, boxed(CAmountOfMoneyValue { unit: opt(a.unit), value: a.value, precision: p(a.precision) }) as _),
            Temperature(x) => (7, boxed(CTemperatureValue { unit: opt(x.unit), value: x.value }) as _),
            Duration(d) => (8, boxed(CDurationValue { years: d.years, quarters: d.quarters, months: d.months, weeks: d.weeks, days: d.days, hours: d.hours, minutes: d.minutes, seconds: d.seconds, precision: p(d.precision) }) as _),
            Percentage(n) => (9, boxed(n.value) as _),
            MusicAlbum(s) => (10, text(s.value) as _),
            MusicArtist(s) => (11, text(s.value) as _),
            MusicTrack(s) => (12, text(s.value) as _),
            City(s) => (13, text(s.value) as _),
            Country(s) => (14, text(s.value) as _),
            Region(s) => (15, text(s.value) as _),
        };
        CSlotValue { value, value_type: t }
    }
}
impl Drop for CSlotValue {
    fn drop(&mut self) {
        unsafe {
            match self.value_type {
                2 | 9 => free_box(self.value as *const f64),
                3 => free_box(self.value as *const i64),
                4 => { free_text((*(self.value as *const CInstantTimeValue)).value); free_box(self.value as *const CInstantTimeValue) }
                5 => { let i = &*(self.value as *const CTimeIntervalValue); free_text(i.from); free_text(i.to); free_box(self.value as *const CTimeIntervalValue) }
                6 => { free_text((*(self.value as *const CAmountOfMoneyValue)).unit); free_box(self.value as *const CAmountOfMoneyValue) }
                7 => { free_text((*(self.value as *const CTemperatureValue)).unit); free_box(self.value as *const CTemperatureValue) }
                8 => free_box(self.value as *const CDurationValue),
                _ => free_text(self.value as *const c_char),
            }
        }
    }
}
impl From<Vec<SlotValue>> for CSlotValueArray {
    fn from(v: Vec<SlotValue>) -> Self { let (slot_values, size) = array(v.into_iter().map(CSlotValue::from).collect()); CSlotValueArray { slot_values, size } }
}
impl Drop for CSlotValueArray { fn drop(&mut self) { unsafe { free_array(self.slot_values, self.size) } } }
impl From<Slot> for CSlot {
    fn from(s: Slot) -> Self {
        CSlot {
            value: boxed(CSlotValue::from(s.value)),
            alternatives: boxed(CSlotValueArray::from(s.alternatives)),
            raw_value: text(s.raw_value),
            entity: text(s.entity),
            slot_name: text(s.slot_name),
            range_start: s.range.start as i32,
            range_end: s.range.end as i32,
            confidence_score: s.confidence_score.unwrap_or(-1.0),
        }
    }
}
impl Drop for CSlot {
    fn drop(&mut self) { unsafe { free_box(self.value); free_box(self.alternatives); free_text(self.raw_value); free_text(self.entity); free_text(self.slot_name) } }
}
impl From<Vec<Slot>> for CSlotList {
    fn from(v: Vec<Slot>) -> Self { let (slots, size) = array(v.into_iter().map(CSlot::from).collect()); CSlotList { slots, size } }
}
impl Drop for CSlotList { fn drop(&mut self) { unsafe { free_array(self.slots, self.size) } } }
impl From<IntentClassifierResult> for CIntentClassifierResult {
    fn from(i: IntentClassifierResult) -> Self { CIntentClassifierResult { intent_name: opt(i.intent_name), confidence_score: i.confidence_score } }
}
impl Drop for CIntentClassifierResult { fn drop(&mut self) { unsafe { free_text(self.intent_name) } } }
impl From<Vec<IntentClassifierResult>> for CIntentClassifierResultArray {
    fn from(v: Vec<IntentClassifierResult>) -> Self { let (intent_classifier_results, size) = array(v.into_iter().map(CIntentClassifierResult::from).collect()); CIntentClassifierResultArray { intent_classifier_results, size } }
}
impl Drop for CIntentClassifierResultArray { fn drop(&mut self) { unsafe { free_array(self.intent_classifier_results, self.size) } } }
impl From<IntentParserAlternative> for CIntentParserAlternative {
    fn from(a: IntentParserAlternative) -> Self { CIntentParserAlternative { intent: boxed(a.intent.into()), slots: boxed(a.slots.into()) } }
}
impl Drop for CIntentParserAlternative { fn drop(&mut self) { unsafe { free_box(self.intent); free_box(self.slots) } } }
impl From<Vec<IntentParserAlternative>> for CIntentParserAlternativeArray {
    fn from(v: Vec<IntentParserAlternative>) -> Self { let (intent_parser_alternatives, size) = array(v.into_iter().map(CIntentParserAlternative::from).collect()); CIntentParserAlternativeArray { intent_parser_alternatives, size } }
}
impl Drop for CIntentParserAlternativeArray { fn drop(&mut self) { unsafe { free_array(self.intent_parser_alternatives, self.size) } } }
impl From<IntentParserResult> for CIntentParserResult {
    fn from(r: IntentParserResult) -> Self {
        CIntentParserResult { input: text(r.input), intent: boxed(r.intent.into()), slots: boxed(r.slots.into()), alternatives: boxed(r.alternatives.into()) }
    }
}
impl Drop for CIntentParserResult { fn drop(&mut self) { unsafe { free_text(self.input); free_box(self.intent); free_box(self.slots); free_box(self.alternatives) } } }
// handed over to C
unsafe impl Send for CIntentParserResult {}
