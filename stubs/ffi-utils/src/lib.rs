//! Stand-in for the ffi-utils crate. Every object handed out is registered, so that a leak, a double
//! destruction or a destruction by the wrong function is seen instead of being undefined behaviour.
use failure::{format_err, Error};
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};
use std::sync::Mutex;
use std::thread::ThreadId;

#[doc(hidden)]
pub use libc as mc_libc;
type Result<T> = std::result::Result<T, Error>;

#[repr(C)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum SNIPS_RESULT { SNIPS_RESULT_OK = 0, SNIPS_RESULT_KO = 1 }

#[repr(C)]
#[derive(Debug)]
pub struct CStringArray { pub data: *const *const libc::c_char, pub size: libc::c_int }

// ---------------------------------------------------------------- registry
pub mod mc {
    use super::*;
    static LIVE: Mutex<BTreeMap<usize, (&'static str, ThreadId)>> = Mutex::new(BTreeMap::new());
    static BAD: Mutex<Vec<String>> = Mutex::new(Vec::new());
    pub fn live() -> Vec<(usize, &'static str)> { LIVE.lock().unwrap().iter().map(|(p, t)| (*p, t.0)).collect() }
    /// objects created by the calling thread
    pub fn mine() -> Vec<(usize, &'static str)> {
        let me = std::thread::current().id();
        LIVE.lock().unwrap().iter().filter(|(_, t)| t.1 == me).map(|(p, t)| (*p, t.0)).collect()
    }
    pub fn is_live(p: usize) -> Option<&'static str> { LIVE.lock().unwrap().get(&p).map(|x| x.0) }
    pub fn take_bad() -> Vec<String> { std::mem::replace(&mut *BAD.lock().unwrap(), vec![]) }
    pub fn bad(s: String) { BAD.lock().unwrap().push(s) }
    pub fn add(p: usize, t: &'static str) {
        if let Some((o, _)) = LIVE.lock().unwrap().insert(p, (t, std::thread::current().id())) { bad(format!("{} registered twice (was {})", t, o)); }
    }
    pub fn remove(p: usize, t: &'static str) -> bool {
        let mut l = LIVE.lock().unwrap();
        match l.get(&p).map(|x| x.0) {
            Some(x) if x == t => { l.remove(&p); true }
            Some(x) => { bad(format!("{} destroyed as {}", x, t)); false }
            None => { bad(format!("{} destroyed that is not alive", t)); false }
        }
    }
}
/// number of live objects whose type name contains `what` (every one for null), for other languages
#[no_mangle]
pub extern "C" fn mc_live_objects(what: *const libc::c_char) -> libc::c_int {
    let w = if what.is_null() { "" } else { unsafe { CStr::from_ptr(what) }.to_str().unwrap() };
    mc::live().iter().filter(|x| x.1.contains(w)).count() as libc::c_int
}
#[no_mangle]
pub extern "C" fn mc_bad_destructions() -> libc::c_int { mc::take_bad().len() as libc::c_int }

// ---------------------------------------------------------------- pointers
fn null() -> Error { format_err!("could not borrow, unexpected null pointer") }
pub trait RawPointerConverter<T>: Sized {
    fn into_raw_pointer(self) -> *const T;
    fn into_raw_pointer_mut(self) -> *mut T { self.into_raw_pointer() as *mut T }
    unsafe fn from_raw_pointer(p: *const T) -> Result<Self>;
    unsafe fn from_raw_pointer_mut(p: *mut T) -> Result<Self> { Self::from_raw_pointer(p as *const T) }
    unsafe fn drop_raw_pointer(p: *const T) -> Result<()> { Self::from_raw_pointer(p).map(|_| ()) }
}
impl<T> RawPointerConverter<T> for T {
    fn into_raw_pointer(self) -> *const T {
        let p = Box::into_raw(Box::new(self)) as *const T;
        mc::add(p as usize, std::any::type_name::<T>());
        p
    }
    unsafe fn from_raw_pointer(p: *const T) -> Result<T> {
        if p.is_null() { return Err(null()); }
        if !mc::remove(p as usize, std::any::type_name::<T>()) { return Err(format_err!("not a live object")); }
        Ok(*Box::from_raw(p as *mut T))
    }
}
impl RawPointerConverter<libc::c_char> for CString {
    fn into_raw_pointer(self) -> *const libc::c_char {
        let p = self.into_raw() as *const libc::c_char;
        mc::add(p as usize, "string");
        p
    }
    unsafe fn from_raw_pointer(p: *const libc::c_char) -> Result<CString> {
        if p.is_null() { return Err(null()); }
        if !mc::remove(p as usize, "string") { return Err(format_err!("not a live object")); }
        Ok(CString::from_raw(p as *mut libc::c_char))
    }
}
pub trait RawBorrow<T> { unsafe fn raw_borrow<'a>(p: *const T) -> Result<&'a Self>; }
impl<T> RawBorrow<T> for T {
    unsafe fn raw_borrow<'a>(p: *const T) -> Result<&'a T> {
        if p.is_null() { return Err(null()); }
        let t = std::any::type_name::<T>();
        if mc::is_live(p as usize).map(|x| x != t).unwrap_or(t.contains("Engine")) {
            mc::bad(format!("{} used that is not alive", t));
            return Err(format_err!("not a live object"));
        }
        Ok(&*p)
    }
}
impl RawBorrow<libc::c_char> for CStr {
    unsafe fn raw_borrow<'a>(p: *const libc::c_char) -> Result<&'a CStr> { if p.is_null() { Err(null()) } else { Ok(CStr::from_ptr(p)) } }
}
pub fn point_to_string(pointer: *mut *const libc::c_char, string: String) -> Result<()> {
    unsafe { *pointer = CString::new(string)?.into_raw_pointer() };
    Ok(())
}
pub fn mc_pretty(e: &Error) -> String {
    let mut s = String::new();
    for (i, c) in e.iter_chain().enumerate() { if i > 0 { s.push_str(": caused by: "); } s.push_str(&c.to_string()); }
    s
}
#[macro_export]
macro_rules! create_rust_string_from {
    ($pointer:expr) => {{ unsafe { <::std::ffi::CStr as $crate::RawBorrow<$crate::mc_libc::c_char>>::raw_borrow($pointer) }?.to_str()?.to_string() }};
}
#[macro_export]
macro_rules! create_optional_rust_string_from {
    ($pointer:expr) => {{ if $pointer.is_null() { None } else { Some($crate::create_rust_string_from!($pointer)) } }};
}
#[macro_export]
macro_rules! wrap {
    ($e:expr) => {
        match $e {
            Ok(_) => $crate::SNIPS_RESULT::SNIPS_RESULT_OK,
            Err(e) => {
                LAST_ERROR.with(|p| *p.borrow_mut() = Some($crate::mc_pretty(&e.into())));
                $crate::SNIPS_RESULT::SNIPS_RESULT_KO
            }
        }
    };
}
#[macro_export]
macro_rules! generate_error_handling {
    ($f:ident) => {
        thread_local! { pub static LAST_ERROR: ::std::cell::RefCell<Option<String>> = ::std::cell::RefCell::new(None); }
        #[no_mangle]
        pub extern "C" fn $f(error: *mut *const $crate::mc_libc::c_char) -> $crate::SNIPS_RESULT {
            wrap!($crate::point_to_string(error, LAST_ERROR.with(|m| m.borrow().clone()).unwrap_or_else(|| "No error message".to_string())))
        }
    };
}
