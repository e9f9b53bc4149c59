//! Shared by the demonstrations: writes small trained engines into the scratch directory given as argument.
use std::path::PathBuf;
pub fn scratch() -> PathBuf { PathBuf::from(std::env::args().nth(1).expect("scratch directory")) }
pub fn engine_dir(name: &str, e: &crate::spec::Engine) -> PathBuf { let d = scratch().join(name); e.write(&d); d }
pub fn show<T: std::fmt::Debug>(what: &str, t: &T) { println!("{}: {:?}", what, t); }
pub fn expect(ok: bool, what: &str) { if !ok { println!("FAILED: {}", what); std::process::exit(1); } println!("ok: {}", what); }
