//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub fn home_dir() -> Option<std::path::PathBuf> { unimplemented!() }
