//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub fn parse_std(s: impl AsRef<str>) -> Result<std::time::Duration, String> { unimplemented!() }
