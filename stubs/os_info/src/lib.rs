//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub struct Info(()); pub fn get() -> Info { unimplemented!() }
#[derive(Debug, Clone, Copy)] pub enum Type { Linux } impl std::fmt::Display for Type { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[derive(Debug, Clone)] pub enum Version { Unknown } impl std::fmt::Display for Version { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl Info { pub fn os_type(&self) -> Type { unimplemented!() } pub fn version(&self) -> &Version { unimplemented!() } }
