//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub const DEFAULT_COMPRESSION_LEVEL: usize = 8;
pub mod errors { #[derive(Debug, Clone)] pub struct PcoError; impl std::fmt::Display for PcoError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } impl std::error::Error for PcoError {} pub type PcoResult<T> = Result<T, PcoError>; }
pub mod data_types { pub trait Number: Copy {} impl Number for u32 {} impl Number for u64 {} impl Number for i32 {} impl Number for i64 {} impl Number for f32 {} impl Number for f64 {} }
pub mod standalone {
  use crate::{errors::PcoResult, data_types::Number};
  pub fn simpler_compress<T: Number>(nums: &[T], level: usize) -> PcoResult<Vec<u8>> { unimplemented!() }
  pub fn simple_decompress<T: Number>(src: &[u8]) -> PcoResult<Vec<T>> { unimplemented!() }
}
