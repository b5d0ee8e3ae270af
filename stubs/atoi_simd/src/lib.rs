#[derive(Debug, Clone, Copy)] pub enum AtoiSimdError<'a> { Empty, Size(usize, &'a [u8]), Overflow(&'a [u8]), Invalid(usize, &'a [u8]) }
impl std::fmt::Display for AtoiSimdError<'_> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for AtoiSimdError<'_> {}
pub trait Parse {} pub trait ParseNeg {}
impl Parse for u64 {} impl Parse for i64 {} impl Parse for u32 {} impl Parse for i32 {} impl ParseNeg for i64 {} impl ParseNeg for i32 {}
pub fn parse<T: Parse>(_s: &[u8]) -> Result<T, AtoiSimdError<'_>> { unimplemented!() }
pub fn parse_pos<T: Parse>(_s: &[u8]) -> Result<T, AtoiSimdError<'_>> { unimplemented!() }
pub fn parse_neg<T: ParseNeg>(_s: &[u8]) -> Result<T, AtoiSimdError<'_>> { unimplemented!() }
pub fn parse_until_invalid<T: Parse>(_s: &[u8]) -> Result<(T, usize), AtoiSimdError<'_>> { unimplemented!() }
