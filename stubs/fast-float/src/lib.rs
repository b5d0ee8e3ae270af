#[derive(Debug, Clone, Copy)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
pub trait FastFloat: Sized {} impl FastFloat for f64 {} impl FastFloat for f32 {}
pub fn parse<T: FastFloat, S: AsRef<[u8]>>(_s: S) -> Result<T, Error> { unimplemented!() }
