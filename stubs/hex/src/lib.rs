pub fn encode<T: AsRef<[u8]>>(_d: T) -> String { unimplemented!() }
#[derive(Debug)] pub struct FromHexError;
pub fn decode<T: AsRef<[u8]>>(_d: T) -> Result<Vec<u8>, FromHexError> { unimplemented!() }
