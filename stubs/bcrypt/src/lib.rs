pub const DEFAULT_COST: u32 = 12;
#[derive(Debug)] pub enum BcryptError { Io(std::io::Error), CostNotAllowed(u32), InvalidCost(String), InvalidHash(String) }
impl std::fmt::Display for BcryptError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for BcryptError {}
pub type BcryptResult<T> = Result<T, BcryptError>;
pub fn hash<P: AsRef<[u8]>>(_p: P, _cost: u32) -> BcryptResult<String> { unimplemented!() }
pub fn verify<P: AsRef<[u8]>>(_p: P, _hash: &str) -> BcryptResult<bool> { unimplemented!() }
