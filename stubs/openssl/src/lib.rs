pub mod error {
 #[derive(Debug, Clone)] pub struct ErrorStack(());
 impl std::fmt::Display for ErrorStack { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
 impl std::error::Error for ErrorStack {}
}
pub mod pkey { pub enum Private {} pub enum Public {} }
pub mod rsa {
 use crate::{error::ErrorStack, pkey::*};
 #[derive(Clone, Copy, PartialEq, Eq)] pub struct Padding(i32);
 impl Padding { pub const NONE: Padding = Padding(3); pub const PKCS1: Padding = Padding(1); pub const PKCS1_OAEP: Padding = Padding(4); }
 pub struct Rsa<T>(std::marker::PhantomData<T>);
 impl<T> Rsa<T> {
  pub fn public_encrypt(&self, _f: &[u8], _t: &mut [u8], _p: Padding) -> Result<usize, ErrorStack> { unimplemented!() }
  pub fn public_decrypt(&self, _f: &[u8], _t: &mut [u8], _p: Padding) -> Result<usize, ErrorStack> { unimplemented!() }
  pub fn size(&self) -> u32 { unimplemented!() }
  pub fn public_key_to_pem(&self) -> Result<Vec<u8>, ErrorStack> { unimplemented!() }
  pub fn check_key(&self) -> Result<bool, ErrorStack> { unimplemented!() }
 }
 impl Rsa<Private> {
  pub fn generate(_b: u32) -> Result<Rsa<Private>, ErrorStack> { unimplemented!() }
  pub fn private_key_from_pem(_p: &[u8]) -> Result<Rsa<Private>, ErrorStack> { unimplemented!() }
  pub fn private_key_from_pem_passphrase(_p: &[u8], _s: &[u8]) -> Result<Rsa<Private>, ErrorStack> { unimplemented!() }
  pub fn private_decrypt(&self, _f: &[u8], _t: &mut [u8], _p: Padding) -> Result<usize, ErrorStack> { unimplemented!() }
  pub fn private_encrypt(&self, _f: &[u8], _t: &mut [u8], _p: Padding) -> Result<usize, ErrorStack> { unimplemented!() }
  pub fn private_key_to_pem(&self) -> Result<Vec<u8>, ErrorStack> { unimplemented!() }
 }
 impl Rsa<Public> { pub fn public_key_from_pem(_p: &[u8]) -> Result<Rsa<Public>, ErrorStack> { unimplemented!() } }
}
