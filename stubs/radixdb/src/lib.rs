//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub mod store {
  #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } impl std::error::Error for Error {}
  pub struct Blob(()); impl Blob { pub fn to_vec(&self) -> Vec<u8> { unimplemented!() } }
  impl std::ops::Deref for Blob { type Target = [u8]; fn deref(&self) -> &[u8] { unimplemented!() } }
  pub trait BlobStore: Clone { fn last_id(&self) -> Option<u64>; fn sync(&self) -> Result<(), Error>; fn needs_deep_detach(&self) -> bool { unimplemented!() } }
  #[derive(Debug, Clone)] pub struct PagedFileStore(std::sync::Arc<()>);
  impl PagedFileStore { pub fn new(f: std::fs::File, n: u64) -> Result<Self, Error> { unimplemented!() } pub fn last_id(&self) -> Option<u64> { unimplemented!() } }
  impl BlobStore for PagedFileStore { fn last_id(&self) -> Option<u64> { unimplemented!() } fn sync(&self) -> Result<(), Error> { unimplemented!() } }
}
pub mod node {
  use std::marker::PhantomData;
  pub struct Value<S>(PhantomData<S>); impl<S> Value<S> { pub fn load(&self, s: &S) -> Result<crate::store::Blob, crate::store::Error> { unimplemented!() } }
  pub struct IterKey(()); impl AsRef<[u8]> for IterKey { fn as_ref(&self) -> &[u8] { unimplemented!() } }
  impl std::ops::Deref for IterKey { type Target = [u8]; fn deref(&self) -> &[u8] { unimplemented!() } }
  pub struct KeyValueIter<S>(PhantomData<S>); impl<S> Iterator for KeyValueIter<S> { type Item = Result<(IterKey, Value<S>), crate::store::Error>; fn next(&mut self) -> Option<Self::Item> { unimplemented!() } }
}
#[derive(Debug)] pub struct RadixTree<S>(std::marker::PhantomData<S>);
impl<S> RadixTree<S> {
  pub fn try_load(s: S, id: Option<u64>) -> Result<Self, store::Error> { unimplemented!() }
  pub fn try_iter(&self) -> node::KeyValueIter<S> { unimplemented!() }
  pub fn try_insert(&mut self, k: impl AsRef<[u8]>, v: impl AsRef<[u8]>) -> Result<(), store::Error> { unimplemented!() }
  pub fn try_get(&self, k: &[u8]) -> Result<Option<node::Value<S>>, store::Error> { unimplemented!() }
  pub fn try_contains_key(&self, k: &[u8]) -> Result<bool, store::Error> { unimplemented!() }
  pub fn try_remove(&mut self, k: &[u8]) -> Result<Option<node::Value<S>>, store::Error> { unimplemented!() }
  pub fn try_remove_prefix(&mut self, k: &[u8]) -> Result<(), store::Error> { unimplemented!() }
  pub fn try_scan_prefix(&self, k: &[u8]) -> Result<node::KeyValueIter<S>, store::Error> { unimplemented!() }
  pub fn try_reattach(&mut self) -> Result<Option<u64>, store::Error> { unimplemented!() }
}
