//! Signature-only stand-in for heed 0.21 (no behaviour).
#![allow(unused_variables)]
use std::{borrow::Cow, marker::PhantomData, ops::{Deref, DerefMut, RangeBounds}, path::Path};
pub use byteorder;
pub type BoxedError = Box<dyn std::error::Error + Send + Sync + 'static>;
#[derive(Debug)] pub enum MdbError { KeyExist, NotFound, MapFull, Other(i32) }
#[derive(Debug)] pub enum Error { Io(std::io::Error), Mdb(MdbError), Encoding(BoxedError), Decoding(BoxedError), EnvAlreadyOpened }
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct EnvFlags(u32);
impl EnvFlags { pub const NO_SYNC: Self = Self(0x10000); pub const NO_META_SYNC: Self = Self(0x40000); pub const WRITE_MAP: Self = Self(0x80000); pub const MAP_ASYNC: Self = Self(0x100000); pub const NO_TLS: Self = Self(0x200000); pub const NO_LOCK: Self = Self(0x400000); pub const READ_ONLY: Self = Self(0x20000); pub const NO_READ_AHEAD: Self = Self(0x800000); pub const NO_MEM_INIT: Self = Self(0x1000000); pub const NO_SUB_DIR: Self = Self(0x4000); }
impl std::ops::BitOr for EnvFlags { type Output = Self; fn bitor(self, o: Self) -> Self { unimplemented!() } }
pub struct EnvOpenOptions(());
impl Default for EnvOpenOptions { fn default() -> Self { unimplemented!() } }
impl EnvOpenOptions {
 pub fn new() -> Self { unimplemented!() }
 pub fn map_size(&mut self, _s: usize) -> &mut Self { unimplemented!() }
 pub fn max_dbs(&mut self, _s: u32) -> &mut Self { unimplemented!() }
 pub fn max_readers(&mut self, _s: u32) -> &mut Self { unimplemented!() }
 pub unsafe fn flags(&mut self, _f: EnvFlags) -> &mut Self { unimplemented!() }
 pub unsafe fn open<P: AsRef<Path>>(&self, _p: P) -> Result<Env> { unimplemented!() }
}
#[derive(Clone)] pub struct Env(std::sync::Arc<()>);
pub struct EnvClosingEvent(());
impl EnvClosingEvent { pub fn wait(&self) { unimplemented!() } }
impl Env {
 pub fn write_txn(&self) -> Result<RwTxn<'_>> { unimplemented!() }
 pub fn read_txn(&self) -> Result<RoTxn<'_>> { unimplemented!() }
 pub fn create_database<KC: 'static, DC: 'static>(&self, _t: &mut RwTxn, _n: Option<&str>) -> Result<Database<KC, DC>> { unimplemented!() }
 pub fn open_database<KC: 'static, DC: 'static>(&self, _t: &RoTxn, _n: Option<&str>) -> Result<Option<Database<KC, DC>>> { unimplemented!() }
 pub fn force_sync(&self) -> Result<()> { unimplemented!() }
 pub fn prepare_for_closing(self) -> EnvClosingEvent { unimplemented!() }
 pub fn path(&self) -> &Path { unimplemented!() }
}
pub struct RoTxn<'e>(PhantomData<&'e ()>, *mut ());
unsafe impl Send for RoTxn<'_> {} unsafe impl Sync for RoTxn<'_> {}
pub struct RwTxn<'e>(RoTxn<'e>);
impl Drop for RoTxn<'_> { fn drop(&mut self) { unimplemented!() } }
impl<'e> RoTxn<'e> { pub fn commit(self) -> Result<()> { unimplemented!() } }
impl<'e> RwTxn<'e> { pub fn commit(self) -> Result<()> { unimplemented!() } pub fn abort(self) { unimplemented!() } }
impl<'e> Deref for RwTxn<'e> { type Target = RoTxn<'e>; fn deref(&self) -> &RoTxn<'e> { unimplemented!() } }
impl<'e> DerefMut for RwTxn<'e> { fn deref_mut(&mut self) -> &mut RoTxn<'e> { unimplemented!() } }
pub trait BytesEncode<'a> { type EItem: ?Sized + 'a; }
pub trait BytesDecode<'a> { type DItem: 'a; }
pub mod types {
 use super::*;
 pub enum Str {} pub enum Bytes {} pub enum Unit {} pub enum DecodeIgnore {}
 pub struct U64<O>(PhantomData<O>); pub struct U32<O>(PhantomData<O>); pub struct SerdeJson<T>(PhantomData<T>); pub struct SerdeBincode<T>(PhantomData<T>);
 impl<'a> BytesEncode<'a> for Str { type EItem = str; } impl<'a> BytesDecode<'a> for Str { type DItem = &'a str; }
 impl<'a> BytesEncode<'a> for Bytes { type EItem = [u8]; } impl<'a> BytesDecode<'a> for Bytes { type DItem = &'a [u8]; }
 impl<'a, O: 'a> BytesEncode<'a> for U64<O> { type EItem = u64; } impl<'a, O: 'a> BytesDecode<'a> for U64<O> { type DItem = u64; }
 impl<'a, O: 'a> BytesEncode<'a> for U32<O> { type EItem = u32; } impl<'a, O: 'a> BytesDecode<'a> for U32<O> { type DItem = u32; }
 impl<'a> BytesEncode<'a> for Unit { type EItem = (); } impl<'a> BytesDecode<'a> for Unit { type DItem = (); }
}
pub struct Database<KC, DC>(PhantomData<fn() -> (KC, DC)>);
impl<KC, DC> Clone for Database<KC, DC> { fn clone(&self) -> Self { unimplemented!() } }
impl<KC, DC> Copy for Database<KC, DC> {}
pub struct Iter<'t, KC, DC>(PhantomData<(&'t (), fn() -> (KC, DC))>);
impl<'t, KC: BytesDecode<'t>, DC: BytesDecode<'t>> Iterator for Iter<'t, KC, DC> { type Item = Result<(KC::DItem, DC::DItem)>; fn next(&mut self) -> Option<Self::Item> { unimplemented!() } }
impl<KC, DC> Database<KC, DC> {
 pub fn get<'a, 't>(&self, _t: &'t RoTxn, _k: &'a KC::EItem) -> Result<Option<DC::DItem>> where KC: BytesEncode<'a>, DC: BytesDecode<'t> { unimplemented!() }
 pub fn put<'a>(&self, _t: &mut RwTxn, _k: &'a KC::EItem, _v: &'a DC::EItem) -> Result<()> where KC: BytesEncode<'a>, DC: BytesEncode<'a> { unimplemented!() }
 pub fn delete<'a>(&self, _t: &mut RwTxn, _k: &'a KC::EItem) -> Result<bool> where KC: BytesEncode<'a> { unimplemented!() }
 pub fn delete_range<'a, 't, R>(&self, _t: &'t mut RwTxn, _r: &'a R) -> Result<usize> where KC: BytesEncode<'a> + BytesDecode<'t>, R: RangeBounds<KC::EItem> { unimplemented!() }
 pub fn range<'a, 't, R>(&self, _t: &'t RoTxn, _r: &'a R) -> Result<Iter<'t, KC, DC>> where KC: BytesEncode<'a>, R: RangeBounds<KC::EItem> { unimplemented!() }
 pub fn prefix_iter<'a, 't>(&self, _t: &'t RoTxn, _p: &'a KC::EItem) -> Result<Iter<'t, KC, DC>> where KC: BytesEncode<'a> { unimplemented!() }
 pub fn rev_prefix_iter<'a, 't>(&self, _t: &'t RoTxn, _p: &'a KC::EItem) -> Result<Iter<'t, KC, DC>> where KC: BytesEncode<'a> { unimplemented!() }
 pub fn iter<'t>(&self, _t: &'t RoTxn) -> Result<Iter<'t, KC, DC>> { unimplemented!() }
 pub fn rev_iter<'t>(&self, _t: &'t RoTxn) -> Result<Iter<'t, KC, DC>> { unimplemented!() }
 pub fn first<'t>(&self, _t: &'t RoTxn) -> Result<Option<(KC::DItem, DC::DItem)>> where KC: BytesDecode<'t>, DC: BytesDecode<'t> { unimplemented!() }
 pub fn last<'t>(&self, _t: &'t RoTxn) -> Result<Option<(KC::DItem, DC::DItem)>> where KC: BytesDecode<'t>, DC: BytesDecode<'t> { unimplemented!() }
 pub fn clear(&self, _t: &mut RwTxn) -> Result<()> { unimplemented!() }
 pub fn len(&self, _t: &RoTxn) -> Result<u64> { unimplemented!() }
 pub fn is_empty(&self, _t: &RoTxn) -> Result<bool> { unimplemented!() }
}
#[allow(unused)] fn _c() -> Cow<'static, str> { unimplemented!() }
