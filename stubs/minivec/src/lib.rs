use std::ops::{Deref, DerefMut};
pub struct MiniVec<T> { v: std::ptr::NonNull<u8>, p: std::marker::PhantomData<T> }
unsafe impl<T: Send> Send for MiniVec<T> {}
unsafe impl<T: Sync> Sync for MiniVec<T> {}
impl<T> MiniVec<T> {
 pub fn new() -> Self { unimplemented!() }
 pub fn with_capacity(_n: usize) -> Self { unimplemented!() }
 pub fn push(&mut self, _t: T) { unimplemented!() }
 pub fn pop(&mut self) -> Option<T> { unimplemented!() }
 pub fn clear(&mut self) { unimplemented!() }
 pub fn reserve(&mut self, _n: usize) { unimplemented!() }
 pub fn len(&self) -> usize { unimplemented!() }
 pub fn is_empty(&self) -> bool { unimplemented!() }
 pub fn capacity(&self) -> usize { unimplemented!() }
 pub fn as_slice(&self) -> &[T] { unimplemented!() }
 pub fn extend_from_slice(&mut self, _e: &[T]) where T: Clone { unimplemented!() }
 pub fn truncate(&mut self, _n: usize) { unimplemented!() }
}
impl<T> Drop for MiniVec<T> { fn drop(&mut self) { unimplemented!() } }
impl<T> Default for MiniVec<T> { fn default() -> Self { unimplemented!() } }
impl<T> Deref for MiniVec<T> { type Target = [T]; fn deref(&self) -> &[T] { unimplemented!() } }
impl<T> DerefMut for MiniVec<T> { fn deref_mut(&mut self) -> &mut [T] { unimplemented!() } }
impl<T: Clone> Clone for MiniVec<T> { fn clone(&self) -> Self { unimplemented!() } }
impl<T: std::fmt::Debug> std::fmt::Debug for MiniVec<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<T: std::hash::Hash> std::hash::Hash for MiniVec<T> { fn hash<H: std::hash::Hasher>(&self, _h: &mut H) { unimplemented!() } }
impl<T: PartialEq> PartialEq for MiniVec<T> { fn eq(&self, _o: &Self) -> bool { unimplemented!() } }
impl<T: Eq> Eq for MiniVec<T> {}
impl<T: PartialOrd> PartialOrd for MiniVec<T> { fn partial_cmp(&self, _o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }
impl<T: Ord> Ord for MiniVec<T> { fn cmp(&self, _o: &Self) -> std::cmp::Ordering { unimplemented!() } }
impl<T> AsRef<[T]> for MiniVec<T> { fn as_ref(&self) -> &[T] { unimplemented!() } }
impl<T> AsMut<[T]> for MiniVec<T> { fn as_mut(&mut self) -> &mut [T] { unimplemented!() } }
impl<T> std::borrow::Borrow<[T]> for MiniVec<T> { fn borrow(&self) -> &[T] { unimplemented!() } }
impl<T: Clone> From<&[T]> for MiniVec<T> { fn from(_s: &[T]) -> Self { unimplemented!() } }
impl From<&str> for MiniVec<u8> { fn from(_s: &str) -> Self { unimplemented!() } }
impl<T: Clone, const N: usize> From<&[T; N]> for MiniVec<T> { fn from(_s: &[T; N]) -> Self { unimplemented!() } }
impl<T, const N: usize> From<[T; N]> for MiniVec<T> { fn from(_s: [T; N]) -> Self { unimplemented!() } }
impl<T> FromIterator<T> for MiniVec<T> { fn from_iter<I: IntoIterator<Item = T>>(_i: I) -> Self { unimplemented!() } }
impl<T> Extend<T> for MiniVec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, _i: I) { unimplemented!() } }
impl<T> IntoIterator for MiniVec<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { unimplemented!() } }
impl<'a, T> IntoIterator for &'a MiniVec<T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { unimplemented!() } }
impl<T: serde::Serialize> serde::Serialize for MiniVec<T> { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de, T: serde::Deserialize<'de>> serde::Deserialize<'de> for MiniVec<T> { fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() } }
#[macro_export]
macro_rules! mini_vec { () => { $crate::MiniVec::new() }; ($e:expr; $n:expr) => { { let _ = ($e, $n); $crate::MiniVec::new() } }; ($($x:expr),+ $(,)?) => { $crate::MiniVec::from([$($x),+]) }; }
