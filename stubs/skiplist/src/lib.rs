//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub mod ordered_skiplist { pub use crate::OrderedSkipList; }
pub mod skiplist {
  use std::marker::PhantomData;
  pub struct Iter<'a, T>(PhantomData<&'a T>); impl<'a, T> Iterator for Iter<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { unimplemented!() } }
  impl<'a, T> DoubleEndedIterator for Iter<'a, T> { fn next_back(&mut self) -> Option<&'a T> { unimplemented!() } }
  pub struct IntoIter<T>(PhantomData<T>); impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { unimplemented!() } }
}
pub struct OrderedSkipList<T>(std::marker::PhantomData<T>);
impl<T: PartialOrd> OrderedSkipList<T> { pub fn new() -> Self { unimplemented!() } }
impl<T> OrderedSkipList<T> {
  pub unsafe fn sort_by<F: 'static + Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
  pub fn clear(&mut self) { unimplemented!() }
  pub fn len(&self) -> usize { unimplemented!() }
  pub fn is_empty(&self) -> bool { unimplemented!() }
  pub fn insert(&mut self, v: T) { unimplemented!() }
  pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { unimplemented!() }
  pub fn iter(&self) -> skiplist::Iter<'_, T> { unimplemented!() }
  pub fn front(&self) -> Option<&T> { unimplemented!() }
  pub fn back(&self) -> Option<&T> { unimplemented!() }
}
impl<T> IntoIterator for OrderedSkipList<T> { type Item = T; type IntoIter = skiplist::IntoIter<T>; fn into_iter(self) -> skiplist::IntoIter<T> { unimplemented!() } }
impl<'a, T> IntoIterator for &'a OrderedSkipList<T> { type Item = &'a T; type IntoIter = skiplist::Iter<'a, T>; fn into_iter(self) -> skiplist::Iter<'a, T> { unimplemented!() } }
impl<T: std::fmt::Debug> std::fmt::Debug for OrderedSkipList<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<T: PartialEq> PartialEq for OrderedSkipList<T> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: PartialOrd> Default for OrderedSkipList<T> { fn default() -> Self { unimplemented!() } }
impl<T: PartialOrd> FromIterator<T> for OrderedSkipList<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { unimplemented!() } }
impl<T: Eq> Eq for OrderedSkipList<T> {}
