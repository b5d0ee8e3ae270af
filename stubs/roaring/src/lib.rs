//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
#[derive(Clone, Debug, PartialEq, Default)] pub struct RoaringBitmap(());
impl RoaringBitmap {
  pub fn new() -> Self { unimplemented!() }
  pub fn insert(&mut self, v: u32) -> bool { unimplemented!() }
  pub fn remove(&mut self, v: u32) -> bool { unimplemented!() }
  pub fn contains(&self, v: u32) -> bool { unimplemented!() }
  pub fn is_empty(&self) -> bool { unimplemented!() }
  pub fn len(&self) -> u64 { unimplemented!() }
  pub fn iter(&self) -> Iter<'_> { unimplemented!() }
  pub fn deserialize_from<R: std::io::Read>(r: R) -> std::io::Result<Self> { unimplemented!() }
  pub fn serialize_into<W: std::io::Write>(&self, w: W) -> std::io::Result<()> { unimplemented!() }
}
pub struct Iter<'a>(std::marker::PhantomData<&'a ()>); impl Iterator for Iter<'_> { type Item = u32; fn next(&mut self) -> Option<u32> { unimplemented!() } }
pub struct IntoIter(()); impl Iterator for IntoIter { type Item = u32; fn next(&mut self) -> Option<u32> { unimplemented!() } }
impl IntoIterator for RoaringBitmap { type Item = u32; type IntoIter = IntoIter; fn into_iter(self) -> IntoIter { unimplemented!() } }
impl<'a> IntoIterator for &'a RoaringBitmap { type Item = u32; type IntoIter = Iter<'a>; fn into_iter(self) -> Iter<'a> { unimplemented!() } }
macro_rules! op { ($t:ident $m:ident) => {
 impl std::ops::$t<RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: RoaringBitmap) -> RoaringBitmap { unimplemented!() } }
 impl std::ops::$t<&RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: &RoaringBitmap) -> RoaringBitmap { unimplemented!() } }
 impl std::ops::$t<&RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: &RoaringBitmap) -> RoaringBitmap { unimplemented!() } }
 impl std::ops::$t<RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: RoaringBitmap) -> RoaringBitmap { unimplemented!() } }
}}
op!(BitAnd bitand); op!(BitOr bitor); op!(BitXor bitxor); op!(Sub sub);
impl std::ops::BitOrAssign for RoaringBitmap { fn bitor_assign(&mut self, o: Self) { unimplemented!() } }
impl std::ops::BitOrAssign<&RoaringBitmap> for RoaringBitmap { fn bitor_assign(&mut self, o: &Self) { unimplemented!() } }
impl std::ops::BitAndAssign for RoaringBitmap { fn bitand_assign(&mut self, o: Self) { unimplemented!() } }
