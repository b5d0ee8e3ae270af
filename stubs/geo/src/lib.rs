//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
macro_rules! g { ($($n:ident)*) => { $( #[derive(Debug, Clone, PartialEq)] pub struct $n(()); )* #[derive(Debug, Clone, PartialEq)] pub enum Geometry { $($n($n)),* } } }
g!(Point Line LineString Polygon MultiPoint MultiLineString MultiPolygon GeometryCollection Rect Triangle);
pub trait EuclideanDistance<T, Rhs = Self> { fn euclidean_distance(&self, r: &Rhs) -> T; }
impl<A, B> EuclideanDistance<f64, B> for A { fn euclidean_distance(&self, r: &B) -> f64 { unimplemented!() } }
pub trait Area<T> { fn unsigned_area(&self) -> T; fn signed_area(&self) -> T; } impl Area<f64> for Geometry { fn unsigned_area(&self) -> f64 { unimplemented!() } fn signed_area(&self) -> f64 { unimplemented!() } }
pub trait Contains<R = Self> { fn contains(&self, r: &R) -> bool; } impl Contains for Geometry { fn contains(&self, r: &Self) -> bool { unimplemented!() } }
pub trait Intersects<R = Self> { fn intersects(&self, r: &R) -> bool; } impl Intersects for Geometry { fn intersects(&self, r: &Self) -> bool { unimplemented!() } }
pub struct IntersectionMatrix(()); impl IntersectionMatrix { pub fn is_equal_topo(&self) -> bool { unimplemented!() } pub fn is_disjoint(&self) -> bool { unimplemented!() } pub fn is_intersects(&self) -> bool { unimplemented!() } pub fn is_within(&self) -> bool { unimplemented!() } pub fn is_contains(&self) -> bool { unimplemented!() } }
pub trait Relate<F, T> { fn relate(&self, o: &T) -> IntersectionMatrix; } impl Relate<f64, Geometry> for Geometry { fn relate(&self, o: &Geometry) -> IntersectionMatrix { unimplemented!() } }
