//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub mod error { #[derive(Debug)] pub struct GeozeroError; impl std::fmt::Display for GeozeroError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } impl std::error::Error for GeozeroError {} pub type Result<T> = std::result::Result<T, GeozeroError>; }
pub mod wkt { pub struct WktStr<'a>(pub &'a str); } pub mod wkb { pub struct Wkb(pub Vec<u8>); }
#[derive(Clone, Copy, Debug, Default)] pub struct CoordDimensions(()); impl CoordDimensions { pub const fn xy() -> Self { CoordDimensions(()) } }
pub trait ToGeo { fn to_geo(&self) -> error::Result<geo::Geometry>; } impl ToGeo for wkt::WktStr<'_> { fn to_geo(&self) -> error::Result<geo::Geometry> { unimplemented!() } }
pub trait ToWkb { fn to_wkb(&self, d: CoordDimensions) -> error::Result<Vec<u8>>; } impl ToWkb for wkt::WktStr<'_> { fn to_wkb(&self, d: CoordDimensions) -> error::Result<Vec<u8>> { unimplemented!() } }
pub trait ToWkt { fn to_wkt(&self) -> error::Result<String>; } impl ToWkt for wkb::Wkb { fn to_wkt(&self) -> error::Result<String> { unimplemented!() } }
