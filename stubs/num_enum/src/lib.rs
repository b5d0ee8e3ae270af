pub use num_enum_derive_stub::{IntoPrimitive, TryFromPrimitive};
#[derive(Debug)] pub struct TryFromPrimitiveError<E> { pub number: u64, p: std::marker::PhantomData<E> }
impl<E> TryFromPrimitiveError<E> { pub fn mk(n: u64) -> Self { Self { number: n, p: std::marker::PhantomData } } }
impl<E> std::fmt::Display for TryFromPrimitiveError<E> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<E: std::fmt::Debug> std::error::Error for TryFromPrimitiveError<E> {}
