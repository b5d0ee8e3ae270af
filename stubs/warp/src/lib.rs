//! Signature-only stand-in for warp 0.3 (no behaviour).
#![allow(unused_variables, clippy::all)]
pub use http; pub use hyper; pub use bytes::Buf;
use std::future::Future; use std::marker::PhantomData; use std::convert::Infallible;
pub struct HNil; pub struct HCons<H, T>(pub H, pub T);
pub trait HList: Sized { type Tuple: Tuple; }
pub trait Tuple: Sized { type HList: HList; }
pub trait Combine<T: HList> { type Output: HList; }
impl HList for HNil { type Tuple = (); }
impl Tuple for () { type HList = HNil; }
impl<T: HList> Combine<T> for HNil { type Output = T; }
impl<H, T, U: HList> Combine<U> for HCons<H, T> where T: Combine<U>, HCons<H, <T as Combine<U>>::Output>: HList { type Output = HCons<H, <T as Combine<U>>::Output>; }
pub type CombinedTuples<T, U> = <<<T as Tuple>::HList as Combine<<U as Tuple>::HList>>::Output as HList>::Tuple;
pub trait Func<Args> { type Output; }
impl<Ff, Rr> Func<()> for Ff where Ff: Fn() -> Rr { type Output = Rr; }
impl<Ff, Rr> Func<Rejection> for Ff where Ff: Fn(Rejection) -> Rr { type Output = Rr; }
impl<A> Tuple for (A,) { type HList = HCons<A, HNil>; }
impl<A> HList for HCons<A, HNil> { type Tuple = (A,); }
impl<Ff, Rr, A> Func<(A,)> for Ff where Ff: Fn(A) -> Rr { type Output = Rr; }
impl<A,B> Tuple for (A,B,) { type HList = HCons<A, HCons<B, HNil>>; }
impl<A,B> HList for HCons<A, HCons<B, HNil>> { type Tuple = (A,B,); }
impl<Ff, Rr, A,B> Func<(A,B,)> for Ff where Ff: Fn(A,B) -> Rr { type Output = Rr; }
impl<A,B,C> Tuple for (A,B,C,) { type HList = HCons<A, HCons<B, HCons<C, HNil>>>; }
impl<A,B,C> HList for HCons<A, HCons<B, HCons<C, HNil>>> { type Tuple = (A,B,C,); }
impl<Ff, Rr, A,B,C> Func<(A,B,C,)> for Ff where Ff: Fn(A,B,C) -> Rr { type Output = Rr; }
impl<A,B,C,D> Tuple for (A,B,C,D,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HNil>>>>; }
impl<A,B,C,D> HList for HCons<A, HCons<B, HCons<C, HCons<D, HNil>>>> { type Tuple = (A,B,C,D,); }
impl<Ff, Rr, A,B,C,D> Func<(A,B,C,D,)> for Ff where Ff: Fn(A,B,C,D) -> Rr { type Output = Rr; }
impl<A,B,C,D,E> Tuple for (A,B,C,D,E,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HNil>>>>>; }
impl<A,B,C,D,E> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HNil>>>>> { type Tuple = (A,B,C,D,E,); }
impl<Ff, Rr, A,B,C,D,E> Func<(A,B,C,D,E,)> for Ff where Ff: Fn(A,B,C,D,E) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F> Tuple for (A,B,C,D,E,F,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HNil>>>>>>; }
impl<A,B,C,D,E,F> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HNil>>>>>> { type Tuple = (A,B,C,D,E,F,); }
impl<Ff, Rr, A,B,C,D,E,F> Func<(A,B,C,D,E,F,)> for Ff where Ff: Fn(A,B,C,D,E,F) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G> Tuple for (A,B,C,D,E,F,G,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HNil>>>>>>>; }
impl<A,B,C,D,E,F,G> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HNil>>>>>>> { type Tuple = (A,B,C,D,E,F,G,); }
impl<Ff, Rr, A,B,C,D,E,F,G> Func<(A,B,C,D,E,F,G,)> for Ff where Ff: Fn(A,B,C,D,E,F,G) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H> Tuple for (A,B,C,D,E,F,G,H,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HNil>>>>>>>>; }
impl<A,B,C,D,E,F,G,H> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HNil>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H> Func<(A,B,C,D,E,F,G,H,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H,I> Tuple for (A,B,C,D,E,F,G,H,I,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HNil>>>>>>>>>; }
impl<A,B,C,D,E,F,G,H,I> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HNil>>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,I,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H,I> Func<(A,B,C,D,E,F,G,H,I,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H,I) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H,I,J> Tuple for (A,B,C,D,E,F,G,H,I,J,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HNil>>>>>>>>>>; }
impl<A,B,C,D,E,F,G,H,I,J> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HNil>>>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,I,J,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H,I,J> Func<(A,B,C,D,E,F,G,H,I,J,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H,I,J) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H,I,J,K> Tuple for (A,B,C,D,E,F,G,H,I,J,K,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HNil>>>>>>>>>>>; }
impl<A,B,C,D,E,F,G,H,I,J,K> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HNil>>>>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,I,J,K,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H,I,J,K> Func<(A,B,C,D,E,F,G,H,I,J,K,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H,I,J,K) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H,I,J,K,L> Tuple for (A,B,C,D,E,F,G,H,I,J,K,L,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HNil>>>>>>>>>>>>; }
impl<A,B,C,D,E,F,G,H,I,J,K,L> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HNil>>>>>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,I,J,K,L,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H,I,J,K,L> Func<(A,B,C,D,E,F,G,H,I,J,K,L,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H,I,J,K,L) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H,I,J,K,L,M> Tuple for (A,B,C,D,E,F,G,H,I,J,K,L,M,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HCons<M, HNil>>>>>>>>>>>>>; }
impl<A,B,C,D,E,F,G,H,I,J,K,L,M> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HCons<M, HNil>>>>>>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,I,J,K,L,M,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H,I,J,K,L,M> Func<(A,B,C,D,E,F,G,H,I,J,K,L,M,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H,I,J,K,L,M) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H,I,J,K,L,M,N> Tuple for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HCons<M, HCons<N, HNil>>>>>>>>>>>>>>; }
impl<A,B,C,D,E,F,G,H,I,J,K,L,M,N> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HCons<M, HCons<N, HNil>>>>>>>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,I,J,K,L,M,N,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H,I,J,K,L,M,N> Func<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H,I,J,K,L,M,N) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H,I,J,K,L,M,N,O> Tuple for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HCons<M, HCons<N, HCons<O, HNil>>>>>>>>>>>>>>>; }
impl<A,B,C,D,E,F,G,H,I,J,K,L,M,N,O> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HCons<M, HCons<N, HCons<O, HNil>>>>>>>>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H,I,J,K,L,M,N,O> Func<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O) -> Rr { type Output = Rr; }
impl<A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P> Tuple for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,) { type HList = HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HCons<M, HCons<N, HCons<O, HCons<P, HNil>>>>>>>>>>>>>>>>; }
impl<A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P> HList for HCons<A, HCons<B, HCons<C, HCons<D, HCons<E, HCons<F, HCons<G, HCons<H, HCons<I, HCons<J, HCons<K, HCons<L, HCons<M, HCons<N, HCons<O, HCons<P, HNil>>>>>>>>>>>>>>>> { type Tuple = (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,); }
impl<Ff, Rr, A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P> Func<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,)> for Ff where Ff: Fn(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P) -> Rr { type Output = Rr; }

pub struct Rejection(());
impl std::fmt::Debug for Rejection { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl From<Infallible> for Rejection { fn from(_: Infallible) -> Self { unimplemented!() } }
impl Rejection { pub fn find<T: 'static>(&self) -> Option<&T> { unimplemented!() } pub fn is_not_found(&self) -> bool { unimplemented!() } }
pub trait IsReject: std::fmt::Debug + Send + Sync {}
impl IsReject for Rejection {} impl IsReject for Infallible {}
pub trait CombineRejection<E> { type One: From<Self> + From<E> + Into<Rejection> + IsReject where Self: Sized; }
impl CombineRejection<Rejection> for Rejection { type One = Rejection; }
impl CombineRejection<Infallible> for Rejection { type One = Rejection; }
impl CombineRejection<Rejection> for Infallible { type One = Rejection; }
impl CombineRejection<Infallible> for Infallible { type One = Rejection; }
pub trait Filter: Sized {
    type Extract: Tuple; type Error: IsReject;
    fn and<F>(self, other: F) -> And<Self, F> where F: Filter + Clone, <Self::Extract as Tuple>::HList: Combine<<F::Extract as Tuple>::HList>, F::Error: CombineRejection<Self::Error> { unimplemented!() }
    fn or<F>(self, other: F) -> Or<Self, F> where F: Filter<Error = Rejection> { unimplemented!() }
    fn map<F>(self, f: F) -> Map<Self, F> where F: Func<Self::Extract> + Clone { unimplemented!() }
    fn then<F>(self, f: F) -> Map<Self, F> where F: Func<Self::Extract> + Clone { unimplemented!() }
    fn and_then<F>(self, f: F) -> AndThen<Self, F> where F: Func<Self::Extract> + Clone, F::Output: TryFut + Send, <F::Output as TryFut>::Error: CombineRejection<Self::Error> { unimplemented!() }
    fn or_else<F>(self, f: F) -> OrElse<Self, F> where F: Func<Self::Error>, F::Output: TryFut<Ok = Self::Extract> + Send, <F::Output as TryFut>::Error: IsReject { unimplemented!() }
    fn recover<F>(self, f: F) -> Recover<Self, F> where F: Func<Rejection>, F::Output: TryFut + Send { unimplemented!() }
    fn unify<T>(self) -> Unify<Self, T> where Self: Filter<Extract = (Either<T, T>,)>, T: Tuple { unimplemented!() }
    fn untuple_one<T>(self) -> Unify<Self, T> where Self: Filter<Extract = (T,)>, T: Tuple { unimplemented!() }
    fn boxed(self) -> BoxedFilter<Self::Extract> where Self: Send + Sync + 'static { unimplemented!() }
    fn with<W: Wrap<Self>>(self, w: W) -> W::Wrapped { unimplemented!() }
}
pub trait Wrap<F> { type Wrapped: Filter; }
pub trait TryFut { type Ok; type Error: IsReject; }
impl<T, E: IsReject, F: Future<Output = Result<T, E>>> TryFut for F { type Ok = T; type Error = E; }
#[derive(Clone)] pub struct And<A, B>(A, B);
impl<A: Filter, B: Filter> Filter for And<A, B> where <A::Extract as Tuple>::HList: Combine<<B::Extract as Tuple>::HList>, B::Error: CombineRejection<A::Error> { type Extract = CombinedTuples<A::Extract, B::Extract>; type Error = <B::Error as CombineRejection<A::Error>>::One; }
#[derive(Clone)] pub struct Or<A, B>(A, B);
pub enum Either<T, U> { A(T), B(U) }
impl<A: Filter, B: Filter> Filter for Or<A, B> { type Extract = (Either<A::Extract, B::Extract>,); type Error = Rejection; }
#[derive(Clone)] pub struct Map<A, F>(A, F);
impl<A: Filter, F: Func<A::Extract>> Filter for Map<A, F> { type Extract = (F::Output,); type Error = A::Error; }
#[derive(Clone)] pub struct AndThen<A, F>(A, F);
impl<A: Filter, F: Func<A::Extract>> Filter for AndThen<A, F> where F::Output: TryFut, <F::Output as TryFut>::Error: CombineRejection<A::Error> { type Extract = (<F::Output as TryFut>::Ok,); type Error = <<F::Output as TryFut>::Error as CombineRejection<A::Error>>::One; }
#[derive(Clone)] pub struct OrElse<A, F>(A, F);
impl<A: Filter, F: Func<A::Error>> Filter for OrElse<A, F> where F::Output: TryFut<Ok = A::Extract> { type Extract = A::Extract; type Error = <F::Output as TryFut>::Error; }
#[derive(Clone)] pub struct Recover<A, F>(A, F);
impl<A: Filter, F: Func<Rejection>> Filter for Recover<A, F> where F::Output: TryFut { type Extract = (Either<A::Extract, (<F::Output as TryFut>::Ok,)>,); type Error = <F::Output as TryFut>::Error; }
pub struct Unify<A, T>(A, PhantomData<fn() -> T>);
impl<A: Clone, T> Clone for Unify<A, T> { fn clone(&self) -> Self { unimplemented!() } }
impl<A: Filter, T: Tuple> Filter for Unify<A, T> { type Extract = T; type Error = A::Error; }
pub struct BoxedFilter<T>(PhantomData<fn() -> T>);
impl<T> Clone for BoxedFilter<T> { fn clone(&self) -> Self { unimplemented!() } }
impl<T: Tuple> Filter for BoxedFilter<T> { type Extract = T; type Error = Rejection; }
pub struct Exact<T, E = Rejection>(PhantomData<fn() -> (T, E)>);
impl<T, E> Clone for Exact<T, E> { fn clone(&self) -> Self { unimplemented!() } }
impl<T, E> Copy for Exact<T, E> {}
impl<T: Tuple, E: IsReject> Filter for Exact<T, E> { type Extract = T; type Error = E; }
pub fn any() -> Exact<(), Infallible> { unimplemented!() }
macro_rules! methods { ($($m:ident)*) => { $( pub fn $m() -> Exact<()> { unimplemented!() } )* } }
methods!(get post put delete head options patch);
pub mod method { pub use crate::{get, post, put, delete, head, options, patch}; pub fn method() -> crate::Exact<(http::Method,), std::convert::Infallible> { unimplemented!() } }
pub mod path {
    use crate::*; use std::str::FromStr;
    pub fn path(_p: &'static str) -> Exact<()> { unimplemented!() }
    pub fn lit(_p: &'static str) -> Exact<()> { unimplemented!() }
    pub fn end() -> Exact<()> { unimplemented!() }
    pub fn param<T: FromStr + Send + 'static>() -> Exact<(T,)> { unimplemented!() }
    pub fn full() -> Exact<(FullPath,), Infallible> { unimplemented!() }
    pub fn tail() -> Exact<(Tail,), Infallible> { unimplemented!() }
    pub struct FullPath(()); impl FullPath { pub fn as_str(&self) -> &str { unimplemented!() } }
    pub struct Tail(()); impl Tail { pub fn as_str(&self) -> &str { unimplemented!() } }
}
pub use path::path;
#[macro_export]
macro_rules! path {
    ($first:tt $(/ $rest:tt)*) => {{ use $crate::Filter as _; $crate::__seg!($first) $(.and($crate::__seg!($rest)))* }};
}
#[macro_export]
macro_rules! __seg { (..) => { $crate::any() }; ($s:literal) => { $crate::path::lit($s) }; ($t:ty) => { $crate::path::param::<$t>() }; }
pub mod body {
    use crate::*;
    pub fn bytes() -> Exact<(bytes::Bytes,)> { unimplemented!() }
    pub fn json<T: serde::de::DeserializeOwned + Send>() -> Exact<(T,)> { unimplemented!() }
    pub fn content_length_limit(_l: u64) -> Exact<()> { unimplemented!() }
    pub fn form<T: serde::de::DeserializeOwned + Send>() -> Exact<(T,)> { unimplemented!() }
}
pub mod query {
    use crate::*;
    pub fn query<T: serde::de::DeserializeOwned + Send + 'static>() -> Exact<(T,)> { unimplemented!() }
    pub fn raw() -> Exact<(String,)> { unimplemented!() }
}
pub use query::query;
pub mod header {
    use crate::*; use std::str::FromStr;
    pub fn header<T: FromStr + Send + 'static>(_n: &'static str) -> Exact<(T,)> { unimplemented!() }
    pub fn optional<T: FromStr + Send + 'static>(_n: &'static str) -> Exact<(Option<T>,)> { unimplemented!() }
    pub fn exact(_n: &'static str, _v: &'static str) -> Exact<()> { unimplemented!() }
    pub fn headers_cloned() -> Exact<(http::HeaderMap,), Infallible> { unimplemented!() }
}
pub use header::header;
pub mod ext { use crate::*; pub fn optional<T: Clone + Send + Sync + 'static>() -> Exact<(Option<T>,), Infallible> { unimplemented!() } pub fn get<T: Clone + Send + Sync + 'static>() -> Exact<(T,)> { unimplemented!() } }
pub mod addr { use crate::*; pub fn remote() -> Exact<(Option<std::net::SocketAddr>,), Infallible> { unimplemented!() } }
pub mod reject {
    pub use crate::Rejection;
    pub trait Reject: std::fmt::Debug + Sized + Send + Sync + 'static {}
    pub fn custom<T: Reject>(_e: T) -> Rejection { unimplemented!() }
    pub fn not_found() -> Rejection { unimplemented!() }
    pub fn reject() -> Rejection { unimplemented!() }
    macro_rules! kinds { ($($k:ident)*) => { $( #[derive(Debug)] pub struct $k(()); impl std::fmt::Display for $k { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } impl std::error::Error for $k {} )* } }
    kinds!(MethodNotAllowed MissingHeader PayloadTooLarge InvalidHeader InvalidQuery LengthRequired UnsupportedMediaType MissingCookie);
    impl MissingHeader { pub fn name(&self) -> &str { unimplemented!() } } impl InvalidHeader { pub fn name(&self) -> &str { unimplemented!() } }
}
pub mod reply {
    use http::header::{HeaderName, HeaderValue}; use http::StatusCode;
    pub type Response = http::Response<hyper::Body>;
    pub trait Reply: Send { fn into_response(self) -> Response; }
    macro_rules! rp { ($($t:ty)*) => { $( impl Reply for $t { fn into_response(self) -> Response { unimplemented!() } } )* } }
    rp!(Response StatusCode String &'static str Vec<u8> Infallible &'static [u8]);
    use std::convert::Infallible;
    impl Reply for bytes::Bytes { fn into_response(self) -> Response { unimplemented!() } }
    impl Reply for () { fn into_response(self) -> Response { unimplemented!() } }
    impl<T: Reply, E: Reply> Reply for Result<T, E> { fn into_response(self) -> Response { unimplemented!() } }
    impl<T: Reply> Reply for (T,) { fn into_response(self) -> Response { unimplemented!() } }
    impl<T: Reply, U: Reply> Reply for crate::Either<T, U> { fn into_response(self) -> Response { unimplemented!() } }
    pub struct WithStatus<T>(T); pub struct WithHeader<T>(T); pub struct Json(());
    impl<T: Reply> Reply for WithStatus<T> { fn into_response(self) -> Response { unimplemented!() } }
    impl<T: Reply> Reply for WithHeader<T> { fn into_response(self) -> Response { unimplemented!() } }
    impl Reply for Json { fn into_response(self) -> Response { unimplemented!() } }
    impl<T: Reply + ?Sized> Reply for Box<T> where Box<T>: Send { fn into_response(self) -> Response { unimplemented!() } }
    pub fn with_status<T: Reply>(_r: T, _s: StatusCode) -> WithStatus<T> { unimplemented!() }
    pub fn with_header<T: Reply, K, V>(_r: T, _k: K, _v: V) -> WithHeader<T> where HeaderName: TryFrom<K>, HeaderValue: TryFrom<V> { unimplemented!() }
    pub fn json<T: serde::Serialize>(_v: &T) -> Json { unimplemented!() }
    pub fn reply() -> StatusCode { unimplemented!() }
    pub fn html<T>(_b: T) -> Json where hyper::Body: From<T> { unimplemented!() }
}
pub use reply::{reply, Reply};
pub struct Server<F>(F);
pub struct TlsServer<F>(F);
pub fn serve<F>(_f: F) -> Server<F> where F: Filter + Clone + Send + Sync + 'static, F::Extract: Reply { unimplemented!() }
impl<F> Server<F> {
    pub async fn run(self, _a: impl Into<std::net::SocketAddr>) { unimplemented!() }
    pub fn bind_with_graceful_shutdown(self, _a: impl Into<std::net::SocketAddr> + 'static, _s: impl Future<Output = ()> + Send + 'static) -> (std::net::SocketAddr, std::pin::Pin<Box<dyn Future<Output = ()> + Send>>) { unimplemented!() }
    pub fn try_bind_with_graceful_shutdown(self, _a: impl Into<std::net::SocketAddr> + 'static, _s: impl Future<Output = ()> + Send + 'static) -> Result<(std::net::SocketAddr, std::pin::Pin<Box<dyn Future<Output = ()> + Send>>), hyper::Error> { unimplemented!() }
    pub fn tls(self) -> TlsServer<F> { unimplemented!() }
}
impl<F> TlsServer<F> {
    pub fn key_path(self, _p: impl AsRef<std::path::Path>) -> Self { unimplemented!() }
    pub fn cert_path(self, _p: impl AsRef<std::path::Path>) -> Self { unimplemented!() }
    pub async fn run(self, _a: impl Into<std::net::SocketAddr>) { unimplemented!() }
    pub fn bind_with_graceful_shutdown(self, _a: impl Into<std::net::SocketAddr> + 'static, _s: impl Future<Output = ()> + Send + 'static) -> (std::net::SocketAddr, std::pin::Pin<Box<dyn Future<Output = ()> + Send>>) { unimplemented!() }
}
pub fn service<F>(_f: F) -> FilteredService<F> where F: Filter { unimplemented!() }
#[derive(Clone)] pub struct FilteredService<F>(F);
impl<F: Filter> FilteredService<F> { pub fn call(&mut self, _r: http::Request<hyper::Body>) -> std::pin::Pin<Box<dyn Future<Output = Result<reply::Response, Infallible>> + Send>> { unimplemented!() } }
impl<F: Filter> tower_service::Service<http::Request<hyper::Body>> for FilteredService<F> { type Response = reply::Response; type Error = Infallible; type Future = std::pin::Pin<Box<dyn Future<Output = Result<reply::Response, Infallible>> + Send>>; fn poll_ready(&mut self, _c: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Infallible>> { unimplemented!() } fn call(&mut self, _r: http::Request<hyper::Body>) -> Self::Future { unimplemented!() } }
