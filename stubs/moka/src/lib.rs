//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub mod sync { use std::marker::PhantomData; use std::time::Duration; use std::borrow::Borrow; use std::hash::Hash;
#[derive(Debug)] pub struct Cache<K, V>(PhantomData<(K, V)>); unsafe impl<K, V> Send for Cache<K, V> {} unsafe impl<K, V> Sync for Cache<K, V> {} impl<K, V> Clone for Cache<K, V> { fn clone(&self) -> Self { unimplemented!() } }
pub struct CacheBuilder<K, V>(PhantomData<(K, V)>);
impl<K, V> Cache<K, V> { pub fn new(n: u64) -> Self { unimplemented!() } pub fn builder() -> CacheBuilder<K, V> { unimplemented!() } pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { unimplemented!() } pub fn insert(&self, k: K, v: V) { unimplemented!() } pub fn invalidate<Q: ?Sized + Hash + Eq>(&self, k: &Q) where K: Borrow<Q> { unimplemented!() } pub fn remove<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V> where K: Borrow<Q> { unimplemented!() } }
impl<K, V> CacheBuilder<K, V> { pub fn thread_pool_enabled(self, b: bool) -> Self { unimplemented!() } pub fn max_capacity(self, n: u64) -> Self { unimplemented!() } pub fn time_to_live(self, d: Duration) -> Self { unimplemented!() } pub fn time_to_idle(self, d: Duration) -> Self { unimplemented!() } pub fn build(self) -> Cache<K, V> { unimplemented!() } } }
