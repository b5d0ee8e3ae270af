//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
use std::{future::Future, pin::Pin, task::{Context, Poll}, time::Duration};
pub mod strategy { use std::time::Duration; #[derive(Debug, Clone)] pub struct ExponentialBackoff(()); impl ExponentialBackoff { pub fn from_millis(b: u64) -> Self { unimplemented!() } pub fn max_delay(self, d: Duration) -> Self { unimplemented!() } } impl Iterator for ExponentialBackoff { type Item = Duration; fn next(&mut self) -> Option<Duration> { unimplemented!() } } pub fn jitter(d: Duration) -> Duration { unimplemented!() } }
pub trait Action { type Future: Future<Output = Result<Self::Item, Self::Error>>; type Item; type Error; fn run(&mut self) -> Self::Future; }
impl<R, E, T: Future<Output = Result<R, E>>, F: FnMut() -> T> Action for F { type Item = R; type Error = E; type Future = T; fn run(&mut self) -> T { unimplemented!() } }
pub struct Retry<I, A>(I, A); impl<I: Iterator<Item = Duration>, A: Action> Retry<I, A> { pub fn spawn<T: IntoIterator<IntoIter = I, Item = Duration>>(s: T, a: A) -> Retry<I, A> { unimplemented!() } }
impl<I: Iterator<Item = Duration>, A: Action> Future for Retry<I, A> { type Output = Result<A::Item, A::Error>; fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> { unimplemented!() } }
