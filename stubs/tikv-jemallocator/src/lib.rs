//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
pub struct Jemalloc; unsafe impl std::alloc::GlobalAlloc for Jemalloc { unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { unimplemented!() } unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unimplemented!() } }
