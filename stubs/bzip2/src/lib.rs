//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
#[derive(Clone, Copy, Debug, Default)] pub struct Compression(u32);
pub mod write {
  use std::io::{self, Write};
  pub struct BzEncoder<W: Write>(W); impl<W: Write> BzEncoder<W> { pub fn new(w: W, c: crate::Compression) -> Self { unimplemented!() } pub fn finish(self) -> io::Result<W> { unimplemented!() } }
  impl<W: Write> Write for BzEncoder<W> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { unimplemented!() } fn flush(&mut self) -> io::Result<()> { unimplemented!() } }
  pub struct BzDecoder<W: Write>(W); impl<W: Write> BzDecoder<W> { pub fn new(w: W) -> Self { unimplemented!() } pub fn finish(&mut self) -> io::Result<W> { unimplemented!() } }
  impl<W: Write> Write for BzDecoder<W> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { unimplemented!() } fn flush(&mut self) -> io::Result<()> { unimplemented!() } }
}
