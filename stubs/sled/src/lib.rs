//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
