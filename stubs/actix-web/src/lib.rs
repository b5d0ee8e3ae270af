pub mod x {}
