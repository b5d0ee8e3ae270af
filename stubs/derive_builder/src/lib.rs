pub use derive_builder_stub::Builder;
#[derive(Debug, Clone)] pub struct UninitializedFieldError(&'static str);
impl From<&'static str> for UninitializedFieldError { fn from(s: &'static str) -> Self { Self(s) } }
impl UninitializedFieldError { pub fn field_name(&self) -> &'static str { self.0 } }
