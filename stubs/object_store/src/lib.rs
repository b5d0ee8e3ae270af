//! Signature-only stand-in (no behaviour).
#![allow(unused_variables)]
#[derive(Debug)] pub enum Error { Generic { store: &'static str, source: Box<dyn std::error::Error + Send + Sync> }, NotImplemented }
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
pub mod path { #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Path(()); impl Path { pub fn parse(s: impl AsRef<str>) -> Result<Self, crate::Error> { unimplemented!() } pub fn child<'a>(&self, c: impl Into<PathPart<'a>>) -> Self { unimplemented!() } }
 pub struct PathPart<'a>(&'a ()); impl<'a> From<&'a str> for PathPart<'a> { fn from(s: &'a str) -> Self { unimplemented!() } } impl From<String> for PathPart<'_> { fn from(s: String) -> Self { unimplemented!() } }
 impl From<&str> for Path { fn from(s: &str) -> Self { unimplemented!() } } impl From<String> for Path { fn from(s: String) -> Self { unimplemented!() } } impl AsRef<str> for Path { fn as_ref(&self) -> &str { unimplemented!() } }
 impl std::fmt::Display for Path { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } }
#[derive(Debug, Clone)] pub struct ObjectMeta { pub location: path::Path, pub last_modified: chrono::DateTime<chrono::Utc>, pub size: usize, pub e_tag: Option<String> }
#[async_trait::async_trait] pub trait ObjectStore: std::fmt::Display + Send + Sync + std::fmt::Debug + 'static { async fn put(&self, l: &path::Path, b: bytes::Bytes) -> Result<()>; async fn head(&self, l: &path::Path) -> Result<ObjectMeta>; }
pub type DynObjectStore = dyn ObjectStore;
macro_rules! b { ($m:ident $B:ident $S:ident $($f:ident)*) => { pub mod $m { #[derive(Debug, Clone, Default)] pub struct $B(()); #[derive(Debug)] pub struct $S(()); impl std::fmt::Display for $S { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
 #[async_trait::async_trait] impl crate::ObjectStore for $S { async fn put(&self, l: &crate::path::Path, b: bytes::Bytes) -> crate::Result<()> { unimplemented!() } async fn head(&self, l: &crate::path::Path) -> crate::Result<crate::ObjectMeta> { unimplemented!() } }
 impl $B { pub fn new() -> Self { unimplemented!() } pub fn build(self) -> crate::Result<$S> { unimplemented!() } $( pub fn $f(self, s: impl Into<String>) -> Self { unimplemented!() } )* pub fn with_use_emulator(self, b: bool) -> Self { unimplemented!() } pub fn with_allow_http(self, b: bool) -> Self { unimplemented!() } pub fn with_virtual_hosted_style_request(self, b: bool) -> Self { unimplemented!() } } } } }
b!(aws AmazonS3Builder AmazonS3 with_region with_bucket_name with_endpoint with_access_key_id with_secret_access_key with_token);
b!(gcp GoogleCloudStorageBuilder GoogleCloudStorage with_bucket_name with_service_account_path);
b!(azure MicrosoftAzureBuilder MicrosoftAzure with_account with_container_name with_access_key with_bearer_token_authorization);
