//! Signature-only stand-in for datafusion-proto 27 (no behaviour).
#![allow(unused_variables)]
pub mod protobuf {
    #[derive(Clone, PartialEq, prost::Message)] pub struct PhysicalExprNode { #[prost(string, optional, tag = "1")] pub expr_type: Option<String> }
    #[derive(Clone, PartialEq, prost::Message)] pub struct ScalarValue {}
    #[derive(Clone, PartialEq, prost::Message)] pub struct Schema {}
    #[derive(Debug)] pub struct Error(());
    impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    impl std::error::Error for Error {}
    impl TryFrom<&datafusion::scalar::ScalarValue> for ScalarValue { type Error = Error; fn try_from(s: &datafusion::scalar::ScalarValue) -> Result<Self, Error> { unimplemented!() } }
    impl TryFrom<&ScalarValue> for datafusion::scalar::ScalarValue { type Error = Error; fn try_from(s: &ScalarValue) -> Result<Self, Error> { unimplemented!() } }
    impl TryFrom<std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>> for PhysicalExprNode { type Error = datafusion::error::DataFusionError; fn try_from(s: std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>) -> Result<Self, Self::Error> { unimplemented!() } }
    impl TryFrom<&arrow_schema::Schema> for Schema { type Error = Error; fn try_from(s: &arrow_schema::Schema) -> Result<Self, Error> { unimplemented!() } }
    use datafusion::arrow::datatypes as arrow_schema;
}
pub mod physical_plan { pub mod from_proto { use datafusion::{error::Result, physical_expr::PhysicalExpr, execution::FunctionRegistry, arrow::datatypes::Schema}; pub fn parse_physical_expr(p: &crate::protobuf::PhysicalExprNode, r: &dyn FunctionRegistry, s: &Schema) -> Result<std::sync::Arc<dyn PhysicalExpr>> { unimplemented!() } } }
