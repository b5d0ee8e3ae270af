//! Signature-only stand-in for the cnosdb fork of datafusion 27 (no behaviour).
#![allow(unused_variables, dead_code, clippy::all)]
pub use arrow;
macro_rules! disp { ($($t:ty),* $(,)?) => { $( impl std::fmt::Display for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } )* } }
macro_rules! dbg_ { ($($t:ty),* $(,)?) => { $( impl std::fmt::Debug for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } } )* } }
pub mod parquet { pub mod data_type { pub trait AsBytes { fn as_bytes(&self) -> &[u8]; } impl AsBytes for u32 { fn as_bytes(&self) -> &[u8] { unimplemented!() } } impl AsBytes for [u8] { fn as_bytes(&self) -> &[u8] { unimplemented!() } } impl AsBytes for str { fn as_bytes(&self) -> &[u8] { unimplemented!() } } impl<'a> AsBytes for &'a str { fn as_bytes(&self) -> &[u8] { unimplemented!() } } impl AsBytes for Vec<u8> { fn as_bytes(&self) -> &[u8] { unimplemented!() } } impl AsBytes for i64 { fn as_bytes(&self) -> &[u8] { unimplemented!() } } impl AsBytes for u64 { fn as_bytes(&self) -> &[u8] { unimplemented!() } } impl AsBytes for f64 { fn as_bytes(&self) -> &[u8] { unimplemented!() } } impl AsBytes for bool { fn as_bytes(&self) -> &[u8] { unimplemented!() } } } }
pub mod error {
    use arrow::error::ArrowError;
    pub type GenericError = Box<dyn std::error::Error + Send + Sync>;
    pub type Result<T, E = DataFusionError> = std::result::Result<T, E>;
    #[derive(Debug)] pub enum SchemaError { FieldNotFound, DuplicateUnqualifiedField { name: String } }
    #[derive(Debug)]
    pub enum DataFusionError {
        ArrowError(ArrowError), ObjectStore(GenericError), IoError(std::io::Error), SQL(String), NotImplemented(String), Internal(String), Plan(String),
        SchemaError(SchemaError), Execution(String), ResourcesExhausted(String), External(GenericError), Context(String, Box<DataFusionError>), Substrait(String),
    }
    impl DataFusionError { pub fn context(self, d: impl Into<String>) -> Self { unimplemented!() } pub fn find_root(&self) -> &Self { unimplemented!() } }
    disp!(DataFusionError);
    impl std::error::Error for DataFusionError {}
    impl From<std::io::Error> for DataFusionError { fn from(e: std::io::Error) -> Self { unimplemented!() } }
    impl From<ArrowError> for DataFusionError { fn from(e: ArrowError) -> Self { unimplemented!() } }
    impl From<DataFusionError> for ArrowError { fn from(e: DataFusionError) -> Self { unimplemented!() } }
    impl From<GenericError> for DataFusionError { fn from(e: GenericError) -> Self { unimplemented!() } }
}
pub mod scalar {
    use arrow::array::ArrayRef; use arrow::datatypes::{DataType, Field, Fields}; use std::sync::Arc; use crate::error::{DataFusionError, Result};
    pub enum ScalarValue {
        Null, Boolean(Option<bool>), Float32(Option<f32>), Float64(Option<f64>), Decimal128(Option<i128>, u8, i8), Int8(Option<i8>), Int16(Option<i16>), Int32(Option<i32>), Int64(Option<i64>),
        UInt8(Option<u8>), UInt16(Option<u16>), UInt32(Option<u32>), UInt64(Option<u64>), Utf8(Option<String>), LargeUtf8(Option<String>), Binary(Option<Vec<u8>>), FixedSizeBinary(i32, Option<Vec<u8>>), LargeBinary(Option<Vec<u8>>),
        List(Option<Vec<ScalarValue>>, Arc<Field>), Date32(Option<i32>), Date64(Option<i64>), Time32Second(Option<i32>), Time32Millisecond(Option<i32>), Time64Microsecond(Option<i64>), Time64Nanosecond(Option<i64>),
        TimestampSecond(Option<i64>, Option<Arc<str>>), TimestampMillisecond(Option<i64>, Option<Arc<str>>), TimestampMicrosecond(Option<i64>, Option<Arc<str>>), TimestampNanosecond(Option<i64>, Option<Arc<str>>),
        IntervalYearMonth(Option<i32>), IntervalDayTime(Option<i64>), IntervalMonthDayNano(Option<i128>),
        Struct(Option<Vec<ScalarValue>>, Fields), Dictionary(Box<DataType>, Box<ScalarValue>),
    }
    impl Clone for ScalarValue { fn clone(&self) -> Self { unimplemented!() } }
    impl PartialEq for ScalarValue { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl Eq for ScalarValue {}
    impl PartialOrd for ScalarValue { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }
    impl std::hash::Hash for ScalarValue { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
    dbg_!(ScalarValue); disp!(ScalarValue);
    impl ScalarValue {
        pub fn get_datatype(&self) -> DataType { unimplemented!() } pub fn is_null(&self) -> bool { unimplemented!() } pub fn to_array(&self) -> ArrayRef { unimplemented!() } pub fn to_array_of_size(&self, n: usize) -> ArrayRef { unimplemented!() }
        pub fn try_from_array(a: &dyn arrow::array::Array, i: usize) -> Result<Self> { unimplemented!() } pub fn try_from_string(v: String, t: &DataType) -> Result<Self> { unimplemented!() }
        pub fn iter_to_array(s: impl IntoIterator<Item = ScalarValue>) -> Result<ArrayRef> { unimplemented!() } pub fn size(&self) -> usize { unimplemented!() } pub fn eq_array(&self, a: &ArrayRef, i: usize) -> bool { unimplemented!() }
        pub fn add<T: std::borrow::Borrow<ScalarValue>>(&self, o: T) -> Result<ScalarValue> { unimplemented!() } pub fn sub<T: std::borrow::Borrow<ScalarValue>>(&self, o: T) -> Result<ScalarValue> { unimplemented!() }
        pub fn new_list(v: Option<Vec<Self>>, t: DataType) -> Self { unimplemented!() } pub fn new_primitive<T: arrow::datatypes::ArrowPrimitiveType>(a: Option<T::Native>, d: &DataType) -> Result<Self> { unimplemented!() }
        pub fn new_interval_mdn(m: i32, d: i32, n: i64) -> Self { unimplemented!() }
    }
    macro_rules! fr { ($($t:ty)*) => { $( impl From<$t> for ScalarValue { fn from(v: $t) -> Self { unimplemented!() } } impl From<Option<$t>> for ScalarValue { fn from(v: Option<$t>) -> Self { unimplemented!() } } )* } }
    fr!(f64 f32 i8 i16 i32 i64 u8 u16 u32 u64 bool); impl From<&str> for ScalarValue { fn from(v: &str) -> Self { unimplemented!() } } impl From<Option<&str>> for ScalarValue { fn from(v: Option<&str>) -> Self { unimplemented!() } }
    impl TryFrom<DataType> for ScalarValue { type Error = DataFusionError; fn try_from(d: DataType) -> Result<Self> { unimplemented!() } }
    impl TryFrom<&DataType> for ScalarValue { type Error = DataFusionError; fn try_from(d: &DataType) -> Result<Self> { unimplemented!() } }
    impl TryFrom<ScalarValue> for i64 { type Error = DataFusionError; fn try_from(d: ScalarValue) -> Result<Self> { unimplemented!() } }
}
pub mod common {
    pub use crate::error::{DataFusionError, Result, SchemaError}; pub use crate::scalar::ScalarValue;
    use arrow::datatypes::{DataType, Field, FieldRef, Schema, SchemaRef}; use std::{borrow::Cow, collections::{HashMap, HashSet}, sync::Arc};
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Column { pub relation: Option<OwnedTableReference>, pub name: String }
    impl Column { pub fn new(r: Option<impl Into<OwnedTableReference>>, n: impl Into<String>) -> Self { unimplemented!() } pub fn from_name(n: impl Into<String>) -> Self { unimplemented!() } pub fn from_qualified_name(n: impl Into<String>) -> Self { unimplemented!() } pub fn flat_name(&self) -> String { unimplemented!() } pub fn new_unqualified(n: impl Into<String>) -> Self { unimplemented!() } pub fn normalize_with_schemas(self, s: &[&Arc<DFSchema>], u: &[HashSet<Column>]) -> Result<Self> { unimplemented!() } }
    disp!(Column, TableReference<'_>, DFSchema);
    impl From<&str> for Column { fn from(s: &str) -> Self { unimplemented!() } } impl From<String> for Column { fn from(s: String) -> Self { unimplemented!() } } impl From<&String> for Column { fn from(s: &String) -> Self { unimplemented!() } }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum TableReference<'a> { Bare { table: Cow<'a, str> }, Partial { schema: Cow<'a, str>, table: Cow<'a, str> }, Full { catalog: Cow<'a, str>, schema: Cow<'a, str>, table: Cow<'a, str> } }
    pub type OwnedTableReference = TableReference<'static>;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct ResolvedTableReference<'a> { pub catalog: Cow<'a, str>, pub schema: Cow<'a, str>, pub table: Cow<'a, str> }
    impl<'a> TableReference<'a> {
        pub fn none() -> Option<TableReference<'a>> { unimplemented!() } pub fn bare(t: impl Into<Cow<'a, str>>) -> Self { unimplemented!() } pub fn partial(s: impl Into<Cow<'a, str>>, t: impl Into<Cow<'a, str>>) -> Self { unimplemented!() }
        pub fn full(c: impl Into<Cow<'a, str>>, s: impl Into<Cow<'a, str>>, t: impl Into<Cow<'a, str>>) -> Self { unimplemented!() } pub fn table(&self) -> &str { unimplemented!() } pub fn schema(&self) -> Option<&str> { unimplemented!() } pub fn catalog(&self) -> Option<&str> { unimplemented!() }
        pub fn resolve(self, c: &'a str, s: &'a str) -> ResolvedTableReference<'a> { unimplemented!() } pub fn to_owned_reference(&self) -> OwnedTableReference { unimplemented!() } pub fn parse_str(s: &'a str) -> Self { unimplemented!() } pub fn to_quoted_string(&self) -> String { unimplemented!() } pub fn resolved_eq(&self, o: &Self) -> bool { unimplemented!() }
    }
    impl<'a> From<&'a str> for TableReference<'a> { fn from(s: &'a str) -> Self { unimplemented!() } } impl From<String> for OwnedTableReference { fn from(s: String) -> Self { unimplemented!() } } impl<'a> From<ResolvedTableReference<'a>> for TableReference<'a> { fn from(s: ResolvedTableReference<'a>) -> Self { unimplemented!() } } impl<'a> From<&'a OwnedTableReference> for TableReference<'a> { fn from(s: &'a OwnedTableReference) -> Self { unimplemented!() } } impl<'a> From<&'a String> for TableReference<'a> { fn from(s: &'a String) -> Self { unimplemented!() } }
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct DFSchema(());
    pub type DFSchemaRef = Arc<DFSchema>;
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct DFField(());
    impl DFField { pub fn new<R: Into<OwnedTableReference>>(q: Option<R>, n: &str, t: DataType, b: bool) -> Self { unimplemented!() } pub fn from(f: Field) -> Self { unimplemented!() } pub fn name(&self) -> &String { unimplemented!() } pub fn data_type(&self) -> &DataType { unimplemented!() } pub fn is_nullable(&self) -> bool { unimplemented!() } pub fn field(&self) -> &FieldRef { unimplemented!() } pub fn qualified_name(&self) -> String { unimplemented!() } pub fn qualified_column(&self) -> Column { unimplemented!() } pub fn unqualified_column(&self) -> Column { unimplemented!() } pub fn qualifier(&self) -> Option<&OwnedTableReference> { unimplemented!() } pub fn from_qualified<'a>(q: impl Into<TableReference<'a>>, f: impl Into<FieldRef>) -> Self { unimplemented!() } pub fn new_unqualified(n: &str, t: DataType, b: bool) -> Self { unimplemented!() } pub fn strip_qualifier(self) -> Self { unimplemented!() } pub fn metadata(&self) -> &HashMap<String, String> { unimplemented!() } }
    impl DFSchema {
        pub fn empty() -> Self { unimplemented!() } pub fn new_with_metadata(f: Vec<DFField>, m: HashMap<String, String>) -> Result<Self> { unimplemented!() } pub fn try_from_qualified_schema<'a>(q: impl Into<TableReference<'a>>, s: &Schema) -> Result<Self> { unimplemented!() } pub fn fields(&self) -> &Vec<DFField> { unimplemented!() } pub fn field(&self, i: usize) -> &DFField { unimplemented!() }
        pub fn index_of_column(&self, c: &Column) -> Result<usize> { unimplemented!() } pub fn field_with_name(&self, q: Option<&TableReference>, n: &str) -> Result<&DFField> { unimplemented!() } pub fn field_with_unqualified_name(&self, n: &str) -> Result<&DFField> { unimplemented!() } pub fn metadata(&self) -> &HashMap<String, String> { unimplemented!() } pub fn join(&self, s: &DFSchema) -> Result<Self> { unimplemented!() } pub fn field_names(&self) -> Vec<String> { unimplemented!() } pub fn has_column(&self, c: &Column) -> bool { unimplemented!() } pub fn field_from_column(&self, c: &Column) -> Result<&DFField> { unimplemented!() } pub fn strip_qualifiers(self) -> Self { unimplemented!() } pub fn replace_qualifier(self, q: impl Into<OwnedTableReference>) -> Self { unimplemented!() }
        pub fn has_column_with_unqualified_name(&self, n: &str) -> bool { unimplemented!() }
    }
    pub trait ToDFSchema: Sized { fn to_dfschema(self) -> Result<DFSchema>; fn to_dfschema_ref(self) -> Result<DFSchemaRef> { unimplemented!() } }
    impl ToDFSchema for Schema { fn to_dfschema(self) -> Result<DFSchema> { unimplemented!() } } impl ToDFSchema for SchemaRef { fn to_dfschema(self) -> Result<DFSchema> { unimplemented!() } } impl ToDFSchema for Vec<DFField> { fn to_dfschema(self) -> Result<DFSchema> { unimplemented!() } }
    impl From<&DFSchema> for Schema { fn from(s: &DFSchema) -> Self { unimplemented!() } } impl From<DFSchema> for Schema { fn from(s: DFSchema) -> Self { unimplemented!() } } impl From<DFSchema> for SchemaRef { fn from(s: DFSchema) -> Self { unimplemented!() } } impl TryFrom<Schema> for DFSchema { type Error = DataFusionError; fn try_from(s: Schema) -> Result<Self> { unimplemented!() } }
    pub trait ExprSchema { } impl ExprSchema for DFSchema {}
    pub mod cast { use crate::error::Result; use arrow::array::*; pub fn as_boolean_array(a: &dyn Array) -> Result<&BooleanArray> { unimplemented!() } pub fn as_string_array(a: &dyn Array) -> Result<&StringArray> { unimplemented!() } pub fn as_int64_array(a: &dyn Array) -> Result<&Int64Array> { unimplemented!() } pub fn as_float64_array(a: &dyn Array) -> Result<&Float64Array> { unimplemented!() } }
    pub mod tree_node {
        use crate::error::Result;
        #[derive(Debug)] pub enum VisitRecursion { Continue, Skip, Stop }
        #[derive(Debug)] pub enum RewriteRecursion { Continue, Mutate, Stop, Skip }
        #[derive(Debug, Clone)] pub enum Transformed<T> { Yes(T), No(T) }
        pub trait TreeNodeVisitor: Sized { type N: TreeNode; fn pre_visit(&mut self, n: &Self::N) -> Result<VisitRecursion>; fn post_visit(&mut self, n: &Self::N) -> Result<VisitRecursion> { unimplemented!() } }
        pub trait TreeNodeRewriter: Sized { type N: TreeNode; fn pre_visit(&mut self, n: &Self::N) -> Result<RewriteRecursion> { unimplemented!() } fn mutate(&mut self, n: Self::N) -> Result<Self::N>; }
        pub trait TreeNode: Sized {
            fn apply<F>(&self, op: &mut F) -> Result<VisitRecursion> where F: FnMut(&Self) -> Result<VisitRecursion> { unimplemented!() }
            fn visit<V: TreeNodeVisitor<N = Self>>(&self, v: &mut V) -> Result<VisitRecursion> { unimplemented!() }
            fn transform<F>(self, op: &F) -> Result<Self> where F: Fn(Self) -> Result<Transformed<Self>> { unimplemented!() }
            fn transform_up<F>(self, op: &F) -> Result<Self> where F: Fn(Self) -> Result<Transformed<Self>> { unimplemented!() }
            fn transform_down<F>(self, op: &F) -> Result<Self> where F: Fn(Self) -> Result<Transformed<Self>> { unimplemented!() }
            fn rewrite<R: TreeNodeRewriter<N = Self>>(self, r: &mut R) -> Result<Self> { unimplemented!() }
        }
    }
}
pub mod logical_expr {
    use crate::{common::*, error::Result}; use arrow::datatypes::DataType; use std::sync::Arc;
    pub use crate::arrow::datatypes::*; pub mod expr { pub use super::*; }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum Operator { Eq, NotEq, Lt, LtEq, Gt, GtEq, Plus, Minus, Multiply, Divide, Modulo, And, Or, IsDistinctFrom, IsNotDistinctFrom, RegexMatch, RegexIMatch, RegexNotMatch, RegexNotIMatch, BitwiseAnd, BitwiseOr, BitwiseXor, BitwiseShiftRight, BitwiseShiftLeft, StringConcat }
    disp!(Operator); impl Operator { pub fn swap(&self) -> Option<Self> { unimplemented!() } pub fn negate(&self) -> Option<Self> { unimplemented!() } }
    macro_rules! st { ($($n:ident { $($f:ident : $t:ty),* $(,)? })*) => { $( #[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct $n { $(pub $f: $t),* } )* } }
    st!{ BinaryExpr { left: Box<Expr>, op: Operator, right: Box<Expr> } Like { negated: bool, expr: Box<Expr>, pattern: Box<Expr>, escape_char: Option<char> } Between { expr: Box<Expr>, negated: bool, low: Box<Expr>, high: Box<Expr> } InList { expr: Box<Expr>, list: Vec<Expr>, negated: bool }
      Cast { expr: Box<Expr>, data_type: DataType } TryCast { expr: Box<Expr>, data_type: DataType } Sort { expr: Box<Expr>, asc: bool, nulls_first: bool } Case { expr: Option<Box<Expr>>, when_then_expr: Vec<(Box<Expr>, Box<Expr>)>, else_expr: Option<Box<Expr>> }
      ScalarFunction { fun: BuiltinScalarFunction, args: Vec<Expr> } ScalarUDF_ { fun: Arc<ScalarUDF>, args: Vec<Expr> } AggregateFunction { fun: AggregateFunctionKind, args: Vec<Expr>, distinct: bool, filter: Option<Box<Expr>>, order_by: Option<Vec<Expr>> } AggregateUDF_ { fun: Arc<AggregateUDF>, args: Vec<Expr>, filter: Option<Box<Expr>>, order_by: Option<Vec<Expr>> } WindowFunction { args: Vec<Expr>, partition_by: Vec<Expr>, order_by: Vec<Expr> }
      InSubquery { expr: Box<Expr>, negated: bool } Exists { negated: bool } Placeholder { id: String, data_type: Option<DataType> } GetIndexedField { expr: Box<Expr>, key: ScalarValue } GroupingSet { x: Vec<Expr> } Alias { expr: Box<Expr>, name: String } Subquery { x: Vec<Expr> } }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)] pub enum AggregateFunctionKind { Count, Sum, Min, Max, Avg }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub enum BuiltinScalarFunction { Now, Abs, Random, Concat, DateBin, DateTrunc, MakeArray }
    impl BuiltinScalarFunction { pub fn volatility(&self) -> Volatility { unimplemented!() } }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub enum Volatility { Immutable, Stable, Volatile }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct Signature { pub volatility: Volatility }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct ScalarUDF { pub name: String, pub signature: Signature }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct AggregateUDF { pub name: String, pub signature: Signature }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct WindowUDF { pub name: String }
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub enum Expr { Alias(Box<Expr>, String), Column(Column), ScalarVariable(DataType, Vec<String>), OuterReferenceColumn(DataType, Column), Literal(ScalarValue), BinaryExpr(BinaryExpr), Like(Like), ILike(Like), SimilarTo(Like), Not(Box<Expr>), IsNotNull(Box<Expr>), IsNull(Box<Expr>), IsTrue(Box<Expr>), IsFalse(Box<Expr>), IsUnknown(Box<Expr>), IsNotTrue(Box<Expr>), IsNotFalse(Box<Expr>), IsNotUnknown(Box<Expr>), Negative(Box<Expr>), GetIndexedField(GetIndexedField), Between(Between), Case(Case), Cast(Cast), TryCast(TryCast), Sort(Sort), ScalarFunction(ScalarFunction), ScalarUDF(ScalarUDF_), AggregateFunction(AggregateFunction), WindowFunction(WindowFunction), AggregateUDF(AggregateUDF_), InList(InList), Exists(Exists), InSubquery(InSubquery), ScalarSubquery(Subquery), Wildcard, QualifiedWildcard { qualifier: String }, GroupingSet(GroupingSet), Placeholder(Placeholder) }
    disp!(Expr); impl tree_node::TreeNode for Expr {}
    impl Expr { pub fn and(self, o: Expr) -> Expr { unimplemented!() } pub fn or(self, o: Expr) -> Expr { unimplemented!() } pub fn eq(self, o: Expr) -> Expr { unimplemented!() } pub fn gt(self, o: Expr) -> Expr { unimplemented!() } pub fn gt_eq(self, o: Expr) -> Expr { unimplemented!() } pub fn lt(self, o: Expr) -> Expr { unimplemented!() } pub fn lt_eq(self, o: Expr) -> Expr { unimplemented!() } pub fn alias(self, n: impl Into<String>) -> Expr { unimplemented!() } pub fn to_columns(&self) -> Result<std::collections::HashSet<Column>> { unimplemented!() } pub fn canonical_name(&self) -> String { unimplemented!() } pub fn get_type(&self, s: &DFSchema) -> Result<DataType> { unimplemented!() } pub fn display_name(&self) -> Result<String> { unimplemented!() } }
    #[derive(Debug, Clone, PartialEq, Eq)] pub enum TableProviderFilterPushDown { Unsupported, Inexact, Exact }
    pub fn col(c: impl Into<Column>) -> Expr { unimplemented!() } pub fn lit<T>(t: T) -> Expr { unimplemented!() } pub fn binary_expr(l: Expr, o: Operator, r: Expr) -> Expr { unimplemented!() } pub fn and(l: Expr, r: Expr) -> Expr { unimplemented!() } pub fn or(l: Expr, r: Expr) -> Expr { unimplemented!() } pub fn in_list(e: Expr, l: Vec<Expr>, n: bool) -> Expr { unimplemented!() } pub fn random() -> Expr { unimplemented!() }
    pub mod expr_fn { pub use super::{col, lit, binary_expr, and, or, in_list, random}; }
    pub mod utils { use super::*; pub fn conjunction(f: impl IntoIterator<Item = Expr>) -> Option<Expr> { unimplemented!() } pub fn split_conjunction(e: &Expr) -> Vec<&Expr> { unimplemented!() } pub fn disjunction(f: impl IntoIterator<Item = Expr>) -> Option<Expr> { unimplemented!() } }
    #[derive(Debug, Clone)] pub enum ColumnarValue { Array(arrow::array::ArrayRef), Scalar(ScalarValue) }
    impl ColumnarValue { pub fn into_array(self, n: usize) -> arrow::array::ArrayRef { unimplemented!() } }
}
pub mod prelude { pub use crate::common::Column; pub use crate::logical_expr::{Expr, col, lit, and, or, in_list, random}; }
pub mod execution {
    pub mod memory_pool {
        use crate::error::Result; use std::sync::Arc;
        pub trait MemoryPool: Send + Sync + std::fmt::Debug { fn register(&self, c: &MemoryConsumer) {} fn unregister(&self, c: &MemoryConsumer) {} fn grow(&self, r: &MemoryReservation, n: usize); fn shrink(&self, r: &MemoryReservation, n: usize); fn try_grow(&self, r: &MemoryReservation, n: usize) -> Result<()>; fn reserved(&self) -> usize; }
        #[derive(Debug)] pub struct MemoryConsumer { name: String }
        impl MemoryConsumer { pub fn new(n: impl Into<String>) -> Self { unimplemented!() } pub fn with_can_spill(self, b: bool) -> Self { unimplemented!() } pub fn name(&self) -> &str { unimplemented!() } pub fn register(self, p: &Arc<dyn MemoryPool>) -> MemoryReservation { unimplemented!() } }
        #[derive(Debug)] pub struct MemoryReservation { size: usize, pool: Arc<dyn MemoryPool> }
        impl MemoryReservation { pub fn size(&self) -> usize { unimplemented!() } pub fn free(&mut self) -> usize { unimplemented!() } pub fn shrink(&mut self, n: usize) { unimplemented!() } pub fn resize(&mut self, n: usize) { unimplemented!() } pub fn try_resize(&mut self, n: usize) -> Result<()> { unimplemented!() } pub fn grow(&mut self, n: usize) { unimplemented!() } pub fn try_grow(&mut self, n: usize) -> Result<()> { unimplemented!() } }
        impl Drop for MemoryReservation { fn drop(&mut self) { unimplemented!() } }
    }
    use crate::{error::Result, logical_expr::*}; use std::{sync::Arc, collections::HashSet};
    pub trait FunctionRegistry { fn udfs(&self) -> HashSet<String>; fn udf(&self, n: &str) -> Result<Arc<ScalarUDF>>; fn udaf(&self, n: &str) -> Result<Arc<AggregateUDF>>; fn udwf(&self, n: &str) -> Result<Arc<WindowUDF>>; }
    #[derive(Debug, Clone)] pub struct TaskContext(()); pub mod context { pub use super::TaskContext; pub use crate::physical_expr::execution_props::ExecutionProps; }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum RecordBatchStreamPlaceholder {}
}
pub mod physical_expr {
    use crate::{error::Result, logical_expr::ColumnarValue, scalar::ScalarValue}; use arrow::{datatypes::*, record_batch::RecordBatch}; use std::{any::Any, sync::Arc};
    pub trait PhysicalExpr: Send + Sync + std::fmt::Display + std::fmt::Debug { fn as_any(&self) -> &dyn Any; fn data_type(&self, s: &Schema) -> Result<DataType>; fn nullable(&self, s: &Schema) -> Result<bool>; fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue>; fn children(&self) -> Vec<Arc<dyn PhysicalExpr>>; fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>>; }
    impl crate::common::tree_node::TreeNode for Arc<dyn PhysicalExpr> {}
    impl PartialEq for dyn PhysicalExpr { fn eq(&self, o: &dyn PhysicalExpr) -> bool { unimplemented!() } }
    pub mod execution_props { #[derive(Clone, Debug, Default)] pub struct ExecutionProps { pub query_execution_start_time: i64 } impl ExecutionProps { pub fn new() -> Self { unimplemented!() } } }
    pub fn create_physical_expr(e: &crate::logical_expr::Expr, d: &crate::common::DFSchema, s: &Schema, p: &execution_props::ExecutionProps) -> Result<Arc<dyn PhysicalExpr>> { unimplemented!() }
    pub fn split_conjunction(p: &Arc<dyn PhysicalExpr>) -> Vec<&Arc<dyn PhysicalExpr>> { unimplemented!() }
    #[derive(Clone, Debug)] pub struct PhysicalSortExpr { pub expr: Arc<dyn PhysicalExpr>, pub options: arrow::compute::SortOptions }
    pub mod expressions {
        use super::*; use crate::logical_expr::Operator;
        macro_rules! pe { ($($n:ident)*) => { $( #[derive(Debug)] pub struct $n { p: () } disp!($n); impl PhysicalExpr for $n { fn as_any(&self) -> &dyn Any { unimplemented!() } fn data_type(&self, s: &Schema) -> Result<DataType> { unimplemented!() } fn nullable(&self, s: &Schema) -> Result<bool> { unimplemented!() } fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> { unimplemented!() } fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> { unimplemented!() } fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> { unimplemented!() } } )* } }
        pe!(BinaryExpr CastExpr Column Literal IsNullExpr IsNotNullExpr InListExpr NotExpr);
        impl Clone for Column { fn clone(&self) -> Self { unimplemented!() } } impl PartialEq for Column { fn eq(&self, o: &Self) -> bool { unimplemented!() } } impl Eq for Column {} impl std::hash::Hash for Column { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
        impl BinaryExpr { pub fn new(l: Arc<dyn PhysicalExpr>, o: Operator, r: Arc<dyn PhysicalExpr>) -> Self { unimplemented!() } pub fn left(&self) -> &Arc<dyn PhysicalExpr> { unimplemented!() } pub fn right(&self) -> &Arc<dyn PhysicalExpr> { unimplemented!() } pub fn op(&self) -> &Operator { unimplemented!() } }
        impl CastExpr { pub fn expr(&self) -> &Arc<dyn PhysicalExpr> { unimplemented!() } pub fn cast_type(&self) -> &DataType { unimplemented!() } pub fn new(e: Arc<dyn PhysicalExpr>, t: DataType, o: Option<arrow::compute::CastOptions<'static>>) -> Self { unimplemented!() } }
        impl Column { pub fn new(n: &str, i: usize) -> Self { unimplemented!() } pub fn new_with_schema(n: &str, s: &Schema) -> Result<Self> { unimplemented!() } pub fn name(&self) -> &str { unimplemented!() } pub fn index(&self) -> usize { unimplemented!() } }
        impl Literal { pub fn new(v: ScalarValue) -> Self { unimplemented!() } pub fn value(&self) -> &ScalarValue { unimplemented!() } }
        impl IsNullExpr { pub fn arg(&self) -> &Arc<dyn PhysicalExpr> { unimplemented!() } } impl IsNotNullExpr { pub fn arg(&self) -> &Arc<dyn PhysicalExpr> { unimplemented!() } }
        impl InListExpr { pub fn expr(&self) -> &Arc<dyn PhysicalExpr> { unimplemented!() } pub fn list(&self) -> &[Arc<dyn PhysicalExpr>] { unimplemented!() } pub fn negated(&self) -> bool { unimplemented!() } }
        pub fn binary(l: Arc<dyn PhysicalExpr>, o: Operator, r: Arc<dyn PhysicalExpr>, s: &Schema) -> Result<Arc<dyn PhysicalExpr>> { unimplemented!() } pub fn col(n: &str, s: &Schema) -> Result<Arc<dyn PhysicalExpr>> { unimplemented!() } pub fn lit<T>(v: T) -> Arc<dyn PhysicalExpr> { unimplemented!() }
    }
}
pub mod physical_optimizer { pub mod pruning {
    use crate::{error::Result, physical_expr::PhysicalExpr, common::Column}; use arrow::{array::ArrayRef, datatypes::SchemaRef}; use std::sync::Arc;
    pub trait PruningStatistics { fn min_values(&self, c: &Column) -> Option<ArrayRef>; fn max_values(&self, c: &Column) -> Option<ArrayRef>; fn num_containers(&self) -> usize; fn null_counts(&self, c: &Column) -> Option<ArrayRef>; }
    #[derive(Debug, Clone)] pub struct PruningPredicate(()); impl PruningPredicate { pub fn try_new(e: Arc<dyn PhysicalExpr>, s: SchemaRef) -> Result<Self> { unimplemented!() } pub fn prune<S: PruningStatistics>(&self, s: &S) -> Result<Vec<bool>> { unimplemented!() } pub fn allways_true(&self) -> bool { unimplemented!() } pub fn required_columns(&self) -> &() { unimplemented!() } pub fn schema(&self) -> &SchemaRef { unimplemented!() } pub fn predicate_expr(&self) -> &Arc<dyn PhysicalExpr> { unimplemented!() } }
} }
pub mod physical_plan {
    pub use crate::physical_expr::{self, PhysicalExpr, expressions}; use crate::error::Result; use arrow::{datatypes::SchemaRef, record_batch::RecordBatch}; use futures::Stream; use std::pin::Pin;
    pub trait RecordBatchStream: Stream<Item = Result<RecordBatch>> { fn schema(&self) -> SchemaRef; }
    pub type SendableRecordBatchStream = Pin<Box<dyn RecordBatchStream + Send>>;
    pub mod common { #[derive(Debug)] pub struct AbortOnDropSingle<T>(tokio::task::JoinHandle<T>); impl<T> AbortOnDropSingle<T> { pub fn new(j: tokio::task::JoinHandle<T>) -> Self { unimplemented!() } } impl<T> Drop for AbortOnDropSingle<T> { fn drop(&mut self) { unimplemented!() } } #[derive(Debug)] pub struct AbortOnDropMany<T>(pub Vec<tokio::task::JoinHandle<T>>); impl<T> Drop for AbortOnDropMany<T> { fn drop(&mut self) { unimplemented!() } } }
    pub mod functions { use crate::{error::Result, execution::context::ExecutionProps, logical_expr::*, physical_expr::PhysicalExpr}; use std::sync::Arc; pub fn create_physical_expr(f: &BuiltinScalarFunction, a: &[Arc<dyn PhysicalExpr>], s: &arrow::datatypes::Schema, p: &ExecutionProps) -> Result<Arc<dyn PhysicalExpr>> { unimplemented!() } }
    pub mod sorts { pub mod cursor {
        use std::cmp::Ordering;
        pub trait FieldValues { type Value: ?Sized; fn len(&self) -> usize; fn compare(a: &Self::Value, b: &Self::Value) -> Ordering; fn value(&self, idx: usize) -> &Self::Value; }
        pub trait FieldArray: arrow::array::Array + 'static { type Values: FieldValues; fn values(&self) -> Self::Values; }
        #[derive(Debug)] pub struct FieldCursor<T: FieldValues> { v: T }
        impl<T: FieldValues> FieldCursor<T> { pub fn new<A: FieldArray<Values = T>>(o: arrow::compute::SortOptions, a: &A) -> Self { unimplemented!() } }
        pub trait Cursor: Ord { fn is_finished(&self) -> bool; fn advance(&mut self) -> usize; }
        impl<T: FieldValues> PartialEq for FieldCursor<T> { fn eq(&self, o: &Self) -> bool { unimplemented!() } } impl<T: FieldValues> Eq for FieldCursor<T> {} impl<T: FieldValues> PartialOrd for FieldCursor<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } } impl<T: FieldValues> Ord for FieldCursor<T> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } } impl<T: FieldValues> Cursor for FieldCursor<T> { fn is_finished(&self) -> bool { unimplemented!() } fn advance(&mut self) -> usize { unimplemented!() } }
        pub struct PrimitiveValues<T: arrow::datatypes::ArrowNativeType>(arrow::buffer::ScalarBuffer<T>);
        impl<T: arrow::datatypes::ArrowNativeType + std::cmp::PartialOrd> FieldValues for PrimitiveValues<T> { type Value = T; fn len(&self) -> usize { unimplemented!() } fn compare(a: &T, b: &T) -> Ordering { unimplemented!() } fn value(&self, i: usize) -> &T { unimplemented!() } }
        impl<T: arrow::datatypes::ArrowPrimitiveType> FieldArray for arrow::array::PrimitiveArray<T> { type Values = PrimitiveValues<T::Native>; fn values(&self) -> Self::Values { unimplemented!() } }
        impl<O: arrow::array::OffsetSizeTrait> FieldArray for arrow::array::GenericStringArray<O> { type Values = Self; fn values(&self) -> Self { unimplemented!() } } impl<O: arrow::array::OffsetSizeTrait> FieldValues for arrow::array::GenericStringArray<O> { type Value = str; fn len(&self) -> usize { unimplemented!() } fn compare(a: &str, b: &str) -> Ordering { unimplemented!() } fn value(&self, i: usize) -> &str { unimplemented!() } }
    } }
    pub mod metrics {
        use std::{borrow::Cow, sync::Arc, time::Duration};
        #[derive(Debug, Clone, Default)] pub struct ExecutionPlanMetricsSet(Arc<()>); impl ExecutionPlanMetricsSet { pub fn new() -> Self { unimplemented!() } pub fn clone_inner(&self) -> MetricsSet { unimplemented!() } pub fn register(&self, m: Arc<Metric>) { unimplemented!() } }
        #[derive(Debug, Clone, Default)] pub struct MetricsSet(()); impl MetricsSet { pub fn iter(&self) -> std::slice::Iter<'_, Arc<Metric>> { unimplemented!() } pub fn push(&mut self, m: Arc<Metric>) { unimplemented!() } pub fn aggregate_by_name(&self) -> Self { unimplemented!() } pub fn sorted_for_display(self) -> Self { unimplemented!() } pub fn timestamps_removed(self) -> Self { unimplemented!() } } impl std::fmt::Display for MetricsSet { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
        #[derive(Debug)] pub struct Metric(()); impl Metric { pub fn value(&self) -> &MetricValue { unimplemented!() } pub fn partition(&self) -> Option<usize> { unimplemented!() } pub fn labels(&self) -> &[()] { unimplemented!() } }
        #[derive(Debug, Clone, Default)] pub struct Count(Arc<()>); impl Count { pub fn new() -> Self { unimplemented!() } pub fn add(&self, n: usize) { unimplemented!() } pub fn value(&self) -> usize { unimplemented!() } }
        #[derive(Debug, Clone, Default)] pub struct Gauge(Arc<()>); impl Gauge { pub fn add(&self, n: usize) { unimplemented!() } pub fn set(&self, n: usize) -> usize { unimplemented!() } pub fn value(&self) -> usize { unimplemented!() } pub fn set_max(&self, n: usize) { unimplemented!() } }
        #[derive(Debug, Clone, Default)] pub struct Time(Arc<()>); impl Time { pub fn new() -> Self { unimplemented!() } pub fn timer(&self) -> ScopedTimerGuard<'_> { unimplemented!() } pub fn value(&self) -> usize { unimplemented!() } pub fn add_duration(&self, d: Duration) { unimplemented!() } pub fn add_elapsed(&self, s: std::time::Instant) { unimplemented!() } pub fn add(&self, o: &Time) { unimplemented!() } }
        #[derive(Debug, Clone)] pub struct Timestamp(Arc<()>); impl Timestamp { pub fn value(&self) -> Option<chrono::DateTime<chrono::Utc>> { unimplemented!() } }
        pub trait RecordOutput { fn record_output(self, bm: &BaselineMetrics) -> Self; }
        impl RecordOutput for &arrow::record_batch::RecordBatch { fn record_output(self, bm: &BaselineMetrics) -> Self { unimplemented!() } }
        pub struct ScopedTimerGuard<'a>(&'a Time); impl ScopedTimerGuard<'_> { pub fn stop(&mut self) { unimplemented!() } pub fn done(self) { unimplemented!() } pub fn restart(&mut self) { unimplemented!() } } impl Drop for ScopedTimerGuard<'_> { fn drop(&mut self) { unimplemented!() } }
        #[derive(Debug, Clone)] pub enum MetricValue { OutputRows(Count), ElapsedCompute(Time), SpillCount(Count), SpilledBytes(Count), CurrentMemoryUsage(Gauge), Count { name: Cow<'static, str>, count: Count }, Gauge { name: Cow<'static, str>, gauge: Gauge }, Time { name: Cow<'static, str>, time: Time }, StartTimestamp(Timestamp), EndTimestamp(Timestamp) } impl MetricValue { pub fn name(&self) -> &str { unimplemented!() } pub fn as_usize(&self) -> usize { unimplemented!() } } disp!(MetricValue, Count, Time, Gauge);
        pub struct MetricBuilder<'a>(&'a ExecutionPlanMetricsSet); impl<'a> MetricBuilder<'a> { pub fn new(m: &'a ExecutionPlanMetricsSet) -> Self { unimplemented!() } pub fn output_rows(self, p: usize) -> Count { unimplemented!() } pub fn elapsed_compute(self, p: usize) -> Time { unimplemented!() } pub fn counter(self, n: impl Into<Cow<'static, str>>, p: usize) -> Count { unimplemented!() } pub fn global_counter(self, n: impl Into<Cow<'static, str>>) -> Count { unimplemented!() } pub fn subset_time(self, n: impl Into<Cow<'static, str>>, p: usize) -> Time { unimplemented!() } pub fn mem_used(self, p: usize) -> Gauge { unimplemented!() } pub fn gauge(self, n: impl Into<Cow<'static, str>>, p: usize) -> Gauge { unimplemented!() } pub fn global_gauge(self, n: impl Into<Cow<'static, str>>) -> Gauge { unimplemented!() } }
        #[derive(Debug, Clone)] pub struct BaselineMetrics(()); impl BaselineMetrics { pub fn new(m: &ExecutionPlanMetricsSet, p: usize) -> Self { unimplemented!() } pub fn elapsed_compute(&self) -> &Time { unimplemented!() } pub fn output_rows(&self) -> &Count { unimplemented!() } pub fn record_output(&self, n: usize) { unimplemented!() } pub fn record_poll<T>(&self, p: T) -> T { unimplemented!() } pub fn done(&self) { unimplemented!() } }
    }
}
pub mod datasource {
    pub mod file_format {
        use std::sync::Arc;
        pub trait FileFormat: Send + Sync + std::fmt::Debug {}
        macro_rules! ff { ($($m:ident $n:ident)*) => { $( pub mod $m { #[derive(Debug, Default, Clone)] pub struct $n; impl $n { pub fn with_enable_pruning(self, b: Option<bool>) -> Self { unimplemented!() } pub fn with_has_header(self, b: bool) -> Self { unimplemented!() } pub fn with_delimiter(self, d: u8) -> Self { unimplemented!() } pub fn with_file_compression_type(self, c: super::file_type::FileCompressionType) -> Self { unimplemented!() } pub fn with_skip_metadata(self, b: Option<bool>) -> Self { unimplemented!() } } impl super::FileFormat for $n {} } )* } }
        ff!(avro AvroFormat csv CsvFormat json JsonFormat parquet ParquetFormat);
        pub mod file_type { use crate::error::DataFusionError; #[derive(Debug, Clone, PartialEq, Eq)] pub enum FileType { ARROW, AVRO, PARQUET, CSV, JSON } #[derive(Debug, Clone, PartialEq, Eq, Copy)] pub struct FileCompressionType(()); disp!(FileType); impl std::str::FromStr for FileType { type Err = DataFusionError; fn from_str(s: &str) -> Result<Self, DataFusionError> { unimplemented!() } } impl std::str::FromStr for FileCompressionType { type Err = DataFusionError; fn from_str(s: &str) -> Result<Self, DataFusionError> { unimplemented!() } }
          impl FileCompressionType { pub const GZIP: Self = Self(()); pub const BZIP2: Self = Self(()); pub const XZ: Self = Self(()); pub const ZSTD: Self = Self(()); pub const UNCOMPRESSED: Self = Self(()); pub fn is_compressed(&self) -> bool { unimplemented!() } } impl FileType { pub fn get_ext_with_compression(&self, c: FileCompressionType) -> crate::error::Result<String> { unimplemented!() } } pub trait GetExt { fn get_ext(&self) -> String; } impl GetExt for FileType { fn get_ext(&self) -> String { unimplemented!() } } }
        #[allow(unused)] fn _a(x: Arc<dyn FileFormat>) {}
    }
    pub mod listing { use std::sync::Arc; #[derive(Clone, Debug)] pub struct ListingOptions { pub file_extension: String, pub format: Arc<dyn super::file_format::FileFormat>, pub table_partition_cols: Vec<(String, arrow::datatypes::DataType)>, pub collect_stat: bool, pub target_partitions: usize, pub file_sort_order: Vec<Vec<crate::logical_expr::Expr>>, pub infinite_source: bool, pub insert_mode: () } impl ListingOptions { pub fn new(f: Arc<dyn super::file_format::FileFormat>) -> Self { unimplemented!() } pub fn with_file_extension(self, e: impl Into<String>) -> Self { unimplemented!() } pub fn with_target_partitions(self, n: usize) -> Self { unimplemented!() } pub fn with_collect_stat(self, b: bool) -> Self { unimplemented!() } pub fn with_table_partition_cols(self, c: Vec<(String, arrow::datatypes::DataType)>) -> Self { unimplemented!() } pub fn with_file_sort_order(self, c: Vec<Vec<crate::logical_expr::Expr>>) -> Self { unimplemented!() } pub fn with_infinite_source(self, b: bool) -> Self { unimplemented!() } } }
}
pub mod sql {
    pub use crate::common::{TableReference, OwnedTableReference, ResolvedTableReference};
    pub mod sqlparser { pub mod ast {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Ident { pub value: String, pub quote_style: Option<char> } #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct ObjectName(pub Vec<Ident>);
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum TimezoneInfo { None, WithTimeZone, WithoutTimeZone, Tz } #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum ExactNumberInfo { None, Precision(u64), PrecisionAndScale(u64, u64) }
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum DataType { Boolean, TinyInt(Option<u64>), SmallInt(Option<u64>), Int(Option<u64>), BigInt(Option<u64>), UnsignedTinyInt(Option<u64>), UnsignedSmallInt(Option<u64>), UnsignedInt(Option<u64>), UnsignedBigInt(Option<u64>), Float(Option<u64>), Double, Timestamp(Option<u64>, TimezoneInfo), Date, Time(Option<u64>, TimezoneInfo), Interval, Varbinary(Option<u64>), Binary(Option<u64>), Blob(Option<u64>), String, Decimal(ExactNumberInfo), BigDecimal(ExactNumberInfo), Custom(ObjectName, Vec<String>) } disp!(DataType, Value, Ident, ObjectName);
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct DollarQuotedString { pub value: String, pub tag: Option<String> }
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum Value { Number(String, bool), SingleQuotedString(String), DollarQuotedString(DollarQuotedString), EscapedStringLiteral(String), SingleQuotedByteStringLiteral(String), DoubleQuotedByteStringLiteral(String), RawStringLiteral(String), NationalStringLiteral(String), HexStringLiteral(String), DoubleQuotedString(String), Boolean(bool), Null, Placeholder(String), UnQuotedString(String) }
    } }
}
