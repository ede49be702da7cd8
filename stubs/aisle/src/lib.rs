//! Offline stand-in for the `aisle` crate (git dependency of tonbo, unavailable here).
//!
//! Only the surface tonbo uses is provided. `RowFilter` evaluates predicates exactly
//! (SQL three-valued logic); `Pruner`/`PruneRequest` never prune, which is the most
//! conservative implementation of the pruning contract.
use std::collections::HashMap;


use arrow_array::{BooleanArray, RecordBatch};
use arrow_schema::{ArrowError, Schema, SchemaRef};
use datafusion_common::ScalarValue;
use parquet::{
    arrow::{
        arrow_reader::{ArrowPredicate, RowSelection},
        ProjectionMask,
    },
    bloom_filter::Sbbf,
    file::metadata::ParquetMetaData,
    schema::types::SchemaDescriptor,
};

/// Comparison operators.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CmpOp {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
}

/// Predicate expression tree.
#[derive(Clone, Debug, PartialEq)]
#[non_exhaustive]
pub enum Expr {
    True,
    False,
    Cmp { column: String, op: CmpOp, value: ScalarValue },
    Between { column: String, low: ScalarValue, high: ScalarValue, inclusive: bool },
    InList { column: String, values: Vec<ScalarValue> },
    BloomFilterEq { column: String, value: ScalarValue },
    BloomFilterInList { column: String, values: Vec<ScalarValue> },
    StartsWith { column: String, prefix: String },
    IsNull { column: String, negated: bool },
    And(Vec<Expr>),
    Or(Vec<Expr>),
    Not(Box<Expr>),
}

impl Expr {
    fn cmp(column: impl Into<String>, op: CmpOp, value: ScalarValue) -> Self {
        Expr::Cmp { column: column.into(), op, value }
    }
    pub fn eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Eq, value)
    }
    pub fn not_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::NotEq, value)
    }
    pub fn lt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Lt, value)
    }
    pub fn lt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::LtEq, value)
    }
    pub fn gt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Gt, value)
    }
    pub fn gt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::GtEq, value)
    }
    pub fn between(
        column: impl Into<String>,
        low: ScalarValue,
        high: ScalarValue,
        inclusive: bool,
    ) -> Self {
        Expr::Between { column: column.into(), low, high, inclusive }
    }
    pub fn in_list(column: impl Into<String>, values: Vec<ScalarValue>) -> Self {
        Expr::InList { column: column.into(), values }
    }
    pub fn starts_with(column: impl Into<String>, prefix: impl Into<String>) -> Self {
        Expr::StartsWith { column: column.into(), prefix: prefix.into() }
    }
    pub fn is_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: false }
    }
    pub fn is_not_null(column: impl Into<String>) -> Self {
        Expr::IsNull { column: column.into(), negated: true }
    }
    pub fn and(parts: Vec<Expr>) -> Self {
        Expr::And(parts)
    }
    pub fn or(parts: Vec<Expr>) -> Self {
        Expr::Or(parts)
    }
    #[allow(clippy::should_implement_trait)]
    pub fn not(inner: Expr) -> Self {
        Expr::Not(Box::new(inner))
    }

    fn columns(&self, out: &mut Vec<String>) {
        match self {
            Expr::True | Expr::False => {}
            Expr::Cmp { column, .. }
            | Expr::Between { column, .. }
            | Expr::InList { column, .. }
            | Expr::BloomFilterEq { column, .. }
            | Expr::BloomFilterInList { column, .. }
            | Expr::StartsWith { column, .. }
            | Expr::IsNull { column, .. } => {
                if !out.contains(column) {
                    out.push(column.clone())
                }
            }
            Expr::And(c) | Expr::Or(c) => c.iter().for_each(|e| e.columns(out)),
            Expr::Not(e) => e.columns(out),
        }
    }

    fn cmp_values(op: CmpOp, lhs: &ScalarValue, rhs: &ScalarValue) -> Option<bool> {
        use std::cmp::Ordering::*;
        if lhs.is_null() || rhs.is_null() {
            return None;
        }
        let ord = lhs.partial_cmp(rhs)?;
        Some(match op {
            CmpOp::Eq => ord == Equal,
            CmpOp::NotEq => ord != Equal,
            CmpOp::Lt => ord == Less,
            CmpOp::LtEq => ord != Greater,
            CmpOp::Gt => ord == Greater,
            CmpOp::GtEq => ord != Less,
        })
    }

    fn eval(&self, batch: &RecordBatch, row: usize) -> Result<Option<bool>, ArrowError> {
        let col = |name: &str| -> Result<ScalarValue, ArrowError> {
            let arr = batch.column_by_name(name).ok_or_else(|| {
                ArrowError::ComputeError(format!("column {name} missing in row filter"))
            })?;
            ScalarValue::try_from_array(arr, row)
                .map_err(|e| ArrowError::ComputeError(e.to_string()))
        };
        Ok(match self {
            Expr::True => Some(true),
            Expr::False => Some(false),
            Expr::Cmp { column, op, value } => Self::cmp_values(*op, &col(column)?, value),
            Expr::Between { column, low, high, inclusive } => {
                let v = col(column)?;
                let (lo, hi) = if *inclusive {
                    (CmpOp::GtEq, CmpOp::LtEq)
                } else {
                    (CmpOp::Gt, CmpOp::Lt)
                };
                and3(Self::cmp_values(lo, &v, low), Self::cmp_values(hi, &v, high))
            }
            Expr::InList { column, values } => {
                let v = col(column)?;
                if v.is_null() {
                    None
                } else {
                    values
                        .iter()
                        .map(|x| Self::cmp_values(CmpOp::Eq, &v, x))
                        .fold(Some(false), or3)
                }
            }
            Expr::BloomFilterEq { .. } | Expr::BloomFilterInList { .. } => Some(true),
            Expr::StartsWith { column, prefix } => match col(column)? {
                ScalarValue::Utf8(v) | ScalarValue::LargeUtf8(v) | ScalarValue::Utf8View(v) => {
                    v.map(|s| s.starts_with(prefix.as_str()))
                }
                _ => {
                    return Err(ArrowError::ComputeError(
                        "starts_with on a non-string column".into(),
                    ))
                }
            },
            Expr::IsNull { column, negated } => Some(col(column)?.is_null() != *negated),
            Expr::And(parts) => {
                let mut acc = Some(true);
                for p in parts {
                    acc = and3(acc, p.eval(batch, row)?);
                }
                acc
            }
            Expr::Or(parts) => {
                let mut acc = Some(false);
                for p in parts {
                    acc = or3(acc, p.eval(batch, row)?);
                }
                acc
            }
            Expr::Not(inner) => inner.eval(batch, row)?.map(|b| !b),
        })
    }
}

fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn or3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}

/// Exact row filter over decoded batches.
pub struct RowFilter {
    predicate: Expr,
    projection: ProjectionMask,
}

impl RowFilter {
    pub fn new(predicate: Expr, schema: &SchemaDescriptor) -> Self {
        let mut cols = Vec::new();
        predicate.columns(&mut cols);
        let root = schema.root_schema().get_fields();
        let idx: Vec<usize> = root
            .iter()
            .enumerate()
            .filter(|(_, f)| cols.iter().any(|c| c == f.name()))
            .map(|(i, _)| i)
            .collect();
        let projection = ProjectionMask::roots(schema, idx);
        Self { predicate, projection }
    }
}

impl ArrowPredicate for RowFilter {
    fn projection(&self) -> &ProjectionMask {
        &self.projection
    }

    fn evaluate(&mut self, batch: RecordBatch) -> Result<BooleanArray, ArrowError> {
        let mut out = Vec::with_capacity(batch.num_rows());
        for row in 0..batch.num_rows() {
            out.push(self.predicate.eval(&batch, row)?.unwrap_or(false));
        }
        Ok(BooleanArray::from(out))
    }
}

/// Supplies bloom filters on demand.
#[allow(async_fn_in_trait)]
pub trait AsyncBloomFilterProvider {
    async fn bloom_filter(&mut self, row_group_idx: usize, column_idx: usize) -> Option<Sbbf>;
    async fn bloom_filters_batch<'a>(
        &'a mut self,
        requests: &'a [(usize, usize)],
    ) -> HashMap<(usize, usize), Sbbf>;
}

/// Outcome of pruning.
#[derive(Clone, Debug)]
pub struct PruneResult {
    row_groups: Vec<usize>,
    row_selection: Option<RowSelection>,
}

impl PruneResult {
    fn keep_all(metadata: &ParquetMetaData) -> Self {
        Self { row_groups: (0..metadata.num_row_groups()).collect(), row_selection: None }
    }
    pub fn row_groups(&self) -> &[usize] {
        &self.row_groups
    }
    pub fn row_selection(&self) -> Option<&RowSelection> {
        self.row_selection.as_ref()
    }
}

/// Schema-bound pruner.
#[derive(Debug)]
pub struct Pruner {
    _schema: SchemaRef,
}

impl Pruner {
    pub fn try_new(schema: SchemaRef) -> Result<Self, ArrowError> {
        Ok(Self { _schema: schema })
    }
    pub async fn prune_ir_with_bloom_provider<P: AsyncBloomFilterProvider>(
        &self,
        metadata: &ParquetMetaData,
        _predicates: &[Expr],
        _provider: &mut P,
    ) -> PruneResult {
        PruneResult::keep_all(metadata)
    }
}

/// One-shot prune request.
pub struct PruneRequest<'a> {
    metadata: &'a ParquetMetaData,
    _schema: &'a Schema,
}

impl<'a> PruneRequest<'a> {
    pub fn new(metadata: &'a ParquetMetaData, schema: &'a Schema) -> Self {
        Self { metadata, _schema: schema }
    }
    pub fn with_predicate(self, _predicate: &'a Expr) -> Self {
        self
    }
    pub fn enable_page_index(self, _on: bool) -> Self {
        self
    }
    pub fn enable_bloom_filter(self, _on: bool) -> Self {
        self
    }
    pub async fn prune_async<P: AsyncBloomFilterProvider>(self, _provider: &mut P) -> PruneResult {
        PruneResult::keep_all(self.metadata)
    }
}

