//! Functions as a user registers them, one for each shape of signature. The validators and evaluators that
//! `#[function]` generates for them are what is put under contract.
#![allow(dead_code)]
use serde_json_path::functions::{LogicalType, NodesType, ValueType};

#[serde_json_path::function]
fn fx_zero() -> ValueType<'static> {
    ValueType::Nothing
}
#[serde_json_path::function]
fn fx_v(a: ValueType<'_>) -> ValueType<'_> {
    a
}
#[serde_json_path::function]
fn fx_n(a: NodesType<'_>) -> NodesType<'_> {
    a
}
#[serde_json_path::function]
fn fx_l(a: LogicalType) -> LogicalType {
    a
}
// which argument is passed as which parameter
#[serde_json_path::function]
fn fx_vnl_a<'a>(a: ValueType<'a>, b: NodesType<'a>, c: LogicalType) -> ValueType<'a> {
    a
}
#[serde_json_path::function]
fn fx_vnl_b<'a>(a: ValueType<'a>, b: NodesType<'a>, c: LogicalType) -> NodesType<'a> {
    b
}
#[serde_json_path::function]
fn fx_vnl_c<'a>(a: ValueType<'a>, b: NodesType<'a>, c: LogicalType) -> LogicalType {
    c
}
#[serde_json_path::function(name = "fx_named")]
fn fx_lnv<'a>(x: LogicalType, y: NodesType<'a>, z: ValueType<'a>) -> ValueType<'a> {
    z
}
#[serde_json_path::function]
fn fx_zero_l() -> LogicalType {
    LogicalType::True
}
#[serde_json_path::function]
fn fx_same<'a>(p: ValueType<'a>, q: ValueType<'a>, r: ValueType<'a>, s: ValueType<'a>) -> ValueType<'a> {
    q
}
#[serde_json_path::function]
fn fx_six_d<'a>(a: ValueType<'a>, b: NodesType<'a>, c: LogicalType, d: LogicalType, e: NodesType<'a>, f: ValueType<'a>) -> LogicalType {
    d
}
#[serde_json_path::function(name = "fx_other_name")]
pub fn fx_six_f<'a>(
    a: serde_json_path::functions::ValueType<'a>,
    b: serde_json_path::functions::NodesType<'a>,
    c: serde_json_path::functions::LogicalType,
    d: serde_json_path::functions::LogicalType,
    e: serde_json_path::functions::NodesType<'a>,
    f: serde_json_path::functions::ValueType<'a>,
) -> serde_json_path::functions::ValueType<'a> {
    f
}
