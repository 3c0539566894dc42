//! User-registered functions covering every parameter and result type.
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
#[serde_json_path::function]
fn vv(v: ValueType) -> ValueType {
    v
}
#[serde_json_path::function]
fn nn(n: NodesType) -> NodesType {
    n
}
#[serde_json_path::function]
fn ll(l: LogicalType) -> LogicalType {
    (!bool::from(l)).into()
}
#[serde_json_path::function]
fn vl(v: ValueType) -> LogicalType {
    (!v.is_nothing()).into()
}
#[serde_json_path::function]
fn f(v: ValueType) -> LogicalType {
    v.as_value().is_some().into()
}
#[serde_json_path::function]
fn nl(n: NodesType) -> LogicalType {
    (n.all().len() == 2).into()
}
#[serde_json_path::function]
fn lv(l: LogicalType) -> ValueType<'static> {
    serde_json::Value::Bool(l.into()).into()
}
#[serde_json_path::function]
fn vn_3(n: NodesType, x: ValueType, l: LogicalType) -> LogicalType {
    ((n.len() == 1) == (!x.is_nothing() && bool::from(l))).into()
}
#[serde_json_path::function]
fn vv2<'a>(a: ValueType<'a>, b: ValueType<'a>) -> ValueType<'a> {
    if a.is_nothing() {
        b
    } else {
        a
    }
}
#[serde_json_path::function]
fn wide<'a>(
    a: ValueType<'a>, b: NodesType<'a>, c: LogicalType, d: ValueType<'a>, e: NodesType<'a>, f: LogicalType, g: ValueType<'a>, h: NodesType<'a>, i: LogicalType, j: ValueType<'a>, k: LogicalType,
    l: ValueType<'a>,
) -> ValueType<'static> {
    let v = |x: &ValueType| match x.as_value() {
        None => 0,
        Some(serde_json::Value::Number(n)) => 1 + n.as_u64().unwrap_or(0) % 5,
        Some(_) => 6,
    };
    let n = |x: NodesType| x.len().min(7) as u64;
    let o = |x: LogicalType| bool::from(x) as u64;
    let ds = [v(&a), n(b), o(c), v(&d), n(e), o(f), v(&g), n(h), o(i), v(&j), o(k), v(&l)];
    let t: u64 = ds.iter().rev().fold(0, |t, d| t * 8 + d);
    serde_json::Value::from(t).into()
}
#[serde_json_path::function]
fn zero() -> ValueType<'static> {
    0.into()
}
#[serde_json_path::function]
fn nullify(v: ValueType) -> ValueType {
    v
}
#[serde_json_path::function]
fn true_1() -> LogicalType {
    LogicalType::True
}
#[serde_json_path::function(name = "false")]
fn false_(n: NodesType) -> NodesType {
    n
}
// the names of these are no function-names of the grammar, so that no query can call them
#[serde_json_path::function(name = "Shout")]
fn shout(v: ValueType) -> LogicalType {
    v.as_value().is_some().into()
}
#[serde_json_path::function(name = "kebab-case")]
fn kebab_case(v: ValueType) -> LogicalType {
    v.as_value().is_some().into()
}
#[serde_json_path::function(name = "_under")]
fn under(v: ValueType) -> LogicalType {
    v.as_value().is_some().into()
}
#[serde_json_path::function(name = "dotted.name")]
fn dotted_name(v: ValueType) -> LogicalType {
    v.as_value().is_some().into()
}
#[serde_json_path::function(name = "1st")]
fn first_1(v: ValueType) -> LogicalType {
    v.as_value().is_some().into()
}
#[serde_json_path::function(name = "caf\u{e9}")]
fn cafe(v: ValueType) -> LogicalType {
    v.as_value().is_some().into()
}
#[serde_json_path::function(name = "camelCase")]
fn camel_case(v: ValueType) -> LogicalType {
    v.as_value().is_some().into()
}
