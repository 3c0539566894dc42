// ------------------------------------------------------------- the query, and what it means

//@type Name
//@type Index
//@type Slice
//@type Selector
//@type Filter
//@type LogicalOrExpr
//@type LogicalAndExpr
//@type BasicExpr
//@type ExistExpr
//@type ComparisonExpr
//@type ComparisonOperator
//@type Comparable
//@type Literal
//@type SingularQuery
//@type SingularQuerySegment
//@type SingularQueryKind
//@type NonSingularQueryError
//@type Segment
//@type QuerySegment
//@type QuerySegmentKind
//@type Query
//@type QueryKind
//@type FunctionExpr
//@type FunctionExprArg
//@type FunctionArgType
//@type Validated
//@type NotValidated
//@type JsonPathValue
//@type JsonPathType
//@type LogicalType
//@type ValueType
//@type NodesType
//@derive QueryKind Clone
//@derive Query Clone
//@derive Literal Clone
//@derive Name Clone
//@derive Index Clone
//@derive Index Copy
//@derive FunctionArgType Clone
//@derive FunctionArgType Copy
//@derive JsonPathType Clone
//@derive JsonPathType Copy
//@derive FunctionArgType PartialEq
//@derive JsonPathType PartialEq
//@derive QueryKind PartialEq
//@derive QuerySegmentKind PartialEq
//@derive ComparisonOperator PartialEq
//@derive SingularQueryKind PartialEq
//@derive LogicalType Clone
//@derive LogicalType PartialEq

#[verifier::external_body]
pub struct Evaluator { x: u8 }
#[verifier::external_body]
pub struct Validator { x: u8 }

/// The value of an argument or of a function call
pub enum JV { Nodes(Seq<Value>), Logical(bool), Val(Value), Node(Value), Nothing }
pub open spec fn jv(v: JsonPathValue) -> JV {
  match v {
    JsonPathValue::Nodes(nl) => JV::Nodes(vals(nl.0@)),
    JsonPathValue::Logical(l) => JV::Logical(l is True),
    JsonPathValue::Value(v) => JV::Val(v),
    JsonPathValue::Node(v) => JV::Node(*v),
    JsonPathValue::Nothing => JV::Nothing,
  }
}
pub open spec fn jvs(s: Seq<JsonPathValue>) -> Seq<JV> { Seq::new(s.len(), |i: int| jv(s[i])) }
/// what a registered function computes from its arguments
pub uninterp spec fn eval_ev(e: Evaluator, args: Seq<JV>) -> JV;

/// an array is held in memory
pub mod vxast {
use super::*;
broadcast use {vx_axioms};
pub broadcast axiom fn ax_array_len(a: Vec<Value>)
  ensures #[trigger] a@.len() < 9007199254740991;

// RFC 9535, 2.3.1 - 2.3.3
pub open spec fn arr_children(a: Seq<Value>) -> RS { Seq::new(a.len(), |i: int| (seq![PE::I(i)], a[i])) }
pub open spec fn obj_children(m: Map) -> RS { Seq::new(m.entries().len(), |i: int| (seq![PE::N(m.entries()[i].0@)], m.entries()[i].1)) }
pub open spec fn children(v: Value) -> RS {
  match v { Value::Array(a) => arr_children(a@), Value::Object(m) => obj_children(m), _ => seq![] }
}
pub open spec fn rs_name(k: Seq<char>, v: Value) -> RS {
  match v {
    Value::Object(m) => match mget(m, k) { Some(x) => seq![(seq![PE::N(k)], x)], None => seq![] },
    _ => seq![],
  }
}
pub open spec fn rs_index(i: int, v: Value) -> RS {
  match v {
    Value::Array(a) => {
      let j = if i < 0 { a@.len() + i } else { i };
      if 0 <= j < a@.len() { seq![(seq![PE::I(j)], a@[j])] } else { seq![] }
    }
    _ => seq![],
  }
}
// RFC 9535, 2.3.4.2.2
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn norm_ix(i: int, len: int) -> int { if i >= 0 { i } else { len + i } }
pub open spec fn sl_start(start: Option<Integer>, step: int, len: int) -> int {
  match start { Some(i) => i.v(), None => if step >= 0 { 0 } else { len - 1 } }
}
pub open spec fn sl_end(end: Option<Integer>, step: int, len: int) -> int {
  match end { Some(i) => i.v(), None => if step >= 0 { len } else { -len - 1 } }
}
pub open spec fn sl_lower(s: Slice, step: int, len: int) -> int {
  let n_start = norm_ix(sl_start(s.start, step, len), len);
  let n_end = norm_ix(sl_end(s.end, step, len), len);
  if step >= 0 { imin(imax(n_start, 0), len) } else { imin(imax(n_end, -1), len - 1) }
}
pub open spec fn sl_upper(s: Slice, step: int, len: int) -> int {
  let n_start = norm_ix(sl_start(s.start, step, len), len);
  let n_end = norm_ix(sl_end(s.end, step, len), len);
  if step >= 0 { imin(imax(n_end, 0), len) } else { imin(imax(n_start, -1), len - 1) }
}
pub open spec fn el(a: Seq<Value>, i: int) -> (Seq<PE>, Value) { (seq![PE::I(i)], a[i]) }
pub open spec fn sl_up(a: Seq<Value>, i: int, upper: int, step: int) -> RS
  decreases imax(upper - i, 0)
{
  if step > 0 && i < upper { seq![el(a, i)] + sl_up(a, i + step, upper, step) } else { seq![] }
}
pub open spec fn sl_down(a: Seq<Value>, i: int, lower: int, step: int) -> RS
  decreases imax(i - lower, 0)
{
  if step < 0 && lower < i { seq![el(a, i)] + sl_down(a, i + step, lower, step) } else { seq![] }
}
pub open spec fn sl_step(s: Slice) -> int { match s.step { Some(i) => i.v(), None => 1 } }
pub open spec fn rs_slice(s: Slice, v: Value) -> RS {
  match v {
    Value::Array(a) => {
      let step = sl_step(s);
      let len = a@.len() as int;
      if step > 0 { sl_up(a@, sl_lower(s, step, len), sl_upper(s, step, len), step) }
      else if step < 0 { sl_down(a@, sl_upper(s, step, len), sl_lower(s, step, len), step) }
      else { seq![] }
    }
    _ => seq![],
  }
}
#[verifier::opaque]
pub open spec fn rs_sel(sel: Selector, cur: Value, root: Value) -> RS
  decreases sel, 0int, cur, 0int, 0int
{
  match sel {
    Selector::Name(n) => rs_name(n.0@, cur),
    Selector::Wildcard => children(cur),
    Selector::Index(i) => rs_index(i.0.v(), cur),
    Selector::ArraySlice(s) => rs_slice(s, cur),
    Selector::Filter(f) => rs_filter(f, cur, root, children(cur).len() as int),
  }
}
/// the first n children that pass
#[verifier::opaque]
pub open spec fn rs_filter(f: Filter, cur: Value, root: Value, n: int) -> RS
  decreases f, 0int, cur, 0int, n
{
  if n <= 0 { seq![] }
  else {
    let c = children(cur)[n - 1];
    if test_or(f.0, c.1, root, f.0.0@.len() as int) { rs_filter(f, cur, root, n - 1).push(c) } else { rs_filter(f, cur, root, n - 1) }
  }
}
// RFC 9535, 2.5
/// the first n selectors of a segment
#[verifier::opaque]
pub open spec fn rs_sels(seg: Segment, cur: Value, root: Value, n: int) -> RS
  decreases seg, 0int, cur, 0int, n
{
  if n <= 0 { seq![] } else {
    match seg {
      Segment::LongHand(s) => if n <= s@.len() { rs_sels(seg, cur, root, n - 1) + rs_sel(s@[n - 1], cur, root) } else { seq![] },
      _ => seq![],
    }
  }
}
#[verifier::opaque]
pub open spec fn rs_seg(seg: Segment, cur: Value, root: Value) -> RS
  decreases seg, 1int, cur, 0int, 0int
{
  match seg {
    Segment::LongHand(s) => rs_sels(seg, cur, root, s@.len() as int),
    Segment::DotName(k) => rs_name(k@, cur),
    Segment::Wildcard => children(cur),
  }
}
#[verifier::opaque]
pub open spec fn rs_qseg(qs: QuerySegment, cur: Value, root: Value) -> RS
  decreases qs, 1int, cur, 1int, 0int
{
  if qs.kind is Descendant { rs_seg(qs.segment, cur, root) + rs_desc(qs, cur, root, children(cur).len() as int) }
  else { rs_seg(qs.segment, cur, root) }
}
/// the segment applied to everything below the first n children, them included
#[verifier::opaque]
pub open spec fn rs_desc(qs: QuerySegment, cur: Value, root: Value, n: int) -> RS
  decreases qs, 1int, cur, 0int, n
{
  if n <= 0 { seq![] } else {
    match cur {
      Value::Array(a) => if n <= a@.len() { rs_desc(qs, cur, root, n - 1) + prefix(rs_qseg(qs, a@[n - 1], root), seq![PE::I(n - 1)]) } else { seq![] },
      Value::Object(m) => if n <= m.entries().len() {
        rs_desc(qs, cur, root, n - 1) + prefix(rs_qseg(qs, m.entries()[n - 1].1, root), seq![PE::N(m.entries()[n - 1].0@)])
      } else { seq![] },
      _ => seq![],
    }
  }
}
/// a segment applied to the first m nodes of a list
#[verifier::opaque]
pub open spec fn rs_flat(qs: QuerySegment, l: RS, root: Value, m: int) -> RS
  decreases qs, 2int, root, 0int, m
{
  if m <= 0 || m > l.len() { seq![] } else { rs_flat(qs, l, root, m - 1) + prefix(rs_qseg(qs, l[m - 1].1, root), l[m - 1].0) }
}
/// the first n segments of a query
#[verifier::opaque]
pub open spec fn rs_query(q: Query, cur: Value, root: Value, n: int) -> RS
  decreases q, 0int, cur, 0int, n
{
  if n <= 0 { seq![(seq![], if q.kind is Root { root } else { cur })] }
  else if n > q.segments@.len() { seq![] }
  else {
    let l = rs_query(q, cur, root, n - 1);
    rs_flat(q.segments@[n - 1], l, root, l.len() as int)
  }
}
#[verifier::opaque]
pub open spec fn rs(q: Query, cur: Value, root: Value) -> RS
  decreases q, 1int, cur, 0int, 0int
{ rs_query(q, cur, root, q.segments@.len() as int) }

// RFC 9535, 2.3.5
#[verifier::opaque]
pub open spec fn test_or(e: LogicalOrExpr, cur: Value, root: Value, n: int) -> bool
  decreases e, 0int, cur, 0int, n
{
  n > 0 && n <= e.0@.len() && (test_or(e, cur, root, n - 1) || test_and(e.0@[n - 1], cur, root, e.0@[n - 1].0@.len() as int))
}
#[verifier::opaque]
pub open spec fn test_and(e: LogicalAndExpr, cur: Value, root: Value, n: int) -> bool
  decreases e, 0int, cur, 0int, n
{
  n <= 0 || n > e.0@.len() || (test_and(e, cur, root, n - 1) && test_basic(e.0@[n - 1], cur, root))
}
#[verifier::opaque]
pub open spec fn test_basic(b: BasicExpr, cur: Value, root: Value) -> bool
  decreases b, 0int, cur, 0int, 0int
{
  match b {
    BasicExpr::Paren(o) => test_or(o, cur, root, o.0@.len() as int),
    BasicExpr::NotParen(o) => !test_or(o, cur, root, o.0@.len() as int),
    BasicExpr::Relation(c) => test_cmp(c, cur, root),
    BasicExpr::Exist(x) => rs(x.0, cur, root).len() > 0,
    BasicExpr::NotExist(x) => !(rs(x.0, cur, root).len() > 0),
    BasicExpr::FuncExpr(f) => truth(eval_func(f, cur, root)),
    BasicExpr::NotFuncExpr(f) => !truth(eval_func(f, cur, root)),
  }
}
/// not specified: a call in a test gives a logical value or a nodelist
pub open spec fn value_test(v: Value) -> bool {
  match v { Value::Null => false, Value::Bool(b) => b, Value::Number(n) => !num_same(n, num_int(0)), _ => true }
}
pub open spec fn truth(j: JV) -> bool {
  match j { JV::Nodes(s) => s.len() > 0, JV::Logical(b) => b, JV::Val(v) => value_test(v), JV::Node(v) => value_test(v), JV::Nothing => false }
}
#[verifier::opaque]
pub open spec fn test_cmp(c: ComparisonExpr, cur: Value, root: Value) -> bool
  decreases c, 0int, cur, 0int, 0int
{
  let l = comp_val(c.left, cur, root);
  let r = comp_val(c.right, cur, root);
  cmp_op(c.op, l, r)
}
// Known findings (known-findings.txt): where this tree is known to differ from RFC 9535, the contracts
// describe what it does instead; the lemmas of the properties C08 and C09 show that it agrees with the
// RFC everywhere else. The driver retries with a flag turned off when the function concerned no longer
// meets its contract, so that a repaired tree verifies too.
pub open spec fn kf_order() -> bool { true }
pub open spec fn kf_nested_eq() -> bool { true }
pub open spec fn kf_singular_negative() -> bool { true }

pub open spec fn cmp_op(op: ComparisonOperator, l: JV, r: JV) -> bool {
  if kf_order() { cmp_found(op, l, r) } else { cmp_table(op, l, r) }
}
/// as found: the operators other than == and != first ask for operands of the same type
pub open spec fn cmp_found(op: ComparisonOperator, l: JV, r: JV) -> bool {
  match op {
    ComparisonOperator::EqualTo => jv_eq(l, r),
    ComparisonOperator::NotEqualTo => !jv_eq(l, r),
    ComparisonOperator::LessThan => jv_same(l, r) && jv_lt(l, r),
    ComparisonOperator::GreaterThan => jv_same(l, r) && !jv_lt(l, r) && !jv_eq(l, r),
    ComparisonOperator::LessThanEqualTo => jv_same(l, r) && (jv_lt(l, r) || jv_eq(l, r)),
    ComparisonOperator::GreaterThanEqualTo => jv_same(l, r) && !jv_lt(l, r),
  }
}
pub open spec fn val_same(a: Value, b: Value) -> bool {
  match (a, b) {
    (Value::Null, Value::Null) => true,
    (Value::Bool(_), Value::Bool(_)) => true,
    (Value::Number(_), Value::Number(_)) => true,
    (Value::String(_), Value::String(_)) => true,
    (Value::Array(_), Value::Array(_)) => true,
    (Value::Object(_), Value::Object(_)) => true,
    _ => false,
  }
}
pub open spec fn jv_same(a: JV, b: JV) -> bool {
  match (jv_val(a), jv_val(b)) { (Some(x), Some(y)) => val_same(x, y), _ => false }
}
/// RFC 9535, 2.3.5.2.2
pub open spec fn cmp_table(op: ComparisonOperator, l: JV, r: JV) -> bool {
  match op {
    ComparisonOperator::EqualTo => jv_eq(l, r),
    ComparisonOperator::NotEqualTo => !jv_eq(l, r),
    ComparisonOperator::LessThan => jv_lt(l, r),
    ComparisonOperator::GreaterThan => jv_lt(r, l),
    ComparisonOperator::LessThanEqualTo => jv_lt(l, r) || jv_eq(l, r),
    ComparisonOperator::GreaterThanEqualTo => jv_lt(r, l) || jv_eq(l, r),
  }
}
pub open spec fn jv_val(j: JV) -> Option<Value> {
  match j { JV::Val(v) => Some(v), JV::Node(v) => Some(v), _ => None }
}
pub open spec fn jv_eq(a: JV, b: JV) -> bool {
  match (jv_val(a), jv_val(b)) {
    (Some(x), Some(y)) => val_eq_found(x, y),
    (None, None) => a is Nothing && b is Nothing,
    _ => false,
  }
}
pub open spec fn jv_lt(a: JV, b: JV) -> bool {
  match (jv_val(a), jv_val(b)) { (Some(x), Some(y)) => val_lt(x, y), _ => false }
}
pub open spec fn val_lt(a: Value, b: Value) -> bool {
  match (a, b) {
    (Value::Number(x), Value::Number(y)) => nval(x) < nval(y),
    (Value::String(x), Value::String(y)) => str_lt(x@, y@),
    _ => false,
  }
}
pub open spec fn sj_eq(a: Value, b: Value) -> bool
  decreases a
{
  match (a, b) {
    (Value::Null, Value::Null) => true,
    (Value::Bool(x), Value::Bool(y)) => x == y,
    (Value::String(x), Value::String(y)) => x@ == y@,
    (Value::Number(x), Value::Number(y)) => num_same(x, y),
    (Value::Array(x), Value::Array(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> sj_eq(#[trigger] x@[i], y@[i]),
    (Value::Object(x), Value::Object(y)) => x.entries().len() == y.entries().len()
      && forall|i: int| 0 <= i < x.entries().len() ==> match mget(y, (#[trigger] x.entries()[i]).0@) { Some(v) => sj_eq(x.entries()[i].1, v), None => false },
    _ => false,
  }
}

pub open spec fn val_eq_found(a: Value, b: Value) -> bool {
  if kf_nested_eq() {
    match (a, b) { (Value::Number(x), Value::Number(y)) => nval(x) == nval(y), _ => sj_eq(a, b) }
  } else { val_eq(a, b) }
}
/// deep equality by numeric value
pub open spec fn val_eq(a: Value, b: Value) -> bool
  decreases a
{
  match (a, b) {
    (Value::Null, Value::Null) => true,
    (Value::Bool(x), Value::Bool(y)) => x == y,
    (Value::Number(x), Value::Number(y)) => nval(x) == nval(y),
    (Value::String(x), Value::String(y)) => x@ == y@,
    (Value::Array(x), Value::Array(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> val_eq(#[trigger] x@[i], y@[i]),
    (Value::Object(x), Value::Object(y)) => x.entries().len() == y.entries().len()
      && forall|i: int| 0 <= i < x.entries().len() ==> match mget(y, (#[trigger] x.entries()[i]).0@) { Some(v) => val_eq(x.entries()[i].1, v), None => false },
    _ => false,
  }
}
#[verifier::opaque]
pub open spec fn comp_val(c: Comparable, cur: Value, root: Value) -> JV
  decreases c, 0int, cur, 0int, 0int
{
  match c {
    Comparable::Literal(l) => JV::Val(lit_val(l)),
    Comparable::SingularQuery(s) => sq_jv(s, cur, root),
    Comparable::FunctionExpr(f) => eval_func(f, cur, root),
  }
}
pub open spec fn lit_val(l: Literal) -> Value {
  match l { Literal::Number(n) => Value::Number(n), Literal::String(s) => Value::String(s), Literal::Bool(b) => Value::Bool(b), Literal::Null => Value::Null }
}
pub open spec fn sq_jv(s: SingularQuery, cur: Value, root: Value) -> JV {
  match sq_val(s, cur, root) { Some(v) => JV::Node(v), None => JV::Nothing }
}
/// the node reached by the first n segments
pub open spec fn sq_go(s: Seq<SingularQuerySegment>, from: Value, n: int) -> Option<Value>
  decreases n
{
  if n <= 0 { Some(from) } else {
    match sq_go(s, from, n - 1) {
      None => None,
      Some(v) => {
        let r = match s[n - 1] { SingularQuerySegment::Name(k) => rs_name(k.0@, v), SingularQuerySegment::Index(i) => if kf_singular_negative() && i.0.v() < 0 { seq![] } else { rs_index(i.0.v(), v) } };
        if r.len() > 0 { Some(r[0].1) } else { None }
      }
    }
  }
}
pub open spec fn sq_val(s: SingularQuery, cur: Value, root: Value) -> Option<Value> {
  sq_go(s.segments@, if s.kind is Absolute { root } else { cur }, s.segments@.len() as int)
}
pub open spec fn sq_sel(s: Selector) -> Option<SingularQuerySegment> {
  match s { Selector::Name(n) => Some(SingularQuerySegment::Name(n)), Selector::Index(i) => Some(SingularQuerySegment::Index(i)), _ => None }
}
pub open spec fn sq_seg(s: QuerySegment) -> Option<SingularQuerySegment> {
  if s.kind is Descendant { None } else {
    match s.segment {
      Segment::LongHand(v) => if v@.len() == 1 { sq_sel(v@[0]) } else { None },
      Segment::DotName(n) => Some(SingularQuerySegment::Name(Name(n))),
      Segment::Wildcard => None,
    }
  }
}
/// s is q read as a singular query
pub open spec fn sq_of(q: Query, s: SingularQuery) -> bool {
  (q.kind is Root <==> s.kind is Absolute) && s.segments@.len() == q.segments@.len()
    && forall|i: int| 0 <= i < q.segments@.len() ==> sq_seg(#[trigger] q.segments@[i]) == Some(s.segments@[i])
}
// RFC 9535, 2.4
#[verifier::opaque]
pub open spec fn eval_func(f: FunctionExpr<Validated>, cur: Value, root: Value) -> JV
  decreases f, 1int, cur, 0int, 0int
{ eval_ev(*f.validated.evaluator, eval_args(f, cur, root, f.args@.len() as int)) }
#[verifier::opaque]
pub open spec fn eval_args(f: FunctionExpr<Validated>, cur: Value, root: Value, n: int) -> Seq<JV>
  decreases f, 0int, cur, 0int, n
{
  if n <= 0 || n > f.args@.len() { seq![] } else { eval_args(f, cur, root, n - 1).push(eval_arg(f.args@[n - 1], cur, root)) }
}
#[verifier::opaque]
pub open spec fn eval_arg(a: FunctionExprArg, cur: Value, root: Value) -> JV
  decreases a, 0int, cur, 0int, 0int
{
  match a {
    FunctionExprArg::Literal(l) => JV::Val(lit_val(l)),
    FunctionExprArg::SingularQuery(s) => sq_jv(s, cur, root),
    FunctionExprArg::FilterQuery(q) => JV::Nodes(nodes(rs(q, cur, root))),
    FunctionExprArg::LogicalExpr(e) => JV::Logical(test_or(e, cur, root, e.0@.len() as int)),
    FunctionExprArg::FunctionExpr(f) => eval_func(f, cur, root),
  }
}
} // mod vxast
pub use vxast::*;

/// one step of each definition
pub mod vxun {
use super::*;
pub broadcast proof fn un_rs(q: Query, cur: Value, root: Value)
  ensures #![trigger rs(q, cur, root)] rs(q, cur, root) == rs_query(q, cur, root, q.segments@.len() as int)
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_query0(q: Query, cur: Value, root: Value)
  ensures #![trigger rs_query(q, cur, root, 0)] rs_query(q, cur, root, 0) == seq![(Seq::<PE>::empty(), if q.kind is Root { root } else { cur })]
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_query(q: Query, cur: Value, root: Value, n: int, m: int)
  requires 0 < n <= q.segments@.len(), m == n - 1
  ensures #![trigger rs_query(q, cur, root, n), rs_query(q, cur, root, m)] rs_query(q, cur, root, n) == rs_flat(q.segments@[m], rs_query(q, cur, root, m), root, rs_query(q, cur, root, m).len() as int)
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_flat0(qs: QuerySegment, l: RS, root: Value)
  ensures #![trigger rs_flat(qs, l, root, 0)] rs_flat(qs, l, root, 0) == Seq::<(Seq<PE>, Value)>::empty()
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_flat(qs: QuerySegment, l: RS, root: Value, n: int, m: int)
  requires 0 < n <= l.len(), m == n - 1
  ensures #![trigger rs_flat(qs, l, root, n), rs_flat(qs, l, root, m)] rs_flat(qs, l, root, n) == rs_flat(qs, l, root, m) + prefix(rs_qseg(qs, l[m].1, root), l[m].0)
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_qseg(qs: QuerySegment, cur: Value, root: Value)
  ensures #![trigger rs_qseg(qs, cur, root)] rs_qseg(qs, cur, root) == (if qs.kind is Descendant { rs_seg(qs.segment, cur, root) + rs_desc(qs, cur, root, children(cur).len() as int) } else { rs_seg(qs.segment, cur, root) })
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_desc0(qs: QuerySegment, cur: Value, root: Value)
  ensures #![trigger rs_desc(qs, cur, root, 0)] rs_desc(qs, cur, root, 0) == Seq::<(Seq<PE>, Value)>::empty()
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_desc(qs: QuerySegment, cur: Value, root: Value, n: int, m: int)
  requires 0 < n <= children(cur).len(), m == n - 1
  ensures #![trigger rs_desc(qs, cur, root, n), rs_desc(qs, cur, root, m)] rs_desc(qs, cur, root, n) == rs_desc(qs, cur, root, m) + prefix(rs_qseg(qs, children(cur)[m].1, root), children(cur)[m].0)
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_seg(s: Segment, cur: Value, root: Value)
  ensures #![trigger rs_seg(s, cur, root)] rs_seg(s, cur, root) == (match s { Segment::LongHand(l) => rs_sels(s, cur, root, l@.len() as int), Segment::DotName(k) => rs_name(k@, cur), Segment::Wildcard => children(cur) })
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_sels0(s: Segment, cur: Value, root: Value)
  ensures #![trigger rs_sels(s, cur, root, 0)] rs_sels(s, cur, root, 0) == Seq::<(Seq<PE>, Value)>::empty()
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_sels(s: Segment, cur: Value, root: Value, n: int, m: int)
  requires s is LongHand, 0 < n <= s->LongHand_0@.len(), m == n - 1
  ensures #![trigger rs_sels(s, cur, root, n), rs_sels(s, cur, root, m)] rs_sels(s, cur, root, n) == rs_sels(s, cur, root, m) + rs_sel(s->LongHand_0@[m], cur, root)
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_sel(s: Selector, cur: Value, root: Value)
  ensures #![trigger rs_sel(s, cur, root)] rs_sel(s, cur, root) == (match s { Selector::Name(n) => rs_name(n.0@, cur), Selector::Wildcard => children(cur), Selector::Index(i) => rs_index(i.0.v(), cur), Selector::ArraySlice(s) => rs_slice(s, cur), Selector::Filter(f) => rs_filter(f, cur, root, children(cur).len() as int) })
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_filter0(f: Filter, cur: Value, root: Value)
  ensures #![trigger rs_filter(f, cur, root, 0)] rs_filter(f, cur, root, 0) == Seq::<(Seq<PE>, Value)>::empty()
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_filter(f: Filter, cur: Value, root: Value, n: int, m: int)
  requires 0 < n, m == n - 1
  ensures #![trigger rs_filter(f, cur, root, n), rs_filter(f, cur, root, m)] rs_filter(f, cur, root, n) == (if test_or(f.0, children(cur)[m].1, root, f.0.0@.len() as int) { rs_filter(f, cur, root, m).push(children(cur)[m]) } else { rs_filter(f, cur, root, m) })
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_or0(e: LogicalOrExpr, cur: Value, root: Value)
  ensures #![trigger test_or(e, cur, root, 0)] !test_or(e, cur, root, 0)
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_or(e: LogicalOrExpr, cur: Value, root: Value, n: int, m: int)
  requires 0 < n <= e.0@.len(), m == n - 1
  ensures #![trigger test_or(e, cur, root, n), test_or(e, cur, root, m)] test_or(e, cur, root, n) == (test_or(e, cur, root, m) || test_and(e.0@[m], cur, root, e.0@[m].0@.len() as int))
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_and0(e: LogicalAndExpr, cur: Value, root: Value)
  ensures #![trigger test_and(e, cur, root, 0)] test_and(e, cur, root, 0)
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_and(e: LogicalAndExpr, cur: Value, root: Value, n: int, m: int)
  requires 0 < n <= e.0@.len(), m == n - 1
  ensures #![trigger test_and(e, cur, root, n), test_and(e, cur, root, m)] test_and(e, cur, root, n) == (test_and(e, cur, root, m) && test_basic(e.0@[m], cur, root))
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_basic(b: BasicExpr, cur: Value, root: Value)
  ensures #![trigger test_basic(b, cur, root)] test_basic(b, cur, root) == (match b {
    BasicExpr::Paren(o) => test_or(o, cur, root, o.0@.len() as int),
    BasicExpr::NotParen(o) => !test_or(o, cur, root, o.0@.len() as int),
    BasicExpr::Relation(c) => test_cmp(c, cur, root),
    BasicExpr::Exist(x) => rs(x.0, cur, root).len() > 0,
    BasicExpr::NotExist(x) => !(rs(x.0, cur, root).len() > 0),
    BasicExpr::FuncExpr(f) => truth(eval_func(f, cur, root)),
    BasicExpr::NotFuncExpr(f) => !truth(eval_func(f, cur, root)),
  })
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_cmp(c: ComparisonExpr, cur: Value, root: Value)
  ensures #![trigger test_cmp(c, cur, root)] test_cmp(c, cur, root) == cmp_op(c.op, comp_val(c.left, cur, root), comp_val(c.right, cur, root))
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_comp(c: Comparable, cur: Value, root: Value)
  ensures #![trigger comp_val(c, cur, root)] comp_val(c, cur, root) == (match c { Comparable::Literal(l) => JV::Val(lit_val(l)), Comparable::SingularQuery(s) => sq_jv(s, cur, root), Comparable::FunctionExpr(f) => eval_func(f, cur, root) })
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_func(f: FunctionExpr<Validated>, cur: Value, root: Value)
  ensures #![trigger eval_func(f, cur, root)] eval_func(f, cur, root) == eval_ev(*f.validated.evaluator, eval_args(f, cur, root, f.args@.len() as int))
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_args0(f: FunctionExpr<Validated>, cur: Value, root: Value)
  ensures #![trigger eval_args(f, cur, root, 0)] eval_args(f, cur, root, 0) == Seq::<JV>::empty()
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_args(f: FunctionExpr<Validated>, cur: Value, root: Value, n: int, m: int)
  requires 0 < n <= f.args@.len(), m == n - 1
  ensures #![trigger eval_args(f, cur, root, n), eval_args(f, cur, root, m)] eval_args(f, cur, root, n) == eval_args(f, cur, root, m).push(eval_arg(f.args@[m], cur, root))
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
pub broadcast proof fn un_arg(a: FunctionExprArg, cur: Value, root: Value)
  ensures #![trigger eval_arg(a, cur, root)] eval_arg(a, cur, root) == (match a {
    FunctionExprArg::Literal(l) => JV::Val(lit_val(l)),
    FunctionExprArg::SingularQuery(s) => sq_jv(s, cur, root),
    FunctionExprArg::FilterQuery(q) => JV::Nodes(nodes(rs(q, cur, root))),
    FunctionExprArg::LogicalExpr(e) => JV::Logical(test_or(e, cur, root, e.0@.len() as int)),
    FunctionExprArg::FunctionExpr(f) => eval_func(f, cur, root),
  })
{ reveal(rs_sel); reveal(rs_filter); reveal(rs_sels); reveal(rs_seg); reveal(rs_qseg); reveal(rs_desc); reveal(rs_flat); reveal(rs_query); reveal(rs); reveal(test_or); reveal(test_and); reveal(test_basic); reveal(test_cmp); reveal(comp_val); reveal(eval_func); reveal(eval_args); reveal(eval_arg); }
} // mod vxun
pub broadcast group vx_unfold {
  vxun::un_rs, vxun::un_query0, vxun::un_query, vxun::un_flat0, vxun::un_flat, vxun::un_qseg, vxun::un_desc0, vxun::un_desc, vxun::un_seg, vxun::un_sels0, vxun::un_sels, vxun::un_sel, vxun::un_filter0, vxun::un_filter, vxun::un_or0, vxun::un_or, vxun::un_and0, vxun::un_and, vxun::un_basic, vxun::un_cmp, vxun::un_comp, vxun::un_func, vxun::un_args0, vxun::un_args, vxun::un_arg,
}
