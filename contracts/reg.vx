// ------------------------------------------------------------- the functions
// The validators and evaluators that `#[register]` and `#[function]` generate are taken from the macro-expanded
// source of /repo (rustc -Zunpretty=expanded), on every run.

//@type ConversionError
/// std::collections::HashMap with string keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: Vec<(K, V)> }
impl<V> HashMap<&'static str, V> {
  pub uninterp spec fn tab(&self) -> vstd::map::Map<Seq<char>, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.tab() == vstd::map::Map::<Seq<char>, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: &'static str, v: V) -> (r: Option<V>)
    ensures final(self).tab() == old(self).tab().insert(k@, v)
  { unimplemented!() }
}

/// the regex crate
#[verifier::external_body]
pub struct VxRegex { x: u8 }
#[verifier::external_body]
pub struct VxRegexError { x: u8 }
/// whether a text is a regular expression; whether it matches somewhere; whether it matches the whole (RFC 9535, 2.4.6 and 2.4.7)
pub uninterp spec fn re_ok(p: Seq<char>) -> bool;
pub uninterp spec fn re_finds(p: Seq<char>, s: Seq<char>) -> bool;
pub uninterp spec fn re_search(p: Seq<char>, s: Seq<char>) -> bool;
pub uninterp spec fn re_match(p: Seq<char>, s: Seq<char>) -> bool;
impl VxRegex {
  pub uninterp spec fn pat(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn vx_new(p: &str) -> (r: Result<VxRegex, VxRegexError>)
    ensures match r { Ok(x) => re_ok(p@) && x.pat() == p@, Err(_) => !re_ok(p@) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_is_match<S: VxStr + ?Sized>(&self, s: &S) -> (r: bool)
    ensures r == re_finds(self.pat(), s.sv())
  { unimplemented!() }
}
pub mod vxre {
use super::*;
/// how a valid pattern can be anchored: it is kept together by a group; `.` leaves out both line ends (R)
pub open spec fn re_in(a: Seq<char>, p: Seq<char>, b: Seq<char>) -> Seq<char> { a + p + b }
pub open spec fn re_is_match(w: Seq<char>, p: Seq<char>, s: Seq<char>) -> bool { re_ok(w) && re_finds(w, s) == re_match(p, s) }
pub open spec fn re_is_search(w: Seq<char>, p: Seq<char>, s: Seq<char>) -> bool { re_ok(w) && re_finds(w, s) == re_search(p, s) }
pub broadcast axiom fn ax_re_search(p: Seq<char>, s: Seq<char>)
  ensures re_ok(p) && #[trigger] re_search(p, s) == re_search(p, s) ==>
    re_is_search("(?R)("@ + p + ")"@, p, s) && re_is_search("(?R)(?:"@ + p + ")"@, p, s) && re_is_search("(?R:"@ + p + ")"@, p, s);
pub broadcast axiom fn ax_re_match(p: Seq<char>, s: Seq<char>)
  ensures re_ok(p) && #[trigger] re_match(p, s) == re_match(p, s) ==>
    re_is_match("(?R)^("@ + p + ")$"@, p, s) && re_is_match("(?R)^(?:"@ + p + ")$"@, p, s)
    && re_is_match("(?R)\\A("@ + p + ")\\z"@, p, s) && re_is_match("(?R)\\A(?:"@ + p + ")\\z"@, p, s)
    && re_is_match("^(?R:"@ + p + ")$"@, p, s);
}

pub mod vxreg {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_path_lemmas};
// RFC 9535, 2.4.3: the type of an argument, and the parameter types it fits
pub open spec fn conv(k: FunctionArgType, t: JsonPathType) -> bool {
  match t {
    JsonPathType::Value => k is Literal || k is Value || k is SingularQuery,
    JsonPathType::Nodes => k is Nodelist || k is SingularQuery,
    JsonPathType::Logical => k is Logical || k is Nodelist || k is SingularQuery,
  }
}
pub open spec fn sel_singular(s: Selector) -> bool { s is Name || s is Index }
pub open spec fn seg_singular(s: Segment) -> bool {
  match s {
    Segment::LongHand(l) => l@.len() == 0 || (l@.len() == 1 && sel_singular(l@[0])),
    Segment::DotName(_) => true,
    Segment::Wildcard => false,
  }
}
pub open spec fn qseg_singular(s: QuerySegment) -> bool { s.kind is Child && seg_singular(s.segment) }
pub open spec fn q_singular(q: Query) -> bool { forall|i: int| 0 <= i < q.segments@.len() ==> qseg_singular(#[trigger] q.segments@[i]) }
/// the result type of a built-in function
pub open spec fn reg_result(name: Seq<char>) -> Option<FunctionArgType> {
  if name == "length"@ || name == "count"@ || name == "value"@ { Some(FunctionArgType::Value) }
  else if name == "match"@ || name == "search"@ { Some(FunctionArgType::Logical) }
  else { None }
}
pub open spec fn fn_result(name: Seq<char>) -> Option<FunctionArgType> {
  match inv_find(inventory_s(), name, 0) { Some(f) => Some(f.result_type), None => reg_result(name) }
}
pub open spec fn kind_of(a: FunctionExprArg) -> Option<FunctionArgType> {
  match a {
    FunctionExprArg::Literal(_) => Some(FunctionArgType::Literal),
    FunctionExprArg::SingularQuery(_) => Some(FunctionArgType::SingularQuery),
    FunctionExprArg::FilterQuery(q) => Some(if q_singular(q) { FunctionArgType::SingularQuery } else { FunctionArgType::Nodelist }),
    FunctionExprArg::LogicalExpr(_) => Some(FunctionArgType::Logical),
    FunctionExprArg::FunctionExpr(f) => fn_result(f.name@),
  }
}
pub open spec fn fits(a: FunctionExprArg, t: JsonPathType) -> bool { match kind_of(a) { Some(k) => conv(k, t), None => false } }
/// the arguments fit the parameters
pub open spec fn well_typed(ts: Seq<JsonPathType>, args: Seq<FunctionExprArg>) -> bool {
  args.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> fits(#[trigger] args[i], ts[i])
}
/// an argument as a value of the parameter's type
pub open spec fn conv_jv(j: JV, t: JsonPathType) -> Option<JV> {
  match t {
    JsonPathType::Value => match j { JV::Nodes(_) => None, JV::Logical(_) => None, _ => Some(j) },
    JsonPathType::Nodes => match j { JV::Nodes(_) => Some(j), JV::Node(v) => Some(JV::Nodes(seq![v])), JV::Nothing => Some(JV::Nodes(seq![])), _ => None },
    JsonPathType::Logical => match j {
      JV::Nodes(n) => Some(JV::Logical(n.len() > 0)), JV::Logical(_) => Some(j), JV::Node(_) => Some(JV::Logical(true)),
      JV::Nothing => Some(JV::Logical(false)), JV::Val(_) => None,
    },
  }
}
pub open spec fn all_conv(ts: Seq<JsonPathType>, js: Seq<JV>) -> bool {
  js.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> conv_jv(#[trigger] js[i], ts[i]) is Some
}
pub open spec fn nth_conv(ts: Seq<JsonPathType>, js: Seq<JV>, i: int) -> JV { conv_jv(js[i], ts[i])->Some_0 }
/// a value of the type
pub open spec fn of_type(j: JV, t: FunctionArgType) -> bool {
  match t {
    FunctionArgType::Value => j is Val || j is Node || j is Nothing,
    FunctionArgType::Nodelist => j is Nodes,
    FunctionArgType::Logical => j is Logical,
    _ => false,
  }
}
pub open spec fn jn(n: NodesType) -> JV { JV::Nodes(vals(n.0.0@)) }
pub open spec fn jl(l: LogicalType) -> JV { JV::Logical(l is True) }
pub open spec fn jval(v: ValueType) -> JV { match v { ValueType::Value(v) => JV::Val(v), ValueType::Node(v) => JV::Node(*v), ValueType::Nothing => JV::Nothing } }

// RFC 9535, 2.4.4 - 2.4.8
pub open spec fn jint(n: nat) -> JV { JV::Val(Value::Number(num_usize(n))) }
pub open spec fn val_len(v: Value) -> Option<nat> {
  match v { Value::String(s) => Some(s@.len()), Value::Array(a) => Some(a@.len()), Value::Object(m) => Some(m.entries().len()), _ => None }
}
pub open spec fn jvv(j: JV) -> Option<Value> { match j { JV::Val(v) => Some(v), JV::Node(v) => Some(v), _ => None } }
pub open spec fn fn_length(a: JV) -> JV {
  match jvv(a) { Some(v) => match val_len(v) { Some(n) => jint(n), None => JV::Nothing }, None => JV::Nothing }
}
pub open spec fn fn_count(a: JV) -> JV { jint(a->Nodes_0.len()) }
pub open spec fn fn_value(a: JV) -> JV { if a->Nodes_0.len() == 1 { JV::Node(a->Nodes_0[0]) } else { JV::Nothing } }
pub open spec fn fn_match(a: JV, b: JV) -> JV {
  match (jvv(a), jvv(b)) { (Some(Value::String(s)), Some(Value::String(p))) => JV::Logical(re_ok(p@) && re_match(p@, s@)), _ => JV::Logical(false) }
}
pub open spec fn fn_search(a: JV, b: JV) -> JV {
  match (jvv(a), jvv(b)) { (Some(Value::String(s)), Some(Value::String(p))) => JV::Logical(re_ok(p@) && re_search(p@, s@)), _ => JV::Logical(false) }
}
}
pub use vxreg::*;
pub use vxre::*;

pub mod f_reg {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_int_axioms, vx_path_lemmas, ax_vec_ext};

//@fn <NodesType as Deref>::deref props=C10,C11
@ensures
*$r == $self.0,
//@end
//@fn <NodesType as From<NodeList>>::from props=C10,C11
@spec
open spec fn from_post(v: NodeList<'a>, r: Self) -> bool { r.0 == v }
//@end
//@fn NodesType::all props=C11
@ensures
vals($r@) == vals($self.0.0@),
//@end
//@fn <NodesType as IntoIterator>::into_iter props=C11
@ensures
$r.rest() == $self.0.0@,
//@end
//@fn <NodesType as From<Vec<&Value>>>::from props=C11
@spec
open spec fn from_post(v: Vec<&'a Value>, r: Self) -> bool { r.0.0@ == v@ }
//@end
//@fn <NodesType as TryFrom<JsonPathValue>>::try_from props=C10,C11
@spec
open spec fn try_post(v: JsonPathValue<'a>, r: Result<Self, ConversionError>) -> bool { match r { Ok(n) => conv_jv(jv(v), JsonPathType::Nodes) == Some(jn(n)), Err(_) => conv_jv(jv(v), JsonPathType::Nodes) is None } }
//@end
//@fn <LogicalType as TryFrom<JsonPathValue>>::try_from props=C10,C11
@spec
open spec fn try_post(v: JsonPathValue<'a>, r: Result<Self, ConversionError>) -> bool { match r { Ok(n) => conv_jv(jv(v), JsonPathType::Logical) == Some(jl(n)), Err(_) => conv_jv(jv(v), JsonPathType::Logical) is None } }
//@end
//@fn <ValueType as TryFrom<JsonPathValue>>::try_from props=C10,C11
@spec
open spec fn try_post(v: JsonPathValue<'a>, r: Result<Self, ConversionError>) -> bool { match r { Ok(n) => conv_jv(jv(v), JsonPathType::Value) == Some(jval(n)), Err(_) => conv_jv(jv(v), JsonPathType::Value) is None } }
//@end
//@fn <LogicalType as From<bool>>::from props=C10,C11
@spec
open spec fn from_post(v: bool, r: Self) -> bool { r == if v { LogicalType::True } else { LogicalType::False } }
//@end
//@fn <JsonPathValue as From<NodesType>>::from props=C10,C11
@spec
open spec fn from_post(v: NodesType<'a>, r: Self) -> bool { jv(r) == jn(v) }
//@end
//@fn <JsonPathValue as From<ValueType>>::from props=C10,C11
@spec
open spec fn from_post(v: ValueType<'a>, r: Self) -> bool { jv(r) == jval(v) }
//@end
//@fn <JsonPathValue as From<LogicalType>>::from props=C10,C11
@spec
open spec fn from_post(v: LogicalType, r: Self) -> bool { jv(r) == jl(v) }
//@end
//@fn <ValueType as From<T>>::from props=C10,C11
@spec
open spec fn from_pre(v: T) -> bool { <T as VxInto<Value>>::into_pre(v) }
open spec fn from_post(v: T, r: Self) -> bool { r is Value && <T as VxInto<Value>>::into_post(v, r->Value_0) }
//@end
//@fn ValueType::as_value props=C10
@ensures
match $r { Some(v) => jvv(jval(*$self)) == Some(*v), None => jvv(jval(*$self)) is None },
//@end
//@fn ValueType::is_nothing props=C10
@ensures
$r == ($self is Nothing),
//@end
//@fn NodesType::json_path_type props=C11
@ensures
$r == JsonPathType::Nodes,
//@end
//@fn ValueType::json_path_type props=C11
@ensures
$r == JsonPathType::Value,
//@end
//@fn LogicalType::json_path_type props=C11
@ensures
$r == JsonPathType::Logical,
//@end
//@fn NodesType::function_type props=C11
@ensures
$r == FunctionArgType::Nodelist,
//@end
//@fn ValueType::function_type props=C11
@ensures
$r == FunctionArgType::Value,
//@end
//@fn LogicalType::function_type props=C11
@ensures
$r == FunctionArgType::Logical,
//@end
//@fn FunctionArgType::converts_to props=C11
@ensures
$r == conv(*$self, $1),
//@end
//@fn Selector::is_singular props=C11
@ensures
$r == sel_singular(*$self),
//@end
//@fn Segment::is_singular props=C11
@ensures
$r == seg_singular(*$self),
//@end
//@fn Query::is_singular props=C11
@ensures
$r == q_singular(*$self),
@loop QuerySegment
@inv
forall|k: int| 0 <= k < $I ==> qseg_singular(#[trigger] $self.segments@[k]),
//@end
//@fn registered_function_result_type props=C11
@ensures
$r == reg_result($1@),
//@end
//@fn FunctionExpr<NotValidated>::validate props=C11
@ensures
match $r {
  Ok(x) => inv_find(inventory_s(), $1@, 0) is Some && fn_call($1@, $2@) == Some(x),
  Err(_) => inv_find(inventory_s(), $1@, 0) is None || fn_call($1@, $2@) is None,
},
@loop Function
@inv
inv_find(inventory_s(), $1@, 0) == inv_find(inventory_s(), $1@, $I as int),
//@end
//@fn FunctionExprArg::as_type_kind props=C11
@ensures
match $r { Ok(k) => kind_of(*$self) == Some(k), Err(_) => kind_of(*$self) is None },
@loop Function
@inv
inv_find(inventory_s(), $self->FunctionExpr_0.name@, 0) == inv_find(inventory_s(), $self->FunctionExpr_0.name@, $I as int),
//@end
}
pub use f_reg::*;

/// the statics that `#[register]` generates
pub uninterp spec fn st_validator(n: Seq<char>) -> Validator;
pub uninterp spec fn st_evaluator(n: Seq<char>) -> Evaluator;
/// what a static holds is what its initializer builds
#[verifier::external_body]
pub fn vx_validator(n: &str) -> (r: &'static Validator) ensures *r == st_validator(n@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_evaluator(n: &str) -> (r: &'static Evaluator) ensures *r == st_evaluator(n@) { unimplemented!() }
pub open spec fn fn_is(f: Function, n: Seq<char>, t: FunctionArgType) -> bool {
  f.name@ == n && f.result_type == t && *f.validator == st_validator(n) && *f.evaluator == st_evaluator(n)
}
#[verifier::external_body]
pub fn vx_function(n: &str) -> (r: &'static Function)
  ensures reg_result(n@) is Some ==> fn_is(*r, n@, reg_result(n@)->Some_0)
{ unimplemented!() }
//@static vx_validator Validator
//@static vx_evaluator Evaluator
//@static vx_function Function

pub open spec fn LogicalType_default(r: LogicalType) -> bool { r is False }
//@derive LogicalType Default
pub mod vxreg2 {
use super::*;
pub broadcast proof fn lem_jvs_skip(s: Seq<JsonPathValue>, a: int, n: int)
  requires 0 <= a <= n, n == s.len()
  ensures #[trigger] jvs(s.subrange(a, n)) == jvs(s).skip(a)
{ assert(jvs(s.subrange(a, n)) =~= jvs(s).skip(a)); }
pub broadcast proof fn lem_jvs_len(s: Seq<JsonPathValue>)
  ensures #[trigger] jvs(s).len() == s.len()
{ }
pub broadcast proof fn lem_jvs_index(s: Seq<JsonPathValue>, i: int)
  requires 0 <= i < s.len()
  ensures #[trigger] jvs(s)[i] == jv(s[i])
{ }
}
pub mod f_fns {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_int_axioms, vx_path_lemmas, ax_re_search, ax_re_match, vxp::lem_add_none, vxreg2::lem_jvs_skip, vxreg2::lem_jvs_len, vxreg2::lem_jvs_index};
//@fn Function::new props=C10,C11
@ensures
$r.name == $1, $r.result_type == $2, $r.evaluator == $3, $r.validator == $4,
//@end
//@fn value_length props=C10
@ensures
match $r { Some(n) => val_len(*$1) == Some(n as nat), None => val_len(*$1) is None },
//@end
//@fn length props=C10
@ensures
jval($r) == fn_length(jval($1)),
//@end
//@fn count props=C10
@ensures
jval($r) == fn_count(jn($1)),
//@end
//@fn value props=C10
@ensures
jval($r) == fn_value(jn($1)),
//@end
//@fn match_func props=C10
@ensures
jl($r) == fn_match(jval($1), jval($2)),
//@end
//@fn search props=C10
@ensures
jl($r) == fn_search(jval($1), jval($2)),
//@end
//@fn validator(length) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value], $1@),
//@end
//@fn evaluator(length) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value], jvs($1@)),
@ensures
jv($r) == fn_length(nth_conv(seq![JsonPathType::Value], jvs($1@), 0)),
//@end
//@fn function(length) props=C10,C11
@ensures
fn_is($r, "length"@, FunctionArgType::Value),
//@end
//@fn validator(count) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Nodes], $1@),
//@end
//@fn evaluator(count) props=C10,C11
@requires
all_conv(seq![JsonPathType::Nodes], jvs($1@)),
@ensures
jv($r) == fn_count(nth_conv(seq![JsonPathType::Nodes], jvs($1@), 0)),
//@end
//@fn function(count) props=C10,C11
@ensures
fn_is($r, "count"@, FunctionArgType::Value),
//@end
//@fn validator(value) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Nodes], $1@),
//@end
//@fn evaluator(value) props=C10,C11
@requires
all_conv(seq![JsonPathType::Nodes], jvs($1@)),
@ensures
jv($r) == fn_value(nth_conv(seq![JsonPathType::Nodes], jvs($1@), 0)),
//@end
//@fn function(value) props=C10,C11
@ensures
fn_is($r, "value"@, FunctionArgType::Value),
//@end
//@fn validator(match) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value, JsonPathType::Value], $1@),
//@end
//@fn evaluator(match) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value, JsonPathType::Value], jvs($1@)),
@ensures
jv($r) == fn_match(nth_conv(seq![JsonPathType::Value, JsonPathType::Value], jvs($1@), 0), nth_conv(seq![JsonPathType::Value, JsonPathType::Value], jvs($1@), 1)),
//@end
//@fn function(match) props=C10,C11
@ensures
fn_is($r, "match"@, FunctionArgType::Logical),
//@end
//@fn validator(search) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value, JsonPathType::Value], $1@),
//@end
//@fn evaluator(search) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value, JsonPathType::Value], jvs($1@)),
@ensures
jv($r) == fn_search(nth_conv(seq![JsonPathType::Value, JsonPathType::Value], jvs($1@), 0), nth_conv(seq![JsonPathType::Value, JsonPathType::Value], jvs($1@), 1)),
//@end
//@fn function(search) props=C10,C11
@ensures
fn_is($r, "search"@, FunctionArgType::Logical),
//@end
//@fn REGISTRY props=C10,C11
@ensures
forall|n: Seq<char>| #[trigger] $r.tab().dom().contains(n) ==> reg_result(n) is Some,
$r.tab().dom().contains("length"@) && fn_is(*$r.tab()["length"@], "length"@, FunctionArgType::Value),
$r.tab().dom().contains("count"@) && fn_is(*$r.tab()["count"@], "count"@, FunctionArgType::Value),
$r.tab().dom().contains("value"@) && fn_is(*$r.tab()["value"@], "value"@, FunctionArgType::Value),
$r.tab().dom().contains("match"@) && fn_is(*$r.tab()["match"@], "match"@, FunctionArgType::Logical),
$r.tab().dom().contains("search"@) && fn_is(*$r.tab()["search"@], "search"@, FunctionArgType::Logical),
//@end
}

/// functions as a user registers them (tools/fixture), one for each shape of signature
pub mod f_fx {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_path_lemmas, vxp::lem_add_none, vxreg2::lem_jvs_skip, vxreg2::lem_jvs_len, vxreg2::lem_jvs_index};
//@fn fx_zero props=C11
@ensures
$r is Nothing,
//@end
//@fn validator(fx_zero) props=C11
@ensures
$r.is_ok() == well_typed(Seq::<JsonPathType>::empty(), $1@),
//@end
//@fn evaluator(fx_zero) props=C10,C11
@requires
all_conv(Seq::<JsonPathType>::empty(), jvs($1@)),
@ensures
jv($r) is Nothing,
//@end
//@fn function(fx_zero) props=C10,C11
@ensures
fn_is($r, "fx_zero"@, FunctionArgType::Value),
//@end
//@fn fx_v props=C11
@ensures
$r == $1,
//@end
//@fn validator(fx_v) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value], $1@),
//@end
//@fn evaluator(fx_v) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Value], jvs($1@), 0),
//@end
//@fn function(fx_v) props=C10,C11
@ensures
fn_is($r, "fx_v"@, FunctionArgType::Value),
//@end
//@fn fx_n props=C11
@ensures
$r == $1,
//@end
//@fn validator(fx_n) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Nodes], $1@),
//@end
//@fn evaluator(fx_n) props=C10,C11
@requires
all_conv(seq![JsonPathType::Nodes], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Nodes], jvs($1@), 0),
//@end
//@fn function(fx_n) props=C10,C11
@ensures
fn_is($r, "fx_n"@, FunctionArgType::Nodelist),
//@end
//@fn fx_l props=C11
@ensures
$r == $1,
//@end
//@fn validator(fx_l) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Logical], $1@),
//@end
//@fn evaluator(fx_l) props=C10,C11
@requires
all_conv(seq![JsonPathType::Logical], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Logical], jvs($1@), 0),
//@end
//@fn function(fx_l) props=C10,C11
@ensures
fn_is($r, "fx_l"@, FunctionArgType::Logical),
//@end
//@fn fx_vnl_a props=C11
@ensures
$r == $1,
//@end
//@fn validator(fx_vnl_a) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], $1@),
//@end
//@fn evaluator(fx_vnl_a) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], jvs($1@), 0),
@entry
assert(conv_jv(jvs($1@)[0], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][0]) is Some); assert(conv_jv(jvs($1@)[1], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][1]) is Some); assert(conv_jv(jvs($1@)[2], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][2]) is Some);
//@end
//@fn function(fx_vnl_a) props=C10,C11
@ensures
fn_is($r, "fx_vnl_a"@, FunctionArgType::Value),
//@end
//@fn fx_vnl_b props=C11
@ensures
$r == $2,
//@end
//@fn validator(fx_vnl_b) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], $1@),
//@end
//@fn evaluator(fx_vnl_b) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], jvs($1@), 1),
@entry
assert(conv_jv(jvs($1@)[0], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][0]) is Some); assert(conv_jv(jvs($1@)[1], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][1]) is Some); assert(conv_jv(jvs($1@)[2], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][2]) is Some);
//@end
//@fn function(fx_vnl_b) props=C10,C11
@ensures
fn_is($r, "fx_vnl_b"@, FunctionArgType::Nodelist),
//@end
//@fn fx_vnl_c props=C11
@ensures
$r == $3,
//@end
//@fn validator(fx_vnl_c) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], $1@),
//@end
//@fn evaluator(fx_vnl_c) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical], jvs($1@), 2),
@entry
assert(conv_jv(jvs($1@)[0], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][0]) is Some); assert(conv_jv(jvs($1@)[1], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][1]) is Some); assert(conv_jv(jvs($1@)[2], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical][2]) is Some);
//@end
//@fn function(fx_vnl_c) props=C10,C11
@ensures
fn_is($r, "fx_vnl_c"@, FunctionArgType::Logical),
//@end
//@fn fx_lnv props=C11
@ensures
$r == $3,
//@end
//@fn validator(fx_named) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], $1@),
//@end
//@fn evaluator(fx_named) props=C10,C11
@requires
all_conv(seq![JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], jvs($1@), 2),
@entry
assert(conv_jv(jvs($1@)[0], seq![JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][0]) is Some); assert(conv_jv(jvs($1@)[1], seq![JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][1]) is Some); assert(conv_jv(jvs($1@)[2], seq![JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][2]) is Some);
//@end
//@fn function(fx_named) props=C10,C11
@ensures
fn_is($r, "fx_named"@, FunctionArgType::Value),
//@end
//@fn fx_zero_l props=C11
@ensures
$r is True,
//@end
//@fn validator(fx_zero_l) props=C11
@ensures
$r.is_ok() == well_typed(Seq::<JsonPathType>::empty(), $1@),
//@end
//@fn evaluator(fx_zero_l) props=C10,C11
@requires
all_conv(Seq::<JsonPathType>::empty(), jvs($1@)),
@ensures
jv($r) == JV::Logical(true),
//@end
//@fn function(fx_zero_l) props=C10,C11
@ensures
fn_is($r, "fx_zero_l"@, FunctionArgType::Logical),
//@end
//@fn fx_same props=C11
@ensures
$r == $2,
//@end
//@fn validator(fx_same) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value, JsonPathType::Value, JsonPathType::Value, JsonPathType::Value], $1@),
//@end
//@fn evaluator(fx_same) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value, JsonPathType::Value, JsonPathType::Value, JsonPathType::Value], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Value, JsonPathType::Value, JsonPathType::Value, JsonPathType::Value], jvs($1@), 1),
@entry
assert(conv_jv(jvs($1@)[0], seq![JsonPathType::Value, JsonPathType::Value, JsonPathType::Value, JsonPathType::Value][0]) is Some); assert(conv_jv(jvs($1@)[1], seq![JsonPathType::Value, JsonPathType::Value, JsonPathType::Value, JsonPathType::Value][1]) is Some); assert(conv_jv(jvs($1@)[2], seq![JsonPathType::Value, JsonPathType::Value, JsonPathType::Value, JsonPathType::Value][2]) is Some); assert(conv_jv(jvs($1@)[3], seq![JsonPathType::Value, JsonPathType::Value, JsonPathType::Value, JsonPathType::Value][3]) is Some);
//@end
//@fn function(fx_same) props=C10,C11
@ensures
fn_is($r, "fx_same"@, FunctionArgType::Value),
//@end
//@fn fx_six_d props=C11
@ensures
$r == $4,
//@end
//@fn validator(fx_six_d) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], $1@),
//@end
//@fn evaluator(fx_six_d) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], jvs($1@), 3),
@entry
assert(conv_jv(jvs($1@)[0], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][0]) is Some); assert(conv_jv(jvs($1@)[1], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][1]) is Some); assert(conv_jv(jvs($1@)[2], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][2]) is Some); assert(conv_jv(jvs($1@)[3], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][3]) is Some); assert(conv_jv(jvs($1@)[4], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][4]) is Some); assert(conv_jv(jvs($1@)[5], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][5]) is Some);
//@end
//@fn function(fx_six_d) props=C10,C11
@ensures
fn_is($r, "fx_six_d"@, FunctionArgType::Logical),
//@end
//@fn fx_six_f props=C11
@ensures
$r == $6,
//@end
//@fn validator(fx_other_name) props=C11
@ensures
$r.is_ok() == well_typed(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], $1@),
//@end
//@fn evaluator(fx_other_name) props=C10,C11
@requires
all_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], jvs($1@)),
@ensures
jv($r) == nth_conv(seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value], jvs($1@), 5),
@entry
assert(conv_jv(jvs($1@)[0], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][0]) is Some); assert(conv_jv(jvs($1@)[1], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][1]) is Some); assert(conv_jv(jvs($1@)[2], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][2]) is Some); assert(conv_jv(jvs($1@)[3], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][3]) is Some); assert(conv_jv(jvs($1@)[4], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][4]) is Some); assert(conv_jv(jvs($1@)[5], seq![JsonPathType::Value, JsonPathType::Nodes, JsonPathType::Logical, JsonPathType::Logical, JsonPathType::Nodes, JsonPathType::Value][5]) is Some);
//@end
//@fn function(fx_other_name) props=C10,C11
@ensures
fn_is($r, "fx_other_name"@, FunctionArgType::Value),
//@end
}

/// what is registered: the parameter types of a function as declared
pub mod vxw {
use super::*;
broadcast use {vx_axioms, vx_parse_axioms, vx_path_lemmas};
pub uninterp spec fn ptypes(f: Function) -> Seq<JsonPathType>;
/// the function of a name, and the types of its parameters and result, as declared
pub open spec fn fn_known(name: Seq<char>) -> bool { fn_find(name) is Some }
pub open spec fn fn_ptypes(name: Seq<char>) -> Seq<JsonPathType> { ptypes(*fn_find(name)->Some_0) }

// ---- well-formed queries: every call has arguments that fit, and a result that fits its place
pub open spec fn w_func(f: FunctionExpr<Validated>) -> bool
  decreases f, 1int
{ 
  fn_known(f.name@) && well_typed(fn_ptypes(f.name@), f.args@)
  && f.return_type == fn_find(f.name@)->Some_0.result_type && f.validated.evaluator == fn_find(f.name@)->Some_0.evaluator
  && (forall|i: int| 0 <= i < f.args@.len() ==> w_arg(#[trigger] f.args@[i]))
}
pub open spec fn w_arg(a: FunctionExprArg) -> bool
  decreases a, 0int
{
  match a {
    FunctionExprArg::Literal(_) => true,
    FunctionExprArg::SingularQuery(_) => true,
    FunctionExprArg::FilterQuery(q) => w_query(q) && !q_singular(q),
    FunctionExprArg::LogicalExpr(x) => w_or(x),
    FunctionExprArg::FunctionExpr(f) => w_func(f),
  }
}
pub open spec fn w_query(q: Query) -> bool
  decreases q, 0int
{ forall|i: int| 0 <= i < q.segments@.len() ==> w_qseg(#[trigger] q.segments@[i]) }
pub open spec fn w_qseg(s: QuerySegment) -> bool
  decreases s, 0int
{ w_seg(s.segment) }
pub open spec fn w_seg(s: Segment) -> bool
  decreases s, 0int
{
  match s {
    Segment::LongHand(v) => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> w_sel(#[trigger] v@[i]),
    _ => true,
  }
}
pub open spec fn w_sel(s: Selector) -> bool
  decreases s, 0int
{ match s { Selector::Filter(f) => w_or(f.0), _ => true } }
pub open spec fn w_or(x: LogicalOrExpr) -> bool
  decreases x, 0int
{ x.0@.len() > 0 && forall|i: int| 0 <= i < x.0@.len() ==> w_and(#[trigger] x.0@[i]) }
pub open spec fn w_and(x: LogicalAndExpr) -> bool
  decreases x, 0int
{ x.0@.len() > 0 && forall|i: int| 0 <= i < x.0@.len() ==> w_basic(#[trigger] x.0@[i]) }
pub open spec fn w_basic(b: BasicExpr) -> bool
  decreases b, 0int
{
  match b {
    BasicExpr::Paren(x) => w_or(x),
    BasicExpr::NotParen(x) => w_or(x),
    BasicExpr::Relation(c) => w_comp(c.left) && w_comp(c.right),
    BasicExpr::Exist(x) => w_query(x.0),
    BasicExpr::NotExist(x) => w_query(x.0),
    BasicExpr::FuncExpr(f) => w_func(f) && w_test(f),
    BasicExpr::NotFuncExpr(f) => w_func(f) && w_test(f),
  }
}
/// a test is the result of a call that is logical or nodes
pub open spec fn w_test(f: FunctionExpr<Validated>) -> bool { f.return_type is Logical || f.return_type is Nodelist }
/// what is compared is a value
pub open spec fn w_comp(c: Comparable) -> bool
  decreases c, 0int
{ match c { Comparable::FunctionExpr(f) => w_func(f) && f.return_type is Value, _ => true } }
}
pub use vxw::*;

pub mod vxglue {
use super::*;
broadcast use {vx_axioms, vx_parse_axioms, vx_path_lemmas};
pub open spec fn reg_ptypes(n: Seq<char>) -> Seq<JsonPathType> {
  if n == "length"@ { seq![JsonPathType::Value] }
  else if n == "count"@ || n == "value"@ { seq![JsonPathType::Nodes] }
  else { seq![JsonPathType::Value, JsonPathType::Value] }
}
/// what a built-in function computes from its converted arguments
pub open spec fn reg_fn(n: Seq<char>, js: Seq<JV>) -> JV {
  let ts = reg_ptypes(n);
  if n == "length"@ { fn_length(nth_conv(ts, js, 0)) }
  else if n == "count"@ { fn_count(nth_conv(ts, js, 0)) }
  else if n == "value"@ { fn_value(nth_conv(ts, js, 0)) }
  else if n == "match"@ { fn_match(nth_conv(ts, js, 0), nth_conv(ts, js, 1)) }
  else { fn_search(nth_conv(ts, js, 0), nth_conv(ts, js, 1)) }
}
/// REGISTRY.get finds what REGISTRY holds, and calling a static calls the closure it was built from: the closures of
/// the built-in functions, validator(NAME) and evaluator(NAME), are under contract above
pub broadcast axiom fn ax_registry(n: Seq<char>)
  ensures #![trigger registry_s(n)] match registry_s(n) {
    Some(f) => reg_result(n) is Some && fn_is(*f, n, reg_result(n)->Some_0) && ptypes(*f) == reg_ptypes(n),
    None => reg_result(n) is None,
  };
pub axiom fn ax_builtin_validator(n: Seq<char>, args: Seq<FunctionExprArg>)
  requires reg_result(n) is Some
  ensures valid_ev(st_validator(n), args) == well_typed(reg_ptypes(n), args);
pub axiom fn ax_builtin_evaluator(n: Seq<char>, js: Seq<JV>)
  requires reg_result(n) is Some, all_conv(reg_ptypes(n), js)
  ensures eval_ev(st_evaluator(n), js) == reg_fn(n, js);
/// a function registered by a user: the closures that #[function] generates accept the arguments that fit its signature, and
/// return what it returns (under contract for the functions of tools/fixture, one for each shape of signature)
pub axiom fn ax_user_validator(i: int, args: Seq<FunctionExprArg>)
  requires 0 <= i < inventory_s().len()
  ensures valid_ev(*inventory_s()[i].validator, args) == well_typed(ptypes(*inventory_s()[i]), args);
pub axiom fn ax_user_evaluator(i: int, js: Seq<JV>)
  requires 0 <= i < inventory_s().len(), all_conv(ptypes(*inventory_s()[i]), js)
  ensures of_type(eval_ev(*inventory_s()[i].evaluator, js), inventory_s()[i].result_type);
}
pub use vxglue::*;

pub mod vxc11 {
use super::*;
broadcast use {vx_axioms, vx_parse_axioms, vx_path_lemmas, ax_registry, vxmem::ax_vec_of, vxmem::ax_string_of};
pub proof fn lem_inv_find(l: Seq<&'static Function>, name: Seq<char>, i: int) -> (k: int)
  requires 0 <= i, inv_find(l, name, i) is Some
  ensures 0 <= k < l.len(), inv_find(l, name, i) == Some(l[k]), l[k].name@ == name
  decreases l.len() - i
{ if l[i].name@ == name { i } else { lem_inv_find(l, name, i + 1) } }
/// the validator of a known function accepts the arguments that fit its parameters
pub proof fn lem_valid(name: Seq<char>, args: Seq<FunctionExprArg>)
  requires fn_known(name)
  ensures valid_ev(*fn_find(name)->Some_0.validator, args) == well_typed(fn_ptypes(name), args)
{
  match inv_find(inventory_s(), name, 0) {
    Some(_) => { let k = lem_inv_find(inventory_s(), name, 0); ax_user_validator(k, args); }
    None => { ax_builtin_validator(name, args); }
  }
}
/// its evaluator returns a value of its result type
pub proof fn lem_eval(name: Seq<char>, js: Seq<JV>)
  requires fn_known(name), all_conv(fn_ptypes(name), js)
  ensures of_type(eval_ev(*fn_find(name)->Some_0.evaluator, js), fn_find(name)->Some_0.result_type)
{
  match inv_find(inventory_s(), name, 0) {
    Some(_) => { let k = lem_inv_find(inventory_s(), name, 0); ax_user_evaluator(k, js); }
    None => { ax_builtin_evaluator(name, js); }
  }
}
/// the type of a call is the declared one
pub proof fn lem_result(name: Seq<char>)
  ensures fn_known(name) == (fn_result(name) is Some), fn_known(name) ==> fn_result(name) == Some(fn_find(name)->Some_0.result_type)
{ }
pub proof fn lem_fname_len(s: Seq<char>, acc: Seq<char>)
  ensures match g_fname_rest(s, acc) { PR::Ok(r, t) => r.len() + t.len() == s.len() + acc.len(), _ => true }
  decreases s.len()
{ if s.len() > 0 && fc_char(s[0]) { lem_fname_len(s.skip(1), acc.push(s[0])); } }
pub proof fn lem_ws_len(s: Seq<char>) ensures ws(s).len() <= s.len() { lem_ws(s); }
/// a query that is not singular, when a bracketed selection is not empty
pub proof fn lem_not_singular(q: Query)
  requires w_query(q), sing(q) is None
  ensures !q_singular(q)
{
  if q_singular(q) { lem_sing_all(q.segments@); }
}
pub proof fn lem_sing_all(q: Seq<QuerySegment>)
  requires forall|i: int| 0 <= i < q.len() ==> w_qseg(#[trigger] q[i]) && qseg_singular(q[i])
  ensures sing_segs(q) is Some
  decreases q.len()
{
  if q.len() > 0 {
    assert forall|i: int| 0 <= i < q.drop_last().len() implies w_qseg(#[trigger] q.drop_last()[i]) && qseg_singular(q.drop_last()[i]) by { let x = q[i]; }
    lem_sing_all(q.drop_last());
    let x = q.last();
    assert(w_qseg(q[q.len() - 1]));
    match x.segment { Segment::LongHand(l) => { assert(sel_singular(l@[0])); } _ => {} }
  }
}
pub open spec fn all_w<A>(s: Seq<A>, w: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> w(#[trigger] s[i]) }
pub open spec fn ok_w<A>(p: PR<A>, w: spec_fn(A) -> bool) -> bool { match p { PR::Ok(_, v) => w(v), _ => true } }
pub proof fn l_segs(s: Seq<char>, acc: Seq<QuerySegment>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> w_qseg(#[trigger] acc[i]),
  ensures match g_segs(s, acc) { PR::Ok(_, v) => forall|i: int| 0 <= i < v@.len() ==> w_qseg(#[trigger] v@[i]), _ => true }
  decreases s.len(), 20int
{
  u_segs(s, acc);
  l_segment(s);
  match bnd(s, g_segment(s)) { PR::Ok(r, x) => { if r.len() < s.len() { l_segs(r, acc.push(x)); } } _ => {} }
}
pub proof fn l_root(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_root(s) { PR::Ok(_, v) => w_query(v), _ => true }
  decreases s.len(), 0int
{
  u_root(s);
  if s.len() > 0 { l_segs(s.skip(1), seq![]); }
}
pub proof fn l_current(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_current(s) { PR::Ok(_, v) => w_query(v), _ => true }
  decreases s.len(), 0int
{
  u_current(s);
  if s.len() > 0 { l_segs(s.skip(1), seq![]); }
}
pub proof fn l_query(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_query(s) { PR::Ok(_, v) => w_query(v), _ => true }
  decreases s.len(), 1int
{
  u_query(s);
  l_root(s); l_current(s);
}
pub proof fn l_sels(s: Seq<char>, acc: Seq<Selector>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> w_sel(#[trigger] acc[i]), acc.len() > 0,
  ensures match g_sels(s, acc) { PR::Ok(_, v) => (forall|i: int| 0 <= i < v@.len() ==> w_sel(#[trigger] v@[i])) && v@.len() > 0, _ => true }
  decreases s.len(), 11int
{
  u_sels(s, acc);
  if at(ws(s), 0, ',') {
    let r = ws(s).skip(1);
    lem_ws_len(s); lem_ws_len(r); l_selector(ws(r));
    match bnd(r, g_selector(ws(r))) { PR::Ok(r2, x) => { if r2.len() < s.len() { l_sels(r2, acc.push(x)); } } _ => {} }
  }
}
pub proof fn l_multi(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_multi(s) { PR::Ok(_, v) => (forall|i: int| 0 <= i < v@.len() ==> w_sel(#[trigger] v@[i])) && v@.len() > 0, _ => true }
  decreases s.len(), 12int
{
  u_multi(s);
  l_selector(s);
  match bnd(s, g_selector(s)) { PR::Ok(r, x) => { l_sels(r, seq![x]); } _ => {} }
}
pub proof fn l_longhand(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_longhand(s) { PR::Ok(_, v) => w_seg(v), _ => true }
  decreases s.len(), 17int
{
  u_longhand(s);
  if at(s, 0, '[') { lem_ws_len(s.skip(1)); l_multi(ws(s.skip(1))); }
}
pub proof fn l_child(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_child(s) { PR::Ok(_, v) => w_seg(v), _ => true }
  decreases s.len(), 18int
{
  u_child(s);
  lem_ws_len(s); l_longhand(ws(s));
}
pub proof fn l_desc(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_desc(s) { PR::Ok(_, v) => w_seg(v), _ => true }
  decreases s.len(), 18int
{
  u_desc(s);
  lem_ws_len(s); if at(ws(s), 0, '.') && at(ws(s), 1, '.') { l_longhand(ws(s).skip(2)); }
}
pub proof fn l_segment(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_segment(s) { PR::Ok(_, v) => w_qseg(v), _ => true }
  decreases s.len(), 19int
{
  u_segment(s);
  l_desc(s); l_child(s);
}
pub proof fn l_selector(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_selector(s) { PR::Ok(_, v) => w_sel(v), _ => true }
  decreases s.len(), 10int
{
  u_selector(s);
  l_filter(s);
}
pub proof fn l_filter(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_filter(s) { PR::Ok(_, v) => w_or(v.0), _ => true }
  decreases s.len(), 9int
{
  u_filter(s);
  if at(s, 0, '?') { lem_ws_len(s.skip(1)); l_or(ws(s.skip(1))); }
}
pub proof fn l_ors(s: Seq<char>, acc: Seq<LogicalAndExpr>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> w_and(#[trigger] acc[i]), acc.len() > 0,
  ensures match g_ors(s, acc) { PR::Ok(_, v) => (forall|i: int| 0 <= i < v@.len() ==> w_and(#[trigger] v@[i])) && v@.len() > 0, _ => true }
  decreases s.len(), 7int
{
  u_ors(s, acc);
  lem_ws_len(s);
  match tok(ws(s), "||"@) { PR::Ok(r, _) => { if r.len() < s.len() { lem_ws_len(r); l_and(ws(r));
    match bnd(r, g_and(ws(r))) { PR::Ok(r2, x) => { l_ors(r2, acc.push(x)); } _ => {} } } } _ => {} }
}
pub proof fn l_ands(s: Seq<char>, acc: Seq<BasicExpr>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> w_basic(#[trigger] acc[i]), acc.len() > 0,
  ensures match g_ands(s, acc) { PR::Ok(_, v) => (forall|i: int| 0 <= i < v@.len() ==> w_basic(#[trigger] v@[i])) && v@.len() > 0, _ => true }
  decreases s.len(), 6int
{
  u_ands(s, acc);
  lem_ws_len(s);
  match tok(ws(s), "&&"@) { PR::Ok(r, _) => { if r.len() < s.len() { lem_ws_len(r); l_basic(ws(r));
    match bnd(r, g_basic(ws(r))) { PR::Ok(r2, x) => { l_ands(r2, acc.push(x)); } _ => {} } } } _ => {} }
}
pub proof fn l_or(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_or(s) { PR::Ok(_, v) => w_or(v), _ => true }
  decreases s.len(), 8int
{
  u_or(s);
  l_and(s);
  match bnd(s, g_and(s)) { PR::Ok(r, x) => { l_ors(r, seq![x]); } _ => {} }
}
pub proof fn l_and(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_and(s) { PR::Ok(_, v) => w_and(v), _ => true }
  decreases s.len(), 7int
{
  u_and(s);
  l_basic(s);
  match bnd(s, g_basic(s)) { PR::Ok(r, x) => { l_ands(r, seq![x]); } _ => {} }
}
pub proof fn l_paren(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_paren(s) { PR::Ok(_, v) => w_or(v), _ => true }
  decreases s.len(), 4int
{
  u_paren(s);
  if at(s, 0, '(') { lem_ws_len(s.skip(1)); l_or(ws(s.skip(1))); }
}
pub proof fn l_test_call(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_test_call(s) { PR::Ok(_, v) => w_func(v) && w_test(v), _ => true }
  decreases s.len(), 3int
{
  u_test_call(s);
  l_func(s);
}
pub proof fn l_basic(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_basic(s) { PR::Ok(_, v) => w_basic(v), _ => true }
  decreases s.len(), 6int
{
  u_basic(s);
  if at(s, 0, '!') { lem_ws_len(s.skip(1)); l_paren(bang(s)); l_query(bang(s)); l_test_call(bang(s)); }
  l_paren(s); l_cmp(s); l_query(s); l_test_call(s);
}
pub proof fn l_cmp(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_cmp(s) { PR::Ok(_, v) => w_comp(v.left) && w_comp(v.right), _ => true }
  decreases s.len(), 4int
{
  u_cmp(s);
  l_comparable(s);
  match bnd(s, g_comparable(s)) { PR::Ok(r, left) => match bnd(s, g_op(ws(r))) {
    PR::Ok(r2, op) => { if r2.len() < s.len() { lem_ws_len(r2); l_comparable(ws(r2)); } } _ => {} } _ => {} }
}
pub proof fn l_comparable(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_comparable(s) { PR::Ok(_, v) => w_comp(v), _ => true }
  decreases s.len(), 3int
{
  u_comparable(s); u_comp_rest(s);
  u_singular(s);
  l_func(s);
}
pub proof fn l_plain_arg(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_plain_arg(s) { PR::Ok(_, v) => w_arg(v), _ => true }
  decreases s.len(), 9int
{
  u_plain_arg(s);
  u_singular(s); l_query(s);
  l_func(s);
  match g_query(s) { PR::Ok(r, q) => { if sing(q) is None { lem_not_singular(q); } } _ => {} }
}
pub proof fn l_arg(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_arg(s) { PR::Ok(_, v) => w_arg(v), _ => true }
  decreases s.len(), 10int
{
  u_arg(s);
  l_plain_arg(s); l_or(s);
}
pub proof fn l_args_rest(s: Seq<char>, acc: Seq<FunctionExprArg>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> w_arg(#[trigger] acc[i]),
  ensures match g_args_rest(s, acc) { PR::Ok(_, v) => forall|i: int| 0 <= i < v@.len() ==> w_arg(#[trigger] v@[i]), _ => true }
  decreases s.len(), 11int
{
  u_args_rest(s, acc);
  lem_ws_len(s);
  if at(ws(s), 0, ',') {
    let r = ws(s).skip(1);
    lem_ws_len(r); l_arg(ws(r));
    match bnd(r, g_arg(ws(r))) { PR::Ok(r2, x) => { if r2.len() < s.len() { l_args_rest(r2, acc.push(x)); } } _ => {} }
  }
}
pub proof fn l_args(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_args(s) { PR::Ok(_, v) => forall|i: int| 0 <= i < v@.len() ==> w_arg(#[trigger] v@[i]), _ => true }
  decreases s.len(), 12int
{
  u_args(s);
  if !at(s, 0, ')') { l_arg(s); match bnd(s, g_arg(s)) { PR::Ok(r, x) => { l_args_rest(r, seq![x]); } _ => {} } }
}
pub proof fn l_func(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_func(s) { PR::Ok(_, v) => w_func(v), _ => true }
  decreases s.len(), 2int
{
  u_func(s);
  if s.len() > 0 { lem_fname_len(s.skip(1), seq![]); }
  match bnd(s, g_fname(s)) { PR::Ok(r, name) => { assert(in_memory(name.len())); if at(r, 0, '(') {
    let r1 = ws(r.skip(1));
    lem_ws_len(r.skip(1));
    if r1.len() < s.len() { l_args(r1); match g_args(r1) { PR::Ok(r2, args) => { if fn_known(name) { lem_valid(name, args@); } } _ => {} } }
  } } _ => {} }
}

}
pub use vxc11::*;

pub mod vxt11 {
use super::*;
broadcast use {vx_axioms, vx_parse_axioms, vx_path_lemmas, ax_registry};
//@lemma c11_accepted_calls props=C11
/// a call is accepted if and only if its function is known and its arguments fit the parameters
pub proof fn c11_accepted_calls(name: Seq<char>, args: Seq<FunctionExprArg>)
  ensures fn_call(name, args) is Some <==> fn_known(name) && well_typed(fn_ptypes(name), args),
    fn_call(name, args) matches Some(f) ==> fn_result(name) == Some(f.return_type),
{ if fn_known(name) { lem_valid(name, args); } lem_result(name); }
//@endlemma
//@lemma c11_parsed_queries props=C11
/// in a parsed query every call is well typed, and fits where it is used
pub proof fn c11_parsed_queries(s: Seq<char>)
  requires in_memory(s.len())
  ensures g_main(s) matches PR::Ok(_, q) ==> w_query(q)
{ l_root(s); }
//@endlemma
//@lemma c11_evaluated_arguments props=C11
/// when a well typed call is evaluated, each argument converts to its parameter type, and the result has the declared type:
/// the precondition of the evaluators holds
pub proof fn c11_evaluated_arguments(f: FunctionExpr<Validated>, cur: Value, root: Value)
  requires w_func(f)
  ensures
    all_conv(fn_ptypes(f.name@), eval_args(f, cur, root, f.args@.len() as int)),
    of_type(eval_func(f, cur, root), f.return_type),
  decreases f, 1int
{
  let js = eval_args(f, cur, root, f.args@.len() as int);
  lem_args(f, cur, root, f.args@.len() as int);
  vxun::un_func(f, cur, root);
  let ts = fn_ptypes(f.name@);
  assert forall|i: int| 0 <= i < ts.len() implies conv_jv(#[trigger] js[i], ts[i]) is Some by {
    assert(fits(f.args@[i], ts[i]));
    assert(w_arg(f.args@[i]));
    c11_evaluated_argument(f.args@[i], ts[i], cur, root);
  }
  lem_eval(f.name@, js);
}
pub proof fn c11_evaluated_argument(a: FunctionExprArg, t: JsonPathType, cur: Value, root: Value)
  requires w_arg(a), fits(a, t)
  ensures conv_jv(eval_arg(a, cur, root), t) is Some
  decreases a, 0int
{
  vxun::un_arg(a, cur, root);
  match a { FunctionExprArg::FunctionExpr(g) => { c11_evaluated_arguments(g, cur, root); lem_result(g.name@); } _ => {} }
}
pub proof fn lem_args(f: FunctionExpr<Validated>, cur: Value, root: Value, n: int)
  requires 0 <= n <= f.args@.len()
  ensures eval_args(f, cur, root, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] eval_args(f, cur, root, n)[i] == eval_arg(f.args@[i], cur, root)
  decreases n
{ reveal(eval_args); if n > 0 { lem_args(f, cur, root, n - 1); } }
//@endlemma
//@lemma c10_builtin_calls props=C10
/// a call of a built-in function in a parsed query gives what RFC 9535 says of the arguments, converted to the declared types
pub proof fn c10_builtin_calls(f: FunctionExpr<Validated>, cur: Value, root: Value)
  requires w_func(f), inv_find(inventory_s(), f.name@, 0) is None
  ensures
    reg_result(f.name@) == Some(f.return_type),
    f.args@.len() == reg_ptypes(f.name@).len(),
    forall|i: int| 0 <= i < f.args@.len() ==> conv_jv(#[trigger] eval_arg(f.args@[i], cur, root), reg_ptypes(f.name@)[i]) is Some,
    eval_func(f, cur, root) == reg_fn(f.name@, eval_args(f, cur, root, f.args@.len() as int)),
    eval_args(f, cur, root, f.args@.len() as int) == Seq::new(f.args@.len(), |i: int| eval_arg(f.args@[i], cur, root)),
{
  let n = f.args@.len() as int;
  let js = eval_args(f, cur, root, n);
  lem_args(f, cur, root, n);
  vxun::un_func(f, cur, root);
  c11_evaluated_arguments(f, cur, root);
  assert(js =~= Seq::new(f.args@.len(), |i: int| eval_arg(f.args@[i], cur, root)));
  assert forall|i: int| 0 <= i < n implies conv_jv(#[trigger] eval_arg(f.args@[i], cur, root), reg_ptypes(f.name@)[i]) is Some by { assert(conv_jv(js[i], reg_ptypes(f.name@)[i]) is Some); }
  ax_builtin_evaluator(f.name@, js);
}
//@endlemma
}
