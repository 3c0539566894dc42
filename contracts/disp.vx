// ------------------------------------------------------------- the text of a query: C19
pub mod vxdisp {
use super::*;
pub open spec fn d_int(i: int) -> Seq<char> { if i < 0 { seq!['-'] + dec_digits((-i) as nat) } else { dec_digits(i as nat) } }
impl VxDisplay for i64 { open spec fn disp(&self) -> Seq<char> { d_int(*self as int) } }
impl<'a> VxDisplay for NormalizedPath<'a> { open spec fn disp(&self) -> Seq<char> { npath(pview(*self), pview(*self).len() as int) } }
impl VxDisplay for bool { open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
impl VxDisplay for Number { uninterp spec fn disp(&self) -> Seq<char>; }
impl VxDisplay for Integer { open spec fn disp(&self) -> Seq<char> { d_int(self.v()) } }
impl VxDisplay for Name { open spec fn disp(&self) -> Seq<char> { d_name(self.0@) } }
impl VxDisplay for Index { open spec fn disp(&self) -> Seq<char> { d_int(self.0.v()) } }
impl VxDisplay for Slice { open spec fn disp(&self) -> Seq<char> { d_slice(*self) } }
impl VxDisplay for Selector { open spec fn disp(&self) -> Seq<char> { d_sel(*self) } }
impl VxDisplay for Segment { open spec fn disp(&self) -> Seq<char> { d_seg(*self) } }
impl VxDisplay for QuerySegment { open spec fn disp(&self) -> Seq<char> { d_qseg(*self) } }
impl VxDisplay for Query { open spec fn disp(&self) -> Seq<char> { d_query(*self) } }
impl VxDisplay for Filter { open spec fn disp(&self) -> Seq<char> { d_or(self.0) } }
impl VxDisplay for LogicalOrExpr { open spec fn disp(&self) -> Seq<char> { d_or(*self) } }
impl VxDisplay for LogicalAndExpr { open spec fn disp(&self) -> Seq<char> { d_and(*self) } }
impl VxDisplay for BasicExpr { open spec fn disp(&self) -> Seq<char> { d_basic(*self) } }
impl VxDisplay for ExistExpr { open spec fn disp(&self) -> Seq<char> { d_query(self.0) } }
impl VxDisplay for ComparisonExpr { open spec fn disp(&self) -> Seq<char> { d_cmp(*self) } }
impl VxDisplay for ComparisonOperator { open spec fn disp(&self) -> Seq<char> { d_op(*self) } }
impl VxDisplay for Comparable { open spec fn disp(&self) -> Seq<char> { d_comp(*self) } }
impl VxDisplay for Literal { open spec fn disp(&self) -> Seq<char> { d_lit(*self) } }
impl VxDisplay for SingularQuerySegment { open spec fn disp(&self) -> Seq<char> { d_sqseg(*self) } }
impl VxDisplay for SingularQuery { open spec fn disp(&self) -> Seq<char> { d_sq(*self) } }
impl<V> VxDisplay for FunctionExpr<V> { open spec fn disp(&self) -> Seq<char> { d_call(self.name@, self.args) } }
impl VxDisplay for FunctionExprArg { open spec fn disp(&self) -> Seq<char> { d_arg(*self) } }
impl VxDisplay for JsonPath { open spec fn disp(&self) -> Seq<char> { d_query(self.0) } }
// any serializer and any deserializer: the parameters of serialize and deserialize, of which nothing is known
#[verifier::external_body]
pub struct VxSer { x: u8 }
#[verifier::external_body]
pub struct VxSerOk { x: u8 }
#[verifier::external_body]
pub struct VxSerError { x: u8 }
/// what the serializer makes of a string, and of a number
pub uninterp spec fn ser_str(s: VxSer, t: Seq<char>, r: Result<VxSerOk, VxSerError>) -> bool;
pub uninterp spec fn ser_num(s: VxSer, i: int, r: Result<VxSerOk, VxSerError>) -> bool;
impl VxSer {
  #[verifier::external_body]
  pub fn collect_str<T: VxDisplay + ?Sized>(self, t: &T) -> (r: Result<VxSerOk, VxSerError>) ensures ser_str(self, t.disp(), r) { unimplemented!() }
  #[verifier::external_body]
  pub fn serialize_str(self, t: &str) -> (r: Result<VxSerOk, VxSerError>) ensures ser_str(self, t@, r) { unimplemented!() }
  #[verifier::external_body]
  pub fn serialize_u64(self, i: u64) -> (r: Result<VxSerOk, VxSerError>) ensures ser_num(self, i as int, r) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxDeError { x: u8 }
#[verifier::external_body]
pub fn vx_de_custom<T>(e: T) -> (r: VxDeError) { unimplemented!() }
/// a visitor of strings: what it makes of one, and whether it refuses it
pub trait VxVisitor: Sized { type Out; spec fn takes(self, t: Seq<char>, x: Self::Out) -> bool; spec fn refuses(self, t: Seq<char>) -> bool; }
#[verifier::external_body]
pub struct VxDe { x: u8 }
/// the string that a deserializer holds, if it holds one
pub uninterp spec fn de_str(d: VxDe) -> Option<Seq<char>>;
impl VxDe {
  /// the visitor gets the string
  #[verifier::external_body]
  pub fn vx_deserialize_str<V: VxVisitor>(self, v: V) -> (r: Result<V::Out, VxDeError>)
    ensures match de_str(self) { Some(t) => match r { Ok(x) => v.takes(t, x), Err(_) => v.refuses(t) }, None => r is Err }
  { unimplemented!() }
}
//@ignore <JsonPathVisitor as Visitor>::expecting
//@type JsonPathVisitor
impl VxVisitor for JsonPathVisitor {
  type Out = JsonPath;
  open spec fn takes(self, t: Seq<char>, x: JsonPath) -> bool { g_main(t) matches PR::Ok(_, q) && q == x.0 }
  open spec fn refuses(self, t: Seq<char>) -> bool { !(g_main(t) is Ok) }
}
pub open spec fn sep(i: int, n: nat, t: Seq<char>) -> Seq<char> { if i == n - 1 { ""@ } else { t } }
pub open spec fn d_name(s: Seq<char>) -> Seq<char> { "'"@ + s + "'"@ }
pub open spec fn d_oint(i: Option<Integer>) -> Seq<char> { match i { Some(i) => d_int(i.v()), None => seq![] } }
pub open spec fn d_slice(s: Slice) -> Seq<char> { d_oint(s.start) + ":"@ + d_oint(s.end) + ":"@ + d_oint(s.step) }
pub open spec fn d_op(o: ComparisonOperator) -> Seq<char> {
  match o {
    ComparisonOperator::EqualTo => "=="@,
    ComparisonOperator::NotEqualTo => "!="@,
    ComparisonOperator::LessThan => "<"@,
    ComparisonOperator::GreaterThan => ">"@,
    ComparisonOperator::LessThanEqualTo => "<="@,
    ComparisonOperator::GreaterThanEqualTo => ">="@,
  }
}
pub open spec fn d_lit(l: Literal) -> Seq<char> {
  match l { Literal::Number(n) => n.disp(), Literal::String(s) => d_name(s@), Literal::Bool(b) => b.disp(), Literal::Null => "null"@ }
}
pub open spec fn d_sqseg(s: SingularQuerySegment) -> Seq<char> { match s { SingularQuerySegment::Name(n) => d_name(n.0@), SingularQuerySegment::Index(i) => d_int(i.0.v()) } }
pub open spec fn d_sqsegs(s: Seq<SingularQuerySegment>, i: int) -> Seq<char>
  decreases s.len() - i
{ if 0 <= i < s.len() { "["@ + d_sqseg(s[i]) + "]"@ + d_sqsegs(s, i + 1) } else { seq![] } }
pub open spec fn d_sq(q: SingularQuery) -> Seq<char> { (if q.kind is Absolute { "$"@ } else { "@"@ }) + d_sqsegs(q.segments@, 0) }
//@grammar
#[verifier::opaque]
pub open spec fn d_query(q: Query) -> Seq<char>
  decreases q, 1int, 0int
{ (if q.kind is Root { "$"@ } else { "@"@ }) + d_segs(q, 0) }
/// the text of the segments from the i-th
#[verifier::opaque]
pub open spec fn d_segs(q: Query, i: int) -> Seq<char>
  decreases q, 0int, q.segments@.len() - i
{ if 0 <= i < q.segments@.len() { d_qseg(q.segments@[i]) + d_segs(q, i + 1) } else { seq![] } }
#[verifier::opaque]
pub open spec fn d_qseg(s: QuerySegment) -> Seq<char>
  decreases s, 0int, 0int
{ (if s.kind is Descendant { ".."@ } else { seq![] }) + d_seg(s.segment) }
#[verifier::opaque]
pub open spec fn d_seg(s: Segment) -> Seq<char>
  decreases s, 1int, 0int
{
  match s { Segment::LongHand(v) => "["@ + d_sels(v, 0) + "]"@, Segment::DotName(n) => "."@ + n@, Segment::Wildcard => ".*"@ }
}
#[verifier::opaque]
pub open spec fn d_sels(v: Vec<Selector>, i: int) -> Seq<char>
  decreases v, 0int, v@.len() - i
{ if 0 <= i < v@.len() { d_sel(v@[i]) + sep(i, v@.len(), ","@) + d_sels(v, i + 1) } else { seq![] } }
#[verifier::opaque]
pub open spec fn d_sel(s: Selector) -> Seq<char>
  decreases s, 0int, 0int
{
  match s {
    Selector::Name(n) => d_name(n.0@),
    Selector::Wildcard => "*"@,
    Selector::Index(i) => d_int(i.0.v()),
    Selector::ArraySlice(x) => d_slice(x),
    Selector::Filter(f) => "?"@ + d_or(f.0),
  }
}
#[verifier::opaque]
pub open spec fn d_or(x: LogicalOrExpr) -> Seq<char>
  decreases x, 1int, 0int
{ d_ors(x.0, 0) }
#[verifier::opaque]
pub open spec fn d_ors(v: Vec<LogicalAndExpr>, i: int) -> Seq<char>
  decreases v, 0int, v@.len() - i
{ if 0 <= i < v@.len() { d_and(v@[i]) + sep(i, v@.len(), " || "@) + d_ors(v, i + 1) } else { seq![] } }
#[verifier::opaque]
pub open spec fn d_and(x: LogicalAndExpr) -> Seq<char>
  decreases x, 1int, 0int
{ d_ands(x.0, 0) }
#[verifier::opaque]
pub open spec fn d_ands(v: Vec<BasicExpr>, i: int) -> Seq<char>
  decreases v, 0int, v@.len() - i
{ if 0 <= i < v@.len() { d_basic(v@[i]) + sep(i, v@.len(), " && "@) + d_ands(v, i + 1) } else { seq![] } }
/// the text of a negated call lacks the exclamation mark: a known finding
#[verifier::opaque]
pub open spec fn d_basic(b: BasicExpr) -> Seq<char>
  decreases b, 0int, 0int
{
  match b {
    BasicExpr::Paren(x) => "("@ + d_or(x) + ")"@,
    BasicExpr::NotParen(x) => "!("@ + d_or(x) + ")"@,
    BasicExpr::Relation(c) => d_cmp(c),
    BasicExpr::Exist(x) => d_query(x.0),
    BasicExpr::NotExist(x) => "!"@ + d_query(x.0),
    BasicExpr::FuncExpr(f) => d_call(f.name@, f.args),
    BasicExpr::NotFuncExpr(f) => d_call(f.name@, f.args),
  }
}
#[verifier::opaque]
pub open spec fn d_cmp(c: ComparisonExpr) -> Seq<char>
  decreases c, 0int, 0int
{ d_comp(c.left) + d_op(c.op) + d_comp(c.right) }
#[verifier::opaque]
pub open spec fn d_comp(c: Comparable) -> Seq<char>
  decreases c, 0int, 0int
{ match c { Comparable::Literal(l) => d_lit(l), Comparable::SingularQuery(q) => d_sq(q), Comparable::FunctionExpr(f) => d_call(f.name@, f.args) } }
#[verifier::opaque]
pub open spec fn d_call(name: Seq<char>, v: Vec<FunctionExprArg>) -> Seq<char>
  decreases v, 1int, 0int
{ name + "("@ + d_args(v, 0) + ")"@ }
#[verifier::opaque]
pub open spec fn d_args(v: Vec<FunctionExprArg>, i: int) -> Seq<char>
  decreases v, 0int, v@.len() - i
{ if 0 <= i < v@.len() { d_arg(v@[i]) + sep(i, v@.len(), ","@) + d_args(v, i + 1) } else { seq![] } }
#[verifier::opaque]
pub open spec fn d_arg(a: FunctionExprArg) -> Seq<char>
  decreases a, 0int, 0int
{
  match a {
    FunctionExprArg::Literal(l) => d_lit(l),
    FunctionExprArg::SingularQuery(q) => d_sq(q),
    FunctionExprArg::FilterQuery(q) => d_query(q),
    FunctionExprArg::LogicalExpr(x) => d_or(x),
    FunctionExprArg::FunctionExpr(f) => d_call(f.name@, f.args),
  }
}
//@endgrammar
} // mod vxdisp
pub use vxdisp::*;
pub mod f_disp {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_concat};
//@fn <Integer as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
//@end
//@fn <Name as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
//@end
//@fn <Index as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
//@end
//@fn <Slice as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
//@end
//@fn <SingularQuerySegment as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
//@end
//@fn <Literal as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
//@end
//@fn <ComparisonOperator as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
//@end
//@fn <Selector as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_sel(*$self); }
//@end
//@fn <QuerySegment as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_qseg(*$self); }
//@end
//@fn <LogicalOrExpr as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_or(*$self); }
@loop LogicalAndExpr for
@inv
$1.buf() + d_ors($self.0, $I as int) == old($1).buf() + d_or(*$self),
@body
proof { u_d_ors($self.0, $I as int - 1); }
@after
proof { u_d_ors($self.0, $self.0@.len() as int); }
//@end
//@fn <LogicalAndExpr as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_and(*$self); }
@loop BasicExpr for
@inv
$1.buf() + d_ands($self.0, $I as int) == old($1).buf() + d_and(*$self),
@body
proof { u_d_ands($self.0, $I as int - 1); }
@after
proof { u_d_ands($self.0, $self.0@.len() as int); }
//@end
//@fn <BasicExpr as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_basic(*$self); }
//@end
//@fn <ComparisonExpr as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_cmp(*$self); }
//@end
//@fn <Comparable as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_comp(*$self); }
//@end
//@fn <FunctionExprArg as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_arg(*$self); }
//@end
//@fn <ExistExpr as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
//@end
//@fn <Filter as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
//@end
//@fn <Segment as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_seg(*$self); }
@loop Selector for
@inv
$1.buf() + d_sels($self->LongHand_0, $I as int) + "]"@ == old($1).buf() + d_seg(*$self),
@body
proof { u_d_sels($self->LongHand_0, $I as int - 1); }
@after
proof { u_d_sels($self->LongHand_0, $self->LongHand_0@.len() as int); }
//@end
//@fn <Query as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_query(*$self); }
@loop QuerySegment for
@inv
$1.buf() + d_segs(*$self, $I as int) == old($1).buf() + d_query(*$self),
@body
proof { u_d_segs(*$self, $I as int - 1); }
@after
proof { u_d_segs(*$self, $self.segments@.len() as int); }
//@end
//@fn <SingularQuery as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@loop SingularQuerySegment for
@inv
$1.buf() + d_sqsegs($self.segments@, $I as int) == old($1).buf() + d_sq(*$self),
@body
proof {  }
@after
proof {  }
//@end
//@fn <FunctionExpr<V> as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
@decreases
*$self
@entry
proof { u_d_call($self.name@, $self.args); }
@loop FunctionExprArg for
@inv
$1.buf() + d_args($self.args, $I as int) + ")"@ == old($1).buf() + $self.disp(),
@body
proof { u_d_args($self.args, $I as int - 1); }
@after
proof { u_d_args($self.args, $self.args@.len() as int); }
//@end
//@fn <JsonPath as Display>::fmt props=C19
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + $self.disp(),
//@end
//@fn <JsonPath as Serialize>::serialize props=C19
@inst
S VxSer
@ensures
ser_str($1, $self.disp(), $r),
//@end
//@fn <NormalizedPath as Serialize>::serialize props=C16
@inst
S VxSer
@ensures
ser_str($1, npath(pview(*$self), pview(*$self).len() as int), $r),
//@end
//@fn <PathElement as Serialize>::serialize props=C16
@inst
S VxSer
@ensures
match pe(*$self) { PE::N(n) => ser_str($1, n, $r), PE::I(i) => ser_num($1, i, $r) },
//@end
//@fn <JsonPathVisitor as Visitor>::visit_str props=C19
@inst
E VxDeError
@ensures
match $r { Ok(x) => $self.takes($1@, x), Err(_) => $self.refuses($1@) },
//@end
//@fn <JsonPath as Deserialize>::deserialize props=C19
@inst
D VxDe
@ensures
match de_str($1) { Some(t) => match $r { Ok(x) => g_main(t) matches PR::Ok(_, q) && q == x.0, Err(_) => !(g_main(t) is Ok) }, None => $r is Err },
//@end
}
pub use f_disp::*;

// ---- a parsed query is displayed as a text that parses as the same query
pub mod vxrt {
use super::*;
use super::vx_gprops::*;
use super::vxcanon::*;
broadcast use {vx_parse_axioms, vxmem::ax_vec_of, vxmem::ax_string_of};
// what the parser makes
pub open spec fn k_dot(s: Seq<char>) -> bool { s.len() > 0 && nm_first(s[0]) && forall|i: int| 0 <= i < s.len() ==> nm_char(#[trigger] s[i]) }
pub open spec fn k_fname(s: Seq<char>) -> bool { s.len() > 0 && fc_first(s[0]) && forall|i: int| 0 <= i < s.len() ==> fc_char(#[trigger] s[i]) }
pub open spec fn k_sq(q: SingularQuery) -> bool { in_memory(q.segments@.len()) }
pub open spec fn k_query(q: Query) -> bool
  decreases q, 0int
{ in_memory(q.segments@.len()) && forall|i: int| 0 <= i < q.segments@.len() ==> k_qseg(#[trigger] q.segments@[i]) }
pub open spec fn k_qseg(s: QuerySegment) -> bool
  decreases s, 0int
{ k_seg(s.segment) }
pub open spec fn k_seg(s: Segment) -> bool
  decreases s, 0int
{
  match s {
    Segment::LongHand(v) => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> k_sel(#[trigger] v@[i]),
    Segment::DotName(n) => k_dot(n@),
    Segment::Wildcard => true,
  }
}
pub open spec fn k_sel(s: Selector) -> bool
  decreases s, 0int
{ match s { Selector::Filter(f) => k_or(f.0), _ => true } }
pub open spec fn k_or(x: LogicalOrExpr) -> bool
  decreases x, 0int
{ x.0@.len() > 0 && forall|i: int| 0 <= i < x.0@.len() ==> k_and(#[trigger] x.0@[i]) }
pub open spec fn k_and(x: LogicalAndExpr) -> bool
  decreases x, 0int
{ x.0@.len() > 0 && forall|i: int| 0 <= i < x.0@.len() ==> k_basic(#[trigger] x.0@[i]) }
pub open spec fn k_basic(b: BasicExpr) -> bool
  decreases b, 0int
{
  match b {
    BasicExpr::Paren(x) => k_or(x),
    BasicExpr::NotParen(x) => k_or(x),
    BasicExpr::Relation(c) => k_comp(c.left) && k_comp(c.right),
    BasicExpr::Exist(x) => k_query(x.0),
    BasicExpr::NotExist(x) => k_query(x.0),
    BasicExpr::FuncExpr(f) => k_func(f) && k_test(f),
    BasicExpr::NotFuncExpr(f) => k_func(f) && k_test(f),
  }
}
pub open spec fn k_test(f: FunctionExpr<Validated>) -> bool { f.return_type is Logical || f.return_type is Nodelist }
pub open spec fn k_comp(c: Comparable) -> bool
  decreases c, 0int
{ match c { Comparable::Literal(_) => true, Comparable::SingularQuery(q) => k_sq(q), Comparable::FunctionExpr(f) => k_func(f) && f.return_type is Value } }
pub open spec fn k_func(f: FunctionExpr<Validated>) -> bool
  decreases f, 1int
{
  k_fname(f.name@) && fn_call(f.name@, f.args@) == Some(f)
  && (forall|i: int| 0 <= i < f.args@.len() ==> k_arg(#[trigger] f.args@[i]))
}
/// one query, or one call
pub open spec fn lone(x: LogicalOrExpr) -> bool { x.0@.len() == 1 && x.0@[0].0@.len() == 1 && (x.0@[0].0@[0] is Exist || x.0@[0].0@[0] is FuncExpr) }
pub open spec fn k_arg(a: FunctionExprArg) -> bool
  decreases a, 0int
{
  match a {
    FunctionExprArg::Literal(_) => true,
    FunctionExprArg::SingularQuery(q) => k_sq(q),
    FunctionExprArg::FilterQuery(q) => k_query(q) && sing(q) is None,
    FunctionExprArg::LogicalExpr(x) => k_or(x) && !lone(x),
    FunctionExprArg::FunctionExpr(f) => k_func(f),
  }
}
proof fn m_ws_len(s: Seq<char>) ensures ws(s).len() <= s.len() { lem_ws(s); }
proof fn m_fname_len(s: Seq<char>, acc: Seq<char>)
  ensures match g_fname_rest(s, acc) { PR::Ok(r, t) => r.len() + t.len() == s.len() + acc.len() && ((forall|i: int| 0 <= i < acc.len() ==> fc_char(#[trigger] acc[i])) ==> (forall|i: int| 0 <= i < t.len() ==> fc_char(#[trigger] t[i]))), _ => true }
  decreases s.len()
{ if s.len() > 0 && fc_char(s[0]) { m_fname_len(s.skip(1), acc.push(s[0])); } }
proof fn m_nm_span(s: Seq<char>, i: int, j: int)
  requires 0 <= i <= j < nm_span(s, i), i <= s.len()
  ensures nm_span(s, i) <= s.len(), nm_char(s[j])
  decreases s.len() - i
{ if i < s.len() && nm_char(s[i]) { if i < j { m_nm_span(s, i + 1, j); } else { lem_nm_bound(s, i); } } }
proof fn m_dot(s: Seq<char>)
  ensures match g_dot_name(s) { PR::Ok(_, t) => k_dot(t) && t.len() <= s.len(), _ => true }
{
  lem_C17_name(s);
  lem_nm_bound(s, 0);
  if s.len() > 0 && nm_first(s[0]) {
    let n = nm_span(s, 0);
    lem_nm_bound(s, 1);
    assert(n == nm_span(s, 1));
    assert forall|i: int| 0 <= i < n implies nm_char(#[trigger] s.take(n)[i]) by { m_nm_span(s, 0, i); }
  }
}
proof fn m_sing(q: Seq<QuerySegment>)
  ensures match sing_segs(q) { Some(v) => v.len() == q.len(), _ => true }
  decreases q.len()
{ if q.len() > 0 { m_sing(q.drop_last()); } }
proof fn m_segs(s: Seq<char>, acc: Seq<QuerySegment>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> k_qseg(#[trigger] acc[i]),
  ensures match g_segs(s, acc) { PR::Ok(_, v) => v@.len() <= s.len() + acc.len() && (forall|i: int| 0 <= i < v@.len() ==> k_qseg(#[trigger] v@[i])), _ => true }
  decreases s.len(), 20int
{
  u_segs(s, acc);
  m_segment(s);
  match bnd(s, g_segment(s)) { PR::Ok(r, x) => { if r.len() < s.len() { m_segs(r, acc.push(x)); } } _ => {} }
}
pub proof fn m_root(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_root(s) { PR::Ok(_, v) => k_query(v), _ => true }
  decreases s.len(), 0int
{
  u_root(s);
  if s.len() > 0 { m_segs(s.skip(1), seq![]); }
}
proof fn m_current(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_current(s) { PR::Ok(_, v) => k_query(v), _ => true }
  decreases s.len(), 0int
{
  u_current(s);
  if s.len() > 0 { m_segs(s.skip(1), seq![]); }
}
proof fn m_query(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_query(s) { PR::Ok(_, v) => k_query(v), _ => true }
  decreases s.len(), 1int
{
  u_query(s);
  m_root(s); m_current(s);
}
proof fn m_sels(s: Seq<char>, acc: Seq<Selector>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> k_sel(#[trigger] acc[i]), acc.len() > 0,
  ensures match g_sels(s, acc) { PR::Ok(_, v) => (forall|i: int| 0 <= i < v@.len() ==> k_sel(#[trigger] v@[i])) && v@.len() > 0, _ => true }
  decreases s.len(), 11int
{
  u_sels(s, acc);
  if at(ws(s), 0, ',') {
    let r = ws(s).skip(1);
    m_ws_len(s); m_ws_len(r); m_selector(ws(r));
    match bnd(r, g_selector(ws(r))) { PR::Ok(r2, x) => { if r2.len() < s.len() { m_sels(r2, acc.push(x)); } } _ => {} }
  }
}
proof fn m_multi(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_multi(s) { PR::Ok(_, v) => (forall|i: int| 0 <= i < v@.len() ==> k_sel(#[trigger] v@[i])) && v@.len() > 0, _ => true }
  decreases s.len(), 12int
{
  u_multi(s);
  m_selector(s);
  match bnd(s, g_selector(s)) { PR::Ok(r, x) => { m_sels(r, seq![x]); } _ => {} }
}
proof fn m_longhand(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_longhand(s) { PR::Ok(_, v) => k_seg(v), _ => true }
  decreases s.len(), 17int
{
  u_longhand(s);
  if at(s, 0, '[') { m_ws_len(s.skip(1)); m_multi(ws(s.skip(1))); }
}
proof fn m_child(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_child(s) { PR::Ok(_, v) => k_seg(v), _ => true }
  decreases s.len(), 18int
{
  u_child(s);
  m_ws_len(s); m_longhand(ws(s));
  let w = ws(s);
  if at(w, 0, '.') && !at(w, 1, '*') { m_dot(w.skip(1)); }
}
proof fn m_desc(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_desc(s) { PR::Ok(_, v) => k_seg(v), _ => true }
  decreases s.len(), 18int
{
  u_desc(s);
  m_ws_len(s); if at(ws(s), 0, '.') && at(ws(s), 1, '.') { m_longhand(ws(s).skip(2)); m_dot(ws(s).skip(2)); }
}
proof fn m_segment(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_segment(s) { PR::Ok(_, v) => k_qseg(v), _ => true }
  decreases s.len(), 19int
{
  u_segment(s);
  m_desc(s); m_child(s);
}
proof fn m_selector(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_selector(s) { PR::Ok(_, v) => k_sel(v), _ => true }
  decreases s.len(), 10int
{
  u_selector(s);
  m_filter(s);
}
proof fn m_filter(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_filter(s) { PR::Ok(_, v) => k_or(v.0), _ => true }
  decreases s.len(), 9int
{
  u_filter(s);
  if at(s, 0, '?') { m_ws_len(s.skip(1)); m_or(ws(s.skip(1))); }
}
proof fn m_ors(s: Seq<char>, acc: Seq<LogicalAndExpr>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> k_and(#[trigger] acc[i]), acc.len() > 0,
  ensures match g_ors(s, acc) { PR::Ok(_, v) => (forall|i: int| 0 <= i < v@.len() ==> k_and(#[trigger] v@[i])) && v@.len() > 0, _ => true }
  decreases s.len(), 7int
{
  u_ors(s, acc);
  m_ws_len(s);
  match tok(ws(s), "||"@) { PR::Ok(r, _) => { if r.len() < s.len() { m_ws_len(r); m_and(ws(r));
    match bnd(r, g_and(ws(r))) { PR::Ok(r2, x) => { m_ors(r2, acc.push(x)); } _ => {} } } } _ => {} }
}
proof fn m_ands(s: Seq<char>, acc: Seq<BasicExpr>)
  requires in_memory(s.len() + acc.len()),
    forall|i: int| 0 <= i < acc.len() ==> k_basic(#[trigger] acc[i]), acc.len() > 0,
  ensures match g_ands(s, acc) { PR::Ok(_, v) => (forall|i: int| 0 <= i < v@.len() ==> k_basic(#[trigger] v@[i])) && v@.len() > 0, _ => true }
  decreases s.len(), 6int
{
  u_ands(s, acc);
  m_ws_len(s);
  match tok(ws(s), "&&"@) { PR::Ok(r, _) => { if r.len() < s.len() { m_ws_len(r); m_basic(ws(r));
    match bnd(r, g_basic(ws(r))) { PR::Ok(r2, x) => { m_ands(r2, acc.push(x)); } _ => {} } } } _ => {} }
}
proof fn m_or(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_or(s) { PR::Ok(_, v) => k_or(v), _ => true }
  decreases s.len(), 8int
{
  u_or(s);
  m_and(s);
  match bnd(s, g_and(s)) { PR::Ok(r, x) => { m_ors(r, seq![x]); } _ => {} }
}
proof fn m_and(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_and(s) { PR::Ok(_, v) => k_and(v), _ => true }
  decreases s.len(), 7int
{
  u_and(s);
  m_basic(s);
  match bnd(s, g_basic(s)) { PR::Ok(r, x) => { m_ands(r, seq![x]); } _ => {} }
}
proof fn m_paren(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_paren(s) { PR::Ok(_, v) => k_or(v), _ => true }
  decreases s.len(), 4int
{
  u_paren(s);
  if at(s, 0, '(') { m_ws_len(s.skip(1)); m_or(ws(s.skip(1))); }
}
proof fn m_test_call(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_test_call(s) { PR::Ok(_, v) => k_func(v) && k_test(v), _ => true }
  decreases s.len(), 3int
{
  u_test_call(s);
  m_func(s);
}
proof fn m_basic(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_basic(s) { PR::Ok(_, v) => k_basic(v), _ => true }
  decreases s.len(), 6int
{
  u_basic(s);
  if at(s, 0, '!') { m_ws_len(s.skip(1)); m_paren(bang(s)); m_query(bang(s)); m_test_call(bang(s)); }
  m_paren(s); m_cmp(s); m_query(s); m_test_call(s);
}
proof fn m_cmp(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_cmp(s) { PR::Ok(_, v) => k_comp(v.left) && k_comp(v.right), _ => true }
  decreases s.len(), 4int
{
  u_cmp(s);
  m_comparable(s);
  match bnd(s, g_comparable(s)) { PR::Ok(r, left) => match bnd(s, g_op(ws(r))) {
    PR::Ok(r2, op) => { if r2.len() < s.len() { m_ws_len(r2); m_comparable(ws(r2)); } } _ => {} } _ => {} }
}
proof fn m_singular(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_singular(s) { PR::Ok(_, v) => k_sq(v), _ => true }
  decreases s.len(), 2int
{
  u_singular(s);
  m_query(s);
  match g_query(s) { PR::Ok(r, q) => { m_sing(q.segments@); } _ => {} }
}
proof fn m_comparable(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_comparable(s) { PR::Ok(_, v) => k_comp(v), _ => true }
  decreases s.len(), 3int
{
  u_comparable(s); u_comp_rest(s);
  m_singular(s);
  m_func(s);
}
proof fn m_plain_arg(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_plain_arg(s) { PR::Ok(_, v) => k_arg(v), _ => true }
  decreases s.len(), 9int
{
  u_plain_arg(s);
  u_singular(s); m_singular(s); m_query(s);
  m_func(s);
}
/// a call or a query in place of an argument
proof fn m_lone_basic(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_basic(s) { PR::Ok(r, b) => b is Exist || b is FuncExpr ==> (g_plain_arg(s) matches PR::Ok(r2, _) && r2 == r), _ => true }
{
  u_basic(s); u_plain_arg(s); u_singular(s); u_test_call(s); u_query(s); u_root(s); u_current(s); u_func(s);
  if at(s, 0, '$') || at(s, 0, '@') {
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    assert(g_fname(s) is Err); assert(g_string(s) is Err); assert(g_number(s) is Err);
    assert(!starts(s, "true"@)) by { assert("true"@[0] == 't'); } assert(!starts(s, "false"@)) by { assert("false"@[0] == 'f'); } assert(!starts(s, "null"@)) by { assert("null"@[0] == 'n'); }
    assert(g_literal(s) is Err);
  }
}
/// an argument that is one call or one query is not a logical expression
proof fn m_lone(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_or(s) { PR::Ok(r, x) => lone(x) ==> (g_plain_arg(s) matches PR::Ok(r2, _) && r2 == r), _ => true }
{
  u_or(s); u_and(s);
  m_lone_basic(s);
  match bnd(s, g_basic(s)) { PR::Ok(r1, b) => {
    m_ands_one(r1, seq![b]);
    match g_ands(r1, seq![b]) { PR::Ok(r2, v) => {
      let x = LogicalAndExpr(v);
      assert(v@.take(1)[0] == b);
      assert(v@[0] == v@.take(1)[0]);
      if r2.len() <= s.len() { m_ors_one(r2, seq![x]); }
      match g_ors(r2, seq![x]) { PR::Ok(r3, w) => { if r2.len() <= s.len() { assert(w@.take(1)[0] == x); assert(w@[0] == w@.take(1)[0]); } } _ => {} }
    } _ => {} }
  } _ => {} }
}
proof fn m_ors_one(s: Seq<char>, acc: Seq<LogicalAndExpr>)
  requires in_memory(s.len() + acc.len()),
  ensures match g_ors(s, acc) { PR::Ok(r, v) => v@.len() >= acc.len() && v@.take(acc.len() as int) == acc && (v@.len() == acc.len() ==> r == s), _ => true }
  decreases s.len()
{
  u_ors(s, acc);
  m_ws_len(s);
  assert(acc.take(acc.len() as int) =~= acc);
  match tok(ws(s), "||"@) { PR::Ok(r, _) => { if r.len() < s.len() { m_ws_len(r);
    match bnd(r, g_and(ws(r))) { PR::Ok(r2, x) => { m_ors_one(r2, acc.push(x)); assert(acc.push(x).take(acc.len() as int) =~= acc);
      match g_ors(r2, acc.push(x)) { PR::Ok(_, v) => { assert(v@.take(acc.len() as int) =~= v@.take(acc.len() as int + 1).take(acc.len() as int)); } _ => {} } } _ => {} } } } _ => {} }
}
proof fn m_ands_one(s: Seq<char>, acc: Seq<BasicExpr>)
  requires in_memory(s.len() + acc.len()),
  ensures match g_ands(s, acc) { PR::Ok(r, v) => v@.len() >= acc.len() && v@.take(acc.len() as int) == acc && (v@.len() == acc.len() ==> r == s), _ => true }
  decreases s.len()
{
  u_ands(s, acc);
  m_ws_len(s);
  assert(acc.take(acc.len() as int) =~= acc);
  match tok(ws(s), "&&"@) { PR::Ok(r, _) => { if r.len() < s.len() { m_ws_len(r);
    match bnd(r, g_basic(ws(r))) { PR::Ok(r2, x) => { m_ands_one(r2, acc.push(x)); assert(acc.push(x).take(acc.len() as int) =~= acc);
      match g_ands(r2, acc.push(x)) { PR::Ok(_, v) => { assert(v@.take(acc.len() as int) =~= v@.take(acc.len() as int + 1).take(acc.len() as int)); } _ => {} } } _ => {} } } } _ => {} }
}
proof fn m_arg(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_arg(s) { PR::Ok(r, v) => arg_end(r) ==> k_arg(v), _ => true }
  decreases s.len(), 10int
{
  u_arg(s);
  m_plain_arg(s); m_or(s); m_lone(s);
}
/// what follows the arguments shows that each ended where it had to
proof fn m_args_rest(s: Seq<char>, acc: Seq<FunctionExprArg>, k: int)
  requires in_memory(s.len() + acc.len()), acc.len() > 0,
    forall|i: int| 0 <= i < acc.len() - 1 ==> k_arg(#[trigger] acc[i]),
    arg_end(s) ==> k_arg(acc.last()),
  ensures match g_args_rest(s, acc) { PR::Ok(r, v) => at(ws(r), 0, ')') ==> forall|i: int| 0 <= i < v@.len() ==> k_arg(#[trigger] v@[i]), _ => true }
  decreases s.len(), 11int
{
  u_args_rest(s, acc);
  m_ws_len(s);
  if at(ws(s), 0, ',') {
    let r = ws(s).skip(1);
    assert(k_arg(acc.last()));
    m_ws_len(r); m_arg(ws(r));
    match bnd(r, g_arg(ws(r))) { PR::Ok(r2, x) => { if r2.len() < s.len() {
      assert forall|i: int| 0 <= i < acc.push(x).len() - 1 implies k_arg(#[trigger] acc.push(x)[i]) by { assert(acc.push(x)[i] == acc[i]); }
      m_args_rest(r2, acc.push(x), 0);
    } } _ => {} }
  }
}
proof fn m_args(s: Seq<char>)
  requires in_memory(s.len() + 1),
  ensures match g_args(s) { PR::Ok(r, v) => at(ws(r), 0, ')') ==> forall|i: int| 0 <= i < v@.len() ==> k_arg(#[trigger] v@[i]), _ => true }
  decreases s.len(), 12int
{
  u_args(s);
  if !at(s, 0, ')') { m_arg(s); match bnd(s, g_arg(s)) { PR::Ok(r, x) => { m_args_rest(r, seq![x], 0); } _ => {} } }
}
proof fn m_func(s: Seq<char>)
  requires in_memory(s.len()),
  ensures match g_func(s) { PR::Ok(_, v) => k_func(v), _ => true }
  decreases s.len(), 2int
{
  u_func(s);
  if s.len() > 0 { m_fname_len(s.skip(1), seq![]); }
  match bnd(s, g_fname(s)) { PR::Ok(r, name) => { assert(in_memory(name.len())); if at(r, 0, '(') {
    let r1 = ws(r.skip(1));
    m_ws_len(r.skip(1));
    if r1.len() < s.len() { m_args(r1); }
  } } _ => {} }
}
} // mod vxrt
pub mod vxrt2 {
use super::*;
use super::vx_gprops::*;
use super::vxcanon::*;
use super::vx_props::*;
use super::vxrt::*;
broadcast use {vx_parse_axioms, vxmem::ax_vec_of, vxmem::ax_string_of};
// the queries that have none of the constructs of the known findings
pub open spec fn t_str(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> inc(CC::Plain('\''), #[trigger] s[i]) }
/// a number literal that serde_json reads back from what it writes
pub open spec fn t_lit(l: Literal) -> bool {
  match l { Literal::Number(n) => g_number(n.disp()) == PR::Ok(Seq::<char>::empty(), n), Literal::String(s) => t_str(s@), _ => true }
}
pub open spec fn t_sqseg(s: SingularQuerySegment) -> bool { match s { SingularQuerySegment::Name(n) => t_str(n.0@), _ => true } }
pub open spec fn t_sq(q: SingularQuery) -> bool { forall|i: int| 0 <= i < q.segments@.len() ==> t_sqseg(#[trigger] q.segments@[i]) }
pub open spec fn t_query(q: Query) -> bool
  decreases q, 0int
{ forall|i: int| 0 <= i < q.segments@.len() ==> t_qseg(#[trigger] q.segments@[i]) }
pub open spec fn t_qseg(s: QuerySegment) -> bool
  decreases s, 0int
{ t_seg(s.segment) && (s.kind is Descendant ==> s.segment is LongHand) }
pub open spec fn t_seg(s: Segment) -> bool
  decreases s, 0int
{ match s { Segment::LongHand(v) => forall|i: int| 0 <= i < v@.len() ==> t_sel(#[trigger] v@[i]), _ => true } }
pub open spec fn t_sel(s: Selector) -> bool
  decreases s, 0int
{ match s { Selector::Name(n) => t_str(n.0@), Selector::Filter(f) => t_or(f.0), _ => true } }
pub open spec fn t_or(x: LogicalOrExpr) -> bool
  decreases x, 0int
{ forall|i: int| 0 <= i < x.0@.len() ==> t_and(#[trigger] x.0@[i]) }
pub open spec fn t_and(x: LogicalAndExpr) -> bool
  decreases x, 0int
{ forall|i: int| 0 <= i < x.0@.len() ==> t_basic(#[trigger] x.0@[i]) }
pub open spec fn t_basic(b: BasicExpr) -> bool
  decreases b, 0int
{
  match b {
    BasicExpr::Paren(x) => t_or(x),
    BasicExpr::NotParen(x) => t_or(x),
    BasicExpr::Relation(c) => t_comp(c.left) && t_comp(c.right),
    BasicExpr::Exist(x) => t_query(x.0),
    BasicExpr::NotExist(x) => t_query(x.0),
    BasicExpr::FuncExpr(f) => t_func(f),
    BasicExpr::NotFuncExpr(f) => false,
  }
}
pub open spec fn t_comp(c: Comparable) -> bool
  decreases c, 0int
{ match c { Comparable::Literal(l) => t_lit(l), Comparable::SingularQuery(q) => t_sq(q), Comparable::FunctionExpr(f) => t_func(f) } }
pub open spec fn t_func(f: FunctionExpr<Validated>) -> bool
  decreases f, 1int
{ forall|i: int| 0 <= i < f.args@.len() ==> t_arg(#[trigger] f.args@[i]) }
pub open spec fn t_arg(a: FunctionExprArg) -> bool
  decreases a, 0int
{
  match a {
    FunctionExprArg::Literal(l) => t_lit(l),
    FunctionExprArg::SingularQuery(q) => t_sq(q),
    FunctionExprArg::FilterQuery(q) => t_query(q),
    FunctionExprArg::LogicalExpr(x) => t_or(x),
    FunctionExprArg::FunctionExpr(f) => t_func(f),
  }
}
// what may follow: an or-expression (0), an and-expression (1), a basic expression (2), a comparable (3)
pub open spec fn endc(c: char, l: int) -> bool {
  c == ',' || c == ')' || c == ']' || (l >= 1 && c == '|') || (l >= 2 && c == '&') || (l >= 3 && (c == '=' || c == '!' || c == '<' || c == '>'))
}
pub open spec fn fol(r: Seq<char>, l: int) -> bool { r.len() == 0 || endc(r[0], l) || (r[0] == ' ' && r.len() > 1 && endc(r[1], l)) }
pub open spec fn stc(c: char) -> bool { c == '\'' || c == '-' || ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || c == '$' || c == '@' || c == '(' || c == '!' }
proof fn n_blank(s: Seq<char>)
  requires s.len() > 0, s[0] == ' ', s.len() == 1 || !inc(CC::Ws, s[1])
  ensures ws(s) == s.skip(1)
{ reveal(ws); reveal_with_fuel(span, 3); }
proof fn n_fol(r: Seq<char>, l: int)
  requires fol(r, l)
  ensures ws(r).len() == 0 || endc(ws(r)[0], l), ws(r).len() <= r.len(), g_segment(r) is Err
{
  if r.len() > 0 && r[0] == ' ' { n_blank(r); } else { lem_ws_none(r); }
  u_segment(r); u_desc(r); u_child(r); u_longhand(ws(r));
}
proof fn lits()
  ensures "'"@ =~= seq!['\''], "["@ =~= seq!['['], "]"@ =~= seq![']'], "$"@ =~= seq!['$'], "@"@ =~= seq!['@'], ".."@ =~= seq!['.', '.'], "."@ =~= seq!['.'],
    ".*"@ =~= seq!['.', '*'], ","@ =~= seq![','], "*"@ =~= seq!['*'], "?"@ =~= seq!['?'], " || "@ =~= seq![' ', '|', '|', ' '], " && "@ =~= seq![' ', '&', '&', ' '],
    "||"@ =~= seq!['|', '|'], "&&"@ =~= seq!['&', '&'], "("@ =~= seq!['('], ")"@ =~= seq![')'], "!("@ =~= seq!['!', '('], "!"@ =~= seq!['!'], ":"@ =~= seq![':'], ""@ =~= seq![],
{
  reveal_strlit("'"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("$"); reveal_strlit("@"); reveal_strlit(".."); reveal_strlit(".");
  reveal_strlit(".*"); reveal_strlit(","); reveal_strlit("*"); reveal_strlit("?"); reveal_strlit(" || "); reveal_strlit(" && ");
  reveal_strlit("||"); reveal_strlit("&&"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit("!("); reveal_strlit("!"); reveal_strlit(":"); reveal_strlit("");
}
proof fn lits2()
  ensures "true"@ =~= seq!['t', 'r', 'u', 'e'], "false"@ =~= seq!['f', 'a', 'l', 's', 'e'], "null"@ =~= seq!['n', 'u', 'l', 'l'],
    "=="@ =~= seq!['=', '='], "!="@ =~= seq!['!', '='], "<="@ =~= seq!['<', '='], ">="@ =~= seq!['>', '='], "<"@ =~= seq!['<'], ">"@ =~= seq!['>'],
{
  reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null");
  reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("<="); reveal_strlit(">="); reveal_strlit("<"); reveal_strlit(">");
}
/// neither a literal nor a call starts with this character
proof fn n_nolit(s: Seq<char>)
  requires s.len() == 0 || s[0] == '$' || s[0] == '@' || s[0] == '(' || s[0] == '!' || s[0] == ')'
  ensures g_literal(s) is Err, g_func(s) is Err, s.len() == 0 || s[0] == '(' || s[0] == '!' || s[0] == ')' ==> g_query(s) is Err && g_singular(s) is Err && g_plain_arg(s) is Err && g_comparable(s) is Err && g_cmp(s) is Err
{
  lits2(); u_func(s); u_query(s); u_root(s); u_current(s); u_singular(s); u_plain_arg(s); u_comparable(s); u_comp_rest(s); u_cmp(s);
  assert(!starts(s, "true"@)) by { assert("true"@[0] == 't'); }
  assert(!starts(s, "false"@)) by { assert("false"@[0] == 'f'); }
  assert(!starts(s, "null"@)) by { assert("null"@[0] == 'n'); }
}
proof fn n_span_all(k: CC, s: Seq<char>, i: int, n: int)
  requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n ==> inc(k, #[trigger] s[j]), n == s.len() || !inc(k, s[n])
  ensures span(k, s, i, s.len() as int) == n
  decreases n - i
{ if i < n { assert(inc(k, s[i])); n_span_all(k, s, i + 1, n); } }
proof fn n_span_ext(k: CC, s: Seq<char>, t: Seq<char>, i: int)
  requires 0 <= i <= s.len(), t.len() == 0 || !inc(k, t[0])
  ensures span(k, s + t, i, (s + t).len() as int) == span(k, s, i, s.len() as int), i <= span(k, s, i, s.len() as int) <= s.len()
  decreases s.len() - i
{
  if i < s.len() { assert((s + t)[i] == s[i]); if inc(k, s[i]) { n_span_ext(k, s, t, i + 1); } }
  else if t.len() > 0 { assert((s + t)[i] == t[0]); }
}
proof fn n_int(i: Integer, rest: Seq<char>)
  requires rest.len() == 0 || !inc(CC::Digit, rest[0])
  ensures g_int(d_int(i.v()) + rest) == PR::Ok(rest, i), d_int(i.v()).len() > 0, d_int(i.v())[0] == '-' || inc(CC::Digit, d_int(i.v())[0])
{
  let v = i.v();
  let n: nat = if v < 0 { (-v) as nat } else { v as nat };
  let d = dec_digits(n);
  let t = d_int(v) + rest;
  lem_dec(n); lem_digits_val(d);
  assert(in_range(v));
  assert(d.len() > 1 ==> d[0] != '0');
  assert(forall|j: int| 0 <= j < d.len() ==> inc(CC::Digit, #[trigger] d[j])) by { assert(forall|j: int| 0 <= j < d.len() ==> is_digit(#[trigger] d[j])); }
  assert(d_int(v).len() == d.len() + if v < 0 { 1int } else { 0 });
  assert(t.skip(d_int(v).len() as int) =~= rest);
  assert(t.take(d_int(v).len() as int) =~= d_int(v));
  if v < 0 {
    assert(d_int(v).skip(1) =~= d);
    assert(t[0] == '-'); assert(t[1] == d[0]);
    assert(forall|j: int| 0 <= j < d.len() ==> t[j + 1] == #[trigger] d[j]);
    assert(forall|j: int| 2 <= j < d.len() + 1 ==> inc(CC::Digit, #[trigger] t[j])) by { assert(forall|j: int| 2 <= j < d.len() + 1 ==> t[j] == d[j - 1]); }
    n_span_all(CC::Digit, t, 2, d.len() as int + 1);
    assert(int_of(d_int(v)) == Some(v));
  } else {
    assert(t[0] == d[0]);
    assert(is_digit(d[0]));
    assert(int_of(d) == Some(v));
    if d[0] == '0' { assert(d.len() == 1); assert(t.skip(1) =~= rest); assert(t.take(1) =~= d); }
    else {
      assert(forall|j: int| 1 <= j < d.len() ==> inc(CC::Digit, #[trigger] t[j])) by { assert(forall|j: int| 1 <= j < d.len() ==> t[j] == d[j]); }
      n_span_all(CC::Digit, t, 1, d.len() as int);
    }
  }
  assert(g_int_text(t) == PR::Ok(rest, d_int(v)));
}
proof fn n_str(s: Seq<char>, rest: Seq<char>)
  requires t_str(s)
  ensures g_string(d_name(s) + rest) == PR::Ok(rest, s), (d_name(s) + rest).len() > 0, (d_name(s) + rest)[0] == '\'', d_name(s).len() > 0, d_name(s)[0] == '\''
{
  lits();
  let q = '\'';
  let t = d_name(s) + rest;
  let e = seq![q] + rest;
  let u = s + e;
  assert(t.skip(1) =~= u);
  assert(e.skip(1) =~= rest);
  assert(g_internal(q, e, s) == PR::Ok(e, s)) by { n_span_all(CC::Plain(q), e, 0, 0); assert(e[0] == q); }
  if s.len() > 0 {
    assert(forall|j: int| 0 <= j < s.len() ==> inc(CC::Plain(q), #[trigger] u[j])) by { assert(forall|j: int| 0 <= j < s.len() ==> u[j] == s[j]); }
    n_span_all(CC::Plain(q), u, 0, s.len() as int);
    assert(u.take(s.len() as int) =~= s);
    assert(u.skip(s.len() as int) =~= e);
    assert(seq![] + s =~= s);
  } else { assert(u =~= e); assert(s =~= seq![]); }
}
proof fn n_fname_rest(s: Seq<char>, acc: Seq<char>, rest: Seq<char>)
  requires forall|i: int| 0 <= i < s.len() ==> fc_char(#[trigger] s[i]), rest.len() == 0 || !fc_char(rest[0])
  ensures g_fname_rest(s + rest, acc) == PR::Ok(rest, acc + s)
  decreases s.len()
{
  if s.len() > 0 {
    assert((s + rest)[0] == s[0]);
    assert((s + rest).skip(1) =~= s.skip(1) + rest);
    n_fname_rest(s.skip(1), acc.push(s[0]), rest);
    assert(acc.push(s[0]) + s.skip(1) =~= acc + s);
  } else { assert(s + rest =~= rest); assert(acc + s =~= acc); }
}
proof fn n_fname(s: Seq<char>, rest: Seq<char>)
  requires k_fname(s), rest.len() == 0 || !fc_char(rest[0])
  ensures g_fname(s + rest) == PR::Ok(rest, s)
{
  assert((s + rest).skip(1) =~= s.skip(1) + rest);
  assert((s + rest)[0] == s[0]);
  n_fname_rest(s.skip(1), seq![], rest);
  assert(seq![s[0]] + (seq![] + s.skip(1)) =~= s);
}
proof fn n_dot(s: Seq<char>, rest: Seq<char>)
  requires k_dot(s), rest.len() == 0 || !nm_char(rest[0])
  ensures g_dot_name(s + rest) == PR::Ok(rest, s)
{
  let t = s + rest;
  lem_C17_name(t);
  assert(forall|i: int| 0 <= i < s.len() ==> nm_char(#[trigger] t[i])) by { assert(forall|i: int| 0 <= i < s.len() ==> t[i] == s[i]); }
  lem_nm_run(t, 0, s.len() as int);
  if rest.len() > 0 { assert(t[s.len() as int] == rest[0]); }
  assert(t[0] == s[0]);
  assert(nm_span(t, s.len() as int) == s.len());
  assert(t.skip(s.len() as int) =~= rest);
  assert(t.take(s.len() as int) =~= s);
}
pub open spec fn nonum(c: char) -> bool { !inc(CC::Digit, c) && c != '.' && c != 'e' && c != 'E' && c != '-' && c != '+' }
proof fn n_frac(r: Seq<char>, rest: Seq<char>)
  requires rest.len() == 0 || nonum(rest[0])
  ensures rest_or(r + rest, g_frac(r + rest)) == rest_or(r, g_frac(r)) + rest
{
  if r.len() > 0 {
    assert((r + rest)[0] == r[0]);
    n_span_ext(CC::Digit, r, rest, 1);
    let n = span(CC::Digit, r, 1, r.len() as int);
    assert((r + rest).skip(n) =~= r.skip(n) + rest);
  } else { assert(r + rest =~= rest); assert(g_frac(r) is Err); }
}
proof fn n_exp(r: Seq<char>, rest: Seq<char>)
  requires rest.len() == 0 || nonum(rest[0])
  ensures rest_or(r + rest, g_exp(r + rest)) == rest_or(r, g_exp(r)) + rest
{
  if r.len() > 0 {
    assert((r + rest)[0] == r[0]);
    if r.len() > 1 { assert((r + rest)[1] == r[1]); } else if rest.len() > 0 { assert((r + rest)[1] == rest[0]); }
    if r[0] == 'e' || r[0] == 'E' {
      let k: int = if at(r, 1, '-') || at(r, 1, '+') { 2 } else { 1 };
      n_span_ext(CC::Digit, r, rest, k);
      let n = span(CC::Digit, r, k, r.len() as int);
      assert((r + rest).skip(n) =~= r.skip(n) + rest);
    }
  } else { assert(r + rest =~= rest); assert(g_exp(r) is Err); }
}
proof fn n_num(t: Seq<char>, rest: Seq<char>)
  requires g_num_text(t) matches PR::Ok(r, _) && r.len() == 0, rest.len() == 0 || nonum(rest[0])
  ensures g_num_text(t + rest) == PR::Ok(rest, t), t.len() > 0, t[0] == '-' || inc(CC::Digit, t[0])
{
  let u = t + rest;
  assert(t.len() > 0) by { if t.len() == 0 { assert(g_int_text(t) is Err); } }
  assert(u[0] == t[0]);
  if t.len() > 1 { assert(u[1] == t[1]); } else if rest.len() > 0 { assert(u[1] == rest[0]); }
  let k: int = if at(t, 0, '-') { 1 } else { 0 };
  if k + 1 <= t.len() { n_span_ext(CC::Digit, t, rest, k + 1); }
  let z = seq!['-', '0'];
  assert(z[0] == '-' && z[1] == '0');
  assert(starts(t, z) ==> t.len() > 1 && t[0] == '-' && t[1] == '0');
  assert(starts(t, z) ==> starts(u, z)) by { if starts(t, z) { assert forall|i: int| 0 <= i < 2 implies u[i] == #[trigger] z[i] by { assert(t[i] == z[i]); } } }
  let r0: Seq<char> = match g_int_text(t) { PR::Ok(r, _) => r, _ => t.skip(2) };
  let n0 = t.len() - r0.len();
  assert(r0 == t.skip(n0));
  assert(u.skip(n0) =~= r0 + rest);
  let q0: Seq<char> = match g_int_text(u) { PR::Ok(r, _) => r, _ => u.skip(2) };
  assert(q0 == r0 + rest);
  n_frac(r0, rest);
  let r1 = rest_or(r0, g_frac(r0));
  n_exp(r1, rest);
  let r2 = rest_or(r1, g_exp(r1));
  assert(r2.len() == 0);
  assert(r2 + rest =~= rest);
  assert(u.take(u.len() - rest.len()) =~= t);
}
proof fn n_lit(l: Literal, rest: Seq<char>)
  requires t_lit(l), fol(rest, 3)
  ensures g_literal(d_lit(l) + rest) == PR::Ok(rest, l), g_func(d_lit(l) + rest) is Err, d_lit(l).len() > 0, stc(d_lit(l)[0]), d_lit(l)[0] != '$', d_lit(l)[0] != '@', d_lit(l)[0] != '(', d_lit(l)[0] != '!'
{
  let t = d_lit(l) + rest;
  lits2();
  u_func(t);
  match l {
    Literal::String(s) => { n_str(s@, rest); }
    Literal::Number(n) => {
      let d = n.disp();
      assert(g_num_text(d) is Ok);
      n_num(d, rest);
      assert(t[0] == d[0]);
      assert(g_string(t) is Err);
      let x = g_num_text(d)->Ok_1;
      assert(x =~= d);
    }
    Literal::Bool(b) => {
      let w = if b { "true"@ } else { "false"@ };
      n_fname(w, rest);
      assert(t.skip(w.len() as int) =~= rest);
      assert(starts(t, w));
      if !b { assert(!starts(t, "true"@)) by { assert("true"@[0] == 't'); assert(t[0] == 'f'); } }
      assert(t[0] == w[0]);
      assert(g_string(t) is Err); assert(g_number(t) is Err);
    }
    Literal::Null => {
      let w = "null"@;
      n_fname(w, rest);
      assert(t.skip(4) =~= rest);
      assert(starts(t, w));
      assert(t[0] == 'n');
      assert(!starts(t, "true"@)) by { assert("true"@[0] == 't'); }
      assert(!starts(t, "false"@)) by { assert("false"@[0] == 'f'); }
      assert(g_string(t) is Err); assert(g_number(t) is Err);
    }
  }
}
proof fn n_op(o: ComparisonOperator, rest: Seq<char>)
  requires rest.len() > 0, rest[0] != '='
  ensures g_op(d_op(o) + rest) == PR::Ok(rest, o), d_op(o).len() > 0, endc(d_op(o)[0], 3), d_op(o)[0] != ',', d_op(o)[0] != ')', d_op(o)[0] != ']'
{
  lits2();
  let d = d_op(o);
  let t = d + rest;
  assert(t.skip(d.len() as int) =~= rest);
  assert(t[0] == d[0]);
  assert(starts(t, d));
  assert(t[1] == if d.len() == 2 { d[1] } else { rest[0] });
  assert("=="@[0] == '='); assert("=="@[1] == '=');
  assert("!="@[0] == '!'); assert("!="@[1] == '=');
  assert("<="@[0] == '<'); assert("<="@[1] == '=');
  assert(">="@[0] == '>'); assert(">="@[1] == '=');
}
// ---- queries
/// selectors other than filters
proof fn n_leaf(s: Selector, rest: Seq<char>)
  requires !(s is Filter), t_sel(s), fol(rest, 0), rest.len() > 0
  ensures g_selector(d_sel(s) + rest) == PR::Ok(rest, s), d_sel(s).len() > 0, !inc(CC::Ws, d_sel(s)[0]), d_sel(s)[0] != ']', d_sel(s)[0] != ','
{
  let t = d_sel(s) + rest;
  lits();
  u_selector(t); u_d_sel(s);
  n_fol(rest, 0);
  match s {
    Selector::Name(n) => { n_str(n.0@, rest); }
    Selector::Wildcard => { assert(t.skip(1) =~= rest); }
    Selector::Index(i) => {
      n_int(i.0, rest);
      assert(t[0] == d_sel(s)[0]);
      assert(g_string(t) is Err);
      assert(g_slice(t) is Err);
    }
    Selector::ArraySlice(x) => { n_slice(x, rest); assert(g_string(t) is Err); }
    _ => {}
  }
}
proof fn n_noint(s: Seq<char>)
  requires s.len() == 0 || (s[0] != '-' && !inc(CC::Digit, s[0]))
  ensures g_int(s) is Err
{}
proof fn n_slice(x: Slice, rest: Seq<char>)
  requires fol(rest, 0), rest.len() > 0
  ensures g_slice(d_slice(x) + rest) == PR::Ok(rest, x), d_slice(x).len() > 0, d_slice(x)[0] == ':' || d_slice(x)[0] == '-' || inc(CC::Digit, d_slice(x)[0]), (d_slice(x) + rest)[0] == d_slice(x)[0]
{
  hide(g_int); hide(d_int);
  let t = d_slice(x) + rest;
  lits();
  n_fol(rest, 0);
  let c = seq![':'];
  let p3 = d_oint(x.step) + rest;
  let p2 = c + p3;
  let p1 = d_oint(x.end) + p2;
  let p0 = c + p1;
  assert(t =~= d_oint(x.start) + p0);
  assert(p0.skip(1) =~= p1); assert(p2.skip(1) =~= p3);
  lem_ws_none(p0); lem_ws_none(p2);
  n_oint(x.start, p0); n_oint(x.end, p2);
  lem_ws_none(p1);
  match x.step {
    Some(i) => { n_int(i, rest); lem_ws_none(p3); assert(p3[0] == d_int(i.v())[0]); }
    None => { assert(p3 =~= rest); n_noint(ws(rest)); }
  }
}
proof fn n_oint(i: Option<Integer>, p: Seq<char>)
  requires p.len() > 0, p[0] == ':'
  ensures g_oint_s(d_oint(i) + p) == (p, i), (d_oint(i) + p).len() > 0, (d_oint(i) + p)[0] == ':' || (d_oint(i) + p)[0] == '-' || inc(CC::Digit, (d_oint(i) + p)[0])
{
  match i {
    Some(x) => { n_int(x, p); lem_ws_none(p); assert((d_oint(i) + p)[0] == d_int(x.v())[0]); }
    None => { assert(d_oint(i) + p =~= p); assert(g_int(p) is Err); }
  }
}
pub open spec fn sq_back(s: SingularQuerySegment) -> QuerySegment {
  let x = match s { SingularQuerySegment::Name(n) => Selector::Name(n), SingularQuerySegment::Index(i) => Selector::Index(i) };
  QuerySegment { kind: QuerySegmentKind::Child, segment: Segment::LongHand(vec_of(seq![x])) }
}
pub open spec fn sq_backs(s: Seq<SingularQuerySegment>) -> Seq<QuerySegment> { Seq::new(s.len(), |i: int| sq_back(s[i])) }
proof fn n_sqsegs(s: Seq<SingularQuerySegment>, i: int, rest: Seq<char>)
  requires 0 <= i <= s.len(), forall|j: int| 0 <= j < s.len() ==> t_sqseg(#[trigger] s[j]), fol(rest, 3)
  ensures g_segs(d_sqsegs(s, i) + rest, sq_backs(s).take(i)) == PR::Ok(rest, vec_of(sq_backs(s)))
  decreases s.len() - i
{
  lits();
  let t = d_sqsegs(s, i) + rest;
  u_segs(t, sq_backs(s).take(i));
  if i < s.len() {
    let tail = d_sqsegs(s, i + 1) + rest;
    let x = match s[i] { SingularQuerySegment::Name(n) => Selector::Name(n), SingularQuerySegment::Index(k) => Selector::Index(k) };
    let e = seq![']'] + tail;
    let b = d_sel(x) + e;
    assert(t_sqseg(s[i]));
    u_d_sel(x);
    assert(d_sqseg(s[i]) == d_sel(x));
    n_leaf(x, e);
    assert(t =~= seq!['['] + b);
    assert(t.skip(1) =~= b); assert(t[0] == '['); assert(b[0] == d_sel(x)[0]);
    lem_ws_none(t); lem_ws_none(b); lem_ws_none(e);
    u_segment(t); u_desc(t); u_child(t); u_longhand(t); u_multi(b); u_sels(e, seq![x]);
    assert(e.skip(1) =~= tail);
    assert(g_segment(t) == PR::Ok(tail, sq_back(s[i])));
    assert(sq_backs(s).take(i).push(sq_back(s[i])) =~= sq_backs(s).take(i + 1));
    n_sqsegs(s, i + 1, rest);
  } else {
    assert(t =~= rest);
    n_fol(rest, 3);
    assert(sq_backs(s).take(i) =~= sq_backs(s));
  }
}
proof fn n_sing(s: Seq<SingularQuerySegment>)
  ensures sing_segs(sq_backs(s)) == Some(s)
  decreases s.len()
{
  if s.len() > 0 {
    n_sing(s.drop_last());
    assert(sq_backs(s).drop_last() =~= sq_backs(s.drop_last()));
    assert(in_memory(1));
    assert(s.drop_last().push(s.last()) =~= s);
    assert(sq_backs(s).last() == sq_back(s.last()));
  } else { assert(sq_backs(s) =~= seq![]); assert(s =~= seq![]); }
}
proof fn n_sq(q: SingularQuery, rest: Seq<char>)
  requires k_sq(q), t_sq(q), fol(rest, 3)
  ensures g_singular(d_sq(q) + rest) == PR::Ok(rest, q), d_sq(q).len() > 0, d_sq(q)[0] == '$' || d_sq(q)[0] == '@'
{
  lits();
  let t = d_sq(q) + rest;
  let s = q.segments@;
  u_singular(t); u_query(t); u_root(t); u_current(t);
  assert(t.skip(1) =~= d_sqsegs(s, 0) + rest);
  n_sqsegs(s, 0, rest);
  assert(sq_backs(s).take(0) =~= seq![]);
  n_sing(s);
}
// the first character of each text
proof fn s_call(f: FunctionExpr<Validated>)
  requires k_func(f)
  ensures d_call(f.name@, f.args).len() > 0, 'a' <= d_call(f.name@, f.args)[0] <= 'z'
{ lits(); u_d_call(f.name@, f.args); assert((f.name@ + "("@)[0] == f.name@[0]); }
proof fn s_comp(c: Comparable)
  requires k_comp(c), t_comp(c)
  ensures d_comp(c).len() > 0, stc(d_comp(c)[0]), d_comp(c)[0] != '(', d_comp(c)[0] != '!'
{
  u_d_comp(c);
  match c {
    Comparable::Literal(l) => { n_lit(l, seq![]); assert(d_lit(l) + seq![] =~= d_lit(l)); }
    Comparable::SingularQuery(q) => { n_sq(q, seq![]); }
    Comparable::FunctionExpr(f) => { s_call(f); }
  }
}
proof fn s_query(q: Query)
  ensures d_query(q).len() > 0, d_query(q)[0] == '$' || d_query(q)[0] == '@'
{ lits(); u_d_query(q); }
proof fn s_basic(b: BasicExpr)
  requires k_basic(b), t_basic(b)
  ensures d_basic(b).len() > 0, stc(d_basic(b)[0])
{
  lits();
  u_d_basic(b);
  match b {
    BasicExpr::Relation(c) => { s_comp(c.left); u_d_cmp(c); }
    BasicExpr::Exist(x) => { s_query(x.0); }
    BasicExpr::FuncExpr(f) => { s_call(f); }
    _ => {}
  }
}
proof fn s_and(x: LogicalAndExpr)
  requires k_and(x), t_and(x)
  ensures d_and(x).len() > 0, stc(d_and(x)[0])
{ u_d_and(x); u_d_ands(x.0, 0); s_basic(x.0@[0]); }
proof fn s_or(x: LogicalOrExpr)
  requires k_or(x), t_or(x)
  ensures d_or(x).len() > 0, stc(d_or(x)[0])
{ u_d_or(x); u_d_ors(x.0, 0); s_and(x.0@[0]); }
proof fn s_arg(a: FunctionExprArg)
  requires k_arg(a), t_arg(a)
  ensures d_arg(a).len() > 0, stc(d_arg(a)[0])
{
  u_d_arg(a);
  match a {
    FunctionExprArg::Literal(l) => { n_lit(l, seq![]); assert(d_lit(l) + seq![] =~= d_lit(l)); }
    FunctionExprArg::SingularQuery(q) => { n_sq(q, seq![]); }
    FunctionExprArg::FilterQuery(q) => { s_query(q); }
    FunctionExprArg::LogicalExpr(x) => { s_or(x); }
    FunctionExprArg::FunctionExpr(f) => { s_call(f); }
  }
}
proof fn s_sel(s: Selector)
  requires k_sel(s), t_sel(s)
  ensures d_sel(s).len() > 0, !inc(CC::Ws, d_sel(s)[0]), d_sel(s)[0] != ']', d_sel(s)[0] != ','
{
  lits(); u_d_sel(s);
  if !(s is Filter) { n_leaf(s, seq![']']); }
}
proof fn s_qseg(x: QuerySegment)
  ensures d_qseg(x).len() > 0, d_qseg(x)[0] == '.' || d_qseg(x)[0] == '['
{ lits(); u_d_qseg(x); u_d_seg(x.segment); }
proof fn s_segs(q: Query, i: int)
  requires 0 <= i <= q.segments@.len()
  ensures i < q.segments@.len() ==> d_segs(q, i).len() > 0 && (d_segs(q, i)[0] == '.' || d_segs(q, i)[0] == '['), i == q.segments@.len() ==> d_segs(q, i).len() == 0
{ u_d_segs(q, i); if i < q.segments@.len() { s_qseg(q.segments@[i]); } }
// each text reads back
proof fn n_query(q: Query, rest: Seq<char>)
  requires k_query(q), t_query(q), fol(rest, 3)
  ensures g_query(d_query(q) + rest) == PR::Ok(rest, q), q.kind is Root ==> g_root(d_query(q) + rest) == PR::Ok(rest, q), d_query(q).len() > 0
  decreases q, 1int, 0int
{
  lits();
  let t = d_query(q) + rest;
  u_d_query(q);
  u_query(t); u_root(t); u_current(t);
  assert(t.skip(1) =~= d_segs(q, 0) + rest);
  n_segs(q, 0, rest);
  assert(q.segments@.take(0) =~= seq![]);
}
proof fn n_segs(q: Query, i: int, rest: Seq<char>)
  requires k_query(q), t_query(q), fol(rest, 3), 0 <= i <= q.segments@.len()
  ensures g_segs(d_segs(q, i) + rest, q.segments@.take(i)) == PR::Ok(rest, q.segments)
  decreases q, 0int, q.segments@.len() - i
{
  let t = d_segs(q, i) + rest;
  u_d_segs(q, i);
  u_segs(t, q.segments@.take(i));
  if i < q.segments@.len() {
    let x = q.segments@[i];
    let tail = d_segs(q, i + 1) + rest;
    s_segs(q, i + 1);
    assert(tail.len() == 0 || !nm_char(tail[0])) by {
      if i + 1 < q.segments@.len() { assert(tail[0] == d_segs(q, i + 1)[0]); } else { assert(tail =~= rest); }
    }
    assert(t =~= d_qseg(x) + tail);
    assert(k_qseg(x)); assert(t_qseg(x));
    n_qseg(x, tail);
    assert(q.segments@.take(i).push(x) =~= q.segments@.take(i + 1));
    n_segs(q, i + 1, rest);
  } else {
    assert(t =~= rest);
    n_fol(rest, 3);
    assert(q.segments@.take(i) =~= q.segments@);
  }
}
proof fn n_qseg(x: QuerySegment, tail: Seq<char>)
  requires k_qseg(x), t_qseg(x), tail.len() == 0 || !nm_char(tail[0])
  ensures g_segment(d_qseg(x) + tail) == PR::Ok(tail, x), d_qseg(x).len() > 0
  decreases x, 0int, 0int
{
  lits();
  let t = d_qseg(x) + tail;
  let g = d_seg(x.segment);
  u_d_qseg(x); u_d_seg(x.segment);
  s_qseg(x);
  assert(t[0] == d_qseg(x)[0]);
  lem_ws_none(t);
  u_segment(t); u_desc(t); u_child(t); u_longhand(t);
  match x.segment {
    Segment::LongHand(v) => {
      n_longhand(v, tail);
      if x.kind is Descendant {
        assert(t.skip(2) =~= g + tail);
        assert((g + tail)[0] == '[');
      } else { assert(t =~= g + tail); assert(t[0] == '['); }
    }
    Segment::DotName(n) => {
      assert(t.skip(1) =~= n@ + tail);
      assert(t[1] == n@[0]);
      n_dot(n@, tail);
    }
    Segment::Wildcard => { assert(t[1] == '*'); assert(t.skip(2) =~= tail); }
  }
}
proof fn n_longhand(v: Vec<Selector>, tail: Seq<char>)
  requires v@.len() > 0, forall|i: int| 0 <= i < v@.len() ==> k_sel(#[trigger] v@[i]), forall|i: int| 0 <= i < v@.len() ==> t_sel(#[trigger] v@[i])
  ensures g_longhand("["@ + d_sels(v, 0) + "]"@ + tail) == PR::Ok(tail, Segment::LongHand(v))
  decreases v, 1int, 0int
{
  lits();
  let t = "["@ + d_sels(v, 0) + "]"@ + tail;
  let e = seq![']'] + tail;
  let x = v@[0];
  let r = w_sels(v, 1) + e;
  let b = d_sel(x) + r;
  u_d_sels(v, 0);
  assert(t =~= seq!['['] + b) by { if v@.len() > 1 { } else { u_d_sels(v, 1); } }
  assert(t.skip(1) =~= b); assert(t[0] == '[');
  s_sel(x);
  assert(b[0] == d_sel(x)[0]);
  lem_ws_none(b); lem_ws_none(e);
  u_longhand(t); u_multi(b);
  assert(r.len() > 0 && endc(r[0], 0)) by { if v@.len() > 1 { assert(r[0] == ','); } else { assert(r =~= e); } }
  n_sel(x, r);
  assert(seq![x] =~= v@.take(1));
  n_sels(v, 1, e);
  assert(e.skip(1) =~= tail);
}
/// the text after the selector before the i-th
pub open spec fn w_sels(v: Vec<Selector>, i: int) -> Seq<char> { if i < v@.len() { seq![','] + d_sels(v, i) } else { seq![] } }
proof fn n_sels(v: Vec<Selector>, i: int, e: Seq<char>)
  requires 1 <= i <= v@.len(), e.len() > 0, e[0] == ']', forall|i: int| 0 <= i < v@.len() ==> k_sel(#[trigger] v@[i]), forall|i: int| 0 <= i < v@.len() ==> t_sel(#[trigger] v@[i])
  ensures g_sels(w_sels(v, i) + e, v@.take(i)) == PR::Ok(e, v)
  decreases v, 0int, v@.len() - i
{
  lits();
  let t = w_sels(v, i) + e;
  u_sels(t, v@.take(i));
  lem_ws_none(e);
  if i < v@.len() {
    let x = v@[i];
    let r = w_sels(v, i + 1) + e;
    let b = d_sel(x) + r;
    u_d_sels(v, i);
    assert(t =~= seq![','] + b) by { if i + 1 < v@.len() { } else { u_d_sels(v, i + 1); } }
    assert(t.skip(1) =~= b); assert(t[0] == ',');
    lem_ws_none(t);
    s_sel(x);
    assert(b[0] == d_sel(x)[0]);
    lem_ws_none(b);
    assert(r.len() > 0 && endc(r[0], 0)) by { if i + 1 < v@.len() { assert(r[0] == ','); } else { assert(r =~= e); } }
    n_sel(x, r);
    assert(v@.take(i).push(x) =~= v@.take(i + 1));
    n_sels(v, i + 1, e);
  } else {
    assert(t =~= e);
    assert(v@.take(i) =~= v@);
  }
}
proof fn n_sel(s: Selector, rest: Seq<char>)
  requires k_sel(s), t_sel(s), fol(rest, 0), rest.len() > 0
  ensures g_selector(d_sel(s) + rest) == PR::Ok(rest, s)
  decreases s, 0int, 0int
{
  match s {
    Selector::Filter(f) => {
      lits();
      let t = d_sel(s) + rest;
      u_d_sel(s); u_selector(t); u_filter(t);
      let b = d_or(f.0) + rest;
      s_or(f.0);
      assert(t.skip(1) =~= b); assert(t[0] == '?');
      assert(b[0] == d_or(f.0)[0]);
      lem_ws_none(b);
      n_or(f.0, rest);
      n_noint(t);
    }
    _ => { n_leaf(s, rest); }
  }
}
proof fn n_or(x: LogicalOrExpr, rest: Seq<char>)
  requires k_or(x), t_or(x), fol(rest, 0)
  ensures g_or(d_or(x) + rest) == PR::Ok(rest, x)
  decreases x, 1int, 0int
{
  let v = x.0;
  let a = v@[0];
  let r = w_ors(v, 1) + rest;
  let t = d_or(x) + rest;
  lits();
  u_d_or(x); u_d_ors(v, 0);
  assert(t =~= d_and(a) + r) by { if v@.len() > 1 { } else { u_d_ors(v, 1); } }
  u_or(t);
  n_wors(v, 1, rest);
  assert(k_and(a)); assert(t_and(a));
  n_and(a, r);
  assert(seq![a] =~= v@.take(1));
  n_ors(v, 1, rest);
}
pub open spec fn w_ors(v: Vec<LogicalAndExpr>, i: int) -> Seq<char> { if i < v@.len() { seq![' ', '|', '|', ' '] + d_ors(v, i) } else { seq![] } }
proof fn n_wors(v: Vec<LogicalAndExpr>, i: int, rest: Seq<char>)
  requires fol(rest, 0)
  ensures fol(w_ors(v, i) + rest, 1)
{ let r = w_ors(v, i) + rest; if i < v@.len() { assert(r[0] == ' ' && r[1] == '|'); } else { assert(r =~= rest); } }
proof fn n_ors(v: Vec<LogicalAndExpr>, i: int, rest: Seq<char>)
  requires 1 <= i <= v@.len(), fol(rest, 0), forall|i: int| 0 <= i < v@.len() ==> k_and(#[trigger] v@[i]), forall|i: int| 0 <= i < v@.len() ==> t_and(#[trigger] v@[i])
  ensures g_ors(w_ors(v, i) + rest, v@.take(i)) == PR::Ok(rest, v)
  decreases v, 0int, v@.len() - i
{
  lits();
  let t = w_ors(v, i) + rest;
  u_ors(t, v@.take(i));
  if i < v@.len() {
    let x = v@[i];
    let r = w_ors(v, i + 1) + rest;
    let b = d_and(x) + r;
    u_d_ors(v, i);
    assert(t =~= seq![' ', '|', '|', ' '] + b) by { if i + 1 < v@.len() { } else { u_d_ors(v, i + 1); } }
    assert(t[0] == ' ' && t[1] == '|' && t[2] == '|' && t[3] == ' ');
    n_blank(t);
    assert(starts(t.skip(1), seq!['|', '|']));
    let c = seq![' '] + b;
    assert(t.skip(1).skip(2) =~= c);
    s_and(x);
    assert(c[1] == d_and(x)[0]);
    n_blank(c);
    assert(c.skip(1) =~= b);
    n_wors(v, i + 1, rest);
    n_and(x, r);
    assert(v@.take(i).push(x) =~= v@.take(i + 1));
    n_ors(v, i + 1, rest);
  } else {
    assert(t =~= rest);
    n_fol(rest, 0);
    assert(!starts(ws(rest), seq!['|', '|'])) by { assert(seq!['|', '|'][0] == '|'); }
    assert(v@.take(i) =~= v@);
  }
}
proof fn n_and(x: LogicalAndExpr, rest: Seq<char>)
  requires k_and(x), t_and(x), fol(rest, 1)
  ensures g_and(d_and(x) + rest) == PR::Ok(rest, x)
  decreases x, 1int, 0int
{
  let v = x.0;
  let a = v@[0];
  let r = w_ands(v, 1) + rest;
  let t = d_and(x) + rest;
  lits();
  u_d_and(x); u_d_ands(v, 0);
  assert(t =~= d_basic(a) + r) by { if v@.len() > 1 { } else { u_d_ands(v, 1); } }
  u_and(t);
  n_wands(v, 1, rest);
  assert(k_basic(a)); assert(t_basic(a));
  n_basic(a, r);
  assert(seq![a] =~= v@.take(1));
  n_ands(v, 1, rest);
}
pub open spec fn w_ands(v: Vec<BasicExpr>, i: int) -> Seq<char> { if i < v@.len() { seq![' ', '&', '&', ' '] + d_ands(v, i) } else { seq![] } }
proof fn n_wands(v: Vec<BasicExpr>, i: int, rest: Seq<char>)
  requires fol(rest, 1)
  ensures fol(w_ands(v, i) + rest, 2)
{ let r = w_ands(v, i) + rest; if i < v@.len() { assert(r[0] == ' ' && r[1] == '&'); } else { assert(r =~= rest); } }
proof fn n_ands(v: Vec<BasicExpr>, i: int, rest: Seq<char>)
  requires 1 <= i <= v@.len(), fol(rest, 1), forall|i: int| 0 <= i < v@.len() ==> k_basic(#[trigger] v@[i]), forall|i: int| 0 <= i < v@.len() ==> t_basic(#[trigger] v@[i])
  ensures g_ands(w_ands(v, i) + rest, v@.take(i)) == PR::Ok(rest, v)
  decreases v, 0int, v@.len() - i
{
  lits();
  let t = w_ands(v, i) + rest;
  u_ands(t, v@.take(i));
  if i < v@.len() {
    let x = v@[i];
    let r = w_ands(v, i + 1) + rest;
    let b = d_basic(x) + r;
    u_d_ands(v, i);
    assert(t =~= seq![' ', '&', '&', ' '] + b) by { if i + 1 < v@.len() { } else { u_d_ands(v, i + 1); } }
    assert(t[0] == ' ' && t[1] == '&' && t[2] == '&' && t[3] == ' ');
    n_blank(t);
    assert(starts(t.skip(1), seq!['&', '&']));
    let c = seq![' '] + b;
    assert(t.skip(1).skip(2) =~= c);
    s_basic(x);
    assert(c[1] == d_basic(x)[0]);
    n_blank(c);
    assert(c.skip(1) =~= b);
    n_wands(v, i + 1, rest);
    n_basic(x, r);
    assert(v@.take(i).push(x) =~= v@.take(i + 1));
    n_ands(v, i + 1, rest);
  } else {
    assert(t =~= rest);
    n_fol(rest, 1);
    assert(!starts(ws(rest), seq!['&', '&'])) by { assert(seq!['&', '&'][0] == '&'); }
    assert(v@.take(i) =~= v@);
  }
}
/// an expression in parentheses
proof fn n_paren(x: LogicalOrExpr, rest: Seq<char>)
  requires k_or(x), t_or(x)
  ensures g_paren("("@ + d_or(x) + ")"@ + rest) == PR::Ok(rest, x)
  decreases x, 2int, 0int
{
  lits();
  let t = "("@ + d_or(x) + ")"@ + rest;
  let e = seq![')'] + rest;
  let b = d_or(x) + e;
  u_paren(t);
  assert(t[0] == '('); assert(t.skip(1) =~= b);
  s_or(x);
  assert(b[0] == d_or(x)[0]);
  lem_ws_none(b); lem_ws_none(e);
  n_or(x, e);
  assert(e.skip(1) =~= rest);
}
/// no comparison starts with this query or call
proof fn n_nocmp(s: Seq<char>, rest: Seq<char>)
  requires match g_comparable(s) { PR::Ok(r, _) => g_op(ws(r)) is Err, PR::Err => true, PR::Fail => false }, bnd(s, g_comparable(s)) == g_comparable(s)
  ensures g_cmp(s) is Err
{ u_cmp(s); }
proof fn n_noop(rest: Seq<char>)
  requires fol(rest, 2)
  ensures g_op(ws(rest)) is Err
{ n_fol(rest, 2); lits2(); assert("=="@[0] == '='); assert("!="@[0] == '!'); assert("<="@[0] == '<'); assert(">="@[0] == '>'); }
proof fn n_basic(b: BasicExpr, rest: Seq<char>)
  requires k_basic(b), t_basic(b), fol(rest, 2)
  ensures g_basic(d_basic(b) + rest) == PR::Ok(rest, b)
  decreases b, 1int, 0int
{
  lits();
  let t = d_basic(b) + rest;
  u_d_basic(b);
  u_basic(t);
  match b {
    BasicExpr::Paren(x) => { n_paren(x, rest); }
    BasicExpr::NotParen(x) => {
      let p = "("@ + d_or(x) + ")"@ + rest;
      n_paren(x, rest);
      assert(t[0] == '!'); assert(t.skip(1) =~= p); assert(p[0] == '(');
      lem_ws_none(p);
    }
    BasicExpr::Relation(c) => { s_comp(c.left); u_d_cmp(c); assert(t[0] == d_comp(c.left)[0]); u_paren(t); n_cmp(c, rest); }
    BasicExpr::Exist(x) => {
      n_query(x.0, rest); s_query(x.0);
      assert(t[0] == d_query(x.0)[0]);
      u_paren(t);
      n_nolit(t); n_noop(rest);
      u_singular(t); u_comparable(t); u_comp_rest(t); u_cmp(t);
    }
    BasicExpr::NotExist(x) => {
      let p = d_query(x.0) + rest;
      n_query(x.0, rest); s_query(x.0);
      assert(t[0] == '!'); assert(t.skip(1) =~= p); assert(p[0] == d_query(x.0)[0]);
      lem_ws_none(p);
      u_paren(p); u_paren(t);
      n_nolit(t);
    }
    BasicExpr::FuncExpr(f) => {
      n_func(f, rest); s_call(f);
      assert(t[0] == d_call(f.name@, f.args)[0]);
      u_paren(t); u_query(t); u_root(t); u_current(t); u_test_call(t);
      n_call_cmp(f, rest);
    }
    BasicExpr::NotFuncExpr(f) => {}
  }
}
/// a call with a logical result or a nodelist is not compared, even when its name begins like a literal
proof fn n_call_cmp(f: FunctionExpr<Validated>, rest: Seq<char>)
  requires k_func(f), k_test(f), g_func(d_call(f.name@, f.args) + rest) == PR::Ok(rest, f)
  ensures g_cmp(d_call(f.name@, f.args) + rest) is Err
{
  lits(); lits2();
  let t = d_call(f.name@, f.args) + rest;
  let n = f.name@;
  s_call(f);
  u_d_call(n, f.args);
  assert(t[0] == d_call(n, f.args)[0]);
  assert(t =~= n + (seq!['('] + d_args(f.args, 0) + seq![')'] + rest));
  assert(forall|i: int| 0 <= i <= n.len() ==> #[trigger] t[i] == if i < n.len() { n[i] } else { '(' });
  u_query(t); u_root(t); u_current(t); u_singular(t); u_comparable(t); u_comp_rest(t); u_cmp(t);
  assert(g_string(t) is Err); assert(g_number(t) is Err);
  assert("=="@[0] == '='); assert("!="@[0] == '!'); assert("<="@[0] == '<'); assert(">="@[0] == '>');
  match g_literal(t) {
    PR::Ok(r, l) => {
      let k: int = if starts(t, "false"@) && !starts(t, "true"@) { 5 } else { 4 };
      assert(r == t.skip(k));
      if starts(t, "true"@) { assert("true"@[0] == 't' && "true"@[1] == 'r' && "true"@[2] == 'u' && "true"@[3] == 'e'); }
      else if starts(t, "false"@) { assert("false"@[0] == 'f' && "false"@[1] == 'a' && "false"@[2] == 'l' && "false"@[3] == 's' && "false"@[4] == 'e'); }
      else { assert("null"@[0] == 'n' && "null"@[1] == 'u' && "null"@[2] == 'l' && "null"@[3] == 'l'); }
      assert(n.len() >= k) by { if n.len() < k { assert(t[n.len() as int] == '('); } }
      assert(r[0] == t[k]);
      assert(fc_char(r[0]) || r[0] == '(') by { if k < n.len() { assert(fc_char(n[k])); } }
      lem_ws_none(r);
      assert(g_op(r) is Err);
    }
    _ => {}
  }
}
proof fn n_cmp(c: ComparisonExpr, rest: Seq<char>)
  requires k_comp(c.left), k_comp(c.right), t_comp(c.left), t_comp(c.right), fol(rest, 2)
  ensures g_cmp(d_cmp(c) + rest) == PR::Ok(rest, c)
  decreases c, 1int, 0int
{
  let t = d_cmp(c) + rest;
  let b = d_comp(c.right) + rest;
  let a = d_op(c.op) + b;
  u_d_cmp(c);
  assert(t =~= d_comp(c.left) + a);
  s_comp(c.right);
  assert(b[0] == d_comp(c.right)[0]);
  n_op(c.op, b);
  assert(a[0] == d_op(c.op)[0]);
  lem_ws_none(a); lem_ws_none(b);
  n_comp(c.left, a);
  n_comp(c.right, rest);
  u_cmp(t);
}
proof fn n_comp(c: Comparable, rest: Seq<char>)
  requires k_comp(c), t_comp(c), fol(rest, 3)
  ensures g_comparable(d_comp(c) + rest) == PR::Ok(rest, c),
    match g_plain_arg(d_comp(c) + rest) { PR::Ok(r, _) => r == rest, PR::Err => true, PR::Fail => false },
  decreases c, 1int, 0int
{
  let t = d_comp(c) + rest;
  u_d_comp(c); u_comparable(t); u_comp_rest(t); u_plain_arg(t);
  match c {
    Comparable::Literal(l) => { n_lit(l, rest); }
    Comparable::SingularQuery(q) => { n_sq(q, rest); assert(t[0] == d_sq(q)[0]); n_nolit(t); }
    Comparable::FunctionExpr(f) => { n_func(f, rest); }
  }
}
proof fn n_func(f: FunctionExpr<Validated>, rest: Seq<char>)
  requires k_func(f), t_func(f)
  ensures g_func(d_call(f.name@, f.args) + rest) == PR::Ok(rest, f)
  decreases f, 1int, 0int
{
  lits();
  let n = f.name@;
  let v = f.args;
  let t = d_call(n, v) + rest;
  let e = seq![')'] + rest;
  let b = d_args(v, 0) + e;
  let p = seq!['('] + b;
  u_d_call(n, v);
  assert(t =~= n + p);
  n_fname(n, p);
  u_func(t);
  assert(p[0] == '('); assert(p.skip(1) =~= b);
  n_args0(v, e);
  lem_ws_none(b); lem_ws_none(e);
  assert(e.skip(1) =~= rest);
}
proof fn n_args0(v: Vec<FunctionExprArg>, e: Seq<char>)
  requires e.len() > 0, e[0] == ')', forall|i: int| 0 <= i < v@.len() ==> k_arg(#[trigger] v@[i]), forall|i: int| 0 <= i < v@.len() ==> t_arg(#[trigger] v@[i])
  ensures g_args(d_args(v, 0) + e) == PR::Ok(e, v), !inc(CC::Ws, (d_args(v, 0) + e)[0])
  decreases v, 1int, 0int
{
  lits();
  let t = d_args(v, 0) + e;
  u_d_args(v, 0); u_args(t);
  if v@.len() > 0 {
    let x = v@[0];
    let r = w_args(v, 1) + e;
    assert(t =~= d_arg(x) + r) by { if v@.len() > 1 { } else { u_d_args(v, 1); } }
    s_arg(x);
    assert(t[0] == d_arg(x)[0]);
    assert(r.len() > 0 && (r[0] == ',' || r[0] == ')')) by { if v@.len() > 1 { assert(r[0] == ','); } else { assert(r =~= e); } }
    n_arg(x, r);
    assert(seq![x] =~= v@.take(1));
    n_args(v, 1, e);
  } else { assert(t =~= e); assert(v@ =~= seq![]); }
}
pub open spec fn w_args(v: Vec<FunctionExprArg>, i: int) -> Seq<char> { if i < v@.len() { seq![','] + d_args(v, i) } else { seq![] } }
proof fn n_args(v: Vec<FunctionExprArg>, i: int, e: Seq<char>)
  requires 1 <= i <= v@.len(), e.len() > 0, e[0] == ')', forall|i: int| 0 <= i < v@.len() ==> k_arg(#[trigger] v@[i]), forall|i: int| 0 <= i < v@.len() ==> t_arg(#[trigger] v@[i])
  ensures g_args_rest(w_args(v, i) + e, v@.take(i)) == PR::Ok(e, v)
  decreases v, 0int, v@.len() - i
{
  lits();
  let t = w_args(v, i) + e;
  u_args_rest(t, v@.take(i));
  lem_ws_none(e);
  if i < v@.len() {
    let x = v@[i];
    let r = w_args(v, i + 1) + e;
    let b = d_arg(x) + r;
    u_d_args(v, i);
    assert(t =~= seq![','] + b) by { if i + 1 < v@.len() { } else { u_d_args(v, i + 1); } }
    assert(t.skip(1) =~= b); assert(t[0] == ',');
    lem_ws_none(t);
    s_arg(x);
    assert(b[0] == d_arg(x)[0]);
    lem_ws_none(b);
    assert(r.len() > 0 && (r[0] == ',' || r[0] == ')')) by { if i + 1 < v@.len() { assert(r[0] == ','); } else { assert(r =~= e); } }
    n_arg(x, r);
    assert(v@.take(i).push(x) =~= v@.take(i + 1));
    n_args(v, i + 1, e);
  } else {
    assert(t =~= e);
    assert(v@.take(i) =~= v@);
  }
}
proof fn n_arg(a: FunctionExprArg, rest: Seq<char>)
  requires k_arg(a), t_arg(a), rest.len() > 0, rest[0] == ',' || rest[0] == ')'
  ensures g_arg(d_arg(a) + rest) == PR::Ok(rest, a)
  decreases a, 0int, 0int
{
  let t = d_arg(a) + rest;
  u_d_arg(a); u_arg(t); u_plain_arg(t);
  lem_ws_none(rest);
  match a {
    FunctionExprArg::Literal(l) => { n_lit(l, rest); }
    FunctionExprArg::SingularQuery(q) => { n_sq(q, rest); assert(t[0] == d_sq(q)[0]); n_nolit(t); }
    FunctionExprArg::FilterQuery(q) => { n_query(q, rest); s_query(q); assert(t[0] == d_query(q)[0]); n_nolit(t); u_singular(t); }
    FunctionExprArg::LogicalExpr(x) => { n_or(x, rest); n_plain_or(x, rest); }
    FunctionExprArg::FunctionExpr(f) => { n_func(f, rest); }
  }
}
/// a logical expression that is neither one query nor one call is not read as a plain argument
proof fn n_plain_or(x: LogicalOrExpr, rest: Seq<char>)
  requires k_or(x), t_or(x), !lone(x), rest.len() > 0, rest[0] == ',' || rest[0] == ')'
  ensures match g_plain_arg(d_or(x) + rest) { PR::Ok(r, _) => !arg_end(r), PR::Err => true, PR::Fail => false }
  decreases x, 2int, 0int
{
  lits();
  let v = x.0;
  let w = v@[0].0;
  let b = w@[0];
  let r1 = w_ors(v, 1) + rest;
  let r2 = w_ands(w, 1) + r1;
  let t = d_or(x) + rest;
  u_d_or(x); u_d_ors(v, 0); u_d_and(v@[0]); u_d_ands(w, 0);
  assert(k_and(v@[0])); assert(t_and(v@[0]));
  assert(k_basic(b)); assert(t_basic(b));
  assert(t =~= d_and(v@[0]) + r1) by { if v@.len() > 1 { } else { u_d_ors(v, 1); } }
  assert(t =~= d_basic(b) + r2) by { if w@.len() > 1 { } else { u_d_ands(w, 1); } }
  n_wors(v, 1, rest); n_wands(w, 1, r1);
  n_plain(b, r2);
  if b is Exist || b is FuncExpr {
    assert(!arg_end(r2)) by {
      assert(r2.len() > 1 && r2[0] == ' ' && (r2[1] == '&' || r2[1] == '|'));
      n_blank(r2);
    }
  }
}
proof fn n_plain(b: BasicExpr, rest: Seq<char>)
  requires k_basic(b), t_basic(b), fol(rest, 2)
  ensures match g_plain_arg(d_basic(b) + rest) { PR::Ok(r, _) => !arg_end(r) || ((b is Exist || b is FuncExpr) && r == rest), PR::Err => true, PR::Fail => false }
  decreases b, 1int, 0int
{
  lits();
  let t = d_basic(b) + rest;
  u_d_basic(b);
  match b {
    BasicExpr::Paren(x) => { assert(t[0] == '('); n_nolit(t); }
    BasicExpr::NotParen(x) => { assert(t[0] == '!'); n_nolit(t); }
    BasicExpr::NotExist(x) => { assert(t[0] == '!'); n_nolit(t); }
    BasicExpr::Relation(c) => {
      let p = d_comp(c.right) + rest;
      let a = d_op(c.op) + p;
      u_d_cmp(c);
      assert(t =~= d_comp(c.left) + a);
      s_comp(c.right);
      assert(p[0] == d_comp(c.right)[0]);
      n_op(c.op, p);
      assert(a[0] == d_op(c.op)[0]);
      lem_ws_none(a);
      n_comp(c.left, a);
    }
    BasicExpr::Exist(x) => {
      n_query(x.0, rest); s_query(x.0);
      assert(t[0] == d_query(x.0)[0]);
      n_nolit(t); u_singular(t); u_plain_arg(t);
    }
    BasicExpr::FuncExpr(f) => { n_func(f, rest); u_plain_arg(t); }
    BasicExpr::NotFuncExpr(f) => {}
  }
}
/// C19: a parsed query without the constructs of the known findings, written as text, parses to the same query
//@lemma lem_C19_round_trip props=C19
pub proof fn lem_C19_round_trip(s: Seq<char>)
  requires in_memory(s.len())
  ensures g_main(s) matches PR::Ok(_, q) ==> t_query(q) ==> g_main(d_query(q)) == PR::Ok(Seq::<char>::empty(), q)
{
  m_root(s);
  u_root(s);
  match g_main(s) {
    PR::Ok(_, q) => if t_query(q) {
      let e = Seq::<char>::empty();
      n_query(q, e);
      assert(d_query(q) + e =~= d_query(q));
    }
    _ => {}
  }
}
//@endlemma
} // mod vxrt2
