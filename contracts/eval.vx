// ------------------------------------------------------------- evaluation

impl Evaluator {
  /// calls the registered function
  #[verifier::external_body]
  pub fn vx_call<'a>(&self, args: VecDeque<JsonPathValue<'a>>) -> (r: JsonPathValue<'a>)
    ensures jv(r) == eval_ev(*self, jvs(args@))
  { unimplemented!() }
}

pub mod vxeval {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_path_lemmas};
pub broadcast proof fn lem_jvs_push(s: Seq<JsonPathValue>, x: JsonPathValue)
  ensures #[trigger] jvs(s.push(x)) == jvs(s).push(jv(x))
{ assert(jvs(s.push(x)) =~= jvs(s).push(jv(x))); }
pub broadcast proof fn lem_jvs_empty()
  ensures #[trigger] jvs(Seq::<JsonPathValue>::empty()) == Seq::<JV>::empty()
{ assert(jvs(Seq::<JsonPathValue>::empty()) =~= Seq::<JV>::empty()); }
/// once lost, lost
pub broadcast proof fn lem_sq_none(s: Seq<SingularQuerySegment>, from: Value, k: int, n: int)
  requires k <= n, #[trigger] sq_go(s, from, k) is None
  ensures #[trigger] sq_go(s, from, n) is None
  decreases n - k
{ if k < n { lem_sq_none(s, from, k, n - 1); } }
pub broadcast proof fn lem_nodes_take(s: RS, n: int)
  requires 0 <= n <= s.len()
  ensures #[trigger] nodes(s).take(n) == nodes(s.take(n))
{ reveal(nodes); assert(nodes(s).take(n) =~= nodes(s.take(n))); }
/// the first and the second half of a disjunction and a conjunction
pub broadcast proof fn lem_or_up(e: LogicalOrExpr, cur: Value, root: Value, k: int, n: int)
  requires k <= n <= e.0@.len(), #[trigger] test_or(e, cur, root, k)
  ensures #[trigger] test_or(e, cur, root, n)
  decreases n - k
{ reveal(test_or); if k < n { lem_or_up(e, cur, root, k, n - 1); } }
pub broadcast proof fn lem_and_up(e: LogicalAndExpr, cur: Value, root: Value, k: int, n: int)
  requires k <= n <= e.0@.len(), #[trigger] test_and(e, cur, root, n)
  ensures #[trigger] test_and(e, cur, root, k)
  decreases n - k
{ reveal(test_and); if 0 < n && k < n { lem_and_up(e, cur, root, k, n - 1); } }
pub broadcast proof fn lem_up_done(a: Seq<Value>, i: int, upper: int, step: int)
  requires upper <= i
  ensures #[trigger] sl_up(a, i, upper, step) == Seq::<(Seq<PE>, Value)>::empty()
{ }
pub broadcast proof fn lem_down_done(a: Seq<Value>, i: int, lower: int, step: int)
  requires i <= lower
  ensures #[trigger] sl_down(a, i, lower, step) == Seq::<(Seq<PE>, Value)>::empty()
{ }
} // mod vxeval
pub broadcast group vx_eval_lemmas {
  vxeval::lem_jvs_push, vxeval::lem_jvs_empty, vxeval::lem_sq_none, vxeval::lem_nodes_take, vxeval::lem_or_up, vxeval::lem_and_up, vxeval::lem_up_done, vxeval::lem_down_done,
}

pub mod f_slice {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_int_axioms, vx_path_lemmas, vxeval::lem_up_done, vxeval::lem_down_done, ax_array_len};

//@fn <Slice as Queryable>::query props=C02,C05
@attr
#[verifier::spinoff_prover]
#[verifier::allow_complex_invariants]
@ensures
vals($r@) == nodes(rs_slice(*$self, *$1)),
@loop while
@inv
sl_step(*$self) != 0, $1 is Array,
nodes(rs_slice(*$self, *$1)) == vals($ACC@) + nodes(if sl_step(*$self) > 0 { sl_up($1->Array_0@, $VAR.v(), $LIM.v(), sl_step(*$self)) } else { sl_down($1->Array_0@, $VAR.v(), $LIM.v(), sl_step(*$self)) }),
sl_step(*$self) > 0 ==> 0 <= $VAR.v() && $LIM.v() <= $1->Array_0@.len(),
sl_step(*$self) < 0 ==> $VAR.v() < $1->Array_0@.len() && $LIM.v() >= -1,
@ens
vals($ACC@) == nodes(rs_slice(*$self, *$1)),
@dec
if sl_step(*$self) > 0 { imax($LIM.v() - $VAR.v(), 0) } else { imax($VAR.v() - $LIM.v(), 0) },
@body
proof {
let vx_a = $1->Array_0@;
let vx_w = sl_step(*$self);
assert(vx_a.len() < 9007199254740991);
if vx_w > 0 {
  assert(sl_up(vx_a, $VAR.v(), $LIM.v(), vx_w) == seq![el(vx_a, $VAR.v())] + sl_up(vx_a, $VAR.v() + vx_w, $LIM.v(), vx_w));
  assert($VAR.v() + vx_w >= $LIM.v() ==> sl_up(vx_a, $VAR.v(), $LIM.v(), vx_w) == seq![el(vx_a, $VAR.v())]);
} else {
  assert(sl_down(vx_a, $VAR.v(), $LIM.v(), vx_w) == seq![el(vx_a, $VAR.v())] + sl_down(vx_a, $VAR.v() + vx_w, $LIM.v(), vx_w));
  assert($VAR.v() + vx_w <= $LIM.v() ==> sl_down(vx_a, $VAR.v(), $LIM.v(), vx_w) == seq![el(vx_a, $VAR.v())]);
}
}
//@end
//@fn <Slice as Queryable>::query_located props=C02,C05,C06
@attr
#[verifier::spinoff_prover]
#[verifier::allow_complex_invariants]
@ensures
lvals($r@) == prefix(rs_slice(*$self, *$1), pview($3)),
@loop while
@inv
sl_step(*$self) != 0, $1 is Array,
prefix(rs_slice(*$self, *$1), pview($3)) == lvals($ACC@) + prefix(if sl_step(*$self) > 0 { sl_up($1->Array_0@, $VAR.v(), $LIM.v(), sl_step(*$self)) } else { sl_down($1->Array_0@, $VAR.v(), $LIM.v(), sl_step(*$self)) }, pview($3)),
sl_step(*$self) > 0 ==> 0 <= $VAR.v() && $LIM.v() <= $1->Array_0@.len(),
sl_step(*$self) < 0 ==> $VAR.v() < $1->Array_0@.len() && $LIM.v() >= -1,
@ens
lvals($ACC@) == prefix(rs_slice(*$self, *$1), pview($3)),
@dec
if sl_step(*$self) > 0 { imax($LIM.v() - $VAR.v(), 0) } else { imax($VAR.v() - $LIM.v(), 0) },
@body
proof {
let vx_a = $1->Array_0@;
let vx_w = sl_step(*$self);
assert(vx_a.len() < 9007199254740991);
if vx_w > 0 {
  assert(sl_up(vx_a, $VAR.v(), $LIM.v(), vx_w) == seq![el(vx_a, $VAR.v())] + sl_up(vx_a, $VAR.v() + vx_w, $LIM.v(), vx_w));
  assert($VAR.v() + vx_w >= $LIM.v() ==> sl_up(vx_a, $VAR.v(), $LIM.v(), vx_w) == seq![el(vx_a, $VAR.v())]);
} else {
  assert(sl_down(vx_a, $VAR.v(), $LIM.v(), vx_w) == seq![el(vx_a, $VAR.v())] + sl_down(vx_a, $VAR.v() + vx_w, $LIM.v(), vx_w));
  assert($VAR.v() + vx_w <= $LIM.v() ==> sl_down(vx_a, $VAR.v(), $LIM.v(), vx_w) == seq![el(vx_a, $VAR.v())]);
}
}
//@end
} // mod f_slice
pub use f_slice::*;

pub mod f_eval {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_int_axioms, vx_path_lemmas, vx_eval_lemmas, vx_unfold, ax_array_len};

//@fn Name::as_str props=C01,C09
@ensures
$r@ == $self.0@,
//@end
//@fn <Name as Queryable>::query props=C01,C05
@ensures
vals($r@) == nodes(rs_name($self.0@, *$1)),
//@end
//@fn <Name as Queryable>::query_located props=C01,C05,C06
@ensures
lvals($r@) == prefix(rs_name($self.0@, *$1), pview($3)),
//@end
//@fn <Index as Queryable>::query props=C01,C05
@ensures
vals($r@) == nodes(rs_index($self.0.v(), *$1)),
//@end
//@fn <Index as Queryable>::query_located props=C01,C05,C06
@ensures
lvals($r@) == prefix(rs_index($self.0.v(), *$1), pview($3)),
//@end
//@fn normalize_slice_index props=C02
@requires
$2.v() >= 0,
@ensures
$r is Some && $r->Some_0.v() == norm_ix($1.v(), $2.v()),
//@end
//@fn Slice::bounds_on_forward_slice props=C02
@requires
$1.v() >= 0,
@ensures
$r.0.v() == sl_lower(*$self, 1, $1.v()),
$r.1.v() == sl_upper(*$self, 1, $1.v()),
//@end
//@fn Slice::bounds_on_reverse_slice props=C02
@requires
0 <= $1.v() < 9007199254740991,
@ensures
$r is Some,
$r->Some_0.0.v() == sl_lower(*$self, -1, $1.v()),
$r->Some_0.1.v() == sl_upper(*$self, -1, $1.v()),
//@end
//@fn <Selector as Queryable>::query props=C01,C04,C05
@ensures
vals($r@) == nodes(rs_sel(*$self, *$1, *$2)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop Value
@inv
vals($ACC@) == vals($ACC0) + nodes(children(*$1)).take($I as int),
@loop Member
@inv
vals($ACC@) == vals($ACC0) + nodes(children(*$1)).take($I as int),
//@end
//@fn <Selector as Queryable>::query_located props=C01,C04,C05,C06
@ensures
lvals($r@) == prefix(rs_sel(*$self, *$1, *$2), pview($3)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop Value
@inv
lvals($ACC@) == lvals($ACC0) + prefix(children(*$1).take($I as int), pview($3)),
@loop Member
@inv
lvals($ACC@) == lvals($ACC0) + prefix(children(*$1).take($I as int), pview($3)),
//@end
//@fn <Filter as Queryable>::query props=C05,C07
@ensures
vals($r@) == nodes(rs_filter(*$self, *$1, *$2, children(*$1).len() as int)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop Value
@inv
vals($ACC@) == vals($ACC0) + nodes(rs_filter(*$self, *$1, *$2, $I as int)),
@loop Member
@inv
vals($ACC@) == vals($ACC0) + nodes(rs_filter(*$self, *$1, *$2, $I as int)),
//@end
//@fn <Filter as Queryable>::query_located props=C05,C06,C07
@ensures
lvals($r@) == prefix(rs_filter(*$self, *$1, *$2, children(*$1).len() as int), pview($3)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop Value
@inv
lvals($ACC@) == lvals($ACC0) + prefix(rs_filter(*$self, *$1, *$2, $I as int), pview($3)),
@loop Member
@inv
lvals($ACC@) == lvals($ACC0) + prefix(rs_filter(*$self, *$1, *$2, $I as int), pview($3)),
//@end
//@fn <Segment as Queryable>::query props=C01,C04,C05
@ensures
vals($r@) == nodes(rs_seg(*$self, *$1, *$2)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop Selector
@inv
vals($ACC@) == vals($ACC0) + nodes(rs_sels(*$self, *$1, *$2, $I as int)),
@loop Value
@inv
vals($ACC@) == vals($ACC0) + nodes(children(*$1)).take($I as int),
@loop Member
@inv
vals($ACC@) == vals($ACC0) + nodes(children(*$1)).take($I as int),
//@end
//@fn <Segment as Queryable>::query_located props=C01,C04,C05,C06
@ensures
lvals($r@) == prefix(rs_seg(*$self, *$1, *$2), pview($3)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop Selector
@inv
lvals($ACC@) == lvals($ACC0) + prefix(rs_sels(*$self, *$1, *$2, $I as int), pview($3)),
@loop Value
@inv
lvals($ACC@) == lvals($ACC0) + prefix(children(*$1).take($I as int), pview($3)),
@loop Member
@inv
lvals($ACC@) == lvals($ACC0) + prefix(children(*$1).take($I as int), pview($3)),
//@end
//@fn QuerySegment::is_child props=C03,C09
@ensures
$r == ($self.kind is Child),
//@end
//@fn QuerySegment::is_descendent props=C03,C09
@ensures
$r == ($self.kind is Descendant),
//@end
//@fn descend props=C03,C05
@ensures
vals($r@) == nodes(rs_desc(*$1, *$2, *$3, children(*$2).len() as int)),
@decreases
*$1, 1int, *$2, 0int, 0int
@loop Value
@inv
vals($ACC@) == vals($ACC0) + nodes(rs_desc(*$1, *$2, *$3, $I as int)),
@loop Member
@inv
vals($ACC@) == vals($ACC0) + nodes(rs_desc(*$1, *$2, *$3, $I as int)),
//@end
//@fn descend_paths props=C03,C05,C06
@ensures
lvals($r@) == prefix(rs_desc(*$1, *$2, *$3, children(*$2).len() as int), pview($4)),
@decreases
*$1, 1int, *$2, 0int, 0int
@loop Value
@inv
lvals($ACC@) == lvals($ACC0) + prefix(rs_desc(*$1, *$2, *$3, $I as int), pview($4)),
@loop Member
@inv
lvals($ACC@) == lvals($ACC0) + prefix(rs_desc(*$1, *$2, *$3, $I as int), pview($4)),
//@end
//@fn <QuerySegment as Queryable>::query props=C03,C04,C05
@ensures
vals($r@) == nodes(rs_qseg(*$self, *$1, *$2)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop Value
@inv
vals($ACC@) == vals($ACC0) + nodes(rs_desc(*$self, *$1, *$2, $I as int)),
@loop Member
@inv
vals($ACC@) == vals($ACC0) + nodes(rs_desc(*$self, *$1, *$2, $I as int)),
//@end
//@fn <QuerySegment as Queryable>::query_located props=C03,C04,C05,C06
@ensures
lvals($r@) == prefix(rs_qseg(*$self, *$1, *$2), pview($3)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop Value
@inv
lvals($ACC@) == lvals($ACC0) + prefix(rs_desc(*$self, *$1, *$2, $I as int), pview($3)),
@loop Member
@inv
lvals($ACC@) == lvals($ACC0) + prefix(rs_desc(*$self, *$1, *$2, $I as int), pview($3)),
//@end
//@fn <Query as Queryable>::query props=C03,C04,C05
@ensures
vals($r@) == nodes(rs(*$self, *$1, *$2)),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop QuerySegment
@inv
vals($ACC@) == nodes(rs_query(*$self, *$1, *$2, $I as int)),
@loop Value
@inv
vals($S) == nodes(rs_query(*$self, *$1, *$2, $PI - 1)),
vals($ACC@) == vals($ACC0) + nodes(rs_flat($self.segments@[$PI - 1], rs_query(*$self, *$1, *$2, $PI - 1), *$2, $I as int)),
@body
assert(vals($S)[$I - 1] == $X.val());
//@end
//@fn <Query as Queryable>::query_located props=C03,C04,C05,C06
@ensures
lvals($r@) == prefix(rs(*$self, *$1, *$2), if $self.kind is Root { seq![] } else { pview($3) }),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop QuerySegment
@inv
lvals($ACC@) == prefix(rs_query(*$self, *$1, *$2, $I as int), if $self.kind is Root { seq![] } else { pview($3) }),
@loop LocatedNode
@inv
lvals($S) == prefix(rs_query(*$self, *$1, *$2, $PI - 1), if $self.kind is Root { seq![] } else { pview($3) }),
lvals($ACC@) == lvals($ACC0) + prefix(rs_flat($self.segments@[$PI - 1], rs_query(*$self, *$1, *$2, $PI - 1), *$2, $I as int), if $self.kind is Root { seq![] } else { pview($3) }),
@body
assert(lvals($S)[$I - 1] == lv($X));
//@end

//@fn <LogicalOrExpr as TestFilter>::test_filter props=C07
@ensures
$r == test_or(*$self, *$1, *$2, $self.0@.len() as int),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop LogicalAndExpr any
@inv
$RES == test_or(*$self, *$1, *$2, $I as int),
@loop LogicalAndExpr for
@inv
!test_or(*$self, *$1, *$2, $I as int),
//@end
//@fn <LogicalAndExpr as TestFilter>::test_filter props=C07
@ensures
$r == test_and(*$self, *$1, *$2, $self.0@.len() as int),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop BasicExpr all
@inv
$RES == test_and(*$self, *$1, *$2, $I as int),
@loop BasicExpr for
@inv
test_and(*$self, *$1, *$2, $I as int),
//@end
//@fn <BasicExpr as TestFilter>::test_filter props=C07
@ensures
$r == test_basic(*$self, *$1, *$2),
@decreases
*$self, 1int, *$1, 1int, 0int
//@end
//@fn <ExistExpr as TestFilter>::test_filter props=C07
@ensures
$r == (rs($self.0, *$1, *$2).len() > 0),
@decreases
*$self, 1int, *$1, 1int, 0int
//@end
//@fn <ComparisonExpr as TestFilter>::test_filter props=C07,C08
@ensures
$r == test_cmp(*$self, *$1, *$2),
@decreases
*$self, 1int, *$1, 1int, 0int
//@end
//@fn check_equal_to props=C08
@ensures
$r == jv_eq(jv(*$1), jv(*$2)),
//@end
//@fn value_equal_to props=C08
@ensures
$r == val_eq_found(*$1, *$2),
@decreases
*$1
@loop Value
@inv
$RES == forall|k: int| 0 <= k < $I ==> val_eq_found(*(#[trigger] $S[k]), *$Z[k]),
@after
assert forall|k: int| 0 <= k < $S.len() implies *$S[k] == #[trigger] $1->Array_0@[k] by { assert($S[k] == $S[k]); };
assert forall|k: int| 0 <= k < $Z.len() implies *(#[trigger] $Z[k]) == $2->Array_0@[k] by { };
@loop Member
@inv
$RES == forall|k: int| 0 <= k < $I ==> match mget($2->Object_0, (#[trigger] $S[k]).0@) { Some(v) => val_eq_found(*$S[k].1, v), None => false },
@after
assert forall|k: int| 0 <= k < $S.len() implies (*$S[k].0, *$S[k].1) == #[trigger] $1->Object_0.entries()[k] by { assert($S[k] == $S[k]); };
//@end
//@fn value_same_type props=C08
@ensures
$r == val_same(*$1, *$2),
//@end
//@fn check_same_type props=C08
@ensures
$r == jv_same(jv(*$1), jv(*$2)),
//@end
//@fn number_equal_to props=C08
@ensures
$r == (nval(*$1) == nval(*$2)),
//@end
//@fn number_less_than props=C08
@ensures
$r == (nval(*$1) < nval(*$2)),
//@end
//@fn value_less_than props=C08
@ensures
$r == val_lt(*$1, *$2),
//@end
//@fn check_less_than props=C08
@ensures
$r == jv_lt(jv(*$1), jv(*$2)),
//@end
//@fn <JsonPathValue as From<&Literal>>::from props=C08
@spec
open spec fn from_post(v: &'a Literal, r: Self) -> bool { jv(r) == JV::Val(lit_val(*v)) }
//@end
//@fn Comparable::as_value props=C08,C09
@ensures
jv($r) == comp_val(*$self, *$1, *$2),
@decreases
*$self, 1int, *$1, 1int, 0int
//@end
//@fn SingularQuery::eval_query props=C08,C09
@ensures
match $r { Some(v) => sq_val(*$self, *$1, *$2) == Some(*v), None => sq_val(*$self, *$1, *$2) is None },
@loop SingularQuerySegment
@inv
sq_go($self.segments@, if $self.kind is Absolute { *$2 } else { *$1 }, $I as int) == Some(*$VAR),
@body
let ghost vx_here = sq_go($self.segments@, if $self.kind is Absolute { *$2 } else { *$1 }, $I as int);
//@end

//@fn <Value as TestFilter>::test_filter props=~C11
@ensures
$r == value_test(*$self),
//@end
//@fn <bool as From<LogicalType>>::from props=C07,C11
@spec
open spec fn from_post(v: LogicalType, r: Self) -> bool { r == (v is True) }
//@end
//@fn FunctionExpr<Validated>::evaluate props=C07,C11
@ensures
jv($r) == eval_func(*$self, *$1, *$2),
@decreases
*$self, 1int, *$1, 1int, 0int
@loop FunctionExprArg
@inv
jvs($ACC@) == eval_args(*$self, *$1, *$2, $I as int),
//@end
//@fn FunctionExprArg::evaluate props=C07,C09,C11
@ensures
jv($r) == eval_arg(*$self, *$1, *$2),
@decreases
*$self, 1int, *$1, 1int, 0int
//@end
//@fn <FunctionExpr<Validated> as TestFilter>::test_filter props=C07,C11
@ensures
$r == truth(eval_func(*$self, *$1, *$2)),
@decreases
*$self, 2int, *$1, 1int, 0int
//@end
}
pub use f_eval::*;
