// ------------------------------------------------------------- the properties, over the contracts

pub mod vx_props {
use super::*;
broadcast use {vx_axioms, vx_path_lemmas, vx_unfold};

// ---- locations: following a path

pub open spec fn step(v: Value, e: PE) -> Option<Value> {
  match (v, e) {
    (Value::Array(a), PE::I(i)) => if 0 <= i < a@.len() { Some(a@[i]) } else { None },
    (Value::Object(m), PE::N(k)) => mget(m, k),
    _ => None,
  }
}
/// the node reached by the first n elements of a path
pub open spec fn follow(v: Value, p: Seq<PE>, n: int) -> Option<Value>
  decreases n
{
  if n <= 0 { Some(v) } else {
    match follow(v, p, n - 1) { None => None, Some(w) => step(w, p[n - 1]) }
  }
}
pub open spec fn resolve(v: Value, p: Seq<PE>) -> Option<Value> { follow(v, p, p.len() as int) }
pub open spec fn leads(s: RS, v: Value) -> bool {
  forall|i: int| 0 <= i < s.len() ==> resolve(v, (#[trigger] s[i]).0) == Some(s[i].1)
}
pub proof fn lem_follow_same(v: Value, p: Seq<PE>, q: Seq<PE>, n: int)
  requires 0 <= n <= p.len(), n <= q.len(), forall|i: int| 0 <= i < n ==> p[i] == q[i],
  ensures follow(v, p, n) == follow(v, q, n)
  decreases n
{ if n > 0 { lem_follow_same(v, p, q, n - 1); } }
pub proof fn lem_follow_cat(v: Value, p: Seq<PE>, w: Value, q: Seq<PE>, n: int)
  requires resolve(v, p) == Some(w), 0 <= n <= q.len(),
  ensures follow(v, p + q, p.len() + n) == follow(w, q, n)
  decreases n
{
  if n <= 0 { lem_follow_same(v, p, p + q, p.len() as int); }
  else { lem_follow_cat(v, p, w, q, n - 1); assert((p + q)[p.len() + n - 1] == q[n - 1]); }
}
pub proof fn lem_resolve_cat(v: Value, p: Seq<PE>, w: Value, q: Seq<PE>)
  requires resolve(v, p) == Some(w),
  ensures resolve(v, p + q) == resolve(w, q)
{ lem_follow_cat(v, p, w, q, q.len() as int); }
pub proof fn lem_resolve_one(v: Value, e: PE)
  ensures resolve(v, seq![e]) == step(v, e)
{ assert(follow(v, seq![e], 0) == Some(v)); }
pub proof fn lem_leads_prefix(s: RS, w: Value, v: Value, p: Seq<PE>)
  requires leads(s, w), resolve(v, p) == Some(w),
  ensures leads(prefix(s, p), v)
{
  let t = prefix(s, p);
  assert forall|i: int| 0 <= i < t.len() implies resolve(v, (#[trigger] t[i]).0) == Some(t[i].1) by {
    assert(t[i] == (p + s[i].0, s[i].1));
    lem_resolve_cat(v, p, w, s[i].0);
  }
}
pub proof fn lem_leads_add(s: RS, t: RS, v: Value)
  requires leads(s, v), leads(t, v),
  ensures leads(s + t, v)
{
  assert forall|i: int| 0 <= i < (s + t).len() implies resolve(v, (#[trigger] (s + t)[i]).0) == Some((s + t)[i].1) by {
    if i < s.len() { assert((s + t)[i] == s[i]); } else { assert((s + t)[i] == t[i - s.len()]); }
  }
}
pub proof fn lem_mget_entry(m: Map, i: int)
  requires 0 <= i < m.entries().len(),
  ensures mget(m, m.entries()[i].0@) == Some(m.entries()[i].1)
{
  let k = m.entries()[i].0@;
  assert forall|j: int| 0 <= j < m.entries().len() && j != i implies #[trigger] m.entries()[j].0@ != k by { ax_map_keys(m, i, j); }
}
pub proof fn lem_leads_children(v: Value)
  ensures leads(children(v), v)
{
  let s = children(v);
  assert forall|i: int| 0 <= i < s.len() implies resolve(v, (#[trigger] s[i]).0) == Some(s[i].1) by {
    match v {
      Value::Array(a) => { lem_resolve_one(v, PE::I(i)); },
      Value::Object(m) => { lem_resolve_one(v, PE::N(m.entries()[i].0@)); lem_mget_entry(m, i); },
      _ => {},
    }
  }
}
pub proof fn lem_leads_el(v: Value, i: int)
  requires v is Array, 0 <= i < v->Array_0@.len(),
  ensures leads(seq![el(v->Array_0@, i)], v)
{ lem_resolve_one(v, PE::I(i)); }
pub proof fn lem_leads_up(v: Value, i: int, upper: int, w: int)
  requires v is Array, 0 <= i, upper <= v->Array_0@.len(),
  ensures leads(sl_up(v->Array_0@, i, upper, w), v)
  decreases imax(upper - i, 0)
{
  if w > 0 && i < upper {
    lem_leads_up(v, i + w, upper, w);
    lem_leads_el(v, i);
    lem_leads_add(seq![el(v->Array_0@, i)], sl_up(v->Array_0@, i + w, upper, w), v);
  }
}
pub proof fn lem_leads_down(v: Value, i: int, lower: int, w: int)
  requires v is Array, i < v->Array_0@.len(), lower >= -1,
  ensures leads(sl_down(v->Array_0@, i, lower, w), v)
  decreases imax(i - lower, 0)
{
  if w < 0 && lower < i {
    lem_leads_down(v, i + w, lower, w);
    lem_leads_el(v, i);
    lem_leads_add(seq![el(v->Array_0@, i)], sl_down(v->Array_0@, i + w, lower, w), v);
  }
}
pub proof fn lem_leads_filter(f: Filter, cur: Value, root: Value, n: int)
  requires 0 <= n <= children(cur).len(),
  ensures leads(rs_filter(f, cur, root, n), cur)
  decreases n
{
  if n > 0 {
    lem_leads_filter(f, cur, root, n - 1);
    lem_leads_children(cur);
    let s = rs_filter(f, cur, root, n - 1);
    let c = children(cur)[n - 1];
    assert(leads(seq![c], cur));
    lem_leads_add(s, seq![c], cur);
    assert(s.push(c) =~= s + seq![c]);
  }
}
pub proof fn lem_leads_sel(sel: Selector, cur: Value, root: Value)
  ensures leads(rs_sel(sel, cur, root), cur)
{
  match sel {
    Selector::Name(n) => { lem_resolve_one(cur, PE::N(n.0@)); },
    Selector::Wildcard => { lem_leads_children(cur); },
    Selector::Index(i) => {
      if cur is Array {
        let j = if i.0.v() < 0 { cur->Array_0@.len() + i.0.v() } else { i.0.v() };
        lem_resolve_one(cur, PE::I(j));
      }
    },
    Selector::ArraySlice(s) => {
      if cur is Array {
        let w = sl_step(s); let len = cur->Array_0@.len() as int;
        if w > 0 { lem_leads_up(cur, sl_lower(s, w, len), sl_upper(s, w, len), w); }
        else if w < 0 { lem_leads_down(cur, sl_upper(s, w, len), sl_lower(s, w, len), w); }
      }
    },
    Selector::Filter(f) => { lem_leads_filter(f, cur, root, children(cur).len() as int); },
  }
}
pub proof fn lem_leads_sels(seg: Segment, cur: Value, root: Value, n: int)
  requires seg is LongHand, 0 <= n <= seg->LongHand_0@.len(),
  ensures leads(rs_sels(seg, cur, root, n), cur)
  decreases n
{
  if n > 0 {
    match seg {
      Segment::LongHand(s) => if n <= s@.len() {
        lem_leads_sels(seg, cur, root, n - 1);
        lem_leads_sel(s@[n - 1], cur, root);
        lem_leads_add(rs_sels(seg, cur, root, n - 1), rs_sel(s@[n - 1], cur, root), cur);
      },
      _ => {},
    }
  }
}
pub proof fn lem_leads_seg(seg: Segment, cur: Value, root: Value)
  ensures leads(rs_seg(seg, cur, root), cur)
{
  match seg {
    Segment::LongHand(s) => { lem_leads_sels(seg, cur, root, s@.len() as int); },
    Segment::DotName(k) => { lem_resolve_one(cur, PE::N(k@)); },
    Segment::Wildcard => { lem_leads_children(cur); },
  }
}
pub proof fn lem_leads_qseg(qs: QuerySegment, cur: Value, root: Value)
  ensures leads(rs_qseg(qs, cur, root), cur)
  decreases cur, 1int, 0int
{
  lem_leads_seg(qs.segment, cur, root);
  if qs.kind is Descendant {
    lem_leads_desc(qs, cur, root, children(cur).len() as int);
    lem_leads_add(rs_seg(qs.segment, cur, root), rs_desc(qs, cur, root, children(cur).len() as int), cur);
  }
}
pub proof fn lem_leads_desc(qs: QuerySegment, cur: Value, root: Value, n: int)
  requires 0 <= n <= children(cur).len(),
  ensures leads(rs_desc(qs, cur, root, n), cur)
  decreases cur, 0int, n
{
  if n > 0 {
    match cur {
      Value::Array(a) => if n <= a@.len() {
        lem_leads_desc(qs, cur, root, n - 1);
        lem_leads_qseg(qs, a@[n - 1], root);
        lem_resolve_one(cur, PE::I(n - 1));
        lem_leads_prefix(rs_qseg(qs, a@[n - 1], root), a@[n - 1], cur, seq![PE::I(n - 1)]);
        lem_leads_add(rs_desc(qs, cur, root, n - 1), prefix(rs_qseg(qs, a@[n - 1], root), seq![PE::I(n - 1)]), cur);
      },
      Value::Object(m) => if n <= m.entries().len() {
        let e = m.entries()[n - 1];
        lem_leads_desc(qs, cur, root, n - 1);
        lem_leads_qseg(qs, e.1, root);
        lem_resolve_one(cur, PE::N(e.0@));
        lem_mget_entry(m, n - 1);
        lem_leads_prefix(rs_qseg(qs, e.1, root), e.1, cur, seq![PE::N(e.0@)]);
        lem_leads_add(rs_desc(qs, cur, root, n - 1), prefix(rs_qseg(qs, e.1, root), seq![PE::N(e.0@)]), cur);
      },
      _ => {},
    }
  }
}
pub proof fn lem_leads_flat(qs: QuerySegment, l: RS, v: Value, root: Value, m: int)
  requires leads(l, v), 0 <= m <= l.len(),
  ensures leads(rs_flat(qs, l, root, m), v)
  decreases m
{
  if 0 < m <= l.len() {
    lem_leads_flat(qs, l, v, root, m - 1);
    lem_leads_qseg(qs, l[m - 1].1, root);
    lem_leads_prefix(rs_qseg(qs, l[m - 1].1, root), l[m - 1].1, v, l[m - 1].0);
    lem_leads_add(rs_flat(qs, l, root, m - 1), prefix(rs_qseg(qs, l[m - 1].1, root), l[m - 1].0), v);
  }
}
/// C06: every location of a query leads from where the query starts to exactly its node
//@lemma lem_C06_locations_lead_to_their_nodes props=C06,~C15,~C16,~C13
pub proof fn lem_C06_locations_lead_to_their_nodes(q: Query, cur: Value, root: Value, n: int)
  requires 0 <= n <= q.segments@.len(),
  ensures leads(rs_query(q, cur, root, n), if q.kind is Root { root } else { cur })
  decreases n
{
  let v = if q.kind is Root { root } else { cur };
  if n <= 0 { assert(resolve(v, seq![]) == Some(v)); }
  else if n <= q.segments@.len() {
    lem_C06_locations_lead_to_their_nodes(q, cur, root, n - 1);
    let l = rs_query(q, cur, root, n - 1);
    lem_leads_flat(q.segments@[n - 1], l, v, root, l.len() as int);
  }
}
//@endlemma
/// C05: the nodes of the located result are those of the plain result
//@lemma lem_C05_same_nodes props=C05
pub proof fn lem_C05_same_nodes(plain: Seq<Value>, located: RS, r: RS, p: Seq<PE>)
  requires plain == nodes(r), located == prefix(r, p),
  ensures nodes(located) == plain, located.len() == plain.len()
{ }
//@endlemma

// ---- C03: the descendant segment is the child segment on every node below, in document order

pub open spec fn child_of(qs: QuerySegment) -> QuerySegment { QuerySegment { kind: QuerySegmentKind::Child, segment: qs.segment } }
/// a value and everything below it, parents first
pub open spec fn pre(v: Value) -> RS
  decreases v, 1int
{ seq![(seq![], v)] + pre_below(v, children(v).len() as int) }
pub open spec fn pre_below(v: Value, n: int) -> RS
  decreases v, 0int, n
{
  if n <= 0 { seq![] } else {
    match v {
      Value::Array(a) => if n <= a@.len() { pre_below(v, n - 1) + prefix(pre(a@[n - 1]), seq![PE::I(n - 1)]) } else { seq![] },
      Value::Object(m) => if n <= m.entries().len() { pre_below(v, n - 1) + prefix(pre(m.entries()[n - 1].1), seq![PE::N(m.entries()[n - 1].0@)]) } else { seq![] },
      _ => seq![],
    }
  }
}
pub open spec fn flat(qs: QuerySegment, l: RS, root: Value) -> RS { rs_flat(qs, l, root, l.len() as int) }
pub proof fn lem_flat_part(qs: QuerySegment, l: RS, k: RS, root: Value, m: int)
  requires 0 <= m <= l.len(), m <= k.len(), forall|i: int| 0 <= i < m ==> l[i] == k[i],
  ensures rs_flat(qs, l, root, m) == rs_flat(qs, k, root, m)
  decreases m
{ if m > 0 { lem_flat_part(qs, l, k, root, m - 1); } }
pub proof fn lem_flat_cat(qs: QuerySegment, l: RS, k: RS, root: Value, m: int)
  requires 0 <= m <= k.len(),
  ensures rs_flat(qs, l + k, root, l.len() + m) == flat(qs, l, root) + rs_flat(qs, k, root, m)
  decreases m
{
  if m <= 0 { lem_flat_part(qs, l + k, l, root, l.len() as int); assert(flat(qs, l, root) + Seq::empty() =~= flat(qs, l, root)); }
  else {
    lem_flat_cat(qs, l, k, root, m - 1);
    assert((l + k)[l.len() + m - 1] == k[m - 1]);
    let x = prefix(rs_qseg(qs, k[m - 1].1, root), k[m - 1].0);
    assert(flat(qs, l, root) + rs_flat(qs, k, root, m - 1) + x =~= flat(qs, l, root) + (rs_flat(qs, k, root, m - 1) + x));
  }
}
pub proof fn lem_flat_prefix(qs: QuerySegment, l: RS, root: Value, p: Seq<PE>, m: int)
  requires 0 <= m <= l.len(),
  ensures rs_flat(qs, prefix(l, p), root, m) == prefix(rs_flat(qs, l, root, m), p)
  decreases m
{
  if m > 0 {
    lem_flat_prefix(qs, l, root, p, m - 1);
    assert(prefix(l, p)[m - 1] == (p + l[m - 1].0, l[m - 1].1));
    let x = rs_qseg(qs, l[m - 1].1, root);
    assert(prefix(x, p + l[m - 1].0) =~= prefix(prefix(x, l[m - 1].0), p)) by { reveal(prefix); assert forall|i: int| 0 <= i < x.len() implies (p + l[m - 1].0) + x[i].0 =~= p + (l[m - 1].0 + x[i].0) by { } }
  } else { assert(prefix(Seq::<(Seq<PE>, Value)>::empty(), p) =~= Seq::empty()); }
}
//@lemma lem_C03_descendants props=C03
pub proof fn lem_C03_descendants(qs: QuerySegment, cur: Value, root: Value)
  requires qs.kind is Descendant,
  ensures rs_qseg(qs, cur, root) == flat(child_of(qs), pre(cur), root)
  decreases cur, 1int, 0int
{
  let c = child_of(qs);
  let n = children(cur).len() as int;
  let one = seq![(Seq::<PE>::empty(), cur)];
  lem_C03_below(qs, cur, root, n);
  let below = pre_below(cur, n);
  lem_flat_cat(c, one, below, root, below.len() as int);
  assert(one.len() == 1 && one[0] == (Seq::<PE>::empty(), cur));
  assert(rs_flat(c, one, root, 0) == Seq::<(Seq<PE>, Value)>::empty());
  assert(rs_qseg(c, cur, root) == rs_seg(qs.segment, cur, root));
  assert(prefix(rs_qseg(c, cur, root), Seq::<PE>::empty()) =~= rs_qseg(c, cur, root)) by { reveal(prefix); assert forall|i: int| 0 <= i < rs_qseg(c, cur, root).len() implies Seq::<PE>::empty() + rs_qseg(c, cur, root)[i].0 =~= rs_qseg(c, cur, root)[i].0 by { } }
  assert(rs_flat(c, one, root, 1) == rs_flat(c, one, root, 0) + prefix(rs_qseg(c, cur, root), Seq::<PE>::empty()));
  assert(flat(c, one, root) =~= rs_seg(qs.segment, cur, root));
}
//@endlemma
//@lemma lem_C03_below props=C03
pub proof fn lem_C03_below(qs: QuerySegment, cur: Value, root: Value, n: int)
  requires qs.kind is Descendant, 0 <= n <= children(cur).len(),
  ensures rs_desc(qs, cur, root, n) == flat(child_of(qs), pre_below(cur, n), root)
  decreases cur, 0int, n
{
  let c = child_of(qs);
  if n > 0 {
    lem_C03_below(qs, cur, root, n - 1);
    let (p, v) = children(cur)[n - 1];
    match cur {
      Value::Array(a) => { assert(v == a@[n - 1] && p == seq![PE::I(n - 1)]); lem_C03_descendants(qs, a@[n - 1], root); },
      Value::Object(m) => { assert(v == m.entries()[n - 1].1 && p == seq![PE::N(m.entries()[n - 1].0@)]); lem_C03_descendants(qs, m.entries()[n - 1].1, root); },
      _ => {},
    }
    lem_flat_prefix(c, pre(v), root, p, pre(v).len() as int);
    lem_flat_cat(c, pre_below(cur, n - 1), prefix(pre(v), p), root, prefix(pre(v), p).len() as int);
    assert(pre_below(cur, n) == pre_below(cur, n - 1) + prefix(pre(v), p));
  }
}
//@endlemma

// ---- C08: the comparison table

/// outside the known finding: numbers in corresponding places of two containers are represented alike
/// whenever they are equal
pub open spec fn alike(a: Value, b: Value) -> bool
  decreases a
{
  match (a, b) {
    (Value::Number(x), Value::Number(y)) => num_same(x, y) == (nval(x) == nval(y)),
    (Value::Array(x), Value::Array(y)) => forall|i: int| 0 <= i < x@.len() && i < y@.len() ==> alike(#[trigger] x@[i], y@[i]),
    (Value::Object(x), Value::Object(y)) => forall|i: int| 0 <= i < x.entries().len() ==> match mget(y, (#[trigger] x.entries()[i]).0@) { Some(v) => alike(x.entries()[i].1, v), None => true },
    _ => true,
  }
}
//@lemma lem_C08_deep_equality props=C08
pub proof fn lem_C08_deep_equality(a: Value, b: Value)
  requires alike(a, b),
  ensures sj_eq(a, b) == val_eq(a, b)
  decreases a
{
  match (a, b) {
    (Value::Array(x), Value::Array(y)) => {
      if x@.len() == y@.len() {
        assert forall|i: int| 0 <= i < x@.len() implies sj_eq(#[trigger] x@[i], y@[i]) == val_eq(x@[i], y@[i]) by { lem_C08_deep_equality(x@[i], y@[i]); }
      }
    },
    (Value::Object(x), Value::Object(y)) => {
      assert forall|i: int| 0 <= i < x.entries().len() implies match mget(y, (#[trigger] x.entries()[i]).0@) { Some(v) => sj_eq(x.entries()[i].1, v) == val_eq(x.entries()[i].1, v), None => true } by {
        match mget(y, x.entries()[i].0@) { Some(v) => { lem_C08_deep_equality(x.entries()[i].1, v); }, None => {} }
      }
    },
    _ => {},
  }
}
//@endlemma
pub open spec fn rfc_eq(a: JV, b: JV) -> bool {
  match (jv_val(a), jv_val(b)) {
    (Some(x), Some(y)) => val_eq(x, y),
    (None, None) => true,
    _ => false,
  }
}
/// RFC 9535, 2.3.5.2.2, table 11 and the text around it
pub open spec fn rfc_cmp(op: ComparisonOperator, l: JV, r: JV) -> bool {
  match op {
    ComparisonOperator::EqualTo => rfc_eq(l, r),
    ComparisonOperator::NotEqualTo => !rfc_eq(l, r),
    ComparisonOperator::LessThan => jv_lt(l, r),
    ComparisonOperator::GreaterThan => jv_lt(r, l),
    ComparisonOperator::LessThanEqualTo => jv_lt(l, r) || rfc_eq(l, r),
    ComparisonOperator::GreaterThanEqualTo => jv_lt(r, l) || rfc_eq(l, r),
  }
}
/// an operand: a value or nothing
pub open spec fn operand(j: JV) -> bool { j is Nothing || j is Val || j is Node }
/// the known finding about >, <= and >=
pub open spec fn kf_order_case(op: ComparisonOperator, l: JV, r: JV) -> bool {
  match (jv_val(l), jv_val(r)) {
    (Some(x), Some(y)) => (op is GreaterThan || op is GreaterThanEqualTo) && val_same(x, y) && !(x is Number) && !(x is String) && !val_eq(x, y),
    (None, None) => op is LessThanEqualTo || op is GreaterThanEqualTo,
    _ => false,
  }
}
pub proof fn lem_str_total(a: Seq<char>, b: Seq<char>)
  ensures str_lt(a, b) || str_lt(b, a) || a == b, !(str_lt(a, b) && str_lt(b, a)), !(str_lt(a, b) && a == b)
  decreases a.len()
{
  if a.len() == 0 || b.len() == 0 { if a.len() == b.len() { assert(a =~= b); } }
  else if a[0] == b[0] {
    lem_str_total(a.drop_first(), b.drop_first());
    if a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
  }
}
//@lemma lem_C08_table props=C08
pub proof fn lem_C08_table(op: ComparisonOperator, l: JV, r: JV)
  requires
    operand(l), operand(r), !kf_order_case(op, l, r),
    match (jv_val(l), jv_val(r)) { (Some(x), Some(y)) => x is Number || alike(x, y), _ => true },
  ensures cmp_op(op, l, r) == rfc_cmp(op, l, r)
{
  match (jv_val(l), jv_val(r)) {
    (Some(x), Some(y)) => {
      if !(x is Number) { lem_C08_deep_equality(x, y); }
      assert(val_eq_found(x, y) == val_eq(x, y));
      match (x, y) { (Value::String(s), Value::String(t)) => { lem_str_total(s@, t@); }, _ => {} }
    },
    _ => {},
  }
}
//@endlemma

// ---- C09: a singular query is the query it was made from

//@lemma lem_C09_singular props=C09
pub proof fn lem_C09_singular(q: Query, s: SingularQuery, cur: Value, root: Value, n: int)
  requires
    sq_of(q, s), 0 <= n <= q.segments@.len(),
    forall|i: int| 0 <= i < n ==> match #[trigger] s.segments@[i] { SingularQuerySegment::Index(k) => k.0.v() >= 0 || !kf_singular_negative(), _ => true },
  ensures
    rs_query(q, cur, root, n).len() <= 1,
    sq_go(s.segments@, if q.kind is Root { root } else { cur }, n) == if rs_query(q, cur, root, n).len() == 1 { Some(rs_query(q, cur, root, n)[0].1) } else { None },
  decreases n
{
  if n > 0 {
    lem_C09_singular(q, s, cur, root, n - 1);
    let l = rs_query(q, cur, root, n - 1);
    let qs = q.segments@[n - 1];
    assert(sq_seg(qs) == Some(s.segments@[n - 1]));
    assert(rs_flat(qs, l, root, 0) == Seq::<(Seq<PE>, Value)>::empty());
    if l.len() == 1 {
      let v = l[0].1;
      let x = rs_qseg(qs, v, root);
      assert(x == rs_seg(qs.segment, v, root));
      match qs.segment {
        Segment::LongHand(sels) => {
          assert(rs_sels(qs.segment, v, root, 0) == Seq::<(Seq<PE>, Value)>::empty());
          assert(rs_sels(qs.segment, v, root, 1) == rs_sels(qs.segment, v, root, 0) + rs_sel(sels@[0], v, root));
          assert(x =~= rs_sel(sels@[0], v, root));
        },
        _ => {},
      }
      assert(rs_flat(qs, l, root, 1) == rs_flat(qs, l, root, 0) + prefix(x, l[0].0));
      assert(rs_flat(qs, l, root, 1) =~= prefix(x, l[0].0));
    }
  }
}
//@endlemma

// ---- C13: the locations of one result are comparable

pub proof fn lem_follow_less(v: Value, p: Seq<PE>, n: int, k: int)
  requires 0 <= k <= n, follow(v, p, n) is Some,
  ensures follow(v, p, k) is Some
  decreases n
{ if k < n { lem_follow_less(v, p, n - 1, k); } }
pub proof fn lem_resolve_front(v: Value, p: Seq<PE>)
  requires p.len() > 0, resolve(v, p) is Some,
  ensures step(v, p[0]) is Some, resolve(step(v, p[0])->0, p.skip(1)) == resolve(v, p)
{
  let one = seq![p[0]];
  lem_follow_less(v, p, p.len() as int, 1);
  assert(follow(v, p, 1) == step(v, p[0])) by { assert(follow(v, p, 0) == Some(v)); }
  lem_resolve_one(v, p[0]);
  lem_resolve_cat(v, one, step(v, p[0])->0, p.skip(1));
  assert(one + p.skip(1) =~= p);
}
pub proof fn lem_comparable(v: Value, p: Seq<PE>, q: Seq<PE>)
  requires resolve(v, p) is Some, resolve(v, q) is Some,
  ensures path_cmp(p, q) is Some
  decreases p.len()
{
  if p.len() > 0 && q.len() > 0 {
    lem_resolve_front(v, p);
    lem_resolve_front(v, q);
    if pe_cmp(p[0], q[0]) == Some(Ordering::Equal) {
      assert(p[0] == q[0]);
      lem_comparable(step(v, p[0])->0, p.skip(1), q.skip(1));
    }
  }
}
/// what deduplication requires holds of every result of a query
//@lemma lem_C13_results_can_be_deduplicated props=C13
pub proof fn lem_C13_results_can_be_deduplicated(s: Seq<LocatedNode>, v: Value)
  requires leads(lvals(s), v),
  ensures dedup_ok(s)
{
  assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() implies
    path_cmp(pview(s[i].loc), pview(s[j].loc)) is Some && (pview(s[i].loc) == pview(s[j].loc) ==> *s[i].node == *s[j].node)
  by {
    assert(lvals(s)[i] == lv(s[i]) && lvals(s)[j] == lv(s[j]));
    lem_comparable(v, pview(s[i].loc), pview(s[j].loc));
  }
}
//@endlemma
/// `dedup_of` says: each location once, in order, nothing lost or added
//@lemma lem_C13_once props=C13
pub proof fn lem_C13_once(s: RS, t: RS, v: Value)
  requires dedup_of(s, t),
  ensures
    forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).0 == (#[trigger] t[j]).0 ==> i == j,
    forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i]),
    forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i]),
    leads(s, v) ==> leads(t, v),
{
  assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).0 == (#[trigger] t[j]).0 implies i == j by {
    vxnode::lem_cmp_self(t[i].0);
    if i < j { assert(path_cmp(t[i].0, t[j].0) == Some(Ordering::Less)); }
    if j < i { assert(path_cmp(t[j].0, t[i].0) == Some(Ordering::Less)); }
  }
  assert forall|i: int| 0 <= i < s.len() implies t.contains(#[trigger] s[i]) by { assert(s.contains(s[i])); }
  assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t.contains(t[i])); }
  if leads(s, v) {
    assert forall|i: int| 0 <= i < t.len() implies resolve(v, (#[trigger] t[i]).0) == Some(t[i].1) by {
      assert(s.contains(t[i]));
      let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i];
      assert(resolve(v, s[k].0) == Some(s[k].1));
    }
  }
}
//@endlemma

// ---- C15: evaluating a JSON Pointer (RFC 6901)

/// the end of the reference token that starts at i
pub open spec fn tok_end(s: Seq<char>, i: int) -> int
  decreases s.len() - i
{ if i >= s.len() || s[i] == '/' { i } else { tok_end(s, i + 1) } }
/// `~1` stands for `/` and `~0` for `~`
pub open spec fn unesc(s: Seq<char>) -> Seq<char>
  decreases s.len()
{
  if s.len() == 0 { s }
  else if s[0] == '~' && s.len() > 1 && s[1] == '0' { seq!['~'] + unesc(s.skip(2)) }
  else if s[0] == '~' && s.len() > 1 && s[1] == '1' { seq!['/'] + unesc(s.skip(2)) }
  else { seq![s[0]] + unesc(s.skip(1)) }
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digit_val(c: char) -> int { c as int - '0' as int }
/// array index: digits without leading zeros
pub open spec fn arr_index(t: Seq<char>) -> Option<int> {
  if t.len() == 0 || (t.len() > 1 && t[0] == '0') || !(forall|i: int| 0 <= i < t.len() ==> is_digit(#[trigger] t[i])) { None } else { Some(dec_val(t)) }
}
pub open spec fn dec_val(t: Seq<char>) -> int
  decreases t.len()
{ if t.len() == 0 { 0 } else { dec_val(t.drop_last()) * 10 + digit_val(t.last()) } }
pub open spec fn ptr_step(v: Value, t: Seq<char>) -> Option<Value> {
  match v {
    Value::Object(m) => mget(m, unesc(t)),
    Value::Array(a) => match arr_index(t) { Some(i) => if i < a@.len() { Some(a@[i]) } else { None }, None => None },
    _ => None,
  }
}
pub open spec fn ptr_eval(v: Value, s: Seq<char>) -> Option<Value>
  decreases s.len()
{
  if s.len() == 0 { Some(v) }
  else if s[0] != '/' { None }
  else {
    let e = tok_end(s, 1);
    if e < 1 || e > s.len() { None } else {
      match ptr_step(v, s.subrange(1, e)) { None => None, Some(w) => ptr_eval(w, s.skip(e)) }
    }
  }
}
/// one character of a member name in a pointer
pub open spec fn ptr_char(c: char) -> Seq<char> { if c == '~' { seq!['~', '0'] } else if c == '/' { seq!['~', '1'] } else { seq![c] } }
pub open spec fn ptr_name(s: Seq<char>) -> Seq<char>
  decreases s.len()
{ if s.len() == 0 { s } else { ptr_char(s[0]) + ptr_name(s.skip(1)) } }
pub proof fn lem_replace_push(s: Seq<char>, x: char, c: char, by: Seq<char>)
  ensures replace_char(s.push(x), c, by) == replace_char(s, c, by) + (if x == c { by } else { seq![x] })
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lem_replace_cat(s: Seq<char>, t: Seq<char>, c: char, by: Seq<char>)
  ensures replace_char(s + t, c, by) == replace_char(s, c, by) + replace_char(t, c, by)
  decreases t.len()
{
  if t.len() == 0 { assert(s + t =~= s); assert(replace_char(s, c, by) + replace_char(t, c, by) =~= replace_char(s, c, by)); }
  else {
    let u = t.drop_last();
    lem_replace_cat(s, u, c, by);
    assert((s + t).drop_last() =~= s + u);
    let y = if t.last() == c { by } else { seq![t.last()] };
    assert(replace_char(s, c, by) + replace_char(u, c, by) + y =~= replace_char(s, c, by) + (replace_char(u, c, by) + y));
  }
}
pub proof fn lem_replace_one(x: char, c: char, by: Seq<char>)
  ensures replace_char(seq![x], c, by) == (if x == c { by } else { seq![x] })
{
  lem_replace_push(Seq::empty(), x, c, by);
  assert(Seq::<char>::empty().push(x) =~= seq![x]);
  let y = if x == c { by } else { seq![x] };
  assert(Seq::<char>::empty() + y =~= y);
}
pub proof fn lem_ptr_name(s: Seq<char>)
  ensures ptr_tok(PE::N(s)) == ptr_name(s)
  decreases s.len()
{
  let (t0, t1) = (seq!['~', '0'], seq!['~', '1']);
  if s.len() > 0 {
    let (h, t) = (seq![s[0]], s.skip(1));
    lem_ptr_name(t);
    assert(s =~= h + t);
    lem_replace_cat(h, t, '~', t0);
    lem_replace_one(s[0], '~', t0);
    let a = replace_char(h, '~', t0);
    lem_replace_cat(a, replace_char(t, '~', t0), '/', t1);
    if s[0] == '~' {
      assert(a =~= seq!['~'] + seq!['0']);
      lem_replace_cat(seq!['~'], seq!['0'], '/', t1);
      lem_replace_one('~', '/', t1);
      lem_replace_one('0', '/', t1);
      assert(replace_char(a, '/', t1) =~= t0);
    } else { lem_replace_one(s[0], '/', t1); }
    assert(replace_char(a, '/', t1) == ptr_char(s[0]));
  }
}
pub proof fn lem_unesc_name(s: Seq<char>)
  ensures unesc(ptr_name(s)) == s, forall|i: int| 0 <= i < ptr_name(s).len() ==> #[trigger] ptr_name(s)[i] != '/',
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.skip(1);
    lem_unesc_name(t);
    let r = ptr_name(s);
    let k = ptr_char(s[0]).len() as int;
    assert(r.skip(k) =~= ptr_name(t));
    assert(r[0] == ptr_char(s[0])[0]);
    if k == 2 { assert(r[1] == ptr_char(s[0])[1]); }
    assert(s =~= seq![s[0]] + t);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != '/' by {
      if i >= k { assert(r[i] == ptr_name(t)[i - k]); } else { assert(r[i] == ptr_char(s[0])[i]); }
    }
  }
}
pub proof fn lem_dec(n: nat)
  ensures
    arr_index(dec_digits(n)) == Some(n as int),
    dec_digits(n).len() > 0, n > 0 ==> dec_digits(n)[0] != '0',
    forall|i: int| 0 <= i < dec_digits(n).len() ==> is_digit(#[trigger] dec_digits(n)[i]),
    dec_val(dec_digits(n)) == n,
  decreases n
{
  let d = dec_digits(n);
  if n < 10 {
    assert(d.drop_last() =~= Seq::<char>::empty());
    assert(dec_val(Seq::<char>::empty()) == 0);
  } else {
    let e = dec_digits(n / 10);
    lem_dec(n / 10);
    assert(d.drop_last() =~= e);
    assert(d[0] == e[0]);
    assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by { if i < e.len() { assert(d[i] == e[i]); } }
  }
}
pub proof fn lem_tok_end(s: Seq<char>, i: int, e: int)
  requires 0 <= i <= e <= s.len(), forall|k: int| i <= k < e ==> #[trigger] s[k] != '/', e < s.len() ==> s[e] == '/',
  ensures tok_end(s, i) == e
  decreases e - i
{ if i < e { assert(s[i] != '/'); lem_tok_end(s, i + 1, e); } }
pub proof fn lem_ptr_front(p: Seq<PE>, n: int)
  requires 1 <= n <= p.len(),
  ensures ptr(p, n) == seq!['/'] + ptr_tok(p[0]) + ptr(p.skip(1), n - 1)
  decreases n
{
  reveal_with_fuel(ptr, 2);
  if n == 1 {
    assert(ptr(p, 0).push('/') =~= seq!['/']);
    assert(ptr(p.skip(1), 0) =~= Seq::empty());
    assert(seq!['/'] + ptr_tok(p[0]) + ptr(p.skip(1), 0) =~= seq!['/'] + ptr_tok(p[0]));
  } else {
    lem_ptr_front(p, n - 1);
    let q = p.skip(1);
    assert(q[n - 2] == p[n - 1]);
    assert((seq!['/'] + ptr_tok(p[0]) + ptr(q, n - 2)).push('/') + ptr_tok(p[n - 1]) =~= seq!['/'] + ptr_tok(p[0]) + (ptr(q, n - 2).push('/') + ptr_tok(p[n - 1])));
  }
}
/// C15: the pointer of a location resolves to the location's node
//@lemma lem_C15_pointer_resolves props=C15
pub proof fn lem_C15_pointer_resolves(v: Value, p: Seq<PE>)
  requires resolve(v, p) is Some,
  ensures ptr_eval(v, ptr(p, p.len() as int)) == resolve(v, p)
  decreases p.len()
{
  reveal(ptr);
  if p.len() > 0 {
    lem_resolve_front(v, p);
    let w = step(v, p[0])->0;
    let q = p.skip(1);
    lem_C15_pointer_resolves(w, q);
    lem_ptr_front(p, p.len() as int);
    let t = ptr_tok(p[0]);
    let rest = ptr(q, q.len() as int);
    let s = ptr(p, p.len() as int);
    match p[0] {
      PE::N(k) => { lem_ptr_name(k); lem_unesc_name(k); },
      PE::I(i) => { lem_dec(i as nat); },
    }
    assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '/');
    if q.len() > 0 { lem_ptr_front(q, q.len() as int); assert(rest[0] == '/'); }
    let e = 1 + t.len() as int;
    assert(s.subrange(1, e) =~= t);
    assert(s.skip(e) =~= rest);
    assert forall|k: int| 1 <= k < e implies #[trigger] s[k] != '/' by { assert(s[k] == t[k - 1]); }
    if e < s.len() { assert(s[e] == rest[0]); }
    lem_tok_end(s, 1, e);
    assert(ptr_step(v, t) == Some(w));
  } else { assert(ptr(p, 0) =~= Seq::empty()); }
}
//@endlemma
} // mod vx_props
