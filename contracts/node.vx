// ------------------------------------------------------------- nodelists

//@type AtMostOneError
//@type ExactlyOneError
//@type Locations
//@type Nodes

// ---- sorting and deduplication

impl<'a> VxOrd for LocatedNode<'a> {
  open spec fn comparable(a: Self, b: Self) -> bool { path_cmp(pview(a.loc), pview(b.loc)) is Some }
  open spec fn ord(a: Self, b: Self) -> Ordering {
    match path_cmp(pview(a.loc), pview(b.loc)) { Some(o) => o, None => Ordering::Equal }
  }
}
/// any two locations are comparable, and a location has one node
pub open spec fn dedup_ok(s: Seq<LocatedNode>) -> bool {
  forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() ==> {
    &&& path_cmp(pview(s[i].loc), pview(s[j].loc)) is Some
    &&& pview(s[i].loc) == pview(s[j].loc) ==> *s[i].node == *s[j].node
  }
}
pub open spec fn increasing(t: RS) -> bool {
  forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() ==> path_cmp(t[i].0, t[j].0) == Some(Ordering::Less)
}
/// `t` has each location of `s`, with its node, once and in order
pub open spec fn dedup_of(s: RS, t: RS) -> bool {
  &&& increasing(t)
  &&& forall|x: (Seq<PE>, Value)| #![trigger s.contains(x)] #![trigger t.contains(x)] s.contains(x) <==> t.contains(x)
}
pub mod vxnode {
use super::*;
broadcast use {vx_axioms, vx_path_lemmas};
pub proof fn lem_str_total(a: Seq<char>, b: Seq<char>)
  ensures a != b ==> (str_lt(a, b) <==> !str_lt(b, a)), a == b ==> !str_lt(a, b),
  decreases a.len()
{
  if a.len() > 0 && b.len() > 0 {
    if a[0] == b[0] {
      lem_str_total(a.skip(1), b.skip(1));
      if a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    }
  } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lem_str_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
  requires str_lt(a, b), str_lt(b, c),
  ensures str_lt(a, c)
  decreases a.len()
{
  if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lem_str_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
pub proof fn lem_cmp_self(p: Seq<PE>)
  ensures path_cmp(p, p) == Some(Ordering::Equal)
  decreases p.len()
{
  if p.len() > 0 {
    match p[0] { PE::N(x) => { lem_str_total(x, x); }, _ => {} }
    lem_cmp_self(p.skip(1));
  }
}
pub proof fn lem_cmp_eq(p: Seq<PE>, q: Seq<PE>)
  requires path_cmp(p, q) == Some(Ordering::Equal),
  ensures p == q
  decreases p.len()
{
  if p.len() > 0 && q.len() > 0 {
    lem_cmp_eq(p.skip(1), q.skip(1));
    assert(p =~= seq![p[0]] + p.skip(1)); assert(q =~= seq![q[0]] + q.skip(1));
  } else { assert(p =~= q); }
}
pub proof fn lem_cmp_flip(p: Seq<PE>, q: Seq<PE>)
  ensures
    path_cmp(p, q) is Some <==> path_cmp(q, p) is Some,
    (path_cmp(p, q) == Some(Ordering::Less)) == (path_cmp(q, p) == Some(Ordering::Greater)),
    (path_cmp(p, q) == Some(Ordering::Equal)) == (path_cmp(q, p) == Some(Ordering::Equal)),
  decreases p.len()
{
  if p.len() > 0 && q.len() > 0 {
    match (p[0], q[0]) { (PE::N(x), PE::N(y)) => { lem_str_total(x, y); lem_str_total(y, x); }, _ => {} }
    lem_cmp_flip(p.skip(1), q.skip(1));
  }
}
pub proof fn lem_cmp_trans(p: Seq<PE>, q: Seq<PE>, r: Seq<PE>)
  requires path_cmp(p, q) is Some, path_cmp(q, r) is Some, path_cmp(p, q) != Some(Ordering::Greater), path_cmp(q, r) != Some(Ordering::Greater),
  ensures path_cmp(p, r) is Some, path_cmp(p, r) != Some(Ordering::Greater),
    (path_cmp(p, q) == Some(Ordering::Less) || path_cmp(q, r) == Some(Ordering::Less)) ==> path_cmp(p, r) == Some(Ordering::Less),
  decreases p.len()
{
  if p.len() > 0 && q.len() > 0 && r.len() > 0 {
    match (p[0], q[0], r[0]) {
      (PE::N(x), PE::N(y), PE::N(z)) => {
        lem_str_total(x, y); lem_str_total(y, z); lem_str_total(x, z);
        if str_lt(x, y) && str_lt(y, z) { lem_str_trans(x, y, z); }
      },
      _ => {},
    }
    if pe_cmp(p[0], q[0]) == Some(Ordering::Equal) && pe_cmp(q[0], r[0]) == Some(Ordering::Equal) { lem_cmp_trans(p.skip(1), q.skip(1), r.skip(1)); }
  }
}
pub broadcast proof fn lem_ord_total(s: Seq<LocatedNode>)
  requires dedup_ok(s),
  ensures #[trigger] ord_total(s)
{
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] <LocatedNode as VxOrd>::ord(s[i], s[i]) == Ordering::Equal by { lem_cmp_self(pview(s[i].loc)); }
  assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies
    ((#[trigger] <LocatedNode as VxOrd>::ord(s[i], s[j]) == Ordering::Less) == (<LocatedNode as VxOrd>::ord(s[j], s[i]) == Ordering::Greater))
    by { lem_cmp_flip(pview(s[i].loc), pview(s[j].loc)); }
  assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
      && #[trigger] <LocatedNode as VxOrd>::ord(s[i], s[j]) != Ordering::Greater && #[trigger] <LocatedNode as VxOrd>::ord(s[j], s[k]) != Ordering::Greater
      implies <LocatedNode as VxOrd>::ord(s[i], s[k]) != Ordering::Greater
    by { lem_cmp_trans(pview(s[i].loc), pview(s[j].loc), pview(s[k].loc)); }
}
pub proof fn lem_sj_refl(v: Value)
  ensures sj_eq(v, v)
  decreases v
{
  match v {
    Value::Number(n) => { ax_num_same(n); },
    Value::Array(a) => { assert forall|i: int| 0 <= i < a@.len() implies sj_eq(#[trigger] a@[i], a@[i]) by { lem_sj_refl(a@[i]); } },
    Value::Object(m) => {
      assert forall|i: int| 0 <= i < m.entries().len() implies match mget(m, (#[trigger] m.entries()[i]).0@) { Some(v) => sj_eq(m.entries()[i].1, v), None => false } by {
        let k = m.entries()[i].0@;
        assert forall|j: int| 0 <= j < m.entries().len() && j != i implies #[trigger] m.entries()[j].0@ != k by { ax_map_keys(m, i, j); }
        lem_sj_refl(m.entries()[i].1);
      }
    },
    _ => {},
  }
}
pub proof fn lem_push_has<T>(a: Seq<T>, x: T, y: T)
  ensures a.push(x).contains(y) <==> (a.contains(y) || x == y)
{
  let b = a.push(x);
  if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(b[i] == y); }
  if x == y { assert(b[a.len() as int] == y); }
  if b.contains(y) { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; if i < a.len() { assert(a[i] == y); } }
}
pub proof fn lem_increasing_push(t: RS, x: (Seq<PE>, Value))
  requires increasing(t), t.len() > 0 ==> path_cmp(t.last().0, x.0) == Some(Ordering::Less),
  ensures increasing(t.push(x))
{
  let r = t.push(x);
  assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies path_cmp(r[i].0, r[j].0) == Some(Ordering::Less) by {
    if j < t.len() { assert(r[i] == t[i] && r[j] == t[j]); }
    else if i < t.len() - 1 {
      let z = t[t.len() - 1];
      assert(path_cmp(t[i].0, z.0) == Some(Ordering::Less));
      lem_cmp_trans(t[i].0, z.0, x.0);
    }
  }
}
/// the last item against the one before
pub proof fn lem_dedup_last(m: Seq<LocatedNode>)
  requires dedup_ok(m), sorted(m), m.len() >= 2,
  ensures ({
    let (y, x) = (m[m.len() - 2], m[m.len() - 1]);
    if pview(x.loc) == pview(y.loc) { lv(x) == lv(y) } else { path_cmp(pview(y.loc), pview(x.loc)) == Some(Ordering::Less) }
  })
{
  let (y, x) = (m[m.len() - 2], m[m.len() - 1]);
  assert(<LocatedNode as VxOrd>::ord(m[m.len() - 2], m[m.len() - 1]) != Ordering::Greater);
  if path_cmp(pview(y.loc), pview(x.loc)) == Some(Ordering::Equal) { lem_cmp_eq(pview(y.loc), pview(x.loc)); }
}
pub proof fn lem_dedup_prefix(m: Seq<LocatedNode>)
  requires dedup_ok(m), sorted(m), m.len() > 0,
  ensures dedup_ok(m.drop_last()), sorted(m.drop_last())
{
  let p = m.drop_last();
  assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] <LocatedNode as VxOrd>::ord(p[i], p[j]) != Ordering::Greater by {
    assert(<LocatedNode as VxOrd>::ord(m[i], m[j]) != Ordering::Greater);
  }
  assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < p.len() && 0 <= j < p.len() implies
    path_cmp(pview(p[i].loc), pview(p[j].loc)) is Some && (pview(p[i].loc) == pview(p[j].loc) ==> *p[i].node == *p[j].node)
  by { assert(p[i] == m[i] && p[j] == m[j]); }
}
/// removing consecutive duplicates of a sorted list
pub proof fn lem_dedup(m: Seq<LocatedNode>)
  requires dedup_ok(m), sorted(m),
  ensures
    increasing(lvals(dedup_seq(m))),
    m.len() > 0 ==> dedup_seq(m).len() > 0 && lv(dedup_seq(m).last()) == lv(m.last()),
    forall|x: (Seq<PE>, Value)| #[trigger] lvals(m).contains(x) <==> lvals(dedup_seq(m)).contains(x),
  decreases m.len()
{
  if m.len() > 0 {
    let p = m.drop_last();
    let d = dedup_seq(p);
    let x = m.last();
    lem_dedup_prefix(m);
    lem_dedup(p);
    assert(m =~= p.push(x));
    assert(lvals(m) == lvals(p).push(lv(x)));
    if p.len() > 0 {
      lem_dedup_last(m);
      let y = m[m.len() - 2];
      assert(p.last() == y);
      let z = d.last();
      assert(lv(z) == lv(y));
      assert(lvals(d).last() == lv(z));
      lem_sj_refl(*x.node);
      assert(x.eqv(&z) <==> pview(x.loc) == pview(y.loc));
      if pview(x.loc) == pview(y.loc) {
        assert(dedup_seq(m) == d);
        assert forall|w: (Seq<PE>, Value)| #[trigger] lvals(m).contains(w) <==> lvals(d).contains(w) by {
          lem_push_has(lvals(p), lv(x), w);
          if lv(x) == w { assert(lvals(d)[d.len() - 1] == w); }
        }
      } else {
        lem_dedup_push(m, d, x);
      }
    } else {
      lem_dedup_push(m, d, x);
    }
  }
}
pub proof fn lem_dedup_push(m: Seq<LocatedNode>, d: Seq<LocatedNode>, x: LocatedNode)
  requires
    m.len() > 0, x == m.last(), d == dedup_seq(m.drop_last()), dedup_seq(m) == d.push(x),
    increasing(lvals(d)), d.len() > 0 ==> path_cmp(lvals(d).last().0, lv(x).0) == Some(Ordering::Less),
    forall|x: (Seq<PE>, Value)| #[trigger] lvals(m.drop_last()).contains(x) <==> lvals(d).contains(x),
  ensures
    increasing(lvals(dedup_seq(m))),
    lv(dedup_seq(m).last()) == lv(m.last()),
    forall|x: (Seq<PE>, Value)| #[trigger] lvals(m).contains(x) <==> lvals(dedup_seq(m)).contains(x),
{
  let p = m.drop_last();
  assert(m =~= p.push(x));
  assert(lvals(m) == lvals(p).push(lv(x)));
  assert(lvals(d.push(x)) == lvals(d).push(lv(x)));
  lem_increasing_push(lvals(d), lv(x));
  assert forall|w: (Seq<PE>, Value)| #[trigger] lvals(m).contains(w) <==> lvals(dedup_seq(m)).contains(w) by {
    lem_push_has(lvals(p), lv(x), w);
    lem_push_has(lvals(d), lv(x), w);
    assert(lvals(p).contains(w) <==> lvals(d).contains(w));
  }
}
pub broadcast proof fn lem_sort_dedup(s: Seq<LocatedNode>, m: Seq<LocatedNode>)
  requires m.to_multiset() == s.to_multiset(), sorted(m), dedup_ok(s),
  ensures #![trigger s.to_multiset(), dedup_seq(m)] dedup_of(lvals(s), lvals(dedup_seq(m)))
{
  s.to_multiset_ensures();
  m.to_multiset_ensures();
  assert forall|x: LocatedNode| s.contains(x) == m.contains(x) by {
    assert(s.contains(x) <==> s.to_multiset().count(x) > 0);
    assert(m.contains(x) <==> m.to_multiset().count(x) > 0);
  }
  assert(dedup_ok(m)) by {
    assert forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < m.len() && 0 <= j < m.len() implies
        path_cmp(pview(m[i].loc), pview(m[j].loc)) is Some && (pview(m[i].loc) == pview(m[j].loc) ==> *m[i].node == *m[j].node)
    by {
      assert(m.contains(m[i]) && m.contains(m[j]));
      let k = choose|k: int| 0 <= k < s.len() && s[k] == m[i];
      let l = choose|l: int| 0 <= l < s.len() && s[l] == m[j];
      assert(s[k] == m[i] && s[l] == m[j]);
    }
  }
  lem_dedup(m);
  let t = lvals(dedup_seq(m));
  assert forall|x: (Seq<PE>, Value)| #![trigger lvals(s).contains(x)] #![trigger t.contains(x)] lvals(s).contains(x) <==> t.contains(x) by {
    assert(lvals(m).contains(x) <==> t.contains(x));
    if lvals(s).contains(x) {
      let j = choose|j: int| 0 <= j < s.len() && lvals(s)[j] == x;
      assert(s.contains(s[j]));
      let k = choose|k: int| 0 <= k < m.len() && m[k] == s[j];
      assert(lvals(m)[k] == x);
    }
    if lvals(m).contains(x) {
      let j = choose|j: int| 0 <= j < m.len() && lvals(m)[j] == x;
      assert(m.contains(m[j]));
      let k = choose|k: int| 0 <= k < s.len() && s[k] == m[j];
      assert(lvals(s)[k] == x);
    }
  }
}
} // mod vxnode
pub broadcast group vx_node_lemmas { vxnode::lem_ord_total, vxnode::lem_sort_dedup }

pub mod f_node {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_int_axioms, vx_path_lemmas, vx_node_lemmas};

//@fn NodeList::at_most_one props=C14
@ensures
match $r {
  Ok(None) => $self.0@.len() == 0,
  Ok(Some(v)) => $self.0@.len() == 1 && *v == *$self.0@[0],
  Err(e) => $self.0@.len() > 1 && e.0 == $self.0@.len(),
},
//@end
//@fn NodeList::exactly_one props=C14
@ensures
match $r {
  Ok(v) => $self.0@.len() == 1 && *v == *$self.0@[0],
  Err(ExactlyOneError::Empty) => $self.0@.len() == 0,
  Err(ExactlyOneError::MoreThanOne(n)) => $self.0@.len() > 1 && n == $self.0@.len(),
},
//@end
//@fn NodeList::all props=C14
@ensures
vals($r@) == vals($self.0@),
//@end
//@fn NodeList::len props=C14
@ensures
$r == $self.0@.len(),
//@end
//@fn NodeList::is_empty props=C07,C14
@ensures
$r == ($self.0@.len() == 0),
//@end
//@fn NodeList::iter props=C14
@ensures
$r.rest() == $self.0@,
//@end
//@fn NodeList::first props=C14
@ensures
match $r { Some(v) => $self.0@.len() > 0 && *v == *$self.0@[0], None => $self.0@.len() == 0 },
//@end
//@fn NodeList::last props=C14
@ensures
match $r { Some(v) => $self.0@.len() > 0 && *v == *$self.0@.last(), None => $self.0@.len() == 0 },
//@end
//@fn NodeList::get props=C14
@ensures
match $r { Some(v) => $1 < $self.0@.len() && *v == *$self.0@[$1 as int], None => $1 >= $self.0@.len() },
//@end
//@fn NodeList::one props=C14
@ensures
match $r { Some(v) => $self.0@.len() == 1 && *v == *$self.0@[0], None => $self.0@.len() != 1 },
//@end
//@fn <NodeList as From<Vec<&Value>>>::from props=C05,C09,C10,C14
@spec
open spec fn from_post(v: Vec<&'a Value>, r: Self) -> bool { r.0@ == v@ }
//@end
//@fn <NodeList as IntoIterator>::into_iter props=C14
@ensures
$r.rest() == $self.0@,
//@end

//@fn LocatedNode::location props=C06,C14
@ensures
*$r == $self.loc,
//@end
//@fn LocatedNode::to_location props=C06,C14
@ensures
$r == $self.loc,
//@end
//@fn LocatedNode::node props=C06,C14
@ensures
*$r == *$self.node,
//@end
//@fn <NormalizedPath as From<LocatedNode>>::from props=C06,C14
@spec
open spec fn from_post(v: LocatedNode<'a>, r: Self) -> bool { r == v.loc }
//@end

//@fn LocatedNodeList::at_most_one props=C14
@ensures
match $r {
  Ok(None) => $self.0@.len() == 0,
  Ok(Some(v)) => $self.0@.len() == 1 && v == $self.0@[0],
  Err(e) => $self.0@.len() > 1 && e.0 == $self.0@.len(),
},
//@end
//@fn LocatedNodeList::exactly_one props=C14
@ensures
match $r {
  Ok(v) => $self.0@.len() == 1 && v == $self.0@[0],
  Err(ExactlyOneError::Empty) => $self.0@.len() == 0,
  Err(ExactlyOneError::MoreThanOne(n)) => $self.0@.len() > 1 && n == $self.0@.len(),
},
//@end
//@fn LocatedNodeList::all props=C14
@ensures
$r@ == $self.0@,
//@end
//@fn LocatedNodeList::len props=C14
@ensures
$r == $self.0@.len(),
//@end
//@fn LocatedNodeList::is_empty props=C14
@ensures
$r == ($self.0@.len() == 0),
//@end
//@fn LocatedNodeList::iter props=C14
@ensures
$r.rest() == $self.0@,
//@end
//@fn LocatedNodeList::locations props=C14
@ensures
$r.inner.rest() == $self.0@,
//@end
//@fn LocatedNodeList::nodes props=C14
@ensures
$r.inner.rest() == $self.0@,
//@end
//@fn LocatedNodeList::dedup_in_place props=C13
@requires
dedup_ok(old($self).0@),
@ensures
dedup_of(lvals(old($self).0@), lvals(final($self).0@)),
//@end
//@fn LocatedNodeList::dedup props=C13
@requires
dedup_ok($self.0@),
@ensures
dedup_of(lvals($self.0@), lvals($r.0@)),
//@end
//@fn LocatedNodeList::first props=C14
@ensures
match $r { Some(v) => $self.0@.len() > 0 && *v == $self.0@[0], None => $self.0@.len() == 0 },
//@end
//@fn LocatedNodeList::last props=C14
@ensures
match $r { Some(v) => $self.0@.len() > 0 && *v == $self.0@.last(), None => $self.0@.len() == 0 },
//@end
//@fn LocatedNodeList::get props=C14
@ensures
match $r { Some(v) => $1 < $self.0@.len() && *v == $self.0@[$1 as int], None => $1 >= $self.0@.len() },
//@end
//@fn <LocatedNodeList as From<Vec<LocatedNode>>>::from props=C05,C06,C14
@spec
open spec fn from_post(v: Vec<LocatedNode<'a>>, r: Self) -> bool { r.0@ == v@ }
//@end
//@fn <LocatedNodeList as IntoIterator>::into_iter props=C14
@ensures
$r.rest() == $self.0@,
//@end

//@fn <Locations as Iterator>::next props=C14
@ensures
match $r {
  Some(p) => old($self).inner.rest().len() > 0 && *p == old($self).inner.rest()[0].loc && final($self).inner.rest() == old($self).inner.rest().skip(1),
  None => old($self).inner.rest().len() == 0 && final($self).inner.rest() == old($self).inner.rest(),
},
//@end
//@fn <Locations as Iterator>::size_hint props=C14
@ensures
$r.0 == $self.inner.rest().len(),
$r.1 == Some($r.0),
//@end
//@fn <Locations as DoubleEndedIterator>::next_back props=C14
@ensures
match $r {
  Some(p) => old($self).inner.rest().len() > 0 && *p == old($self).inner.rest().last().loc && final($self).inner.rest() == old($self).inner.rest().drop_last(),
  None => old($self).inner.rest().len() == 0 && final($self).inner.rest() == old($self).inner.rest(),
},
//@end
//@fn <Locations as ExactSizeIterator>::len props=C14
@ensures
$r == $self.inner.rest().len(),
//@end
//@fn <Nodes as Iterator>::next props=C14
@ensures
match $r {
  Some(p) => old($self).inner.rest().len() > 0 && *p == *old($self).inner.rest()[0].node && final($self).inner.rest() == old($self).inner.rest().skip(1),
  None => old($self).inner.rest().len() == 0 && final($self).inner.rest() == old($self).inner.rest(),
},
//@end
//@fn <Nodes as Iterator>::size_hint props=C14
@ensures
$r.0 == $self.inner.rest().len(),
$r.1 == Some($r.0),
//@end
//@fn <Nodes as DoubleEndedIterator>::next_back props=C14
@ensures
match $r {
  Some(p) => old($self).inner.rest().len() > 0 && *p == *old($self).inner.rest().last().node && final($self).inner.rest() == old($self).inner.rest().drop_last(),
  None => old($self).inner.rest().len() == 0 && final($self).inner.rest() == old($self).inner.rest(),
},
//@end
//@fn <Nodes as ExactSizeIterator>::len props=C14
@ensures
$r == $self.inner.rest().len(),
//@end
//@fn ExactlyOneError::is_empty props=C14
@ensures
$r == ($self is Empty),
//@end
//@fn ExactlyOneError::is_more_than_one props=C14
@ensures
$r == ($self is MoreThanOne),
//@end
//@fn ExactlyOneError::as_more_than_one props=C14
@ensures
$r == (match *$self { ExactlyOneError::Empty => None::<usize>, ExactlyOneError::MoreThanOne(n) => Some(n) }),
//@end
}
pub use f_node::*;
