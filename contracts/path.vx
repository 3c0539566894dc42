// ------------------------------------------------------------- locations and nodes

//@type PathElement
//@type NormalizedPath
//@type LocatedNode
//@type NodeList
//@type LocatedNodeList
//@derive NormalizedPath Clone
//@derive NormalizedPath Default
//@derive PathElement Clone
//@derive PathElement PartialEq
//@derive NormalizedPath PartialEq=NormalizedPath_eq
//@derive NormalizedPath PartialOrd=NormalizedPath_cmp
//@derive LocatedNode PartialEq=LocatedNode_eq
//@derive LocatedNode Clone
//@derive NodeList Clone
//@derive NodeList Default
//@derive LocatedNodeList Default

pub open spec fn NodeList_default(r: NodeList) -> bool { r.0@.len() == 0 }
pub open spec fn LocatedNodeList_default(r: LocatedNodeList) -> bool { r.0@.len() == 0 }
/// one step of a location
pub enum PE { N(Seq<char>), I(int) }
pub type RS = Seq<(Seq<PE>, Value)>;
pub open spec fn pe(e: PathElement) -> PE {
  match e { PathElement::Name(s) => PE::N(s@), PathElement::Index(i) => PE::I(i as int) }
}
pub open spec fn pview(p: NormalizedPath) -> Seq<PE> { Seq::new(p.0@.len(), |i: int| pe(p.0@[i])) }
pub open spec fn NormalizedPath_default(p: NormalizedPath) -> bool { p.0@.len() == 0 }
pub open spec fn lv(n: LocatedNode) -> (Seq<PE>, Value) { (pview(n.loc), *n.node) }
// element-wise order of locations
pub open spec fn char_cmp(a: Seq<char>, b: Seq<char>) -> Ordering {
  if str_lt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn int_cmp(a: int, b: int) -> Ordering {
  if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn pe_cmp(a: PE, b: PE) -> Option<Ordering> {
  match (a, b) {
    (PE::N(x), PE::N(y)) => Some(char_cmp(x, y)),
    (PE::I(x), PE::I(y)) => Some(int_cmp(x, y)),
    _ => None,
  }
}
pub open spec fn path_cmp(p: Seq<PE>, q: Seq<PE>) -> Option<Ordering>
  decreases p.len()
{
  if p.len() == 0 { Some(if q.len() == 0 { Ordering::Equal } else { Ordering::Less }) }
  else if q.len() == 0 { Some(Ordering::Greater) }
  else {
    match pe_cmp(p[0], q[0]) {
      Some(Ordering::Equal) => path_cmp(p.skip(1), q.skip(1)),
      o => o,
    }
  }
}
/// what the derived functions compute (`Vec` compares element by element)
pub open spec fn NormalizedPath_eq(a: NormalizedPath, b: NormalizedPath) -> bool { pview(a) == pview(b) }
pub open spec fn NormalizedPath_cmp(a: NormalizedPath, b: NormalizedPath) -> Option<Ordering> { path_cmp(pview(a), pview(b)) }
pub open spec fn LocatedNode_eq(a: LocatedNode, b: LocatedNode) -> bool { pview(a.loc) == pview(b.loc) && sj_eq(*a.node, *b.node) }
#[verifier::opaque]
pub open spec fn lvals(s: Seq<LocatedNode>) -> RS { Seq::new(s.len(), |i: int| lv(s[i])) }
#[verifier::opaque]
pub open spec fn nodes(s: RS) -> Seq<Value> { Seq::new(s.len(), |i: int| s[i].1) }
/// the same nodes seen from further up
#[verifier::opaque]
pub open spec fn prefix(s: RS, p: Seq<PE>) -> RS { Seq::new(s.len(), |i: int| (p + s[i].0, s[i].1)) }

pub mod vxpath {
use super::*;
pub broadcast proof fn lem_lvals_len(s: Seq<LocatedNode>)
  ensures (#[trigger] lvals(s)).len() == s.len()
{ reveal(lvals); }
pub broadcast proof fn lem_lvals_index(s: Seq<LocatedNode>, i: int)
  requires 0 <= i < s.len()
  ensures #[trigger] lvals(s)[i] == lv(s[i])
{ reveal(lvals); }
pub broadcast proof fn lem_nodes_len(s: RS)
  ensures (#[trigger] nodes(s)).len() == s.len()
{ reveal(nodes); }
pub broadcast proof fn lem_nodes_index(s: RS, i: int)
  requires 0 <= i < s.len()
  ensures #[trigger] nodes(s)[i] == s[i].1
{ reveal(nodes); }
pub broadcast proof fn lem_prefix_len(s: RS, p: Seq<PE>)
  ensures (#[trigger] prefix(s, p)).len() == s.len()
{ reveal(prefix); }
pub broadcast proof fn lem_prefix_index(s: RS, p: Seq<PE>, i: int)
  requires 0 <= i < s.len()
  ensures #[trigger] prefix(s, p)[i] == (p + s[i].0, s[i].1)
{ reveal(prefix); }
pub broadcast proof fn lem_lvals_push(s: Seq<LocatedNode>, x: LocatedNode)
  ensures #[trigger] lvals(s.push(x)) == lvals(s).push(lv(x))
{ reveal(lvals);  assert(lvals(s.push(x)) =~= lvals(s).push(lv(x))); }
pub broadcast proof fn lem_lvals_add(s: Seq<LocatedNode>, t: Seq<LocatedNode>)
  ensures #[trigger] lvals(s + t) == lvals(s) + lvals(t)
{ reveal(lvals);  assert(lvals(s + t) =~= lvals(s) + lvals(t)); }
pub broadcast proof fn lem_lvals_empty()
  ensures #[trigger] lvals(Seq::<LocatedNode>::empty()) == Seq::<(Seq<PE>, Value)>::empty()
{ reveal(lvals);  assert(lvals(Seq::<LocatedNode>::empty()) =~= Seq::<(Seq<PE>, Value)>::empty()); }
pub broadcast proof fn lem_nodes_push(s: RS, x: (Seq<PE>, Value))
  ensures #[trigger] nodes(s.push(x)) == nodes(s).push(x.1)
{ reveal(nodes);  assert(nodes(s.push(x)) =~= nodes(s).push(x.1)); }
pub broadcast proof fn lem_nodes_add(s: RS, t: RS)
  ensures #[trigger] nodes(s + t) == nodes(s) + nodes(t)
{ reveal(nodes);  assert(nodes(s + t) =~= nodes(s) + nodes(t)); }
pub broadcast proof fn lem_nodes_empty()
  ensures #[trigger] nodes(Seq::<(Seq<PE>, Value)>::empty()) == Seq::<Value>::empty()
{ reveal(nodes);  assert(nodes(Seq::<(Seq<PE>, Value)>::empty()) =~= Seq::<Value>::empty()); }
pub broadcast proof fn lem_nodes_prefix(s: RS, p: Seq<PE>)
  ensures #[trigger] nodes(prefix(s, p)) == nodes(s)
{ reveal(nodes); reveal(prefix);  assert(nodes(prefix(s, p)) =~= nodes(s)); }
pub broadcast proof fn lem_prefix_push(s: RS, x: (Seq<PE>, Value), p: Seq<PE>)
  ensures #[trigger] prefix(s.push(x), p) == prefix(s, p).push((p + x.0, x.1))
{ reveal(prefix);  assert(prefix(s.push(x), p) =~= prefix(s, p).push((p + x.0, x.1))); }
pub broadcast proof fn lem_prefix_add(s: RS, t: RS, p: Seq<PE>)
  ensures #[trigger] prefix(s + t, p) == prefix(s, p) + prefix(t, p)
{ reveal(prefix);  assert(prefix(s + t, p) =~= prefix(s, p) + prefix(t, p)); }
pub broadcast proof fn lem_prefix_empty(p: Seq<PE>)
  ensures #[trigger] prefix(Seq::<(Seq<PE>, Value)>::empty(), p) == Seq::<(Seq<PE>, Value)>::empty()
{ reveal(prefix);  assert(prefix(Seq::<(Seq<PE>, Value)>::empty(), p) =~= Seq::<(Seq<PE>, Value)>::empty()); }
pub broadcast proof fn lem_prefix_prefix(s: RS, p: Seq<PE>, q: Seq<PE>, w: Seq<PE>)
  requires w == q + p
  ensures #![trigger prefix(prefix(s, p), q), prefix(s, w)] prefix(prefix(s, p), q) == prefix(s, w)
{ reveal(prefix); 
  assert forall|i: int| 0 <= i < s.len() implies prefix(prefix(s, p), q)[i] == prefix(s, w)[i] by {
    assert(q + (p + s[i].0) =~= (q + p) + s[i].0);
  }
  assert(prefix(prefix(s, p), q) =~= prefix(s, w));
}
pub broadcast proof fn lem_prefix_none(s: RS)
  ensures #[trigger] prefix(s, Seq::<PE>::empty()) == s
{ reveal(prefix); 
  let p = Seq::<PE>::empty();
  assert forall|i: int| 0 <= i < s.len() implies prefix(s, p)[i] == s[i] by {
    assert(p + s[i].0 =~= s[i].0);
  }
  assert(prefix(s, p) =~= s);
}
pub broadcast proof fn lem_pview_push(p: NormalizedPath, q: NormalizedPath, e: PathElement)
  requires q.0@ == #[trigger] p.0@.push(e)
  ensures #[trigger] pview(q) == pview(p).push(pe(e))
{ assert(pview(q) =~= pview(p).push(pe(e))); }
pub broadcast proof fn lem_pview_empty(p: NormalizedPath)
  requires p.0@.len() == 0
  ensures #[trigger] pview(p) == Seq::<PE>::empty()
{ assert(pview(p) =~= Seq::<PE>::empty()); }
} // mod vxpath
pub broadcast group vx_path_lemmas {
  vxpath::lem_lvals_len, vxpath::lem_lvals_index, vxpath::lem_nodes_len, vxpath::lem_nodes_index, vxpath::lem_prefix_len, vxpath::lem_prefix_index,
  vxpath::lem_lvals_push, vxpath::lem_lvals_add, vxpath::lem_lvals_empty, vxpath::lem_nodes_push, vxpath::lem_nodes_add,
  vxpath::lem_nodes_empty, vxpath::lem_nodes_prefix, vxpath::lem_prefix_push, vxpath::lem_prefix_add, vxpath::lem_prefix_empty,
  vxpath::lem_prefix_prefix, vxpath::lem_prefix_none, vxpath::lem_pview_push, vxpath::lem_pview_empty,
}

// ---- JSON Pointers (RFC 6901) and the canonical form (RFC 9535 section 2.7.1)

pub open spec fn ptr_tok(e: PE) -> Seq<char> {
  match e {
    PE::N(s) => replace_char(replace_char(s, '~', seq!['~', '0']), '/', seq!['~', '1']),
    PE::I(i) => dec_digits(i as nat),
  }
}
/// RFC 6901 escaping, character by character; `lem_ptr_esc`: it is what the two replacements give
pub open spec fn ptr_char(c: char) -> Seq<char> { if c == '~' { seq!['~', '0'] } else if c == '/' { seq!['~', '1'] } else { seq![c] } }
#[verifier::opaque]
pub open spec fn ptr_esc(s: Seq<char>, n: int) -> Seq<char>
  decreases n
{
  if n <= 0 { Seq::<char>::empty() } else { ptr_esc(s, n - 1) + ptr_char(s[n - 1]) }
}
#[verifier::opaque]
pub open spec fn ptr(p: Seq<PE>, n: int) -> Seq<char>
  decreases n
{
  if n <= 0 { Seq::<char>::empty() } else { ptr(p, n - 1).push('/') + ptr_tok(p[n - 1]) }
}
pub open spec fn esc_char(c: char) -> Seq<char> {
  if c == '\u{8}' { seq!['\\', 'b'] }
  else if c == '\u{9}' { seq!['\\', 't'] }
  else if c == '\u{a}' { seq!['\\', 'n'] }
  else if c == '\u{c}' { seq!['\\', 'f'] }
  else if c == '\u{d}' { seq!['\\', 'r'] }
  else if c == '\'' { seq!['\\', '\''] }
  else if c == '\\' { seq!['\\', '\\'] }
  else if (c as u32) < 32 { seq!['\\', 'u', '0', '0', hexd((c as u32 / 16) as nat), hexd((c as u32 % 16) as nat)] }
  else { seq![c] }
}
#[verifier::opaque]
pub open spec fn esc_text(s: Seq<char>, n: int) -> Seq<char>
  decreases n
{
  if n <= 0 { Seq::<char>::empty() } else { esc_text(s, n - 1) + esc_char(s[n - 1]) }
}
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { seq!['\''] + esc_text(s, s.len() as int) + seq!['\''] }
pub open spec fn elem_text(e: PE) -> Seq<char> {
  match e {
    PE::N(s) => seq!['['] + quoted(s) + seq![']'],
    PE::I(i) => seq!['['] + dec_digits(i as nat) + seq![']'],
  }
}
#[verifier::opaque]
pub open spec fn npath(p: Seq<PE>, n: int) -> Seq<char>
  decreases n
{
  if n <= 0 { seq!['$'] } else { npath(p, n - 1) + elem_text(p[n - 1]) }
}
pub mod vxtext {
use super::*;
pub broadcast proof fn lem_ptr_step(p: Seq<PE>, n: int, m: int)
  requires n > 0, m == n - 1
  ensures #![trigger ptr(p, n), ptr(p, m)] ptr(p, n) == ptr(p, m).push('/') + ptr_tok(p[m])
{ reveal_with_fuel(ptr, 2); }
pub broadcast proof fn lem_ptr_none(p: Seq<PE>)
  ensures #[trigger] ptr(p, 0) == Seq::<char>::empty()
{ reveal(ptr); }
pub broadcast proof fn lem_esc_step(p: Seq<char>, n: int, m: int)
  requires n > 0, m == n - 1
  ensures #![trigger esc_text(p, n), esc_text(p, m)] esc_text(p, n) == esc_text(p, m) + esc_char(p[m])
{ reveal_with_fuel(esc_text, 2); }
pub broadcast proof fn lem_esc_none(p: Seq<char>)
  ensures #[trigger] esc_text(p, 0) == Seq::<char>::empty()
{ reveal(esc_text); }
pub broadcast proof fn lem_npath_step(p: Seq<PE>, n: int, m: int)
  requires n > 0, m == n - 1
  ensures #![trigger npath(p, n), npath(p, m)] npath(p, n) == npath(p, m) + elem_text(p[m])
{ reveal_with_fuel(npath, 2); }
pub broadcast proof fn lem_npath_none(p: Seq<PE>)
  ensures #[trigger] npath(p, 0) == seq!['$']
{ reveal(npath); }
pub broadcast proof fn lem_hex_pad(n: nat)
  requires n < 256
  ensures #[trigger] hex_pad(n, 4) == seq!['0', '0', hexd(n / 16), hexd(n % 16)]
{
  reveal_with_fuel(hex_digits, 3);
  assert(hex_pad(n, 4) =~= seq!['0', '0', hexd(n / 16), hexd(n % 16)]);
}
pub broadcast proof fn lem_ptr_esc_step(p: Seq<char>, n: int, m: int)
  requires n > 0, m == n - 1
  ensures #![trigger ptr_esc(p, n), ptr_esc(p, m)] ptr_esc(p, n) == ptr_esc(p, m) + ptr_char(p[m])
{ reveal_with_fuel(ptr_esc, 2); }
pub broadcast proof fn lem_ptr_esc_none(p: Seq<char>)
  ensures #[trigger] ptr_esc(p, 0) == Seq::<char>::empty()
{ reveal(ptr_esc); }
proof fn lem_replace_cat(a: Seq<char>, b: Seq<char>, c: char, by: Seq<char>)
  ensures replace_char(a + b, c, by) == replace_char(a, c, by) + replace_char(b, c, by)
  decreases b.len()
{
  if b.len() == 0 {
    assert(a + b =~= a);
    assert(replace_char(a, c, by) + replace_char(b, c, by) =~= replace_char(a, c, by));
  } else {
    lem_replace_cat(a, b.drop_last(), c, by);
    assert((a + b).drop_last() =~= a + b.drop_last());
    assert(replace_char(a + b, c, by) =~= replace_char(a, c, by) + replace_char(b, c, by));
  }
}
proof fn lem_ptr_esc_take(s: Seq<char>, n: int)
  requires 0 <= n <= s.len()
  ensures ptr_esc(s, n) == replace_char(replace_char(s.take(n), '~', seq!['~', '0']), '/', seq!['~', '1'])
  decreases n
{
  if n == 0 {
    lem_ptr_esc_none(s);
    assert(s.take(0) =~= Seq::<char>::empty());
  } else {
    lem_ptr_esc_take(s, n - 1);
    lem_ptr_esc_step(s, n, n - 1);
    let c = s[n - 1];
    assert(s.take(n).drop_last() =~= s.take(n - 1));
    let one = if c == '~' { seq!['~', '0'] } else { seq![c] };
    lem_replace_cat(replace_char(s.take(n - 1), '~', seq!['~', '0']), one, '/', seq!['~', '1']);
    reveal_with_fuel(replace_char, 4);
    assert(one.drop_last().len() == one.len() - 1);
    assert(replace_char(one, '/', seq!['~', '1']) =~= ptr_char(c));
  }
}
pub broadcast proof fn lem_ptr_esc(s: Seq<char>)
  ensures #[trigger] ptr_esc(s, s.len() as int) == replace_char(replace_char(s, '~', seq!['~', '0']), '/', seq!['~', '1'])
{
  lem_ptr_esc_take(s, s.len() as int);
  assert(s.take(s.len() as int) =~= s);
}
pub broadcast proof fn lem_replace_absent(s: Seq<char>, c: char, by: Seq<char>)
  requires !s.contains(c)
  ensures #[trigger] replace_char(s, c, by) == s
  decreases s.len()
{
  if s.len() > 0 {
    assert(s.contains(s.last()));
    assert forall|x: char| s.drop_last().contains(x) implies s.contains(x) by {
      let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x;
      assert(s[i] == x);
    }
    lem_replace_absent(s.drop_last(), c, by);
    assert(s.drop_last().push(s.last()) =~= s);
  }
}
} // mod vxtext
pub broadcast group vx_text_lemmas {
  vxtext::lem_ptr_step, vxtext::lem_ptr_none, vxtext::lem_esc_step, vxtext::lem_esc_none, vxtext::lem_npath_step, vxtext::lem_npath_none, vxtext::lem_hex_pad,
  vxtext::lem_ptr_esc_step, vxtext::lem_ptr_esc_none, vxtext::lem_ptr_esc, vxtext::lem_replace_absent,
}
pub mod f_text {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_concat, vx_path_lemmas, vx_text_lemmas};
//@fn PathElement::to_json_pointer props=C15
@ensures
$r@ == ptr_tok(pe(*$self)),
@loop char for
@inv
$ACC@ == ptr_esc($S, $I as int),
@loop char
@inv
$ACC@ == ptr_esc($S, $I as int),
//@end
//@fn NormalizedPath::to_json_pointer props=C15
@ensures
$r@ == ptr(pview(*$self), pview(*$self).len() as int),
@loop PathElement
@inv
$ACC@ == ptr(pview(*self), $I as int),
//@end
//@fn fmt_quoted props=C16,C19
@ensures
$r is Ok,
final($2).buf() == old($2).buf() + quoted($1@),
@loop char for
@inv
$2.buf() == old($2).buf() + seq!['\''] + esc_text($1@, $I as int),
//@end
//@fn <NormalizedPath as Display>::fmt props=C16
@ensures
$r is Ok,
final($1).buf() == old($1).buf() + npath(pview(*$self), pview(*$self).len() as int),
@loop PathElement for
@inv
$1.buf() == old($1).buf() + npath(pview(*$self), $I as int),
//@end
}
pub use f_text::*;

pub mod f_path {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_int_axioms, vx_path_lemmas};
//@fn NormalizedPath::is_empty props=C14
@ensures
$r == (pview(*$self).len() == 0),
//@end
//@fn NormalizedPath::len props=C14
@ensures
$r == pview(*$self).len(),
//@end
//@fn NormalizedPath::iter props=C06
@ensures
$r.rest() == $self.0@,
//@end
//@fn NormalizedPath::first props=C06
@ensures
match $r { Some(e) => $self.0@.len() > 0 && *e == $self.0@[0], None => $self.0@.len() == 0 },
//@end
//@fn NormalizedPath::last props=C06
@ensures
match $r { Some(e) => $self.0@.len() > 0 && *e == $self.0@.last(), None => $self.0@.len() == 0 },
//@end
//@fn NormalizedPath::get props=C06
@inst
I::Output PathElement<'a>
I usize
@ensures
match $r { Some(e) => ($1 as int) < $self.0@.len() && *e == $self.0@[$1 as int], None => $1 as int >= $self.0@.len() },
//@end
//@fn <NormalizedPath as IntoIterator>::into_iter props=C06
@ensures
$r.rest() == $self.0@,
//@end
//@fn PathElement::as_name props=C06
@ensures
match $r { Some(n) => pe(*$self) == PE::N(n@), None => $self is Index },
//@end
//@fn PathElement::as_index props=C06
@ensures
match $r { Some(n) => pe(*$self) == PE::I(n as int), None => $self is Name },
//@end
//@fn PathElement::is_name props=C06
@ensures
$r == ($self is Name),
//@end
//@fn PathElement::is_index props=C06
@ensures
$r == ($self is Index),
//@end
//@fn <PathElement as From<&String>>::from props=C05,C06
@spec
open spec fn from_post(v: &'a String, r: Self) -> bool { pe(r) == PE::N(v@) }
//@end
//@fn <PathElement as From<usize>>::from props=C05,C06
@spec
open spec fn from_post(v: usize, r: Self) -> bool { pe(r) == PE::I(v as int) }
//@end
//@fn <PathElement as PartialOrd>::partial_cmp props=C13
@ensures
$r == pe_cmp(pe(*$self), pe(*$1)),
//@end
//@fn <PathElement as PartialEq<str>>::eq props=C06 mode=as:eq_str
@ensures
$r == (pe(*$self) == PE::N($1@)),
//@end
//@fn <PathElement as PartialEq<&str>>::eq props=C06 mode=as:eq_ref
@ensures
$r == (pe(*$self) == PE::N($1@)),
//@end
//@fn <PathElement as PartialEq<usize>>::eq props=C06 mode=as:eq_index
@ensures
$r == (pe(*$self) == PE::I(*$1 as int)),
//@end
//@fn NormalizedPath::push props=C05,C06
@requires
T::into_pre($1),
@ensures
exists|e: PathElement| T::into_post($1, e) && #[trigger] final($self).0@ == old($self).0@.push(e),
//@end
//@fn NormalizedPath::clone_and_push props=C05,C06
@requires
T::into_pre($1),
@ensures
exists|e: PathElement| T::into_post($1, e) && #[trigger] $r.0@ == $self.0@.push(e),
//@end
}
pub use f_path::*;
