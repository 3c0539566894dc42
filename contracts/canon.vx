// ------------------------------------------------------------- a normalized path parses back to its node: C16
pub mod vxcanon {
use super::*;
use super::vx_gprops::*;
use super::vx_props::*;
broadcast use {vx_axioms, vx_parse_axioms, vx_path_lemmas, vx_text_lemmas, vxmem::ax_vec_of, vxmem::ax_string_of};

/// the escaped text of a name from its i-th character
pub open spec fn esc_from(s: Seq<char>, i: int) -> Seq<char>
  decreases s.len() - i
{ if 0 <= i < s.len() { esc_char(s[i]) + esc_from(s, i + 1) } else { seq![] } }
pub proof fn lem_esc_from(s: Seq<char>, i: int)
  requires 0 <= i <= s.len()
  ensures esc_text(s, i) + esc_from(s, i) == esc_text(s, s.len() as int)
  decreases s.len() - i
{
  if i < s.len() {
    lem_esc_from(s, i + 1);
    vxtext::lem_esc_step(s, i + 1, i);
    assert(esc_text(s, i) + (esc_char(s[i]) + esc_from(s, i + 1)) =~= (esc_text(s, i) + esc_char(s[i])) + esc_from(s, i + 1));
  } else { assert(esc_text(s, i) + Seq::<char>::empty() =~= esc_text(s, i)); }
}
pub proof fn lem_hexd(n: nat)
  requires n < 16
  ensures inc(CC::Hex, hexd(n)), hexv(hexd(n)) == n
{ }
pub proof fn lem_char_of(c: char)
  ensures char_of(c as int) == c
{
  let d = char_of(c as int);
  assert(code(c) == c as int);
  assert(code(d) == c as int);
}
/// one escaped character is read back as the character
pub proof fn lem_esc_one(c: char, t: Seq<char>)
  ensures lit_dec('\'', esc_char(c) + t) == prep(seq![c], lit_dec('\'', t))
{
  let s = esc_char(c) + t;
  let n = esc_char(c).len() as int;
  assert(s.skip(n) =~= t);
  if esc_char(c) == seq![c] {
    assert(s[0] == c);
    assert(s.skip(1) == t);
    assert(c != '\'' && c != '\\');
    assert(c >= '\u{20}');
  } else {
    assert(s[0] == '\\');
    let e = s.skip(1);
    assert(s.skip(1 + (n - 1)) == t);
    if n == 2 {
      assert(e[0] == esc_char(c)[1]);
      assert(esc_dec('\'', e) == Some((1int, c)));
    } else {
      let m = c as nat;
      assert(m < 32);
      assert(n == 6);
      lem_hexd(m / 16); lem_hexd(m % 16); lem_char_of(c);
      assert(hexv('0') == 0);
      assert(e[0] == 'u' && e[1] == '0' && e[2] == '0' && e[3] == hexd(m / 16) && e[4] == hexd(m % 16));
      assert(is_hex4(e, 1));
      assert(hex4(e, 1) == m);
      assert(g_simple('\'', 'u') is None);
      assert(esc_dec('\'', e) == Some((5int, c)));
    }
  }
}
pub proof fn lem_esc_back(s: Seq<char>, i: int, rest: Seq<char>)
  requires 0 <= i <= s.len()
  ensures lit_dec('\'', esc_from(s, i) + (seq!['\''] + rest)) == Some((rest, s.skip(i)))
  decreases s.len() - i
{
  let tail = seq!['\''] + rest;
  if i < s.len() {
    lem_esc_back(s, i + 1, rest);
    lem_esc_one(s[i], esc_from(s, i + 1) + tail);
    assert((esc_char(s[i]) + esc_from(s, i + 1)) + tail =~= esc_char(s[i]) + (esc_from(s, i + 1) + tail));
    assert(seq![s[i]] + s.skip(i + 1) =~= s.skip(i));
  } else {
    assert(esc_from(s, i) + tail =~= tail);
    assert(tail.skip(1) =~= rest);
    assert(s.skip(i) =~= Seq::<char>::empty());
  }
}
/// a quoted name is a string literal that denotes the name
//@lemma lem_C16_name_reads_back props=C16
pub proof fn lem_C16_name_reads_back(s: Seq<char>, rest: Seq<char>)
  ensures g_string(quoted(s) + rest) == PR::Ok(rest, s)
{
  lem_esc_from(s, 0);
  assert(esc_text(s, 0) + esc_from(s, 0) =~= esc_from(s, 0));
  lem_esc_back(s, 0, rest);
  let t = quoted(s) + rest;
  assert(t[0] == '\'');
  assert(t.skip(1) =~= esc_from(s, 0) + (seq!['\''] + rest));
  assert(s.skip(0) =~= s);
  lem_C20_denotes('\'', t);
}
//@endlemma
pub proof fn lem_digits_val(t: Seq<char>)
  requires forall|i: int| 0 <= i < t.len() ==> is_digit(#[trigger] t[i])
  ensures digits_val(t) == Some(dec_val(t))
  decreases t.len()
{
  if t.len() > 0 {
    assert forall|i: int| 0 <= i < t.drop_last().len() implies is_digit(#[trigger] t.drop_last()[i]) by { assert(is_digit(t[i])); }
    lem_digits_val(t.drop_last());
    assert(is_digit(t[t.len() - 1]));
  }
}
proof fn lem_span_all(s: Seq<char>, i: int, n: int)
  requires 0 <= i <= n < s.len(), forall|k: int| i <= k < n ==> is_digit(#[trigger] s[k]), !is_digit(s[n])
  ensures span(CC::Digit, s, i, s.len() as int) == n
  decreases n - i
{ if i < n { lem_span_all(s, i + 1, n); } }
/// a decimal index is read back
//@lemma lem_C16_index_reads_back props=C16
pub proof fn lem_C16_index_reads_back(n: nat, rest: Seq<char>)
  requires n <= 9007199254740991
  ensures g_int(dec_digits(n) + (seq![']'] + rest)) == PR::Ok(seq![']'] + rest, mk_int(n as int)), is_digit((dec_digits(n) + (seq![']'] + rest))[0])
{
  let d = dec_digits(n);
  let tail = seq![']'] + rest;
  let t = d + tail;
  lem_dec(n);
  lem_digits_val(d);
  assert(t[0] == d[0]);
  assert(is_digit(d[0]));
  assert(t.skip(d.len() as int) =~= tail);
  assert(t.take(d.len() as int) =~= d);
  assert(d.len() > 1 ==> d[0] != '0');
  assert(int_of(d) == Some(n as int));
  if d[0] == '0' {
    assert(n == 0);
    assert(d.len() == 1);
  } else {
    assert forall|k: int| 1 <= k < d.len() implies is_digit(#[trigger] t[k]) by { assert(is_digit(d[k])); }
    assert(t[d.len() as int] == ']');
    lem_span_all(t, 1, d.len() as int);
  }
}
//@endlemma
/// an element of a path as a selector
pub open spec fn pe_sel(e: PE) -> Selector {
  match e { PE::N(k) => Selector::Name(Name(string_of(k))), PE::I(i) => Selector::Index(Index(mk_int(i))) }
}
pub open spec fn pe_seg(e: PE) -> QuerySegment { QuerySegment { kind: QuerySegmentKind::Child, segment: Segment::LongHand(vec_of(seq![pe_sel(e)])) } }
pub open spec fn pe_ok(e: PE) -> bool { match e { PE::N(k) => in_memory(k.len()), PE::I(i) => 0 <= i <= 9007199254740991 } }
pub proof fn lem_ws_none(s: Seq<char>)
  requires s.len() == 0 || !inc(CC::Ws, s[0])
  ensures ws(s) == s
{ reveal(ws); assert(s.skip(0) =~= s); }
pub open spec fn pe_body(e: PE) -> Seq<char> { match e { PE::N(s) => quoted(s), PE::I(i) => dec_digits(i as nat) } }
proof fn lem_selector_back(e: PE, rest: Seq<char>)
  requires pe_ok(e)
  ensures g_selector(pe_body(e) + (seq![']'] + rest)) == PR::Ok(seq![']'] + rest, pe_sel(e)),
    pe_body(e).len() > 0, pe_body(e)[0] == '\'' || is_digit(pe_body(e)[0]),
{
  let tail = seq![']'] + rest;
  let t = pe_body(e) + tail;
  u_selector(t);
  match e {
    PE::N(k) => { lem_C16_name_reads_back(k, tail); assert(t[0] == '\''); }
    PE::I(i) => {
      lem_C16_index_reads_back(i as nat, rest);
      lem_dec(i as nat);
      assert(t[0] == pe_body(e)[0]);
      assert(g_string(t) is Err);
      lem_ws_none(tail);
      assert(g_slice(t) is Err);
    }
  }
}
proof fn lem_segment_back(e: PE, rest: Seq<char>)
  requires pe_ok(e)
  ensures g_segment(elem_text(e) + rest) == PR::Ok(rest, pe_seg(e)), elem_text(e).len() > 0
{
  let tail = seq![']'] + rest;
  let t = elem_text(e) + rest;
  let b = pe_body(e) + tail;
  lem_selector_back(e, rest);
  assert(elem_text(e) =~= seq!['['] + pe_body(e) + seq![']']);
  assert(t[0] == '[');
  assert(t.skip(1) =~= b);
  assert(b[0] == pe_body(e)[0]);
  lem_ws_none(t); lem_ws_none(b); lem_ws_none(tail);
  u_segment(t); u_desc(t); u_child(t); u_longhand(t); u_multi(b); u_sels(tail, seq![pe_sel(e)]);
  assert(tail.skip(1) =~= rest);
  assert(!at(tail, 0, ','));
  assert(b.len() >= tail.len());
}
/// the text of a path from its i-th element
pub open spec fn npath_from(p: Seq<PE>, i: int) -> Seq<char>
  decreases p.len() - i
{ if 0 <= i < p.len() { elem_text(p[i]) + npath_from(p, i + 1) } else { seq![] } }
proof fn lem_npath_from(p: Seq<PE>, i: int)
  requires 0 <= i <= p.len()
  ensures npath(p, i) + npath_from(p, i) == npath(p, p.len() as int)
  decreases p.len() - i
{
  if i < p.len() {
    lem_npath_from(p, i + 1);
    vxtext::lem_npath_step(p, i + 1, i);
    assert(npath(p, i) + (elem_text(p[i]) + npath_from(p, i + 1)) =~= (npath(p, i) + elem_text(p[i])) + npath_from(p, i + 1));
  } else { assert(npath(p, i) + Seq::<char>::empty() =~= npath(p, i)); }
}
pub open spec fn pe_segs(p: Seq<PE>, n: int) -> Seq<QuerySegment> { Seq::new(n as nat, |i: int| pe_seg(p[i])) }
proof fn lem_segs_back(p: Seq<PE>, i: int)
  requires 0 <= i <= p.len(), forall|k: int| 0 <= k < p.len() ==> pe_ok(#[trigger] p[k])
  ensures g_segs(npath_from(p, i), pe_segs(p, i)) == PR::Ok(Seq::<char>::empty(), vec_of(pe_segs(p, p.len() as int)))
  decreases p.len() - i
{
  let t = npath_from(p, i);
  u_segs(t, pe_segs(p, i));
  if i < p.len() {
    lem_segment_back(p[i], npath_from(p, i + 1));
    lem_segs_back(p, i + 1);
    assert(pe_segs(p, i).push(pe_seg(p[i])) =~= pe_segs(p, i + 1));
  } else {
    lem_ws_none(t);
    u_segment(t); u_desc(t); u_child(t); u_longhand(t);
  }
}
/// the query that a normalized path is
pub open spec fn pe_query(p: Seq<PE>) -> Query { Query { kind: QueryKind::Root, segments: vec_of(pe_segs(p, p.len() as int)) } }
//@lemma lem_C16_path_parses props=C16
pub proof fn lem_C16_path_parses(p: Seq<PE>)
  requires forall|k: int| 0 <= k < p.len() ==> pe_ok(#[trigger] p[k])
  ensures g_main(npath(p, p.len() as int)) == PR::Ok(Seq::<char>::empty(), pe_query(p))
{
  lem_npath_from(p, 0);
  vxtext::lem_npath_none(p);
  let t = npath(p, p.len() as int);
  assert(t == seq!['$'] + npath_from(p, 0));
  assert(t[0] == '$');
  assert(t.skip(1) =~= npath_from(p, 0));
  u_root(t);
  assert(pe_segs(p, 0) =~= Seq::<QuerySegment>::empty());
  lem_segs_back(p, 0);
}
//@endlemma
proof fn lem_path_step(p: Seq<PE>, v: Value, n: int)
  requires 0 <= n <= p.len(), in_memory(p.len()), forall|k: int| 0 <= k < p.len() ==> pe_ok(#[trigger] p[k]), follow(v, p, n) is Some
  ensures rs_query(pe_query(p), v, v, n) == seq![(p.take(n), follow(v, p, n)->Some_0)]
  decreases n
{
  let q = pe_query(p);
  vxun::un_query0(q, v, v);
  if n > 0 {
    lem_path_step(p, v, n - 1);
    let w = follow(v, p, n - 1)->Some_0;
    let x = follow(v, p, n)->Some_0;
    let qs = q.segments@[n - 1];
    let l = rs_query(q, v, v, n - 1);
    assert(qs == pe_seg(p[n - 1]));
    vxun::un_query(q, v, v, n, n - 1);
    vxun::un_flat0(qs, l, v);
    vxun::un_flat(qs, l, v, 1, 0);
    let sel = seq![pe_sel(p[n - 1])];
    vxun::un_qseg(qs, w, v);
    vxun::un_seg(qs.segment, w, v);
    assert(qs.segment->LongHand_0@ == sel);
    vxun::un_sels0(qs.segment, w, v);
    vxun::un_sels(qs.segment, w, v, 1, 0);
    vxun::un_sel(sel[0], w, v);
    let one = seq![(seq![p[n - 1]], x)];
    assert(pe_ok(p[n - 1]));
    assert(rs_sel(sel[0], w, v) =~= one);
    assert(rs_sels(qs.segment, w, v, 1) =~= one);
    assert(p.take(n) =~= p.take(n - 1) + seq![p[n - 1]]);
    assert(rs_query(q, v, v, n) =~= seq![(p.take(n), x)]);
  } else {
    assert(p.take(0) =~= Seq::<PE>::empty());
  }
}
/// C16: the text of a location parses, and selects exactly the node at that location
//@lemma lem_C16_selects_its_node props=C16
pub proof fn lem_C16_selects_its_node(p: Seq<PE>, v: Value)
  requires in_memory(p.len()), forall|k: int| 0 <= k < p.len() ==> pe_ok(#[trigger] p[k]), resolve(v, p) is Some
  ensures
    g_main(npath(p, p.len() as int)) == PR::Ok(Seq::<char>::empty(), pe_query(p)),
    rs(pe_query(p), v, v) == seq![(p, resolve(v, p)->Some_0)],
{
  lem_C16_path_parses(p);
  lem_path_step(p, v, p.len() as int);
  vxun::un_rs(pe_query(p), v, v);
  assert(p.take(p.len() as int) =~= p);
}
//@endlemma
}
