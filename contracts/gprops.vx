// ------------------------------------------------------------- what the grammar means: C17, C18, C20
pub mod vx_gprops {
use super::*;
broadcast use {vx_parse_axioms, vx_parse_lemmas};

/// one escape, after its backslash: the number of characters it takes, and the character it spells
pub open spec fn esc_dec(q: char, s: Seq<char>) -> Option<(int, char)> {
  if s.len() == 0 { None }
  else if g_simple(q, s[0]) is Some { Some((1, g_simple(q, s[0])->0)) }
  else if s[0] == 'u' && is_hex4(s, 1) {
    let v = hex4(s, 1);
    if !hi_sur(v) && !lo_sur(v) { Some((5, char_of(v))) }
    else if hi_sur(v) && at(s, 5, '\\') && at(s, 6, 'u') && is_hex4(s, 7) && lo_sur(hex4(s, 7)) {
      Some((11, char_of(0x10000 + (v - 0xD800) * 0x400 + (hex4(s, 7) - 0xDC00))))
    } else { None }
  } else { None }
}
/// RFC 9535, 2.3.1.1: character by character, up to the closing quote; with what follows that
pub open spec fn lit_dec(q: char, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>
  decreases s.len()
{
  if s.len() == 0 { None }
  else if s[0] == q { Some((s.skip(1), Seq::empty())) }
  else if s[0] == '\\' {
    match esc_dec(q, s.skip(1)) {
      Some((n, c)) => if 0 <= n <= s.len() - 1 { match lit_dec(q, s.skip(1 + n)) { Some((r, t)) => Some((r, seq![c] + t)), None => None } } else { None },
      None => None,
    }
  }
  else if s[0] >= '\u{20}' { match lit_dec(q, s.skip(1)) { Some((r, t)) => Some((r, seq![s[0]] + t)), None => None } }
  else { None }
}
pub open spec fn prep(t0: Seq<char>, x: Option<(Seq<char>, Seq<char>)>) -> Option<(Seq<char>, Seq<char>)> {
  match x { Some((r, t)) => Some((r, t0 + t)), None => None }
}
proof fn lem_run(q: char, s: Seq<char>, n: int)
  requires 0 <= n <= span(CC::Plain(q), s, 0, s.len() as int)
  ensures n <= s.len(), lit_dec(q, s) == prep(s.take(n), lit_dec(q, s.skip(n)))
  decreases n
{
  lem_span_bound(CC::Plain(q), s, 0, s.len() as int);
  if n > 0 {
    lem_span_in(CC::Plain(q), s, 0, s.len() as int, 0);
    let t = s.skip(1);
    lem_span_shift(CC::Plain(q), s, 1, t.len() as int);
    lem_span_step(CC::Plain(q), s);
    lem_run(q, t, n - 1);
    assert(t.skip(n - 1) =~= s.skip(n));
    match lit_dec(q, s.skip(n)) {
      Some((r, u)) => assert(seq![s[0]] + (t.take(n - 1) + u) =~= s.take(n) + u),
      None => {}
    }
  } else {
    assert(s.skip(0) =~= s);
    match lit_dec(q, s) { Some((r, u)) => assert(s.take(0) + u =~= u), None => {} }
  }
}
proof fn lem_span_in(k: CC, s: Seq<char>, i: int, hi: int, j: int)
  requires 0 <= i <= j < span(k, s, i, hi), span(k, s, i, hi) <= s.len()
  ensures inc(k, s[j])
  decreases s.len() - i
{ if i < j { lem_span_in(k, s, i + 1, hi, j); } }
proof fn lem_span_step(k: CC, s: Seq<char>)
  requires s.len() > 0, inc(k, s[0])
  ensures span(k, s, 0, s.len() as int) == span(k, s, 1, s.len() as int)
{ }
proof fn lem_escape(q: char, e: Seq<char>)
  ensures match esc_dec(q, e) { Some((k, c)) => 0 < k <= e.len() && g_escape(q, e) == PR::Ok(e.skip(k), seq![c]), None => g_escape(q, e) is Err }
{
  let u = e.skip(1);
  if e.len() > 0 {
    if u.len() > 3 { assert(u[0] == e[1] && u[1] == e[2] && u[2] == e[3] && u[3] == e[4]); }
    assert(is_hex4(u, 0) == is_hex4(e, 1));
    if u.len() >= 10 { assert(u[4] == e[5] && u[5] == e[6] && u[6] == e[7] && u[7] == e[8] && u[8] == e[9] && u[9] == e[10]); }
    if u.len() >= 4 {
      assert(hex4(u, 0) == hex4(e, 1));
      assert(u.skip(4) =~= e.skip(5));
    }
    if u.len() >= 10 {
      assert(is_hex4(u, 6) == is_hex4(e, 7)); assert(hex4(u, 6) == hex4(e, 7));
      assert(u.skip(10) =~= e.skip(11));
    }
  }
}
proof fn lem_internal(q: char, s: Seq<char>, acc: Seq<char>)
  requires q == '\'' || q == '"'
  ensures ({
    let g = g_internal(q, s, acc);
    &&& g is Ok
    &&& g matches PR::Ok(r, t) && (match lit_dec(q, s) {
      Some((r1, t1)) => at(r, 0, q) && r1 == r.skip(1) && t == acc + t1,
      None => !at(r, 0, q),
    })
  })
  decreases s.len()
{
  hide(g_escape); hide(esc_dec);
  let n = span(CC::Plain(q), s, 0, s.len() as int);
  lem_span_bound(CC::Plain(q), s, 0, s.len() as int);
  if n > 0 {
    assert(!at(s, 0, q) && !at(s, 0, '\\')) by { lem_span_in(CC::Plain(q), s, 0, s.len() as int, 0); }
    lem_internal(q, s.skip(n), acc + s.take(n));
    assert(g_internal(q, s, acc) == g_internal(q, s.skip(n), acc + s.take(n)));
    lem_run(q, s, n);
    assert(g_fragment(q, s) == PR::Ok(s.skip(n), s.take(n)));
    match lit_dec(q, s.skip(n)) { Some((r, u)) => assert((acc + s.take(n)) + u =~= acc + (s.take(n) + u)), None => {} }
  } else if at(s, 0, '\\') {
    let e = s.skip(1);
    lem_escape(q, e);
    assert(n == 0);
    assert(g_fragment(q, s) == g_escape(q, e));
    match esc_dec(q, e) {
      Some((k, c)) => {
        assert(e.skip(k) =~= s.skip(1 + k));
        lem_internal(q, e.skip(k), acc + seq![c]);
        assert(g_internal(q, s, acc) == g_internal(q, e.skip(k), acc + seq![c]));
        assert(lit_dec(q, s) == prep(seq![c], lit_dec(q, s.skip(1 + k))));
        match lit_dec(q, s.skip(1 + k)) { Some((r, t)) => assert((acc + seq![c]) + t =~= acc + (seq![c] + t)), None => {} }
      }
      None => { assert(acc + Seq::<char>::empty() =~= acc); }
    }
  } else {
    if s.len() > 0 { lem_step0(CC::Plain(q), s); }
    assert(g_fragment(q, s) is Err);
    assert(g_internal(q, s, acc) == PR::Ok(s, acc));
    assert(!at(s, 0, q) ==> lit_dec(q, s) is None);
    assert(acc + Seq::<char>::empty() =~= acc);
  }
}
/// C20: what a quoted text denotes
//@lemma lem_C20_denotes props=C20
pub proof fn lem_C20_denotes(q: char, s: Seq<char>)
  requires q == '\'' || q == '"'
  ensures g_quoted(q, s) == (if at(s, 0, q) { match lit_dec(q, s.skip(1)) { Some((r, t)) => PR::Ok(r, t), None => PR::Fail } } else { PR::Err })
{ if at(s, 0, q) { lem_internal(q, s.skip(1), seq![]); match lit_dec(q, s.skip(1)) { Some((r, t)) => assert(Seq::<char>::empty() + t =~= t), None => {} } } }
//@endlemma

/// C18: the position of an error is in the text
//@lemma lem_C18_inside props=C18
pub proof fn lem_C18_inside(s: Seq<char>, p: int)
  requires boundary(s, p)
  ensures 0 <= p <= utf8_len(s)
{
  let k = choose|k: int| 0 <= k <= s.len() && p == utf8_len(#[trigger] s.take(k));
  lem_utf8_mono(s, k);
}
//@endlemma
proof fn lem_utf8_mono(s: Seq<char>, k: int)
  requires 0 <= k <= s.len()
  ensures utf8_len(s.take(k)) <= utf8_len(s)
  decreases s.len()
{
  if k == s.len() { assert(s.take(k) =~= s); } else { assert(s.drop_last().take(k) =~= s.take(k)); lem_utf8_mono(s.drop_last(), k); }
}

/// C17: a query starts with the root, and takes the whole text
//@lemma lem_C17_whole props=C17
pub proof fn lem_C17_whole(s: Seq<char>)
  ensures g_main(s) matches PR::Ok(r, q) ==> r.len() == 0 && at(s, 0, '$') && q.kind is Root
{ u_root(s); }
//@endlemma
// name-first and name-char of RFC 9535, 2.5.1.1
pub open spec fn nm_first(c: char) -> bool { inc(CC::Alpha, c) || c == '_' || inc(CC::NonAscii, c) }
pub open spec fn nm_char(c: char) -> bool { nm_first(c) || inc(CC::Digit, c) }
pub open spec fn nm_span(s: Seq<char>, i: int) -> int
  decreases s.len() - i
{ if 0 <= i < s.len() && nm_char(s[i]) { nm_span(s, i + 1) } else { i } }
pub proof fn lem_nm_bound(s: Seq<char>, i: int)
  requires 0 <= i <= s.len()
  ensures i <= nm_span(s, i) <= s.len()
  decreases s.len() - i
{ if i < s.len() && nm_char(s[i]) { lem_nm_bound(s, i + 1); } }
pub proof fn lem_nm_run(s: Seq<char>, i: int, n: int)
  requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n ==> nm_char(#[trigger] s[j])
  ensures nm_span(s, i) == nm_span(s, n)
  decreases n - i
{ if i < n { assert(nm_char(s[i])); lem_nm_run(s, i + 1, n); } }
proof fn lem_nm_shift(s: Seq<char>, k: int, i: int)
  requires 0 <= k <= s.len(), 0 <= i <= s.len() - k
  ensures nm_span(s.skip(k), i) == nm_span(s, k + i) - k
  decreases s.len() - k - i
{ if i < s.len() - k && nm_char(s[k + i]) { lem_nm_shift(s, k, i + 1); } }
proof fn lem_class_run(k: CC, s: Seq<char>)
  requires k is Alpha || k is NonAscii || k is Digit
  ensures ({ let n = span(k, s, 0, s.len() as int); 0 <= n <= s.len() && nm_span(s, 0) == nm_span(s, n) && forall|j: int| 0 <= j < n ==> nm_char(#[trigger] s[j]) })
{
  let n = span(k, s, 0, s.len() as int);
  lem_span_bound(k, s, 0, s.len() as int);
  assert forall|j: int| 0 <= j < n implies nm_char(#[trigger] s[j]) by { lem_span_in(k, s, 0, s.len() as int, j); }
  lem_nm_run(s, 0, n);
}
proof fn lem_name_rest(s: Seq<char>, acc: Seq<char>)
  ensures g_name_rest(s, acc) == PR::Ok(s.skip(nm_span(s, 0)), acc + s.take(nm_span(s, 0)))
  decreases s.len()
{
  lem_nm_bound(s, 0);
  lem_class_run(CC::Digit, s); lem_class_run(CC::Alpha, s); lem_class_run(CC::NonAscii, s);
  match g_name_char(s) {
    PR::Ok(r, t) => {
      let n = t.len() as int;
      if at(s, 0, '_') && n == 1 && span(CC::Digit, s, 0, s.len() as int) == 0 && span(CC::Alpha, s, 0, s.len() as int) == 0 { lem_nm_run(s, 0, 1); }
      assert(r == s.skip(n) && t == s.take(n));
      assert(nm_span(s, 0) == nm_span(s, n));
      lem_name_rest(r, acc + t);
      lem_nm_shift(s, n, 0);
      let k = nm_span(r, 0);
      lem_nm_bound(r, 0);
      assert(r.skip(k) =~= s.skip(n + k));
      assert((acc + t) + r.take(k) =~= acc + s.take(n + k));
    }
    PR::Err => {
      if s.len() > 0 { lem_step0(CC::Digit, s); lem_step0(CC::Alpha, s); lem_step0(CC::NonAscii, s); }
      assert(nm_span(s, 0) == 0);
      assert(s.skip(0) =~= s); assert(acc + s.take(0) =~= acc);
    }
    PR::Fail => {}
  }
}
proof fn lem_step0(k: CC, s: Seq<char>)
  requires s.len() > 0
  ensures (span(k, s, 0, s.len() as int) > 0) == inc(k, s[0])
{ if inc(k, s[0]) { lem_span_bound(k, s, 1, s.len() as int); } }
/// C17: a name after a dot is a name-first character and all the name-char characters that follow
//@lemma lem_C17_name props=C17
pub proof fn lem_C17_name(s: Seq<char>)
  ensures g_dot_name(s) == (if s.len() > 0 && nm_first(s[0]) { PR::Ok(s.skip(nm_span(s, 0)), s.take(nm_span(s, 0))) } else { PR::Fail })
{
  lem_nm_bound(s, 0);
  if s.len() > 0 {
    lem_step0(CC::Alpha, s); lem_step0(CC::NonAscii, s);
    lem_class_run(CC::Alpha, s); lem_class_run(CC::NonAscii, s);
    match g_name_first(s) {
      PR::Ok(r, t) => {
        let n = t.len() as int;
        if n == 1 && s[0] == '_' { lem_nm_run(s, 0, 1); }
        assert(r == s.skip(n));
        assert(nm_span(s, 0) == nm_span(s, n));
        lem_name_rest(r, seq![]);
        lem_nm_shift(s, n, 0);
        lem_nm_bound(r, 0);
        assert(r.skip(nm_span(r, 0)) =~= s.skip(nm_span(s, 0)));
      }
      _ => {}
    }
  } else { lem_span_bound(CC::Alpha, s, 0, 0); lem_span_bound(CC::NonAscii, s, 0, 0); }
}
//@endlemma
} // mod vx_gprops
