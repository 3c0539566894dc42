// ------------------------------------------------------------- the parser
// nom's types and primitive parsers (trusted, after their documentation); its combinators are replaced
// by their definitions by the extractor. A rest of the input is modelled by value, as a suffix of it.
pub enum Nerr<E> { Incomplete(u8), Error(E), Failure(E) }
pub enum ErrorKind { Tag, MapRes, MapOpt, Alt, IsNot, IsA, SeparatedList, SeparatedNonEmptyList, Many0, Many1, ManyTill, Count, TakeUntil, LengthValue, TagClosure, Alpha, Digit, HexDigit, OctDigit, AlphaNumeric, Space, MultiSpace, LengthValueFn, Eof, Switch, TagBits, OneOf, NoneOf, Char, CrLf, RegexpMatch, RegexpMatches, RegexpFind, RegexpCapture, RegexpCaptures, TakeWhile1, Complete, Fix, Escaped, EscapedTransform, NonEmpty, ManyMN, Not, Permutation, Verify, TakeTill1, TakeWhileMN, TooLarge, Many0Count, Many1Count, Float, Satisfy, Fail }

pub type PResult<'a, O> = Result<(&'a str, O), Nerr<Error<&'a str>>>;
//@static vx_p_digit0 (&str, &str)
//@static vx_p_digit1 Option<(&str, &str)>
//@static vx_p_alpha0 (&str, &str)
//@static vx_p_alpha1 Option<(&str, &str)>
//@static vx_p_hex_digit0 (&str, &str)
//@static vx_p_hex_digit1 Option<(&str, &str)>
//@static vx_p_multispace0 (&str, &str)
//@static vx_p_multispace1 Option<(&str, &str)>
//@static vx_p_char Option<(&str, char)>
//@static vx_p_one_of Option<(&str, char)>
//@static vx_p_none_of Option<(&str, char)>
//@static vx_p_anychar Option<(&str, char)>
//@static vx_p_tag Option<(&str, &str)>
//@static vx_p_consumed &str
//@static vx_p_at_end bool
//@static vx_p_same_len bool

pub mod vxg {
use super::*;
pub broadcast group vx_parse_axioms { ax_vec_ext, vx_axioms, vx_int_axioms }
pub broadcast group vx_parse_lemmas { lem_sfx_refl, lem_sfx_trans, lem_sfx_skip, lem_span_bound, lem_span_end, lem_span_shift, lem_skip_skip, lem_skip_take, lem_starts, lem_isin }

/// vectors with the same items are equal
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_vec_ext<T>(a: Vec<T>)
  ensures vec_of(#[trigger] a@) == a;

/// r is the end of s
#[verifier::opaque]
pub open spec fn sfx(r: Seq<char>, s: Seq<char>) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) }
pub broadcast proof fn lem_sfx_refl(s: Seq<char>)
  ensures #[trigger] sfx(s, s)
{ reveal(sfx); assert(s =~= s.skip(0)); }
pub broadcast proof fn lem_sfx_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
  requires #[trigger] sfx(a, b), #[trigger] sfx(b, c)
  ensures sfx(a, c)
{ reveal(sfx); assert(a =~= c.skip(c.len() - a.len())); }
pub broadcast proof fn lem_sfx_skip(s: Seq<char>, n: int)
  requires 0 <= n <= s.len()
  ensures sfx(#[trigger] s.skip(n), s)
{ reveal(sfx); }
pub proof fn lem_sfx_len(a: Seq<char>, b: Seq<char>)
  requires sfx(a, b)
  ensures a.len() <= b.len()
{ reveal(sfx); }

// character classes
pub enum CC { Digit, NonZero, Hex, Alpha, NonAscii, Ws, Plain(char), AlphaNum, Blank }
pub open spec fn inc(k: CC, c: char) -> bool {
  match k {
    CC::Digit => '0' <= c && c <= '9',
    CC::NonZero => '1' <= c && c <= '9',
    CC::AlphaNum => ('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z'),
    CC::Blank => c == ' ' || c == '\t',
    CC::Hex => ('0' <= c && c <= '9') || ('A' <= c && c <= 'F') || ('a' <= c && c <= 'f'),
    CC::Alpha => ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z'),
    CC::NonAscii => '\u{80}' <= c,
    CC::Ws => c == ' ' || c == '\t' || c == '\r' || c == '\n',
    // neither a control character, nor a backslash, nor the quote
    CC::Plain(q) => '\u{20}' <= c && c != '\\' && c != q,
  }
}
/// the index after the characters of a class from index i, at most up to hi
pub open spec fn span(k: CC, s: Seq<char>, i: int, hi: int) -> int
  decreases s.len() - i
{
  if 0 <= i < s.len() && i < hi && inc(k, s[i]) { span(k, s, i + 1, hi) } else { i }
}
pub broadcast proof fn lem_span_bound(k: CC, s: Seq<char>, i: int, hi: int)
  requires 0 <= i <= s.len()
  ensures i <= #[trigger] span(k, s, i, hi) <= s.len()
  decreases s.len() - i
{ if i < s.len() && i < hi && inc(k, s[i]) { lem_span_bound(k, s, i + 1, hi); } }

pub broadcast proof fn lem_span_end(k: CC, s: Seq<char>, i: int, hi: int)
  requires i >= hi || i >= s.len() || i < 0 || !inc(k, s[i])
  ensures #[trigger] span(k, s, i, hi) == i
{ }
proof fn lem_shift(k: CC, s: Seq<char>, j: int, i: int, hi: int)
  requires 0 <= j <= s.len(), 0 <= i <= s.len() - j
  ensures span(k, s.skip(j), i, hi) == span(k, s, j + i, j + hi) - j
  decreases s.len() - j - i
{ if i < s.len() - j && i < hi && inc(k, s[j + i]) { lem_shift(k, s, j, i + 1, hi); } }
pub broadcast proof fn lem_span_shift(k: CC, s: Seq<char>, j: int, hi: int)
  requires 0 <= j <= s.len()
  ensures #[trigger] span(k, s.skip(j), 0, hi) == span(k, s, j, j + hi) - j
{ lem_shift(k, s, j, 0, hi); }
pub broadcast proof fn lem_skip_skip(s: Seq<char>, a: int, b: int)
  requires 0 <= a, 0 <= b, a + b <= s.len()
  ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn lem_skip_take(s: Seq<char>, a: int, b: int)
  requires 0 <= a, 0 <= b, a + b <= s.len()
  ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b)
{ assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
pub broadcast proof fn lem_starts(s: Seq<char>, t: Seq<char>)
  ensures #[trigger] starts(s, t) ==> s.take(t.len() as int) == t,
    t.len() == 1 ==> starts(s, t) == at(s, 0, t[0]),
    t.len() == 2 ==> starts(s, t) == (at(s, 0, t[0]) && at(s, 1, t[1])),
{
  if starts(s, t) { assert(s.take(t.len() as int) =~= t); }
}
pub broadcast proof fn lem_isin(c: char, l: Seq<char>)
  ensures l.len() == 0 ==> !#[trigger] isin(c, l), l.len() > 0 ==> isin(c, l) == (c == l[0] || isin(c, l.skip(1)))
{
  reveal(isin);
  if isin(c, l) && l.len() > 0 && c != l[0] {
    let i = choose|i: int| 0 <= i < l.len() && l[i] == c;
    assert(l.skip(1)[i - 1] == c);
  }
  if l.len() > 0 && isin(c, l.skip(1)) {
    let i = choose|i: int| 0 <= i < l.skip(1).len() && l.skip(1)[i] == c;
    assert(l[i + 1] == c);
  }
}
/// what a parser gives: the rest and the value, an error from which an alternative may recover, or one from which none may
pub enum PR<A> { Ok(Seq<char>, A), Err, Fail }
pub open spec fn ein(e: Error<&str>, s: Seq<char>) -> bool { e.errors@.len() > 0 && sfx(e.errors@[0].input@, s) }
/// the result of a parser is the one that the grammar gives
pub open spec fn pr_ok<O>(s: Seq<char>, r: Result<(&str, O), Nerr<Error<&str>>>, g: PR<O>) -> bool {
  match r {
    Ok((rest, o)) => g == PR::Ok(rest@, o) && sfx(rest@, s) && rest@.len() <= s.len(),
    Err(Nerr::Error(e)) => g is Err && ein(e, s),
    Err(Nerr::Failure(e)) => g is Fail && ein(e, s),
    Err(Nerr::Incomplete(_)) => false,
  }
}
/// likewise for a text
pub open spec fn pr_txt<O: VxStr>(s: Seq<char>, r: Result<(&str, O), Nerr<Error<&str>>>, g: PR<Seq<char>>) -> bool {
  match r {
    Ok((rest, o)) => g == PR::Ok(rest@, o.sv()) && sfx(rest@, s) && rest@.len() <= s.len(),
    Err(Nerr::Error(e)) => g is Err && ein(e, s),
    Err(Nerr::Failure(e)) => g is Fail && ein(e, s),
    Err(Nerr::Incomplete(_)) => false,
  }
}
/// a parser never gives back more than it was given
pub open spec fn bnd<A>(s: Seq<char>, p: PR<A>) -> PR<A> {
  match p { PR::Ok(r, x) => if r.len() <= s.len() { p } else { PR::Fail }, _ => p }
}
/// the invariant of the loop of a repeating parser
pub open spec fn nl_inv<A>(s: Seq<char>, g0: PR<A>, g: PR<A>, rest: Seq<char>, acc: A, go: bool, err: Option<Nerr<Error<&str>>>) -> bool {
  match err {
    None => if go { g == g0 } else { g0 == PR::Ok(rest, acc) },
    Some(Nerr::Error(e)) => !go && g0 is Err && ein(e, s),
    Some(Nerr::Failure(e)) => !go && g0 is Fail && ein(e, s),
    Some(Nerr::Incomplete(_)) => false,
  }
}
/// likewise, of a parser that gives a list
pub open spec fn nl_vec<A>(s: Seq<char>, g0: PR<Vec<A>>, g: PR<Vec<A>>, rest: Seq<char>, acc: Vec<A>, go: bool, err: Option<Nerr<Error<&str>>>) -> bool { nl_inv(s, g0, g, rest, acc, go, err) }
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && forall|i: int| 0 <= i < t.len() ==> s[i] == #[trigger] t[i] }
pub open spec fn at(s: Seq<char>, i: int, c: char) -> bool { 0 <= i < s.len() && s[i] == c }
#[verifier::opaque]
pub open spec fn isin(c: char, l: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == c }
/// the text after blanks
#[verifier::opaque]
pub open spec fn ws(s: Seq<char>) -> Seq<char> { s.skip(span(CC::Ws, s, 0, s.len() as int)) }
pub broadcast proof fn lem_ws(s: Seq<char>)
  ensures sfx(#[trigger] ws(s), s), ws(s).len() <= s.len()
{ reveal(ws); lem_span_bound(CC::Ws, s, 0, s.len() as int); lem_sfx_skip(s, span(CC::Ws, s, 0, s.len() as int)); }
pub broadcast group vx_gram_lemmas { lem_sfx_refl, lem_sfx_trans, lem_sfx_skip, lem_starts, lem_ws }

// ---- the primitive parsers

pub open spec fn p_span(k: CC, i: Seq<char>, lo: int, r: Option<(&str, &str)>) -> bool {
  let n = span(k, i, 0, i.len() as int);
  match r {
    Some((rest, t)) => n >= lo && rest@ == i.skip(n) && t@ == i.take(n) && sfx(rest@, i),
    None => n < lo,
  }
}
macro_rules! vx_spans { ($($f0:ident, $f1:ident, $k:expr);* $(;)?) => { verus! { $(
  #[verifier::external_body]
  pub fn $f0<'a>(i: &'a str) -> (r: (&'a str, &'a str)) ensures p_span($k, i@, 0, Some(r)) { unimplemented!() }
  #[verifier::external_body]
  pub fn $f1<'a>(i: &'a str) -> (r: Option<(&'a str, &'a str)>) ensures p_span($k, i@, 1, r) { unimplemented!() }
)* } } }
vx_spans! {
  vx_p_digit0, vx_p_digit1, CC::Digit;
  vx_p_alpha0, vx_p_alpha1, CC::Alpha;
  vx_p_hex_digit0, vx_p_hex_digit1, CC::Hex;
  vx_p_alphanumeric0, vx_p_alphanumeric1, CC::AlphaNum;
  vx_p_space0, vx_p_space1, CC::Blank;
}
#[verifier::external_body]
pub fn vx_p_multispace0<'a>(i: &'a str) -> (r: (&'a str, &'a str))
  ensures r.0@ == ws(i@), r.1@ == i@.take(i@.len() - ws(i@).len()), sfx(r.0@, i@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_p_multispace1<'a>(i: &'a str) -> (r: Option<(&'a str, &'a str)>)
  ensures match r { Some((rest, t)) => rest@ == ws(i@) && rest@.len() < i@.len() && t@ == i@.take(i@.len() - ws(i@).len()) && sfx(rest@, i@), None => ws(i@) == i@ }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_p_rest<'a>(i: &'a str) -> (r: (&'a str, &'a str)) ensures r.0@.len() == 0, r.1@ == i@, sfx(r.0@, i@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p_eof<'a>(i: &'a str) -> (r: Option<(&'a str, &'a str)>) ensures match r { Some((rest, t)) => i@.len() == 0 && rest@ == i@ && t@ == i@ && sfx(rest@, i@), None => i@.len() > 0 } { unimplemented!() }
pub open spec fn p_one(i: Seq<char>, ok: bool, r: Option<(&str, char)>) -> bool {
  match r {
    Some((rest, c)) => i.len() > 0 && ok && c == i[0] && rest@ == i.skip(1) && sfx(rest@, i),
    None => i.len() == 0 || !ok,
  }
}
#[verifier::external_body]
pub fn vx_p_char<'a>(c: char, i: &'a str) -> (r: Option<(&'a str, char)>) ensures p_one(i@, i@[0] == c, r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p_one_of<'a>(l: &str, i: &'a str) -> (r: Option<(&'a str, char)>) ensures p_one(i@, isin(i@[0], l@), r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p_none_of<'a>(l: &str, i: &'a str) -> (r: Option<(&'a str, char)>) ensures p_one(i@, !isin(i@[0], l@), r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p_anychar<'a>(i: &'a str) -> (r: Option<(&'a str, char)>) ensures p_one(i@, true, r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_p_tag<'a>(t: &str, i: &'a str) -> (r: Option<(&'a str, &'a str)>)
  ensures match r {
    Some((rest, o)) => starts(i@, t@) && rest@ == i@.skip(t@.len() as int) && o@ == t@ && sfx(rest@, i@),
    None => !starts(i@, t@),
  }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_p_chars(i: &str) -> (r: Vec<char>) ensures r@ == i@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_p_split<'a>(i: &'a str, n: usize) -> (r: (&'a str, &'a str))
  requires n <= i@.len()
  ensures r.0@ == i@.skip(n as int), r.1@ == i@.take(n as int), sfx(r.0@, i@)
{ unimplemented!() }
pub fn vx_need_ascii(c: char) requires (c as u32) < 128 { }
/// the input up to its rest
#[verifier::external_body]
pub fn vx_p_consumed<'a>(i: &'a str, rest: &'a str) -> (r: &'a str)
  requires sfx(rest@, i@)
  ensures r@ == i@.take(i@.len() - rest@.len())
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_p_at_end(r: &str) -> (b: bool) ensures b == (r@.len() == 0) { unimplemented!() }
/// whether a rest of b is all of it
#[verifier::external_body]
pub fn vx_p_same_len(a: &str, b: &str) -> (r: bool)
  requires sfx(a@, b@)
  ensures r == (a@.len() == b@.len())
{ unimplemented!() }
/// the offset in bytes of a rest of the input
#[verifier::external_body]
pub fn vx_str_offset(a: &str, b: &str) -> (r: usize)
  requires sfx(b@, a@)
  ensures r == utf8_len(a@.take(a@.len() - b@.len()))
{ unimplemented!() }

// ---- characters
pub trait VxChar { spec fn cv(&self) -> char; fn vx_char(&self) -> (r: char) ensures r == self.cv(); }
impl VxChar for char { open spec fn cv(&self) -> char { *self } fn vx_char(&self) -> (r: char) { *self } }
impl<T: VxChar> VxChar for &T { open spec fn cv(&self) -> char { (**self).cv() } fn vx_char(&self) -> (r: char) { (**self).vx_char() } }
pub fn vx_is_ascii_digit(c: char) -> (r: bool) ensures r == ('0' <= c && c <= '9') { '0' <= c && c <= '9' }
pub fn vx_is_ascii_lowercase(c: char) -> (r: bool) ensures r == ('a' <= c && c <= 'z') { 'a' <= c && c <= 'z' }
pub fn vx_is_ascii_uppercase(c: char) -> (r: bool) ensures r == ('A' <= c && c <= 'Z') { 'A' <= c && c <= 'Z' }
pub fn vx_is_ascii_alphabetic(c: char) -> (r: bool) ensures r == inc(CC::Alpha, c) { ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') }
pub fn vx_is_ascii_hexdigit(c: char) -> (r: bool) ensures r == inc(CC::Hex, c) { ('0' <= c && c <= '9') || ('A' <= c && c <= 'F') || ('a' <= c && c <= 'f') }
pub open spec fn hexv(c: char) -> int {
  if '0' <= c && c <= '9' { c as int - '0' as int } else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 } else { c as int - 'a' as int + 10 }
}
/// the value of four hexadecimal digits from index i
pub open spec fn hex4(s: Seq<char>, i: int) -> int { 4096 * hexv(s[i]) + 256 * hexv(s[i + 1]) + 16 * hexv(s[i + 2]) + hexv(s[i + 3]) }
pub open spec fn is_hex4(s: Seq<char>, i: int) -> bool {
  i + 4 <= s.len() && inc(CC::Hex, s[i]) && inc(CC::Hex, s[i + 1]) && inc(CC::Hex, s[i + 2]) && inc(CC::Hex, s[i + 3])
}
pub open spec fn hi_sur(v: int) -> bool { 0xD800 <= v <= 0xDBFF }
pub open spec fn lo_sur(v: int) -> bool { 0xDC00 <= v <= 0xDFFF }
pub open spec fn code(c: char) -> int { c as int }
pub open spec fn char_of(v: int) -> char { choose|c: char| #[trigger] code(c) == v }
#[verifier::external_body]
pub struct FromUtf16Error { x: u8 }
/// of four digits
#[verifier::external_body]
pub fn vx_u32_radix16(s: &str) -> (r: Result<u32, ParseIntError>)
  requires s@.len() == 4
  ensures is_hex4(s@, 0) ==> r is Ok && r->Ok_0 == hex4(s@, 0)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_u16_radix16(s: &str) -> (r: Result<u16, ParseIntError>)
  requires s@.len() == 4
  ensures is_hex4(s@, 0) ==> r is Ok && r->Ok_0 == hex4(s@, 0)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_char_from_u32(v: u32) -> (r: Option<char>)
  ensures match r { Some(c) => v <= 0x10FFFF && !hi_sur(v as int) && !lo_sur(v as int) && c as u32 == v && c == char_of(v as int), None => v > 0x10FFFF || hi_sur(v as int) || lo_sur(v as int) }
{ unimplemented!() }
/// of a surrogate pair
#[verifier::external_body]
pub fn vx_from_utf16(v: &Vec<u16>) -> (r: Result<String, FromUtf16Error>)
  requires v@.len() == 2, hi_sur(v@[0] as int), lo_sur(v@[1] as int)
  ensures r is Ok, r->Ok_0@ == seq![char_of(0x10000 + (v@[0] - 0xD800) * 0x400 + (v@[1] - 0xDC00))]
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_string_from_char(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
/// the number that a text denotes to serde_json
pub uninterp spec fn num_of(s: Seq<char>) -> Option<Number>;
#[verifier::external_body]
pub struct NumberError { x: u8 }
#[verifier::external_body]
pub fn vx_number_from_str(s: &str) -> (r: Result<Number, NumberError>)
  ensures match r { Ok(n) => num_of(s@) == Some(n), Err(_) => num_of(s@) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_disp_any<T>(x: &T) -> (r: String) { unimplemented!() }
impl VxFrom<String> for Box<str> {
  open spec fn from_post(v: String, r: Box<str>) -> bool { true }
  #[verifier::external_body]
  fn vx_from(v: String) -> (r: Box<str>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_pop_first<T>(v: &mut Vec<T>) -> (r: T)
  requires old(v)@.len() > 0
  ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_put_first<T>(v: &mut Vec<T>, x: T)
  ensures final(v)@ == seq![x] + old(v)@
{ unimplemented!() }
} // mod vxg
pub use vxg::*;

// ---- queries that are singular: RFC 9535, 2.3.5.1
pub mod vxsing {
use super::*;
pub open spec fn sing_segs(q: Seq<QuerySegment>) -> Option<Seq<SingularQuerySegment>>
  decreases q.len()
{
  if q.len() == 0 { Some(seq![]) }
  else { match (sing_segs(q.drop_last()), sq_seg(q.last())) { (Some(a), Some(b)) => Some(a.push(b)), _ => None } }
}
/// the query as a singular query
pub open spec fn sing(q: Query) -> Option<SingularQuery> {
  match sing_segs(q.segments@) {
    Some(v) => Some(SingularQuery { kind: if q.kind is Root { SingularQueryKind::Absolute } else { SingularQueryKind::Relative }, segments: vec_of(v) }),
    None => None,
  }
}
pub proof fn lem_sing_none(q: Seq<QuerySegment>, i: int)
  requires 0 <= i <= q.len(), sing_segs(q.take(i)) is None
  ensures sing_segs(q) is None
  decreases q.len() - i
{
  if i < q.len() {
    assert(q.take(i + 1).drop_last() =~= q.take(i));
    lem_sing_none(q, i + 1);
  } else { assert(q.take(i) =~= q); }
}
pub broadcast proof fn lem_sing_take(q: Seq<QuerySegment>, i: int)
  requires 0 < i <= q.len()
  ensures #[trigger] q.take(i) == q.take(i - 1).push(q[i - 1]), q.take(i).drop_last() == q.take(i - 1), q.take(i).last() == q[i - 1]
{ assert(q.take(i).drop_last() =~= q.take(i - 1)); assert(q.take(i) =~= q.take(i - 1).push(q[i - 1])); }
} // mod vxsing
pub use vxsing::*;
pub mod f_sing {
use super::*;
broadcast use {vx_parse_axioms, vx_lemmas, lem_sing_take};
//@fn <SingularQueryKind as From<QueryKind>>::from props=C09,C17
@spec
open spec fn from_post(v: QueryKind, r: Self) -> bool { r == (if v is Root { SingularQueryKind::Absolute } else { SingularQueryKind::Relative }) }
//@end
//@fn <SingularQuerySegment as TryFrom<Selector>>::try_from props=C09,C17
@spec
open spec fn try_post(v: Selector, r: Result<Self, NonSingularQueryError>) -> bool { match sq_sel(v) { Some(s) => r == Ok::<Self, NonSingularQueryError>(s), None => r is Err } }
//@end
//@fn <SingularQuerySegment as TryFrom<QuerySegment>>::try_from props=C09,C17
@spec
open spec fn try_post(v: QuerySegment, r: Result<Self, NonSingularQueryError>) -> bool { match sq_seg(v) { Some(s) => r == Ok::<Self, NonSingularQueryError>(s), None => r is Err } }
//@end
//@fn <SingularQuery as TryFrom<Query>>::try_from props=C09,C17
@spec
open spec fn try_post(v: Query, r: Result<Self, NonSingularQueryError>) -> bool { match sing(v) { Some(s) => r == Ok::<Self, NonSingularQueryError>(s), None => r is Err } }
@loop QuerySegment try
@inv
$RES == ($ERR is None),
$ERR is None ==> sing_segs($S.take($I as int)) == Some($ACC@),
$ERR is Some ==> sing_segs($S) is None,
@bodyend
proof { if $ERR is Some { lem_sing_none($S, $I as int); } }
//@end
}
pub use f_sing::*;

pub mod vxerr {
use super::*;
//@type Error
//@type ParserErrorInner
//@type ParserErrorKind
}
pub use vxerr::*;

pub mod f_perr {
use super::*;
broadcast use {vx_axioms, vx_parse_lemmas};
//@fn <Error<I> as ParseError<I>>::from_error_kind props=C18,~C16,~C19
@ensures
$r.errors@.len() == 1 && $r.errors@[0].input == $1,
//@end
//@fn <Error<I> as ParseError<I>>::append props=C18,~C16,~C19
@ensures
$r.errors@.len() == $3.errors@.len() + 1,
$3.errors@.len() > 0 ==> $r.errors@[0] == $3.errors@[0],
//@end
//@fn <Error<I> as ContextError<I>>::add_context props=C18,~C16,~C19
@ensures
$r.errors@.len() == $3.errors@.len(),
$3.errors@.len() > 0 ==> $r.errors@[0].input == $3.errors@[0].input,
//@end
//@fn <Error<I> as FromExternalError<I,E>>::from_external_error props=C18,~C16,~C19
@ensures
$r.errors@.len() == 1 && $r.errors@[0].input == $1,
//@end
//@fn <Error<I> as FromInternalError<I,E>>::from_internal_error props=C18,~C16,~C19
@ensures
$r.errors@.len() == 1 && $r.errors@[0].input == $1,
//@end
}
pub use f_perr::*;

// ---- integers, strings, numbers: RFC 9535, 2.3.1.1, 2.3.3.1, 2.3.5.1
//@type StringError
//@type Quotes
//@derive Quotes Clone
//@derive Quotes Copy
pub mod vxgp {
use super::*;
broadcast use {vx_parse_axioms, vx_parse_lemmas};
pub open spec fn qc(q: Quotes) -> char { match q { Quotes::Single => '\'', Quotes::Double => '"' } }
// int = "0" / (["-"] DIGIT1 *DIGIT)
pub open spec fn g_nonzero(s: Seq<char>) -> PR<Seq<char>> {
  let k: int = if at(s, 0, '-') { 1 } else { 0 };
  if k < s.len() && inc(CC::NonZero, s[k]) {
    let n = span(CC::Digit, s, k + 1, s.len() as int);
    PR::Ok(s.skip(n), s.take(n))
  } else { PR::Err }
}
pub open spec fn g_int_text(s: Seq<char>) -> PR<Seq<char>> {
  if at(s, 0, '0') { PR::Ok(s.skip(1), s.take(1)) } else { g_nonzero(s) }
}
/// an integer within the I-JSON interval
pub open spec fn g_int(s: Seq<char>) -> PR<Integer> {
  match g_int_text(s) {
    PR::Ok(r, t) => match int_of(t) { Some(i) => if in_range(i) { PR::Ok(r, mk_int(i)) } else { PR::Err }, None => PR::Err },
    _ => PR::Err,
  }
}
// string-literal
/// n hexadecimal digits
pub open spec fn g_hexn(s: Seq<char>, n: int) -> PR<Seq<char>> {
  if span(CC::Hex, s, 0, n) == n { PR::Ok(s.skip(n), s.take(n)) } else { PR::Err }
}
pub open spec fn g_non_surrogate(s: Seq<char>) -> PR<char> {
  if is_hex4(s, 0) && !hi_sur(hex4(s, 0)) && !lo_sur(hex4(s, 0)) { PR::Ok(s.skip(4), char_of(hex4(s, 0))) } else { PR::Err }
}
pub open spec fn g_high(s: Seq<char>) -> PR<u16> {
  if is_hex4(s, 0) && hi_sur(hex4(s, 0)) { PR::Ok(s.skip(4), hex4(s, 0) as u16) } else { PR::Err }
}
pub open spec fn g_low(s: Seq<char>) -> PR<u16> {
  if is_hex4(s, 0) && lo_sur(hex4(s, 0)) { PR::Ok(s.skip(4), hex4(s, 0) as u16) } else { PR::Err }
}
/// a high surrogate, \u, and a low surrogate
pub open spec fn g_pair(s: Seq<char>) -> PR<Seq<char>> {
  if is_hex4(s, 0) && hi_sur(hex4(s, 0)) && at(s, 4, '\\') && at(s, 5, 'u') && is_hex4(s, 6) && lo_sur(hex4(s, 6)) {
    PR::Ok(s.skip(10), seq![char_of(0x10000 + (hex4(s, 0) - 0xD800) * 0x400 + (hex4(s, 6) - 0xDC00))])
  } else { PR::Err }
}
pub open spec fn g_hexchar(s: Seq<char>) -> PR<Seq<char>> {
  match g_non_surrogate(s) { PR::Ok(r, c) => PR::Ok(r, seq![c]), _ => g_pair(s) }
}
pub open spec fn g_simple(q: char, c: char) -> Option<char> {
  if c == 'b' { Some('\u{8}') } else if c == 't' { Some('\u{9}') } else if c == 'n' { Some('\u{A}') } else if c == 'f' { Some('\u{C}') }
  else if c == 'r' { Some('\u{D}') } else if c == '/' { Some('/') } else if c == '\\' { Some('\\') } else if c == q { Some(q) } else { None }
}
/// what follows a backslash
pub open spec fn g_escape(q: char, s: Seq<char>) -> PR<Seq<char>> {
  if s.len() == 0 { PR::Err }
  else if g_simple(q, s[0]) is Some { PR::Ok(s.skip(1), seq![g_simple(q, s[0])->Some_0]) }
  else if s[0] == 'u' { g_hexchar(s.skip(1)) }
  else { PR::Err }
}
pub open spec fn g_escaped(q: char, s: Seq<char>) -> PR<Seq<char>> { if at(s, 0, '\\') { g_escape(q, s.skip(1)) } else { PR::Err } }
/// one or more unescaped characters
pub open spec fn g_plain(q: char, s: Seq<char>) -> PR<Seq<char>> {
  let n = span(CC::Plain(q), s, 0, s.len() as int);
  if n > 0 { PR::Ok(s.skip(n), s.take(n)) } else { PR::Err }
}
pub open spec fn g_fragment(q: char, s: Seq<char>) -> PR<Seq<char>> {
  match g_plain(q, s) { PR::Err => g_escaped(q, s), p => p }
}
/// the characters up to the first that neither stands for itself nor starts an escape
pub open spec fn g_internal(q: char, s: Seq<char>, acc: Seq<char>) -> PR<Seq<char>>
  decreases s.len()
{
  match g_fragment(q, s) {
    PR::Ok(r, t) => if r.len() < s.len() { g_internal(q, r, acc + t) } else { PR::Fail },
    PR::Err => PR::Ok(s, acc),
    PR::Fail => PR::Fail,
  }
}
pub open spec fn g_quoted(q: char, s: Seq<char>) -> PR<Seq<char>> {
  if at(s, 0, q) {
    match g_internal(q, s.skip(1), seq![]) { PR::Ok(r, t) => if at(r, 0, q) { PR::Ok(r.skip(1), t) } else { PR::Fail }, p => p }
  } else { PR::Err }
}
pub open spec fn g_string(s: Seq<char>) -> PR<Seq<char>> {
  match g_quoted('\'', s) { PR::Err => g_quoted('"', s), p => p }
}
// number = (int / "-0") [ frac ] [ exp ]
pub open spec fn g_frac(s: Seq<char>) -> PR<Seq<char>> {
  if at(s, 0, '.') && span(CC::Digit, s, 1, s.len() as int) > 1 {
    let n = span(CC::Digit, s, 1, s.len() as int);
    PR::Ok(s.skip(n), s.subrange(1, n))
  } else { PR::Err }
}
pub open spec fn g_exp(s: Seq<char>) -> PR<Seq<char>> {
  if at(s, 0, 'e') || at(s, 0, 'E') {
    let k: int = if at(s, 1, '-') || at(s, 1, '+') { 2 } else { 1 };
    let n = span(CC::Digit, s, k, s.len() as int);
    PR::Ok(s.skip(n), s.take(n))
  } else { PR::Err }
}
pub open spec fn rest_or<A>(s: Seq<char>, p: PR<A>) -> Seq<char> { match p { PR::Ok(r, _) => r, _ => s } }
pub open spec fn g_num_text(s: Seq<char>) -> PR<Seq<char>> {
  let r0: Option<Seq<char>> = match g_int_text(s) { PR::Ok(r, _) => Some(r), _ => if starts(s, seq!['-', '0']) { Some(s.skip(2)) } else { None } };
  match r0 {
    Some(r0) => {
      let r1 = rest_or(r0, g_frac(r0));
      let r2 = rest_or(r1, g_exp(r1));
      PR::Ok(r2, s.take(s.len() - r2.len()))
    }
    None => PR::Err,
  }
}
pub open spec fn g_number(s: Seq<char>) -> PR<Number> {
  match g_num_text(s) { PR::Ok(r, t) => match num_of(t) { Some(n) => PR::Ok(r, n), None => PR::Err }, _ => PR::Err }
}
pub open spec fn g_null(s: Seq<char>) -> PR<()> { if starts(s, "null"@) { PR::Ok(s.skip(4), ()) } else { PR::Err } }
pub open spec fn g_bool(s: Seq<char>) -> PR<bool> {
  if starts(s, "true"@) { PR::Ok(s.skip(4), true) } else if starts(s, "false"@) { PR::Ok(s.skip(5), false) } else { PR::Err }
}
} // mod vxgp
pub use vxgp::*;

pub mod f_pprim {
use super::*;
broadcast use {vx_parse_axioms, vx_parse_lemmas};
//@fn parse_zero props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, if at($1@, 0, '0') { PR::Ok($1@.skip(1), $1@.take(1)) } else { PR::Err }),
//@end
//@fn parse_non_zero_first_digit props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, if $1@.len() > 0 && inc(CC::NonZero, $1@[0]) { PR::Ok($1@.skip(1), $1@.take(1)) } else { PR::Err }),
@loop take_while
@inv
$GO ==> span(CC::NonZero, $S, 0, $LIM as int) == span(CC::NonZero, $S, $I as int, $LIM as int),
!$GO ==> span(CC::NonZero, $S, 0, $LIM as int) == $I,
//@end
//@fn parse_non_zero_int props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, g_nonzero($1@)),
//@end
//@fn parse_int_string props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, g_int_text($1@)),
//@end
//@fn parse_int props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_int($1@)),
//@end
//@fn parse_null props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_null($1@)),
//@end
//@fn parse_bool props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_bool($1@)),
//@end
//@fn parse_fractional props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, g_frac($1@)),
//@end
//@fn parse_exponent props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, g_exp($1@)),
//@end
//@fn parse_number_string props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, g_num_text($1@)),
//@end
//@fn parse_number props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_number($1@)),
//@end
}
pub use f_pprim::*;

pub mod f_pstr {
use super::*;
broadcast use {vx_parse_axioms, vx_parse_lemmas};
//@fn parse_digit props=C17,C18,C20,~C16,~C19
@ensures
pr_ok($1@, $r, if $1@.len() > 0 && inc(CC::Digit, $1@[0]) { PR::Ok($1@.skip(1), $1@[0]) } else { PR::Err }),
//@end
//@fn parse_n_hex_digits props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($2@, $r, g_hexn($2@, $1 as int)),
@loop take_while
@inv
$GO ==> span(CC::Hex, $S, 0, $LIM as int) == span(CC::Hex, $S, $I as int, $LIM as int),
!$GO ==> span(CC::Hex, $S, 0, $LIM as int) == $I,
//@end
//@fn parse_non_surrogate props=C17,C18,C20,~C16,~C19
@ensures
pr_ok($1@, $r, g_non_surrogate($1@)),
@entry
proof { reveal_with_fuel(span, 6); }
//@end
//@fn parse_low_surrogate props=C17,C18,C20,~C16,~C19
@ensures
pr_ok($1@, $r, g_low($1@)),
@entry
proof { reveal_with_fuel(span, 6); }
//@end
//@fn parse_high_surrogate props=C17,C18,C20,~C16,~C19
@ensures
pr_ok($1@, $r, g_high($1@)),
@entry
proof { reveal_with_fuel(span, 6); }
//@end
//@fn parse_surrogate props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($1@, $r, g_pair($1@)),
//@end
//@fn parse_hex_char props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($1@, $r, g_hexchar($1@)),
//@end
//@fn parse_unicode_sequence props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($1@, $r, if at($1@, 0, 'u') { g_hexchar($1@.skip(1)) } else { PR::Err }),
//@end
//@fn parse_escaped_quote props=C17,C18,C20,~C16,~C19
@ensures
pr_ok($2@, $r, if at($2@, 0, qc($1)) { PR::Ok($2@.skip(1), qc($1)) } else { PR::Err }),
//@end
//@fn parse_escaped_char props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($2@, $r, g_escaped(qc($1), $2@)),
//@end
//@fn is_valid_unescaped_char props=C17,C18,C20,~C16,~C19
@ensures
$r == inc(CC::Plain(qc($2)), $1),
//@end
//@fn parse_unescaped props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($2@, $r, g_plain(qc($1), $2@)),
@loop take_while
@inv
$GO ==> span(CC::Plain(qc($1)), $S, 0, $S.len() as int) == span(CC::Plain(qc($1)), $S, $I as int, $S.len() as int),
!$GO ==> span(CC::Plain(qc($1)), $S, 0, $S.len() as int) == $I,
//@end
//@fn parse_fragment props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($2@, $r, g_fragment(qc($1), $2@)),
//@end
//@fn parse_internal props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($2@, $r, g_internal(qc($1), $2@, seq![])),
@loop fold_many0
@inv
nl_inv($IN@, g_internal(qc($1), $REST0, $ACC0@), g_internal(qc($1), $REST@, $ACC@), $REST@, $ACC@, $GO, $ERR),
//@end
//@fn parse_single_quoted props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($1@, $r, g_quoted('\'', $1@)),
//@end
//@fn parse_double_quoted props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($1@, $r, g_quoted('"', $1@)),
//@end
//@fn parse_string_literal props=C17,C18,C20,~C16,~C19
@ensures
pr_txt($1@, $r, g_string($1@)),
//@end
}
pub use f_pstr::*;

// ---- the query: RFC 9535, 2.1 - 2.5. A parser that has read enough to know which alternative it is in
// gives Fail, from which no other alternative is tried (until a comparison is given up).
//@type Function
//@type FunctionValidationError
//@type SegmentError
pub mod vxgq {
use super::*;
broadcast use {vx_parse_axioms, vx_gram_lemmas};
/// the functions known to the parser: the ones registered by the user, in order, and the built-in ones
pub uninterp spec fn inventory_s() -> Seq<&'static Function>;
pub uninterp spec fn registry_s(name: Seq<char>) -> Option<&'static Function>;
/// whether a registered function accepts the arguments
pub uninterp spec fn valid_ev(v: Validator, args: Seq<FunctionExprArg>) -> bool;
#[verifier::external_body]
pub fn vx_inventory() -> (r: Vec<&'static Function>)
  ensures r@ == inventory_s(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_registry_get(name: &str) -> (r: Option<&'static Function>)
  ensures r == registry_s(name@),
{ unimplemented!() }
impl Validator {
  #[verifier::external_body]
  pub fn vx_call(&self, args: &[FunctionExprArg]) -> (r: Result<(), FunctionValidationError>)
    ensures r.is_ok() == valid_ev(*self, args@),
  { unimplemented!() }
}
pub open spec fn inv_find(l: Seq<&'static Function>, name: Seq<char>, i: int) -> Option<&'static Function>
  decreases l.len() - i
{
  if 0 <= i < l.len() { if l[i].name@ == name { Some(l[i]) } else { inv_find(l, name, i + 1) } } else { None }
}
pub open spec fn fn_find(name: Seq<char>) -> Option<&'static Function> {
  match inv_find(inventory_s(), name, 0) { Some(f) => Some(f), None => registry_s(name) }
}
/// a call of a known function with arguments it accepts
pub open spec fn fn_call(name: Seq<char>, args: Seq<FunctionExprArg>) -> Option<FunctionExpr<Validated>> {
  match fn_find(name) {
    Some(f) => if valid_ev(*f.validator, args) {
      Some(FunctionExpr { name: string_of(name), args: vec_of(args), return_type: f.result_type, validated: Validated { evaluator: f.evaluator } })
    } else { None },
    None => None,
  }
}
pub open spec fn chr(s: Seq<char>, c: char) -> PR<()> { if at(s, 0, c) { PR::Ok(s.skip(1), ()) } else { PR::Err } }
pub open spec fn tok(s: Seq<char>, t: Seq<char>) -> PR<()> { if starts(s, t) { PR::Ok(s.skip(t.len() as int), ()) } else { PR::Err } }

// member-name-shorthand
/// runs of letters, underscores and characters outside ASCII
pub open spec fn g_name_first(s: Seq<char>) -> PR<Seq<char>> {
  let n = span(CC::Alpha, s, 0, s.len() as int);
  let m = span(CC::NonAscii, s, 0, s.len() as int);
  if n > 0 { PR::Ok(s.skip(n), s.take(n)) } else if at(s, 0, '_') { PR::Ok(s.skip(1), s.take(1)) }
  else if m > 0 { PR::Ok(s.skip(m), s.take(m)) } else { PR::Err }
}
pub open spec fn g_name_char(s: Seq<char>) -> PR<Seq<char>> {
  let n = span(CC::Digit, s, 0, s.len() as int);
  if n > 0 { PR::Ok(s.skip(n), s.take(n)) } else { g_name_first(s) }
}
pub open spec fn g_name_rest(s: Seq<char>, acc: Seq<char>) -> PR<Seq<char>>
  decreases s.len()
{
  match g_name_char(s) { PR::Ok(r, t) => if r.len() < s.len() { g_name_rest(r, acc + t) } else { PR::Fail }, PR::Err => PR::Ok(s, acc), PR::Fail => PR::Fail }
}
pub open spec fn g_dot_name(s: Seq<char>) -> PR<Seq<char>> {
  match g_name_first(s) {
    PR::Ok(r, _) => match bnd(r, g_name_rest(r, seq![])) { PR::Ok(r2, _) => PR::Ok(r2, s.take(s.len() - r2.len())), PR::Err => PR::Err, PR::Fail => PR::Fail },
    _ => PR::Fail,
  }
}
pub proof fn lem_name_piece(s: Seq<char>)
  ensures
    match g_name_first(s) { PR::Ok(r, t) => r.len() <= s.len() && r == s.skip(s.len() - r.len()) && t == s.take(s.len() - r.len()), _ => true },
    match g_name_char(s) { PR::Ok(r, t) => r.len() <= s.len() && r == s.skip(s.len() - r.len()) && t == s.take(s.len() - r.len()), _ => true },
{
  lem_span_bound(CC::Alpha, s, 0, s.len() as int);
  lem_span_bound(CC::NonAscii, s, 0, s.len() as int);
  lem_span_bound(CC::Digit, s, 0, s.len() as int);
}
/// the characters of a name, whatever was accumulated before
pub proof fn lem_name_rest(s: Seq<char>, acc: Seq<char>)
  ensures match (g_name_rest(s, acc), g_name_rest(s, seq![])) {
    (PR::Ok(r, t), PR::Ok(r2, t2)) => r == r2 && r.len() <= s.len() && t == acc + s.take(s.len() - r.len()) && t2 == s.take(s.len() - r.len()),
    (PR::Err, PR::Err) => true,
    (PR::Fail, PR::Fail) => true,
    _ => false,
  }
  decreases s.len()
{
  assert(acc + s.take(0) =~= acc);
  assert(s.take(0) =~= seq![]);
  match g_name_char(s) {
    PR::Ok(r, t) => if r.len() < s.len() {
      lem_name_rest(r, acc + t);
      lem_name_rest(r, seq![] + t);
      lem_name_piece(s);
      let n = s.len() - r.len();
      assert(r == s.skip(n) && t == s.take(n));
      match g_name_rest(r, acc + t) {
        PR::Ok(r2, _) => {
          let k = r.len() - r2.len();
          assert(s.take(n) + s.skip(n).take(k) =~= s.take(n + k));
          assert((acc + t) + r.take(k) =~= acc + s.take(n + k));
          assert((seq![] + t) + r.take(k) =~= s.take(n + k));
        }
        _ => {}
      }
    },
    _ => {}
  }
}
/// a name gathered from its first characters on
pub proof fn lem_dot_name(s: Seq<char>)
  ensures match g_name_first(s) {
    PR::Ok(r, f) => match (g_name_rest(r, f), g_name_rest(r, seq![])) {
      (PR::Ok(r2, t), PR::Ok(r3, _)) => r2 == r3 && t == s.take(s.len() - r2.len()),
      (PR::Err, PR::Err) => true,
      (PR::Fail, PR::Fail) => true,
      _ => false,
    },
    _ => true,
  }
{
  match g_name_first(s) {
    PR::Ok(r, f) => {
      lem_name_rest(r, f);
      lem_name_piece(s);
      let n = s.len() - r.len();
      assert(r == s.skip(n) && f == s.take(n));
      match g_name_rest(r, f) { PR::Ok(r2, _) => { let k = r.len() - r2.len(); assert(s.take(n) + s.skip(n).take(k) =~= s.take(n + k)); } _ => {} }
    }
    _ => {}
  }
}
// slice-selector
/// [int S]
pub open spec fn g_oint_s(s: Seq<char>) -> (Seq<char>, Option<Integer>) {
  match g_int(s) { PR::Ok(r, i) => (ws(r), Some(i)), _ => (s, None) }
}
/// [S int]
pub open spec fn g_s_oint(s: Seq<char>) -> (Seq<char>, Option<Integer>) {
  match g_int(ws(s)) { PR::Ok(r, i) => (r, Some(i)), _ => (s, None) }
}
pub open spec fn g_slice(s: Seq<char>) -> PR<Slice> {
  let (r0, start) = g_oint_s(s);
  match chr(r0, ':') {
    PR::Ok(r1, _) => {
      let (r2, end) = g_oint_s(ws(r1));
      match chr(r2, ':') {
        PR::Ok(r3, _) => { let (r4, step) = g_s_oint(r3); PR::Ok(r4, Slice { start, end, step }) }
        _ => PR::Ok(r2, Slice { start, end, step: None }),
      }
    }
    _ => PR::Err,
  }
}
// comparison operators
pub open spec fn g_op(s: Seq<char>) -> PR<ComparisonOperator> {
  if starts(s, "=="@) { PR::Ok(s.skip(2), ComparisonOperator::EqualTo) }
  else if starts(s, "!="@) { PR::Ok(s.skip(2), ComparisonOperator::NotEqualTo) }
  else if starts(s, "<="@) { PR::Ok(s.skip(2), ComparisonOperator::LessThanEqualTo) }
  else if starts(s, ">="@) { PR::Ok(s.skip(2), ComparisonOperator::GreaterThanEqualTo) }
  else if at(s, 0, '<') { PR::Ok(s.skip(1), ComparisonOperator::LessThan) }
  else if at(s, 0, '>') { PR::Ok(s.skip(1), ComparisonOperator::GreaterThan) }
  else { PR::Err }
}
pub open spec fn g_literal(s: Seq<char>) -> PR<Literal> {
  match g_string(s) {
    PR::Ok(r, t) => PR::Ok(r, Literal::String(string_of(t))),
    PR::Fail => PR::Fail,
    PR::Err => match g_number(s) {
      PR::Ok(r, n) => PR::Ok(r, Literal::Number(n)),
      PR::Fail => PR::Fail,
      PR::Err => match g_bool(s) {
        PR::Ok(r, b) => PR::Ok(r, Literal::Bool(b)),
        _ => match g_null(s) { PR::Ok(r, _) => PR::Ok(r, Literal::Null), _ => PR::Err },
      }
    }
  }
}
// function-name
pub open spec fn fc_first(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn fc_char(c: char) -> bool { fc_first(c) || c == '_' || ('0' <= c && c <= '9') }
pub open spec fn g_fname_rest(s: Seq<char>, acc: Seq<char>) -> PR<Seq<char>>
  decreases s.len()
{
  if s.len() > 0 && fc_char(s[0]) { g_fname_rest(s.skip(1), acc.push(s[0])) } else { PR::Ok(s, acc) }
}
pub open spec fn g_fname(s: Seq<char>) -> PR<Seq<char>> {
  if s.len() > 0 && fc_first(s[0]) {
    match g_fname_rest(s.skip(1), seq![]) { PR::Ok(r, t) => PR::Ok(r, seq![s[0]] + t), p => p }
  } else { PR::Err }
}
/// the characters of a function's name, whatever was accumulated before
pub proof fn lem_fname_rest(s: Seq<char>, acc: Seq<char>)
  ensures match (g_fname_rest(s, acc), g_fname_rest(s, seq![])) {
    (PR::Ok(r, t), PR::Ok(r2, t2)) => r == r2 && r.len() <= s.len() && t == acc + t2 && t2 == s.take(s.len() - r.len()),
    _ => false,
  }
  decreases s.len()
{
  assert(acc + seq![] =~= acc);
  assert(s.take(0) =~= seq![]);
  if s.len() > 0 && fc_char(s[0]) {
    lem_fname_rest(s.skip(1), acc.push(s[0]));
    lem_fname_rest(s.skip(1), seq![].push(s[0]));
    match g_fname_rest(s, seq![]) {
      PR::Ok(r2, t2) => {
        let k = s.len() - 1 - r2.len();
        assert(seq![].push(s[0]) + s.skip(1).take(k) =~= s.take(k + 1));
        assert(acc.push(s[0]) + s.skip(1).take(k) =~= acc + s.take(k + 1));
      }
      _ => {}
    }
  }
}
/// a function's name gathered from its first character on
pub proof fn lem_fname(s: Seq<char>)
  requires s.len() > 0
  ensures match (g_fname_rest(s.skip(1), seq![s[0]]), g_fname_rest(s.skip(1), seq![])) {
    (PR::Ok(r, t), PR::Ok(r2, t2)) => r == r2 && t == seq![s[0]] + t2 && t == s.take(s.len() - r.len()),
    _ => false,
  }
{
  lem_fname_rest(s.skip(1), seq![s[0]]);
  match g_fname_rest(s.skip(1), seq![]) {
    PR::Ok(r2, t2) => { let k = s.len() - 1 - r2.len(); assert(seq![s[0]] + s.skip(1).take(k) =~= s.take(k + 1)); }
    _ => {}
  }
}

// queries
//@grammar
#[verifier::opaque]
pub open spec fn g_segs(s: Seq<char>, acc: Seq<QuerySegment>) -> PR<Vec<QuerySegment>>
  decreases s.len(), 20int
{
  match bnd(s, g_segment(s)) {
    PR::Ok(r, x) => if r.len() < s.len() { g_segs(r, acc.push(x)) } else { PR::Err },
    PR::Err => PR::Ok(s, vec_of(acc)),
    PR::Fail => PR::Fail,
  }
}
#[verifier::opaque]
pub open spec fn g_root(s: Seq<char>) -> PR<Query>
  decreases s.len(), 0int
{
  if at(s, 0, '$') { match g_segs(s.skip(1), seq![]) { PR::Ok(r, v) => PR::Ok(r, Query { kind: QueryKind::Root, segments: v }), PR::Err => PR::Err, PR::Fail => PR::Fail } } else { PR::Err }
}
#[verifier::opaque]
pub open spec fn g_current(s: Seq<char>) -> PR<Query>
  decreases s.len(), 0int
{
  if at(s, 0, '@') { match g_segs(s.skip(1), seq![]) { PR::Ok(r, v) => PR::Ok(r, Query { kind: QueryKind::Current, segments: v }), PR::Err => PR::Err, PR::Fail => PR::Fail } } else { PR::Err }
}
#[verifier::opaque]
pub open spec fn g_query(s: Seq<char>) -> PR<Query>
  decreases s.len(), 1int
{ match g_root(s) { PR::Err => g_current(s), p => p } }
pub open spec fn g_main(s: Seq<char>) -> PR<Query> {
  match g_root(s) { PR::Ok(r, q) => if r.len() == 0 { PR::Ok(r, q) } else { PR::Err }, p => p }
}
#[verifier::opaque]
pub open spec fn g_sels(s: Seq<char>, acc: Seq<Selector>) -> PR<Vec<Selector>>
  decreases s.len(), 11int
{
  match chr(ws(s), ',') {
    PR::Ok(r, _) => match bnd(r, g_selector(ws(r))) {
      PR::Ok(r2, x) => if r2.len() < s.len() { g_sels(r2, acc.push(x)) } else { PR::Fail },
      PR::Err => PR::Ok(s, vec_of(acc)),
      PR::Fail => PR::Fail,
    },
    _ => PR::Ok(s, vec_of(acc)),
  }
}
#[verifier::opaque]
pub open spec fn g_multi(s: Seq<char>) -> PR<Vec<Selector>>
  decreases s.len(), 12int
{
  match bnd(s, g_selector(s)) { PR::Ok(r, x) => g_sels(r, seq![x]), PR::Err => PR::Err, PR::Fail => PR::Fail }
}
// bracketed-selection
#[verifier::opaque]
pub open spec fn g_longhand(s: Seq<char>) -> PR<Segment>
  decreases s.len(), 17int
{
  if at(s, 0, '[') {
    match g_multi(ws(s.skip(1))) {
      PR::Ok(r, v) => match chr(ws(r), ']') { PR::Ok(r2, _) => PR::Ok(r2, Segment::LongHand(v)), _ => PR::Fail },
      PR::Err => PR::Err,
      PR::Fail => PR::Fail,
    }
  } else { PR::Err }
}
#[verifier::opaque]
pub open spec fn g_child(s: Seq<char>) -> PR<Segment>
  decreases s.len(), 18int
{
  let s = ws(s);
  if at(s, 0, '.') {
    if at(s, 1, '*') { PR::Ok(s.skip(2), Segment::Wildcard) }
    else { match g_dot_name(s.skip(1)) { PR::Ok(r, t) => PR::Ok(r, Segment::DotName(string_of(t))), PR::Err => PR::Err, PR::Fail => PR::Fail } }
  } else { g_longhand(s) }
}
#[verifier::opaque]
pub open spec fn g_desc(s: Seq<char>) -> PR<Segment>
  decreases s.len(), 18int
{
  let s = ws(s);
  if at(s, 0, '.') && at(s, 1, '.') {
    let s = s.skip(2);
    if at(s, 0, '*') { PR::Ok(s.skip(1), Segment::Wildcard) }
    else {
      match g_longhand(s) {
        PR::Err => match g_dot_name(s) { PR::Ok(r, t) => PR::Ok(r, Segment::DotName(string_of(t))), PR::Err => PR::Err, PR::Fail => PR::Fail },
        p => p,
      }
    }
  } else { PR::Err }
}
#[verifier::opaque]
pub open spec fn g_segment(s: Seq<char>) -> PR<QuerySegment>
  decreases s.len(), 19int
{
  match g_desc(s) {
    PR::Ok(r, x) => PR::Ok(r, QuerySegment { kind: QuerySegmentKind::Descendant, segment: x }),
    PR::Fail => PR::Fail,
    PR::Err => match g_child(s) {
      PR::Ok(r, x) => PR::Ok(r, QuerySegment { kind: QuerySegmentKind::Child, segment: x }),
      PR::Err => PR::Err,
      PR::Fail => PR::Fail,
    }
  }
}
#[verifier::opaque]
pub open spec fn g_selector(s: Seq<char>) -> PR<Selector>
  decreases s.len(), 10int
{
  if at(s, 0, '*') { PR::Ok(s.skip(1), Selector::Wildcard) }
  else {
    match g_string(s) {
      PR::Ok(r, t) => PR::Ok(r, Selector::Name(Name(string_of(t)))),
      PR::Fail => PR::Fail,
      PR::Err => match g_slice(s) {
        PR::Ok(r, x) => PR::Ok(r, Selector::ArraySlice(x)),
        _ => match g_int(s) {
          PR::Ok(r, i) => PR::Ok(r, Selector::Index(Index(i))),
          _ => match g_filter(s) { PR::Ok(r, f) => PR::Ok(r, Selector::Filter(f)), PR::Err => PR::Err, PR::Fail => PR::Fail },
        }
      }
    }
  }
}
#[verifier::opaque]
pub open spec fn g_filter(s: Seq<char>) -> PR<Filter>
  decreases s.len(), 8int
{
  if at(s, 0, '?') { match g_or(ws(s.skip(1))) { PR::Ok(r, x) => PR::Ok(r, Filter(x)), PR::Err => PR::Err, PR::Fail => PR::Fail } } else { PR::Err }
}
#[verifier::opaque]
pub open spec fn g_ors(s: Seq<char>, acc: Seq<LogicalAndExpr>) -> PR<Vec<LogicalAndExpr>>
  decreases s.len(), 7int
{
  match tok(ws(s), "||"@) {
    PR::Ok(r, _) => if r.len() < s.len() { match bnd(r, g_and(ws(r))) {
      PR::Ok(r2, x) => g_ors(r2, acc.push(x)),
      PR::Err => PR::Ok(s, vec_of(acc)),
      PR::Fail => PR::Fail,
    } } else { PR::Fail },
    _ => PR::Ok(s, vec_of(acc)),
  }
}
#[verifier::opaque]
pub open spec fn g_or(s: Seq<char>) -> PR<LogicalOrExpr>
  decreases s.len(), 8int
{
  match bnd(s, g_and(s)) {
    PR::Ok(r, x) => match g_ors(r, seq![x]) { PR::Ok(r2, v) => PR::Ok(r2, LogicalOrExpr(v)), PR::Err => PR::Err, PR::Fail => PR::Fail },
    PR::Err => PR::Err,
    PR::Fail => PR::Fail,
  }
}
#[verifier::opaque]
pub open spec fn g_ands(s: Seq<char>, acc: Seq<BasicExpr>) -> PR<Vec<BasicExpr>>
  decreases s.len(), 6int
{
  match tok(ws(s), "&&"@) {
    PR::Ok(r, _) => if r.len() < s.len() { match bnd(r, g_basic(ws(r))) {
      PR::Ok(r2, x) => g_ands(r2, acc.push(x)),
      PR::Err => PR::Ok(s, vec_of(acc)),
      PR::Fail => PR::Fail,
    } } else { PR::Fail },
    _ => PR::Ok(s, vec_of(acc)),
  }
}
#[verifier::opaque]
pub open spec fn g_and(s: Seq<char>) -> PR<LogicalAndExpr>
  decreases s.len(), 7int
{
  match bnd(s, g_basic(s)) {
    PR::Ok(r, x) => match g_ands(r, seq![x]) { PR::Ok(r2, v) => PR::Ok(r2, LogicalAndExpr(v)), PR::Err => PR::Err, PR::Fail => PR::Fail },
    PR::Err => PR::Err,
    PR::Fail => PR::Fail,
  }
}
#[verifier::opaque]
pub open spec fn g_paren(s: Seq<char>) -> PR<LogicalOrExpr>
  decreases s.len(), 4int
{
  if at(s, 0, '(') {
    match g_or(ws(s.skip(1))) {
      PR::Ok(r, x) => match chr(ws(r), ')') { PR::Ok(r2, _) => PR::Ok(r2, x), _ => PR::Err },
      PR::Err => PR::Err,
      PR::Fail => PR::Fail,
    }
  } else { PR::Err }
}
/// a call in a test has a logical result, or a nodelist
#[verifier::opaque]
pub open spec fn g_test_call(s: Seq<char>) -> PR<FunctionExpr<Validated>>
  decreases s.len(), 3int
{
  match g_func(s) { PR::Ok(r, f) => if f.return_type is Logical || f.return_type is Nodelist { PR::Ok(r, f) } else { PR::Fail }, _ => PR::Fail }
}
/// after an exclamation mark
pub open spec fn bang(s: Seq<char>) -> Seq<char> { ws(s.skip(1)) }
// basic-expr
#[verifier::opaque]
pub open spec fn g_basic(s: Seq<char>) -> PR<BasicExpr>
  decreases s.len(), 6int
{
  match if at(s, 0, '!') { g_paren(bang(s)) } else { PR::Err } {
    PR::Ok(r, x) => PR::Ok(r, BasicExpr::NotParen(x)),
    PR::Fail => PR::Fail,
    PR::Err => match g_paren(s) {
      PR::Ok(r, x) => PR::Ok(r, BasicExpr::Paren(x)),
      PR::Fail => PR::Fail,
      PR::Err => match g_cmp(s) {
        PR::Ok(r, x) => PR::Ok(r, BasicExpr::Relation(x)),
        PR::Fail => PR::Fail,
        PR::Err => match if at(s, 0, '!') { g_query(bang(s)) } else { PR::Err } {
          PR::Ok(r, q) => PR::Ok(r, BasicExpr::NotExist(ExistExpr(q))),
          PR::Fail => PR::Fail,
          PR::Err => match g_query(s) {
            PR::Ok(r, q) => PR::Ok(r, BasicExpr::Exist(ExistExpr(q))),
            PR::Fail => PR::Fail,
            PR::Err => match if at(s, 0, '!') { g_test_call(bang(s)) } else { PR::Err } {
              PR::Ok(r, f) => PR::Ok(r, BasicExpr::NotFuncExpr(f)),
              PR::Fail => PR::Fail,
              PR::Err => match g_test_call(s) { PR::Ok(r, f) => PR::Ok(r, BasicExpr::FuncExpr(f)), PR::Err => PR::Err, PR::Fail => PR::Fail },
            }
          }
        }
      }
    }
  }
}
// comparison-expr
#[verifier::opaque]
pub open spec fn g_cmp(s: Seq<char>) -> PR<ComparisonExpr>
  decreases s.len(), 5int
{
  match bnd(s, g_comparable(s)) {
    PR::Ok(r, left) => match bnd(s, g_op(ws(r))) {
      PR::Ok(r2, op) => match if r2.len() < s.len() { g_comparable(ws(r2)) } else { PR::Err } {
        PR::Ok(r3, right) => PR::Ok(r3, ComparisonExpr { left, op, right }),
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
      },
      _ => PR::Err,
    },
    PR::Err => PR::Err,
    PR::Fail => PR::Fail,
  }
}
#[verifier::opaque]
pub open spec fn g_singular(s: Seq<char>) -> PR<SingularQuery>
  decreases s.len(), 2int
{
  match g_query(s) { PR::Ok(r, q) => match sing(q) { Some(x) => PR::Ok(r, x), None => PR::Err }, PR::Err => PR::Err, PR::Fail => PR::Fail }
}
/// a literal or a singular query
#[verifier::opaque]
pub open spec fn g_comp_rest(s: Seq<char>) -> PR<Comparable>
  decreases s.len(), 3int
{
  match g_literal(s) {
    PR::Ok(r, l) => PR::Ok(r, Comparable::Literal(l)),
    PR::Fail => PR::Err,
    PR::Err => match g_singular(s) {
      PR::Ok(r, q) => PR::Ok(r, Comparable::SingularQuery(q)),
      PR::Fail => PR::Err,
      PR::Err => PR::Err,
    }
  }
}
#[verifier::opaque]
pub open spec fn g_comparable(s: Seq<char>) -> PR<Comparable>
  decreases s.len(), 4int
{
  match g_func(s) {
    PR::Ok(r, f) => if f.return_type is Value { PR::Ok(r, Comparable::FunctionExpr(f)) } else { g_comp_rest(s) },
    PR::Fail => PR::Err,
    PR::Err => g_comp_rest(s),
  }
}
// function-argument: a literal, query or call that ends where the argument does, or a logical expression
pub open spec fn arg_end(s: Seq<char>) -> bool { at(ws(s), 0, ',') || at(ws(s), 0, ')') }
#[verifier::opaque]
pub open spec fn g_plain_arg(s: Seq<char>) -> PR<FunctionExprArg>
  decreases s.len(), 9int
{
  match g_func(s) {
    PR::Ok(r, f) => PR::Ok(r, FunctionExprArg::FunctionExpr(f)),
    PR::Fail => PR::Fail,
    PR::Err => match g_literal(s) {
      PR::Ok(r, l) => PR::Ok(r, FunctionExprArg::Literal(l)),
      PR::Fail => PR::Fail,
      PR::Err => match g_singular(s) {
        PR::Ok(r, q) => PR::Ok(r, FunctionExprArg::SingularQuery(q)),
        PR::Fail => PR::Fail,
        PR::Err => match g_query(s) { PR::Ok(r, q) => PR::Ok(r, FunctionExprArg::FilterQuery(q)), PR::Err => PR::Err, PR::Fail => PR::Fail },
      }
    }
  }
}
#[verifier::opaque]
pub open spec fn g_arg(s: Seq<char>) -> PR<FunctionExprArg>
  decreases s.len(), 10int
{
  match match g_plain_arg(s) { PR::Ok(r, a) => if arg_end(r) { PR::Ok(r, a) } else { PR::Err }, p => p } {
    PR::Err => match g_or(s) { PR::Ok(r, x) => PR::Ok(r, FunctionExprArg::LogicalExpr(x)), PR::Err => PR::Err, PR::Fail => PR::Fail },
    p => p,
  }
}
#[verifier::opaque]
pub open spec fn g_args_rest(s: Seq<char>, acc: Seq<FunctionExprArg>) -> PR<Vec<FunctionExprArg>>
  decreases s.len(), 11int
{
  match chr(ws(s), ',') {
    PR::Ok(r, _) => match bnd(r, g_arg(ws(r))) {
      PR::Ok(r2, x) => if r2.len() < s.len() { g_args_rest(r2, acc.push(x)) } else { PR::Fail },
      PR::Err => PR::Ok(s, vec_of(acc)),
      PR::Fail => PR::Fail,
    },
    _ => PR::Ok(s, vec_of(acc)),
  }
}
#[verifier::opaque]
pub open spec fn g_args(s: Seq<char>) -> PR<Vec<FunctionExprArg>>
  decreases s.len(), 12int
{
  if at(s, 0, ')') { PR::Ok(s, vec_of(seq![])) }
  else { match bnd(s, g_arg(s)) { PR::Ok(r, x) => g_args_rest(r, seq![x]), PR::Err => PR::Err, PR::Fail => PR::Fail } }
}
// function-expr
#[verifier::opaque]
pub open spec fn g_func(s: Seq<char>) -> PR<FunctionExpr<Validated>>
  decreases s.len(), 2int
{
  match bnd(s, g_fname(s)) {
    PR::Ok(r, name) => if at(r, 0, '(') {
      let r1 = ws(r.skip(1));
      match if r1.len() < s.len() { g_args(r1) } else { PR::Fail } {
        PR::Ok(r2, args) => match chr(ws(r2), ')') {
          PR::Ok(r3, _) => match fn_call(name, args@) { Some(f) => PR::Ok(r3, f), None => PR::Fail },
          _ => PR::Fail,
        },
        _ => PR::Fail,
      }
    } else { PR::Err },
    PR::Err => PR::Err,
    PR::Fail => PR::Fail,
  }
}
//@endgrammar
/// what the first character already decides: no two kinds of literal, and no two kinds of basic expression
/// but a comparison and a test, begin with the same character (an order of alternatives is a matter of taste)
pub proof fn lem_first(s: Seq<char>)
  ensures
    !(at(s, 0, '\'') || at(s, 0, '"')) ==> g_string(s) is Err,
    !(s.len() > 0 && (s[0] == '-' || inc(CC::Digit, s[0]))) ==> g_number(s) is Err,
    !(at(s, 0, 't') || at(s, 0, 'f')) ==> g_bool(s) is Err,
    !at(s, 0, 'n') ==> g_null(s) is Err,
    !(s.len() > 0 && (s[0] == '-' || inc(CC::Digit, s[0]))) ==> g_int(s) is Err,
    !(s.len() > 0 && (s[0] == ':' || s[0] == '-' || inc(CC::Digit, s[0]))) ==> g_slice(s) is Err,
    !at(s, 0, '[') ==> g_longhand(s) is Err,
    !at(s, 0, '?') ==> g_filter(s) is Err,
    !(at(s, 0, '$') || at(s, 0, '@')) ==> g_query(s) is Err && g_singular(s) is Err,
    !at(s, 0, '(') ==> g_paren(s) is Err,
    !(s.len() > 0 && fc_first(s[0])) ==> g_func(s) is Err,
    at(s, 0, '!') || at(s, 0, '(') || s.len() == 0 ==> g_comparable(s) is Err && g_cmp(s) is Err,
{
  reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null");
  if !at(s, 0, 'n') && starts(s, "null"@) { assert(s[0] == "null"@[0]); }
  if !at(s, 0, 't') && starts(s, "true"@) { assert(s[0] == "true"@[0]); }
  if !at(s, 0, 'f') && starts(s, "false"@) { assert(s[0] == "false"@[0]); }
  if starts(s, seq!['-', '0']) { assert(s[0] == seq!['-', '0'][0]); }
  u_query(s); u_root(s); u_current(s); u_singular(s); u_paren(s); u_func(s); u_comparable(s); u_cmp(s); u_comp_rest(s); u_longhand(s); u_filter(s);
}
} // mod vxgq
pub use vxgq::*;

pub mod f_pname {
use super::*;
broadcast use {vx_parse_axioms, vx_parse_lemmas};
//@fn parse_non_ascii_unicode props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, if span(CC::NonAscii, $1@, 0, $1@.len() as int) > 0 { PR::Ok($1@.skip(span(CC::NonAscii, $1@, 0, $1@.len() as int)), $1@.take(span(CC::NonAscii, $1@, 0, $1@.len() as int))) } else { PR::Err }),
@loop take_while
@inv
$GO ==> span(CC::NonAscii, $S, 0, $S.len() as int) == span(CC::NonAscii, $S, $I as int, $S.len() as int),
!$GO ==> span(CC::NonAscii, $S, 0, $S.len() as int) == $I,
//@end
//@fn parse_name_first props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, g_name_first($1@)),
//@end
//@fn parse_name_char props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, g_name_char($1@)),
//@end
//@fn parse_dot_member_name props=C17,C18,~C16,~C19
@ensures
pr_txt($1@, $r, g_dot_name($1@)),
@entry
proof { lem_dot_name($1@); }
@loop fold_many0
@inv
nl_inv($IN@, g_name_rest($REST0, $ACC0@), g_name_rest($REST@, $ACC@), $REST@, $ACC@, $GO, $ERR),
//@end
//@fn parse_dot_member_name_shorthand props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, if at($1@, 0, '.') { match g_dot_name($1@.skip(1)) { PR::Ok(r, t) => PR::Ok(r, Segment::DotName(string_of(t))), PR::Err => PR::Err, PR::Fail => PR::Fail } } else { PR::Err }),
//@end
//@fn parse_wildcard_selector props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, if at($1@, 0, '*') { PR::Ok($1@.skip(1), Selector::Wildcard) } else { PR::Err }),
//@end
//@fn parse_dot_wildcard_shorthand props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, if at($1@, 0, '.') && at($1@, 1, '*') { PR::Ok($1@.skip(2), Segment::Wildcard) } else { PR::Err }),
//@end
}
pub use f_pname::*;

pub mod f_pseg {
use super::*;
broadcast use {vx_parse_axioms, vx_gram_lemmas};
//@fn parse_multi_selector props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_multi($1@)),
@decreases
$1@.len(), 12int
@entry
proof { u_multi($1@); }
@loop separated_list1
@inv
nl_vec($IN@, g_sels($REST0, $ACC0@), g_sels($REST@, $ACC@), $REST@, $ACC, $GO, $ERR),
@body
proof { u_sels($REST@, $ACC@); }
//@end
//@fn parse_child_long_hand props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_longhand($1@)),
@decreases
$1@.len(), 17int
@entry
proof { u_longhand($1@); }
//@end
//@fn parse_child_segment props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_child($1@)),
@decreases
$1@.len(), 18int
@entry
proof { u_child($1@); lem_first(ws($1@)); }
proof { u_longhand(ws($1@)); }
//@end
//@fn parse_descendant_segment props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_desc($1@)),
@decreases
$1@.len(), 18int
@entry
proof { u_desc($1@); lem_first(ws($1@).skip(2)); }
//@end
//@fn parse_segment props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_segment($1@)),
@decreases
$1@.len(), 19int
@entry
proof { u_segment($1@); }
//@end
//@fn parse_path_segments props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_segs($1@, seq![])),
@decreases
$1@.len(), 20int
@loop many0
@inv
nl_vec($IN@, g_segs($REST0, $ACC0@), g_segs($REST@, $ACC@), $REST@, $ACC, $GO, $ERR),
@body
proof { u_segs($REST@, $ACC@); }
//@end
//@fn parse_root_query props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_root($1@)),
@decreases
$1@.len(), 0int
@entry
proof { u_root($1@); }
//@end
//@fn parse_current_query props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_current($1@)),
@decreases
$1@.len(), 0int
@entry
proof { u_current($1@); }
//@end
//@fn parse_query props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_query($1@)),
@decreases
$1@.len(), 1int
@entry
proof { u_query($1@); }
//@end
//@fn parse_query_main props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_main($1@)),
//@end
//@fn parse_int_space_after props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, match g_int($1@) { PR::Ok(r, i) => PR::Ok(ws(r), i), p => p }),
//@end
//@fn parse_int_space_before props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_int(ws($1@))),
//@end
//@fn parse_array_slice props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, g_slice($1@)),
//@end
//@fn parse_name props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, match g_string($1@) { PR::Ok(r, t) => PR::Ok(r, Name(string_of(t))), PR::Err => PR::Err, PR::Fail => PR::Fail }),
//@end
//@fn parse_name_selector props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, match g_string($1@) { PR::Ok(r, t) => PR::Ok(r, Selector::Name(Name(string_of(t)))), PR::Err => PR::Err, PR::Fail => PR::Fail }),
//@end
//@fn parse_index props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, match g_int($1@) { PR::Ok(r, i) => PR::Ok(r, Index(i)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
//@end
//@fn parse_index_selector props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, match g_int($1@) { PR::Ok(r, i) => PR::Ok(r, Selector::Index(Index(i))), PR::Err => PR::Err, PR::Fail => PR::Fail }),
//@end
//@fn parse_array_slice_selector props=C17,C18,~C16,~C19
@ensures
pr_ok($1@, $r, match g_slice($1@) { PR::Ok(r, x) => PR::Ok(r, Selector::ArraySlice(x)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
//@end
//@fn parse_filter_selector props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match g_filter($1@) { PR::Ok(r, f) => PR::Ok(r, Selector::Filter(f)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 9int
//@end
//@fn parse_selector props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_selector($1@)),
@decreases
$1@.len(), 10int
@entry
proof { u_selector($1@); lem_first($1@); }
//@end
}
pub use f_pseg::*;

pub mod f_pfilter {
use super::*;
broadcast use {vx_parse_axioms, vx_gram_lemmas};
//@fn parse_filter props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_filter($1@)),
@decreases
$1@.len(), 8int
@entry
proof { u_filter($1@); }
//@end
//@fn parse_logical_and props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_and($1@)),
@decreases
$1@.len(), 7int
@entry
proof { u_and($1@); }
@loop separated_list1
@inv
nl_vec($IN@, g_ands($REST0, $ACC0@), g_ands($REST@, $ACC@), $REST@, $ACC, $GO, $ERR),
@body
proof { u_ands($REST@, $ACC@); }
//@end
//@fn parse_logical_or_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_or($1@)),
@decreases
$1@.len(), 8int
@entry
proof { u_or($1@); }
@loop separated_list1
@inv
nl_vec($IN@, g_ors($REST0, $ACC0@), g_ors($REST@, $ACC@), $REST@, $ACC, $GO, $ERR),
@body
proof { u_ors($REST@, $ACC@); }
//@end
//@fn parse_exist_expr_inner props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match g_query($1@) { PR::Ok(r, q) => PR::Ok(r, ExistExpr(q)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 2int
//@end
//@fn parse_exist_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match g_query($1@) { PR::Ok(r, q) => PR::Ok(r, BasicExpr::Exist(ExistExpr(q))), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 3int
//@end
//@fn parse_not_exist_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match if at($1@, 0, '!') { g_query(bang($1@)) } else { PR::Err } { PR::Ok(r, q) => PR::Ok(r, BasicExpr::NotExist(ExistExpr(q))), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 3int
//@end
//@fn parse_func_expr_inner props=C11,C17,C18
@ensures
pr_ok($1@, $r, g_test_call($1@)),
@decreases
$1@.len(), 3int
@entry
proof { u_test_call($1@); }
//@end
//@fn parse_func_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match g_test_call($1@) { PR::Ok(r, f) => PR::Ok(r, BasicExpr::FuncExpr(f)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 4int
//@end
//@fn parse_not_func_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match if at($1@, 0, '!') { g_test_call(bang($1@)) } else { PR::Err } { PR::Ok(r, f) => PR::Ok(r, BasicExpr::NotFuncExpr(f)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 4int
//@end
//@fn parse_paren_expr_inner props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_paren($1@)),
@decreases
$1@.len(), 4int
@entry
proof { u_paren($1@); }
//@end
//@fn parse_paren_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match g_paren($1@) { PR::Ok(r, x) => PR::Ok(r, BasicExpr::Paren(x)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 5int
//@end
//@fn parse_not_parent_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match if at($1@, 0, '!') { g_paren(bang($1@)) } else { PR::Err } { PR::Ok(r, x) => PR::Ok(r, BasicExpr::NotParen(x)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 5int
//@end
//@fn parse_basic_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_basic($1@)),
@decreases
$1@.len(), 6int
@entry
proof { u_basic($1@); lem_first($1@); lem_first(bang($1@)); }
//@end
//@fn parse_comp_expr props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_cmp($1@)),
@decreases
$1@.len(), 5int
@entry
proof { reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("<="); reveal_strlit(">="); }
proof { u_cmp($1@); }
//@end
//@fn parse_comparison_operator props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_op($1@)),
//@end
//@fn parse_literal props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_literal($1@)),
@entry
proof { lem_first($1@); }
//@end
//@fn parse_literal_comparable props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match g_literal($1@) { PR::Ok(r, l) => PR::Ok(r, Comparable::Literal(l)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
//@end
//@fn parse_singular_path props=C09,C17,C18
@ensures
pr_ok($1@, $r, g_singular($1@)),
@decreases
$1@.len(), 2int
@entry
proof { u_singular($1@); }
//@end
//@fn parse_singular_path_comparable props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, match g_singular($1@) { PR::Ok(r, q) => PR::Ok(r, Comparable::SingularQuery(q)), PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 3int
//@end
//@fn parse_function_expr_comparable props=C11,C17,C18
@ensures
pr_ok($1@, $r, match g_func($1@) { PR::Ok(r, f) => if f.return_type is Value { PR::Ok(r, Comparable::FunctionExpr(f)) } else { PR::Err }, PR::Err => PR::Err, PR::Fail => PR::Fail }),
@decreases
$1@.len(), 3int
//@end
//@fn parse_comparable props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, g_comparable($1@)),
@decreases
$1@.len(), 4int
@entry
proof { u_comparable($1@); u_comp_rest($1@); lem_first($1@); }
//@end
}
pub use f_pfilter::*;

pub mod f_pfunc {
use super::*;
broadcast use {vx_parse_axioms, vx_gram_lemmas};
//@fn parse_function_name_first props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, if $1@.len() > 0 && fc_first($1@[0]) { PR::Ok($1@.skip(1), $1@[0]) } else { PR::Err }),
//@end
//@fn parse_function_name_char props=C17,C18,~C11,~C16,~C19
@ensures
pr_ok($1@, $r, if $1@.len() > 0 && fc_char($1@[0]) { PR::Ok($1@.skip(1), $1@[0]) } else { PR::Err }),
//@end
//@fn parse_function_name props=C17,C18,~C11,~C16,~C19
@ensures
pr_txt($1@, $r, g_fname($1@)),
@entry
proof { if $1@.len() > 0 { lem_fname($1@); } }
@loop fold_many0
@inv
nl_inv($IN@, g_fname_rest($REST0, $ACC0@), g_fname_rest($REST@, $ACC@), $REST@, $ACC@, $GO, $ERR),
//@end
//@fn parse_function_argument props=C11,C17,C18
@ensures
pr_ok($1@, $r, g_arg($1@)),
@decreases
$1@.len(), 10int
@entry
proof { u_arg($1@); lem_first($1@); }
proof { u_plain_arg($1@); }
//@end
//@fn parse_function_arguments props=C11,C17,C18
@ensures
pr_ok($1@, $r, g_args($1@)),
@decreases
$1@.len(), 12int
@entry
proof { u_args($1@); }
@loop separated_list1
@inv
nl_vec($IN@, g_args_rest($REST0, $ACC0@), g_args_rest($REST@, $ACC@), $REST@, $ACC, $GO, $ERR),
@body
proof { u_args_rest($REST@, $ACC@); }
//@end
//@fn parse_function_expr props=C11,C17,C18
@ensures
pr_ok($1@, $r, g_func($1@)),
@decreases
$1@.len(), 2int
@entry
proof { u_func($1@); }
@loop Function for-return
@inv
$SLOT is None ==> inv_find(inventory_s(), name@, 0) == inv_find(inventory_s(), name@, $I as int),
$SLOT matches Some(Ok(x)) ==> fn_call(name@, args@) == Some(x),
$SLOT matches Some(Err(_)) ==> fn_call(name@, args@) is None,
//@end
}
pub use f_pfunc::*;

// ---- parsing a text
//@type JsonPath
//@type ErrorImpl
//@type ParseError
impl<I> VxDisplay for Error<I> { uninterp spec fn disp(&self) -> Seq<char>; }
pub mod vxapi {
use super::*;
/// p is the offset of a character, or the length
pub open spec fn boundary(s: Seq<char>, p: int) -> bool { exists|k: int| 0 <= k <= s.len() && p == utf8_len(#[trigger] s.take(k)) }
}
pub use vxapi::*;
pub mod f_parse {
use super::*;
broadcast use {vx_parse_axioms, vx_gram_lemmas};
//@fn Error<I>::calculate_position props=C18,~C16,~C19
@inst
I &'vx str
@requires
$self.errors@.len() > 0 ==> sfx($self.errors@[0].input@, $1@),
@ensures
boundary($1@, $r as int),
@entry
proof {
  assert(utf8_len($1@.take(0)) == 0);
  if $self.errors@.len() > 0 { lem_sfx_len($self.errors@[0].input@, $1@); }
}
//@end
//@fn <ParseError as From<(I,Error<I>)>>::from props=C18,~C16,~C19
@inst
I &'vx str
@spec
open spec fn from_pre(v: (&'vx str, Error<&'vx str>)) -> bool { v.1.errors@.len() > 0 ==> sfx(v.1.errors@[0].input@, v.0@) }
open spec fn from_post(v: (&'vx str, Error<&'vx str>), r: Self) -> bool { boundary(v.0@, r.err.position as int) }
//@end
//@fn ParseError::position props=C18,~C16,~C19
@ensures
$r == $self.err.position,
//@end
//@fn ParseError::message props=C18
@ensures
$r@ == $self.err.message@,
//@end
//@fn JsonPath::parse props=C17,C18,~C11,~C16,~C19
@ensures
$r matches Ok(q) ==> g_main($1@) matches PR::Ok(_, q0) && q0 == q.0,
$r matches Err(e) ==> !(g_main($1@) is Ok) && boundary($1@, e.err.position as int),
//@end
//@fn <JsonPath as FromStr>::from_str props=C17,C18,~C11,~C16,~C19
@ensures
$r matches Ok(q) ==> g_main($1@) matches PR::Ok(_, q0) && q0 == q.0,
$r matches Err(e) ==> !(g_main($1@) is Ok) && boundary($1@, e.err.position as int),
//@end
}
pub use f_parse::*;

pub mod vxmem {
use super::*;
/// a text of this length is held in memory, and what is parsed from it
pub open spec fn in_memory(n: nat) -> bool { n <= 0x1f_ffff_ffff_ffff }
pub broadcast axiom fn ax_vec_of<T>(s: Seq<T>)
  requires in_memory(s.len())
  ensures (#[trigger] vec_of(s))@ == s;
pub broadcast axiom fn ax_string_of(s: Seq<char>)
  requires in_memory(s.len())
  ensures (#[trigger] string_of(s))@ == s;
}
pub use vxmem::*;
