// ------------------------------------------------------------- C12: Integer

/// `pub struct Integer(i64)`: the field is private to its module, every construction (`Integer(..)`,
/// `Self(..)`) in the source becomes `vx_make`, every `.0` becomes `vx_get`; the interval is the
/// invariant of the type, to be shown at each construction.
//@opaque Integer
//@derives Integer Clone Copy PartialEq Eq PartialOrd Ord Default
pub mod vxint {
use super::*;
pub open spec fn in_range(i: int) -> bool { -9007199254740991 <= i <= 9007199254740991 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Integer { x: i64 }
impl Integer { pub uninterp spec fn v(&self) -> int; }
pub broadcast axiom fn ax_integer_range(i: Integer)
  ensures in_range(#[trigger] i.v());
pub broadcast axiom fn ax_integer_ext(a: Integer, b: Integer)
  requires #[trigger] a.v() == #[trigger] b.v()
  ensures a == b;
pub uninterp spec fn mk_int(v: int) -> Integer;
pub broadcast axiom fn ax_mk_int(v: int)
  requires in_range(v)
  ensures (#[trigger] mk_int(v)).v() == v;
pub broadcast group vx_int_axioms { ax_integer_range, ax_integer_ext, ax_mk_int }
} // mod vxint
pub use vxint::{Integer, in_range, mk_int, vx_int_axioms, ax_integer_range, ax_integer_ext, ax_mk_int};
impl Integer {
  #[verifier::external_body]
  pub fn vx_make(e: i64) -> (r: Integer)
    requires in_range(e as int)
    ensures r.v() == e
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_get(&self) -> (r: i64)
    ensures r == self.v()
  { unimplemented!() }
  // derived Ord
  #[verifier::external_body]
  pub fn max(self, o: Integer) -> (r: Integer) ensures r == (if o.v() >= self.v() { o } else { self }) { unimplemented!() }
  #[verifier::external_body]
  pub fn min(self, o: Integer) -> (r: Integer) ensures r == (if o.v() < self.v() { o } else { self }) { unimplemented!() }
}
pub open spec fn int_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
// derived comparisons
impl PartialEqSpecImpl for Integer {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &Integer) -> bool { self.v() == o.v() }
}
impl PartialEq for Integer {
  #[verifier::external_body]
  fn eq(&self, o: &Integer) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for Integer {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &Integer) -> Option<Ordering> { Some(int_ord(self.v(), o.v())) }
}
impl PartialOrd for Integer {
  #[verifier::external_body]
  fn partial_cmp(&self, o: &Integer) -> Option<Ordering> { unimplemented!() }
}
impl VxEqTo<Integer> for Integer {
  open spec fn eqv(&self, o: &Integer) -> bool { self.v() == o.v() }
  #[verifier::external_body]
  fn vx_eq_to(&self, o: &Integer) -> (r: bool) { unimplemented!() }
}
impl VxDefault for Integer {
  open spec fn default_post(r: Self) -> bool { r.v() == 0 }
  fn vx_default() -> (r: Self) { Integer::vx_make(0) }
}

#[verifier::external_body]
pub struct TryFromIntError { x: u8 }
#[verifier::external_body]
pub struct ParseIntError { x: u8 }
macro_rules! vx_int_try { ($($a:ty => $b:ty);* $(;)?) => { verus! { $(
  impl VxTryFrom<$a> for $b {
    type Error = TryFromIntError;
    open spec fn try_post(v: $a, r: Result<$b, TryFromIntError>) -> bool {
      if <$b>::MIN <= v <= <$b>::MAX { r is Ok && r->Ok_0 == v } else { r is Err }
    }
    #[verifier::external_body]
    fn vx_try_from(v: $a) -> (r: Result<$b, TryFromIntError>) { unimplemented!() }
  }
)* } } }
vx_int_try! { i128 => i64; u64 => i64; u128 => i64; usize => i64; isize => i64; i64 => usize; i128 => usize; i64 => u64; u64 => usize; usize => u64; i64 => isize; u32 => usize; usize => u32; i64 => u32 }
macro_rules! vx_int_from { ($($a:ty => $b:ty);* $(;)?) => { verus! { $(
  impl VxFrom<$a> for $b {
    open spec fn from_post(v: $a, r: $b) -> bool { r == v }
    fn vx_from(v: $a) -> (r: $b) { v as $b }
  }
)* } } }
vx_int_from! { i8 => i64; i16 => i64; i32 => i64; u8 => i64; u16 => i64; u32 => i64; u8 => u32; u8 => u64; u8 => usize; u16 => usize; u16 => u32; u16 => u64; u8 => u16; u16 => i32; u8 => i32; u32 => u64; u32 => i128; u64 => i128; i32 => i128; i64 => i128 }

impl VxFrom<char> for u32 {
  open spec fn from_post(v: char, r: u32) -> bool { r == v as u32 }
  fn vx_from(v: char) -> (r: u32) { v as u32 }
}
impl VxFrom<char> for u64 {
  open spec fn from_post(v: char, r: u64) -> bool { r == v as u64 }
  fn vx_from(v: char) -> (r: u64) { v as u64 }
}
impl VxFrom<u8> for char {
  open spec fn from_post(v: u8, r: char) -> bool { r == v as char }
  fn vx_from(v: u8) -> (r: char) { v as char }
}

/// what the text of an integer means to `str::parse`
pub open spec fn digit_of(c: char) -> Option<int> {
  if '0' <= c && c <= '9' { Some(c as int - '0' as int) } else { None }
}
pub open spec fn digits_val(s: Seq<char>) -> Option<int>
  decreases s.len()
{
  if s.len() == 0 { Some(0) }
  else { match (digits_val(s.drop_last()), digit_of(s.last())) { (Some(a), Some(d)) => Some(10 * a + d), _ => None } }
}
pub open spec fn int_of(s: Seq<char>) -> Option<int> {
  if s.len() > 1 && s[0] == '-' { match digits_val(s.skip(1)) { Some(a) => Some(-a), None => None } }
  else if s.len() > 1 && s[0] == '+' { digits_val(s.skip(1)) }
  else if s.len() == 0 { None } else { digits_val(s) }
}
#[verifier::external_body]
pub fn vx_parse_i64<A: VxStr + ?Sized>(s: &A) -> (r: Result<i64, ParseIntError>)
  ensures match r {
    Ok(i) => int_of(s.sv()) == Some(i as int),
    Err(_) => int_of(s.sv()) is None || !(i64::MIN <= int_of(s.sv())->Some_0 <= i64::MAX),
  }
{ unimplemented!() }

//@type IntegerError
impl VxFrom<ParseIntError> for IntegerError {
  open spec fn from_post(v: ParseIntError, r: IntegerError) -> bool { r == IntegerError::Parse(v) }
  fn vx_from(v: ParseIntError) -> (r: IntegerError) { IntegerError::Parse(v) }
}
//@const MAX
//@const MIN

pub mod f_int {
use super::*;
broadcast use {vx_axioms, vx_lemmas, vx_int_axioms};
//@fn check_i64_is_valid props=C12
@ensures
$r == in_range($1 as int),
//@end
//@fn Integer::ZERO props=C12
@ensures
$r.v() == 0,
//@end
//@fn Integer::try_new props=C12
@ensures
in_range($1 as int) ==> $r is Ok && $r->Ok_0.v() == $1,
!in_range($1 as int) ==> $r is Err,
//@end
//@fn Integer::from_i64_unchecked props=C12
@requires
in_range($1 as int),
@ensures
$r.v() == $1,
//@end
//@fn Integer::abs props=C12
@ensures
$r.v() == (if $self.v() < 0 { -$self.v() } else { $self.v() }),
//@end
//@fn Integer::checked_add props=C12
@ensures
in_range($self.v() + $1.v()) ==> $r is Some && $r->Some_0.v() == $self.v() + $1.v(),
!in_range($self.v() + $1.v()) ==> $r is None,
//@end
//@fn Integer::checked_sub props=C12
@ensures
in_range($self.v() - $1.v()) ==> $r is Some && $r->Some_0.v() == $self.v() - $1.v(),
!in_range($self.v() - $1.v()) ==> $r is None,
//@end
//@fn Integer::checked_mul props=C12
@ensures
in_range($self.v() * $1.v()) ==> $r is Some && $r->Some_0.v() == $self.v() * $1.v(),
!in_range($self.v() * $1.v()) ==> $r is None,
//@end
//@fn <Integer as TryFrom<i64>>::try_from props=C12
@spec
open spec fn try_post(v: i64, r: Result<Self, IntegerError>) -> bool { if in_range(v as int) { r is Ok && r->Ok_0.v() == v } else { r is Err } }
//@end
//@fn <Integer as TryFrom<i128>>::try_from props=C12
@spec
open spec fn try_post(v: i128, r: Result<Self, IntegerError>) -> bool { if in_range(v as int) { r is Ok && r->Ok_0.v() == v } else { r is Err } }
//@end
//@fn <Integer as TryFrom<u64>>::try_from props=C12
@spec
open spec fn try_post(v: u64, r: Result<Self, IntegerError>) -> bool { if in_range(v as int) { r is Ok && r->Ok_0.v() == v } else { r is Err } }
//@end
//@fn <Integer as TryFrom<u128>>::try_from props=C12
@spec
open spec fn try_post(v: u128, r: Result<Self, IntegerError>) -> bool { if in_range(v as int) { r is Ok && r->Ok_0.v() == v } else { r is Err } }
//@end
//@fn <Integer as TryFrom<usize>>::try_from props=C12
@spec
open spec fn try_post(v: usize, r: Result<Self, IntegerError>) -> bool { if in_range(v as int) { r is Ok && r->Ok_0.v() == v } else { r is Err } }
//@end
//@fn <Integer as TryFrom<isize>>::try_from props=C12
@spec
open spec fn try_post(v: isize, r: Result<Self, IntegerError>) -> bool { if in_range(v as int) { r is Ok && r->Ok_0.v() == v } else { r is Err } }
//@end
//@fn <Integer as From<i8>>::from props=C12
@spec
open spec fn from_post(v: i8, r: Self) -> bool { r.v() == v }
//@end
//@fn <Integer as From<i16>>::from props=C12
@spec
open spec fn from_post(v: i16, r: Self) -> bool { r.v() == v }
//@end
//@fn <Integer as From<i32>>::from props=C12
@spec
open spec fn from_post(v: i32, r: Self) -> bool { r.v() == v }
//@end
//@fn <Integer as From<u8>>::from props=C12
@spec
open spec fn from_post(v: u8, r: Self) -> bool { r.v() == v }
//@end
//@fn <Integer as From<u16>>::from props=C12
@spec
open spec fn from_post(v: u16, r: Self) -> bool { r.v() == v }
//@end
//@fn <Integer as From<u32>>::from props=C12
@spec
open spec fn from_post(v: u32, r: Self) -> bool { r.v() == v }
//@end
//@fn <Integer as FromStr>::from_str props=C12
@ensures
int_of($1@) is Some && in_range(int_of($1@)->Some_0) ==> $r is Ok && $r->Ok_0.v() == int_of($1@)->Some_0,
int_of($1@) is None || !in_range(int_of($1@)->Some_0) ==> $r is Err,
//@end
//@fn <usize as TryFrom<Integer>>::try_from props=C12
@spec
open spec fn try_post(v: Integer, r: Result<Self, TryFromIntError>) -> bool { if 0 <= v.v() { r is Ok && r->Ok_0 == v.v() } else { r is Err } }
//@end
impl PartialEqSpecImpl<i64> for Integer {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &i64) -> bool { self.v() == *o }
}
//@fn <Integer as PartialEq<i64>>::eq props=C12 mode=trait
//@end
impl PartialOrdSpecImpl<i64> for Integer {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &i64) -> Option<Ordering> { Some(int_ord(self.v(), *o as int)) }
}
//@fn <Integer as PartialOrd<i64>>::partial_cmp props=C12 mode=trait
//@end
}
pub use f_int::*;
