// Trusted model of the parts of std and serde_json that the functions under contract use.
// Everything `external_body`, `uninterp` or `axiom` below is an assumption.
#![allow(mismatched_lifetime_syntaxes, unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, dead_code, non_snake_case, non_camel_case_types, unreachable_code, unused_must_use, redundant_semicolons)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::collections::VecDeque;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
pub mod vxp {
use super::*;

pub broadcast group vx_axioms { ax_map_height, ax_string_ext, ax_str_ext }
pub broadcast group vx_lemmas { lem_vals_len, lem_vals_index, lem_vals_push, lem_vals_add, lem_vals_empty, lem_take_push, lem_take_full, lem_take_none, lem_add_assoc, lem_add_push, lem_add_one, lem_push_add }
pub broadcast group vx_concat { lem_add_left, lem_add_none }

#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T)
  requires false
{ unimplemented!() }

// ------------------------------------------------------------- serde_json

#[verifier::external_body]
pub struct Map { x: u8 }
#[verifier::external_body]
pub struct Number { x: u8 }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Map) }

impl Map {
  /// members in iteration order
  pub uninterp spec fn entries(&self) -> Seq<(String, Value)>;
}
pub broadcast axiom fn ax_map_height(v: Value, i: int)
  requires v is Object, 0 <= i < v->Object_0.entries().len()
  ensures (decreases_to!(v => (#[trigger] v->Object_0.entries()[i]).1));
pub broadcast axiom fn ax_map_keys(m: Map, i: int, j: int)
  requires 0 <= i < m.entries().len(), 0 <= j < m.entries().len(), i != j
  ensures #[trigger] m.entries()[i].0@ != #[trigger] m.entries()[j].0@;
/// strings with the same characters are equal
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub uninterp spec fn str_of(s: Seq<char>) -> &'static str;
pub broadcast axiom fn ax_string_ext(a: String)
  ensures string_of(#[trigger] a@) == a;
pub broadcast axiom fn ax_str_ext(a: &str)
  ensures str_of(#[trigger] a@) == a;

/// the index of a member
pub open spec fn mfind(m: Map, k: Seq<char>) -> Option<int> {
  if exists|i: int| 0 <= i < m.entries().len() && m.entries()[i].0@ == k {
    Some(choose|i: int| 0 <= i < m.entries().len() && m.entries()[i].0@ == k)
  } else { None }
}
pub open spec fn mget(m: Map, k: Seq<char>) -> Option<Value> {
  match mfind(m, k) { Some(i) => Some(m.entries()[i].1), None => None }
}

pub trait VxStr { spec fn sv(&self) -> Seq<char>; }
impl VxStr for str { open spec fn sv(&self) -> Seq<char> { self@ } }
impl VxStr for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl<T: VxStr + ?Sized> VxStr for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } }

impl Map {
  #[verifier::external_body]
  pub fn get<Q: VxStr + ?Sized>(&self, k: &Q) -> (r: Option<&Value>)
    ensures match r { Some(v) => mget(*self, k.sv()) == Some(*v), None => mget(*self, k.sv()) is None }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_key_value<Q: VxStr + ?Sized>(&self, k: &Q) -> (r: Option<(&String, &Value)>)
    ensures match r { Some(kv) => kv.0@ == k.sv() && mget(*self, k.sv()) == Some(*kv.1), None => mget(*self, k.sv()) is None }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key<Q: VxStr + ?Sized>(&self, k: &Q) -> (r: bool)
    ensures r == (mget(*self, k.sv()) is Some)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize)
    ensures r == self.entries().len()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool)
    ensures r == (self.entries().len() == 0)
  { unimplemented!() }
}
impl Value {
  pub fn as_array(&self) -> (r: Option<&Vec<Value>>)
    ensures match r { Some(a) => *self == Value::Array(*a), None => !(*self is Array) }
  { match self { Value::Array(a) => Some(a), _ => None } }
  pub fn as_object(&self) -> (r: Option<&Map>)
    ensures match r { Some(a) => *self == Value::Object(*a), None => !(*self is Object) }
  { match self { Value::Object(a) => Some(a), _ => None } }
  pub fn as_str(&self) -> (r: Option<&String>)
    ensures match r { Some(a) => *self == Value::String(*a), None => !(*self is String) }
  { match self { Value::String(a) => Some(a), _ => None } }
  pub fn as_bool(&self) -> (r: Option<bool>)
    ensures match r { Some(a) => *self == Value::Bool(a), None => !(*self is Bool) }
  { match self { Value::Bool(a) => Some(*a), _ => None } }
  pub fn is_null(&self) -> (r: bool) ensures r == (*self is Null) { match self { Value::Null => true, _ => false } }
  pub fn is_boolean(&self) -> (r: bool) ensures r == (*self is Bool) { match self { Value::Bool(_) => true, _ => false } }
  pub fn is_number(&self) -> (r: bool) ensures r == (*self is Number) { match self { Value::Number(_) => true, _ => false } }
  pub fn is_string(&self) -> (r: bool) ensures r == (*self is String) { match self { Value::String(_) => true, _ => false } }
  pub fn is_array(&self) -> (r: bool) ensures r == (*self is Array) { match self { Value::Array(_) => true, _ => false } }
  pub fn is_object(&self) -> (r: bool) ensures r == (*self is Object) { match self { Value::Object(_) => true, _ => false } }
}
impl Clone for Value {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Number {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// Numbers: the value of a number is that of the nearest f64 (serde_json without arbitrary_precision,
// where as_f64 is never None), which is finite.
pub uninterp spec fn fval(f: f64) -> real;
pub uninterp spec fn num_f64(n: Number) -> f64;
pub open spec fn nval(n: Number) -> real { fval(num_f64(n)) }
pub uninterp spec fn num_int(i: int) -> Number;
impl Number {
  #[verifier::external_body]
  pub fn as_f64(&self) -> (r: Option<f64>)
    ensures r == Some(num_f64(*self))
  { unimplemented!() }
  #[verifier::external_body]
  pub fn as_i64(&self) -> (r: Option<i64>)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn as_u64(&self) -> (r: Option<u64>)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_from_int(i: i32) -> (r: Number)
    ensures r == num_int(i as int)
  { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_f64_eq(a: f64, b: f64) -> (r: bool) ensures r == (fval(a) == fval(b)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_lt(a: f64, b: f64) -> (r: bool) ensures r == (fval(a) < fval(b)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_le(a: f64, b: f64) -> (r: bool) ensures r == (fval(a) <= fval(b)) { unimplemented!() }

// ------------------------------------------------------------- items and lists

/// anything that stands for a node
pub trait VxItem { spec fn val(self) -> Value; }
impl<'b> VxItem for &'b Value { open spec fn val(self) -> Value { *self } }
impl<'c, 'b> VxItem for &'c &'b Value { open spec fn val(self) -> Value { **self } }
impl<'b> VxItem for (&'b String, &'b Value) { open spec fn val(self) -> Value { *self.1 } }
#[verifier::opaque]
pub open spec fn vals<T: VxItem>(s: Seq<T>) -> Seq<Value> { Seq::new(s.len(), |i: int| s[i].val()) }
pub broadcast proof fn lem_vals_len<T: VxItem>(s: Seq<T>)
  ensures (#[trigger] vals(s)).len() == s.len()
{ reveal(vals); }
pub broadcast proof fn lem_vals_index<T: VxItem>(s: Seq<T>, i: int)
  requires 0 <= i < s.len()
  ensures #[trigger] vals(s)[i] == s[i].val()
{ reveal(vals); }
pub broadcast proof fn lem_vals_push<T: VxItem>(s: Seq<T>, x: T)
  ensures #[trigger] vals(s.push(x)) == vals(s).push(x.val())
{ reveal(vals); assert(vals(s.push(x)) =~= vals(s).push(x.val())); }
pub broadcast proof fn lem_vals_add<T: VxItem>(s: Seq<T>, t: Seq<T>)
  ensures #[trigger] vals(s + t) == vals(s) + vals(t)
{ reveal(vals); assert(vals(s + t) =~= vals(s) + vals(t)); }
pub broadcast proof fn lem_vals_empty<T: VxItem>()
  ensures #[trigger] vals(Seq::<T>::empty()) == Seq::<Value>::empty()
{ reveal(vals); assert(vals(Seq::<T>::empty()) =~= Seq::<Value>::empty()); }
pub broadcast proof fn lem_take_push<T>(s: Seq<T>, n: int, m: int)
  requires 0 < n <= s.len(), m == n - 1
  ensures #![trigger s.take(n), s.take(m)] s.take(n) == s.take(m).push(s[m])
{ assert(s.take(n) =~= s.take(m).push(s[m])); }
pub broadcast proof fn lem_take_full<T>(s: Seq<T>, n: int)
  requires n == s.len()
  ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
pub broadcast proof fn lem_take_none<T>(s: Seq<T>)
  ensures #[trigger] s.take(0) == Seq::<T>::empty()
{ assert(s.take(0) =~= Seq::<T>::empty()); }
pub broadcast proof fn lem_add_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
  ensures #![trigger (a + b) + c, a + (b + c)] (a + b) + c == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lem_add_left<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
  ensures #[trigger] (a + (b + c)) == (a + b) + c
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lem_add_none<T>(a: Seq<T>)
  ensures #[trigger] (a + Seq::<T>::empty()) == a, #[trigger] (Seq::<T>::empty() + a) == a
{ assert(a + Seq::<T>::empty() =~= a); assert(Seq::<T>::empty() + a =~= a); }
pub broadcast proof fn lem_add_push<T>(a: Seq<T>, b: Seq<T>, x: T)
  ensures #![trigger a + b.push(x), a + b] a + b.push(x) == (a + b).push(x)
{ assert(a + b.push(x) =~= (a + b).push(x)); }
pub broadcast proof fn lem_add_one<T>(a: Seq<T>, x: T)
  ensures #[trigger] (a + Seq::<T>::empty().push(x)) == a.push(x)
{ assert(a + Seq::<T>::empty().push(x) =~= a.push(x)); }
pub broadcast proof fn lem_push_add<T>(a: Seq<T>, b: Seq<T>, x: T)
  ensures #![trigger a.push(x) + b, a + (Seq::<T>::empty().push(x) + b)] a.push(x) + b == a + (Seq::<T>::empty().push(x) + b)
{ assert(a.push(x) + b =~= a + (seq![x] + b)); }

/// the items of an iterable, in order
pub trait VxIter: Sized {
  type Item;
  spec fn vx_seq(self) -> Seq<Self::Item>;
  fn vx_iter(self) -> (r: Vec<Self::Item>)
    ensures r@ == self.vx_seq();
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VxIter for &'a Vec<T> {
  type Item = &'a T;
  open spec fn vx_seq(self) -> Seq<&'a T> { refs(self@) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<'c, 'a, T> VxIter for &'c &'a Vec<T> {
  type Item = &'a T;
  open spec fn vx_seq(self) -> Seq<&'a T> { refs(self@) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<'a, T> VxIter for &'a [T] {
  type Item = &'a T;
  open spec fn vx_seq(self) -> Seq<&'a T> { refs(self@) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<'c, 'a, T> VxIter for &'c &'a [T] {
  type Item = &'a T;
  open spec fn vx_seq(self) -> Seq<&'a T> { refs(self@) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<T> VxIter for Vec<T> {
  type Item = T;
  open spec fn vx_seq(self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T> VxIter for Option<T> {
  type Item = T;
  open spec fn vx_seq(self) -> Seq<T> { match self { Some(x) => seq![x], None => seq![] } }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<T>) { unimplemented!() }
}
pub open spec fn members<'a>(m: Map) -> Seq<(&'a String, &'a Value)> {
  Seq::new(m.entries().len(), |i: int| (&m.entries()[i].0, &m.entries()[i].1))
}
impl<'a> VxIter for &'a Map {
  type Item = (&'a String, &'a Value);
  open spec fn vx_seq(self) -> Seq<(&'a String, &'a Value)> { members(*self) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<(&'a String, &'a Value)>) { unimplemented!() }
}
impl<'c, 'a> VxIter for &'c &'a Map {
  type Item = (&'a String, &'a Value);
  open spec fn vx_seq(self) -> Seq<(&'a String, &'a Value)> { members(**self) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<(&'a String, &'a Value)>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_values<'a>(m: &'a Map) -> (r: Vec<&'a Value>)
  ensures r@ == Seq::new(m.entries().len(), |i: int| &m.entries()[i].1)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T)
  requires i < v@.len()
  ensures r == v@[i as int]
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
#[verifier::external_body]
pub fn vx_skip<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
  ensures r@ == if n >= v@.len() { seq![] } else { v@.skip(n as int) }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_take<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
  ensures r@ == if n >= v@.len() { v@ } else { v@.take(n as int) }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_chain<T>(v: Vec<T>, w: Vec<T>) -> (r: Vec<T>) ensures r@ == v@ + w@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_range(a: usize, b: usize) -> (r: Vec<usize>)
  ensures r@.len() == if b <= a { 0 } else { b - a }, forall|i: int| 0 <= i < r@.len() ==> r@[i] == a + i
{ unimplemented!() }
pub fn vx_slice_of<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { v.as_slice() }

/// std::slice::Iter: the items not yet yielded
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxSliceIter<'a, T> { x: &'a [T] }
impl<'a, T> VxSliceIter<'a, T> {
  pub uninterp spec fn rest(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn vx_new(v: &'a Vec<T>) -> (r: Self) ensures r.rest() == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<&'a T>)
    ensures match r {
      Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
      None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
    }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn next_back(&mut self) -> (r: Option<&'a T>)
    ensures match r {
      Some(x) => old(self).rest().len() > 0 && *x == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last(),
      None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
    }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.rest().len(), r.1 == Some(r.0) { unimplemented!() }
}
/// std::vec::IntoIter
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIntoIter<T> { x: Vec<T> }
impl<T> VxIntoIter<T> {
  pub uninterp spec fn rest(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn vx_new(v: Vec<T>) -> (r: Self) ensures r.rest() == v@ { unimplemented!() }
}

impl<'a, T> VxIter for VxSliceIter<'a, T> {
  type Item = &'a T;
  open spec fn vx_seq(self) -> Seq<&'a T> { refs(self.rest()) }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<T> VxIter for VxIntoIter<T> {
  type Item = T;
  open spec fn vx_seq(self) -> Seq<T> { self.rest() }
  #[verifier::external_body]
  fn vx_iter(self) -> (r: Vec<T>) { unimplemented!() }
}

// ------------------------------------------------------------- conversions, defaults, equality

pub trait VxFrom<T>: Sized {
  open spec fn from_pre(v: T) -> bool { true }
  spec fn from_post(v: T, r: Self) -> bool;
  fn vx_from(v: T) -> (r: Self)
    requires Self::from_pre(v)
    ensures Self::from_post(v, r);
}
impl<T> VxFrom<T> for T {
  open spec fn from_post(v: T, r: T) -> bool { r == v }
  fn vx_from(v: T) -> (r: T) { v }
}
pub trait VxInto<U>: Sized {
  spec fn into_pre(v: Self) -> bool;
  spec fn into_post(v: Self, r: U) -> bool;
  fn vx_into(self) -> (r: U)
    requires Self::into_pre(self)
    ensures Self::into_post(self, r);
}
impl<T, U: VxFrom<T>> VxInto<U> for T {
  open spec fn into_pre(v: T) -> bool { U::from_pre(v) }
  open spec fn into_post(v: T, r: U) -> bool { U::from_post(v, r) }
  fn vx_into(self) -> (r: U) { U::vx_from(self) }
}
impl VxFrom<Number> for Value {
  open spec fn from_post(v: Number, r: Self) -> bool { r == Value::Number(v) }
  fn vx_from(v: Number) -> (r: Self) { Value::Number(v) }
}
impl VxFrom<String> for Value {
  open spec fn from_post(v: String, r: Self) -> bool { r == Value::String(v) }
  fn vx_from(v: String) -> (r: Self) { Value::String(v) }
}
impl VxFrom<bool> for Value {
  open spec fn from_post(v: bool, r: Self) -> bool { r == Value::Bool(v) }
  fn vx_from(v: bool) -> (r: Self) { Value::Bool(v) }
}
pub uninterp spec fn num_usize(i: nat) -> Number;
impl VxFrom<usize> for Value {
  open spec fn from_post(v: usize, r: Self) -> bool { r == Value::Number(num_usize(v as nat)) }
  #[verifier::external_body]
  fn vx_from(v: usize) -> (r: Self) { unimplemented!() }
}
pub trait VxTryFrom<T>: Sized {
  type Error;
  spec fn try_post(v: T, r: Result<Self, Self::Error>) -> bool;
  fn vx_try_from(v: T) -> (r: Result<Self, Self::Error>)
    ensures Self::try_post(v, r);
}
pub trait VxDefault: Sized {
  spec fn default_post(r: Self) -> bool;
  fn vx_default() -> (r: Self)
    ensures Self::default_post(r);
}
impl<T> VxDefault for Vec<T> {
  open spec fn default_post(r: Self) -> bool { r@ == Seq::<T>::empty() }
  fn vx_default() -> (r: Self) { Vec::new() }
}
impl VxDefault for bool {
  open spec fn default_post(r: Self) -> bool { r == false }
  fn vx_default() -> (r: Self) { false }
}
pub fn vx_bit_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn vx_bit_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vx_bit_xor(a: bool, b: bool) -> (r: bool) ensures r == (a != b) { a != b }
pub trait VxEqTo<B: ?Sized> {
  spec fn eqv(&self, o: &B) -> bool;
  fn vx_eq_to(&self, o: &B) -> (r: bool)
    ensures r == self.eqv(o);
}
pub fn vx_eq<A: VxEqTo<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool)
  ensures r == a.eqv(b)
{ a.vx_eq_to(b) }
impl<A: VxEqTo<B> + ?Sized, B: ?Sized> VxEqTo<&B> for &A {
  open spec fn eqv(&self, o: &&B) -> bool { (**self).eqv(*o) }
  fn vx_eq_to(&self, o: &&B) -> (r: bool) { (**self).vx_eq_to(*o) }
}
macro_rules! vx_str_eqs { ($($a:ty, $b:ty);* $(;)?) => { verus! { $(
  impl VxEqTo<$b> for $a {
    open spec fn eqv(&self, o: &$b) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq_to(&self, o: &$b) -> (r: bool) { unimplemented!() }
  }
)* } } }
vx_str_eqs! { str, str; &str, str; String, String; String, str; str, String; &str, String; String, &str }
macro_rules! vx_int_eqs { ($($a:ty)*) => { verus! { $(
  impl VxEqTo<$a> for $a {
    open spec fn eqv(&self, o: &$a) -> bool { *self == *o }
    fn vx_eq_to(&self, o: &$a) -> (r: bool) { *self == *o }
  }
  impl VxEqTo<$a> for &$a {
    open spec fn eqv(&self, o: &$a) -> bool { **self == *o }
    fn vx_eq_to(&self, o: &$a) -> (r: bool) { **self == *o }
  }
)* } } }
vx_int_eqs! { usize u64 i64 u32 i32 u8 u16 i128 }
impl<A: VxEqTo<A>> VxEqTo<Option<A>> for Option<A> {
  open spec fn eqv(&self, o: &Option<A>) -> bool {
    match (*self, *o) { (Some(a), Some(b)) => a.eqv(&b), (None, None) => true, _ => false }
  }
  fn vx_eq_to(&self, o: &Option<A>) -> (r: bool) {
    match (self, o) { (Some(a), Some(b)) => a.vx_eq_to(b), (None, None) => true, _ => false }
  }
}
pub uninterp spec fn num_same(a: Number, b: Number) -> bool;
/// a JSON number is never NaN
pub broadcast axiom fn ax_num_same(a: Number)
  ensures #[trigger] num_same(a, a);
impl VxEqTo<Number> for Number {
  open spec fn eqv(&self, o: &Number) -> bool { num_same(*self, *o) }
  #[verifier::external_body]
  fn vx_eq_to(&self, o: &Number) -> (r: bool) { unimplemented!() }
}
/// serde_json's derived equality
impl VxEqTo<Value> for Value {
  open spec fn eqv(&self, o: &Value) -> bool { sj_eq(*self, *o) }
  #[verifier::external_body]
  fn vx_eq_to(&self, o: &Value) -> (r: bool) { unimplemented!() }
}
// ------------------------------------------------------------- sorting and deduplication of a list

/// the order a list is sorted by
pub trait VxOrd: Sized {
  spec fn comparable(a: Self, b: Self) -> bool;
  spec fn ord(a: Self, b: Self) -> Ordering;
}
/// any two items of the list
pub open spec fn all_comparable<T: VxOrd>(s: Seq<T>) -> bool {
  forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] T::comparable(s[i], s[j])
}
pub open spec fn ord_total<T: VxOrd>(s: Seq<T>) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] T::ord(s[i], s[i]) == Ordering::Equal
  &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> ((#[trigger] T::ord(s[i], s[j]) == Ordering::Less) == (T::ord(s[j], s[i]) == Ordering::Greater))
  &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
      && #[trigger] T::ord(s[i], s[j]) != Ordering::Greater && #[trigger] T::ord(s[j], s[k]) != Ordering::Greater ==> T::ord(s[i], s[k]) != Ordering::Greater
}
pub open spec fn sorted<T: VxOrd>(s: Seq<T>) -> bool {
  forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] T::ord(s[i], s[j]) != Ordering::Greater
}
#[verifier::external_body]
pub fn vx_any_bool() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_index<T>(s: &[T]) -> (r: usize)
  requires s@.len() > 0
  ensures r < s@.len()
{ unimplemented!() }
pub fn vx_check_order<T: VxOrd>(a: &T, b: &T, o: Ordering)
  requires o == T::ord(*a, *b)
{ }
/// sorting by a comparator that was checked to compute `T::ord` on the items of the list
#[verifier::external_body]
pub fn vx_sort<T: VxOrd>(v: &mut Vec<T>)
  requires ord_total(old(v)@)
  ensures final(v)@.to_multiset() == old(v)@.to_multiset(), sorted(final(v)@)
{ unimplemented!() }
/// consecutive equal items removed
pub open spec fn dedup_seq<T: VxEqTo<T>>(s: Seq<T>) -> Seq<T>
  decreases s.len()
{
  if s.len() == 0 { s } else {
    let d = dedup_seq(s.drop_last());
    if d.len() > 0 && s.last().eqv(&d.last()) { d } else { d.push(s.last()) }
  }
}
#[verifier::external_body]
pub fn vx_dedup<T: VxEqTo<T>>(v: &mut Vec<T>)
  ensures final(v)@ == dedup_seq(old(v)@)
{ unimplemented!() }

// ------------------------------------------------------------- strings

pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool
  decreases a.len()
{
  if b.len() == 0 { false } else if a.len() == 0 { true }
  else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) }
  else { str_lt(a.skip(1), b.skip(1)) }
}
#[verifier::external_body]
pub fn vx_str_lt<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == str_lt(a.sv(), b.sv()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_le<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == !str_lt(b.sv(), a.sv()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_partial_cmp<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: Option<Ordering>)
  ensures r == Some(if str_lt(a.sv(), b.sv()) { Ordering::Less } else if a.sv() == b.sv() { Ordering::Equal } else { Ordering::Greater })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_cmp<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: Ordering)
  ensures r == (if str_lt(a.sv(), b.sv()) { Ordering::Less } else if a.sv() == b.sv() { Ordering::Equal } else { Ordering::Greater })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_chars<A: VxStr + ?Sized>(a: &A) -> (r: Vec<char>) ensures r@ == a.sv() { unimplemented!() }
#[verifier::external_body]
pub fn vx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_string_from<A: VxStr + ?Sized>(a: &A) -> (r: String) ensures r@ == a.sv() { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_str<A: VxStr + ?Sized>(s: &mut String, a: &A) ensures final(s)@ == old(s)@ + a.sv() { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_is_empty<A: VxStr + ?Sized>(a: &A) -> (r: bool) ensures r == (a.sv().len() == 0) { unimplemented!() }
/// length in bytes
/// the number of bytes of a character, and of a text, in UTF-8
pub open spec fn utf8_w(c: char) -> nat { if c < '\u{80}' { 1 } else if c < '\u{800}' { 2 } else if c < '\u{10000}' { 3 } else { 4 } }
pub open spec fn utf8_len(s: Seq<char>) -> nat
  decreases s.len()
{ if s.len() == 0 { 0 } else { utf8_len(s.drop_last()) + utf8_w(s.last()) } }
#[verifier::external_body]
pub fn vx_str_len<A: VxStr + ?Sized>(a: &A) -> (r: usize) ensures r == utf8_len(a.sv()) { unimplemented!() }
/// a pattern to look for in a text: a character or a text
pub trait VxPat { spec fn pv(&self) -> Seq<char>; }
impl VxPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } }
impl VxPat for str { open spec fn pv(&self) -> Seq<char> { self@ } }
impl VxPat for String { open spec fn pv(&self) -> Seq<char> { self@ } }
impl<T: VxPat + ?Sized> VxPat for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } }
pub open spec fn str_pre(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
pub open spec fn str_post(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) =~= p }
pub open spec fn str_has(s: Seq<char>, p: Seq<char>) -> bool { if p.len() == 1 { s.contains(p[0]) } else { exists|i: int| 0 <= i <= s.len() && str_pre(#[trigger] s.skip(i), p) } }
pub open spec fn is_white(c: char) -> bool {
  ('\u{9}' <= c <= '\u{d}') || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || ('\u{2000}' <= c <= '\u{200a}')
  || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub open spec fn is_ascii_white(c: char) -> bool { c == ' ' || c == '\u{9}' || c == '\u{a}' || c == '\u{c}' || c == '\u{d}' }
pub open spec fn trim_l(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char>
  decreases s.len()
{ if s.len() > 0 && p(s[0]) { trim_l(s.skip(1), p) } else { s } }
pub open spec fn trim_r(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char>
  decreases s.len()
{ if s.len() > 0 && p(s.last()) { trim_r(s.drop_last(), p) } else { s } }
pub open spec fn ascii_lower(c: char) -> char { if 'A' <= c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn ascii_upper(c: char) -> char { if 'a' <= c <= 'z' { (c as u32 - 32) as char } else { c } }
pub uninterp spec fn uni_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uni_upper(s: Seq<char>) -> Seq<char>;
pub open spec fn str_rep(s: Seq<char>, n: nat) -> Seq<char>
  decreases n
{ if n == 0 { Seq::empty() } else { str_rep(s, (n - 1) as nat) + s } }
#[verifier::external_body]
pub fn vx_str_starts_with<A: VxStr + ?Sized, P: VxPat + ?Sized>(a: &A, p: &P) -> (r: bool) ensures r == str_pre(a.sv(), p.pv()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_ends_with<A: VxStr + ?Sized, P: VxPat + ?Sized>(a: &A, p: &P) -> (r: bool) ensures r == str_post(a.sv(), p.pv()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_contains<A: VxStr + ?Sized, P: VxPat + ?Sized>(a: &A, p: &P) -> (r: bool) ensures r == str_has(a.sv(), p.pv()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_eq_ignore_ascii_case<A: VxStr + ?Sized, P: VxPat + ?Sized>(a: &A, p: &P) -> (r: bool) ensures r == (a.sv().map_values(|c: char| ascii_lower(c)) =~= p.pv().map_values(|c: char| ascii_lower(c))) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_is_char_boundary<A: VxStr + ?Sized>(a: &A, i: usize) -> (r: bool) ensures r == (exists|n: int| 0 <= n <= a.sv().len() && i == utf8_len(#[trigger] a.sv().take(n))) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim_start<A: VxStr + ?Sized>(a: &A) -> (r: &str) ensures r@ == trim_l(a.sv(), |c: char| is_white(c)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim_end<A: VxStr + ?Sized>(a: &A) -> (r: &str) ensures r@ == trim_r(a.sv(), |c: char| is_white(c)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim<A: VxStr + ?Sized>(a: &A) -> (r: &str) ensures r@ == trim_r(trim_l(a.sv(), |c: char| is_white(c)), |c: char| is_white(c)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim_ascii_start<A: VxStr + ?Sized>(a: &A) -> (r: &str) ensures r@ == trim_l(a.sv(), |c: char| is_ascii_white(c)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim_ascii_end<A: VxStr + ?Sized>(a: &A) -> (r: &str) ensures r@ == trim_r(a.sv(), |c: char| is_ascii_white(c)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim_ascii<A: VxStr + ?Sized>(a: &A) -> (r: &str) ensures r@ == trim_r(trim_l(a.sv(), |c: char| is_ascii_white(c)), |c: char| is_ascii_white(c)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim_start_matches<A: VxStr + ?Sized>(a: &A, x: char) -> (r: &str) ensures r@ == trim_l(a.sv(), |c: char| c == x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim_end_matches<A: VxStr + ?Sized>(a: &A, x: char) -> (r: &str) ensures r@ == trim_r(a.sv(), |c: char| c == x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_trim_matches<A: VxStr + ?Sized>(a: &A, x: char) -> (r: &str) ensures r@ == trim_r(trim_l(a.sv(), |c: char| c == x), |c: char| c == x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_strip_prefix<'s, A: VxStr + ?Sized, P: VxPat + ?Sized>(a: &'s A, p: &P) -> (r: Option<&'s str>)
  ensures r is Some <==> str_pre(a.sv(), p.pv()), r is Some ==> r.unwrap()@ == a.sv().skip(p.pv().len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_strip_suffix<'s, A: VxStr + ?Sized, P: VxPat + ?Sized>(a: &'s A, p: &P) -> (r: Option<&'s str>)
  ensures r is Some <==> str_post(a.sv(), p.pv()), r is Some ==> r.unwrap()@ == a.sv().take(a.sv().len() - p.pv().len()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_to_ascii_lowercase<A: VxStr + ?Sized>(a: &A) -> (r: String) ensures r@ == a.sv().map_values(|c: char| ascii_lower(c)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_to_ascii_uppercase<A: VxStr + ?Sized>(a: &A) -> (r: String) ensures r@ == a.sv().map_values(|c: char| ascii_upper(c)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_to_lowercase<A: VxStr + ?Sized>(a: &A) -> (r: String) ensures r@ == uni_lower(a.sv()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_to_uppercase<A: VxStr + ?Sized>(a: &A) -> (r: String) ensures r@ == uni_upper(a.sv()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_repeat<A: VxStr + ?Sized>(a: &A, n: usize) -> (r: String) ensures r@ == str_rep(a.sv(), n as nat) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_clear(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_pop(s: &mut String) -> (r: Option<char>)
  ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@, old(s)@.len() > 0 ==> r == Some(old(s)@.last()) && final(s)@ == old(s)@.drop_last() { unimplemented!() }
pub open spec fn replace_char(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char>
  decreases s.len()
{
  if s.len() == 0 { s } else { replace_char(s.drop_last(), c, by) + (if s.last() == c { by } else { seq![s.last()] }) }
}
#[verifier::external_body]
pub fn vx_replace_char<A: VxStr + ?Sized, B: VxStr + ?Sized>(s: &A, c: char, by: &B) -> (r: String)
  ensures r@ == replace_char(s.sv(), c, by.sv())
{ unimplemented!() }
/// a value moved out of a loop that runs at most once more
#[verifier::external_body]
pub fn vx_dup<T>(a: &T) -> (r: T) ensures r == *a { unimplemented!() }
pub trait VxAsStr { fn vx_as_str(&self) -> (r: &str) ensures r@ == self.asv(); spec fn asv(&self) -> Seq<char>; }
impl VxAsStr for String { open spec fn asv(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() } }
impl VxAsStr for str { open spec fn asv(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() } }
/// decimal digits of a number
pub open spec fn dec_digits(n: nat) -> Seq<char>
  decreases n
{
  if n < 10 { seq![digit(n)] } else { dec_digits(n / 10).push(digit(n % 10)) }
}
pub open spec fn digit(n: nat) -> char {
  if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
  else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
pub trait VxDisplay { spec fn disp(&self) -> Seq<char>; }
impl VxDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec_digits(*self as nat) } }
impl VxDisplay for u8 { open spec fn disp(&self) -> Seq<char> { dec_digits(*self as nat) } }
impl VxDisplay for u16 { open spec fn disp(&self) -> Seq<char> { dec_digits(*self as nat) } }
impl VxDisplay for u32 { open spec fn disp(&self) -> Seq<char> { dec_digits(*self as nat) } }
impl VxDisplay for u64 { open spec fn disp(&self) -> Seq<char> { dec_digits(*self as nat) } }
impl VxDisplay for u128 { open spec fn disp(&self) -> Seq<char> { dec_digits(*self as nat) } }
impl VxDisplay for i8 { open spec fn disp(&self) -> Seq<char> { if *self < 0 { seq!['-'] + dec_digits((-(*self as int)) as nat) } else { dec_digits(*self as nat) } } }
impl VxDisplay for i16 { open spec fn disp(&self) -> Seq<char> { if *self < 0 { seq!['-'] + dec_digits((-(*self as int)) as nat) } else { dec_digits(*self as nat) } } }
impl VxDisplay for i32 { open spec fn disp(&self) -> Seq<char> { if *self < 0 { seq!['-'] + dec_digits((-(*self as int)) as nat) } else { dec_digits(*self as nat) } } }
impl VxDisplay for i128 { open spec fn disp(&self) -> Seq<char> { if *self < 0 { seq!['-'] + dec_digits((-(*self as int)) as nat) } else { dec_digits(*self as nat) } } }
impl VxDisplay for isize { open spec fn disp(&self) -> Seq<char> { if *self < 0 { seq!['-'] + dec_digits((-(*self as int)) as nat) } else { dec_digits(*self as nat) } } }
impl VxDisplay for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl<T: VxDisplay + ?Sized> VxDisplay for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
#[verifier::external_body]
pub fn vx_to_string<A: VxDisplay + ?Sized>(a: &A) -> (r: String) ensures r@ == a.disp() { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_disp<A: VxDisplay + ?Sized>(s: &mut String, a: &A) ensures final(s)@ == old(s)@ + a.disp() { unimplemented!() }

pub fn vx_char_code(c: char) -> (r: u32) ensures r == c as u32 { c as u32 }
/// std::fmt::Formatter over a string, with the text written so far (writing to a string never fails)
#[verifier::external_body]
pub struct VxFmt { x: String }
pub struct VxFmtError;
impl VxFmt {
  pub uninterp spec fn buf(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn vx_new() -> (r: Self) ensures r.buf() == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_into_string(self) -> (r: String) ensures r@ == self.buf() { unimplemented!() }
}
pub fn vx_w_ok() -> (r: Result<(), VxFmtError>) ensures r is Ok { Ok(()) }
pub fn vx_w_did(r: Result<(), VxFmtError>) requires r is Ok { }
#[verifier::external_body]
pub fn vx_w_str(f: &mut VxFmt, a: &str) ensures final(f).buf() == old(f).buf() + a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_w_disp<A: VxDisplay + ?Sized>(f: &mut VxFmt, a: &A) ensures final(f).buf() == old(f).buf() + a.disp() { unimplemented!() }
#[verifier::external_body]
pub fn vx_w_hex(f: &mut VxFmt, n: u64, w: usize) ensures final(f).buf() == old(f).buf() + hex_pad(n as nat, w as nat) { unimplemented!() }
pub open spec fn hexd(n: nat) -> char {
  if n < 10 { digit(n) } else if n == 10 { 'a' } else if n == 11 { 'b' } else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' }
}
pub open spec fn hex_digits(n: nat) -> Seq<char>
  decreases n
{
  if n < 16 { seq![hexd(n)] } else { hex_digits(n / 16).push(hexd(n % 16)) }
}
pub open spec fn zeros(n: nat) -> Seq<char> { Seq::new(n, |i: int| '0') }
pub open spec fn hex_pad(n: nat, w: nat) -> Seq<char> {
  let d = hex_digits(n);
  if d.len() < w { zeros((w - d.len()) as nat) + d } else { d }
}

// ------------------------------------------------------------- machine integers

pub trait VxIntOps: Sized {
  spec fn vx_v(self) -> int; spec fn vx_lo() -> int; spec fn vx_hi() -> int;
  fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.vx_v() == (if self.vx_v() - o.vx_v() < Self::vx_lo() { Self::vx_lo() } else if self.vx_v() - o.vx_v() > Self::vx_hi() { Self::vx_hi() } else { self.vx_v() - o.vx_v() });
  fn vx_saturating_add(self, o: Self) -> (r: Self) ensures r.vx_v() == (if self.vx_v() + o.vx_v() < Self::vx_lo() { Self::vx_lo() } else if self.vx_v() + o.vx_v() > Self::vx_hi() { Self::vx_hi() } else { self.vx_v() + o.vx_v() });
  fn vx_min(self, o: Self) -> (r: Self) ensures r.vx_v() == (if o.vx_v() < self.vx_v() { o.vx_v() } else { self.vx_v() });
  fn vx_max(self, o: Self) -> (r: Self) ensures r.vx_v() == (if o.vx_v() < self.vx_v() { self.vx_v() } else { o.vx_v() });
}
impl VxIntOps for usize {
  open spec fn vx_v(self) -> int { self as int } open spec fn vx_lo() -> int { usize::MIN as int } open spec fn vx_hi() -> int { usize::MAX as int }
  #[verifier::external_body]
  fn vx_saturating_sub(self, o: usize) -> (r: usize) { self.saturating_sub(o) }
  #[verifier::external_body]
  fn vx_saturating_add(self, o: usize) -> (r: usize) { self.saturating_add(o) }
  fn vx_min(self, o: usize) -> (r: usize) { if o < self { o } else { self } }
  fn vx_max(self, o: usize) -> (r: usize) { if o < self { self } else { o } }
}
impl VxIntOps for u8 {
  open spec fn vx_v(self) -> int { self as int } open spec fn vx_lo() -> int { u8::MIN as int } open spec fn vx_hi() -> int { u8::MAX as int }
  #[verifier::external_body]
  fn vx_saturating_sub(self, o: u8) -> (r: u8) { self.saturating_sub(o) }
  #[verifier::external_body]
  fn vx_saturating_add(self, o: u8) -> (r: u8) { self.saturating_add(o) }
  fn vx_min(self, o: u8) -> (r: u8) { if o < self { o } else { self } }
  fn vx_max(self, o: u8) -> (r: u8) { if o < self { self } else { o } }
}
impl VxIntOps for u32 {
  open spec fn vx_v(self) -> int { self as int } open spec fn vx_lo() -> int { u32::MIN as int } open spec fn vx_hi() -> int { u32::MAX as int }
  #[verifier::external_body]
  fn vx_saturating_sub(self, o: u32) -> (r: u32) { self.saturating_sub(o) }
  #[verifier::external_body]
  fn vx_saturating_add(self, o: u32) -> (r: u32) { self.saturating_add(o) }
  fn vx_min(self, o: u32) -> (r: u32) { if o < self { o } else { self } }
  fn vx_max(self, o: u32) -> (r: u32) { if o < self { self } else { o } }
}
impl VxIntOps for u64 {
  open spec fn vx_v(self) -> int { self as int } open spec fn vx_lo() -> int { u64::MIN as int } open spec fn vx_hi() -> int { u64::MAX as int }
  #[verifier::external_body]
  fn vx_saturating_sub(self, o: u64) -> (r: u64) { self.saturating_sub(o) }
  #[verifier::external_body]
  fn vx_saturating_add(self, o: u64) -> (r: u64) { self.saturating_add(o) }
  fn vx_min(self, o: u64) -> (r: u64) { if o < self { o } else { self } }
  fn vx_max(self, o: u64) -> (r: u64) { if o < self { self } else { o } }
}
impl VxIntOps for i32 {
  open spec fn vx_v(self) -> int { self as int } open spec fn vx_lo() -> int { i32::MIN as int } open spec fn vx_hi() -> int { i32::MAX as int }
  #[verifier::external_body]
  fn vx_saturating_sub(self, o: i32) -> (r: i32) { self.saturating_sub(o) }
  #[verifier::external_body]
  fn vx_saturating_add(self, o: i32) -> (r: i32) { self.saturating_add(o) }
  fn vx_min(self, o: i32) -> (r: i32) { if o < self { o } else { self } }
  fn vx_max(self, o: i32) -> (r: i32) { if o < self { self } else { o } }
}
impl VxIntOps for i64 {
  open spec fn vx_v(self) -> int { self as int } open spec fn vx_lo() -> int { i64::MIN as int } open spec fn vx_hi() -> int { i64::MAX as int }
  #[verifier::external_body]
  fn vx_saturating_sub(self, o: i64) -> (r: i64) { self.saturating_sub(o) }
  #[verifier::external_body]
  fn vx_saturating_add(self, o: i64) -> (r: i64) { self.saturating_add(o) }
  fn vx_min(self, o: i64) -> (r: i64) { if o < self { o } else { self } }
  fn vx_max(self, o: i64) -> (r: i64) { if o < self { self } else { o } }
}
impl VxIntOps for u16 {
  open spec fn vx_v(self) -> int { self as int } open spec fn vx_lo() -> int { u16::MIN as int } open spec fn vx_hi() -> int { u16::MAX as int }
  #[verifier::external_body]
  fn vx_saturating_sub(self, o: u16) -> (r: u16) { self.saturating_sub(o) }
  #[verifier::external_body]
  fn vx_saturating_add(self, o: u16) -> (r: u16) { self.saturating_add(o) }
  fn vx_min(self, o: u16) -> (r: u16) { if o < self { o } else { self } }
  fn vx_max(self, o: u16) -> (r: u16) { if o < self { self } else { o } }
}
impl VxIntOps for isize {
  open spec fn vx_v(self) -> int { self as int } open spec fn vx_lo() -> int { isize::MIN as int } open spec fn vx_hi() -> int { isize::MAX as int }
  #[verifier::external_body]
  fn vx_saturating_sub(self, o: isize) -> (r: isize) { self.saturating_sub(o) }
  #[verifier::external_body]
  fn vx_saturating_add(self, o: isize) -> (r: isize) { self.saturating_add(o) }
  fn vx_min(self, o: isize) -> (r: isize) { if o < self { o } else { self } }
  fn vx_max(self, o: isize) -> (r: isize) { if o < self { self } else { o } }
}
pub trait VxAbs: Sized { spec fn abs_v(self) -> int; fn vx_abs(self) -> (r: Self) requires self.abs_pre() ensures r.abs_v() == (if self.abs_v() < 0 { -self.abs_v() } else { self.abs_v() }); spec fn abs_pre(self) -> bool; }
impl VxAbs for i64 {
  open spec fn abs_v(self) -> int { self as int }
  open spec fn abs_pre(self) -> bool { self != i64::MIN }
  #[verifier::external_body]
  fn vx_abs(self) -> (r: i64) { unimplemented!() }
}
} // mod vxp
pub use vxp::*;
pub use vxp::Map;
