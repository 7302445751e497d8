#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, unreachable_code, non_snake_case)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::seq::*;
use vstd::seq_lib::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::IteratorSpec;
use std::cmp::Ordering;
use std::ops::Neg;
use std::ops::Rem;
use std::slice::Iter;
verus! {
// 64-bit machine words (usize is the width of the counters in the reader)
global size_of usize == 8;
// ---- the opaque error value: which error is reported is not part of any property
#[verifier::external_body]
pub struct VErr { x: u8 }
#[verifier::external_body]
pub fn mk_err() -> VErr { unimplemented!() }

// ---- trusted contracts of the standard library
pub assume_specification<T: std::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);

pub assume_specification [i64::checked_neg] (a: i64) -> (r: Option<i64>)
    ensures r == (if a == i64::MIN { None } else { Some((-a) as i64) });
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

// ---- showing a value in format!: the text itself
pub trait VDisp { 
    spec fn vtext(&self) -> Seq<char>;
    fn vdisp(&self) -> (r: String) ensures r@ == self.vtext();
}
impl VDisp for String { 
    spec fn vtext(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vdisp(&self) -> (r: String) { self.clone() } }
impl VDisp for str { 
    spec fn vtext(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vdisp(&self) -> (r: String) { self.to_string() } }
impl VDisp for char { 
    spec fn vtext(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn vdisp(&self) -> (r: String) { self.to_string() } }
impl<T: VDisp + ?Sized> VDisp for &T { 
    spec fn vtext(&self) -> Seq<char> { (**self).vtext() }
    fn vdisp(&self) -> (r: String) { (**self).vdisp() } }
pub fn vpush<T: VDisp + ?Sized>(s: &mut String, t: &T) 
    ensures final(s)@ == old(s)@ + t.vtext()
{ s.push_str(t.vdisp().as_str()); }
pub fn vcat<T: VDisp + ?Sized>(s: String, t: &T) -> (r: String)
    ensures r@ == s@ + t.vtext()
{ let mut r = s; vpush(&mut r, t); r }

// ---- equality with a literal, and a String of a text (trusted: std's String == str and String::from)
#[verifier::external_body]
pub fn vstreq<T: VDisp + ?Sized>(a: &T, b: &str) -> (r: bool) ensures r == (a.vtext() == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vstring<T: VDisp>(a: T) -> (r: String) ensures r@ == a.vtext() { unimplemented!() }

/// a string slice is its characters (Verus states this for String only through views)
#[verifier::external_body]
proof fn ax_str() ensures forall|a: &str, b: &str| #![trigger a@, b@] a@ == b@ ==> a == b {}
// comparing a String with a str compares their texts
pub assume_specification [<String as PartialEq<str>>::eq] (a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification<'a> [<String as PartialEq<&'a str>>::eq] (a: &String, b: &&str) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification<'a> [<&'a str as PartialEq<String>>::eq] (a: &&'a str, b: &String) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification [<String as PartialEq<str>>::ne] (a: &String, b: &str) -> (r: bool) ensures r == (a@ != b@);
pub assume_specification<'a> [<String as PartialEq<&'a str>>::ne] (a: &String, b: &&str) -> (r: bool) ensures r == (a@ != b@);
pub assume_specification<'a> [<&'a str as PartialEq<String>>::ne] (a: &&'a str, b: &String) -> (r: bool) ensures r == (a@ != b@);
