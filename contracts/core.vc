// shared specification vocabulary: real-number view of f64, deep view of terms
#![allow(non_snake_case, unused, non_camel_case_types, unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
#![allow(unused_labels, unreachable_code, unused_assignments, non_upper_case_globals)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
verus! {

// ---------------------------------------------------------------- f64 as mathematical reals (ASSUMPTION A-REAL)
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct F { x: f64 }
impl F {
    pub uninterp spec fn view(self) -> real;
    #[verifier::external_body]
    pub fn lit(n: u64, d: u64) -> (r: F) requires d > 0 ensures r@ == (n as real) / (d as real) { F { x: (n as f64) / (d as f64) } }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F) ensures r@ == (if self@ >= 0real { self@ } else { -self@ }) { F { x: self.x.abs() } }
    #[verifier::external_body]
    pub fn max(self, o: F) -> (r: F) ensures r@ == (if self@ >= o@ { self@ } else { o@ }) { F { x: self.x.max(o.x) } }
    #[verifier::external_body]
    pub fn min(self, o: F) -> (r: F) ensures r@ == (if self@ <= o@ { self@ } else { o@ }) { F { x: self.x.min(o.x) } }
    #[verifier::external_body]
    pub fn exp(self) -> (r: F) ensures r@ == rexp(self@), r@ > 0real { F { x: self.x.exp() } }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: F) requires self@ >= 0real ensures isroot(r@, self@) { F { x: self.x.sqrt() } }
    #[verifier::external_body]
    pub fn powf(self, n: F) -> (r: F) ensures n@ == 2real ==> r@ == self@ * self@ { F { x: self.x.powf(n.x) } }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: F) ensures n == 2 ==> r@ == self@ * self@ { F { x: self.x.powi(n) } }
}
pub uninterp spec fn rexp(x: real) -> real;
pub open spec fn isroot(x: real, s: real) -> bool { x >= 0real && x * x == s }
/// vec![x; n]
pub fn vx_fill<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ let mut v: Vec<T> = Vec::new(); let mut k: usize = 0; while k < n invariant k <= n, v@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] v@[i] == x decreases n - k { v.push(x); k = k + 1; } v }
pub assume_specification [<i64>::abs](x: i64) -> (r: i64) requires x > i64::MIN ensures r == (if x >= 0 { x as int } else { -x }), opens_invariants none no_unwind;
pub trait VxToF { spec fn vx_r(&self) -> real; fn vx_to_f(self) -> (r: F) where Self: Sized ensures r@ == self.vx_r(); }
impl VxToF for i64 { open spec fn vx_r(&self) -> real { *self as real } #[verifier::external_body] fn vx_to_f(self) -> (r: F) { F { x: self as f64 } } }
impl VxToF for u64 { open spec fn vx_r(&self) -> real { *self as real } #[verifier::external_body] fn vx_to_f(self) -> (r: F) { F { x: self as f64 } } }
impl VxToF for usize { open spec fn vx_r(&self) -> real { *self as real } #[verifier::external_body] fn vx_to_f(self) -> (r: F) { F { x: self as f64 } } }
impl core::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> (r: F) ensures r@ == self@ * o@ { F { x: self.x * o.x } } }
impl MulSpecImpl for F { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F) -> bool { true } uninterp spec fn mul_spec(self, o: F) -> F; }
impl core::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> (r: F) ensures r@ == self@ + o@ { F { x: self.x + o.x } } }
impl AddSpecImpl for F { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: F) -> bool { true } uninterp spec fn add_spec(self, o: F) -> F; }
impl core::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> (r: F) ensures r@ == self@ - o@ { F { x: self.x - o.x } } }
impl SubSpecImpl for F { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: F) -> bool { true } uninterp spec fn sub_spec(self, o: F) -> F; }
impl core::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> (r: F) ensures r@ == self@ / o@ { F { x: self.x / o.x } } }
impl DivSpecImpl for F { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: F) -> bool { o@ != 0real } uninterp spec fn div_spec(self, o: F) -> F; }
impl core::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> (r: F) ensures r@ == -self@ { F { x: -self.x } } }
impl NegSpecImpl for F { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } uninterp spec fn neg_spec(self) -> F; }
impl core::cmp::PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> (r: bool) ensures r == (self@ == o@) { self.x == o.x } }
impl PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { self@ == o@ } }
impl core::cmp::PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> (r: Option<core::cmp::Ordering>) { self.x.partial_cmp(&o.x) } }
pub open spec fn rcmp(a: real, b: real) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
impl PartialOrdSpecImpl for F { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> { Some(rcmp(self@, o@)) } }

// ---------------------------------------------------------------- == on possibly-referenced values
pub trait VxEq { spec fn vx_same(&self, o: &Self) -> bool; fn vx_eq_m(&self, o: &Self) -> (r: bool) ensures r == self.vx_same(o); }
pub fn vx_eq<T: VxEq>(a: &T, b: &T) -> (r: bool) ensures r == a.vx_same(b) { a.vx_eq_m(b) }
impl<T: VxEq> VxEq for &T { open spec fn vx_same(&self, o: &Self) -> bool { (**self).vx_same(*o) } fn vx_eq_m(&self, o: &Self) -> (r: bool) { (**self).vx_eq_m(*o) } }
impl VxEq for String { open spec fn vx_same(&self, o: &Self) -> bool { self@ == o@ } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VxEq for usize { open spec fn vx_same(&self, o: &Self) -> bool { *self == *o } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VxEq for u64 { open spec fn vx_same(&self, o: &Self) -> bool { *self == *o } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VxEq for i64 { open spec fn vx_same(&self, o: &Self) -> bool { *self == *o } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VxEq for i32 { open spec fn vx_same(&self, o: &Self) -> bool { *self == *o } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VxEq for bool { open spec fn vx_same(&self, o: &Self) -> bool { *self == *o } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VxEq for F { open spec fn vx_same(&self, o: &Self) -> bool { self@ == o@ } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }

// ---------------------------------------------------------------- element copies made by iter().cloned()
pub trait VxClone { spec fn vx_cl(&self, r: &Self) -> bool; fn vx_clone(&self) -> (r: Self) where Self: Sized ensures self.vx_cl(&r); }
impl VxClone for i64 { open spec fn vx_cl(&self, r: &Self) -> bool { *self == *r } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for usize { open spec fn vx_cl(&self, r: &Self) -> bool { *self == *r } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for F { open spec fn vx_cl(&self, r: &Self) -> bool { *self == *r } fn vx_clone(&self) -> (r: Self) { *self } }

// ---------------------------------------------------------------- helpers the extraction may emit
#[verifier::external_body]
pub fn vx_panic() -> (r: !) requires false { loop {} }
/// moves element i out of a vector that is being consumed by a by-value `for` (each index is taken once)
#[verifier::external_body]
pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { loop {} }
/// `v[lo..hi].to_vec()` for element types whose clone is the identity (integers, Arc)
#[verifier::external_body]
pub fn vx_to_vec<T>(v: &Vec<T>, lo: usize, hi: usize) -> (r: Vec<T>) requires lo <= hi <= v@.len() ensures r@ == v@.subrange(lo as int, hi as int) { loop {} }

/// `v.extend(x)` with a vector that is consumed
pub fn vx_extend<T>(v: &mut Vec<T>, x: Vec<T>) ensures final(v)@ == old(v)@ + x@ { let mut x = x; v.append(&mut x); }
/// string concatenation
#[verifier::external_body]
pub fn vx_cat(a: &str, b: &String) -> (r: String) ensures r@ == a@ + b@ { a.to_owned() + b }
/// `assert!(b)`: an obligation that b holds
pub fn vx_assert(b: bool) requires b {}
/// `&v[lo..hi]`
pub trait VxSl<T> { spec fn vx_sq(&self) -> Seq<T>; fn vx_sl(&self, lo: usize, hi: usize) -> (r: &[T]) requires lo <= hi <= self.vx_sq().len() ensures r@ == self.vx_sq().subrange(lo as int, hi as int); }
impl<T> VxSl<T> for Vec<T> { open spec fn vx_sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_sl(&self, lo: usize, hi: usize) -> (r: &[T]) { loop {} } }
impl<T> VxSl<T> for [T] { open spec fn vx_sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_sl(&self, lo: usize, hi: usize) -> (r: &[T]) { loop {} } }
/// `v.to_vec()`: a copy of every element
pub trait VxCopy<T: VxClone> { spec fn vx_cs(&self) -> Seq<T>; fn vx_copy(&self) -> (r: Vec<T>) ensures r@.len() == self.vx_cs().len(), forall|i: int| 0 <= i < r@.len() ==> self.vx_cs()[i].vx_cl(&#[trigger] r@[i]); }
impl<T: VxClone> VxCopy<T> for [T] { open spec fn vx_cs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_copy(&self) -> (r: Vec<T>) { loop {} } }
impl<T: VxClone> VxCopy<T> for Vec<T> { open spec fn vx_cs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_copy(&self) -> (r: Vec<T>) { loop {} } }

} // verus!
