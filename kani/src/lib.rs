//! Bit-precise (IEEE 754, full domain, loop-free so no bound) range contracts of the truth-value functions,
//! compiled from /repo/src/Tv.rs itself. Complements the real-number proof (assumption A-REAL).
#![allow(non_snake_case, dead_code)]
#[path = "/repo/src/Tv.rs"]
mod Tv;
#[cfg(kani)]
mod h {
    use crate::Tv::*;
    fn any01() -> f64 { let x: f64 = kani::any(); kani::assume(x >= 0.0 && x <= 1.0); x }
    fn anytv() -> Tv { let c = any01(); kani::assume(c < 1.0); Tv { f: any01(), c } }
    fn ok(t: &Tv) { assert!(t.f >= 0.0 && t.f <= 1.0 && t.c >= 0.0 && t.c <= 1.0); }
    #[kani::proof] fn ded_range() { ok(&ded(&anytv(), &anytv())); }
    #[kani::proof] fn abd_range() { ok(&abd(&anytv(), &anytv())); }
    #[kani::proof] fn neg_range() { ok(&neg(&anytv())); }
    #[kani::proof] fn int_range() { ok(&int(&anytv(), &anytv())); }
    #[kani::proof] fn dedgoal_range() { ok(&dedGoal(&anytv(), &anytv())); }
    #[kani::proof] fn comp_range() { ok(&comp(&anytv(), &anytv())); }
    #[kani::proof] fn exp_range() { let e = calcExp(&anytv()); assert!(e >= 0.0 && e <= 1.0); }
    #[kani::proof] fn w2c_range() { let w: f64 = kani::any(); kani::assume(w >= 0.0 && w <= 1.0e15); let r = w2c(w); assert!(r >= 0.0 && r <= 1.0); }
}
