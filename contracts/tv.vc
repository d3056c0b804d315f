// src/Tv.rs: truth-value functions over the mathematical reals (assumption A-REAL)
@@include core.vc
verus! {
@@item src/Tv.rs Tv derive=Copy,Clone
pub struct TvR { pub f: real, pub c: real }
pub open spec fn tr(t: Tv) -> TvR { TvR { f: t.f@, c: t.c@ } }
/// a well-formed truth value: frequency in [0,1], confidence in [0,1)
pub open spec fn ok(t: TvR) -> bool { 0real <= t.f <= 1real && 0real <= t.c < 1real }
pub open spec fn okc(t: TvR) -> bool { 0real <= t.f <= 1real && 0real <= t.c <= 1real }
pub open spec fn s_w2c(w: real) -> real { w / (w + 1real) }
pub open spec fn s_c2w(c: real) -> real { c / (1real - c) }
pub open spec fn s_or(a: real, b: real) -> real { 1real - (1real - a) * (1real - b) }
pub open spec fn s_exp(t: TvR) -> real { t.c * (t.f - 1real / 2real) + 1real / 2real }
#[verifier::opaque]
pub open spec fn s_ded(a: TvR, b: TvR) -> TvR { TvR { f: a.f * b.f, c: a.c * b.c * (a.f * b.f) } }
#[verifier::opaque]
pub open spec fn s_neg(a: TvR) -> TvR { TvR { f: 1real - a.f, c: a.c } }
#[verifier::opaque]
pub open spec fn s_dedgoal(a: TvR, b: TvR) -> TvR { if s_ded(a, b).c >= s_neg(s_ded(s_neg(a), b)).c { s_ded(a, b) } else { s_neg(s_ded(s_neg(a), b)) } }
#[verifier::opaque]
pub open spec fn s_abd(a: TvR, b: TvR) -> TvR { TvR { f: a.f, c: s_w2c(b.f * a.c * b.c) } }
pub open spec fn s_ind(a: TvR, b: TvR) -> TvR { s_abd(b, a) }
#[verifier::opaque]
pub open spec fn s_rev(a: TvR, b: TvR) -> TvR {
    let w1 = s_c2w(a.c); let w2 = s_c2w(b.c);
    TvR { f: if w1 + w2 > 0real { (w1 * a.f + w2 * b.f) / (w1 + w2) } else { 0real }, c: s_w2c(w1 + w2) }
}
#[verifier::opaque]
pub open spec fn s_comp(a: TvR, b: TvR) -> TvR {
    let f0 = s_or(a.f, b.f);
    TvR { f: if f0 < 1real / 100000000real { 0real } else { (a.f * b.f) / f0 }, c: s_w2c(f0 * a.c * b.c) }
}
#[verifier::opaque]
pub open spec fn s_int(a: TvR, b: TvR) -> TvR { TvR { f: a.f * b.f, c: a.c * b.c } }

// ---- range closure (a lemma over the contracts below)
pub proof fn lemma_mul01(x: real, y: real) requires 0real <= x <= 1real, 0real <= y <= 1real ensures 0real <= x * y <= 1real, x * y <= x, x * y <= y
{ assert(x * y >= 0real) by(nonlinear_arith) requires x >= 0real, y >= 0real; assert(x * y <= x) by(nonlinear_arith) requires x >= 0real, y <= 1real; assert(x * y <= y) by(nonlinear_arith) requires y >= 0real, x <= 1real; }
pub proof fn lemma_w2c(w: real) requires w >= 0real ensures 0real <= s_w2c(w) < 1real
{ assert(0real <= w / (w + 1real) < 1real) by(nonlinear_arith) requires w >= 0real; }
pub proof fn lemma_c2w(c: real) requires 0real <= c < 1real ensures 0real <= s_c2w(c), c > 0real ==> s_c2w(c) > 0real, s_w2c(s_c2w(c)) == c
{ assert(0real <= c / (1real - c)) by(nonlinear_arith) requires 0real <= c < 1real; let w = c / (1real - c); assert(w / (w + 1real) == c) by(nonlinear_arith) requires w == c / (1real - c), 0real <= c < 1real;
  if c > 0real { assert(c / (1real - c) > 0real) by(nonlinear_arith) requires 0real < c < 1real; } }
pub broadcast proof fn lemma_ok_ded(a: TvR, b: TvR) requires okc(a), okc(b) ensures okc(#[trigger] s_ded(a, b)), ok(a) && ok(b) ==> ok(s_ded(a, b)), s_ded(a, b).c <= a.c, s_ded(a, b).c <= b.c
{ reveal(s_ded); lemma_mul01(a.f, b.f); lemma_mul01(a.c, b.c); lemma_mul01(a.c * b.c, a.f * b.f); }
pub broadcast proof fn lemma_ok_neg(a: TvR) requires okc(a) ensures okc(#[trigger] s_neg(a)), ok(a) ==> ok(s_neg(a)), s_neg(s_neg(a)) == a { reveal(s_neg); }
pub broadcast proof fn lemma_ok_dedgoal(a: TvR, b: TvR) requires okc(a), okc(b) ensures okc(#[trigger] s_dedgoal(a, b)), ok(a) && ok(b) ==> ok(s_dedgoal(a, b))
{ broadcast use {lemma_ok_ded, lemma_ok_neg}; reveal(s_dedgoal); reveal(s_neg); assert(okc(s_ded(a, b))); assert(okc(s_neg(a))); assert(okc(s_ded(s_neg(a), b))); assert(okc(s_neg(s_ded(s_neg(a), b)))); }
pub broadcast proof fn lemma_ok_abd(a: TvR, b: TvR) requires okc(a), okc(b) ensures ok(#[trigger] s_abd(a, b)), s_abd(a, b).c * 2real <= 1real
{ reveal(s_abd); lemma_mul01(b.f, a.c); lemma_mul01(b.f * a.c, b.c); lemma_w2c(b.f * a.c * b.c); let w = b.f * a.c * b.c; assert(s_w2c(w) * 2real <= 1real) by(nonlinear_arith) requires 0real <= w <= 1real, s_w2c(w) == w / (w + 1real); }
pub broadcast proof fn lemma_ok_comp(a: TvR, b: TvR) requires okc(a), okc(b) ensures ok(#[trigger] s_comp(a, b)), s_comp(a, b).c * 2real <= 1real
{
    reveal(s_comp);
    let f0 = s_or(a.f, b.f);
    lemma_mul01(1real - a.f, 1real - b.f); lemma_mul01(f0, a.c); lemma_mul01(f0 * a.c, b.c); lemma_w2c(f0 * a.c * b.c); lemma_mul01(a.f, b.f);
    let w = f0 * a.c * b.c; assert(s_w2c(w) * 2real <= 1real) by(nonlinear_arith) requires 0real <= w <= 1real, s_w2c(w) == w / (w + 1real);
    let x = a.f; let y = b.f;
    assert(x * y <= f0) by(nonlinear_arith) requires 0real <= x <= 1real, 0real <= y <= 1real, f0 == 1real - (1real - x) * (1real - y), x * y <= x, x * y <= y;
    if f0 > 0real { let p = x * y; assert(0real <= p / f0 <= 1real) by(nonlinear_arith) requires 0real <= p <= f0, f0 > 0real; }
}
pub broadcast proof fn lemma_ok_int(a: TvR, b: TvR) requires okc(a), okc(b) ensures okc(#[trigger] s_int(a, b)), ok(a) && ok(b) ==> ok(s_int(a, b)) { reveal(s_int); lemma_mul01(a.f, b.f); lemma_mul01(a.c, b.c); }
/// revision: well-formed, confidence never below either input (strictly above when both carry evidence), frequency between the inputs
pub broadcast proof fn lemma_ok_rev(a: TvR, b: TvR)
    requires ok(a), ok(b)
    ensures ok(#[trigger] s_rev(a, b)), s_rev(a, b).c >= a.c, s_rev(a, b).c >= b.c,
        b.c > 0real ==> s_rev(a, b).c > a.c, a.c > 0real ==> s_rev(a, b).c > b.c,
        a.c + b.c > 0real ==> (if a.f <= b.f { a.f <= s_rev(a, b).f <= b.f } else { b.f <= s_rev(a, b).f <= a.f }),
        s_rev(a, b) == s_rev(b, a),
        b.c == 0real && a.c > 0real ==> s_rev(a, b) == a,
{
    reveal(s_rev);
    lemma_c2w(a.c); lemma_c2w(b.c);
    let w1 = s_c2w(a.c); let w2 = s_c2w(b.c);
    lemma_w2c(w1 + w2);
    assert(s_w2c(w1 + w2) >= s_w2c(w1)) by(nonlinear_arith) requires w1 >= 0real, w2 >= 0real, s_w2c(w1 + w2) == (w1 + w2) / (w1 + w2 + 1real), s_w2c(w1) == w1 / (w1 + 1real);
    assert(s_w2c(w1 + w2) >= s_w2c(w2)) by(nonlinear_arith) requires w1 >= 0real, w2 >= 0real, s_w2c(w1 + w2) == (w1 + w2) / (w1 + w2 + 1real), s_w2c(w2) == w2 / (w2 + 1real);
    if w2 > 0real { assert(s_w2c(w1 + w2) > s_w2c(w1)) by(nonlinear_arith) requires w1 >= 0real, w2 > 0real, s_w2c(w1 + w2) == (w1 + w2) / (w1 + w2 + 1real), s_w2c(w1) == w1 / (w1 + 1real); }
    if w1 > 0real { assert(s_w2c(w1 + w2) > s_w2c(w2)) by(nonlinear_arith) requires w1 > 0real, w2 >= 0real, s_w2c(w1 + w2) == (w1 + w2) / (w1 + w2 + 1real), s_w2c(w2) == w2 / (w2 + 1real); }
    if w1 + w2 > 0real {
        let x = a.f; let y = b.f; let q = (w1 * x + w2 * y) / (w1 + w2);
        assert(q * (w1 + w2) == w1 * x + w2 * y) by(nonlinear_arith) requires q == (w1 * x + w2 * y) / (w1 + w2), w1 + w2 > 0real;
        if x <= y { assert(x <= q <= y) by(nonlinear_arith) requires q * (w1 + w2) == w1 * x + w2 * y, w1 + w2 > 0real, w1 >= 0real, w2 >= 0real, x <= y; }
        else { assert(y <= q <= x) by(nonlinear_arith) requires q * (w1 + w2) == w1 * x + w2 * y, w1 + w2 > 0real, w1 >= 0real, w2 >= 0real, y <= x; }
        if b.c == 0real { assert(w2 == 0real) by(nonlinear_arith) requires w2 == b.c / (1real - b.c), b.c == 0real; assert(q == x) by(nonlinear_arith) requires q * (w1 + w2) == w1 * x + w2 * y, w2 == 0real, w1 + w2 > 0real; }
    }
    assert(w1 + w2 == w2 + w1); 
}
pub proof fn lemma_exp(t: TvR) requires okc(t) ensures 0real <= s_exp(t) <= 1real
{ let c = t.c; let f = t.f; assert(0real <= c * (f - 1real / 2real) + 1real / 2real <= 1real) by(nonlinear_arith) requires 0real <= c <= 1real, 0real <= f <= 1real; }
pub broadcast group group_tv { lemma_ok_ded, lemma_ok_neg, lemma_ok_dedgoal, lemma_ok_abd, lemma_ok_comp, lemma_ok_int, lemma_ok_rev }

@@fn src/Tv.rs calcExp
@attr #[verifier::nonlinear]
@contract
    ensures $r@ == s_exp(tr(*$p1)), okc(tr(*$p1)) ==> 0real <= $r@ <= 1real
@entry
    proof { if okc(tr(*$p1)) { lemma_exp(tr(*$p1)); } }
@@end
@@fn src/Tv.rs w2c
@attr #[verifier::nonlinear]
@contract
    requires $p1@ >= 0real
    ensures $r@ == s_w2c($p1@), 0real <= $r@ < 1real
@entry
    proof { lemma_w2c($p1@); }
@@end
@@fn src/Tv.rs c2w
@attr #[verifier::nonlinear]
@contract
    requires 0real <= $p1@ < 1real
    ensures $r@ == s_c2w($p1@), 0real <= $r@
@entry
    proof { lemma_c2w($p1@); }
@@end
@@fn src/Tv.rs or
@attr #[verifier::nonlinear]
@contract
    ensures $r@ == s_or($p1@, $p2@)
@@end
@@fn src/Tv.rs ded
@attr #[verifier::nonlinear]
@contract
    ensures tr($r) == s_ded(tr(*$p1), tr(*$p2))
@entry
    proof { reveal(s_ded); }
@@end
@@fn src/Tv.rs neg
@contract
    ensures tr($r) == s_neg(tr(*$p1))
@entry
    proof { reveal(s_neg); }
@@end
@@fn src/Tv.rs dedGoal
@contract
    ensures tr($r) == s_dedgoal(tr(*$p1), tr(*$p2))
@entry
    proof { reveal(s_dedgoal); }
@@end
@@fn src/Tv.rs abd
@attr #[verifier::nonlinear]
@contract
    requires okc(tr(*$p1)), okc(tr(*$p2))
    ensures tr($r) == s_abd(tr(*$p1), tr(*$p2))
@entry
    proof { reveal(s_abd); lemma_mul01(tr(*$p2).f, tr(*$p1).c); lemma_mul01(tr(*$p2).f * tr(*$p1).c, tr(*$p2).c); }
@@end
@@fn src/Tv.rs ind
@contract
    requires okc(tr(*$p1)), okc(tr(*$p2))
    ensures tr($r) == s_ind(tr(*$p1), tr(*$p2))
@@end
@@fn src/Tv.rs rev
@attr #[verifier::nonlinear]
@contract
    requires ok(tr(*$p1)), ok(tr(*$p2))
    ensures tr($r) == s_rev(tr(*$p1), tr(*$p2))
@entry
    proof { reveal(s_rev); lemma_c2w(tr(*$p1).c); lemma_c2w(tr(*$p2).c); }
@@end
@@fn src/Tv.rs comp
@attr #[verifier::nonlinear]
@contract
    requires okc(tr(*$p1)), okc(tr(*$p2))
    ensures tr($r) == s_comp(tr(*$p1), tr(*$p2))
@entry
    proof {
        reveal(s_comp);
        let x = tr(*$p1); let y = tr(*$p2);
        lemma_mul01(1real - x.f, 1real - y.f); lemma_mul01(s_or(x.f, y.f), x.c); lemma_mul01(s_or(x.f, y.f) * x.c, y.c);
    }
@@end
@@fn src/Tv.rs int
@contract
    ensures tr($r) == s_int(tr(*$p1), tr(*$p2))
@entry
    proof { reveal(s_int); }
@@end
}
@@main
