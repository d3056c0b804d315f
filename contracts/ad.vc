// src/ad.rs, src/mlutils.rs: dual numbers and vectors
@@use core.vc
verus! {
/// a value together with its derivative
pub struct AdR { pub r: real, pub d: real }
@@item src/ad.rs Ad
@@item src/ad.rs Neuron
pub open spec fn adv(a: Ad) -> AdR { AdR { r: a.r@, d: a.d@ } }
// the rules of differentiation
pub open spec fn d_add(a: AdR, b: AdR) -> AdR { AdR { r: a.r + b.r, d: a.d + b.d } }
pub open spec fn d_sub(a: AdR, b: AdR) -> AdR { AdR { r: a.r - b.r, d: a.d - b.d } }
pub open spec fn d_mul(a: AdR, b: AdR) -> AdR { AdR { r: a.r * b.r, d: a.r * b.d + a.d * b.r } }
pub open spec fn d_div(a: AdR, b: AdR) -> AdR { AdR { r: a.r / b.r, d: (a.d * b.r - a.r * b.d) / (b.r * b.r) } }
pub open spec fn d_exp(a: AdR) -> AdR { AdR { r: rexp(a.r), d: a.d * rexp(a.r) } }
pub open spec fn d_dot(v: Seq<Ad>, w: Seq<Ad>, n: int) -> AdR decreases n { if n <= 0 { AdR { r: 0real, d: 0real } } else { d_add(d_dot(v, w, n - 1), d_mul(adv(v[n - 1]), adv(w[n - 1]))) } }
pub open spec fn d_relu(a: AdR) -> AdR { if a.r > 0real { a } else { AdR { r: 0real, d: 0real } } }
/// the logistic function s and its derivative s (1 - s)
pub open spec fn logis(x: real) -> real { rexp(x) / (rexp(x) + 1real) }
pub open spec fn d_sig(a: AdR) -> AdR { AdR { r: logis(a.r), d: a.d * (logis(a.r) * (1real - logis(a.r))) } }
pub open spec fn d_neuron(v: Seq<Ad>, n: Neuron) -> AdR { let x = d_add(d_dot(v, n.weights@, n.weights@.len() as int), adv(n.bias)); if n.act == 0 { d_relu(x) } else { d_sig(x) } }
/// ASSUMPTION A-EXP: the exponential function is positive and turns sums into products
#[verifier::external_body]
pub proof fn axiom_exp(x: real) ensures rexp(x) > 0real, rexp(-x) * rexp(x) == 1real {}
pub proof fn lemma_logis(x: real, d: real) ensures d_div(d_exp(AdR { r: x, d }), d_add(d_exp(AdR { r: x, d }), AdR { r: 1real, d: 0real })) == d_sig(AdR { r: x, d })
{
    axiom_exp(x); let e = rexp(x); let s = logis(x); let b = e + 1real;
    assert(s == e / b); assert(s * b == e) by (nonlinear_arith) requires s == e / b, b > 0real;
    let z = d * e * b - e * (d * e + 0real);
    assert(z == d * e) by (nonlinear_arith) requires z == d * e * b - e * (d * e + 0real), b == e + 1real;
    assert(1real - s == 1real / b) by (nonlinear_arith) requires s * b == e, b == e + 1real, b > 0real;
    let q = z / (b * b); assert(b * b > 0real) by (nonlinear_arith) requires b > 0real;
    assert(q == d * (s * (1real - s))) by (nonlinear_arith) requires q == z / (b * b), z == d * e, s == e / b, 1real - s == 1real / b, b > 0real, b * b > 0real;
    assert(rexp(x) + 1real == b);
}
pub proof fn lemma_logis2(x: real, d: real) ensures d_div(AdR { r: 1real, d: 0real }, d_add(d_exp(AdR { r: -x, d: -d }), AdR { r: 1real, d: 0real })) == d_sig(AdR { r: x, d })
{
    axiom_exp(x); axiom_exp(-x); let e = rexp(x); let f = rexp(-x); let s = logis(x); let b = f + 1real; let c = e + 1real;
    assert(b * e == c) by (nonlinear_arith) requires f * e == 1real, b == f + 1real, c == e + 1real;
    assert(s * c == e) by (nonlinear_arith) requires s == e / c, c > 0real;
    assert(s * b == 1real) by (nonlinear_arith) requires s * c == e, b * e == c, e > 0real, c > 0real, b > 0real;
    assert(s == 1real / b) by (nonlinear_arith) requires s * b == 1real, b > 0real;
    let z = 0real * b - 1real * (-d * f + 0real); assert(z == d * f) by (nonlinear_arith) requires z == 0real * b - 1real * (-d * f + 0real);
    assert(1real - s == f * s) by (nonlinear_arith) requires s * b == 1real, b == f + 1real;
    let q = z / (b * b); assert(b * b > 0real) by (nonlinear_arith) requires b > 0real;
    assert(q == d * (s * (1real - s))) by (nonlinear_arith) requires q == z / (b * b), z == d * f, s == 1real / b, 1real - s == f * s, b > 0real, b * b > 0real;
}
@@fn src/ad.rs add
@contract
    ensures adv($r) == d_add(adv(*$p1), adv(*$p2))
@@end
@@fn src/ad.rs sub
@contract
    ensures adv($r) == d_sub(adv(*$p1), adv(*$p2))
@@end
@@fn src/ad.rs mul
@contract
    ensures adv($r) == d_mul(adv(*$p1), adv(*$p2))
@@end
@@fn src/ad.rs div
@contract
    requires $p2.r@ != 0real
    ensures adv($r) == d_div(adv(*$p1), adv(*$p2))
@entry
    proof { let b = $p2.r@; assert(b * b > 0real) by (nonlinear_arith) requires b != 0real; }
@@end
@@fn src/ad.rs exp
@contract
    ensures adv($r) == d_exp(adv(*$p1))
@@end
@@fn src/ad.rs dot
@contract
    requires $p1@.len() >= $p2@.len() >= 1
    ensures adv($r) == d_dot($p1@, $p2@, $p2@.len() as int)
@entry
    proof { reveal_with_fuel(d_dot, 3); }
@loop sum
@when $ACC = add(___)
@inv
      $p1@.len() >= $p2@.len() >= 1,
      adv($ACC) == d_dot($p1@, $p2@, $i as int),
@@end
@@fn src/ad.rs reluAct
@contract
    ensures adv($r) == d_relu(adv(*$p1))
@@end
@@fn src/ad.rs sigmoidAct
@contract
    ensures adv($r) == d_sig(adv(*$p1))
@entry
    proof { axiom_exp($p1.r@); axiom_exp(-$p1.r@); lemma_logis($p1.r@, $p1.d@); lemma_logis2($p1.r@, $p1.d@); }
@@end
@@fn src/ad.rs calc
@contract
    requires $p1@.len() >= $p2.weights@.len() >= 1
    ensures adv($r) == d_neuron($p1@, *$p2)
@@end
// ---------------------------------------------------------------- vectors
pub open spec fn dotr(a: Seq<F>, b: Seq<F>, n: int) -> real decreases n { if n <= 0 { 0real } else { dotr(a, b, n - 1) + a[n - 1]@ * b[n - 1]@ } }
pub open spec fn comb(a: Seq<F>, b: Seq<F>, w: real, r: Seq<F>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == a[i]@ + b[i]@ * w }
@@fn src/mlutils.rs vecAddScale
@contract
    requires $p1@.len() <= $p2@.len()
    ensures comb($p1@, $p2@, $p3@, $r@)
@loop each
@when $RES[___] = ___
@inv
      $p1@.len() <= $p2@.len(), $RES@.len() == $p1@.len(),
      forall|i: int| 0 <= i < $i ==> (#[trigger] $RES@[i])@ == $p1@[i]@ + $p2@[i]@ * $p3@,
@@end
@@fn src/mlutils.rs vecAdd
@contract
    requires $p1@.len() <= $p2@.len()
    ensures comb($p1@, $p2@, 1real, $r@)
@loop each
@when $RES[___] = ___
@inv
      $p1@.len() <= $p2@.len(), $RES@.len() == $p1@.len(),
      forall|i: int| 0 <= i < $i ==> (#[trigger] $RES@[i])@ == $p1@[i]@ + $p2@[i]@,
@@end
@@fn src/mlutils.rs vecScale
@contract
    ensures $r@.len() == $p1@.len(), forall|i: int| 0 <= i < $r@.len() ==> (#[trigger] $r@[i])@ == $p1@[i]@ * $p2@
@loop each
@when $RES[___] = ___
@inv
      $RES@.len() == $p1@.len(),
      forall|i: int| 0 <= i < $i ==> (#[trigger] $RES@[i])@ == $p1@[i]@ * $p2@,
@@end
@@fn src/mlutils.rs vecDot
@contract
    requires $p1@.len() <= $p2@.len()
    ensures $r@ == dotr($p1@, $p2@, $p1@.len() as int)
@loop sum
@when $ACC = $ACC + ___
@inv
      $p1@.len() <= $p2@.len(), $ACC@ == dotr($p1@, $p2@, $i as int),
@@end
pub open spec fn sqs(a: Seq<F>) -> real { dotr(a, a, a.len() as int) }
pub open spec fn nonzero(a: Seq<F>) -> bool { sqs(a) > 0real }
/// the length of a vector
pub open spec fn norm(a: Seq<F>) -> real { choose|x: real| #[trigger] isroot(x, sqs(a)) }
pub proof fn lemma_sq(x: real) ensures x * x >= 0real { assert(x * x >= 0real) by (nonlinear_arith); }
/// x >= y for x >= 0 with x x >= y y
pub proof fn lemma_root(x: real, y: real) requires x >= 0real, x * x >= y * y ensures x >= y, x >= -y
{ if x < y { assert(x * x < y * y) by (nonlinear_arith) requires 0real <= x, x < y; } if x < -y { assert(x * x < y * y) by (nonlinear_arith) requires 0real <= x, x < -y; } }
pub proof fn lemma_norm(a: Seq<F>, x: real) requires isroot(x, sqs(a)) ensures x == norm(a), isroot(norm(a), sqs(a)) { lemma_root(x, norm(a)); lemma_root(norm(a), x); }
/// the inequality of Cauchy and Schwarz
pub proof fn lemma_cs(a: Seq<F>, b: Seq<F>, n: int) requires 0 <= n <= a.len(), n <= b.len() ensures dotr(a, a, n) >= 0real, dotr(b, b, n) >= 0real, dotr(a, b, n) * dotr(a, b, n) <= dotr(a, a, n) * dotr(b, b, n) decreases n
{
    if n > 0 {
        lemma_cs(a, b, n - 1);
        let (x, y) = (a[n - 1]@, b[n - 1]@); let (d, p, q) = (dotr(a, b, n - 1), dotr(a, a, n - 1), dotr(b, b, n - 1));
        lemma_sq(x); lemma_sq(y); let (xx, yy, xy) = (x * x, y * y, x * y);
        let (u, v, w) = (p * yy, q * xx, 2real * d * xy);
        assert(u >= 0real) by (nonlinear_arith) requires u == p * yy, p >= 0real, yy >= 0real;
        assert(v >= 0real) by (nonlinear_arith) requires v == q * xx, q >= 0real, xx >= 0real;
        assert(xy * xy == xx * yy) by (nonlinear_arith) requires xy == x * y, xx == x * x, yy == y * y;
        lemma_sq(xy); let k = xx * yy; assert(k >= 0real);
        assert(u * v == (p * q) * k) by (nonlinear_arith) requires u == p * yy, v == q * xx, k == xx * yy;
        assert(w * w == 4real * ((d * d) * k)) by (nonlinear_arith) requires w == 2real * d * xy, k == xy * xy;
        let (pq, dd) = (p * q, d * d);
        assert(dd * k <= pq * k) by (nonlinear_arith) requires dd <= pq, k >= 0real;
        assert((u + v) * (u + v) >= 4real * (u * v)) by { lemma_sq(u - v); assert((u + v) * (u + v) - 4real * (u * v) == (u - v) * (u - v)) by (nonlinear_arith); }
        lemma_root(u + v, w);
        assert((d + xy) * (d + xy) == dd + w + k) by (nonlinear_arith) requires w == 2real * d * xy, k == xy * xy, dd == d * d;
        assert((p + xx) * (q + yy) == pq + u + v + k) by (nonlinear_arith) requires pq == p * q, u == p * yy, v == q * xx, k == xx * yy;
    }
}
pub proof fn lemma_cosine(a: Seq<F>, b: Seq<F>, x: real, y: real) requires a.len() == b.len(), isroot(x, sqs(a)), isroot(y, sqs(b)), nonzero(a), nonzero(b) ensures x * y > 0real, -1real <= dotr(a, b, a.len() as int) / (x * y) <= 1real
{
    assert(x != 0real) by (nonlinear_arith) requires x * x > 0real; assert(y != 0real) by (nonlinear_arith) requires y * y > 0real;
    lemma_cs(a, b, a.len() as int); let d = dotr(a, b, a.len() as int); let m = x * y;
    assert(m > 0real) by (nonlinear_arith) requires m == x * y, x > 0real, y > 0real;
    assert(m * m == (x * x) * (y * y)) by (nonlinear_arith) requires m == x * y;
    lemma_root(m, d); let r = d / m;
    assert(-1real <= r <= 1real) by (nonlinear_arith) requires r == d / m, -m <= d <= m, m > 0real;
}
@@fn src/mlutils.rs vecLen
@contract
    ensures isroot($r@, sqs($p1@)), $r@ == norm($p1@)
@entry
    proof { lemma_cs($p1@, $p1@, $p1@.len() as int); assert forall|x: real| #[trigger] isroot(x, sqs($p1@)) implies x == norm($p1@) by { lemma_norm($p1@, x); } }
@loop sum
@when $ACC = $ACC + ___
@inv
      $ACC@ == dotr($p1@, $p1@, $i as int),
@@end
@@fn src/mlutils.rs calcCosineSim
@contract
    requires $p1@.len() == $p2@.len(), nonzero($p1@), nonzero($p2@)
    ensures $r@ == dotr($p1@, $p2@, $p1@.len() as int) / (norm($p1@) * norm($p2@)), -1real <= $r@ <= 1real
@entry
    proof { if isroot(norm($p1@), sqs($p1@)) && isroot(norm($p2@), sqs($p2@)) { lemma_cosine($p1@, $p2@, norm($p1@), norm($p2@)); } }
@@end
// ---------------------------------------------------------------- networks from parameters
@@item src/Nn.rs Network
pub mod ad { pub use super::{Ad, Neuron}; }
pub open spec fn seed(k: int, d: Option<usize>) -> real { if d is Some && d->0 as int == k { 1real } else { 0real } }
pub open spec fn adis(a: Ad, r: real, d: real) -> bool { a.r@ == r && a.d@ == d }
/// a neuron with m inputs whose parameters start at s; the last one is the bias
pub open spec fn neuok(x: Neuron, p: Seq<F>, s: int, m: int, boost: real, act: u32, d: Option<usize>) -> bool {
    x.weights@.len() == m && x.act == act && adis(x.bias, p[s + m]@ * boost, seed(s + m, d))
    && forall|j: int| 0 <= j < m ==> adis(#[trigger] x.weights@[j], p[s + j]@, seed(s + j, d))
}
pub open spec fn at(s: int, i: int, m: int) -> int { s + i * (m + 1) }
pub open spec fn layok(l: Seq<Neuron>, n: int, p: Seq<F>, s: int, m: int, boost: real, act: u32, d: Option<usize>) -> bool {
    l.len() == n && forall|i: int| 0 <= i < n ==> neuok(#[trigger] l[i], p, at(s, i, m), m, boost, act, d)
}
pub proof fn lemma_at(s: int, i: int, m: int) ensures at(s, i + 1, m) == at(s, i, m) + m + 1 { assert((i + 1) * (m + 1) == i * (m + 1) + m + 1) by (nonlinear_arith); }
pub proof fn lemma_at_mono(s: int, i: int, k: int, m: int) requires i <= k, m >= 0 ensures at(s, i, m) <= at(s, k, m) { assert(i * (m + 1) <= k * (m + 1)) by (nonlinear_arith) requires i <= k, m >= 0; }
@@fn src/Nn.rs buildNnFromParameters
@contract
    requires ($p7 is Some ==> $p7->0 <= i64::MAX), *old($p1) >= 0, $p3 >= 0, $p5 >= 0, $p6 >= 0, at(at(*old($p1) as int, $p5 as int, $p3 as int), $p6 as int, $p5 as int) <= $p2@.len() <= i64::MAX, $p2@.len() <= usize::MAX
    ensures layok($r.neuronsLayer0@, $p5 as int, $p2@, *old($p1) as int, $p3 as int, 15real, $p4, $p7),
        layok($r.neuronsLayer1@, $p6 as int, $p2@, at(*old($p1) as int, $p5 as int, $p3 as int), $p5 as int, 8real, 1, $p7),
        *final($p1) == at(at(*old($p1) as int, $p5 as int, $p3 as int), $p6 as int, $p5 as int)
@entry
    let ghost (s0, s1) = (*$p1 as int, at(*$p1 as int, $p5 as int, $p3 as int));
    proof { lemma_at_mono(s0, 0, $p5 as int, $p3 as int); lemma_at_mono(s1, 0, $p6 as int, $p5 as int); assert(at(s0, 0, $p3 as int) == s0); assert(at(s1, 0, $p5 as int) == s1); }
@loop layer0
@when $N.neuronsLayer0.push(___)
@inv
      *$p1 == at(s0, $i as int, $p3 as int), layok($N.neuronsLayer0@, $i as int, $p2@, s0, $p3 as int, 15real, $p4, $p7), $N.neuronsLayer1@.len() == 0,
@top
    let ghost ts = *$p1 as int; proof { lemma_at_mono(s0, 0, $i - 1, $p3 as int); lemma_at(s0, $i - 1, $p3 as int); lemma_at_mono(s0, $i as int, $p5 as int, $p3 as int); }
@loop layer1
@when $N.neuronsLayer1.push(___)
@inv
      *$p1 == at(s1, $i as int, $p5 as int), layok($N.neuronsLayer1@, $i as int, $p2@, s1, $p5 as int, 8real, 1, $p7), layok($N.neuronsLayer0@, $p5 as int, $p2@, s0, $p3 as int, 15real, $p4, $p7),
@top
    let ghost ts = *$p1 as int; proof { lemma_at_mono(s1, 0, $i - 1, $p5 as int); lemma_at(s1, $i - 1, $p5 as int); lemma_at_mono(s1, $i as int, $p6 as int, $p5 as int); }
@loop weights
@when $W.push(ad::Ad{___})
@inv
      ts >= 0, *$p1 == ts + $i, ts + $n < $p2@.len(), $W@.len() == $i,
      forall|j: int| 0 <= j < $i ==> adis(#[trigger] $W@[j], $p2@[ts + j]@, seed(ts + j, $p7)),
@@end
}
@@main
