// src/NarSentence.rs: punctuation, evidence, sentences (A-LOCK: Arc<RwLock<Usage>> is read as Arc<Usage>)
@@use term.vc
@@use tv.vc
@@use stamp.vc
verus! {
@@item src/NarSentence.rs EnumPunctation derive=PartialEq,Eq,Copy,Clone,Structural
impl PartialEqSpecImpl for EnumPunctation { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &EnumPunctation) -> bool { *self == *o } }
impl VxEq for EnumPunctation { open spec fn vx_same(&self, o: &Self) -> bool { *self == *o } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }
@@item src/NarSentence.rs Evidence derive=Copy,Clone
@@item src/NarSentence.rs Usage
@@item src/NarSentence.rs Sentence erase
impl Clone for Stamp { fn clone(&self) -> (r: Self) ensures r.ids@ == self.ids@ { Stamp { ids: self.ids.clone() } } }
pub struct SenV { pub t: TermV, pub p: EnumPunctation, pub ids: Seq<i64>, pub occ: Option<i64>, pub dt: Option<i64>, pub e: Option<EvV> }
pub enum EvV { Cnt(int, int), Tv(TvR) }
pub open spec fn ev(e: Evidence) -> EvV { match e { Evidence::CNT { pos, cnt } => EvV::Cnt(pos as int, cnt as int), Evidence::TV(t) => EvV::Tv(tr(t)) } }
pub open spec fn eo(e: Option<Evidence>) -> Option<EvV> { match e { Some(x) => Some(ev(x)), None => None } }
/// everything a sentence says (its usage record is bookkeeping)
pub open spec fn sv(s: Sentence) -> SenV { SenV { t: tmv(*s.term), p: s.punct, ids: s.stamp.ids@, occ: s.t, dt: s.expDt, e: eo(s.evi) } }
pub open spec fn e_freq(pos: int, cnt: int) -> real { pos as real / cnt as real }
pub open spec fn e_conf(cnt: int) -> real { cnt as real / (cnt as real + 1real) }
/// the truth value a sentence carries
pub open spec fn etv(e: EvV) -> TvR { match e { EvV::Tv(t) => t, EvV::Cnt(p, n) => TvR { f: e_freq(p, n), c: e_conf(n) } } }
/// evidence is well formed: a proper truth value, or 0 <= pos <= cnt with at least one observation
pub open spec fn evok(e: EvV) -> bool { match e { EvV::Tv(t) => okc(t), EvV::Cnt(p, n) => 0 <= p <= n && 0 < n } }
pub open spec fn senok(s: SenV) -> bool { (s.p != EnumPunctation::QUESTION ==> s.e is Some) && (s.e is Some ==> evok(s.e->0)) }
pub broadcast proof fn lemma_etv(e: EvV) requires evok(e) ensures okc(#[trigger] etv(e)), e is Cnt ==> ok(etv(e))
{ if let EvV::Cnt(p, n) = e { let a = p as real; let b = n as real; assert(0real <= a <= b && b >= 1real); assert(0real <= a / b <= 1real) by(nonlinear_arith) requires 0real <= a <= b, b >= 1real; assert(0real <= b / (b + 1real) < 1real) by(nonlinear_arith) requires b >= 1real; } }
/// more observations never lower the confidence
pub proof fn lemma_conf_mono(m: int, n: int) requires 0 < m < n ensures e_conf(m) < e_conf(n)
{ let a = m as real; let b = n as real; assert(a / (a + 1real) < b / (b + 1real)) by(nonlinear_arith) requires 0real < a < b; }
@@fn src/NarSentence.rs shallowCopySentence erase
@contract
    ensures sv($r) == sv(*$p1), $r.usage == $p1.usage
@@end
@@fn src/NarSentence.rs usageUpdate
@contract
    requires old($p1).useCount < i64::MAX
    ensures final($p1).lastUsed == $p2, final($p1).useCount == old($p1).useCount + 1
@@end
pub open spec fn rmax0(x: int) -> real { if x >= 0 { x as real } else { 0real } }
pub open spec fn s_useful(last: int, cnt: int, now: int) -> real { let u = cnt as real / (rmax0(now - last) + 1real); u / (u + 1real) }
/// usefulness is a proportion, grows with the use count and decays with the time since the last use
pub proof fn lemma_useful(last: int, c1: int, c2: int, n1: int, n2: int)
    requires 0 <= c1 <= c2, n1 <= n2
    ensures 0real <= s_useful(last, c1, n1) < 1real, s_useful(last, c1, n1) <= s_useful(last, c2, n1), s_useful(last, c1, n2) <= s_useful(last, c1, n1)
{
    let r1 = rmax0(n1 - last) + 1real; let r2 = rmax0(n2 - last) + 1real; let a = c1 as real; let b = c2 as real;
    assert(0real <= a && a <= b); assert(1real <= r1 && r1 <= r2);
    lemma_uf(a, r1); lemma_uf(b, r1); lemma_uf(a, r2);
    assert(a / r1 <= b / r1) by(nonlinear_arith) requires 0real <= a <= b, r1 >= 1real;
    assert(a / r2 <= a / r1) by(nonlinear_arith) requires 0real <= a, 1real <= r1 <= r2;
    lemma_uf2(a / r1, b / r1); lemma_uf2(a / r2, a / r1);
}
pub proof fn lemma_uf(a: real, r: real) requires a >= 0real, r >= 1real ensures a / r >= 0real, 0real <= (a / r) / (a / r + 1real) < 1real
{ assert(a / r >= 0real) by(nonlinear_arith) requires a >= 0real, r >= 1real; let u = a / r; assert(0real <= u / (u + 1real) < 1real) by(nonlinear_arith) requires u >= 0real; }
pub proof fn lemma_uf2(u: real, w: real) requires 0real <= u <= w ensures u / (u + 1real) <= w / (w + 1real)
{ assert(u / (u + 1real) <= w / (w + 1real)) by(nonlinear_arith) requires 0real <= u <= w; }
@@fn src/NarSentence.rs calcUsageUsefulness
@contract
    requires $p1.useCount >= 0, i64::MIN <= $p2 - $p1.lastUsed <= i64::MAX
    ensures $r@ == s_useful($p1.lastUsed as int, $p1.useCount as int, $p2 as int)
@entry
    proof { lemma_uf($p1.useCount as real, rmax0($p2 - $p1.lastUsed) + 1real); }
@@end
@@fn src/NarSentence.rs newEternalSentenceByTv erase
@contract
    ensures sv($r) == (SenV { t: tmv(*$p1), p: $p2, ids: $p4.ids@, occ: None, dt: None, e: if $p2 != EnumPunctation::QUESTION { Some(EvV::Tv(tr(*$p3))) } else { None } }),
        $r.usage.lastUsed == 0, $r.usage.useCount == 0
@@end
@@fn src/NarSentence.rs retFreq
@contract
    requires *$p1 is CNT, $p1->cnt != 0
    ensures $r@ == e_freq($p1->pos as int, $p1->cnt as int)
@@end
@@fn src/NarSentence.rs retConf
@contract
    requires *$p1 is CNT, $p1->cnt >= 0
    ensures $r@ == e_conf($p1->cnt as int)
@@end
@@fn src/NarSentence.rs retTv
@contract
    requires $p1.evi is Some ==> evok(ev($p1.evi->0))
    ensures $r is Some <==> $p1.evi is Some, $r is Some ==> tr($r->0) == etv(ev($p1.evi->0)) && okc(tr($r->0))
@entry
    broadcast use lemma_etv;
@@end
}
@@main
