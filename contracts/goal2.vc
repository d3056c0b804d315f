// src/NarGoalSystem.rs, src/BinSearch.rs: sampling of goals and derivation of subgoals
@@use goal.vc
verus! {
// ---------------------------------------------------------------- sampling
/// marks random numbers, for the prover
pub open spec fn ugen(x: real) -> bool { true }
/// a random number in a (nonempty) range
pub trait VxGen: Sized { spec fn vx_ne(a: Self, b: Self) -> bool; spec fn vx_rng(a: Self, b: Self, x: Self) -> bool; fn vx_pick(a: Self, b: Self) -> (r: Self) requires Self::vx_ne(a, b) ensures Self::vx_rng(a, b, r); }
impl VxGen for F { open spec fn vx_ne(a: F, b: F) -> bool { a@ < b@ } open spec fn vx_rng(a: F, b: F, x: F) -> bool { a@ <= x@ < b@ && ugen(x@) } #[verifier::external_body] fn vx_pick(a: F, b: F) -> (r: F) { loop {} } }
impl VxGen for usize { open spec fn vx_ne(a: usize, b: usize) -> bool { a < b } open spec fn vx_rng(a: usize, b: usize, x: usize) -> bool { a <= x < b } #[verifier::external_body] fn vx_pick(a: usize, b: usize) -> (r: usize) { loop {} } }
impl VxGen for i64 { open spec fn vx_ne(a: i64, b: i64) -> bool { a < b } open spec fn vx_rng(a: i64, b: i64, x: i64) -> bool { a <= x < b } #[verifier::external_body] fn vx_pick(a: i64, b: i64) -> (r: i64) { loop {} } }
impl VxRng { pub fn gen_range<T: VxGen>(&mut self, r: core::ops::Range<T>) -> (x: T) requires T::vx_ne(r.start, r.end) ensures T::vx_rng(r.start, r.end, x) { T::vx_pick(r.start, r.end) } }
/// the goal whose share of the accumulated desirability contains the value
pub open spec fn hit(h: Map<VxRef, EntV>, es: Seq<VxRef>, v: real, k: int) -> bool { 0 <= k < es.len() && (k > 0 ==> h[es[k]].acc <= v) && forall|j: int| k < j < es.len() ==> v < h[#[trigger] es[j]].acc }
pub open spec fn nondec(h: Map<VxRef, EntV>, es: Seq<VxRef>) -> bool { forall|a: int, b: int| 0 <= a <= b < es.len() ==> h[#[trigger] es[a]].acc <= h[#[trigger] es[b]].acc }
pub open spec fn hitr(h: Map<VxRef, EntV>, es: Seq<VxRef>, v: real, r: VxRef) -> bool { exists|k: int| hit(h, es, v, k) && r == #[trigger] es[k] }
pub broadcast proof fn lemma_nondec_lo(h: Map<VxRef, EntV>, es: Seq<VxRef>, m: int) requires nondec(h, es), 0 < m < es.len() ensures #[trigger] nondec(h, es.subrange(0, m)) { let a = es.subrange(0, m); assert forall|i: int, j: int| 0 <= i <= j < a.len() implies h[#[trigger] a[i]].acc <= h[#[trigger] a[j]].acc by { assert(a[i] == es[i] && a[j] == es[j]); } }
pub broadcast proof fn lemma_nondec_hi(h: Map<VxRef, EntV>, es: Seq<VxRef>, m: int, n: int) requires nondec(h, es), 0 < m < es.len(), n == es.len() ensures #[trigger] nondec(h, es.subrange(m, n)) { let b = es.subrange(m, n); assert forall|i: int, j: int| 0 <= i <= j < b.len() implies h[#[trigger] b[i]].acc <= h[#[trigger] b[j]].acc by { assert(b[i] == es[m + i] && b[j] == es[m + j]); } }
pub broadcast proof fn lemma_hit_lo(h: Map<VxRef, EntV>, es: Seq<VxRef>, v: real, m: int, r: VxRef) requires nondec(h, es), 0 < m < es.len(), h[es[m]].acc > v, #[trigger] hitr(h, es.subrange(0, m), v, r) ensures hitr(h, es, v, r)
{ let a = es.subrange(0, m); let k = choose|k: int| hit(h, a, v, k) && r == #[trigger] a[k]; assert(es[k] == a[k]); assert forall|j: int| k < j < es.len() implies v < h[#[trigger] es[j]].acc by { if j < m { assert(a[j] == es[j]); } else { assert(h[es[m]].acc <= h[es[j]].acc); } } assert(hit(h, es, v, k) && r == es[k]); }
pub broadcast proof fn lemma_hit_hi(h: Map<VxRef, EntV>, es: Seq<VxRef>, v: real, m: int, n: int, r: VxRef) requires nondec(h, es), 0 < m < es.len(), n == es.len(), h[es[m]].acc <= v, #[trigger] hitr(h, es.subrange(m, n), v, r) ensures hitr(h, es, v, r)
{ let b = es.subrange(m, n); let k = choose|k: int| hit(h, b, v, k) && r == #[trigger] b[k]; assert(es[m + k] == b[k]); assert forall|j: int| m + k < j < es.len() implies v < h[#[trigger] es[j]].acc by { assert(b[j - m] == es[j]); } assert(hit(h, es, v, m + k) && r == es[m + k]); }
pub broadcast proof fn lemma_hit_one(h: Map<VxRef, EntV>, es: Seq<VxRef>, v: real, r: VxRef) requires es.len() == 1, r == es[0] ensures #[trigger] hitr(h, es, v, r) { assert(hit(h, es, v, 0)); }
@@fn src/BinSearch.rs binSearch heap
@contract
    requires $p1@.len() >= 1, nondec(hv(*vx_h), $p1@)
    ensures hitr(hv(*vx_h), $p1@, $p2@, $r)
    decreases $p1@.len()
@entry
    broadcast use {lemma_hv, lemma_hit_lo, lemma_hit_hi, lemma_hit_one, lemma_nondec_lo, lemma_nondec_hi};
@@end
/// every goal that is stored is wanted or indifferent, never unwanted
pub open spec fn desok(g: GsV, h: Map<VxRef, EntV>) -> bool { forall|r: VxRef| #[trigger] em(g).count(r) > 0 ==> h[r].des >= 0real }
/// the number of depths with goals, among the first i
pub open spec fn nzb(b: Seq<BatV>, i: int) -> int decreases i { if i <= 0 { 0 } else { nzb(b, i - 1) + (if b[i - 1].gs.len() > 0 { 1int } else { 0int }) } }
/// what a group weighs / the groups before j weigh
pub open spec fn gwt(h: Map<VxRef, EntV>, q: GroupV) -> real { h[q.es.last()].acc + h[q.es.last()].des }
pub open spec fn gwts(h: Map<VxRef, EntV>, gs: Seq<GroupV>, j: int) -> real decreases j { if j <= 0 { 0real } else { gwts(h, gs, j - 1) + gwt(h, gs[j - 1]) } }
/// every depth that has goals is chosen with the same chance
pub open spec fn depthsel(b: Seq<BatV>, x: real, i: int) -> bool { 0 <= i < b.len() && 0real <= x && x <= nzb(b, b.len() as int) as real && (if b[i].gs.len() > 0 { nzb(b, i) as real <= x <= (nzb(b, i) + 1) as real || x == 0real && i == 0 } else { i == 0 && x == 0real }) }
/// and a goal with a chance that is its share of the desirability
pub open spec fn goalsel(h: Map<VxRef, EntV>, gs: Seq<GroupV>, y: real, r: VxRef) -> bool { exists|j: int| 0 <= j < gs.len() && gwts(h, gs, j) <= y < gwts(h, gs, j) + gwt(h, gs[j]) && hitr(h, (#[trigger] gs[j]).es, y - gwts(h, gs, j), r) }
pub open spec fn sampled(g: GsV, h: Map<VxRef, EntV>, i: int, y: real, o: Option<(SenV, int)>) -> bool {
    let gs = g.bt[i].gs; let w = gwts(h, gs, gs.len() as int);
    &&& 0real <= y && (w > 0real ==> y < w)
    &&& o is None <==> w <= 0real
    &&& o is Some ==> exists|r: VxRef| #[trigger] goalsel(h, gs, y, r) && (o->0).0 == h[r].s && (o->0).1 == h[r].depth
}
pub open spec fn osd(o: Option<(Arc<Sentence>, i64)>) -> Option<(SenV, int)> { match o { Some(x) => Some((sva(x.0), x.1 as int)), None => None } }
pub proof fn lemma_share(p: real, w: real) requires 0real <= p < 1real, w >= 0real ensures 0real <= p * w, w > 0real ==> p * w < w, w == 0real ==> p * w == 0real
{ assert(0real <= p * w && (w > 0real ==> p * w < w)) by (nonlinear_arith) requires 0real <= p < 1real, w >= 0real; if w == 0real { assert(p * w == 0real) by (nonlinear_arith) requires w == 0real; } }
pub proof fn lemma_ginv_bt(g: GsV, h: Map<VxRef, EntV>) requires ginv(g, h) ensures g.bt.len() > 0 {}
pub proof fn lemma_gwt(g: GsV, h: Map<VxRef, EntV>, i: int, j: int) requires ginv(g, h), desok(g, h), 0 <= i < g.bt.len(), 0 <= j < g.bt[i].gs.len() ensures gwt(h, g.bt[i].gs[j]) >= 0real, nondec(h, g.bt[i].gs[j].es), g.bt[i].gs[j].es.len() > 0, forall|k: int| 0 <= k < g.bt[i].gs[j].es.len() ==> h.contains_key(#[trigger] g.bt[i].gs[j].es[k])
{ let q = g.bt[i].gs[j]; assert(batok(g, h, g.bt[i], i)); assert(grpok(g, h, g.bt[i].gs[j], i)); lemma_em_split(g); lemma_bfl_has(g.bt, i, j, q.es.len() - 1); lemma_ms_has(bfl(g.bt), q.es.last()); assert(em(g).count(q.es.last()) > 0); assert(h[q.es[0]].acc <= h[q.es[q.es.len() - 1]].acc); }
pub proof fn lemma_gwts(g: GsV, h: Map<VxRef, EntV>, i: int, a: int, b: int) requires ginv(g, h), desok(g, h), 0 <= i < g.bt.len(), 0 <= a <= b <= g.bt[i].gs.len() ensures 0real <= gwts(h, g.bt[i].gs, a) <= gwts(h, g.bt[i].gs, b) decreases b
{ if a < b { lemma_gwts(g, h, i, a, b - 1); lemma_gwt(g, h, i, b - 1); } else if a > 0 { lemma_gwts(g, h, i, a - 1, a - 1); lemma_gwt(g, h, i, a - 1); } }
pub proof fn lemma_nzb(b: Seq<BatV>, a: int, c: int) requires 0 <= a <= c <= b.len() ensures 0 <= nzb(b, a) <= nzb(b, c) decreases c { if a < c { lemma_nzb(b, a, c - 1); } else if a > 0 { lemma_nzb(b, a - 1, a - 1); } }
@@fn src/NarGoalSystem.rs sample heap
@attr #[verifier::allow_complex_invariants]
@sig rand :: rngs :: ThreadRng => VxRng
@contract
    requires ginv(gsv(*$p1), hv(*vx_h)), desok(gsv(*$p1), hv(*vx_h))
    ensures exists|x: real, i: int, y: real| #[trigger] depthsel(gsv(*$p1).bt, x, i) && #[trigger] sampled(gsv(*$p1), hv(*vx_h), i, y, osd($r))
@entry
    hide(ginv);
    broadcast use {lemma_hv, lemma_gpvs, lemma_btvs};
    proof { lemma_ginv_bt(gsv(*$p1), hv(*vx_h)); }
    let ghost vx_g = gsv(*$p1);
    let ghost vx_hh = hv(*vx_h);
    let ghost vx_b = vx_g.bt;
    let ghost mut vx_si = 0int;
    let ghost mut vx_sx = 0real;
    let ghost mut vx_y = 0real;
    proof { lemma_nzb(vx_b, 0, vx_b.len() as int); assert forall|p: real, w: F| #![trigger ugen(p), w@] 0real <= p < 1real && w@ >= 0real implies 0real <= p * w@ && (w@ > 0real ==> p * w@ < w@) && (w@ == 0real ==> p * w@ == 0real) by { lemma_share(p, w@); } }
@loop depth
@when batchesByDepth
@when $S = $x.vx_ac()
@when if $U >= $P ___
@inv
      $U@ >= $P@ || $U@ == nzb(vx_b, $i as int) as real,
      0 <= vx_si < vx_b.len(), $p1.batchesByDepth@[vx_si] == $S, $P@ >= 0real,
      $U@ == 0real && vx_si == 0 || $U@ == (nzb(vx_b, vx_si) + 1) as real && vx_b[vx_si].gs.len() > 0 && (nzb(vx_b, vx_si) as real) < $P@,
@top
    let ghost vx_k = $i - 1;
@post
    proof { vx_sx = $P@; lemma_nzb(vx_b, vx_si, vx_b.len() as int); }
    assert(depthsel(vx_b, vx_sx, vx_si));
@after $S = $x.vx_ac()
    proof { vx_si = vx_k; }
@loop nonempty
@when batchesByDepth
@when $acc = $acc + ___
@inv
      $acc@ == nzb(vx_b, $i as int) as real,
@loop group
@when binSearch(___)
@when $U = $U + ___
@when $D = Some(___)
@when if $Z + $U > $P ___
@pre
    let ghost vx_gs = vx_b[vx_si].gs;
    assert(vx_gs == gpvs($e@));
    proof { vx_y = $P@; }
@invx
      $D is None, $U@ == gwts(vx_hh, vx_gs, $i as int), $U@ <= $P@,
@inv
      vx_gs == gpvs($e@), vx_gs == vx_b[vx_si].gs, 0 <= vx_si < vx_b.len(),
@top
    proof { lemma_gwt(vx_g, vx_hh, vx_si, $i - 1); lemma_gwts(vx_g, vx_hh, vx_si, $i - 1, vx_gs.len() as int);  lemma_gwts(vx_g, vx_hh, vx_si, $i as int, vx_gs.len() as int); }
    assert(vx_gs[$i - 1].es == $x.entries@);
    let ghost vx_k = $i - 1;
@after binSearch(___)
    assert forall|q: VxRef| #[trigger] hitr(vx_hh, vx_gs[vx_k].es, vx_y - gwts(vx_hh, vx_gs, vx_k), q) implies goalsel(vx_hh, vx_gs, vx_y, q) by {}
@after $D = Some((___))
    assert(sampled(vx_g, vx_hh, vx_si, vx_y, osd($D)));
@loop weights
@when $acc = $acc + ___
@when not batchesByDepth
@pre
    let ghost vx_gs = vx_b[vx_si].gs;
    assert(vx_gs == gpvs($e@));
@inv
      $acc@ == gwts(vx_hh, vx_gs, $i as int), vx_gs == gpvs($e@), vx_gs == vx_b[vx_si].gs, 0 <= vx_si < vx_b.len(),
@top
    proof { lemma_gwt(vx_g, vx_hh, vx_si, $i - 1); }
    assert(vx_gs[$i - 1].es == $x.entries@);
@post
    proof { lemma_gwts(vx_g, vx_hh, vx_si, 0, vx_gs.len() as int); }
@exit
    assert(sampled(vx_g, vx_hh, vx_si, vx_y, osd($r)));
@@end

// ---------------------------------------------------------------- derivation of subgoals
@@item src/NarGoalSystem.rs H erase heap
@@item src/NarGoalSystem.rs EnumGoalDerivationStrategy
use EnumGoalDerivationStrategy::*;
pub open spec fn hcvd(s: SenV, d: int, evi: Option<BV>) -> HV { HV { s, evi, depth: d + 1 } }
pub broadcast proof fn lemma_hcvs_push(v: Seq<H>, c: H) ensures #[trigger] hcvs(v.push(c)) == hcvs(v).push(hcv(c)) { assert(hcvs(v.push(c)) =~= hcvs(v).push(hcv(c))); }
pub struct HV { pub s: SenV, pub evi: Option<BV>, pub depth: int }
pub open spec fn obv(o: Option<Arc<Sentence>>) -> Option<BV> { match o { Some(a) => Some(bv(a)), None => None } }
pub open spec fn hcv(c: H) -> HV { HV { s: sva(c.goal), evi: obv(c.evidence), depth: c.depth as int } }
pub open spec fn hcvs(v: Seq<H>) -> Seq<HV> { v.map_values(|c: H| hcv(c)) }
/// (a, ..)!  |- a!
pub open spec fn detachable(s: SenV) -> bool { s.t.tag == 2 && s.t.kids.len() >= 1 }
pub open spec fn detach(s: SenV) -> SenV { SenV { t: s.t.kids[0], p: EnumPunctation::GOAL, ids: s.ids, occ: None, dt: None, e: Some(EvV::Tv(etv(s.e->0))) } }
/// b!, <a =/> b>.  |- a!
pub open spec fn regressable(s: SenV, b: BV) -> bool { ispred(b.s.t) && b.s.t.kids[1] == s.t && !overlap(s.ids, b.s.ids) }
pub open spec fn regress(s: SenV, b: BV) -> SenV { SenV { t: b.s.t.kids[0], p: EnumPunctation::GOAL, ids: s_merge(s.ids, b.s.ids), occ: None, dt: None, e: Some(EvV::Tv(s_dedgoal(etv(s.e->0), etv(b.s.e->0)))) } }
pub open spec fn cands(m: Map<TermV, Arc<Concept>>, t: TermV) -> Seq<BV> { fsel(belt(m, seq![t]), yields(t)) }
pub open spec fn regs(s: SenV, d: int, b: Seq<BV>) -> Seq<HV> decreases b.len() { if b.len() == 0 { Seq::empty() } else if regressable(s, b.last()) { regs(s, d, b.drop_last()).push(HV { s: regress(s, b.last()), evi: Some(b.last()), depth: d + 1 }) } else { regs(s, d, b.drop_last()) } }
/// a subgoal of a goal: its first event, or what a known implication says leads to it
pub open spec fn regstep(s: SenV, d: int, b: Seq<BV>, c: HV) -> bool { exists|i: int| 0 <= i < b.len() && regressable(s, #[trigger] b[i]) && c == (HV { s: regress(s, b[i]), evi: Some(b[i]), depth: d + 1 }) }
pub open spec fn gstep(m: Map<TermV, Arc<Concept>>, s: SenV, d: int, c: HV) -> bool { if detachable(s) { c == (HV { s: detach(s), evi: None, depth: d + 1 }) } else { regstep(s, d, cands(m, s.t), c) } }
pub open spec fn candok(s: SenV, b: Seq<BV>) -> bool { forall|i: int| 0 <= i < b.len() ==> rateds((#[trigger] b[i]).s) && s.ids.len() + b[i].s.ids.len() <= usize::MAX }
pub broadcast proof fn lemma_tbv_at(v: Seq<Arc<Sentence>>, i: int) requires 0 <= i < v.len() ensures #![trigger tbv(v), v[i]] tbv(v)[i] == bv(v[i]), tbv(v).len() == v.len() {}
pub proof fn lemma_regs(s: SenV, d: int, b: Seq<BV>) ensures forall|i: int| 0 <= i < regs(s, d, b).len() ==> regstep(s, d, b, #[trigger] regs(s, d, b)[i]) decreases b.len()
{
    if b.len() > 0 { let p = b.drop_last(); lemma_regs(s, d, p); let r = regs(s, d, b); assert forall|i: int| 0 <= i < r.len() implies regstep(s, d, b, #[trigger] r[i]) by {
        if i < regs(s, d, p).len() { assert(r[i] == regs(s, d, p)[i]); let k = choose|k: int| 0 <= k < p.len() && regressable(s, #[trigger] p[k]) && r[i] == (HV { s: regress(s, p[k]), evi: Some(p[k]), depth: d + 1 }); assert(b[k] == p[k]); } else { assert(regressable(s, b[b.len() - 1])); } } }
}
@@fn src/NarGoalSystem.rs deriveGoalsHelper heap erase
@sig rand :: rngs :: ThreadRng => VxRng
@contract
    requires rateds(sv(*$p1)), candok(sv(*$p1), cands($p4.concepts@, sv(*$p1).t)), i64::MIN <= $p2 < i64::MAX
    ensures
        detachable(sv(*$p1)) ==> hcvs($r@) == seq![HV { s: detach(sv(*$p1)), evi: None, depth: $p2 + 1 }],
        !detachable(sv(*$p1)) && $p3 is ALL_BELIEFS ==> hcvs($r@) == regs(sv(*$p1), $p2 as int, cands($p4.concepts@, sv(*$p1).t)),
        forall|i: int| 0 <= i < $r@.len() ==> gstep($p4.concepts@, sv(*$p1), $p2 as int, #[trigger] hcvs($r@)[i]),
        $p3 is SAMPLE_2 ==> $r@.len() <= 2,
@entry
    broadcast use {lemma_hcvs_push, lemma_tbv_at};
    let ghost vx_s = sv(*$p1);
    let ghost vx_m = $p4.concepts@;
    let ghost vx_c = cands(vx_m, vx_s.t);
    let ghost vx_d = $p2 as int;
    proof { assert(hcvs(Seq::empty()) =~= Seq::empty()); }
@loop some
@when gen_range
@when $V.push(H ___)
@pre
    assert(hcvs($V@) =~= Seq::empty());
@inv
      $V@.len() <= $i, forall|i: int| 0 <= i < $V@.len() ==> regstep(vx_s, vx_d, vx_c, #[trigger] hcvs($V@)[i]),
@loop all
@when $V.push(H ___)
@pre
    assert(hcvs($V@) =~= Seq::empty()); assert(vx_c.take(0) =~= Seq::empty());
@inv
      tbv($e@) == vx_c, hcvs($V@) == regs(vx_s, vx_d, vx_c.take($i as int)),
@top
    assert(vx_c[$i - 1] == bv($e@[$i - 1]));
    assert(vx_c.take($i as int).drop_last() =~= vx_c.take($i - 1));
@post
    assert(vx_c.take($n as int) =~= vx_c);
    proof { lemma_regs(vx_s, vx_d, vx_c); }
@exit
    assert(detachable(vx_s) ==> hcvs($r@) =~= seq![HV { s: detach(vx_s), evi: None, depth: vx_d + 1 }]);
@@end

/// c is reached from the goal root by n derivation steps
pub open spec fn der(m: Map<TermV, Arc<Concept>>, root: HV, c: HV, n: nat) -> bool decreases n { if n == 0 { c.s == root.s && c.depth == root.depth } else { exists|p: HV| der(m, root, p, (n - 1) as nat) && #[trigger] dstep(m, p, c) } }
pub open spec fn dstep(m: Map<TermV, Arc<Concept>>, p: HV, c: HV) -> bool { gstep(m, p.s, p.depth, c) }
pub open spec fn cok(m: Map<TermV, Arc<Concept>>, root: HV, c: HV) -> bool { c.s.p == EnumPunctation::GOAL && c.depth > root.depth && exists|n: nat| n >= 1 && #[trigger] der(m, root, c, n) }
pub open spec fn csok(m: Map<TermV, Arc<Concept>>, root: HV, cs: Seq<HV>) -> bool { forall|j: int| 0 <= j < cs.len() ==> cok(m, root, #[trigger] cs[j]) }
pub open spec fn memok(m: Map<TermV, Arc<Concept>>) -> bool { forall|t: TermV, i: int| 0 <= i < cands(m, t).len() ==> okg((#[trigger] cands(m, t)[i]).s) }
pub open spec fn wsok(m: Map<TermV, Arc<Concept>>, root: HV, s: SenV, d: int, k: int) -> bool { okg(s) && exists|p: HV, n: nat| p.s == s && p.depth == d && #[trigger] der(m, root, p, n) && n <= k && d == root.depth + n }
pub proof fn lemma_gstep(m: Map<TermV, Arc<Concept>>, s: SenV, d: int, c: HV) requires memok(m), okg(s), gstep(m, s, d, c) ensures okg(c.s), c.s.p == EnumPunctation::GOAL, c.depth == d + 1
{
    broadcast use {lemma_etv, lemma_ok_dedgoal};
    if !detachable(s) { let b = cands(m, s.t); let i = choose|i: int| 0 <= i < b.len() && regressable(s, #[trigger] b[i]) && c == (HV { s: regress(s, b[i]), evi: Some(b[i]), depth: d + 1 }); assert(okg(cands(m, s.t)[i].s)); lemma_merge(s.ids, b[i].s.ids); assert(okc(etv(s.e->0)) && okc(etv(b[i].s.e->0))); }
}
/// a step from a goal of the working set is a conclusion, and can go into the working set
pub proof fn lemma_ws(m: Map<TermV, Arc<Concept>>, root: HV, s: SenV, d: int, k: int, c: HV) requires memok(m), wsok(m, root, s, d, k), gstep(m, s, d, c) ensures wsok(m, root, c.s, c.depth, k + 1), cok(m, root, c), c.depth == d + 1
{
    lemma_gstep(m, s, d, c);
    let (p, n) = choose|p: HV, n: nat| p.s == s && p.depth == d && #[trigger] der(m, root, p, n) && n <= k && d == root.depth + n;
    let n1 = (n + 1) as nat; assert((n1 - 1) as nat == n); assert(dstep(m, p, c)); assert(der(m, root, c, n1));
}
pub proof fn lemma_ws_root(m: Map<TermV, Arc<Concept>>, root: HV) requires okg(root.s) ensures wsok(m, root, root.s, root.depth, 0) { assert(der(m, root, root, 0)); }
pub proof fn lemma_cand(m: Map<TermV, Arc<Concept>>, s: SenV) requires memok(m), okg(s) ensures candok(s, cands(m, s.t)) { let b = cands(m, s.t); assert forall|i: int| 0 <= i < b.len() implies rateds((#[trigger] b[i]).s) && s.ids.len() + b[i].s.ids.len() <= usize::MAX by { assert(okg(cands(m, s.t)[i].s)); } }
pub proof fn lemma_wsok_le(m: Map<TermV, Arc<Concept>>, root: HV, s: SenV, d: int, k: int, k1: int) requires wsok(m, root, s, d, k), k <= k1 ensures wsok(m, root, s, d, k1), root.depth <= d <= root.depth + k1 { let (p, n) = choose|p: HV, n: nat| p.s == s && p.depth == d && #[trigger] der(m, root, p, n) && n <= k && d == root.depth + n; assert(der(m, root, p, n) && n <= k1); }
/// the entry of a derived goal
pub open spec fn isnew(x: EntV, c: HV, t: int) -> bool { x.s == c.s && obv(x.evi) == c.evi && x.create == t && x.depth == c.depth && x.des == 1real && x.util == 1real }
/// the goals cs were added: nothing is lost or changed, nothing else is added, and every one of them is there
pub open spec fn addall(g: GsV, h: Map<VxRef, EntV>, g1: GsV, h1: Map<VxRef, EntV>, cs: Seq<HV>, t: int) -> bool {
    &&& ginv(g1, h1) && g1.nmax == g.nmax && g1.ndep == g.ndep && g1.sat == g.sat
    &&& hkeep(h, h1)
    &&& forall|r: VxRef| em(g).count(r) <= #[trigger] em(g1).count(r)
    &&& forall|r: VxRef| #[trigger] em(g1).count(r) > 0 ==> em(g).count(r) > 0 || newin(h1[r], cs, t)
    &&& forall|j: int| 0 <= j < cs.len() ==> ghas(g1, h1, (#[trigger] cs[j]).s.t, cs[j].s.ids)
}
pub open spec fn newin(x: EntV, cs: Seq<HV>, t: int) -> bool { exists|j: int| 0 <= j < cs.len() && isnew(x, #[trigger] cs[j], t) }
pub proof fn lemma_newin(x: EntV, cs: Seq<HV>, i: int, t: int) requires 0 <= i < cs.len() ensures newin(x, cs.take(i), t) || isnew(x, cs[i], t) ==> newin(x, cs.take(i + 1), t)
{ let a = cs.take(i + 1); if newin(x, cs.take(i), t) { let j = choose|j: int| 0 <= j < i && isnew(x, #[trigger] cs.take(i)[j], t); assert(a[j] == cs.take(i)[j]); } if isnew(x, cs[i], t) { assert(a[i] == cs[i]); } }
pub proof fn lemma_addall(g: GsV, h: Map<VxRef, EntV>, g1: GsV, h1: Map<VxRef, EntV>, g2: GsV, h2: Map<VxRef, EntV>, cs: Seq<HV>, i: int, evi: Option<Arc<Sentence>>, t: int)
    requires ginv(g, h), 0 <= i < cs.len(), addall(g, h, g1, h1, cs.take(i), t), added(g1, h1, g2, h2, cs[i].s, evi, t, cs[i].depth), obv(evi) == cs[i].evi
    ensures addall(g, h, g2, h2, cs.take(i + 1), t)
{
    let c = cs[i]; let a = cs.take(i + 1);
    assert forall|r: VxRef| h.contains_key(r) implies h2.contains_key(r) && #[trigger] h2[r] == h[r] by { assert(h1[r] == h[r]); assert(h2[r] == h1[r]); }
    assert forall|r: VxRef| #[trigger] em(g1).count(r) > 0 implies h2[r] == h1[r] && em(g2).count(r) > 0 by { lemma_hin_em(g1, h1, r); if !ghas(g1, h1, c.s.t, c.s.ids) { let e = choose|e: VxRef| !h1.contains_key(e) && h2.contains_key(e) && #[trigger] em(g1).insert(e) == em(g2) && h2[e] == newent(c.s, evi, t, c.depth, h2[e].acc); assert(em(g1).insert(e).count(r) > 0); } }
    if ghas(g1, h1, c.s.t, c.s.ids) {
        let r = choose|r: VxRef| #[trigger] em(g1).count(r) > 0 && twin(h1[r], c.s.t, c.s.ids); assert(em(g2).count(r) > 0 && twin(h2[r], c.s.t, c.s.ids));
        assert forall|r: VxRef| #[trigger] em(g2).count(r) > 0 implies em(g).count(r) > 0 || newin(h2[r], a, t) by { assert(em(g1).count(r) > 0); lemma_newin(h2[r], cs, i, t); }
        assert forall|r: VxRef| em(g).count(r) <= #[trigger] em(g2).count(r) by { assert(em(g).count(r) <= em(g1).count(r)); }
    } else {
        let e = choose|e: VxRef| !h1.contains_key(e) && h2.contains_key(e) && #[trigger] em(g1).insert(e) == em(g2) && h2[e] == newent(c.s, evi, t, c.depth, h2[e].acc);
        assert(em(g2).count(e) > 0) by { assert(em(g1).insert(e).count(e) > 0); }
        assert(twin(h2[e], c.s.t, c.s.ids));
        assert(isnew(h2[e], c, t));
        assert forall|r: VxRef| #[trigger] em(g2).count(r) > 0 implies em(g).count(r) > 0 || newin(h2[r], a, t) by { lemma_newin(h2[r], cs, i, t); if r != e { assert(em(g1).insert(e).count(r) == em(g1).count(r)); assert(em(g1).count(r) > 0); } }
        assert forall|r: VxRef| em(g).count(r) <= #[trigger] em(g2).count(r) by { assert(em(g).count(r) <= em(g1).count(r)); assert(em(g1).count(r) <= em(g1).insert(e).count(r)); }
    }
    assert forall|j: int| 0 <= j < a.len() implies ghas(g2, h2, (#[trigger] a[j]).s.t, a[j].s.ids) by {
        if j < i { assert(cs.take(i)[j] == a[j]); let r = choose|r: VxRef| #[trigger] em(g1).count(r) > 0 && twin(h1[r], a[j].s.t, a[j].s.ids); assert(em(g2).count(r) > 0 && twin(h2[r], a[j].s.t, a[j].s.ids)); }
    }
}
pub open spec fn direct(m: Map<TermV, Arc<Concept>>, root: HV) -> Seq<HV> { if detachable(root.s) { seq![HV { s: detach(root.s), evi: None, depth: root.depth + 1 }] } else { regs(root.s, root.depth, cands(m, root.s.t)) } }
/// a sampled goal spreads to its subgoals, and to nothing else
pub open spec fn spread(g: GsV, h: Map<VxRef, EntV>, g1: GsV, h1: Map<VxRef, EntV>, m: Map<TermV, Arc<Concept>>, t: int, o: Option<(SenV, int)>) -> bool {
    match o {
        None => g1 == g && h1 == h,
        Some(x) => { let root = HV { s: x.0, evi: None, depth: x.1 }; exists|cs: Seq<HV>| csok(m, root, cs) && #[trigger] addall(g, h, g1, h1, cs, t) && forall|j: int| 0 <= j < direct(m, root).len() ==> cs.contains(#[trigger] direct(m, root)[j]) },
    }
}
pub open spec fn hct(x: (Arc<Sentence>, Option<Arc<Sentence>>, i64)) -> HV { HV { s: sva(x.0), evi: obv(x.1), depth: x.2 as int } }
pub open spec fn hcts(v: Seq<(Arc<Sentence>, Option<Arc<Sentence>>, i64)>) -> Seq<HV> { v.map_values(|x: (Arc<Sentence>, Option<Arc<Sentence>>, i64)| hct(x)) }
pub broadcast proof fn lemma_hcts_push(v: Seq<(Arc<Sentence>, Option<Arc<Sentence>>, i64)>, c: (Arc<Sentence>, Option<Arc<Sentence>>, i64)) ensures #[trigger] hcts(v.push(c)) == hcts(v).push(hct(c)) { assert(hcts(v.push(c)) =~= hcts(v).push(hct(c))); }
pub open spec fn gsok(g: GsV, h: Map<VxRef, EntV>, rounds: int) -> bool { forall|r: VxRef| #[trigger] em(g).count(r) > 0 ==> okg(h[r].s) && 0 <= h[r].depth && h[r].depth + (if rounds > 0 { rounds } else { 0 }) < i64::MAX && h[r].des >= 0real }
pub proof fn lemma_sampled_in(g: GsV, h: Map<VxRef, EntV>, x: real, i: int, y: real, o: (SenV, int)) requires ginv(g, h), depthsel(g.bt, x, i), sampled(g, h, i, y, Some(o)) ensures exists|r: VxRef| #[trigger] em(g).count(r) > 0 && h[r].s == o.0 && h[r].depth == o.1
{
    let gs = g.bt[i].gs; let r = choose|r: VxRef| #[trigger] goalsel(h, gs, y, r) && o.0 == h[r].s && o.1 == h[r].depth;
    let j = choose|j: int| 0 <= j < gs.len() && gwts(h, gs, j) <= y < gwts(h, gs, j) + gwt(h, gs[j]) && hitr(h, (#[trigger] gs[j]).es, y - gwts(h, gs, j), r);
    let k = choose|k: int| hit(h, gs[j].es, y - gwts(h, gs, j), k) && r == #[trigger] gs[j].es[k];
    lemma_bfl_has(g.bt, i, j, k); lemma_ms_has(bfl(g.bt), r); lemma_em_split(g); assert(em(g).count(r) > 0);
}
pub proof fn lemma_direct(m: Map<TermV, Arc<Concept>>, root: HV) requires memok(m), okg(root.s) ensures csok(m, root, direct(m, root)) { let d = direct(m, root); lemma_ws_root(m, root); lemma_regs(root.s, root.depth, cands(m, root.s.t)); assert forall|j: int| 0 <= j < d.len() implies cok(m, root, #[trigger] d[j]) by { assert(gstep(m, root.s, root.depth, d[j])); lemma_ws(m, root, root.s, root.depth, 0, d[j]); } }
@@fn src/NarGoalSystem.rs sampleAndInference heap deeplock erase
@sig rand :: rngs :: ThreadRng => VxRng
@contract
    requires ginv(gsv(*old($p1)), hv(*old(vx_h))), gsok(gsv(*old($p1)), hv(*old(vx_h)), old($p1).cfg__subworkingCycle_rounds as int), memok($p4.concepts@)
    ensures exists|x: real, i: int, y: real, o: Option<(SenV, int)>| #[trigger] depthsel(gsv(*old($p1)).bt, x, i) && #[trigger] sampled(gsv(*old($p1)), hv(*old(vx_h)), i, y, o) && spread(gsv(*old($p1)), hv(*old(vx_h)), gsv(*final($p1)), hv(*final(vx_h)), $p4.concepts@, $p3 as int, o)
@entry
    hide(ginv);
    broadcast use {lemma_hcts_push, lemma_hcvs_push};
    let ghost vx_g0 = gsv(*old($p1));
    let ghost vx_h0 = hv(*old(vx_h));
    let ghost vx_m = $p4.concepts@;
    let ghost mut vx_root = HV { s: arbitrary(), evi: None, depth: 0 };
    let ghost mut vx_o: Option<(SenV, int)> = None;
@let sampledGoalOpt
    proof {
        vx_o = osd(sampledGoalOpt);
        let (x, i, y) = choose|x: real, i: int, y: real| #[trigger] depthsel(vx_g0.bt, x, i) && #[trigger] sampled(vx_g0, vx_h0, i, y, vx_o);
        if vx_o is Some { lemma_sampled_in(vx_g0, vx_h0, x, i, y, vx_o->0); vx_root = HV { s: (vx_o->0).0, evi: None, depth: (vx_o->0).1 }; lemma_ws_root(vx_m, vx_root); lemma_cand(vx_m, vx_root.s); lemma_regs(vx_root.s, vx_root.depth, cands(vx_m, vx_root.s.t)); }
    }
@loop rounds
@when outer
@when $W.swap_remove(___)
@when $C.push((___))
@pre
    assert(hcts($C@) =~= Seq::empty());
@inv
      forall|k: int| 0 <= k < $W@.len() ==> wsok(vx_m, vx_root, #[trigger] sva($W@[k].goal), $W@[k].sampledDepth as int, $i as int),
      csok(vx_m, vx_root, hcts($C@)),
@top
    let ghost vx_k = $i - 1;
    let ghost vx_ws = $W@;
    assert forall|k: int| 0 <= k < vx_ws.len() implies wsok(vx_m, vx_root, #[trigger] sva(vx_ws[k].goal), vx_ws[k].sampledDepth as int, vx_k) && wsok(vx_m, vx_root, sva(vx_ws[k].goal), vx_ws[k].sampledDepth as int, vx_k + 1) && vx_root.depth <= vx_ws[k].sampledDepth <= vx_root.depth + vx_k && candok(sva(vx_ws[k].goal), cands(vx_m, sva(vx_ws[k].goal).t)) by { lemma_wsok_le(vx_m, vx_root, sva(vx_ws[k].goal), vx_ws[k].sampledDepth as int, vx_k, vx_k); lemma_wsok_le(vx_m, vx_root, sva(vx_ws[k].goal), vx_ws[k].sampledDepth as int, vx_k, vx_k + 1); lemma_cand(vx_m, sva(vx_ws[k].goal)); }
@after deriveGoalsHelper(&$P.goal, ___)
    assert forall|c: HV| #[trigger] gstep(vx_m, sva($P.goal), $P.sampledDepth as int, c) implies wsok(vx_m, vx_root, c.s, c.depth, vx_k + 1) && cok(vx_m, vx_root, c) by { lemma_ws(vx_m, vx_root, sva($P.goal), $P.sampledDepth as int, vx_k, c); }
@loop collect
@when $W.push(Arc::new(___))
@when $C.push((___))
@pre
    assert forall|j: int| 0 <= j < $e@.len() implies wsok(vx_m, vx_root, (#[trigger] hcvs($e@)[j]).s, hcvs($e@)[j].depth, vx_k + 1) && cok(vx_m, vx_root, hcvs($e@)[j]) by {}
@inv
      forall|j: int| 0 <= j < $e@.len() ==> wsok(vx_m, vx_root, (#[trigger] hcvs($e@)[j]).s, hcvs($e@)[j].depth, vx_k + 1) && cok(vx_m, vx_root, hcvs($e@)[j]),
      forall|k: int| 0 <= k < $W@.len() ==> wsok(vx_m, vx_root, #[trigger] sva($W@[k].goal), $W@[k].sampledDepth as int, vx_k + 1),
      csok(vx_m, vx_root, hcts($C@)),
@top
    assert(hcv($x) == hcvs($e@)[$i - 1]);
@loop direct
@when $C.push((___))
@pre
    let ghost vx_c0 = hcts($C@);
    let ghost vx_dr = hcvs($e@);
    proof { lemma_direct(vx_m, vx_root); assert(vx_dr == direct(vx_m, vx_root)); }
    assert(hcts($C@) =~= vx_c0 + vx_dr.take(0));
@inv
      hcts($C@) == vx_c0 + vx_dr.take($i as int), vx_dr == hcvs($e@),
@top
    assert(hcv($x) == vx_dr[$i - 1]);
@bot
    assert(hcts($C@) =~= vx_c0 + vx_dr.take($i as int));
@post
    assert(vx_dr.take($n as int) =~= vx_dr);
    proof {
        let cs = hcts($C@);
        assert forall|j: int| 0 <= j < cs.len() implies cok(vx_m, vx_root, #[trigger] cs[j]) by { if j < vx_c0.len() { assert(cs[j] == vx_c0[j]); } else { assert(cs[j] == vx_dr[j - vx_c0.len()]); } }
        assert forall|j: int| 0 <= j < direct(vx_m, vx_root).len() implies cs.contains(#[trigger] direct(vx_m, vx_root)[j]) by { assert(cs[vx_c0.len() + j] == vx_dr[j]); }
    }
@loop add
@when addEntry(___)
@pre
    let ghost vx_cs = hcts($e@);
    assert(vx_cs.take(0) =~= Seq::empty());
    assert(addall(vx_g0, vx_h0, gsv(*$p1), hv(*vx_h), vx_cs.take(0), $p3 as int));
@inv
      vx_cs == hcts($e@), csok(vx_m, vx_root, vx_cs), addall(vx_g0, vx_h0, gsv(*$p1), hv(*vx_h), vx_cs.take($i as int), $p3 as int),
@top
    let ghost vx_g1 = gsv(*$p1);
    let ghost vx_h1 = hv(*vx_h);
    assert(vx_cs[$i - 1] == hct($e@[$i - 1]));
    assert(cok(vx_m, vx_root, vx_cs[$i - 1]));
@bot
    proof { lemma_addall(vx_g0, vx_h0, vx_g1, vx_h1, gsv(*$p1), hv(*vx_h), vx_cs, $i - 1, $e@[$i - 1].1, $p3 as int); }
@post
    assert(vx_cs.take($n as int) =~= vx_cs);
@exit
    assert(spread(vx_g0, vx_h0, gsv(*$p1), hv(*vx_h), vx_m, $p3 as int, vx_o));
@@end
pub proof fn lemma_der_ok(m: Map<TermV, Arc<Concept>>, root: HV, c: HV, n: nat) requires memok(m), okg(root.s), der(m, root, c, n) ensures okg(c.s), c.depth == root.depth + n decreases n
{ if n > 0 { let p = choose|p: HV| der(m, root, p, (n - 1) as nat) && #[trigger] dstep(m, p, c); lemma_der_ok(m, root, p, (n - 1) as nat); lemma_gstep(m, p.s, p.depth, c); } }
pub proof fn lemma_always_spread(g: GsV, h: Map<VxRef, EntV>, g1: GsV, h1: Map<VxRef, EntV>, m: Map<TermV, Arc<Concept>>, t: int, x: real, i: int, y: real, o: Option<(SenV, int)>)
    requires always(g, h), memok(m), depthsel(g.bt, x, i), sampled(g, h, i, y, o), spread(g, h, g1, h1, m, t, o) ensures always(g1, h1)
{
    if o is Some {
        lemma_sampled_in(g, h, x, i, y, o->0);
        let root = HV { s: (o->0).0, evi: None, depth: (o->0).1 };
        let cs = choose|cs: Seq<HV>| csok(m, root, cs) && #[trigger] addall(g, h, g1, h1, cs, t) && forall|j: int| 0 <= j < direct(m, root).len() ==> cs.contains(#[trigger] direct(m, root)[j]);
        assert forall|r: VxRef| #[trigger] em(g1).count(r) > 0 implies okg(h1[r].s) && h1[r].depth >= 0 && h1[r].des >= 0real by {
            if em(g).count(r) > 0 { lemma_hin_em(g, h, r); assert(h1[r] == h[r]); }
            else { let j = choose|j: int| 0 <= j < cs.len() && isnew(h1[r], #[trigger] cs[j], t); let c = cs[j]; assert(cok(m, root, c)); let n = choose|n: nat| n >= 1 && #[trigger] der(m, root, c, n); lemma_der_ok(m, root, c, n); }
        }
    }
}
}
@@main
