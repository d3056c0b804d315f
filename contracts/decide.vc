// src/NarProc.rs: the second half of a procedural step: deciding, acting, forgetting, planning
@@over ProcNar
@@opaque ginv always added glim limited rok memok entsok gok spread sampled depthsel beste gsok rated ents em
@@use goal2.vc
@@heap cell=Entry deep=BatchByDepth,GoalSystem ro=retEntries,checkSetContains,sample,binSearch,selHighestExpGoalByState,query,deriveGoalsHelper mut=step,addEntry,addEntry2,limitGoals,event_occurred,sampleAndInference,inputT2,inputT,inputN,narStep1
verus! {
@@item src/NarProc.rs AnticipationEvent erase heap
/// what was executed
#[verifier::external_body]
pub struct VxLog { x: u64 }
impl VxLog { pub uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<TermV>)>; }
@@item src/NarProc.rs ProcNar deep erase heap keep=cfgPerceptWindow,cfgDescnThreshold,cfgEnBabbling,cfg__enAnticipation,cfg__nConcepts,cfg__resourceExpectedTime,cfg__resourceGoalDeriverPrio,cfgVerbosity,evidenceMem,trace,anticipatedEvents,ops,t,rng,expIntervalsTable,goalSystem,storeWorkersTx ty:trace=TraceDefault ty:rng=VxRng ty:storeWorkersTx=VxLog
impl VxOp {
    /// A-OP: an op changes nothing of the reasoner
    #[verifier::external_body]
    pub fn call(&self, nar: &mut ProcNar, m: &Option<Arc<Mem2>>, a: &Vec<Term>)
        ensures final(nar).storeWorkersTx@ == old(nar).storeWorkersTx@.push((self.nm(), tvseq(a@))), *final(nar) == (ProcNar { storeWorkersTx: final(nar).storeWorkersTx, ..*old(nar) })
    { loop {} }
}
impl TraceDefault {
    pub fn event_happened(&mut self, event: Arc<SimpleSentence>) ensures final(self).trace@ == old(self).trace@.push(event) { event_happened(self, event) }
    pub fn ret_view(&mut self) -> (r: Vec<Arc<SimpleSentence>>) ensures final(self).trace@ == old(self).trace@, r@ == old(self).trace@ { ret_view(self) }
    pub fn ret_last_events(&mut self) -> (r: Option<Vec<Arc<SimpleSentence>>>) ensures final(self).trace@ == old(self).trace@, r is None <==> old(self).trace@.len() == 0, r is Some ==> (r->0)@ == seq![old(self).trace@.last()] { ret_last_events(self) }
    pub fn limit(&mut self) ensures final(self).trace@ == s_last20(old(self).trace@) { limit(self) }
}
pub open spec fn s_last20<T>(s: Seq<T>) -> Seq<T> { if s.len() <= 20 { s } else { s.subrange(s.len() - 20, s.len() as int) } }
impl VxRd for Arc<Mem2> { type T = Mem2; open spec fn vx_in(&self, h: &VxHeap) -> bool { true } open spec fn vx_at(&self, h: &VxHeap) -> Mem2 { **self } fn vx_rd(&self, h: &VxHeap) -> (r: &Mem2) { self } }
/// the clock: any time may have passed
#[verifier::external_body]
pub struct Instant { x: u64 }
#[verifier::external_body]
pub struct VxDur { x: u64 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { loop {} } #[verifier::external_body] pub fn elapsed(&self) -> VxDur { loop {} } }
impl VxDur { #[verifier::external_body] pub fn as_micros(&self) -> u64 { loop {} } }
#[verifier::external_body]
pub fn vx_rev<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { loop {} }
#[verifier::external_body]
pub fn convSentenceTermPunctToStr(s: &Sentence, b: bool) -> String { loop {} }
#[verifier::external_body]
pub fn convTermToStr(s: &Term) -> String { loop {} }
@@fn src/NarProc.rs narStep1::cloneEvidence erase heap
@contract
    ensures $r == *$p1
@@end

// ---------------------------------------------------------------- what is known
pub struct EvtV { pub t: TermV, pub evi: int, pub occ: int }
pub open spec fn evtv(a: Arc<SimpleSentence>) -> EvtV { EvtV { t: tmv(a.name), evi: a.evi as int, occ: a.occT as int } }
pub open spec fn trv(t: Seq<Arc<SimpleSentence>>) -> Seq<EvtV> { t.map_values(|a: Arc<SimpleSentence>| evtv(a)) }
pub open spec fn dti(d: Option<i64>) -> int { match d { Some(x) => x as int, None => 0 } }
pub open spec fn dtok(d: Option<i64>, tab: Seq<i64>) -> bool { 0 <= dti(d) < tab.len() }
pub open spec fn bxok(b: BV, tab: Seq<i64>) -> bool { okg(b.s) && !b.s.ids.contains(-1i64) && (isimplseq(b.s.t) ==> b.s.t.kids[0].kids.len() >= 1) && dtok(b.s.dt, tab) }
pub open spec fn bsok(s: Seq<BV>, tab: Seq<i64>) -> bool { forall|i: int| 0 <= i < s.len() ==> bxok(#[trigger] s[i], tab) }
#[verifier::opaque]
pub open spec fn mall(m: Map<TermV, Arc<Concept>>, tab: Seq<i64>) -> bool { forall|k: TermV| #[trigger] m.contains_key(k) ==> bsok(bel1(m, k), tab) }
pub proof fn lemma_bels_all(m: Map<TermV, Arc<Concept>>, ts: Seq<TermV>, tab: Seq<i64>) requires mall(m, tab) ensures bsok(bels(m, ts), tab) decreases ts.len()
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(mall); if ts.len() > 0 { lemma_bels_all(m, ts.drop_last(), tab); let a = bels(m, ts.drop_last()); let b = bel1(m, ts.last()); assert(m.contains_key(ts.last()) ==> bsok(b, tab)); assert forall|i: int| 0 <= i < (a + b).len() implies bxok(#[trigger] (a + b)[i], tab) by { if i < a.len() { assert(bxok(a[i], tab)); } else { assert(bxok(b[i - a.len()], tab)); } } } }
pub proof fn lemma_belt1(m: Map<TermV, Arc<Concept>>, t: TermV, tab: Seq<i64>) requires mall(m, tab) ensures bsok(belt(m, seq![t]), tab)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(mall); assert(seq![t].drop_last() =~= Seq::empty()); assert(belt(m, Seq::empty()) =~= Seq::empty()); assert(belt(m, seq![t]) =~= bels(m, subs(t))); lemma_bels_all(m, subs(t), tab); }
pub open spec fn ante(m: Map<TermV, Arc<Concept>>, t: TermV) -> Seq<BV> { fsel(belt(m, seq![t]), begins(t)) }
pub proof fn lemma_ante(m: Map<TermV, Arc<Concept>>, t: TermV, tab: Seq<i64>) requires mall(m, tab) ensures noempty(belt(m, seq![t])), forall|i: int| 0 <= i < ante(m, t).len() ==> bxok(#[trigger] ante(m, t)[i], tab) && isimplseq(ante(m, t)[i].s.t) && ante(m, t)[i].s.t.kids[0].kids[0] == t
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(mall);
    lemma_belt1(m, t, tab); let a = ante(m, t); let l = belt(m, seq![t]);
    assert forall|i: int| 0 <= i < a.len() implies bxok(#[trigger] a[i], tab) && isimplseq(a[i].s.t) && a[i].s.t.kids[0].kids[0] == t by { lemma_fsel(l, begins(t), a[i]); assert(a.contains(a[i])); let k = choose|k: int| 0 <= k < l.len() && l[k] == a[i]; assert(bxok(l[k], tab)); }
}
pub proof fn lemma_mall_memok(m: Map<TermV, Arc<Concept>>, tab: Seq<i64>) requires mall(m, tab) ensures memok(m)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(mall);
    assert forall|t: TermV, i: int| 0 <= i < cands(m, t).len() implies okg((#[trigger] cands(m, t)[i]).s) by { lemma_belt1(m, t, tab); let a = cands(m, t); let l = belt(m, seq![t]); lemma_fsel(l, yields(t), a[i]); assert(a.contains(a[i])); let k = choose|k: int| 0 <= k < l.len() && l[k] == a[i]; assert(bxok(l[k], tab)); }
}
pub proof fn lemma_mall_limited(m: Map<TermV, Arc<Concept>>, r: Map<TermV, Arc<Concept>>, n: int, tab: Seq<i64>) requires mall(m, tab), limited(m, r, n) ensures mall(r, tab)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(mall); assert forall|k: TermV| #[trigger] r.contains_key(k) implies bsok(bel1(r, k), tab) by { assert(r[k] == m[k]); assert(m.contains_key(k)); assert(bel1(r, k) == bel1(m, k)); } }
pub open spec fn evxok(e: Option<Arc<Sentence>>, tab: Seq<i64>) -> bool { e is Some ==> okg(sva(e->0)) && dtok(sva(e->0).dt, tab) }
/// what is true of the goals at any time t
#[verifier::opaque]
pub open spec fn gall(g: GsV, h: Map<VxRef, EntV>, t: int, tab: Seq<i64>) -> bool { always(g, h) && forall|r: VxRef| #[trigger] em(g).count(r) > 0 ==> 0 <= h[r].create <= t && evxok(h[r].evi, tab) }
pub proof fn lemma_in_em(g: GsV, r: VxRef) ensures ents(g).contains(r) <==> em(g).count(r) > 0 { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); lemma_ms_has(ents(g), r); }
pub proof fn lemma_gall_rated(g: GsV, h: Map<VxRef, EntV>, t: int, tab: Seq<i64>) requires gall(g, h, t, tab) ensures rated(h, ents(g)), forall|r: VxRef| #[trigger] ents(g).contains(r) ==> h.contains_key(r) && okg(h[r].s) && evxok(h[r].evi, tab)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(gall);
    assert forall|r: VxRef| #[trigger] ents(g).contains(r) implies h.contains_key(r) && okg(h[r].s) && evxok(h[r].evi, tab) by { lemma_in_em(g, r); lemma_hin_em(g, h, r); }
    assert forall|i: int| 0 <= i < ents(g).len() implies h.contains_key(#[trigger] ents(g)[i]) && h[ents(g)[i]].s.e is Some && evok(h[ents(g)[i]].s.e->0) by { assert(ents(g).contains(ents(g)[i])); }
}
pub proof fn lemma_gall_act(g: GsV, h: Map<VxRef, EntV>, t: int, tab: Seq<i64>) requires gall(g, h, t, tab) ensures forall|i: int| 0 <= i < g.act.len() ==> h.contains_key(#[trigger] g.act[i]) && okg(h[g.act[i]].s) && evxok(h[g.act[i]].evi, tab) && isop(h[g.act[i]].s.t)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(gall); assert forall|i: int| 0 <= i < g.act.len() implies h.contains_key(#[trigger] g.act[i]) && okg(h[g.act[i]].s) && evxok(h[g.act[i]].evi, tab) && isop(h[g.act[i]].s.t) by { assert(ents(g)[bfl(g.bt).len() + i] == g.act[i]); assert(ents(g).contains(g.act[i])); lemma_gall_rated(g, h, t, tab); } }
pub proof fn lemma_gall_added(g: GsV, h: Map<VxRef, EntV>, g1: GsV, h1: Map<VxRef, EntV>, s: SenV, evi: Option<Arc<Sentence>>, t: int, tab: Seq<i64>)
    requires gall(g, h, t, tab), added(g, h, g1, h1, s, evi, t, 0), okg(s), evxok(evi, tab), t >= 0 ensures gall(g1, h1, t, tab), ents(g1).len() <= ents(g).len() + 1
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(gall);
    lemma_always_added(g, h, g1, h1, s, evi, t, 0);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(em(g).len() == ents(g).len() && em(g1).len() == ents(g1).len());
    if !ghas(g, h, s.t, s.ids) {
        let e = choose|e: VxRef| !h.contains_key(e) && h1.contains_key(e) && #[trigger] em(g).insert(e) == em(g1) && h1[e] == newent(s, evi, t, 0, h1[e].acc);
        assert forall|r: VxRef| #[trigger] em(g1).count(r) > 0 implies 0 <= h1[r].create <= t && evxok(h1[r].evi, tab) by { assert(em(g).insert(e).count(r) > 0); if em(g).count(r) > 0 { lemma_hin_em(g, h, r); assert(h1[r] == h[r]); } else { assert(r == e); } }
    } else { assert forall|r: VxRef| #[trigger] em(g1).count(r) > 0 implies 0 <= h1[r].create <= t && evxok(h1[r].evi, tab) by { assert(em(g).count(r) > 0); lemma_hin_em(g, h, r); assert(h1[r] == h[r]); } }
}
/// an active goal was pursued: it is not active anymore and not desired anymore
pub open spec fn gdone(g: GsV, k: int) -> GsV { GsV { act: g.act.remove(k), ..g } }
pub open spec fn hdone(g: GsV, h: Map<VxRef, EntV>, k: int) -> Map<VxRef, EntV> { h.insert(g.act[k], EntV { des: 0real, ..h[g.act[k]] }) }
pub proof fn lemma_gall_done(g: GsV, h: Map<VxRef, EntV>, k: int, t: int, tab: Seq<i64>) requires gall(g, h, t, tab), 0 <= k < g.act.len() ensures gall(gdone(g, k), hdone(g, h, k), t, tab), ents(gdone(g, k)).len() <= ents(g).len()
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(gall);
    let g1 = gdone(g, k); let h1 = hdone(g, h, k);
    lemma_gall_act(g, h, t, tab);
    assert forall|r: VxRef| #[trigger] em(g).count(r) > 0 implies h1.contains_key(r) && fr(h1[r], h[r]) by { lemma_hin_em(g, h, r); }
    lemma_ginv_frame(g, h, h1);
    lemma_em_split(g); lemma_em_split(g1);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|r: VxRef| #[trigger] em(g1).count(r) <= em(g).count(r) by { assert(g.act.remove(k).to_multiset().count(r) <= g.act.to_multiset().count(r)); }
    assert forall|t: TermV, r: VxRef| #[trigger] ixin(g1, t, r) <==> bm(g1).count(r) > 0 && h1[r].s.t == t by { assert(ixin(g1, t, r) == ixin(g, t, r)); assert(bm(g1) == bm(g)); }
    assert forall|i: int| 0 <= i < g1.bt.len() implies batok(g1, h1, #[trigger] g1.bt[i], i) by { assert(batok(g, h1, g.bt[i], i)); assert forall|j: int| 0 <= j < g1.bt[i].gs.len() implies grpok(g1, h1, #[trigger] g1.bt[i].gs[j], i) by { assert(grpok(g, h1, g.bt[i].gs[j], i)); } }
    assert forall|i: int| 0 <= i < ents(g1).len() implies h1.contains_key(#[trigger] ents(g1)[i]) by { lemma_ms_has(ents(g1), ents(g1)[i]); assert(ents(g1).contains(ents(g1)[i])); assert(em(g).count(ents(g1)[i]) > 0); }
    assert forall|i: int| 0 <= i < g1.act.len() implies h1.contains_key(#[trigger] g1.act[i]) && isop(h1[g1.act[i]].s.t) && h1[g1.act[i]].depth >= 0 by { let j = if i < k { i } else { i + 1 }; assert(g1.act[i] == g.act[j]); assert(h.contains_key(g.act[j]) && h[g.act[j]].depth >= 0); }
    assert(ginv(g1, h1));
    assert forall|r: VxRef| #[trigger] em(g1).count(r) > 0 implies okg(h1[r].s) && h1[r].depth >= 0 && h1[r].des >= 0real && 0 <= h1[r].create <= t && evxok(h1[r].evi, tab) by { assert(em(g).count(r) > 0); }
}
pub proof fn lemma_gall_ents(g: GsV, h: Map<VxRef, EntV>, t: int, tab: Seq<i64>) requires gall(g, h, t, tab), 0 <= t <= i64::MAX ensures entsok(h, ents(g), t), gok(g)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(gall); assert forall|i: int| 0 <= i < ents(g).len() implies h.contains_key(#[trigger] ents(g)[i]) && entok(h[ents(g)[i]], t) by { assert(ents(g).contains(ents(g)[i])); lemma_gall_rated(g, h, t, tab); lemma_in_em(g, ents(g)[i]); } }
// ---------------------------------------------------------------- a step
/// what a step is about: goals, queued answers, contingencies, anticipations, trace, time, ops, what was executed; and the configuration
pub struct DV { pub g: GsV, pub q: Seq<(VxRef, SenV)>, pub h: Map<VxRef, EntV>, pub m: Map<TermV, Arc<Concept>>, pub an: Seq<(Arc<Sentence>, int)>, pub tr: Seq<EvtV>, pub t: int, pub ops: Seq<Arc<VxOp>>, pub lg: Seq<(Seq<char>, Seq<TermV>)>, pub win: int, pub thr: real, pub bab: bool, pub ant: bool, pub nc: int, pub tab: Seq<i64>, pub rt: real }
pub open spec fn qav(q: Seq<QueuedProcQaBridgeAnswer>) -> Seq<(VxRef, SenV)> { q.map_values(|x: QueuedProcQaBridgeAnswer| (x.entry, sv(x.answer))) }
pub open spec fn anv(q: Seq<AnticipationEvent>) -> Seq<(Arc<Sentence>, int)> { q.map_values(|x: AnticipationEvent| (x.evi, x.deadline as int)) }
pub open spec fn dvw(n: ProcNar, h: VxHeap) -> DV { DV { g: gsv(n.goalSystem), q: qav(n.goalSystem.queuedProcQaBridgeAnswers@), h: hv(h), m: n.evidenceMem.concepts@, an: anv(n.anticipatedEvents@), tr: trv(n.trace.trace@), t: n.t as int, ops: n.ops@, lg: n.storeWorkersTx@, win: n.cfgPerceptWindow as int, thr: n.cfgDescnThreshold@, bab: n.cfgEnBabbling, ant: n.cfg__enAnticipation, nc: n.cfg__nConcepts as int, tab: n.expIntervalsTable@, rt: n.cfg__resourceExpectedTime@ } }
pub open spec fn qok(a: DV) -> bool { forall|i: int| 0 <= i < a.q.len() ==> rateds((#[trigger] a.q[i]).1) && evxok(a.h[a.q[i].0].evi, a.tab) && (isseq(a.h[a.q[i].0].s.t) ==> a.h[a.q[i].0].s.t.kids.len() >= 1) }
#[verifier::opaque]
pub open spec fn dok(a: DV) -> bool { gall(a.g, a.h, a.t, a.tab) && ents(a.g).len() < i64::MAX && mall(a.m, a.tab) && rok(a.m) && qok(a) && 0 <= a.t && a.tab.len() > 0 && (forall|i: int| 0 <= i < a.tab.len() ==> 0 <= a.t + #[trigger] a.tab[i] <= i64::MAX) && a.t < i64::MAX && 0 <= a.win && a.ops.len() <= usize::MAX / 9 && a.rt > 0real && a.nc >= 0 }
/// a candidate for a decision: what to do, how much is expected from it, why
pub struct CaV { pub u: TermV, pub e: real, pub y: Option<Arc<Sentence>> }
pub open spec fn ago(a: DV, i: int) -> TermV { a.tr[a.tr.len() - 1 - i].t }
/// a goal (.., ^op)! whose condition was just observed
pub open spec fn reacts(a: DV, i: int, r: VxRef, c: CaV) -> bool { 0 <= i < a.win && i < a.tr.len() && ents(a.g).contains(r) && applies(a.h[r], ago(a, i)) && c == (CaV { u: app(a.h[r].s.t, mgm(goal_pre(a.h[r]), ago(a, i))), e: x_exp(a.h[r]), y: a.h[r].evi }) }
/// a goal whose condition was answered
pub open spec fn answers(a: DV, j: int, c: CaV) -> bool { 0 <= j < a.q.len() && c == (CaV { u: a.h[a.q[j].0].s.t, e: s_exp(etv(a.q[j].1.e->0)), y: a.h[a.q[j].0].evi }) }
/// a chain of contingencies, each with the consequence of the one before as condition
#[verifier::opaque]
pub open spec fn chain(m: Map<TermV, Arc<Concept>>, x: TermV, c: Seq<BV>) -> bool { forall|i: int| 0 <= i < c.len() ==> ante(m, cend(x, c, i)).contains(#[trigger] c[i]) }
pub open spec fn cend(x: TermV, c: Seq<BV>, i: int) -> TermV { if i <= 0 { x } else { c[i - 1].s.t.kids[1] } }
pub open spec fn backtv(v: TvR, c: Seq<BV>, i: int) -> TvR decreases c.len() - i { if i >= c.len() || i < 0 { v } else { s_dedgoal(backtv(v, c, i + 1), etv(c[i].s.e->0)) } }
pub open spec fn plans(a: DV, c: Seq<BV>, r: VxRef, x: CaV) -> bool {
    &&& a.tr.len() > 0 && 1 <= c.len() <= 2 && chain(a.m, a.tr.last().t, c)
    &&& ents(a.g).contains(r) && a.h[r].s.t == cend(a.tr.last().t, c, c.len() as int)
    &&& x.u == c[0].s.t.kids[0] && x.e == s_exp(backtv(etv(a.h[r].s.e->0), c, 0)) && x.y is Some && bv(x.y->0) == c[0]
}
pub open spec fn cand(a: DV, x: CaV) -> bool { (exists|i: int, r: VxRef| #[trigger] reacts(a, i, r, x)) || (exists|j: int| #[trigger] answers(a, j, x)) || (exists|c: Seq<BV>, r: VxRef| #[trigger] plans(a, c, r, x)) }
pub open spec fn atleast(o: Option<CaV>, e: real) -> bool { o is Some && (o->0).e >= e }
/// no goal that the last n events call for, and none of the first q answers, promises more
#[verifier::opaque]
pub open spec fn beats(a: DV, o: Option<CaV>, n: int, q: int) -> bool {
    &&& forall|i: int, k: int| 0 <= i < n && i < a.tr.len() && 0 <= k < ents(a.g).len() && #[trigger] applies(a.h[ents(a.g)[k]], ago(a, i)) ==> x_exp(a.h[ents(a.g)[k]]) <= 0real || atleast(o, x_exp(a.h[ents(a.g)[k]]))
    &&& forall|j: int| 0 <= j < q ==> atleast(o, s_exp(etv((#[trigger] a.q[j]).1.e->0)))
}
pub open spec fn oksq(t: TermV) -> bool { isseq(t) ==> t.kids.len() >= 1 }
#[verifier::opaque]
pub open spec fn ocand(a: DV, o: Option<CaV>) -> bool { o is Some ==> cand(a, o->0) && oksq((o->0).u) && evxok((o->0).y, a.tab) }
/// the op of the best candidate becomes a goal
pub open spec fn opgoal(c: CaV) -> SenV { let s = sva(c.y->0); SenV { t: c.u.kids.last(), p: EnumPunctation::GOAL, ids: s.ids, occ: None, dt: None, e: Some(EvV::Tv(etv(s.e->0))) } }
#[verifier::opaque]
pub open spec fn planned(a: DV, b: DV, o: Option<CaV>) -> bool {
    &&& ocand(a, o) && beats(a, o, a.win, a.q.len() as int)
    &&& b == DV { g: b.g, h: b.h, q: b.q, ..a }
    &&& if o is Some && (o->0).e > a.thr && (o->0).y is Some && isseq((o->0).u) && isop((o->0).u.kids.last()) { added(a.g, a.h, b.g, b.h, opgoal(o->0), (o->0).y, a.t, 0) } else { b.g == a.g && b.h == a.h && b.q.len() == 0 }
}
pub open spec fn wanted(a: DV, k: int) -> bool { a.h[a.g.act[k]].des > 1real / 10000real && x_exp(a.h[a.g.act[k]]) > a.thr && x_exp(a.h[a.g.act[k]]) > 0real }
/// k is the first of the best among the first n active goals
#[verifier::opaque]
pub open spec fn bestact(a: DV, n: int, k: int) -> bool {
    &&& k < n && (k >= 0 ==> wanted(a, k))
    &&& forall|j: int| 0 <= j < n && #[trigger] wanted(a, j) ==> k >= 0 && x_exp(a.h[a.g.act[j]]) <= x_exp(a.h[a.g.act[k]]) && (j < k ==> x_exp(a.h[a.g.act[j]]) < x_exp(a.h[a.g.act[k]]))
}
pub open spec fn chosen(b: DV, k: int) -> (DV, Option<TermV>) {
    if k >= 0 && b.h[b.g.act[k]].evi is Some {
        let y = b.h[b.g.act[k]].evi->0;
        (DV { g: gdone(b.g, k), h: hdone(b.g, b.h, k), an: if b.ant { b.an.push((y, b.t + b.tab[dti(sva(y).dt)])) } else { b.an }, ..b }, Some(b.h[b.g.act[k]].s.t))
    } else { (b, None) }
}
#[verifier::opaque]
pub open spec fn chose(b: DV, c: DV, k: int, x: Option<TermV>) -> bool { bestact(b, b.g.act.len() as int, k) && (c, x) == chosen(b, k) }
pub open spec fn selfv() -> TermV { node(4, seq![leaf(1, "SELF"@)]) }
#[verifier::opaque]
pub open spec fn babbled(c: DV, x: Option<TermV>, y: Option<TermV>) -> bool { if x is Some { y == x } else { y is None || c.bab && exists|i: int| 0 <= i < c.ops.len() && (#[trigger] c.ops[i]).bab() && y == Some(opv(seq![selfv()], c.ops[i].nm())) } }
#[verifier::opaque]
pub open spec fn executed(c: DV, d: DV, y: Option<TermV>) -> bool { if y is Some && hasop(c.ops, opname(y->0)) { d == DV { tr: c.tr.push(EvtV { t: y->0, evi: c.t, occ: c.t }), lg: c.lg.push((opname(y->0), opargs(y->0))), ..c } } else { d == c } }
#[verifier::opaque]
pub open spec fn forgotten(d: DV, e: DV) -> bool {
    &&& e == DV { g: e.g, h: e.h, q: e.q, m: e.m, tr: s_last20(d.tr), ..d }
    &&& if d.t % 101 == 1 { limited(d.m, e.m, d.nc) } else { e.m == d.m }
    &&& if d.t % 13 == 1 { (e.g, e.h) == glim(d.g, d.h, d.t) } else { e.g == d.g && e.h == d.h }
}
/// one derivation of goals (C30, C31)
#[verifier::opaque]
pub open spec fn deriv1(a: DV, b: DV) -> bool { b == DV { g: b.g, h: b.h, q: b.q, ..a } && exists|x: real, i: int, y: real, o: Option<(SenV, int)>| #[trigger] depthsel(a.g.bt, x, i) && #[trigger] sampled(a.g, a.h, i, y, o) && spread(a.g, a.h, b.g, b.h, a.m, a.t, o) }
#[verifier::opaque]
pub open spec fn derivs(a: DV, b: DV, n: nat) -> bool decreases n { if n == 0 { a == b } else { exists|c: DV| #[trigger] deriv1(c, b) && derivs(a, c, (n - 1) as nat) } }
/// the whole step
pub struct WV { pub b: DV, pub c: DV, pub d: DV, pub e: DV, pub f: DV, pub o: Option<CaV>, pub k: int, pub x: Option<TermV>, pub y: Option<TermV>, pub n: nat }
#[verifier::opaque]
pub open spec fn stepped(a: DV, z: DV, w: WV) -> bool { planned(a, w.b, w.o) && chose(w.b, w.c, w.k, w.x) && babbled(w.c, w.x, w.y) && executed(w.c, w.d, w.y) && forgotten(w.d, w.e) && derivs(w.e, w.f, w.n) && z == DV { t: a.t + 1, ..w.f } }
pub proof fn lemma_app_seq(x: EntV, st: TermV) requires applies(x, st) ensures oksq(app(x.s.t, mgm(goal_pre(x), st))) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); }
pub proof fn lemma_chain_at(m: Map<TermV, Arc<Concept>>, x: TermV, c: Seq<BV>, i: int, tab: Seq<i64>) requires chain(m, x, c), mall(m, tab), 0 <= i < c.len() ensures bxok(c[i], tab), isimplseq(c[i].s.t), c[i].s.t.kids[0].kids[0] == cend(x, c, i), c[i].s.t.kids[0].kids.len() >= 1
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(chain); reveal(mall); let t = cend(x, c, i); lemma_ante(m, t, tab); assert(ante(m, t).contains(c[i])); let k = choose|k: int| 0 <= k < ante(m, t).len() && ante(m, t)[k] == c[i]; assert(bxok(ante(m, t)[k], tab)); }
pub proof fn lemma_chain_push(m: Map<TermV, Arc<Concept>>, x: TermV, c: Seq<BV>, b: BV) requires chain(m, x, c), ante(m, cend(x, c, c.len() as int)).contains(b) ensures chain(m, x, c.push(b)), cend(x, c.push(b), (c.len() + 1) as int) == b.s.t.kids[1]
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(chain); let d = c.push(b); assert forall|i: int| 0 <= i < d.len() implies ante(m, cend(x, d, i)).contains(#[trigger] d[i]) by { if i < c.len() { assert(d[i] == c[i]); assert(cend(x, d, i) == cend(x, c, i)); } else { assert(cend(x, d, i) == cend(x, c, i)); } } }
pub proof fn lemma_beats_up(a: DV, o: Option<CaV>, p: CaV, n: int, q: int) requires beats(a, o, n, q), o is Some ==> p.e >= (o->0).e ensures beats(a, Some(p), n, q)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(beats); assert forall|i: int, k: int| 0 <= i < n && i < a.tr.len() && 0 <= k < ents(a.g).len() && #[trigger] applies(a.h[ents(a.g)[k]], ago(a, i)) implies x_exp(a.h[ents(a.g)[k]]) <= 0real || atleast(Some(p), x_exp(a.h[ents(a.g)[k]])) by { assert(x_exp(a.h[ents(a.g)[k]]) <= 0real || atleast(o, x_exp(a.h[ents(a.g)[k]]))); } assert forall|j: int| 0 <= j < q implies atleast(Some(p), s_exp(etv((#[trigger] a.q[j]).1.e->0))) by { assert(atleast(o, s_exp(etv(a.q[j].1.e->0)))); } }
pub proof fn lemma_beats_win(a: DV, o: Option<CaV>, n: int, e: real, r: Option<(VxRef, TermV)>) requires beats(a, o, n, 0), 0 <= n < a.tr.len(), beste(a.h, ents(a.g), ago(a, n), e, r), r is Some ==> atleast(o, e) ensures beats(a, o, n + 1, 0)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(beats); assert forall|i: int, k: int| 0 <= i < n + 1 && i < a.tr.len() && 0 <= k < ents(a.g).len() && #[trigger] applies(a.h[ents(a.g)[k]], ago(a, i)) implies x_exp(a.h[ents(a.g)[k]]) <= 0real || atleast(o, x_exp(a.h[ents(a.g)[k]])) by { if i == n { assert(x_exp(a.h[ents(a.g)[k]]) <= e); } } }
pub proof fn lemma_reacts(a: DV, i: int, e: real, r: Option<(VxRef, TermV)>, c: CaV) requires dok(a), 0 <= i < a.win, i < a.tr.len(), beste(a.h, ents(a.g), ago(a, i), e, r), r is Some, c.u == (r->0).1, c.e == e, c.y == a.h[(r->0).0].evi ensures ocand(a, Some(c))
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(ocand); reveal(dok); let x = (r->0).0; lemma_gall_rated(a.g, a.h, a.t, a.tab); assert(ents(a.g).contains(x)); assert(reacts(a, i, x, c)); lemma_app_seq(a.h[x], ago(a, i)); }
pub proof fn lemma_answers(a: DV, j: int, c: CaV) requires dok(a), 0 <= j < a.q.len(), answers(a, j, c) ensures ocand(a, Some(c)) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(ocand); reveal(dok); assert(rateds(a.q[j].1)); }
pub proof fn lemma_plans(a: DV, c: Seq<BV>, r: VxRef, x: CaV) requires dok(a), plans(a, c, r, x) ensures ocand(a, Some(x)) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(ocand); reveal(dok); lemma_chain_at(a.m, a.tr.last().t, c, 0, a.tab); }
pub proof fn lemma_noown(ids: Seq<i64>) requires !ids.contains(-1i64) ensures !overlap(seq![-1i64], ids) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); }
pub broadcast proof fn lemma_trv_push(s: Seq<Arc<SimpleSentence>>, x: Arc<SimpleSentence>) ensures #[trigger] trv(s.push(x)) == trv(s).push(evtv(x)) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); assert(trv(s.push(x)) =~= trv(s).push(evtv(x))); }
pub broadcast proof fn lemma_trv_last(s: Seq<Arc<SimpleSentence>>) ensures #[trigger] trv(s_last20(s)) == s_last20(trv(s)) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); assert(trv(s_last20(s)) =~= s_last20(trv(s))); }
pub broadcast proof fn lemma_anv_push(s: Seq<AnticipationEvent>, x: AnticipationEvent) ensures #[trigger] anv(s.push(x)) == anv(s).push((x.evi, x.deadline as int)) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); assert(anv(s.push(x)) =~= anv(s).push((x.evi, x.deadline as int))); }
pub proof fn lemma_beats_q(a: DV, o: Option<CaV>, n: int, q: int) requires beats(a, o, n, q), 0 <= q < a.q.len(), atleast(o, s_exp(etv(a.q[q].1.e->0))) ensures beats(a, o, n, q + 1) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(beats); }
pub proof fn lemma_beats_old(a: DV, o: Option<CaV>, n: int) requires beats(a, o, n, 0), n >= a.tr.len() ensures beats(a, o, n + 1, 0) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(beats); }
pub open spec fn better(o: Option<CaV>, p: CaV) -> bool { o is Some ==> p.e >= (o->0).e }
pub proof fn lemma_beats_ups(a: DV, o: Option<CaV>, n: int, q: int) requires beats(a, o, n, q) ensures forall|p: CaV| better(o, p) ==> #[trigger] beats(a, Some(p), n, q)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(beats); assert forall|p: CaV| better(o, p) implies #[trigger] beats(a, Some(p), n, q) by { lemma_beats_up(a, o, p, n, q); } }
pub proof fn lemma_reacts_all(a: DV, i: int, e: real, r: Option<(VxRef, TermV)>) requires dok(a), 0 <= i < a.win, i < a.tr.len(), beste(a.h, ents(a.g), ago(a, i), e, r), r is Some ensures forall|c: CaV| c.u == (r->0).1 && c.e == e && c.y == a.h[(r->0).0].evi ==> #[trigger] ocand(a, Some(c))
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(ocand); reveal(dok); assert forall|c: CaV| c.u == (r->0).1 && c.e == e && c.y == a.h[(r->0).0].evi implies #[trigger] ocand(a, Some(c)) by { lemma_reacts(a, i, e, r, c); } }
pub proof fn lemma_answers_all(a: DV, j: int) requires dok(a), 0 <= j < a.q.len() ensures rateds(a.q[j].1), forall|c: CaV| c.u == a.h[a.q[j].0].s.t && c.e == s_exp(etv(a.q[j].1.e->0)) && c.y == a.h[a.q[j].0].evi ==> #[trigger] ocand(a, Some(c))
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(ocand); reveal(dok); assert(rateds(a.q[j].1)); assert forall|c: CaV| c.u == a.h[a.q[j].0].s.t && c.e == s_exp(etv(a.q[j].1.e->0)) && c.y == a.h[a.q[j].0].evi implies #[trigger] ocand(a, Some(c)) by { assert(answers(a, j, c)); } }
pub proof fn lemma_plans_all(a: DV, c: Seq<BV>, r: VxRef) requires dok(a), a.tr.len() > 0, 1 <= c.len() <= 2, chain(a.m, a.tr.last().t, c), ents(a.g).contains(r), a.h[r].s.t == cend(a.tr.last().t, c, c.len() as int) ensures forall|x: CaV| x.u == c[0].s.t.kids[0] && x.e == s_exp(backtv(etv(a.h[r].s.e->0), c, 0)) && x.y is Some && bv(x.y->0) == c[0] ==> #[trigger] ocand(a, Some(x))
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(ocand); reveal(chain); reveal(dok); assert forall|x: CaV| x.u == c[0].s.t.kids[0] && x.e == s_exp(backtv(etv(a.h[r].s.e->0), c, 0)) && x.y is Some && bv(x.y->0) == c[0] implies #[trigger] ocand(a, Some(x)) by { lemma_plans(a, c, r, x); } }
pub proof fn lemma_dok(a: DV) requires dok(a) ensures rated(a.h, ents(a.g)), forall|r: VxRef| #[trigger] ents(a.g).contains(r) ==> a.h.contains_key(r) && okg(a.h[r].s) && evxok(a.h[r].evi, a.tab), memok(a.m), mall(a.m, a.tab), gall(a.g, a.h, a.t, a.tab), a.win >= 0, 0 <= a.t < i64::MAX, a.ops.len() <= usize::MAX / 9, a.rt > 0real, a.nc >= 0, rok(a.m), ents(a.g).len() < i64::MAX, (forall|i: int| 0 <= i < a.tab.len() ==> 0 <= a.t + #[trigger] a.tab[i] <= i64::MAX)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(gall); reveal(dok); reveal(mall); lemma_gall_rated(a.g, a.h, a.t, a.tab); lemma_mall_memok(a.m, a.tab); }
pub proof fn lemma_ocand(a: DV, x: CaV) requires ocand(a, Some(x)) ensures oksq(x.u), evxok(x.y, a.tab) { reveal(ocand); }
pub proof fn lemma_ginv(a: DV) requires dok(a) ensures ginv(a.g, a.h) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(dok); reveal(gall); }
pub proof fn lemma_planned(a: DV, b: DV, o: Option<CaV>) requires dok(a), planned(a, b, o) ensures gall(b.g, b.h, b.t, b.tab), ents(b.g).len() <= i64::MAX
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(ocand); reveal(planned); reveal(gall); reveal(dok);
    if o is Some && (o->0).e > a.thr && (o->0).y is Some && isseq((o->0).u) && isop((o->0).u.kids.last()) { broadcast use {lemma_etv}; let s = opgoal(o->0); assert(evxok((o->0).y, a.tab)); lemma_gall_added(a.g, a.h, b.g, b.h, s, (o->0).y, a.t, a.tab); }
}
pub proof fn lemma_chose(b: DV, k: int) requires gall(b.g, b.h, b.t, b.tab), bestact(b, b.g.act.len() as int, k), ents(b.g).len() <= i64::MAX, 0 <= b.t <= i64::MAX
    ensures gall(chosen(b, k).0.g, chosen(b, k).0.h, b.t, b.tab), ents(chosen(b, k).0.g).len() <= i64::MAX, entsok(chosen(b, k).0.h, ents(chosen(b, k).0.g), b.t), gok(chosen(b, k).0.g)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(gall); reveal(bestact); if chosen(b, k).1 is Some { lemma_gall_done(b.g, b.h, k, b.t, b.tab); } lemma_gall_ents(chosen(b, k).0.g, chosen(b, k).0.h, b.t, b.tab); }
pub proof fn lemma_forgotten(d: DV, e: DV) requires forgotten(d, e), gall(d.g, d.h, d.t, d.tab), mall(d.m, d.tab), 0 <= d.t <= i64::MAX ensures always(e.g, e.h), memok(e.m)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(forgotten); reveal(gall); reveal(mall); if d.t % 101 == 1 { lemma_mall_limited(d.m, e.m, d.nc, d.tab); } lemma_mall_memok(e.m, d.tab); if d.t % 13 == 1 { lemma_gall_ents(d.g, d.h, d.t, d.tab); lemma_always_limit(d.g, d.h, d.t); } }
pub proof fn lemma_derivs_step(e: DV, f: DV, z: DV, n: nat) requires derivs(e, f, n), deriv1(f, z) ensures derivs(e, z, n + 1) { reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(derivs); reveal(deriv1); }
pub proof fn lemma_deriv1(f: DV, z: DV) requires always(f.g, f.h), memok(f.m), z == (DV { g: z.g, h: z.h, q: z.q, ..f }), exists|x: real, i: int, y: real, o: Option<(SenV, int)>| #[trigger] depthsel(f.g.bt, x, i) && #[trigger] sampled(f.g, f.h, i, y, o) && spread(f.g, f.h, z.g, z.h, f.m, f.t, o) ensures deriv1(f, z), always(z.g, z.h)
{ reveal(ginv); reveal(always); reveal(added); reveal(glim); reveal(limited); reveal(rok); reveal(memok); reveal(entsok); reveal(gok); reveal(spread); reveal(sampled); reveal(depthsel); reveal(beste); reveal(gsok); reveal(rated); reveal(ents); reveal(em); reveal(deriv1); let (x, i, y, o) = choose|x: real, i: int, y: real, o: Option<(SenV, int)>| #[trigger] depthsel(f.g.bt, x, i) && #[trigger] sampled(f.g, f.h, i, y, o) && spread(f.g, f.h, z.g, z.h, f.m, f.t, o); lemma_always_spread(f.g, f.h, z.g, z.h, f.m, f.t, x, i, y, o); }
@@fn src/NarProc.rs narStep1 heap deeplock erase deep=nar isolate
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::spinoff_prover]
@contract
    requires dok(dvw(*old($p1), *old(vx_h))), $p2 is Some
    ensures exists|w: WV| #[trigger] stepped(dvw(*old($p1), *old(vx_h)), dvw(*final($p1), *final(vx_h)), w)
@entry
    broadcast use {lemma_hv, lemma_hv_ins, lemma_tbv_at, lemma_etv, lemma_ok_dedgoal, lemma_trv_push, lemma_trv_last, lemma_anv_push};
    let ghost vx_a = dvw(*$p1, *vx_h);
    let ghost mut vx_b = vx_a; let ghost mut vx_c = vx_a; let ghost mut vx_d = vx_a; let ghost mut vx_e = vx_a;
    let ghost mut vx_o: Option<CaV> = None; let ghost mut vx_k = -1int; let ghost mut vx_x: Option<TermV> = None; let ghost mut vx_y: Option<TermV> = None; let ghost mut vx_n: nat = 0; let ghost mut vx_f = vx_a;
    proof { reveal(beats); reveal(ocand); assert(beats(vx_a, None, 0, 0)); assert(ocand(vx_a, None)); lemma_dok(vx_a); }
@cut selHighestExpGoalByState(___)
      $p2 is Some, dok(vx_a), ($once ==> dvw(*$p1, *vx_h) == vx_a && vx_o is None && beats(vx_a, None, 0, 0) && ocand(vx_a, None)), (!$once ==> dvw(*$p1, *vx_h) == vx_b && planned(vx_a, vx_b, vx_o) && gall(vx_b.g, vx_b.h, vx_b.t, vx_b.tab) && ents(vx_b.g).len() <= i64::MAX && vx_b == (DV { g: vx_b.g, h: vx_b.h, q: vx_b.q, ..vx_a })),
---
    proof { lemma_dok(vx_a); }
---
    proof { vx_b = dvw(*$p1, *vx_h); assert(planned(vx_a, vx_b, vx_o)) by { reveal(planned); } lemma_planned(vx_a, vx_b, vx_o); }
@cut is_desired(___) ;; $A = Some($O.clone())
      gall(vx_b.g, vx_b.h, vx_b.t, vx_b.tab), dok(vx_a), vx_b.t == vx_a.t, vx_b.tab == vx_a.tab, ($once ==> dvw(*$p1, *vx_h) == vx_b && $A is None), (!$once ==> bestact(vx_b, vx_b.g.act.len() as int, vx_k) && dvw(*$p1, *vx_h) == chosen(vx_b, vx_k).0 && (match &$A { Some(vx_z) => Some(tmv(*vx_z)), None => None::<TermV> }) == chosen(vx_b, vx_k).1 && (chosen(vx_b, vx_k).1 is Some ==> isop(chosen(vx_b, vx_k).1->0))),
---
    proof { lemma_dok(vx_a); }
---
    proof { broadcast use lemma_anv_push; let vx_z = dvw(*$p1, *vx_h); let vx_w = chosen(vx_b, vx_k).0; assert(vx_z.h =~= vx_w.h); assert(vx_z.g.act =~= vx_w.g.act); assert(vx_z.g =~= vx_w.g); assert(vx_z.an =~= vx_w.an); lemma_gall_act(vx_b.g, vx_b.h, vx_b.t, vx_b.tab); assert(bestact(vx_b, vx_b.g.act.len() as int, vx_k)); assert(vx_k < vx_b.g.act.len()) by { reveal(bestact); } if vx_k >= 0 { assert(isop(vx_b.h[vx_b.g.act[vx_k]].s.t)); } }
@loop percept
@when selHighestExpGoalByState(___)
@when $T[$T.len() - 1 - $W].name.clone()
@when $B = Some($Y { ___ })
@inv
      dok(vx_a), rated(vx_a.h, ents(vx_a.g)), $n as int == vx_a.win, dvw(*$p1, *vx_h) == vx_a, trv($T@) == vx_a.tr, ocand(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> })), beats(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> }), $i as int, 0),
@top
    let ghost vx_o1 = (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> }); let ghost mut vx_te = (0real, None::<(VxRef, TermV)>);
    proof { if $i - 1 < $T@.len() { assert(vx_a.tr[vx_a.tr.len() - $i] == evtv($T@[$T@.len() - $i])); assert(ago(vx_a, $i - 1) == tmv($T@[$T@.len() - $i].name)); lemma_beats_ups(vx_a, vx_o1, $i - 1, 0); } else { lemma_beats_old(vx_a, vx_o1, $i - 1); } }
@bot
    proof { if $i - 1 < $T@.len() { lemma_beats_win(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> }), $i - 1, vx_te.0, vx_te.1); } }
@after $S : (F, ___) = selHighestExpGoalByState(___)
    proof { vx_te = ($S.0@, optv($S.1)); if vx_te.1 is Some { lemma_reacts_all(vx_a, vx_i0 - 1, vx_te.0, vx_te.1); } }
@loop queue
@when retTv(&$Q.answer)
@when $B = Some($Y { ___ })
@inv
      dok(vx_a), qav($e@) == vx_a.q, hv(*vx_h) == vx_a.h, ocand(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> })), beats(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> }), vx_a.win, $i as int),
@top
    let ghost vx_o1 = (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> });
    proof { assert(vx_a.q[$i - 1] == ($e@[$i - 1].entry, sv($e@[$i - 1].answer))); lemma_answers_all(vx_a, $i - 1); lemma_beats_ups(vx_a, vx_o1, vx_a.win, $i - 1); }
@bot
    proof { lemma_beats_q(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> }), vx_a.win, $i - 1); }
@loop events
@when query_by_antecedent
@when $E.name.clone()
@when $B = Some($Y { ___ })
@pre
    proof { assert(dvw(*$p1, *vx_h).q =~= Seq::empty()); }
@inv
      dok(vx_a), $e@ == seq![$p1.trace.trace@.last()], $p1.trace.trace@.len() > 0, dvw(*$p1, *vx_h) == (DV { q: Seq::empty(), ..vx_a }), ocand(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> })), beats(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> }), vx_a.win, vx_a.q.len() as int),
@top
    let ghost vx_l = evtv($e@[$i - 1]).t;
    proof { assert(vx_a.tr == trv($p1.trace.trace@)); assert(vx_a.tr.last() == evtv($p1.trace.trace@.last())); assert(vx_l == vx_a.tr.last().t); reveal(chain); }
@loop steps
@when query_by_antecedent(&$P, ___)
@when $H : Option < VxRef > = query
@when $V.push($W.vx_ac())
@when $B = Some($Y { ___ })
@invx
      chain(vx_a.m, vx_l, tbv($V@)), tmv($P) == cend(vx_l, tbv($V@), $V@.len() as int), $V@.len() == $i,
@inv
      dok(vx_a), vx_a.tr.len() > 0, vx_l == vx_a.tr.last().t, $n == 3, dvw(*$p1, *vx_h) == (DV { q: Seq::empty(), ..vx_a }), ocand(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> })), beats(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> }), vx_a.win, vx_a.q.len() as int),
@top
    let ghost vx_cc = tbv($V@); let ghost mut vx_r = None::<VxRef>;
    proof { assert(vx_cc.len() == $V@.len()); lemma_dok(vx_a); lemma_ante(vx_a.m, tmv($P), vx_a.tab); lemma_beats_ups(vx_a, (match &$B { Some(vx_z) => Some(CaV { u: tmv(vx_z.unifiedSeq), e: vx_z.exp@, y: vx_z.evidence }), None => None::<CaV> }), vx_a.win, vx_a.q.len() as int); }
@bot
    proof { assert(tbv($V@) =~= vx_cc.push(bv($V@.last()))); lemma_chain_push(vx_a.m, vx_l, vx_cc, bv($V@.last())); }
@after $H : Option < VxRef > = query(___)
    proof { vx_r = $H; if vx_r is Some && vx_cc.len() > 0 { lemma_plans_all(vx_a, vx_cc, vx_r->0); assert(ents(vx_a.g).contains(vx_r->0)); assert(okg(vx_a.h[vx_r->0].s)); } }
@after $R : Vec < Arc < Sentence > > = query_by_antecedent(___)
    proof { assert(tbv($R@) == ante(vx_a.m, cend(vx_l, vx_cc, vx_cc.len() as int))); assert forall|vx_j: int| 0 <= vx_j < $R@.len() implies isimplseq(bv(#[trigger] $R@[vx_j]).s.t) && ante(vx_a.m, cend(vx_l, vx_cc, vx_cc.len() as int)).contains(bv($R@[vx_j])) by { assert(tbv($R@)[vx_j] == bv($R@[vx_j])); } }
@loop back
@when infGoalBelief(&$G, ___)
@when $C = retTv(&$K).unwrap()
@when $D = retSeqCond2(___)
@when $U = Some($Z.clone())
@pre
    let ghost vx_v = tr($C); let ghost vx_q = vx_cc.len() as int;
@inv
      dok(vx_a), chain(vx_a.m, vx_l, vx_cc), vx_q == vx_cc.len(), $e@.len() == vx_q, (forall|vx_j: int| 0 <= vx_j < vx_q ==> bv(#[trigger] $e@[vx_j]) == vx_cc[vx_q - 1 - vx_j]), tr($C) == backtv(vx_v, vx_cc, vx_q - $i), okc(tr($C)), tmv($D) == cend(vx_l, vx_cc, vx_q - $i), ($i > 0 ==> $U is Some && tmv($U->0) == vx_cc[vx_q - $i].s.t.kids[0]),
@top
    proof { let vx_j = vx_q - $i; assert(bv($e@[$i - 1]) == vx_cc[vx_j]); lemma_dok(vx_a); lemma_chain_at(vx_a.m, vx_l, vx_cc, vx_j, vx_a.tab); lemma_noown(vx_cc[vx_j].s.ids); assert(okg(vx_cc[vx_j].s)); lemma_etv(vx_cc[vx_j].s.e->0); assert(okc(etv(vx_cc[vx_j].s.e->0))); lemma_ok_dedgoal(tr($C), etv(vx_cc[vx_j].s.e->0)); }
@before $C.exp > $p1.cfgDescnThreshold
    proof { vx_o = Some(CaV { u: tmv($C.unifiedSeq), e: $C.exp@, y: $C.evidence }); lemma_ocand(vx_a, vx_o->0); }
@before addEntry(___)
    proof { lemma_ginv(vx_a); }
@loop active
@when is_desired(___)
@when $X > $M && ___ { $M = $X ; $F = Some($N.vx_ac()) ; $G = Some($I) ; }
@pre
    proof { assert(bestact(vx_b, 0, -1)) by { reveal(bestact); } }
@inv
      gall(vx_b.g, vx_b.h, vx_b.t, vx_b.tab), dvw(*$p1, *vx_h) == vx_b, $I == $i, bestact(vx_b, $i as int, (match $G { Some(vx_z) => vx_z as int, None => -1 })), ($G is Some <==> $F is Some), ($G is Some ==> $G->0 < $i && $F->0 == vx_b.g.act[$G->0 as int] && $M@ == x_exp(vx_b.h[$F->0])), ($G is None ==> $M@ == 0real),
@top
    proof { lemma_gall_act(vx_b.g, vx_b.h, vx_b.t, vx_b.tab); assert(vx_b.g.act[$i - 1] == $e@[$i - 1]); }
@bot
    proof { reveal(bestact); }
@post
    proof { vx_k = (match $G { Some(vx_z) => vx_z as int, None => -1 }); if vx_k >= 0 { lemma_gall_act(vx_b.g, vx_b.h, vx_b.t, vx_b.tab); assert(evxok(vx_b.h[vx_b.g.act[vx_k]].evi, vx_b.tab)); assert(vx_b.h.contains_key(vx_b.g.act[vx_k])); assert(wanted(vx_b, vx_k)) by { reveal(bestact); } } }
@after $T : Term = encodeOp(___)
    proof { assert(opargs(tmv($T))[0].kids =~= seq![leaf(1, "SELF"@)]); assert(opargs(tmv($T))[0] == selfv()); assert(opargs(tmv($T)) =~= seq![selfv()]); assert(tmv($T) == opv(seq![selfv()], opname(tmv($T)))); }
@before $p1.trace.limit()
    proof {
        vx_d = dvw(*$p1, *vx_h); vx_c = chosen(vx_b, vx_k).0; vx_x = chosen(vx_b, vx_k).1; vx_y = if vx_x is Some { vx_x } else if vx_d.tr.len() > vx_c.tr.len() { Some(vx_d.tr.last().t) } else { None };
        assert(chose(vx_b, vx_c, vx_k, vx_x)) by { reveal(chose); }
        assert(vx_d.h =~= vx_c.h);
        assert(babbled(vx_c, vx_x, vx_y)) by { reveal(babbled); }
        assert(executed(vx_c, vx_d, vx_y)) by { reveal(executed); }
        lemma_chose(vx_b, vx_k);
    }
@loop derive
@when sampleAndInference(___)
@pre
    proof { vx_e = dvw(*$p1, *vx_h); assert(forgotten(vx_d, vx_e)) by { reveal(forgotten); } lemma_forgotten(vx_d, vx_e); assert(derivs(vx_e, vx_e, 0)) by { reveal(derivs); } }
@inv
      $p2 is Some, vx_e.rt > 0real, memok(vx_e.m), always(dvw(*$p1, *vx_h).g, dvw(*$p1, *vx_h).h), dvw(*$p1, *vx_h) == (DV { g: dvw(*$p1, *vx_h).g, h: dvw(*$p1, *vx_h).h, q: dvw(*$p1, *vx_h).q, ..vx_e }), derivs(vx_e, dvw(*$p1, *vx_h), vx_n),
@top
    let ghost vx_g = dvw(*$p1, *vx_h);
    assume(gsok(vx_g.g, vx_g.h, $p1.goalSystem.cfg__subworkingCycle_rounds as int));
    proof { assert(ginv(vx_g.g, vx_g.h)) by { reveal(always); } }
@post
    proof { vx_f = dvw(*$p1, *vx_h); }
@after sampleAndInference(___)
    proof { let vx_z = dvw(*$p1, *vx_h); lemma_deriv1(vx_g, vx_z); lemma_derivs_step(vx_e, vx_g, vx_z, vx_n); vx_n = vx_n + 1; }
@exit
    proof { assert(stepped(vx_a, dvw(*$p1, *vx_h), WV { b: vx_b, c: vx_c, d: vx_d, e: vx_e, f: vx_f, o: vx_o, k: vx_k, x: vx_x, y: vx_y, n: vx_n })) by { reveal(stepped); reveal(planned); reveal(chose); reveal(executed); reveal(forgotten); } }
@@end
}
@@main
