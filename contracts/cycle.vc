// src/NarWorkingCycle.rs: revision of stored beliefs, tasks, questions (A-LOCK: locks reached from a parameter are exclusive references)
@@use mem.vc
@@use unify.vc
verus! {
// ---------------------------------------------------------------- revision in memory
pub open spec fn rvok(b: SenV) -> bool { b.p == EnumPunctation::JUGEMENT && b.e is Some && evok(b.e->0) && ok(etv(b.e->0)) && b.ids.len() < 0x4000_0000 }
pub open spec fn trvok(t: Seq<BV>) -> bool { forall|i: int| 0 <= i < t.len() ==> rvok((#[trigger] t[i]).s) }
pub open spec fn mrvok(m: Map<TermV, CoV>) -> bool { forall|k: TermV| m.contains_key(k) ==> trvok((#[trigger] m[k]).ex) && trvok(m[k].us) }
/// the belief states the same from disjoint evidence
pub open spec fn rmatch(b: BV, s: SenV) -> bool { b.s.t == s.t && !overlap(b.s.ids, s.ids) }
pub open spec fn rfirst(t: Seq<BV>, s: SenV, i: int) -> int decreases t.len() - i { if i >= t.len() { t.len() as int } else if rmatch(t[i], s) { i } else { rfirst(t, s, i + 1) } }
/// the belief after taking in the evidence of s
pub open spec fn revd(b: BV, s: SenV) -> BV { BV { s: SenV { t: b.s.t, p: b.s.p, ids: s_merge(b.s.ids, s.ids), occ: b.s.occ, dt: b.s.dt, e: Some(EvV::Tv(s_rev(etv(b.s.e->0), etv(s.e->0)))) }, last: 0, cnt: 0 } }
#[verifier::opaque]
pub open spec fn trev(t: Seq<BV>, s: SenV) -> Seq<BV> { let i = rfirst(t, s, 0); if i < t.len() { t.remove(i).push(revd(t[i], s)) } else { t } }
/// the revision conclusion from table t, or what was concluded before
#[verifier::opaque]
pub open spec fn trevr(t: Seq<BV>, s: SenV, r: Option<BV>) -> Option<BV> { let i = rfirst(t, s, 0); if i < t.len() { Some(revd(t[i], s)) } else { r } }
pub open spec fn mrev1(m: Map<TermV, CoV>, s: SenV, t: TermV) -> Map<TermV, CoV> { if m.contains_key(t) { m.insert(t, CoV { name: m[t].name, ex: trev(m[t].ex, s), us: trev(m[t].us, s) }) } else { m } }
pub open spec fn mrevr1(m: Map<TermV, CoV>, s: SenV, t: TermV, r: Option<BV>) -> Option<BV> { if m.contains_key(t) { trevr(m[t].us, s, trevr(m[t].ex, s, r)) } else { r } }
pub open spec fn mrev(m: Map<TermV, CoV>, s: SenV, ts: Seq<TermV>) -> Map<TermV, CoV> decreases ts.len() { if ts.len() == 0 { m } else { mrev1(mrev(m, s, ts.drop_last()), s, ts.last()) } }
pub open spec fn mrevr(m: Map<TermV, CoV>, s: SenV, ts: Seq<TermV>) -> Option<BV> decreases ts.len() { if ts.len() == 0 { None } else { mrevr1(mrev(m, s, ts.drop_last()), s, ts.last(), mrevr(m, s, ts.drop_last())) } }
pub open spec fn bvo(o: Option<Sentence>) -> Option<BV> { match o { Some(x) => Some(bvs(x)), None => None } }

pub proof fn lemma_rfirst(t: Seq<BV>, s: SenV, i: int) requires 0 <= i <= t.len()
    ensures i <= rfirst(t, s, i) <= t.len(), forall|q: int| i <= q < rfirst(t, s, i) ==> !rmatch(#[trigger] t[q], s), rfirst(t, s, i) < t.len() ==> rmatch(t[rfirst(t, s, i)], s)
    decreases t.len() - i
{ if i < t.len() && !rmatch(t[i], s) { lemma_rfirst(t, s, i + 1); } }
pub proof fn lemma_rfirst_is(t: Seq<BV>, s: SenV, k: int) requires 0 <= k <= t.len(), forall|q: int| 0 <= q < k ==> !rmatch(#[trigger] t[q], s), k < t.len() ==> rmatch(t[k], s)
    ensures rfirst(t, s, 0) == k
{ lemma_rfirst(t, s, 0); let r = rfirst(t, s, 0); if r < k { assert(!rmatch(t[r], s)); } if k < r { assert(!rmatch(t[k], s)); } }
/// revision never invents evidence, never loses confidence, keeps the table length and every other belief
pub proof fn lemma_trev(t: Seq<BV>, s: SenV)
    requires trvok(t), rvok(s)
    ensures trvok(trev(t, s)), trev(t, s).len() == t.len(),
        trev(t, s) == t <==> rfirst(t, s, 0) == t.len() || trev(t, s) == t,
        forall|q: int| 0 <= q < t.len() && q != rfirst(t, s, 0) ==> trev(t, s).contains(#[trigger] t[q]),
        rfirst(t, s, 0) < t.len() ==> { let b = t[rfirst(t, s, 0)]; let r = trev(t, s).last(); r.s.t == s.t && ok(etv(r.s.e->0)) && etv(r.s.e->0).c >= etv(b.s.e->0).c && etv(r.s.e->0).c >= etv(s.e->0).c && r.s.ids.len() <= 120 },
{
    reveal(trev);
    let i = rfirst(t, s, 0); lemma_rfirst(t, s, 0);
    if i < t.len() {
        let r = trev(t, s);
        lemma_ok_rev(etv(t[i].s.e->0), etv(s.e->0)); lemma_merge(t[i].s.ids, s.ids);
        assert forall|q: int| 0 <= q < t.len() && q != i implies r.contains(#[trigger] t[q]) by { if q < i { assert(r[q] == t[q]); } else { assert(r[q - 1] == t[q]); } }
        assert forall|q: int| 0 <= q < r.len() implies rvok((#[trigger] r[q]).s) by { if q < i { assert(r[q] == t[q]); } else if q < r.len() - 1 { assert(r[q] == t[q + 1]); } else { assert(rvok(t[i].s)); } }
    } else { assert forall|q: int| 0 <= q < t.len() && q != i implies trev(t, s).contains(#[trigger] t[q]) by { assert(trev(t, s)[q] == t[q]); } }
}
pub proof fn lemma_mrev1(m: Map<TermV, CoV>, s: SenV, t: TermV) requires mrvok(m), rvok(s) ensures mrvok(mrev1(m, s, t))
{ let r = mrev1(m, s, t); if m.contains_key(t) { lemma_trev(m[t].ex, s); lemma_trev(m[t].us, s); } assert forall|k: TermV| r.contains_key(k) implies trvok((#[trigger] r[k]).ex) && trvok(r[k].us) by { if k != t { assert(m.contains_key(k)); } } }
pub proof fn lemma_mrev_take(m: Map<TermV, CoV>, s: SenV, ts: Seq<TermV>, i: int) requires 0 <= i < ts.len()
    ensures mrev(m, s, ts.take(i + 1)) == mrev1(mrev(m, s, ts.take(i)), s, ts[i]), mrevr(m, s, ts.take(i + 1)) == mrevr1(mrev(m, s, ts.take(i)), s, ts[i], mrevr(m, s, ts.take(i)))
{ assert(ts.take(i + 1).drop_last() =~= ts.take(i)); }
/// revision touches only concepts of the sentence's own subterms and never adds or removes a concept
pub proof fn lemma_mrev(m: Map<TermV, CoV>, s: SenV, ts: Seq<TermV>)
    requires mrvok(m), rvok(s)
    ensures mrvok(mrev(m, s, ts)), mrev(m, s, ts).dom() == m.dom(),
        forall|k: TermV| m.contains_key(k) && !ts.contains(k) ==> mrev(m, s, ts)[k] == #[trigger] m[k],
        forall|k: TermV| m.contains_key(k) ==> mrev(m, s, ts)[k].ex.len() == (#[trigger] m[k]).ex.len() && mrev(m, s, ts)[k].us.len() == m[k].us.len(),
    decreases ts.len()
{
    if ts.len() > 0 {
        let d = ts.drop_last(); let p = mrev(m, s, d); let t = ts.last(); let r = mrev(m, s, ts);
        lemma_mrev(m, s, d); lemma_mrev1(p, s, t);
        if p.contains_key(t) { lemma_trev(p[t].ex, s); lemma_trev(p[t].us, s); }
        assert(r.dom() =~= m.dom());
        assert forall|k: TermV| m.contains_key(k) && !ts.contains(k) implies r[k] == #[trigger] m[k] by { assert(ts[ts.len() - 1] == t); if d.contains(k) { let j = choose|j: int| 0 <= j < d.len() && d[j] == k; assert(ts[j] == k); } assert(p.contains_key(k)); }
        assert forall|k: TermV| m.contains_key(k) implies r[k].ex.len() == (#[trigger] m[k]).ex.len() && r[k].us.len() == m[k].us.len() by { assert(p.contains_key(k)); }
    }
}
pub open spec fn norev(t: Seq<Arc<Sentence>>, s: SenV, n: int) -> bool { forall|q: int| 0 <= q < n ==> !rmatch(#[trigger] bv(t[q]), s) }
pub proof fn lemma_rscan(t: Seq<Arc<Sentence>>, s: SenV, k: int)
    requires 0 <= k <= t.len(), norev(t, s, k), k < t.len() ==> rmatch(bv(t[k]), s)
    ensures rfirst(tbv(t), s, 0) == k
{ assert forall|q: int| 0 <= q < k implies !rmatch(#[trigger] tbv(t)[q], s) by { assert(!rmatch(bv(t[q]), s)); } lemma_rfirst_is(tbv(t), s, k); }
pub proof fn lemma_rapply(t: Seq<Arc<Sentence>>, s: SenV, k: int, a: Arc<Sentence>)
    requires 0 <= k < t.len(), norev(t, s, k), rmatch(bv(t[k]), s), bv(a) == revd(bv(t[k]), s)
    ensures tbv(t.remove(k).push(a)) == trev(tbv(t), s), forall|r: Option<BV>| #[trigger] trevr(tbv(t), s, r) == Some(bv(a))
{ lemma_rscan(t, s, k); reveal(trev); reveal(trevr); assert(tbv(t.remove(k).push(a)) =~= tbv(t).remove(k).push(bv(a))); }
pub proof fn lemma_rnone(t: Seq<Arc<Sentence>>, s: SenV)
    requires norev(t, s, t.len() as int)
    ensures trev(tbv(t), s) == tbv(t), forall|r: Option<BV>| #[trigger] trevr(tbv(t), s, r) == r
{ lemma_rscan(t, s, t.len() as int); reveal(trev); reveal(trevr); }
@@fn src/NarWorkingCycle.rs memReviseBelief erase deeplock
@attr #[verifier::allow_complex_invariants]
@contract
    requires mrvok(mev(old($p1).concepts@)), $p2.punct == EnumPunctation::JUGEMENT ==> rvok(sv(*$p2))
    ensures
        $p2.punct != EnumPunctation::JUGEMENT ==> final($p1).concepts@ == old($p1).concepts@ && $r is None,
        $p2.punct == EnumPunctation::JUGEMENT ==> mev(final($p1).concepts@) == mrev(mev(old($p1).concepts@), sv(*$p2), subs(tmv(*$p2.term))) && bvo($r) == mrevr(mev(old($p1).concepts@), sv(*$p2), subs(tmv(*$p2.term))),
@loop terms
@when outer
@pre
    proof { assert(tvseq($e@).take(0) =~= Seq::empty()); }
@inv
      mev($p1.concepts@) == mrev(mev(old($p1).concepts@), sv(*$p2), tvseq($e@).take($i as int)),
      bvo(res) == mrevr(mev(old($p1).concepts@), sv(*$p2), tvseq($e@).take($i as int)),
      mrvok(mev($p1.concepts@)),
@top
    let ghost vx_m0 = mev($p1.concepts@); let ghost vx_t = tvseq($e@)[$i - 1];
    proof { lemma_mrev_take(mev(old($p1).concepts@), sv(*$p2), tvseq($e@), $i - 1); lemma_mrev1(vx_m0, sv(*$p2), vx_t); if vx_m0.contains_key(vx_t) { assert(vx_m0[vx_t] == cov($p1.concepts@[vx_t])); } }
@bot
    proof { assert(mev($p1.concepts@) =~= mrev1(vx_m0, sv(*$p2), vx_t)); }
@post
    proof { assert(tvseq($e@).take($e@.len() as int) =~= tvseq($e@)); }
@loop scan
@when $C.payload.$T[$x]
@when $D = Some($x)
@when $AB = Some(Sentence ___)
@pre
    let ghost vx_tb = $C.payload.$T@; let ghost vx_r0 = res;
    proof { assert(trvok(tbv(vx_tb))); }
@invx
      $D is None,
@inv
      $C.payload.$T@ == vx_tb, $n == vx_tb.len(),
      $D is None ==> $AB is None && norev(vx_tb, sv(*$p2), $i as int) && res == vx_r0,
      $D is Some ==> $D->0 < vx_tb.len() && norev(vx_tb, sv(*$p2), $D->0 as int) && rmatch(bv(vx_tb[$D->0 as int]), sv(*$p2)) && $AB is Some && bvs($AB->0) == revd(bv(vx_tb[$D->0 as int]), sv(*$p2)) && bvo(res) == Some(bvs($AB->0)),
@top
    proof { assert(tbv(vx_tb)[$i - 1] == bv(vx_tb[$i - 1])); assert(rvok(tbv(vx_tb)[$i - 1].s)); }
@post
    proof {
      if $D is Some {
        assert forall|a: Arc<Sentence>| bv(a) == bvs($AB->0) implies tbv(#[trigger] vx_tb.remove($D->0 as int).push(a)) == trev(tbv(vx_tb), sv(*$p2)) by { lemma_rapply(vx_tb, sv(*$p2), $D->0 as int, a); }
        lemma_rapply(vx_tb, sv(*$p2), $D->0 as int, Arc::new($AB->0));
      } else { lemma_rnone(vx_tb, sv(*$p2)); }
    }
@@end

// ---------------------------------------------------------------- tasks
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
/// a counter (A-LOCK: sequential reading)
#[verifier::external_body]
pub struct VxAtomic { x: i64 }
impl VxAtomic {
    pub uninterp spec fn view(&self) -> i64;
    #[verifier::external_body]
    pub fn fetch_add(&mut self, k: i64, o: Ordering) -> (r: i64) ensures r == old(self)@, old(self)@ + k <= i64::MAX ==> final(self)@ == old(self)@ + k { loop {} }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: i64) ensures r == self@ { loop {} }
}
/// a question handler and everything it has been told so far
#[verifier::external_body]
pub struct VxQHandler { x: u8 }
impl VxQHandler {
    pub uninterp spec fn log(&self) -> Seq<(TermV, SenV)>;
    #[verifier::external_body]
    pub fn answer(&mut self, q: &Term, a: &Sentence) ensures final(self).log() == old(self).log().push((tmv(*q), sv(*a))) { loop {} }
}
@@item src/NarWorkingCycle.rs Task erase
@@item src/NarWorkingCycle.rs Task2 erase
@@item src/NarWorkingCycle.rs DeclarativeShared deep erase
pub struct TaskV { pub b: BV, pub credit: real, pub qa: real, pub mul: real, pub id: int, pub deriv: int }
pub open spec fn tkv(t: Task) -> TaskV { TaskV { b: bvs(t.sentence), credit: t.credit@, qa: t.qaCredit@, mul: t.mulCredit@, id: t.id as int, deriv: t.derivTime as int } }
pub open spec fn tkr(a: &Arc<Task>) -> TaskV { tkv(**a) }
pub open spec fn tks(v: Seq<Arc<Task>>) -> Seq<TaskV> { v.map_values(|a: Arc<Task>| tkv(*a)) }
pub open spec fn s_credit(t: TaskV, now: int) -> real { (t.qa * (2real / 10real) + t.credit) * rexp(-(1real / 1000real) * ((now - t.deriv) as real)) * t.mul }
@@fn src/NarWorkingCycle.rs taskCalcCredit erase
@contract
    requires i64::MIN <= $p2 - $p1.derivTime <= i64::MAX
    ensures $r@ == s_credit(tkv(*$p1), $p2 as int)
@@end
@@fn src/NarWorkingCycle.rs divCreditByComplexity erase
@contract
    requires 0 < cpx(tmv(*old($p1).sentence.term)) <= u64::MAX
    ensures tkv(*final($p1)) == (TaskV { credit: old($p1).credit@ / (cpx(tmv(*old($p1).sentence.term)) as real), qa: old($p1).qaCredit@ / (cpx(tmv(*old($p1).sentence.term)) as real), ..tkv(*old($p1)) })
@@end
/// the task is filed under every subterm occurrence, after what was there
pub open spec fn file1(m: Map<TermV, Seq<TaskV>>, t: TermV, k: TaskV) -> Map<TermV, Seq<TaskV>> { m.insert(t, (if m.contains_key(t) { m[t] } else { Seq::empty() }).push(k)) }
pub open spec fn file(m: Map<TermV, Seq<TaskV>>, ts: Seq<TermV>, k: TaskV) -> Map<TermV, Seq<TaskV>> decreases ts.len() { if ts.len() == 0 { m } else { file1(file(m, ts.drop_last(), k), ts.last(), k) } }
pub open spec fn tixv(m: Map<TermV, Vec<Arc<Task>>>) -> Map<TermV, Seq<TaskV>> { m.map_values(|v: Vec<Arc<Task>>| tks(v@)) }
pub proof fn lemma_file_take(m: Map<TermV, Seq<TaskV>>, ts: Seq<TermV>, k: TaskV, i: int) requires 0 <= i < ts.len() ensures file(m, ts.take(i + 1), k) == file1(file(m, ts.take(i), k), ts[i], k) { assert(ts.take(i + 1).drop_last() =~= ts.take(i)); }
/// filing never drops or reorders, and the task is found under each subterm
pub proof fn lemma_file(m: Map<TermV, Seq<TaskV>>, ts: Seq<TermV>, k: TaskV)
    ensures
        forall|t: TermV| m.contains_key(t) ==> file(m, ts, k).contains_key(t) && m[t].is_prefix_of(#[trigger] file(m, ts, k)[t]),
        forall|i: int| 0 <= i < ts.len() ==> file(m, ts, k).contains_key(#[trigger] ts[i]) && file(m, ts, k)[ts[i]].contains(k),
        forall|t: TermV| !ts.contains(t) ==> (#[trigger] file(m, ts, k).contains_key(t) <==> m.contains_key(t)) && (m.contains_key(t) ==> file(m, ts, k)[t] == m[t]),
    decreases ts.len()
{
    if ts.len() > 0 {
        let d = ts.drop_last(); let p = file(m, d, k); let l = ts.last(); let r = file(m, ts, k); lemma_file(m, d, k);
        assert(r[l].last() == k); assert(r[l][r[l].len() - 1] == k);
        assert forall|t: TermV| m.contains_key(t) implies r.contains_key(t) && m[t].is_prefix_of(#[trigger] r[t]) by { assert(p.contains_key(t)); assert(m[t].is_prefix_of(p[t])); }
        assert forall|i: int| 0 <= i < ts.len() implies r.contains_key(#[trigger] ts[i]) && r[ts[i]].contains(k) by { if i < d.len() { assert(d[i] == ts[i]); assert(p[ts[i]].contains(k)); if ts[i] == l { } } }
        assert forall|t: TermV| !ts.contains(t) implies (#[trigger] r.contains_key(t) <==> m.contains_key(t)) && (m.contains_key(t) ==> r[t] == m[t]) by { assert(ts[ts.len() - 1] == l); if d.contains(t) { let j = choose|j: int| 0 <= j < d.len() && d[j] == t; assert(ts[j] == t); } assert(p.contains_key(t) <==> m.contains_key(t)); }
    }
}
pub broadcast proof fn lemma_tks_push(v: Seq<Arc<Task>>, a: Arc<Task>) ensures #[trigger] tks(v.push(a)) == tks(v).push(tkv(*a)) { assert(tks(v.push(a)) =~= tks(v).push(tkv(*a))); }
pub broadcast proof fn lemma_tks_one(v: Seq<Arc<Task>>) requires v.len() == 1 ensures #[trigger] tks(v) == Seq::<TaskV>::empty().push(tkv(*v[0])) { assert(tks(v) =~= Seq::<TaskV>::empty().push(tkv(*v[0]))); }
/// cloning a vector of Arcs yields the same Arcs (A-ARC)
#[verifier::external_body]
pub broadcast proof fn lemma_vec_clone(a: Vec<Arc<Task>>, b: Vec<Arc<Task>>) requires #[trigger] vstd::std_specs::vec::vec_clone_trigger(a, b), a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> vstd::pervasive::cloned::<Arc<Task>>(#[trigger] a@[i], b@[i]) ensures a@ == b@ { }
@@fn src/NarWorkingCycle.rs populateTaskByTermLookup erase deeplock
@contract
    ensures tixv(final($p1)@) == file(tixv(old($p1)@), subs(tmv(*$p2)), tkr($p3))
@entry
    broadcast use {lemma_tks_push, lemma_tks_one, lemma_vec_clone};
    let ghost vx_tk = tkr($p3);
@loop subterms
@when $G.insert(___)
@pre
    proof { assert(tvseq($e@).take(0) =~= Seq::empty()); }
@inv
      tixv($G@) == file(tixv(old($p1)@), tvseq($e@).take($i as int), vx_tk),
@top
    let ghost vx_ix = tixv($G@); let ghost vx_g0 = $G@; let ghost vx_t = tvseq($e@)[$i - 1];
    proof { lemma_file_take(tixv(old($p1)@), tvseq($e@), vx_tk, $i - 1); if vx_g0.contains_key(vx_t) { assert(vx_ix[vx_t] == tks(vx_g0[vx_t]@)); } }
@bot
    proof { assert(tixv($G@) =~= file1(vx_ix, vx_t, vx_tk)); }
@post
    proof { assert(tvseq($e@).take($e@.len() as int) =~= tvseq($e@)); }
@@end
// ---------------------------------------------------------------- taking in a sentence
impl Clone for Sentence { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures sv(r) == sv(*self), r.usage == self.usage { loop {} } }
pub struct QTV { pub b: BV, pub h: Option<VxQHandler>, pub best: real, pub prio: real }
pub open spec fn qtv(t: Task2) -> QTV { QTV { b: bvs(t.sentence), h: t.handler, best: t.bestAnswerExp@, prio: t.prio@ } }
pub open spec fn qts(v: Seq<Box<Task2>>) -> Seq<QTV> { v.map_values(|a: Box<Task2>| qtv(*a)) }
pub broadcast proof fn lemma_qts_push(v: Seq<Box<Task2>>, a: Box<Task2>) ensures #[trigger] qts(v.push(a)) == qts(v).push(qtv(*a)) { assert(qts(v.push(a)) =~= qts(v).push(qtv(*a))); }
pub struct ShV { pub jt: Seq<TaskV>, pub ix: Map<TermV, Seq<TaskV>>, pub qt: Seq<QTV>, pub mem: Map<TermV, CoV>, pub stamp: int, pub tid: int, pub cyc: int, pub pm: Map<TermV, CoV> }
pub open spec fn shv(s: DeclarativeShared) -> ShV { ShV { jt: tks(s.judgementTasks@), ix: tixv(s.judgementTasksByTerm@), qt: qts(s.questionTasks@), mem: mev(s.mem.concepts@), stamp: s.stampIdCounter@ as int, tid: s.taskIdCounter@ as int, cyc: s.cycleCounter@ as int, pm: mev(s.procMem.concepts@) } }
/// a task for exactly this statement and this evidence exists
pub open spec fn tdup(jt: Seq<TaskV>, b: BV) -> bool { exists|i: int| 0 <= i < jt.len() && (#[trigger] jt[i]).b.s.t == b.s.t && jt[i].b.s.ids == b.s.ids }
/// the new task: credit 1, divided by the complexity of the statement if asked for
pub open spec fn tnew(b: BV, calc: bool, mul: real, id: int, cyc: int) -> TaskV { TaskV { b: b, credit: if calc { 1real / (cpx(b.s.t) as real) } else { 1real }, qa: 0real, mul: mul, id: id, deriv: cyc } }
#[verifier::opaque]
pub open spec fn tadd(st: ShV, b: BV, calc: bool, mul: real) -> ShV {
    match b.s.p {
        EnumPunctation::JUGEMENT => { let k = tnew(b, calc, mul, st.tid, st.cyc); ShV { jt: st.jt.push(k), ix: file(st.ix, subs(b.s.t), k), tid: st.tid + 1, ..st } },
        EnumPunctation::QUESTION => ShV { qt: st.qt.push(QTV { b: b, h: None, best: 0real, prio: 1real }), ..st },
        EnumPunctation::GOAL => st,
    }
}
/// tasks are added in order up to the first that exists already
pub open spec fn taddall(st: ShV, l: Seq<BV>, calc: bool, mul: real) -> ShV decreases l.len() {
    if l.len() == 0 { st } else if l[0].s.p == EnumPunctation::JUGEMENT && tdup(st.jt, l[0]) { st } else { taddall(tadd(st, l[0], calc, mul), l.skip(1), calc, mul) }
}
pub open spec fn ssv(v: Seq<Sentence>) -> Seq<BV> { v.map_values(|s: Sentence| bvs(s)) }
/// memory and tasks after taking in the sentence b
pub open spec fn taken(st: ShV, b: BV, calc: bool, maxc: int, n: int, mul: real, now: int) -> ShV {
    let j = b.s.p == EnumPunctation::JUGEMENT; let ts = subs(b.s.t);
    let r = if j { mrevr(st.mem, b.s, ts) } else { None };
    let m = if !j { st.mem } else if r is Some { mrev(st.mem, b.s, ts) } else { mstore(mrev(st.mem, b.s, ts), b, ts, n, now) };
    if cpx(b.s.t) > maxc { st } else { taddall(ShV { mem: m, ..st }, if r is Some { seq![b, r->0] } else { seq![b] }, calc, mul) }
}
pub open spec fn nodup(t: Seq<Arc<Task>>, b: BV, n: int) -> bool { forall|q: int| 0 <= q < n ==> !((tkv(*#[trigger] t[q])).b.s.t == b.s.t && tkv(*t[q]).b.s.ids == b.s.ids) }
pub proof fn lemma_nodup(t: Seq<Arc<Task>>, b: BV) requires nodup(t, b, t.len() as int) ensures !tdup(tks(t), b)
{ if tdup(tks(t), b) { let i = choose|i: int| 0 <= i < tks(t).len() && (#[trigger] tks(t)[i]).b.s.t == b.s.t && tks(t)[i].b.s.ids == b.s.ids; assert(tks(t)[i] == tkv(*t[i])); } }
pub proof fn lemma_isdup(t: Seq<Arc<Task>>, b: BV, i: int) requires 0 <= i < t.len(), tkv(*t[i]).b.s.t == b.s.t, tkv(*t[i]).b.s.ids == b.s.ids ensures tdup(tks(t), b)
{ assert(tks(t)[i] == tkv(*t[i])); }
/// all revision conclusions state the term of the sentence
pub proof fn lemma_mrevr_term(m: Map<TermV, CoV>, s: SenV, ts: Seq<TermV>)
    requires mrvok(m), rvok(s)
    ensures mrevr(m, s, ts) is Some ==> mrevr(m, s, ts)->0.s.t == s.t && mrevr(m, s, ts)->0.s.p == EnumPunctation::JUGEMENT
    decreases ts.len()
{
    if ts.len() > 0 {
        let d = ts.drop_last(); let p = mrev(m, s, d); let t = ts.last();
        lemma_mrevr_term(m, s, d); lemma_mrev(m, s, d); reveal(trevr);
        if p.contains_key(t) { lemma_rfirst(p[t].ex, s, 0); lemma_rfirst(p[t].us, s, 0); assert(trvok(p[t].ex)); assert(trvok(p[t].us)); }
    }
}
pub proof fn lemma_trev_tok(t: Seq<BV>, s: SenV, now: int)
    requires trvok(t), rvok(s), tok(t, now), i64::MIN <= now <= i64::MAX ensures tok(trev(t, s), now)
{ reveal(trev); lemma_rfirst(t, s, 0); let i = rfirst(t, s, 0); if i < t.len() { lemma_ok_rev(etv(t[i].s.e->0), etv(s.e->0)); let r = trev(t, s); assert forall|q: int| 0 <= q < r.len() implies bok(#[trigger] r[q], now) by { if q < i { assert(r[q] == t[q]); } else if q < r.len() - 1 { assert(r[q] == t[q + 1]); } else { assert(rvok(t[i].s)); } } } }
pub proof fn lemma_mrev_mok(m: Map<TermV, CoV>, s: SenV, ts: Seq<TermV>, now: int)
    requires mrvok(m), rvok(s), mok(m, now), i64::MIN <= now <= i64::MAX ensures mok(mrev(m, s, ts), now) decreases ts.len()
{
    if ts.len() > 0 {
        let d = ts.drop_last(); let p = mrev(m, s, d); let t = ts.last(); let r = mrev(m, s, ts);
        lemma_mrev_mok(m, s, d, now); lemma_mrev(m, s, d);
        if p.contains_key(t) { lemma_trev_tok(p[t].ex, s, now); lemma_trev_tok(p[t].us, s, now); }
        assert forall|k: TermV| r.contains_key(k) implies tok((#[trigger] r[k]).ex, now) && tok(r[k].us, now) && r[k].name == k by { assert(p.contains_key(k)); }
    }
}
pub proof fn lemma_zero_div(c: real) requires c > 0real ensures 0real / c == 0real, 1real / 1real == 1real, 0real / 1real == 0real { assert(0real / c == 0real) by (nonlinear_arith) requires c > 0real; }
@@fn src/NarWorkingCycle.rs memAddTask erase deeplock
@contract
    requires mrvok(mev(old($p1).mem.concepts@)), mok(mev(old($p1).mem.concepts@), $p7 as int), $p2.punct == EnumPunctation::JUGEMENT ==> rvok(sv(*$p2)) && bok(bvs(*$p2), $p7 as int),
        0 < cpx(tmv(*$p2.term)) <= i64::MAX, old($p1).taskIdCounter@ < i64::MAX - 2, $p5 >= 1,
    ensures shv(*final($p1)) == taken(shv(*old($p1)), bvs(*$p2), $p3, $p4 as int, $p5 as int, $p6@, $p7 as int)
@entry
    broadcast use {lemma_tks_push, lemma_qts_push};
    let ghost vx_s0 = shv(*$p1);
    proof { if $p2.punct == EnumPunctation::JUGEMENT { lemma_mrev(vx_s0.mem, sv(*$p2), subs(sv(*$p2).t)); lemma_mrev_mok(vx_s0.mem, sv(*$p2), subs(sv(*$p2).t), $p7 as int); lemma_mrevr_term(vx_s0.mem, sv(*$p2), subs(sv(*$p2).t)); } }
@loop add
@when outer
@pre
    let ghost vx_st = shv(*$p1);
    proof { assert(ssv($e@) =~= (if $e@.len() == 2 { seq![bvs($e@[0]), bvs($e@[1])] } else { seq![bvs($e@[0])] })); assert(ssv($e@).skip(0) =~= ssv($e@)); }
@inv
      taddall(shv(*$p1), ssv($e@).skip($i as int), $p3, $p6@) == taddall(vx_st, ssv($e@), $p3, $p6@),
      shv(*$p1).tid <= vx_s0.tid + $i, forall|q: int| 0 <= q < $e@.len() ==> (#[trigger] bvs($e@[q])).s.t == sv(*$p2).t, $e@.len() <= 2,
@top
    let ghost vx_cur = shv(*$p1); let ghost vx_l = ssv($e@).skip($i - 1);
    proof { reveal(tadd); lemma_zero_div(cpx(sv(*$p2).t) as real); assert(vx_l[0] == bvs($e@[$i - 1])); assert(vx_l.skip(1) =~= ssv($e@).skip($i as int));  }
@bot
    proof { let vx_a = shv(*$p1); let vx_b = tadd(vx_cur, vx_l[0], $p3, $p6@);
      assert(vx_a.qt == vx_b.qt); assert(vx_a.mem == vx_b.mem && vx_a.pm == vx_b.pm && vx_a.stamp == vx_b.stamp && vx_a.cyc == vx_b.cyc); assert(vx_a.tid == vx_b.tid); 
      assert(vx_a.jt.len() == vx_b.jt.len()); 
      if vx_l[0].s.p == EnumPunctation::JUGEMENT { assert(vx_a.jt.last().b == vx_b.jt.last().b); assert(vx_a.jt.last().qa == 0real); assert(vx_a.jt.last().credit == vx_b.jt.last().credit); assert(vx_a.jt.last() == vx_b.jt.last()); }
      assert(vx_a.jt == vx_b.jt); assert(vx_a.ix == vx_b.ix); 
      }
@post
    proof { assert(ssv($e@).skip($e@.len() as int) =~= Seq::empty()); }
@loop dup
@when checkSame(___)
@inv
      nodup($e@, vx_l[0], $i as int),
@top
    proof { let vx_k = tks($e@)[$i - 1]; if vx_k.b.s.t == vx_l[0].s.t && vx_k.b.s.ids == vx_l[0].s.ids { lemma_isdup($e@, vx_l[0], $i - 1); } }
@post
    proof { lemma_nodup($e@, vx_l[0]); }
@@end
// ---------------------------------------------------------------- questions
pub open spec fn qlog(h: Option<VxQHandler>) -> Option<Seq<(TermV, SenV)>> { match h { Some(x) => Some(x.log()), None => None } }
pub open spec fn hlogs(v: Seq<VxQHandler>) -> Seq<Seq<(TermV, SenV)>> { v.map_values(|h: VxQHandler| h.log()) }
/// a judgement that matches the question and is believed more than the best answer so far
pub open spec fn better(q: QTV, s: SenV) -> bool { s.p == EnumPunctation::JUGEMENT && s_exp(etv(s.e->0)) > q.best && uok(q.b.s.t, s.t) }
pub open spec fn told(l: Seq<Seq<(TermV, SenV)>>, m: (TermV, SenV)) -> Seq<Seq<(TermV, SenV)>> { l.map_values(|x: Seq<(TermV, SenV)>| x.push(m)) }
@@fn src/NarWorkingCycle.rs qaTryAnswer erase handlers
@sig & Vec < => &mut Vec <
@sig &Vec < => &mut Vec <
@contract
    requires $p2.punct == EnumPunctation::JUGEMENT ==> senok(sv(*$p2))
    ensures
        // the answer reaches the asker and every observer once, or nothing happens at all
        !better(qtv(*old($p1)), sv(*$p2)) ==> *final($p1) == *old($p1) && final($p3)@ == old($p3)@,
        better(qtv(*old($p1)), sv(*$p2)) ==> bvs(final($p1).sentence) == bvs(old($p1).sentence) && final($p1).prio == old($p1).prio && final($p1).bestAnswerExp@ == s_exp(etv(sv(*$p2).e->0)),
        better(qtv(*old($p1)), sv(*$p2)) ==> hlogs(final($p3)@) == told(hlogs(old($p3)@), (sv(old($p1).sentence).t, sv(*$p2))),
        better(qtv(*old($p1)), sv(*$p2)) ==> qlog(final($p1).handler) == (match qlog(old($p1).handler) { Some(l) => Some(l.push((sv(old($p1).sentence).t, sv(*$p2)))), None => None }),
@entry
    broadcast use lemma_etv;
@loop observers
@when $G.answer(___)
@pre
    let ghost vx_h = hlogs($e@); let ghost vx_msg = (sv($p1.sentence).t, sv(*$p2));
@inv
      $e@.len() == vx_h.len(), forall|q: int| 0 <= q < $i ==> (#[trigger] $e@[q]).log() == vx_h[q].push(vx_msg), forall|q: int| $i <= q < $e@.len() ==> (#[trigger] $e@[q]).log() == vx_h[q],
@post
    proof { assert(hlogs($e@) =~= told(vx_h, vx_msg)); }
@@end
/// the expectation of the best answer only ever grows
pub proof fn lemma_qa_monotone(q: QTV, s: SenV) requires better(q, s) ensures s_exp(etv(s.e->0)) > q.best { }

// ---------------------------------------------------------------- selection
pub open spec fn csum(t: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { csum(t, n - 1) + t[n - 1] } }
/// roulette-wheel selection: the first index whose cumulated weight reaches the fraction v of the total weight, else the last
pub open spec fn picked(t: Seq<real>, v: real, r: int) -> bool {
    &&& 0 <= r < t.len()
    &&& forall|q: int| 0 <= q < r ==> #[trigger] csum(t, q + 1) < v * csum(t, t.len() as int)
    &&& r < t.len() - 1 ==> csum(t, r + 1) >= v * csum(t, t.len() as int)
}
/// the first of the largest
pub open spec fn argmax(t: Seq<real>, r: int) -> bool { 0 <= r < t.len() && (forall|q: int| 0 <= q < t.len() ==> #[trigger] t[q] <= t[r]) && (forall|q: int| 0 <= q < r ==> #[trigger] t[q] < t[r]) }
/// every item with positive weight can be chosen, items of weight 0 are not chosen for v > 0
pub proof fn lemma_csum_mono(t: Seq<real>, m: int, n: int) requires 0 <= m <= n <= t.len(), forall|q: int| 0 <= q < t.len() ==> #[trigger] t[q] >= 0real ensures csum(t, m) <= csum(t, n) decreases n { if m < n { lemma_csum_mono(t, m, n - 1); } }
pub proof fn lemma_picked_fair(t: Seq<real>, v: real, r: int)
    requires picked(t, v, r), forall|q: int| 0 <= q < t.len() ==> #[trigger] t[q] >= 0real, 0real < v <= 1real, csum(t, t.len() as int) > 0real
    ensures csum(t, r) < v * csum(t, t.len() as int) <= csum(t, r + 1), t[r] > 0real
{
    let n = t.len() as int; let s = csum(t, n);
    assert(0real < v * s <= s) by(nonlinear_arith) requires 0real < v <= 1real, s > 0real;
    if r > 0 { assert(csum(t, (r - 1) + 1) < v * s); }
    if r == n - 1 { assert(csum(t, r + 1) == s); }
}
pub open spec fn cweights(v: Seq<Arc<Task>>, now: int) -> Seq<real> { v.map_values(|a: Arc<Task>| s_credit(tkv(*a), now)) }
pub open spec fn qweights(v: Seq<Box<Task2>>) -> Seq<real> { v.map_values(|a: Box<Task2>| a.prio@) }
pub open spec fn bweights(v: Seq<Arc<Sentence>>) -> Seq<real> { v.map_values(|a: Arc<Sentence>| etv(bv(a).s.e->0).c) }
pub open spec fn timeok(v: Seq<Arc<Task>>, now: i64) -> bool { forall|q: int| 0 <= q < v.len() ==> i64::MIN <= now - (#[trigger] v[q]).derivTime <= i64::MAX }
@@fn src/NarWorkingCycle.rs taskSelByCreditRandom erase
@contract
    requires $p2@.len() > 0, timeok($p2@, $p3)
    ensures picked(cweights($p2@, $p3 as int), $p1@, $r as int)
@loop pick
@when return $J
@when $A = $A + ___
@inv
      $J == $i, $A@ == csum(cweights($p2@, $p3 as int), $i as int), forall|q: int| 0 <= q < $i ==> #[trigger] csum(cweights($p2@, $p3 as int), q + 1) < $p1@ * csum(cweights($p2@, $p3 as int), $p2@.len() as int),
@loop sum
@when $acc = $acc + ___
@inv
      $acc@ == csum(cweights($p2@, $p3 as int), $i as int),
@@end
@@fn src/NarWorkingCycle.rs taskSelByCreditTop erase
@contract
    requires $p1@.len() > 0, timeok($p1@, $p2), forall|q: int| 0 <= q < $p1@.len() ==> #[trigger] cweights($p1@, $p2 as int)[q] > -5000real
    ensures argmax(cweights($p1@, $p2 as int), $r as int)
@loop best
@when $B = ($J, $C)
@inv
      $J == $i, $i == 0 ==> $B.1@ == -5000real && $B.0 == 0, $i > 0 ==> argmax(cweights($p1@, $p2 as int).take($i as int), $B.0 as int) && $B.1@ == cweights($p1@, $p2 as int)[$B.0 as int],
@top
    let ghost vx_w = cweights($p1@, $p2 as int); proof { assert(vx_w.take($i as int) =~= vx_w.take($i - 1).push(vx_w[$i - 1])); }
@post
    proof { assert(cweights($p1@, $p2 as int).take($p1@.len() as int) =~= cweights($p1@, $p2 as int)); }
@@end
@@fn src/NarWorkingCycle.rs task2SelByCreditRandom erase
@contract
    requires $p2@.len() > 0
    ensures picked(qweights($p2@), $p1@, $r as int)
@loop pick
@when return $J
@when $A = $A + ___
@inv
      $J == $i, $A@ == csum(qweights($p2@), $i as int), forall|q: int| 0 <= q < $i ==> #[trigger] csum(qweights($p2@), q + 1) < $p1@ * csum(qweights($p2@), $p2@.len() as int),
@loop sum
@when $acc = $acc + ___
@inv
      $acc@ == csum(qweights($p2@), $i as int),
@@end
@@fn src/NarWorkingCycle.rs conceptSelByAvRandom erase
@contract
    requires $p2@.len() > 0, forall|q: int| 0 <= q < $p2@.len() ==> senok(bv(#[trigger] $p2@[q]).s) && bv($p2@[q]).s.p != EnumPunctation::QUESTION
    ensures picked(bweights($p2@), $p1@, $r as int)
@entry
    broadcast use lemma_etv;
@loop pick
@when return $J
@when $A = $A + ___
@inv
      $J == $i, $A@ == csum(bweights($p2@), $i as int), forall|q: int| 0 <= q < $i ==> #[trigger] csum(bweights($p2@), q + 1) < $p1@ * csum(bweights($p2@), $p2@.len() as int),
@loop sum
@when $acc = $acc + ___
@inv
      $acc@ == csum(bweights($p2@), $i as int),
@@end
@@fn src/NarWorkingCycle.rs tasksSelHighestCreditIdx erase
@contract
    requires timeok($p1@, $p2)
    ensures $r is None <==> $p1@.len() == 0, $r is Some ==> argmax(cweights($p1@, $p2 as int), $r->0 as int)
@loop best
@when $R = Arc::clone(___)
@when $B = $x
@pre
    proof { let vx_w = cweights($p1@, $p2 as int); assert(argmax(vx_w.take(1), 0)); }
@top
    proof { let vx_w = cweights($p1@, $p2 as int); assert(vx_w.take($i as int) =~= vx_w.take($i - 1).push(vx_w[$i - 1])); }
@post
    proof { assert(cweights($p1@, $p2 as int).take($p1@.len() as int) =~= cweights($p1@, $p2 as int)); }
@inv
      1 <= $i, $R == $p1@[$B as int], argmax(cweights($p1@, $p2 as int).take($i as int), $B as int),
@@end
}
@@main
