// src/NarProc.rs: anticipations, and the worker that files what was learned (A-LOCK, A-HEAP: `Arc<RwLock<Sentence>>` is a handle into a heap of sentences)
@@use seqimpl.vc
@@heap cell=Sentence deep=VxMem ro=ret_beliefs_by_terms_nonunique mut=narStep0,.step,mem_add_evidence,worker
verus! {
// ---------------------------------------------------------------- shared sentences
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct VxRef { x: u64 }
#[verifier::external_body]
pub struct VxHeap { x: u64 }
#[verifier::external_body]
pub struct VxMemS { x: u64 }
pub struct StoreV { pub s: SenV, pub nb: int, pub now: int }
impl VxMemS {
    pub uninterp spec fn look(&self, ts: Seq<TermV>) -> Seq<VxRef>;
    pub uninterp spec fn stored(&self) -> Seq<StoreV>;
}
pub struct BV { pub s: SenV, pub last: int, pub cnt: int }
pub open spec fn bvs(s: Sentence) -> BV { BV { s: sv(s), last: s.usage.lastUsed as int, cnt: s.usage.useCount as int } }
impl VxHeap {
    pub uninterp spec fn view(&self) -> Map<VxRef, Sentence>;
    /// how often the trace was processed
    pub uninterp spec fn steps(&self) -> nat;
    /// the procedural memory: which cells it finds, and what was stored in it
    pub uninterp spec fn mem(&self) -> VxMemS;
}
pub open spec fn hv(h: VxHeap) -> Map<VxRef, BV> { h@.map_values(|e: Sentence| bvs(e)) }
/// every handle that code holds is a cell of the heap (cells are never freed while a handle exists)
pub trait VxRd { type T; spec fn vx_in(&self, h: &VxHeap) -> bool; spec fn vx_at(&self, h: &VxHeap) -> Self::T; fn vx_rd(&self, h: &VxHeap) -> (r: &Self::T) ensures self.vx_in(h), *r == self.vx_at(h); }
impl VxRd for VxRef { type T = Sentence; open spec fn vx_in(&self, h: &VxHeap) -> bool { h@.contains_key(*self) } open spec fn vx_at(&self, h: &VxHeap) -> Sentence { h@[*self] } #[verifier::external_body] fn vx_rd(&self, h: &VxHeap) -> (r: &Sentence) { loop {} } }
impl VxRef {
    #[verifier::external_body]
    pub fn vx_wr<'a>(&self, h: &'a mut VxHeap) -> (r: &'a mut Sentence) ensures old(h)@.contains_key(*self), *r == old(h)@[*self], final(h)@ == old(h)@.insert(*self, *final(r)), final(h).steps() == old(h).steps(), final(h).mem() == old(h).mem() { loop {} }
    pub fn vx_ac(&self) -> (r: VxRef) ensures r == *self { *self }
}
pub broadcast proof fn lemma_hv(h: VxHeap, r: VxRef) ensures #![trigger hv(h).contains_key(r)] #![trigger hv(h)[r]] hv(h).contains_key(r) == h@.contains_key(r), h@.contains_key(r) ==> hv(h)[r] == bvs(h@[r]) {}
pub broadcast proof fn lemma_hv_ins(h1: VxHeap, m: Map<VxRef, Sentence>, r: VxRef, e: Sentence) requires h1@ == #[trigger] m.insert(r, e) ensures #[trigger] hv(h1) == m.map_values(|e: Sentence| bvs(e)).insert(r, bvs(e)) { assert(hv(h1) =~= m.map_values(|e: Sentence| bvs(e)).insert(r, bvs(e))); }
@@item src/NarProc.rs SimpleSentence erase
@@item src/NarProc.rs AnticipationEvent erase heap derive=Copy,Clone
/// ASSUMPTION A-TRACE: what the trace holds (C26), processed by one call of step (C37)
#[verifier::external_body]
pub struct VxTrace { x: u64 }
impl VxTrace {
    pub uninterp spec fn view(&self) -> Seq<Arc<SimpleSentence>>;
    #[verifier::external_body]
    pub fn ret_view(&self) -> (r: Vec<Arc<SimpleSentence>>) ensures r@ == self@ { loop {} }
    #[verifier::external_body]
    pub fn step(&self, nar: &ProcNar, h: &mut VxHeap) ensures final(h)@ == old(h)@, final(h).steps() == old(h).steps() + 1 { loop {} }
}
@@item src/NarProc.rs ProcNar erase heap keep=cfgPerceptWindow,cfgVerbosity,trace,anticipatedEvents,t ty:trace=VxTrace

// ---------------------------------------------------------------- anticipations
pub struct AntV { pub r: VxRef, pub dl: int }
pub open spec fn antv(a: AnticipationEvent) -> AntV { AntV { r: a.evi, dl: a.deadline as int } }
pub open spec fn ants(a: Seq<AnticipationEvent>) -> Seq<AntV> { a.map_values(|x: AnticipationEvent| antv(x)) }
pub open spec fn names(t: Seq<Arc<SimpleSentence>>) -> Seq<TermV> { t.map_values(|a: Arc<SimpleSentence>| tmv(a.name)) }
/// what is anticipated is none of the last k events
pub open spec fn unmet(h: Map<VxRef, BV>, tr: Seq<TermV>, k: int, a: AntV) -> bool { forall|j: int| 0 <= j < k && j < tr.len() ==> h[a.r].s.t.kids[1] != #[trigger] tr[tr.len() - 1 - j] }
pub open spec fn unmets(h: Map<VxRef, BV>, tr: Seq<TermV>, k: int, s: Seq<AntV>) -> Seq<AntV> decreases s.len() { if s.len() == 0 { s } else if unmet(h, tr, k, s.last()) { unmets(h, tr, k, s.drop_last()).push(s.last()) } else { unmets(h, tr, k, s.drop_last()) } }
/// one more observation without success
pub open spec fn failed(b: BV) -> BV { match b.s.e { Some(EvV::Cnt(p, n)) => BV { s: SenV { e: Some(EvV::Cnt(p, n + 1)), ..b.s }, ..b }, _ => b } }
pub open spec fn fails(h: Map<VxRef, BV>, s: Seq<AntV>, t: int) -> Map<VxRef, BV> decreases s.len() { if s.len() == 0 { h } else { let p = fails(h, s.drop_last(), t); if s.last().dl <= t { p.insert(s.last().r, failed(p[s.last().r])) } else { p } } }
pub open spec fn waiting(s: Seq<AntV>, t: int) -> Seq<AntV> decreases s.len() { if s.len() == 0 { s } else if s.last().dl > t { waiting(s.drop_last(), t).push(s.last()) } else { waiting(s.drop_last(), t) } }
pub open spec fn cntok(b: BV, room: int) -> bool { match b.s.e { Some(EvV::Cnt(p, n)) => n + room <= i64::MAX, _ => false } }
pub open spec fn aok(h: Map<VxRef, BV>, s: Seq<AntV>) -> bool { forall|i: int| 0 <= i < s.len() ==> ispred(h[(#[trigger] s[i]).r].s.t) && cntok(h[s[i].r], s.len() as int) }
pub open spec fn others(h: Map<VxRef, BV>, t: TermV, s: Seq<AntV>) -> Seq<AntV> decreases s.len() { if s.len() == 0 { s } else if h[s.last().r].s.t.kids[1] != t { others(h, t, s.drop_last()).push(s.last()) } else { others(h, t, s.drop_last()) } }
pub proof fn lemma_unmets0(h: Map<VxRef, BV>, tr: Seq<TermV>, s: Seq<AntV>) ensures unmets(h, tr, 0, s) == s decreases s.len() {
    if s.len() > 0 { lemma_unmets0(h, tr, s.drop_last()); assert(unmet(h, tr, 0, s.last())); assert(s.drop_last().push(s.last()) =~= s); }
}
pub proof fn lemma_unmet_step(h: Map<VxRef, BV>, tr: Seq<TermV>, k: int, a: AntV) requires 0 <= k < tr.len() ensures unmet(h, tr, k + 1, a) == (unmet(h, tr, k, a) && h[a.r].s.t.kids[1] != tr[tr.len() - 1 - k]) {
    if unmet(h, tr, k + 1, a) { assert(tr[tr.len() - 1 - k] == tr[tr.len() - 1 - k]); }
}
pub proof fn lemma_unmets_step(h: Map<VxRef, BV>, tr: Seq<TermV>, k: int, s: Seq<AntV>) requires 0 <= k < tr.len() ensures others(h, tr[tr.len() - 1 - k], unmets(h, tr, k, s)) == unmets(h, tr, k + 1, s) decreases s.len() {
    if s.len() > 0 {
        lemma_unmets_step(h, tr, k, s.drop_last());
        lemma_unmet_step(h, tr, k, s.last());
        if unmet(h, tr, k, s.last()) { let u = unmets(h, tr, k, s.drop_last()); assert(u.push(s.last()).drop_last() =~= u); }
    }
}
pub proof fn lemma_unmets_all(h: Map<VxRef, BV>, tr: Seq<TermV>, k: int, j: int, s: Seq<AntV>) requires tr.len() <= k, tr.len() <= j ensures unmets(h, tr, k, s) == unmets(h, tr, j, s) decreases s.len() {
    if s.len() > 0 { lemma_unmets_all(h, tr, k, j, s.drop_last()); assert(unmet(h, tr, k, s.last()) == unmet(h, tr, j, s.last())); }
}
pub proof fn lemma_unmets_in(h: Map<VxRef, BV>, tr: Seq<TermV>, k: int, s: Seq<AntV>) ensures unmets(h, tr, k, s).len() <= s.len(), forall|i: int| 0 <= i < unmets(h, tr, k, s).len() ==> s.contains(#[trigger] unmets(h, tr, k, s)[i]) decreases s.len() {
    if s.len() > 0 {
        lemma_unmets_in(h, tr, k, s.drop_last());
        let u = unmets(h, tr, k, s); let w = unmets(h, tr, k, s.drop_last());
        assert forall|i: int| 0 <= i < u.len() implies s.contains(#[trigger] u[i]) by {
            if i < w.len() { assert(u[i] == w[i]); let j = choose|j: int| 0 <= j < s.len() - 1 && s.drop_last()[j] == w[i]; assert(s[j] == u[i]); } else { assert(u[i] == s[s.len() - 1]); }
        }
    }
}
pub proof fn lemma_aok(h: Map<VxRef, BV>, tr: Seq<TermV>, k: int, s: Seq<AntV>) requires aok(h, s) ensures aok(h, unmets(h, tr, k, s)) {
    lemma_unmets_in(h, tr, k, s);
    let u = unmets(h, tr, k, s);
    assert forall|i: int| 0 <= i < u.len() implies ispred(h[(#[trigger] u[i]).r].s.t) && cntok(h[u[i].r], u.len() as int) by {
        assert(s.contains(u[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i]; assert(ispred(h[s[j].r].s.t));
    }
}
/// after some failures a count grew by at most their number
pub proof fn lemma_fails(h: Map<VxRef, BV>, s: Seq<AntV>, t: int, r: VxRef, room: int) requires cntok(h[r], room), room >= s.len() ensures cntok(fails(h, s, t)[r], room - s.len()) decreases s.len() {
    if s.len() > 0 { lemma_fails(h, s.drop_last(), t, r, room); }
}
@@fn src/NarProc.rs narStep0 heap erase
@contract
    requires aok(hv(*old(vx_h)), ants(old($p1).anticipatedEvents@)), 0 <= old($p1).cfgPerceptWindow <= usize::MAX
    ensures
        final($p1).t == old($p1).t, final($p1).trace@ == old($p1).trace@,
        ants(final($p1).anticipatedEvents@) == waiting(unmets(hv(*old(vx_h)), names(old($p1).trace@), old($p1).cfgPerceptWindow as int, ants(old($p1).anticipatedEvents@)), old($p1).t as int),
        hv(*final(vx_h)) == fails(hv(*old(vx_h)), unmets(hv(*old(vx_h)), names(old($p1).trace@), old($p1).cfgPerceptWindow as int, ants(old($p1).anticipatedEvents@)), old($p1).t as int),
        final(vx_h).steps() == old(vx_h).steps() + 1,
@entry
    let ghost h0 = hv(*vx_h);
    let ghost hh = *vx_h;
    let ghost tr = names($p1.trace@);
    let ghost a0 = ants($p1.anticipatedEvents@);
    let ghost win = $p1.cfgPerceptWindow as int;
    broadcast use lemma_hv;
    proof { lemma_unmets0(h0, tr, a0); assert(forall|i: int| 0 <= i < tr.len() ==> #[trigger] tr[i] == tmv($p1.trace@[i].name)); }
@loop percept
@when if $T.len() > $x ___
@inv
    $T@ == $p1.trace@, *vx_h == hh, $p1.t == old($p1).t, $p1.trace@ == old($p1).trace@, $p1.cfgPerceptWindow == win, $n == win, ants($p1.anticipatedEvents@) == unmets(h0, tr, $i as int, a0),
@top
    proof { lemma_aok(h0, tr, $x as int, a0); if $x < tr.len() { lemma_unmets_step(h0, tr, $x as int, a0); } else { lemma_unmets_all(h0, tr, $x as int, $x + 1, a0); } }
@loop met
@when $A.push(___)
@when retPred(___)
@pre
    let ghost g1 = ants($p1.anticipatedEvents@);
@inv
    *vx_h == hh, ants($p1.anticipatedEvents@) == g1, ants($A@) == others(h0, tmv(*curEvent), g1.take($i as int)),
@top
    proof { assert(g1.take($i as int).drop_last() =~= g1.take($i - 1)); assert(g1.take($i as int).last() == antv($p1.anticipatedEvents@[$i - 1])); assert(g1[$i - 1] == antv($p1.anticipatedEvents@[$i - 1])); assert(ispred(h0[g1[$i - 1].r].s.t)); }
@bot
    proof { assert(ants($A@) =~= others(h0, tmv(*curEvent), g1.take($i as int))); }
@post
    proof { assert(g1.take(g1.len() as int) =~= g1); }
@loop expire
@when $x.evi.vx_wr(___)
@pre
    let ghost g2 = ants($p1.anticipatedEvents@);
    proof { lemma_aok(h0, tr, win, a0); assert(g2.take(0).len() == 0); assert(fails(h0, g2.take(0), nar.t as int) == h0); }
@inv
    ants($p1.anticipatedEvents@) == g2, hv(*vx_h) == fails(h0, g2.take($i as int), $p1.t as int), vx_h.steps() == hh.steps(),
@top
    proof { let i = $i - 1; assert(g2.take($i as int).drop_last() =~= g2.take(i)); assert(g2.take($i as int).last() == antv($p1.anticipatedEvents@[i])); assert(g2[i] == antv($p1.anticipatedEvents@[i])); assert(ispred(h0[g2[i].r].s.t)); lemma_fails(h0, g2.take(i), $p1.t as int, g2[i].r, g2.len() as int); assert(vx_h@.contains_key(g2[i].r) ==> hv(*vx_h)[g2[i].r] == bvs(vx_h@[g2[i].r])); }
    let ghost hb = *vx_h;
@bot
    proof { let r = g2[$i - 1].r; assert(vx_h@ == hb@ || vx_h@ == hb@.insert(r, vx_h@[r])); if vx_h@ == hb@ { } else { lemma_hv_ins(*vx_h, hb@, r, vx_h@[r]); } assert(hv(*vx_h) =~= fails(h0, g2.take($i as int), $p1.t as int)); }
@post
    proof { assert(g2.take(g2.len() as int) =~= g2); }
@loop keep
@when $acc.push(___)
@pre
    let ghost g3 = ants($p1.anticipatedEvents@);
@inv
    ants($p1.anticipatedEvents@) == g3, ants($acc@) == waiting(g3.take($i as int), $p1.t as int),
@top
    proof { assert(g3.take($i as int).drop_last() =~= g3.take($i - 1)); assert(g3.take($i as int).last() == antv($p1.anticipatedEvents@[$i - 1])); assert(g3[$i - 1] == antv($p1.anticipatedEvents@[$i - 1])); }
@bot
    proof { assert(ants($acc@) =~= waiting(g3.take($i as int), $p1.t as int)); }
@post
    proof { assert(g3.take(g3.len() as int) =~= g3); }
@@end

// ---------------------------------------------------------------- the worker that files what was learned
/// A-CHAN: what is sent arrives, once, in order; the channel reports an error once everything was received and the other side hung up
pub struct MsgV { pub s: SenV, pub now: int }
#[verifier::external_body]
pub struct VxRx { x: u64 }
#[verifier::external_derive]
#[derive(Debug)]
pub struct VxHungUp {}
impl VxRx {
    /// what will still be received
    pub uninterp spec fn view(&self) -> Seq<MsgV>;
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Result<(Sentence, i64), VxHungUp>)
        ensures
            old(self)@.len() == 0 ==> r is Err && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Ok && sv((r->Ok_0).0) == old(self)@[0].s && (r->Ok_0).1 == old(self)@[0].now && final(self)@ == old(self)@.drop_first(),
    { loop {} }
}
pub struct VxFlag { pub b: bool }
impl VxFlag {
    pub fn new(b: bool) -> (r: VxFlag) ensures r.b == b { VxFlag { b } }
    pub fn store(&mut self, b: bool) ensures final(self).b == b { self.b = b; }
    pub fn load(&self) -> (r: bool) ensures r == self.b { self.b }
}
pub mod rand { use super::*; #[verifier::external_body] pub fn thread_rng() -> (r: VxRng) { loop {} } }
#[derive(Copy, Clone)]
pub struct VxMem { pub x: u64 }
impl VxMem { pub fn vx_rd(&self, h: &VxHeap) -> (r: VxMem) ensures r == *self { *self } pub fn vx_ac(&self) -> (r: VxMem) ensures r == *self { *self } }
/// A-COUNT: what the procedural memory finds is evidence with counts, which are far from overflow
pub open spec fn counted(b: BV) -> bool { match b.s.e { Some(EvV::Cnt(p, n)) => 0 <= p <= 0x3fff_ffff_ffff_ffff && 0 <= n <= 0x3fff_ffff_ffff_ffff, _ => false } }
#[verifier::external_body]
pub fn ret_beliefs_by_terms_nonunique(mem: &VxMem, ts: &[Term], h: &VxHeap) -> (r: Vec<VxRef>)
    ensures forall|q: Seq<TermV>| #![trigger h.mem().look(q)] q.len() == ts@.len() && (forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == tmv(ts@[i])) ==> r@ == h.mem().look(q), forall|i: int| 0 <= i < r@.len() ==> hv(*h).contains_key(#[trigger] r@[i]) && counted(hv(*h)[r@[i]])
{ loop {} }
/// what storing does to the memory is C24
#[verifier::external_body]
pub fn mem_add_evidence(mem: VxMem, s: &Sentence, nb: usize, now: i64, rng: &mut VxRng, h: &mut VxHeap)
    ensures final(h).mem().stored() == old(h).mem().stored().push(StoreV { s: sv(*s), nb: nb as int, now: now as int }), forall|r: VxRef| #[trigger] hv(*old(h)).contains_key(r) ==> hv(*final(h)).contains_key(r) && hv(*final(h))[r] == hv(*old(h))[r]
{ loop {} }
pub open spec fn dtof(d: Option<i64>) -> int { match d { Some(x) => x as int, None => 0 } }
/// an observation counts for a contingency about the same, with independent evidence, and with an interval which includes the observed one
pub open spec fn fits(b: BV, m: SenV) -> bool { b.s.t == m.t && !overlap(b.s.ids, m.ids) && dtof(b.s.dt) >= dtof(m.dt) }
pub open spec fn revd(b: BV, m: SenV) -> BV { match (b.s.e, m.e) { (Some(EvV::Cnt(p, n)), Some(EvV::Cnt(q, k))) => BV { s: SenV { ids: s_merge(b.s.ids, m.ids), e: Some(EvV::Cnt(p + q, n + k)), ..b.s }, ..b }, _ => b } }
pub open spec fn anyfit(h: Map<VxRef, BV>, l: Seq<VxRef>, m: SenV) -> bool { exists|i: int| 0 <= i < l.len() && fits(h[#[trigger] l[i]], m) }
/// every contingency it counts for gets it counted once; all others stay as they are
pub open spec fn counted1(h: Map<VxRef, BV>, l: Seq<VxRef>, m: SenV, g: Map<VxRef, BV>) -> bool { g.dom() == h.dom() && forall|r: VxRef| h.contains_key(r) ==> #[trigger] g[r] == if l.contains(r) && fits(h[r], m) { revd(h[r], m) } else { h[r] } }
pub open spec fn filed(h: VxHeap, m: MsgV, nb: int, g: VxHeap) -> bool {
    let l = h.mem().look(seq![condv(m.s.t), m.s.t.kids[1]]);
    if anyfit(hv(h), l, m.s) { counted1(hv(h), l, m.s, hv(g)) && g.mem() == h.mem() }
    else { g.mem().stored() == h.mem().stored().push(StoreV { s: m.s, nb, now: m.now }) && forall|r: VxRef| hv(h).contains_key(r) ==> hv(g).contains_key(r) && #[trigger] hv(g)[r] == hv(h)[r] }
}
pub open spec fn worked(h: VxHeap, ms: Seq<MsgV>, nb: int, g: VxHeap) -> bool decreases ms.len() { if ms.len() == 0 { g == h } else { exists|k: VxHeap| worked(h, ms.drop_last(), nb, k) && #[trigger] filed(k, ms.last(), nb, g) } }
pub open spec fn msgok(m: MsgV) -> bool { condok(m.s.t) && m.s.ids.len() > 0 && m.s.dt is Some && match m.s.e { Some(EvV::Cnt(p, n)) => 0 <= p <= 0x3fff_ffff && 0 <= n <= 0x3fff_ffff, _ => false } }
pub proof fn lemma_worked(h: VxHeap, ms: Seq<MsgV>, nb: int, k: VxHeap, g: VxHeap) requires ms.len() > 0, worked(h, ms.drop_last(), nb, k), filed(k, ms.last(), nb, g) ensures worked(h, ms, nb, g) {}
pub proof fn lemma_merged(a: Seq<i64>, b: Seq<i64>) requires b.len() > 0 ensures overlap(s_merge(a, b), b) {
    reveal(s_merge); let r = s_merge(a, b);
    if a.len() > 0 { assert(r[1] == b[0]); } else { assert(r[0] == b[0]); }
}
@@fn src/NarProc.rs narInit::spawn as worker heap erase flag
@attr #[verifier::allow_complex_invariants]
@params rx: &mut VxRx, evidenceMem: VxMem, cfg__nConceptBeliefs: usize, vx_h: &mut VxHeap
@contract
    requires forall|i: int| 0 <= i < old($p1)@.len() ==> msgok(#[trigger] old($p1)@[i])
    ensures final($p1)@.len() == 0, worked(*old(vx_h), old($p1)@, $p3 as int, *final(vx_h))
@entry
    let ghost ms = $p1@;
    let ghost h0 = *vx_h;
    let ghost mut k: int = 0;
    broadcast use lemma_hv;
    proof { assert(ms.take(0).len() == 0); assert(ms.skip(0) =~= ms); }
@loop messages
@when $M = $p1.recv()
@inv
      invariant 0 <= k <= ms.len(), $p1@ == ms.skip(k), worked(h0, ms.take(k), $p3 as int, *vx_h),
      ensures $p1@.len() == 0, k == ms.len(),
      decreases ms.len() - k
@top
    let ghost hb = *vx_h;
    proof { assert(ms.skip(k).len() == ms.len() - k); if k < ms.len() { assert(ms.skip(k)[0] == ms[k]); assert(ms.skip(k).drop_first() =~= ms.skip(k + 1)); assert(msgok(ms[k])); } }
@bot
    proof { assert(filed(hb, ms[k], $p3 as int, *vx_h)); assert(ms.take(k + 1).drop_last() =~= ms.take(k)); assert(ms.take(k + 1).last() == ms[k]); assert(worked(h0, ms.take(k + 1).drop_last(), $p3 as int, hb)); lemma_worked(h0, ms.take(k + 1), $p3 as int, hb, *vx_h); k = k + 1; }
@loop candidates
@when $x.vx_wr(___)
@pre
    let ghost l = $e@;
    let ghost m = sv(evidenceSentence);
    assert(l =~= hb.mem().look(seq![condv(m.t), m.t.kids[1]]));
    let ghost hm = hv(hb);
    proof { assert(l.take(0).len() == 0); assert forall|i: int| 0 <= i < l.len() implies hm.contains_key(#[trigger] l[i]) && counted(hm[l[i]]) by { assert($e@[i] == l[i]); } }
@inv
      forall|i: int| 0 <= i < l.len() ==> hm.contains_key(#[trigger] l[i]) && counted(hm[l[i]]),
      hv(*vx_h).dom() == hm.dom(), vx_h.mem() == hb.mem(),
      forall|r: VxRef| hm.contains_key(r) ==> #[trigger] hv(*vx_h)[r] == if l.take($i as int).contains(r) && fits(hm[r], m) { revd(hm[r], m) } else { hm[r] },
      addEvidenceFlag.b == !anyfit(hm, l.take($i as int), m),
@top
    let ghost hc = *vx_h;
    let ghost r = l[$i - 1];
    proof {
        assert(hm.contains_key(r) && counted(hm[r]));
        assert(hv(hc)[r] == if l.take($i - 1).contains(r) && fits(hm[r], m) { revd(hm[r], m) } else { hm[r] });
        lemma_merged(hm[r].s.ids, m.ids);
        assert(fits(hv(hc)[r], m) ==> hv(hc)[r] == hm[r]);
        assert(vx_h@.contains_key(r) && hv(hc)[r] == bvs(vx_h@[r]));
        assert(l.take($i as int) =~= l.take($i - 1).push(r));
    }
@bot
    proof {
        assert(vx_h@ == hc@.insert(r, vx_h@[r]));
        lemma_hv_ins(*vx_h, hc@, r, vx_h@[r]);
        assert(hv(*vx_h) == hv(hc).insert(r, bvs(vx_h@[r])));
        assert(hv(*vx_h).dom() =~= hm.dom());
        assert(bvs(vx_h@[r]) == if fits(hv(hc)[r], m) { revd(hm[r], m) } else { hv(hc)[r] });
        assert forall|q: VxRef| hm.contains_key(q) implies #[trigger] hv(*vx_h)[q] == if l.take($i as int).contains(q) && fits(hm[q], m) { revd(hm[q], m) } else { hm[q] } by {
            let a = l.take($i - 1); let b = l.take($i as int);
            if a.contains(q) { let j = choose|j: int| 0 <= j < a.len() && a[j] == q; assert(b[j] == q); }
            if q == r { assert(b[$i - 1] == r); } else {
                if b.contains(q) { let j = choose|j: int| 0 <= j < b.len() && b[j] == q; assert(j < $i - 1); assert(a[j] == q); }
                assert(hv(hc)[q] == hv(*vx_h)[q]);
            }
        }
        let a = l.take($i - 1); let b = l.take($i as int);
        if anyfit(hm, a, m) { let j = choose|j: int| 0 <= j < a.len() && fits(hm[#[trigger] a[j]], m); assert(b[j] == a[j]); }
        if anyfit(hm, b, m) { let j = choose|j: int| 0 <= j < b.len() && fits(hm[#[trigger] b[j]], m); if j < $i - 1 { assert(a[j] == b[j]); } }
        if fits(hm[r], m) { assert(b[$i - 1] == r); }
    }
@post
    proof {
        assert(l.take(l.len() as int) =~= l);
        assert(counted1(hm, l, m, hv(*vx_h)));
    }
@@end
}
@@main
