// src/NarGoalSystem.rs, src/BinSearch.rs: the goal system (A-LOCK, A-MAP, A-SORT, A-HEAP: `Arc<RwLock<Entry>>` is a handle into a heap of entries)
@@use proc.vc
@@use unify.vc
@@heap cell=Entry deep=BatchByDepth,GoalSystem ro=retEntries,checkSetContains,sample,binSearch,selHighestExpGoalByState,query,deriveGoalsHelper mut=step,addEntry,addEntry2,limitMemory,limitGoals,event_occurred,sampleAndInference,inputT2,inputT,inputN
verus! {
// ---------------------------------------------------------------- shared cells
/// a handle; copies of a handle are the same cell
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct VxRef { x: u64 }
@@item src/NarGoalSystem.rs Entry erase heap
@@item src/NarGoalSystem.rs ActiveSet erase heap
@@item src/NarGoalSystem.rs EntryFoldedByTerm erase heap
@@item src/NarGoalSystem.rs BatchByDepth erase heap
@@item src/NarGoalSystem.rs QueuedProcQaBridgeAnswer erase heap
@@item src/NarGoalSystem.rs GoalSystem erase heap
@@stub Mem2 pub struct Mem2 { pub x: u64 }
#[verifier::external_body]
pub struct VxHeap { x: u64 }
impl VxHeap {
    pub uninterp spec fn view(&self) -> Map<VxRef, Entry>;
    /// a fresh cell
    #[verifier::external_body]
    pub fn vx_alloc(&mut self, e: Entry) -> (r: VxRef) ensures !old(self)@.contains_key(r), final(self)@ == old(self)@.insert(r, e) { loop {} }
}
/// every handle that code holds is a cell of the heap (cells are never freed while a handle exists)
pub trait VxRd { type T; spec fn vx_in(&self, h: &VxHeap) -> bool; spec fn vx_at(&self, h: &VxHeap) -> Self::T; fn vx_rd(&self, h: &VxHeap) -> (r: &Self::T) ensures self.vx_in(h), *r == self.vx_at(h); }
impl VxRd for VxRef { type T = Entry; open spec fn vx_in(&self, h: &VxHeap) -> bool { h@.contains_key(*self) } open spec fn vx_at(&self, h: &VxHeap) -> Entry { h@[*self] } #[verifier::external_body] fn vx_rd(&self, h: &VxHeap) -> (r: &Entry) { loop {} } }
impl VxRd for BatchByDepth { type T = BatchByDepth; open spec fn vx_in(&self, h: &VxHeap) -> bool { true } open spec fn vx_at(&self, h: &VxHeap) -> BatchByDepth { *self } fn vx_rd(&self, h: &VxHeap) -> (r: &BatchByDepth) { self } }
impl VxRd for Vec<VxRef> { type T = Vec<VxRef>; open spec fn vx_in(&self, h: &VxHeap) -> bool { true } open spec fn vx_at(&self, h: &VxHeap) -> Vec<VxRef> { *self } fn vx_rd(&self, h: &VxHeap) -> (r: &Vec<VxRef>) { self } }
impl VxRd for Arc<Sentence> { type T = Sentence; open spec fn vx_in(&self, h: &VxHeap) -> bool { true } open spec fn vx_at(&self, h: &VxHeap) -> Sentence { **self } fn vx_rd(&self, h: &VxHeap) -> (r: &Sentence) { self } }
impl VxRef {
    #[verifier::external_body]
    pub fn vx_wr<'a>(&self, h: &'a mut VxHeap) -> (r: &'a mut Entry) ensures old(h)@.contains_key(*self), *r == old(h)@[*self], final(h)@ == old(h)@.insert(*self, *final(r)) { loop {} }
}
pub trait VxWr { fn vx_wr(&mut self, h: &mut VxHeap) -> (r: &mut Self) where Self: Sized ensures *r == *old(self), *final(self) == *final(r), *final(h) == *old(h); }
impl VxWr for Vec<VxRef> { fn vx_wr(&mut self, h: &mut VxHeap) -> (r: &mut Vec<VxRef>) { self } }
impl VxWr for BatchByDepth { fn vx_wr(&mut self, h: &mut VxHeap) -> (r: &mut BatchByDepth) { self } }
pub trait VxAc { fn vx_ac(&self) -> (r: Self) where Self: Sized ensures r == *self; }
impl VxAc for VxRef { fn vx_ac(&self) -> (r: Self) { *self } }
impl VxAc for BatchByDepth { #[verifier::external_body] fn vx_ac(&self) -> (r: Self) { loop {} } }
impl<T> VxAc for Arc<T> { #[verifier::external_body] fn vx_ac(&self) -> (r: Self) { self.clone() } }
impl VxToF for F { open spec fn vx_r(&self) -> real { self@ } fn vx_to_f(self) -> (r: F) { self } }

// ---------------------------------------------------------------- what is stored
pub struct EntV { pub s: SenV, pub evi: Option<Arc<Sentence>>, pub create: int, pub depth: int, pub des: real, pub util: real, pub acc: real }
pub open spec fn env(e: Entry) -> EntV { EntV { s: sv(*e.sentence), evi: e.evidence, create: e.createTime as int, depth: e.depth as int, des: e.desirability@, util: e.utility@, acc: e.accDesirability@ } }
pub open spec fn hv(h: VxHeap) -> Map<VxRef, EntV> { h@.map_values(|e: Entry| env(e)) }
pub struct GroupV { pub t: TermV, pub es: Seq<VxRef> }
pub struct BatV { pub d: int, pub gs: Seq<GroupV> }
pub struct GsV { pub act: Seq<VxRef>, pub bt: Seq<BatV>, pub ix: Map<TermV, Seq<VxRef>>, pub nmax: int, pub ndep: int, pub sat: bool }
pub open spec fn gpv(g: EntryFoldedByTerm) -> GroupV { GroupV { t: tmv(g.term), es: g.entries@ } }
pub open spec fn gpvs(g: Seq<EntryFoldedByTerm>) -> Seq<GroupV> { g.map_values(|x: EntryFoldedByTerm| gpv(x)) }
pub open spec fn btv(b: BatchByDepth) -> BatV { BatV { d: b.depth as int, gs: gpvs(b.groups@) } }
pub open spec fn btvs(b: Seq<BatchByDepth>) -> Seq<BatV> { b.map_values(|x: BatchByDepth| btv(x)) }
pub open spec fn ixv(m: Map<TermV, Vec<VxRef>>) -> Map<TermV, Seq<VxRef>> { m.map_values(|v: Vec<VxRef>| v@) }
pub open spec fn gsv(g: GoalSystem) -> GsV { GsV { act: g.activeSet.set@, bt: btvs(g.batchesByDepth@), ix: ixv(g.entriesByTerm@), nmax: g.nMaxEntries as int, ndep: g.nMaxDepth as int, sat: g.cfg__enGoalSatisfaction } }
/// the entries of the groups / batches / everything, in order
pub open spec fn gfl(g: Seq<GroupV>) -> Seq<VxRef> decreases g.len() { if g.len() == 0 { Seq::empty() } else { gfl(g.drop_last()) + g.last().es } }
pub open spec fn bfl(b: Seq<BatV>) -> Seq<VxRef> decreases b.len() { if b.len() == 0 { Seq::empty() } else { bfl(b.drop_last()) + gfl(b.last().gs) } }
pub open spec fn ents(g: GsV) -> Seq<VxRef> { bfl(g.bt) + g.act }

@@fn src/NarGoalSystem.rs is_desired heap
@contract
    ensures $r == ($p1.desirability@ > 1real / 10000real)
@@end
pub proof fn lemma_gfl(g: Seq<GroupV>, i: int) requires 0 <= i < g.len() ensures gfl(g.take(i + 1)) == gfl(g.take(i)) + g[i].es { assert(g.take(i + 1).drop_last() =~= g.take(i)); }
pub proof fn lemma_bfl(b: Seq<BatV>, i: int) requires 0 <= i < b.len() ensures bfl(b.take(i + 1)) == bfl(b.take(i)) + gfl(b[i].gs) { assert(b.take(i + 1).drop_last() =~= b.take(i)); }
pub proof fn lemma_fl_all(g: Seq<GroupV>, b: Seq<BatV>) ensures gfl(g.take(g.len() as int)) == gfl(g), bfl(b.take(b.len() as int)) == bfl(b) { assert(g.take(g.len() as int) =~= g); assert(b.take(b.len() as int) =~= b); }
@@fn src/NarGoalSystem.rs retEntries heap
@contract
    ensures $r@ == ents(gsv(*$p1))
@entry
    let ghost vx_bt = gsv(*$p1).bt;
    let ghost vx_fl = bfl(vx_bt);
    proof { lemma_fl_all(Seq::empty(), vx_bt); }
@loop batches
@when $x.vx_rd(___)
@when $V.push(___)
@pre
    assert($V@ =~= bfl(vx_bt.take(0)));
@inv
      $V@ == bfl(vx_bt.take($i as int)), $n == vx_bt.len(), vx_bt == btvs($e@),
@bot
    proof { lemma_bfl(vx_bt, $i - 1); }
@loop groups
@when $x.entries
@when $V.push(___)
@pre
    let ghost vx_gr = $V@;
    let ghost vx_gp = gpvs($e@);
    proof { lemma_fl_all(vx_gp, vx_bt); }
    assert($V@ =~= vx_gr + gfl(vx_gp.take(0)));
@inv
      $V@ == vx_gr + gfl(vx_gp.take($i as int)), $n == vx_gp.len(), vx_gp == gpvs($e@),
@bot
    proof { lemma_gfl(vx_gp, $i - 1); }
    assert($V@ =~= vx_gr + gfl(vx_gp.take($i as int)));
@loop entries
@when $V.push($x.vx_ac())
@pre
    let ghost vx_er = $V@;
    assert($V@ =~= vx_er + $e@.take(0));
@inv
      $V@ =~= vx_er + $e@.take($i as int),
@post
    assert($e@.take($n as int) =~= $e@);
@@end

// ---------------------------------------------------------------- satisfaction and lookup
/// the heap after the goals among rs that were asked for have been satisfied
pub open spec fn hsat(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: TermV) -> Map<VxRef, EntV> {
    Map::new(h.dom(), |r: VxRef| if rs.contains(r) && h[r].s.t == t { EntV { des: 0real, ..h[r] } } else { h[r] })
}
pub open spec fn hin(h: Map<VxRef, EntV>, rs: Seq<VxRef>) -> bool { forall|i: int| 0 <= i < rs.len() ==> h.contains_key(#[trigger] rs[i]) }
pub broadcast proof fn lemma_hv(h: VxHeap, r: VxRef) ensures #![trigger hv(h).contains_key(r)] #![trigger hv(h)[r]] hv(h).contains_key(r) == h@.contains_key(r), h@.contains_key(r) ==> hv(h)[r] == env(h@[r]) {}
pub proof fn lemma_hv_upd(h0: VxHeap, h1: VxHeap, r: VxRef, e: Entry) requires h1@ == h0@.insert(r, e) ensures hv(h1) == hv(h0).insert(r, env(e)) { assert(hv(h1) =~= hv(h0).insert(r, env(e))); }
pub broadcast proof fn lemma_hv_ins(h1: VxHeap, m: Map<VxRef, Entry>, r: VxRef, e: Entry) requires h1@ == #[trigger] m.insert(r, e) ensures #[trigger] hv(h1) == m.map_values(|e: Entry| env(e)).insert(r, env(e)) { assert(hv(h1) =~= m.map_values(|e: Entry| env(e)).insert(r, env(e))); }
pub proof fn lemma_hsat0(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: TermV) ensures hsat(h, rs.take(0), t) == h { assert(hsat(h, rs.take(0), t) =~= h); }
pub proof fn lemma_hsat1(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: TermV, i: int)
    requires 0 <= i < rs.len(), h.contains_key(rs[i])
    ensures ({ let p = hsat(h, rs.take(i), t); let n = hsat(h, rs.take(i + 1), t); n == p.insert(rs[i], n[rs[i]]) && n[rs[i]] == (if p[rs[i]].s.t == t { EntV { des: 0real, ..p[rs[i]] } } else { p[rs[i]] }) && p.contains_key(rs[i]) })
{
    let p = hsat(h, rs.take(i), t); let n = hsat(h, rs.take(i + 1), t);
    assert forall|r: VxRef| rs.take(i + 1).contains(r) <==> rs.take(i).contains(r) || r == rs[i] by {
        if rs.take(i).contains(r) { let k = choose|k: int| 0 <= k < i && rs.take(i)[k] == r; assert(rs.take(i + 1)[k] == r); }
        if r == rs[i] { assert(rs.take(i + 1)[i] == r); }
    }
    assert(n =~= p.insert(rs[i], n[rs[i]]));
}
pub proof fn lemma_hsat2(h: Map<VxRef, EntV>, a: Seq<VxRef>, b: Seq<VxRef>, t: TermV) requires forall|r: VxRef| b.contains(r) ==> a.contains(r) ensures hsat(hsat(h, a, t), b, t) == hsat(h, a, t)
{ let p = hsat(h, a, t); assert forall|r: VxRef| h.contains_key(r) implies hsat(p, b, t)[r] == p[r] by {} assert(hsat(p, b, t) =~= p); }
pub proof fn lemma_hsat_all(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: TermV) ensures hsat(h, rs.take(rs.len() as int), t) == hsat(h, rs, t) { assert(rs.take(rs.len() as int) =~= rs); }
/// an observed event satisfies every goal with that term (in the big set and in the active set), and no other; nothing else changes
@@fn src/NarGoalSystem.rs event_occurred heap
@contract
    ensures
        gsv(*final($p1)) == gsv(*old($p1)),
        hv(*final(vx_h)) == (if gsv(*old($p1)).sat { hsat(hv(*old(vx_h)), ents(gsv(*old($p1))), tmv(*$p2)) } else { hv(*old(vx_h)) }),
@entry
    let ghost vx_h0 = hv(*old(vx_h));
    let ghost vx_es = ents(gsv(*old($p1)));
    let ghost vx_ac = gsv(*old($p1)).act;
    let ghost vx_t = tmv(*$p2);
    let ghost vx_sat = gsv(*old($p1)).sat;
    broadcast use {lemma_hv_ins, lemma_hv};
@loop all
@when not activeSet
@pre
    proof { lemma_hsat0(vx_h0, vx_es, vx_t); }
@inv
      $e@ == vx_es, hv(*vx_h) == (if vx_sat { hsat(vx_h0, vx_es.take($i as int), vx_t) } else { vx_h0 }), *$p1 == *old($p1), vx_sat == $p1.cfg__enGoalSatisfaction, vx_t == tmv(*$p2),
@top
    assert($e@[$i - 1] == vx_es[$i - 1]);
@bot
    proof { lemma_hsat1(vx_h0, vx_es, vx_t, $i - 1); lemma_hsat_all(vx_h0, vx_es, vx_t); }
    assert(vx_sat ==> hv(*vx_h) =~= hsat(vx_h0, vx_es.take($i as int), vx_t));
    assert(!vx_sat ==> hv(*vx_h) =~= vx_h0);
@loop again
@when activeSet
@pre
    proof { lemma_hsat_all(vx_h0, vx_es, vx_t); }
@inv
      hv(*vx_h) == (if vx_sat { hsat(vx_h0, vx_es, vx_t) } else { vx_h0 }), *$p1 == *old($p1),
@top
    assert(vx_es[vx_es.len() - vx_ac.len() + $i - 1] == vx_ac[$i - 1]);
    assert(vx_es.contains(vx_ac[$i - 1]));
@bot
    assert(hv(*vx_h) =~= (if vx_sat { hsat(vx_h0, vx_es, vx_t) } else { vx_h0 }));
@@end
pub proof fn lemma_act_in(g: GsV) ensures forall|i: int| 0 <= i < g.act.len() ==> ents(g).contains(#[trigger] g.act[i]), forall|i: int| 0 <= i < bfl(g.bt).len() ==> ents(g).contains(#[trigger] bfl(g.bt)[i])
{ assert forall|i: int| 0 <= i < g.act.len() implies ents(g).contains(#[trigger] g.act[i]) by { assert(ents(g)[bfl(g.bt).len() + i] == g.act[i]); } assert forall|i: int| 0 <= i < bfl(g.bt).len() implies ents(g).contains(#[trigger] bfl(g.bt)[i]) by { assert(ents(g)[i] == bfl(g.bt)[i]); } }
@@fn src/NarGoalSystem.rs query heap
@contract
    ensures
        $r is Some ==> ents(gsv(*$p1)).contains($r->0) && hv(*vx_h)[$r->0].s.t == tmv(*$p2),
        $r is None ==> forall|i: int| 0 <= i < ents(gsv(*$p1)).len() ==> hv(*vx_h)[#[trigger] ents(gsv(*$p1))[i]].s.t != tmv(*$p2),
@entry
    broadcast use lemma_hv;
    proof { lemma_act_in(gsv(*$p1)); }
@loop all
@inv
      forall|q: int| 0 <= q < $i ==> hv(*vx_h)[#[trigger] $e@[q]].s.t != tmv(*$p2),
@@end
/// the same goal: same term from the same evidence
pub open spec fn shas(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: TermV, ids: Seq<i64>) -> bool { exists|i: int| 0 <= i < rs.len() && h[#[trigger] rs[i]].s.t == t && h[rs[i]].s.ids == ids }
@@fn src/NarGoalSystem.rs checkSetContains heap
@contract
    ensures $r == shas(hv(*vx_h), $p1@, sv(*$p2).t, sv(*$p2).ids)
@entry
    broadcast use lemma_hv;
@loop all
@inv
      forall|q: int| 0 <= q < $i ==> hv(*vx_h)[#[trigger] $e@[q]].s.t != sv(*$p2).t || hv(*vx_h)[$e@[q]].s.ids != sv(*$p2).ids,
@@end

// ---------------------------------------------------------------- filing of goals
@@fn src/Utils.rs enforce
@contract
    requires $p1
@@end
@@fn src/NarGoalSystem.rs convProcTermToQaTerm
@contract
    ensures true
    decreases *$p1
@loop elements
@inv
      true,
@@end
pub open spec fn gidx(g: Seq<GroupV>, t: TermV) -> int decreases g.len() { if g.len() == 0 { 0 } else { let k = gidx(g.drop_last(), t); if k < g.len() - 1 { k } else if g.last().t == t { g.len() - 1 } else { g.len() as int } } }
/// the position of the first group of the term (or the length)
pub proof fn lemma_gidx(g: Seq<GroupV>, t: TermV) ensures 0 <= gidx(g, t) <= g.len(), gidx(g, t) < g.len() ==> g[gidx(g, t)].t == t, forall|j: int| 0 <= j < gidx(g, t) ==> (#[trigger] g[j]).t != t decreases g.len()
{ if g.len() > 0 { lemma_gidx(g.drop_last(), t); let k = gidx(g.drop_last(), t); assert forall|j: int| 0 <= j < gidx(g, t) implies (#[trigger] g[j]).t != t by { if j < g.len() - 1 { assert(g.drop_last()[j] == g[j]); } } if k < g.len() - 1 { assert(g.drop_last()[k] == g[k]); } } }
pub proof fn lemma_gidx_is(g: Seq<GroupV>, t: TermV, k: int) requires 0 <= k <= g.len(), k < g.len() ==> g[k].t == t, forall|j: int| 0 <= j < k ==> (#[trigger] g[j]).t != t ensures gidx(g, t) == k { lemma_gidx(g, t); let m = gidx(g, t); if m < k { assert(g[m].t != t); } if k < m { assert(g[k].t != t); } }
pub open spec fn rmaxz(x: real) -> real { if x >= 0real { x } else { 0real } }
/// accumulated desirability of everything before the next entry of the group
pub open spec fn gacc(h: Map<VxRef, EntV>, g: Seq<GroupV>, t: TermV) -> real { let k = gidx(g, t); if k < g.len() { let l = h[g[k].es.last()]; l.acc + rmaxz(l.des) } else { 0real } }
pub open spec fn gput(g: Seq<GroupV>, t: TermV, e: VxRef) -> Seq<GroupV> { let k = gidx(g, t); if k < g.len() { g.update(k, GroupV { t: g[k].t, es: g[k].es.push(e) }) } else { g.push(GroupV { t, es: seq![e] }) } }
pub open spec fn gdep(g: GsV, d: int) -> int { if d <= g.ndep - 1 { d } else { g.ndep - 1 } }
/// where a goal is filed: an op goal in the active set (once), another goal in the batch of its depth, in the group of its term, and in the index
pub open spec fn gadd(g: GsV, h: Map<VxRef, EntV>, e: VxRef) -> GsV {
    let x = h[e]; let d = gdep(g, x.depth);
    if isop(x.s.t) { if shas(h, g.act, x.s.t, x.s.ids) { g } else { GsV { act: g.act.push(e), ..g } } }
    else { GsV { bt: g.bt.update(d, BatV { d: g.bt[d].d, gs: gput(g.bt[d].gs, x.s.t, e) }), ix: g.ix.insert(x.s.t, (if g.ix.contains_key(x.s.t) { g.ix[x.s.t] } else { Seq::empty() }).push(e)), ..g } }
}
pub open spec fn hadd(g: GsV, h: Map<VxRef, EntV>, e: VxRef) -> Map<VxRef, EntV> {
    let x = h[e]; if isop(x.s.t) { h } else { h.insert(e, EntV { acc: gacc(h, g.bt[gdep(g, x.depth)].gs, x.s.t), ..x }) }
}
/// one batch per depth, no empty groups
pub open spec fn gok(g: GsV) -> bool { g.bt.len() == g.ndep && g.ndep >= 1 && g.nmax >= 0 && forall|i: int, j: int| 0 <= i < g.bt.len() && 0 <= j < g.bt[i].gs.len() ==> (#[trigger] g.bt[i].gs[j]).es.len() > 0 }
pub broadcast proof fn lemma_gpvs(g: Seq<EntryFoldedByTerm>) ensures #![trigger gpvs(g)] gpvs(g).len() == g.len(), forall|i: int| 0 <= i < g.len() ==> #[trigger] gpvs(g)[i] == gpv(g[i]) {}
pub broadcast proof fn lemma_btvs(g: Seq<BatchByDepth>) ensures #![trigger btvs(g)] btvs(g).len() == g.len(), forall|i: int| 0 <= i < g.len() ==> #[trigger] btvs(g)[i] == btv(g[i]) {}
@@fn src/NarGoalSystem.rs addEntry2 heap deeplock erase
@attr #[verifier::allow_complex_invariants]
@contract
    requires gok(gsv(*old($p1))), old(vx_h)@.contains_key($p3), old(vx_h)@[$p3].depth >= 0
    ensures
        gsv(*final($p1)) == gadd(gsv(*old($p1)), hv(*old(vx_h)), $p3),
        hv(*final(vx_h)) == hadd(gsv(*old($p1)), hv(*old(vx_h)), $p3),
@entry
    let ghost vx_g0 = gsv(*old($p1));
    let ghost vx_h0 = hv(*old(vx_h));
    let ghost vx_x = vx_h0[$p3];
    let ghost vx_d = gdep(vx_g0, vx_x.depth);
    let ghost vx_gs = vx_g0.bt[vx_d].gs;
    broadcast use {lemma_hv_ins, lemma_hv, lemma_gpvs, lemma_btvs};
@loop group
@when $N = false
@when $x.entries.push(___)
@invx
      $N,
@inv
      $N ==> gpvs($e@) == vx_gs && hv(*vx_h) == vx_h0 && forall|j: int| 0 <= j < $i ==> (#[trigger] vx_gs[j]).t != vx_x.s.t,
@top
    let ghost vx_k = $i - 1;
    assert(vx_gs[$i - 1].t == tmv($x.term) && vx_gs[$i - 1].es == $x.entries@ && vx_g0.bt[vx_d].gs[$i - 1].es.len() > 0);
@post
    proof { if $N { lemma_gidx_is(vx_gs, vx_x.s.t, vx_gs.len() as int); } }
@after $B.entries.push(___)
    proof { lemma_gidx_is(vx_gs, vx_x.s.t, vx_k); }
    assert(hv(*vx_h) =~= hadd(vx_g0, vx_h0, $p3));
@after $B.groups.push(EntryFoldedByTerm ___)
    assert(gpv($B.groups@.last()).es =~= seq![$p3]);
    assert(gpvs($B.groups@) =~= gput(vx_gs, vx_x.s.t, $p3));
    assert(hv(*vx_h) =~= hadd(vx_g0, vx_h0, $p3));
@exit
    proof { if !isop(vx_x.s.t) {
        let g = gsv(*$p1); let a = gadd(vx_g0, vx_h0, $p3);
        assert(g.bt[vx_d].gs =~= a.bt[vx_d].gs);
        assert(g.bt =~= a.bt); assert(g.ix[vx_x.s.t] =~= a.ix[vx_x.s.t]); assert(g.ix =~= a.ix);
        assert(hv(*vx_h) =~= hadd(vx_g0, vx_h0, $p3));
    } }
@@end
// ---------------------------------------------------------------- the invariant of the goal system
pub open spec fn mono(h: Map<VxRef, EntV>, es: Seq<VxRef>) -> bool { h[es[0]].acc == 0real && forall|a: int, b: int| 0 <= a <= b < es.len() ==> h[#[trigger] es[a]].acc <= h[#[trigger] es[b]].acc }
/// a group holds goals of one term (never an op), all of the depth of the batch
pub open spec fn grpok(g: GsV, h: Map<VxRef, EntV>, q: GroupV, i: int) -> bool {
    &&& q.es.len() > 0 && !isop(q.t) && mono(h, q.es)
    &&& forall|k: int| 0 <= k < q.es.len() ==> h.contains_key(#[trigger] q.es[k]) && h[q.es[k]].s.t == q.t && h[q.es[k]].depth >= 0 && gdep(g, h[q.es[k]].depth) == i
}
pub open spec fn batok(g: GsV, h: Map<VxRef, EntV>, b: BatV, i: int) -> bool {
    &&& b.d == i
    &&& forall|j: int| 0 <= j < b.gs.len() ==> grpok(g, h, #[trigger] b.gs[j], i)
    &&& forall|j: int, k: int| 0 <= j < k < b.gs.len() ==> (#[trigger] b.gs[j]).t != (#[trigger] b.gs[k]).t
}
pub open spec fn em(g: GsV) -> vstd::multiset::Multiset<VxRef> { ents(g).to_multiset() }
pub open spec fn bm(g: GsV) -> vstd::multiset::Multiset<VxRef> { bfl(g.bt).to_multiset() }
pub open spec fn twin(a: EntV, t: TermV, ids: Seq<i64>) -> bool { a.s.t == t && a.s.ids == ids }
/// the index finds exactly the goals of the batches
pub open spec fn ixin(g: GsV, t: TermV, r: VxRef) -> bool { g.ix.contains_key(t) && g.ix[t].contains(r) }
pub open spec fn ixok(g: GsV, h: Map<VxRef, EntV>) -> bool { forall|t: TermV, r: VxRef| #[trigger] ixin(g, t, r) <==> bm(g).count(r) > 0 && h[r].s.t == t }
/// no goal is stored twice
pub open spec fn uniq(g: GsV, h: Map<VxRef, EntV>) -> bool {
    &&& forall|r: VxRef| #[trigger] em(g).count(r) <= 1
    &&& forall|r: VxRef, q: VxRef| #[trigger] em(g).count(r) > 0 && #[trigger] em(g).count(q) > 0 && twin(h[r], h[q].s.t, h[q].s.ids) ==> r == q
}
pub open spec fn ginv(g: GsV, h: Map<VxRef, EntV>) -> bool {
    &&& gok(g)
    &&& forall|i: int| 0 <= i < g.bt.len() ==> batok(g, h, #[trigger] g.bt[i], i)
    &&& forall|i: int| 0 <= i < g.act.len() ==> h.contains_key(#[trigger] g.act[i]) && isop(h[g.act[i]].s.t)  && h[g.act[i]].depth >= 0
    &&& ixok(g, h)
    &&& uniq(g, h)
    &&& hin(h, ents(g))
}
pub open spec fn ghas(g: GsV, h: Map<VxRef, EntV>, t: TermV, ids: Seq<i64>) -> bool { exists|r: VxRef| #[trigger] em(g).count(r) > 0 && twin(h[r], t, ids) }
pub proof fn lemma_ms(a: Seq<VxRef>, b: Seq<VxRef>) ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset()) { vstd::seq_lib::lemma_multiset_commutative(a, b); }
pub proof fn lemma_ms_push(a: Seq<VxRef>, e: VxRef) ensures a.push(e).to_multiset() == a.to_multiset().insert(e) { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
pub proof fn lemma_ms_has(a: Seq<VxRef>, e: VxRef) ensures a.contains(e) <==> a.to_multiset().count(e) > 0 { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
/// changing one group (or adding one) changes the contents accordingly
pub proof fn lemma_gfl_upd(g: Seq<GroupV>, k: int, q: GroupV) requires 0 <= k < g.len() ensures gfl(g.update(k, q)).to_multiset().add(g[k].es.to_multiset()) == gfl(g).to_multiset().add(q.es.to_multiset()) decreases g.len()
{
    let u = g.update(k, q);
    lemma_ms(gfl(g.drop_last()), g.last().es); lemma_ms(gfl(u.drop_last()), u.last().es);
    if k < g.len() - 1 { assert(u.drop_last() =~= g.drop_last().update(k, q)); lemma_gfl_upd(g.drop_last(), k, q); } else { assert(u.drop_last() =~= g.drop_last()); }
    let a = gfl(u).to_multiset().add(g[k].es.to_multiset()); let b = gfl(g).to_multiset().add(q.es.to_multiset());
    if k < g.len() - 1 { let c = gfl(u.drop_last()).to_multiset(); let d = gfl(g.drop_last()).to_multiset(); assert(g.drop_last()[k] == g[k]); assert forall|r: VxRef| #[trigger] a.count(r) == b.count(r) by { assert(c.add(g[k].es.to_multiset()).count(r) == d.add(q.es.to_multiset()).count(r)); } }
    assert(a =~= b);
}
pub proof fn lemma_gfl_put(g: Seq<GroupV>, t: TermV, e: VxRef) ensures gfl(gput(g, t, e)).to_multiset() == gfl(g).to_multiset().insert(e)
{
    lemma_gidx(g, t); let k = gidx(g, t); let n = gput(g, t, e);
    if k < g.len() { let q = GroupV { t: g[k].t, es: g[k].es.push(e) }; lemma_gfl_upd(g, k, q); lemma_ms_push(g[k].es, e); 
        let a = gfl(n).to_multiset(); let b = gfl(g).to_multiset(); let c = g[k].es.to_multiset();
        assert(a.add(c) == b.add(c.insert(e)));
        assert forall|r: VxRef| a.count(r) == #[trigger] b.insert(e).count(r) by { assert(a.add(c).count(r) == b.add(c.insert(e)).count(r)); }
        assert(a =~= b.insert(e)); }
    else { assert(n.drop_last() =~= g); lemma_ms(gfl(g), seq![e]); assert(seq![e] =~= Seq::<VxRef>::empty().push(e)); lemma_ms_push(Seq::empty(), e); broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(gfl(n).to_multiset() =~= gfl(g).to_multiset().insert(e)); }
}
pub proof fn lemma_bfl_put(b: Seq<BatV>, d: int, t: TermV, e: VxRef) requires 0 <= d < b.len() ensures bfl(b.update(d, BatV { d: b[d].d, gs: gput(b[d].gs, t, e) })).to_multiset() == bfl(b).to_multiset().insert(e) decreases b.len()
{
    let q = BatV { d: b[d].d, gs: gput(b[d].gs, t, e) }; let u = b.update(d, q);
    lemma_ms(bfl(b.drop_last()), gfl(b.last().gs)); lemma_ms(bfl(u.drop_last()), gfl(u.last().gs));
    if d < b.len() - 1 { assert(u.drop_last() =~= b.drop_last().update(d, q)); lemma_bfl_put(b.drop_last(), d, t, e); } else { assert(u.drop_last() =~= b.drop_last()); lemma_gfl_put(b[d].gs, t, e); }
    assert(bfl(u).to_multiset() =~= bfl(b).to_multiset().insert(e));
}
/// filing a goal adds exactly that goal
pub proof fn lemma_em_add(g: GsV, h: Map<VxRef, EntV>, e: VxRef)
    requires gok(g), h[e].depth >= 0
    ensures !(isop(h[e].s.t) && shas(h, g.act, h[e].s.t, h[e].s.ids)) ==> em(gadd(g, h, e)) == em(g).insert(e), !isop(h[e].s.t) ==> bm(gadd(g, h, e)) == bm(g).insert(e), isop(h[e].s.t) ==> bm(gadd(g, h, e)) == bm(g),
{
    let n = gadd(g, h, e); let x = h[e];
    lemma_ms(bfl(g.bt), g.act); lemma_ms(bfl(n.bt), n.act);
    if isop(x.s.t) { lemma_ms_push(g.act, e); if !shas(h, g.act, x.s.t, x.s.ids) { assert(em(n) =~= em(g).insert(e)); } } else { lemma_bfl_put(g.bt, gdep(g, x.depth), x.s.t, e); assert(em(n) =~= em(g).insert(e)); }
}
pub proof fn lemma_shas(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: TermV, ids: Seq<i64>) ensures shas(h, rs, t, ids) <==> exists|r: VxRef| #[trigger] rs.to_multiset().count(r) > 0 && twin(h[r], t, ids)
{
    if shas(h, rs, t, ids) { let i = choose|i: int| 0 <= i < rs.len() && h[#[trigger] rs[i]].s.t == t && h[rs[i]].s.ids == ids; lemma_ms_has(rs, rs[i]); assert(rs.contains(rs[i])); assert(rs.to_multiset().count(rs[i]) > 0 && twin(h[rs[i]], t, ids)); }
    if exists|r: VxRef| #[trigger] rs.to_multiset().count(r) > 0 && twin(h[r], t, ids) { let r = choose|r: VxRef| #[trigger] rs.to_multiset().count(r) > 0 && twin(h[r], t, ids); lemma_ms_has(rs, r); let i = choose|i: int| 0 <= i < rs.len() && rs[i] == r; assert(h[rs[i]].s.t == t); }
}
pub proof fn lemma_em_split(g: GsV) ensures forall|r: VxRef| #[trigger] em(g).count(r) == bm(g).count(r) + g.act.to_multiset().count(r) { lemma_ms(bfl(g.bt), g.act); }
/// what addEntry consults tells whether the goal is stored
pub proof fn lemma_ghas(g: GsV, h: Map<VxRef, EntV>, t: TermV, ids: Seq<i64>) requires ginv(g, h)
    ensures isop(t) ==> (ghas(g, h, t, ids) <==> shas(h, g.act, t, ids)), !isop(t) ==> (ghas(g, h, t, ids) <==> g.ix.contains_key(t) && shas(h, g.ix[t], t, ids)), !isop(t) ==> !shas(h, g.act, t, ids), isop(t) ==> (g.ix.contains_key(t) ==> !shas(h, g.ix[t], t, ids))
{
    lemma_em_split(g); lemma_shas(h, g.act, t, ids); 
    if g.ix.contains_key(t) { lemma_shas(h, g.ix[t], t, ids); assert forall|r: VxRef| #[trigger] g.ix[t].to_multiset().count(r) > 0 <==> bm(g).count(r) > 0 && h[r].s.t == t by { lemma_ms_has(g.ix[t], r); assert(ixin(g, t, r) <==> bm(g).count(r) > 0 && h[r].s.t == t); } }
    assert forall|r: VxRef| #[trigger] g.act.to_multiset().count(r) > 0 implies isop(h[r].s.t) by { lemma_ms_has(g.act, r); let i = choose|i: int| 0 <= i < g.act.len() && g.act[i] == r; assert(isop(h[g.act[i]].s.t)); }
    assert forall|r: VxRef| #[trigger] bm(g).count(r) > 0 implies !isop(h[r].s.t) by { lemma_bm_in(g, h, r); }
    if ghas(g, h, t, ids) { let r = choose|r: VxRef| #[trigger] em(g).count(r) > 0 && twin(h[r], t, ids); if bm(g).count(r) > 0 { assert(g.ix.contains_key(t) && g.ix[t].contains(r)) by { assert(ixin(g, t, r) <==> bm(g).count(r) > 0 && h[r].s.t == t); } assert(g.ix[t].to_multiset().count(r) > 0); } else { assert(g.act.to_multiset().count(r) > 0); } }
    if isop(t) && shas(h, g.act, t, ids) { let r = choose|r: VxRef| #[trigger] g.act.to_multiset().count(r) > 0 && twin(h[r], t, ids); assert(em(g).count(r) > 0); }
    if !isop(t) && g.ix.contains_key(t) && shas(h, g.ix[t], t, ids) { let r = choose|r: VxRef| #[trigger] g.ix[t].to_multiset().count(r) > 0 && twin(h[r], t, ids); assert(bm(g).count(r) > 0); assert(em(g).count(r) > 0); }
}
pub proof fn lemma_gfl_in(gs: Seq<GroupV>, r: VxRef) requires gfl(gs).contains(r) ensures exists|j: int, k: int| 0 <= j < gs.len() && 0 <= k < gs[j].es.len() && #[trigger] gs[j].es[k] == r decreases gs.len()
{ if gs.len() > 0 { let a = gfl(gs.drop_last()); let p = choose|p: int| 0 <= p < gfl(gs).len() && gfl(gs)[p] == r; if p < a.len() { assert(a[p] == r); lemma_gfl_in(gs.drop_last(), r); let (j, k) = choose|j: int, k: int| 0 <= j < gs.len() - 1 && 0 <= k < gs.drop_last()[j].es.len() && #[trigger] gs.drop_last()[j].es[k] == r; assert(gs[j].es[k] == r); } else { assert(gs[gs.len() - 1].es[p - a.len()] == r); } } }
pub proof fn lemma_bfl_in(b: Seq<BatV>, r: VxRef) requires bfl(b).contains(r) ensures exists|i: int, j: int, k: int| 0 <= i < b.len() && 0 <= j < b[i].gs.len() && 0 <= k < b[i].gs[j].es.len() && #[trigger] b[i].gs[j].es[k] == r decreases b.len()
{ if b.len() > 0 { let a = bfl(b.drop_last()); let p = choose|p: int| 0 <= p < bfl(b).len() && bfl(b)[p] == r; if p < a.len() { assert(a[p] == r); lemma_bfl_in(b.drop_last(), r); let (i, j, k) = choose|i: int, j: int, k: int| 0 <= i < b.len() - 1 && 0 <= j < b.drop_last()[i].gs.len() && 0 <= k < b.drop_last()[i].gs[j].es.len() && #[trigger] b.drop_last()[i].gs[j].es[k] == r; assert(b[i].gs[j].es[k] == r); } else { let l = gfl(b.last().gs); assert(l[p - a.len()] == r); lemma_gfl_in(b.last().gs, r); let (j, k) = choose|j: int, k: int| 0 <= j < b.last().gs.len() && 0 <= k < b.last().gs[j].es.len() && #[trigger] b.last().gs[j].es[k] == r; assert(b[b.len() - 1].gs[j].es[k] == r); } } }
pub proof fn lemma_bm_in(g: GsV, h: Map<VxRef, EntV>, r: VxRef) requires ginv(g, h), bm(g).count(r) > 0 ensures !isop(h[r].s.t), h.contains_key(r), h[r].depth >= 0
{ lemma_ms_has(bfl(g.bt), r); lemma_bfl_in(g.bt, r); let (i, j, k) = choose|i: int, j: int, k: int| 0 <= i < g.bt.len() && 0 <= j < g.bt[i].gs.len() && 0 <= k < g.bt[i].gs[j].es.len() && #[trigger] g.bt[i].gs[j].es[k] == r; assert(batok(g, h, g.bt[i], i)); assert(grpok(g, h, g.bt[i].gs[j], i)); assert(h.contains_key(g.bt[i].gs[j].es[k])); }
/// entries outside the system don't matter
/// what the arrangement of the goals depends on
pub open spec fn fr(a: EntV, b: EntV) -> bool { a.s == b.s && a.depth == b.depth && a.acc == b.acc }
pub proof fn lemma_ginv_frame(g: GsV, h: Map<VxRef, EntV>, h1: Map<VxRef, EntV>) requires ginv(g, h), forall|r: VxRef| #[trigger] em(g).count(r) > 0 ==> h1.contains_key(r) && fr(h1[r], h[r]) ensures ginv(g, h1)
{
    lemma_em_split(g);
    assert forall|i: int, j: int, k: int| 0 <= i < g.bt.len() && 0 <= j < g.bt[i].gs.len() && 0 <= k < g.bt[i].gs[j].es.len() implies h1.contains_key(#[trigger] g.bt[i].gs[j].es[k]) && fr(h1[g.bt[i].gs[j].es[k]], h[g.bt[i].gs[j].es[k]]) by { lemma_bfl_has(g.bt, i, j, k); lemma_ms_has(bfl(g.bt), g.bt[i].gs[j].es[k]); assert(em(g).count(g.bt[i].gs[j].es[k]) > 0); }
    assert forall|i: int| 0 <= i < g.bt.len() implies batok(g, h1, #[trigger] g.bt[i], i) by {
        let b = g.bt[i]; assert(batok(g, h, b, i));
        assert forall|j: int| 0 <= j < b.gs.len() implies grpok(g, h1, #[trigger] b.gs[j], i) by { let q = b.gs[j]; assert(grpok(g, h, q, i)); 
            assert forall|k: int| 0 <= k < q.es.len() implies h1.contains_key(#[trigger] q.es[k]) && fr(h1[q.es[k]], h[q.es[k]]) by { assert(g.bt[i].gs[j].es[k] == q.es[k]); }
            assert(fr(h1[q.es[0]], h[q.es[0]]));
            assert forall|a: int, c: int| 0 <= a <= c < q.es.len() implies h1[#[trigger] q.es[a]].acc <= h1[#[trigger] q.es[c]].acc by { assert(fr(h1[q.es[a]], h[q.es[a]]) && fr(h1[q.es[c]], h[q.es[c]])); }
        }
    }
    assert forall|i: int| 0 <= i < g.act.len() implies h1.contains_key(#[trigger] g.act[i]) && isop(h1[g.act[i]].s.t) && h1[g.act[i]].depth >= 0 by { lemma_ms_has(g.act, g.act[i]); assert(em(g).count(g.act[i]) > 0); }
    assert forall|i: int| 0 <= i < ents(g).len() implies h1.contains_key(#[trigger] ents(g)[i]) by { lemma_ms_has(ents(g), ents(g)[i]); assert(em(g).count(ents(g)[i]) > 0); }
    assert forall|t: TermV, r: VxRef| #[trigger] ixin(g, t, r) <==> bm(g).count(r) > 0 && h1[r].s.t == t by { assert(em(g).count(r) > 0 ==> fr(h1[r], h[r])); assert(ixin(g, t, r) <==> bm(g).count(r) > 0 && h[r].s.t == t); }
}
pub proof fn lemma_gfl_has(gs: Seq<GroupV>, j: int, k: int) requires 0 <= j < gs.len(), 0 <= k < gs[j].es.len() ensures gfl(gs).contains(gs[j].es[k]) decreases gs.len()
{ let a = gfl(gs.drop_last()); if j < gs.len() - 1 { lemma_gfl_has(gs.drop_last(), j, k); let p = choose|p: int| 0 <= p < a.len() && a[p] == gs[j].es[k]; assert(gfl(gs)[p] == gs[j].es[k]); } else { assert(gfl(gs)[a.len() + k] == gs[j].es[k]); } }
pub proof fn lemma_bfl_has(b: Seq<BatV>, i: int, j: int, k: int) requires 0 <= i < b.len(), 0 <= j < b[i].gs.len(), 0 <= k < b[i].gs[j].es.len() ensures bfl(b).contains(b[i].gs[j].es[k]) decreases b.len()
{ let a = bfl(b.drop_last()); let r = b[i].gs[j].es[k]; if i < b.len() - 1 { lemma_bfl_has(b.drop_last(), i, j, k); let p = choose|p: int| 0 <= p < a.len() && a[p] == r; assert(bfl(b)[p] == r); } else { let l = gfl(b.last().gs); lemma_gfl_has(b.last().gs, j, k); let p = choose|p: int| 0 <= p < l.len() && l[p] == r; assert(bfl(b)[a.len() + p] == r); } }
/// filing a goal that isn't stored yet keeps the invariant
pub proof fn lemma_ginv_add(g: GsV, h: Map<VxRef, EntV>, e: VxRef)
    requires ginv(g, h), h.contains_key(e), h[e].depth >= 0, !ghas(g, h, h[e].s.t, h[e].s.ids)
    ensures ginv(gadd(g, h, e), hadd(g, h, e)), em(gadd(g, h, e)) == em(g).insert(e)
{
    let x = h[e]; let n = gadd(g, h, e); let h1 = hadd(g, h, e); let d = gdep(g, x.depth);
    lemma_gok_add(g, h, e); lemma_em_add(g, h, e); lemma_ghas(g, h, x.s.t, x.s.ids);
    assert(em(g).count(e) == 0) by { if em(g).count(e) > 0 { assert(twin(h[e], x.s.t, x.s.ids)); } }
    assert(em(n) == em(g).insert(e));
    lemma_em_split(g); lemma_em_split(n);
    assert forall|r: VxRef| #[trigger] em(g).count(r) > 0 implies h1.contains_key(r) && h1[r] == h[r] && r != e by { lemma_ms_has(ents(g), r); let i = choose|i: int| 0 <= i < ents(g).len() && ents(g)[i] == r; assert(h.contains_key(ents(g)[i])); }
    lemma_ginv_frame(g, h, h1);
    assert(uniq(n, h1)) by {
        assert forall|r: VxRef| #[trigger] em(n).count(r) <= 1 by { assert(em(g).count(r) <= 1); }
        assert forall|r: VxRef, q: VxRef| #[trigger] em(n).count(r) > 0 && #[trigger] em(n).count(q) > 0 && twin(h1[r], h1[q].s.t, h1[q].s.ids) implies r == q by {
            if r != e { assert(em(g).count(r) > 0); } if q != e { assert(em(g).count(q) > 0); }
        }
    }
    assert(hin(h1, ents(n))) by { assert forall|i: int| 0 <= i < ents(n).len() implies h1.contains_key(#[trigger] ents(n)[i]) by { let r = ents(n)[i]; lemma_ms_has(ents(n), r); assert(em(n).count(r) > 0); if r != e { assert(em(g).count(r) > 0); } } }
    if isop(x.s.t) {
        assert forall|i: int| 0 <= i < n.act.len() implies h1.contains_key(#[trigger] n.act[i]) && isop(h1[n.act[i]].s.t) && h1[n.act[i]].depth >= 0 by { if i < g.act.len() { assert(n.act[i] == g.act[i]); } }
        assert forall|i: int| 0 <= i < n.bt.len() implies batok(n, h1, #[trigger] n.bt[i], i) by { assert(batok(g, h1, g.bt[i], i)); lemma_batok_g(g, n, h1, g.bt[i], i); }
        assert forall|t: TermV, r: VxRef| #[trigger] ixin(n, t, r) <==> bm(n).count(r) > 0 && h1[r].s.t == t by { assert(ixin(g, t, r) <==> bm(g).count(r) > 0 && h1[r].s.t == t); }
    } else {
        lemma_gidx(g.bt[d].gs, x.s.t); let gs = g.bt[d].gs; let k = gidx(gs, x.s.t); let ns = n.bt[d].gs;
        assert(batok(g, h1, g.bt[d], d));
        assert(0 <= d < g.bt.len());
        assert forall|i: int| 0 <= i < n.bt.len() implies batok(n, h1, #[trigger] n.bt[i], i) by {
            assert(batok(g, h1, g.bt[i], i)); lemma_batok_g(g, n, h1, g.bt[i], i);
            if i == d {
                assert forall|j: int| 0 <= j < ns.len() implies grpok(n, h1, #[trigger] ns[j], d) by {
                    if j < gs.len() { assert(grpok(g, h1, gs[j], d)); assert(grpok(n, h1, gs[j], d)); }
                    if j == k && k < gs.len() {
                        let o = gs[k].es; let q = ns[k].es;
                        assert(g.bt[d].gs[k].es.len() > 0);
                        lemma_bfl_has(g.bt, d, k, o.len() - 1); lemma_ms_has(bfl(g.bt), o.last()); assert(em(g).count(o.last()) > 0);
                        assert(h1[o.last()] == h[o.last()]);
                        assert forall|m: int| 0 <= m < q.len() implies h1.contains_key(#[trigger] q[m]) && h1[q[m]].s.t == ns[k].t && h1[q[m]].depth >= 0 && gdep(n, h1[q[m]].depth) == d by { if m < o.len() { assert(q[m] == o[m]); assert(h1.contains_key(o[m])); } }
                        assert(q[0] == o[0]);
                        assert forall|m: int, p: int| 0 <= m <= p < q.len() implies h1[#[trigger] q[m]].acc <= h1[#[trigger] q[p]].acc by { if m < o.len() { assert(q[m] == o[m]); assert(h1[o[m]].acc <= h1[o[o.len() - 1]].acc); } if p < o.len() { assert(q[p] == o[p]); assert(h1[o[m]].acc <= h1[o[p]].acc); } else { assert(q[p] == e); } }
                    }
                    if j == gs.len() { let q = ns[j].es; assert(q.len() == 1 && q[0] == e); }
                }
                assert forall|a: int, c: int| 0 <= a < c < ns.len() implies (#[trigger] ns[a]).t != (#[trigger] ns[c]).t by { assert(gs[a].t == ns[a].t); if c < gs.len() { assert(gs[c].t == ns[c].t); } }
            }
        }
        assert forall|i: int| 0 <= i < n.act.len() implies h1.contains_key(#[trigger] n.act[i]) && isop(h1[n.act[i]].s.t) && h1[n.act[i]].depth >= 0 by { assert(n.act[i] == g.act[i]); }
        assert forall|t: TermV, r: VxRef| #[trigger] ixin(n, t, r) <==> bm(n).count(r) > 0 && h1[r].s.t == t by {
            assert(ixin(g, t, r) <==> bm(g).count(r) > 0 && h1[r].s.t == t);
            assert(bm(n).count(r) > 0 <==> bm(g).count(r) > 0 || r == e);
            if t == x.s.t { let o = if g.ix.contains_key(t) { g.ix[t] } else { Seq::empty() }; assert(n.ix[t] == o.push(e)); assert(o.push(e).contains(r) <==> o.contains(r) || r == e) by { if o.contains(r) { let p = choose|p: int| 0 <= p < o.len() && o[p] == r; assert(o.push(e)[p] == r); } if r == e { assert(o.push(e)[o.len() as int] == e); } } }
        }
    }
}
pub proof fn lemma_batok_g(g: GsV, n: GsV, h: Map<VxRef, EntV>, b: BatV, i: int) requires batok(g, h, b, i), n.ndep == g.ndep ensures batok(n, h, b, i)
{ assert forall|j: int| 0 <= j < b.gs.len() implies grpok(n, h, #[trigger] b.gs[j], i) by { assert(grpok(g, h, b.gs[j], i)); } }
pub open spec fn hkeep(h: Map<VxRef, EntV>, h1: Map<VxRef, EntV>) -> bool { forall|r: VxRef| #![trigger h1[r]] #![trigger h.contains_key(r)] h.contains_key(r) ==> h1.contains_key(r) && h1[r] == h[r] }
/// the entry made for a new goal
pub open spec fn sva(a: Arc<Sentence>) -> SenV { sv(*a) }
pub open spec fn newent(s: SenV, evi: Option<Arc<Sentence>>, t: int, depth: int, acc: real) -> EntV { EntV { s, evi, create: t, depth, des: 1real, util: 1real, acc } }
/// a goal that is already stored changes nothing; another one is filed once, with full desirability
pub open spec fn added(g: GsV, h: Map<VxRef, EntV>, g1: GsV, h1: Map<VxRef, EntV>, s: SenV, evi: Option<Arc<Sentence>>, t: int, depth: int) -> bool {
    &&& ginv(g1, h1)
    &&& g1.nmax == g.nmax && g1.ndep == g.ndep && g1.sat == g.sat
    &&& hkeep(h, h1)
    &&& ghas(g, h, s.t, s.ids) ==> g1 == g
    &&& !ghas(g, h, s.t, s.ids) ==> exists|e: VxRef| !h.contains_key(e) && h1.contains_key(e) && #[trigger] em(g).insert(e) == em(g1) && h1[e] == newent(s, evi, t, depth, h1[e].acc)
}
pub proof fn lemma_new(g: GsV, h: Map<VxRef, EntV>, e: VxRef, s: SenV, evi: Option<Arc<Sentence>>, t: int, depth: int)
    requires ginv(g, h), !h.contains_key(e), depth >= 0, ghas(g, h, s.t, s.ids) ==> isop(s.t)
    ensures ({ let k = h.insert(e, newent(s, evi, t, depth, 0real)); added(g, h, gadd(g, k, e), hadd(g, k, e), s, evi, t, depth) })
{
    let x = newent(s, evi, t, depth, 0real); let k = h.insert(e, x); let g1 = gadd(g, k, e); let h1 = hadd(g, k, e);
    assert forall|r: VxRef| #[trigger] em(g).count(r) > 0 implies k.contains_key(r) && k[r] == h[r] by { lemma_ms_has(ents(g), r); let i = choose|i: int| 0 <= i < ents(g).len() && ents(g)[i] == r; assert(h.contains_key(ents(g)[i])); }
    lemma_ginv_frame(g, h, k);
    lemma_ghas(g, k, s.t, s.ids);
    if ghas(g, h, s.t, s.ids) { let r = choose|r: VxRef| #[trigger] em(g).count(r) > 0 && twin(h[r], s.t, s.ids); assert(em(g).count(r) > 0 && twin(k[r], s.t, s.ids)); }
    if ghas(g, k, s.t, s.ids) { let r = choose|r: VxRef| #[trigger] em(g).count(r) > 0 && twin(k[r], s.t, s.ids); assert(em(g).count(r) > 0 && twin(h[r], s.t, s.ids)); }
    else { lemma_ginv_add(g, k, e); assert(em(g).insert(e) == em(g1)); }
}
@@fn src/NarGoalSystem.rs addEntry heap deeplock erase
@contract
    requires ginv(gsv(*old($p1)), hv(*old(vx_h))), $p4.punct == EnumPunctation::GOAL, $p6 >= 0
    ensures added(gsv(*old($p1)), hv(*old(vx_h)), gsv(*final($p1)), hv(*final(vx_h)), sva($p4), $p5, $p3 as int, $p6 as int)
@entry
    let ghost vx_g0 = gsv(*old($p1));
    let ghost vx_h0 = hv(*old(vx_h));
    let ghost vx_s = sva($p4);
    let ghost vx_ev = $p5;
    broadcast use {lemma_hv_ins, lemma_hv};
    proof { lemma_ghas(vx_g0, vx_h0, vx_s.t, vx_s.ids); }
@loop known
@when $V = true
@inv
      !$V ==> forall|q: int| 0 <= q < $i ==> !twin(hv(*vx_h)[#[trigger] $e@[q]], vx_s.t, vx_s.ids),
      $V ==> shas(hv(*vx_h), $e@, vx_s.t, vx_s.ids),
      hv(*vx_h) == vx_h0,
@loop known2
@inv
      forall|q: int| 0 <= q < $i ==> !twin(hv(*vx_h)[#[trigger] $e@[q]], vx_s.t, vx_s.ids),
      hv(*vx_h) == vx_h0,
@before addEntry2(___)
    assert(gsv(*$p1).ix =~= vx_g0.ix);
@exit
    proof {
        let g1 = gsv(*$p1); let h1 = hv(*vx_h);
        if h1.dom() == vx_h0.dom() {
            assert(g1.ix =~= vx_g0.ix); assert(g1 == vx_g0); assert(h1 =~= vx_h0);
        } else {
            let z = newent(vx_s, vx_ev, $p3 as int, $p6 as int, 0real);
            let e = choose|e: VxRef| !vx_h0.contains_key(e) && g1 == gadd(vx_g0, vx_h0.insert(e, z), e) && h1 == #[trigger] hadd(vx_g0, vx_h0.insert(e, z), e);
            lemma_new(vx_g0, vx_h0, e, vx_s, vx_ev, $p3 as int, $p6 as int);
        }
    }
@@end

// ---------------------------------------------------------------- limiting
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
/// the utility of a goal: expectation, times how much it is (still) desired, decaying with its age
pub open spec fn s_util(x: EntV, t: int) -> real { s_exp(etv(x.s.e->0)) * rabs(x.des) * rexp((t - x.create) as real * -(1real / 100real)) }
pub open spec fn hrec(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: int) -> Map<VxRef, EntV> {
    Map::new(h.dom(), |r: VxRef| if rs.contains(r) { EntV { util: s_util(h[r], t), ..h[r] } } else { h[r] })
}
pub open spec fn kut(h: Map<VxRef, EntV>) -> spec_fn(VxRef) -> real { |r: VxRef| h[r].util }
pub open spec fn gempty(g: GsV) -> GsV { GsV { act: Seq::empty(), bt: gbats(g.ndep), ix: Map::empty(), ..g } }
pub open spec fn gbats(n: int) -> Seq<BatV> { Seq::new(n as nat, |i: int| BatV { d: i, gs: Seq::empty() }) }
pub open spec fn gfill(g: GsV, h: Map<VxRef, EntV>, rs: Seq<VxRef>) -> (GsV, Map<VxRef, EntV>) decreases rs.len() {
    if rs.len() == 0 { (g, h) } else { let p = gfill(g, h, rs.drop_last()); (gadd(p.0, p.1, rs.last()), hadd(p.0, p.1, rs.last())) }
}
/// the goals that are kept: the best by utility
pub open spec fn gkeep(g: GsV, h: Map<VxRef, EntV>, t: int) -> Seq<VxRef> { top(ksort(ents(g), kut(hrec(h, ents(g), t))), g.nmax) }
pub open spec fn glim(g: GsV, h: Map<VxRef, EntV>, t: int) -> (GsV, Map<VxRef, EntV>) { gfill(gempty(g), hrec(h, ents(g), t), gkeep(g, h, t)) }
pub open spec fn entok(x: EntV, t: int) -> bool { x.s.e is Some && evok(x.s.e->0) && x.depth >= 0 && i64::MIN <= t - x.create <= i64::MAX }
pub open spec fn entsok(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: int) -> bool { forall|i: int| 0 <= i < rs.len() ==> h.contains_key(#[trigger] rs[i]) && entok(h[rs[i]], t) }
pub proof fn lemma_hrec0(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: int) ensures hrec(h, rs.take(0), t) == h { assert(hrec(h, rs.take(0), t) =~= h); }
pub proof fn lemma_take_has(rs: Seq<VxRef>, i: int) requires 0 <= i < rs.len() ensures forall|r: VxRef| rs.take(i + 1).contains(r) <==> #[trigger] rs.take(i).contains(r) || r == rs[i]
{ assert forall|r: VxRef| rs.take(i + 1).contains(r) <==> #[trigger] rs.take(i).contains(r) || r == rs[i] by {
        if rs.take(i).contains(r) { let k = choose|k: int| 0 <= k < i && rs.take(i)[k] == r; assert(rs.take(i + 1)[k] == r); }
        if r == rs[i] { assert(rs.take(i + 1)[i] == r); }
        if rs.take(i + 1).contains(r) && r != rs[i] { let n = rs.take(i + 1); let k = choose|k: int| 0 <= k < n.len() && n[k] == r; assert(rs.take(i)[k] == r); }
    } }
pub proof fn lemma_hrec1(h: Map<VxRef, EntV>, rs: Seq<VxRef>, t: int, i: int)
    requires 0 <= i < rs.len(), h.contains_key(rs[i])
    ensures ({ let p = hrec(h, rs.take(i), t); let n = hrec(h, rs.take(i + 1), t); n == p.insert(rs[i], n[rs[i]]) && n[rs[i]] == (EntV { util: s_util(p[rs[i]], t), ..p[rs[i]] }) && p.contains_key(rs[i]) && p[rs[i]] == (EntV { util: p[rs[i]].util, ..h[rs[i]] }) })
{ let p = hrec(h, rs.take(i), t); let n = hrec(h, rs.take(i + 1), t); lemma_take_has(rs, i); assert(rs.take(i + 1)[i] == rs[i]); assert(n =~= p.insert(rs[i], n[rs[i]])); }
pub proof fn lemma_gok_add(g: GsV, h: Map<VxRef, EntV>, e: VxRef) requires gok(g), h[e].depth >= 0 ensures gok(gadd(g, h, e))
{
    let x = h[e]; let d = gdep(g, x.depth); let n = gadd(g, h, e);
    if !isop(x.s.t) { lemma_gidx(g.bt[d].gs, x.s.t);
        assert forall|i: int, j: int| 0 <= i < n.bt.len() && 0 <= j < n.bt[i].gs.len() implies (#[trigger] n.bt[i].gs[j]).es.len() > 0 by { if i != d { assert(n.bt[i].gs[j] == g.bt[i].gs[j]); } else if j < g.bt[d].gs.len() { assert(g.bt[i].gs[j].es.len() > 0); } } }
}
/// everything but the bookkeeping of sampling and utility
pub open spec fn same_goal(a: EntV, b: EntV) -> bool { a.s == b.s && a.evi == b.evi && a.create == b.create && a.depth == b.depth && a.des == b.des }
pub open spec fn same_goals(h0: Map<VxRef, EntV>, h1: Map<VxRef, EntV>) -> bool { h0.dom() == h1.dom() && forall|r: VxRef| h0.contains_key(r) ==> same_goal(h0[r], #[trigger] h1[r]) }
pub open spec fn same_acc(h0: Map<VxRef, EntV>, h1: Map<VxRef, EntV>) -> bool { h0.dom() == h1.dom() && forall|r: VxRef| h0.contains_key(r) ==> #[trigger] h1[r] == (EntV { acc: h1[r].acc, ..h0[r] }) }
pub proof fn lemma_gfill(g: GsV, h: Map<VxRef, EntV>, rs: Seq<VxRef>)
    requires gok(g), forall|i: int| 0 <= i < rs.len() ==> h.contains_key(#[trigger] rs[i]) && h[rs[i]].depth >= 0
    ensures gok(gfill(g, h, rs).0), same_acc(h, gfill(g, h, rs).1), gfill(g, h, rs).0.nmax == g.nmax, gfill(g, h, rs).0.ndep == g.ndep, gfill(g, h, rs).0.sat == g.sat
    decreases rs.len()
{
    if rs.len() > 0 { let d = rs.drop_last(); assert forall|i: int| 0 <= i < d.len() implies h.contains_key(#[trigger] d[i]) && h[d[i]].depth >= 0 by { assert(rs[i] == d[i]); } lemma_gfill(g, h, d); let p = gfill(g, h, d); assert(h.contains_key(rs[rs.len() - 1])); lemma_gok_add(p.0, p.1, rs.last()); assert(gfill(g, h, rs).1.dom() =~= h.dom()); }
    else { assert(h.dom() == h.dom()); }
}
pub proof fn lemma_gfill_take(g: GsV, h: Map<VxRef, EntV>, rs: Seq<VxRef>, i: int) requires 0 <= i < rs.len() ensures gfill(g, h, rs.take(i + 1)) == (gadd(gfill(g, h, rs.take(i)).0, gfill(g, h, rs.take(i)).1, rs[i]), hadd(gfill(g, h, rs.take(i)).0, gfill(g, h, rs.take(i)).1, rs[i]))
{ assert(rs.take(i + 1).drop_last() =~= rs.take(i)); }
pub proof fn lemma_gkeep(g: GsV, h: Map<VxRef, EntV>, t: int) requires gok(g), entsok(h, ents(g), t)
    ensures forall|i: int| 0 <= i < gkeep(g, h, t).len() ==> h.contains_key(#[trigger] gkeep(g, h, t)[i]) && entok(h[gkeep(g, h, t)[i]], t) && ents(g).contains(gkeep(g, h, t)[i])
{ let k = kut(hrec(h, ents(g), t)); let s = ents(g); lemma_ksort(s, k); assert forall|i: int| 0 <= i < gkeep(g, h, t).len() implies h.contains_key(#[trigger] gkeep(g, h, t)[i]) && entok(h[gkeep(g, h, t)[i]], t) && s.contains(gkeep(g, h, t)[i]) by { lemma_ksort_in(s, k, i); let q = ksort(s, k); assert(gkeep(g, h, t)[i] == q[i]); let j = choose|j: int| 0 <= j < s.len() && s[j] == q[i]; assert(h.contains_key(s[j])); } }
pub proof fn lemma_bat(b: Seq<BatchByDepth>, x: BatchByDepth, n: int) requires n >= 0, btvs(b) == gbats(n), x.groups@.len() == 0, x.depth == n ensures btvs(b.push(x)) == gbats(n + 1) { broadcast use {lemma_gpvs, lemma_btvs}; assert(gpvs(x.groups@) =~= Seq::empty()); assert(btvs(b).len() == gbats(n).len()); assert forall|i: int| 0 <= i < n implies btv(#[trigger] b[i]) == gbats(n)[i] by { assert(btvs(b)[i] == gbats(n)[i]); } assert forall|i: int| 0 <= i < n + 1 implies #[trigger] btvs(b.push(x))[i] == gbats(n + 1)[i] by { if i < n { assert(b.push(x)[i] == b[i]); assert(btv(b[i]) == gbats(n)[i]); } } assert(btvs(b.push(x)) =~= gbats(n + 1)); }
pub open spec fn uniqm(h: Map<VxRef, EntV>, m: vstd::multiset::Multiset<VxRef>) -> bool {
    &&& forall|r: VxRef| #[trigger] m.count(r) <= 1
    &&& forall|r: VxRef, q: VxRef| #[trigger] m.count(r) > 0 && #[trigger] m.count(q) > 0 && twin(h[r], h[q].s.t, h[q].s.ids) ==> r == q
}
pub proof fn lemma_empty_inv(g: GsV, h: Map<VxRef, EntV>) requires g.ndep >= 1, g.nmax >= 0 ensures ginv(gempty(g), h), em(gempty(g)) == Seq::<VxRef>::empty().to_multiset()
{
    let e = gempty(g); lemma_bfl_none(g.ndep); assert(bfl(e.bt) =~= Seq::empty()); assert(ents(e) =~= Seq::empty()); broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|r: VxRef| #[trigger] em(e).count(r) == 0 by { lemma_ms_has(ents(e), r); }
    assert forall|t: TermV, r: VxRef| #[trigger] ixin(e, t, r) <==> bm(e).count(r) > 0 && h[r].s.t == t by { lemma_ms_has(bfl(e.bt), r); }
}
pub proof fn lemma_bfl_none(n: int) requires n >= 0 ensures bfl(gbats(n)).len() == 0 decreases n { if n > 0 { assert(gbats(n).drop_last() =~= gbats(n - 1)); lemma_bfl_none(n - 1); } }
pub proof fn lemma_fill_inv(g: GsV, h: Map<VxRef, EntV>, rs: Seq<VxRef>)
    requires g.ndep >= 1, g.nmax >= 0, uniqm(h, rs.to_multiset()), forall|i: int| 0 <= i < rs.len() ==> h.contains_key(#[trigger] rs[i]) && h[rs[i]].depth >= 0
    ensures ginv(gfill(gempty(g), h, rs).0, gfill(gempty(g), h, rs).1), em(gfill(gempty(g), h, rs).0) == rs.to_multiset()
    decreases rs.len()
{
    lemma_empty_inv(g, h);
    if rs.len() == 0 { assert(rs =~= Seq::empty()); }
    else {
        let d = rs.drop_last(); let x = rs.last(); let p = gfill(gempty(g), h, d);
        assert(rs =~= d.push(x)); lemma_ms_push(d, x);
        assert forall|i: int| 0 <= i < d.len() implies h.contains_key(#[trigger] d[i]) && h[d[i]].depth >= 0 by { assert(rs[i] == d[i]); }
        let m = rs.to_multiset(); let k = d.to_multiset();
        assert(m == k.insert(x));
        assert forall|r: VxRef| #[trigger] k.count(r) <= 1 by { assert(m.count(r) <= 1); }
        assert forall|r: VxRef, q: VxRef| #[trigger] k.count(r) > 0 && #[trigger] k.count(q) > 0 && twin(h[r], h[q].s.t, h[q].s.ids) implies r == q by { assert(m.count(r) > 0 && m.count(q) > 0); }
        lemma_fill_inv(g, h, d); lemma_gfill(gempty(g), h, d);
        assert(h.contains_key(rs[rs.len() - 1]));
        assert(p.1[x] == (EntV { acc: p.1[x].acc, ..h[x] }));
        if ghas(p.0, p.1, h[x].s.t, h[x].s.ids) {
            let r = choose|r: VxRef| #[trigger] em(p.0).count(r) > 0 && twin(p.1[r], h[x].s.t, h[x].s.ids);
            assert(k.count(r) > 0); lemma_ms_has(d, r); let i = choose|i: int| 0 <= i < d.len() && d[i] == r; assert(h.contains_key(d[i]));
            assert(p.1[r] == (EntV { acc: p.1[r].acc, ..h[r] })); assert(m.count(r) > 0 && m.count(x) > 0); assert(r == x); assert(m.count(x) <= 1); assert(false);
        }
        lemma_ginv_add(p.0, p.1, x);
    }
}
/// limiting keeps the best goals (all of them while there is room), changes nothing about them, and invents none
pub proof fn lemma_limit(g: GsV, h: Map<VxRef, EntV>, t: int)
    requires ginv(g, h), entsok(h, ents(g), t)
    ensures ({ let g1 = glim(g, h, t).0; let h1 = glim(g, h, t).1;
        &&& ginv(g1, h1) && g1.nmax == g.nmax && g1.ndep == g.ndep && g1.sat == g.sat
        &&& same_goals(h, h1)
        &&& em(g1).len() == imin(em(g).len() as int, g.nmax)
        &&& em(g).len() <= g.nmax ==> em(g1) == em(g)
        &&& forall|r: VxRef| #[trigger] em(g1).count(r) <= em(g).count(r)
        &&& forall|r: VxRef| em(g).count(r) > 0 ==> #[trigger] h1[r].util == s_util(h[r], t)
        &&& forall|r: VxRef, q: VxRef| em(g).count(r) > 0 && #[trigger] em(g1).count(r) == 0 && #[trigger] em(g1).count(q) > 0 ==> h1[r].util <= h1[q].util })
{
    let es = ents(g); let h0 = hrec(h, es, t); let key = kut(h0); let so = ksort(es, key); let kp = gkeep(g, h, t); let m = kp.to_multiset();
    lemma_ksort(es, key); lemma_gkeep(g, h, t);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(so.to_multiset() == em(g));
    let rest = if so.len() <= g.nmax { Seq::empty() } else { so.skip(g.nmax) };
    assert(so =~= kp + rest); lemma_ms(kp, rest);
    assert forall|r: VxRef| #[trigger] m.count(r) <= em(g).count(r) by { assert(em(g).count(r) == m.count(r) + rest.to_multiset().count(r)); }
    assert forall|r: VxRef| em(g).count(r) > 0 implies h.contains_key(r) && #[trigger] h0[r] == (EntV { util: s_util(h[r], t), ..h[r] }) by { lemma_ms_has(es, r); let i = choose|i: int| 0 <= i < es.len() && es[i] == r; assert(h.contains_key(es[i])); }
    assert(uniqm(h0, m)) by {
        assert forall|r: VxRef| #[trigger] m.count(r) <= 1 by { assert(em(g).count(r) <= 1); }
        assert forall|r: VxRef, q: VxRef| #[trigger] m.count(r) > 0 && #[trigger] m.count(q) > 0 && twin(h0[r], h0[q].s.t, h0[q].s.ids) implies r == q by { assert(em(g).count(r) > 0 && em(g).count(q) > 0); assert(h0[r].s == h[r].s && h0[q].s == h[q].s); }
    }
    assert forall|i: int| 0 <= i < kp.len() implies h0.contains_key(#[trigger] kp[i]) && h0[kp[i]].depth >= 0 by { assert(h.contains_key(kp[i])); lemma_ms_has(es, kp[i]); }
    lemma_fill_inv(g, h0, kp); lemma_empty_inv(g, h0);
    lemma_gfill(gempty(g), h0, kp);
    let h1 = glim(g, h, t).1; let g1 = glim(g, h, t).0;
    assert(same_acc(h0, h1));
    assert(h0.dom() == h.dom());
    assert forall|r: VxRef| h.contains_key(r) implies same_goal(h[r], #[trigger] h1[r]) by { assert(h1[r] == (EntV { acc: h1[r].acc, ..h0[r] })); }
    assert forall|r: VxRef| em(g).count(r) > 0 implies #[trigger] h1[r].util == s_util(h[r], t) by { assert(h1[r] == (EntV { acc: h1[r].acc, ..h0[r] })); assert(h0[r] == (EntV { util: s_util(h[r], t), ..h[r] })); }
    assert forall|r: VxRef, q: VxRef| em(g).count(r) > 0 && #[trigger] em(g1).count(r) == 0 && #[trigger] em(g1).count(q) > 0 implies h1[r].util <= h1[q].util by {
        assert(rest.to_multiset().count(r) > 0); lemma_ms_has(rest, r); lemma_ms_has(kp, q);
        let i = choose|i: int| 0 <= i < rest.len() && rest[i] == r; let j = choose|j: int| 0 <= j < kp.len() && kp[j] == q;
        assert(so[j] == q && so[g.nmax + i] == r); assert(key(so[j]) >= key(so[g.nmax + i]));
        assert(em(g).count(q) > 0); assert(h1[r] == (EntV { acc: h1[r].acc, ..h0[r] }) && h1[q] == (EntV { acc: h1[q].acc, ..h0[q] }));
    }
    if em(g).len() <= g.nmax { assert(rest =~= Seq::empty()); assert(m =~= em(g)); }
}
#[verifier::external_body]
pub fn vx_sort_utility_desc(v: &mut Vec<VxRef>, h: &VxHeap) ensures final(v)@ == ksort(old(v)@, kut(hv(*h))) { loop {} }
@@fn src/NarGoalSystem.rs limitMemory as limitGoals heap deeplock erase
@byval arr
@contract
    requires gok(gsv(*old($p1))), entsok(hv(*old(vx_h)), ents(gsv(*old($p1))), $p3 as int), ents(gsv(*old($p1))).len() <= i64::MAX
    ensures (gsv(*final($p1)), hv(*final(vx_h))) == glim(gsv(*old($p1)), hv(*old(vx_h)), $p3 as int)
@entry
    let ghost vx_g0 = gsv(*old($p1));
    let ghost vx_h0 = hv(*old(vx_h));
    let ghost vx_es = ents(vx_g0);
    let ghost vx_h1 = hrec(vx_h0, vx_es, $p3 as int);
    let ghost vx_srt = ksort(vx_es, kut(vx_h1));
    let ghost vx_kp = gkeep(vx_g0, vx_h0, $p3 as int);
    broadcast use {lemma_hv_ins, lemma_hv, lemma_gpvs, lemma_btvs};
    proof { lemma_ksort(vx_es, kut(vx_h1)); lemma_gkeep(vx_g0, vx_h0, $p3 as int); }
@loop recalc
@when utility = ___
@pre
    proof { lemma_hrec0(vx_h0, vx_es, $p3 as int); }
@inv
      $e@ == vx_es, hv(*vx_h) == hrec(vx_h0, vx_es.take($i as int), $p3 as int), entsok(vx_h0, vx_es, $p3 as int),
@top
    assert($e@[$i - 1] == vx_es[$i - 1] && vx_h0.contains_key(vx_es[$i - 1]) && entok(vx_h0[vx_es[$i - 1]], $p3 as int));
    proof { lemma_hrec1(vx_h0, vx_es, $p3 as int, $i - 1); }
@bot
    assert(hv(*vx_h) =~= hrec(vx_h0, vx_es.take($i as int), $p3 as int));
@post
    assert(vx_es.take($n as int) =~= vx_es);
@loop cut
@when arr.remove(___)
@inv
      top(arr@, vx_g0.nmax) =~= vx_kp, arr@.len() <= i64::MAX, gsv(*$p1) == vx_g0, hv(*vx_h) == vx_h1,
    decreases arr@.len()
@loop batches
@when batchesByDepth.push(___)
@inv
      btvs($p1.batchesByDepth@) =~= gbats($i as int), gok(vx_g0), $p1.activeSet.set == old($p1).activeSet.set, $p1.entriesByTerm == old($p1).entriesByTerm, $p1.nMaxEntries == old($p1).nMaxEntries, $p1.nMaxDepth == old($p1).nMaxDepth, $p1.cfg__enGoalSatisfaction == old($p1).cfg__enGoalSatisfaction,
@top
    let ghost vx_b0 = $p1.batchesByDepth@;
@bot
    proof { lemma_bat(vx_b0, $p1.batchesByDepth@.last(), $i - 1); }
@loop fill
@when addEntry2(___)
@pre
    assert(vx_kp =~= $e@);
    assert(gsv(*$p1).ix =~= Map::empty());
    assert(gsv(*$p1).act =~= Seq::empty());
    assert(gsv(*$p1) == gempty(vx_g0));
    assert($e@.take(0) =~= Seq::empty());
    proof { assert(gok(gempty(vx_g0))); }
@inv
      vx_kp == $e@, gok(gempty(vx_g0)), (gsv(*$p1), hv(*vx_h)) == gfill(gempty(vx_g0), vx_h1, $e@.take($i as int)),
@top
    proof {
        let d = $e@.take($i - 1);
        assert forall|i: int| 0 <= i < d.len() implies vx_h1.contains_key(#[trigger] d[i]) && vx_h1[d[i]].depth >= 0 by { assert(vx_kp[i] == d[i]); }
        lemma_gfill(gempty(vx_g0), vx_h1, d); lemma_gfill_take(gempty(vx_g0), vx_h1, $e@, $i - 1);
        assert(vx_h1.contains_key(vx_kp[$i - 1]));
    }
@post
    assert($e@.take($n as int) =~= vx_kp);
@@end
@@fn src/NarGoalSystem.rs makeGoalSystem heap
@contract
    requires $p2 >= 1
    ensures gsv($r) == gempty(GsV { act: Seq::empty(), bt: Seq::empty(), ix: Map::empty(), nmax: $p1 as int, ndep: $p2 as int, sat: true })
@loop batches
@inv
      btvs($V@) =~= gbats($i as int),
@when $V.push(___)
@top
    let ghost vx_b0 = $V@;
@bot
    proof { lemma_bat(vx_b0, $V@.last(), $i - 1); }
@exit
    assert(gsv($r).ix =~= Map::empty());
    assert(gsv($r).act =~= Seq::empty());
    assert(gsv($r).bt =~= gbats($p2 as int));
@@end

// ---------------------------------------------------------------- decision making: the goal for a state
pub open spec fn s_sub(k: Seq<TermV>) -> TermV { if k.len() == 1 { k[0] } else { TermV { tag: 2, num: 0, name: Seq::empty(), kids: k } } }
@@fn src/NarGoalSystem.rs retSubSeqAsSeqOrTerm
@contract
    ensures tmv($r) == s_sub(tmvs($p1@))
@exit
    assert($p1@.len() != 1 ==> tmv($r).kids =~= tmvs($p1@));
@@end
/// the goal (a, .., ^op)! applies to the state when (a, ..) unifies with it
pub open spec fn goal_pre(x: EntV) -> TermV { s_sub(x.s.t.kids.drop_last()) }
pub open spec fn applies(x: EntV, state: TermV) -> bool { x.s.t.tag == 2 && x.s.t.kids.len() >= 1 && uok(goal_pre(x), state) }
pub open spec fn x_exp(x: EntV) -> real { s_exp(etv(x.s.e->0)) }
pub open spec fn rated(h: Map<VxRef, EntV>, rs: Seq<VxRef>) -> bool { forall|i: int| 0 <= i < rs.len() ==> h.contains_key(#[trigger] rs[i]) && h[rs[i]].s.e is Some && evok(h[rs[i]].s.e->0) }
pub open spec fn beste(h: Map<VxRef, EntV>, rs: Seq<VxRef>, state: TermV, e: real, r: Option<(VxRef, TermV)>) -> bool {
    &&& e >= 0real
    &&& forall|i: int| 0 <= i < rs.len() ==> (applies(h[#[trigger] rs[i]], state) ==> x_exp(h[rs[i]]) <= e)
    &&& r is None ==> e == 0real
    &&& r is Some ==> rs.contains((r->0).0) && applies(h[(r->0).0], state) && e == x_exp(h[(r->0).0]) && e > 0real && (r->0).1 == app(h[(r->0).0].s.t, mgm(goal_pre(h[(r->0).0]), state))
}
pub open spec fn optv(o: Option<(VxRef, Term)>) -> Option<(VxRef, TermV)> { match o { Some(x) => Some((x.0, tmv(x.1))), None => None } }
pub proof fn lemma_beste(h: Map<VxRef, EntV>, rs: Seq<VxRef>, st: TermV, i: int, e0: real, r0: Option<(VxRef, TermV)>, e1: real, r1: Option<(VxRef, TermV)>)
    requires 0 <= i < rs.len(), beste(h, rs.take(i), st, e0, r0), ({ let x = h[rs[i]]; if applies(x, st) && x_exp(x) > e0 { e1 == x_exp(x) && r1 == Some((rs[i], app(x.s.t, mgm(goal_pre(x), st)))) } else { e1 == e0 && r1 == r0 } })
    ensures beste(h, rs.take(i + 1), st, e1, r1)
{ lemma_take_has(rs, i); let a = rs.take(i + 1); assert forall|j: int| 0 <= j < a.len() && applies(h[#[trigger] a[j]], st) implies x_exp(h[a[j]]) <= e1 by { if j < i { assert(a[j] == rs.take(i)[j]); } } assert(a[i] == rs[i]); assert(a.contains(rs[i])); if r0 is Some { assert(rs.take(i).contains((r0->0).0)); } }
@@fn src/NarGoalSystem.rs selHighestExpGoalByState heap
@contract
    requires rated(hv(*vx_h), ents(gsv(*$p1)))
    ensures beste(hv(*vx_h), ents(gsv(*$p1)), tmv(*$p2), $r.0@, optv($r.1))
@entry
    broadcast use lemma_hv;
    let ghost vx_es = ents(gsv(*$p1));
    let ghost vx_hh = hv(*vx_h);
    let ghost vx_st = tmv(*$p2);
@loop all
@when $V = (___)
@inv
      $e@ == vx_es, hv(*vx_h) == vx_hh, vx_st == tmv(*$p2),
      rated(vx_hh, vx_es),
      beste(vx_hh, vx_es.take($i as int), vx_st, $V.0@, optv($V.1)),
@top
    let ghost vx_x = vx_hh[vx_es[$i - 1]];
    assert($e@[$i - 1] == vx_es[$i - 1] && vx_hh.contains_key(vx_es[$i - 1]));
    let ghost vx_p0 = ($V.0@, optv($V.1));
    assert(vx_x.s.t.tag == 2 && vx_x.s.t.kids.len() >= 1 ==> tmvs((*$x.vx_at(vx_h).sentence.term)->Seq_0@.subrange(0, vx_x.s.t.kids.len() - 1)) =~= vx_x.s.t.kids.drop_last());
@bot
    proof { lemma_beste(vx_hh, vx_es, vx_st, $i - 1, vx_p0.0, vx_p0.1, $V.0@, optv($V.1)); }
@post
    assert(vx_es.take($n as int) =~= vx_es);
@@end

// ---------------------------------------------------------------- every history of the goal system
pub open spec fn rateds(s: SenV) -> bool { s.e is Some && evok(s.e->0) }
pub open spec fn okg(s: SenV) -> bool { rateds(s) && s.ids.len() <= usize::MAX / 2 }
pub proof fn lemma_hin_em(g: GsV, h: Map<VxRef, EntV>, r: VxRef) requires hin(h, ents(g)), em(g).count(r) > 0 ensures h.contains_key(r) { lemma_ms_has(ents(g), r); let i = choose|i: int| 0 <= i < ents(g).len() && ents(g)[i] == r; assert(h.contains_key(ents(g)[i])); }
/// what holds at every moment
pub open spec fn always(g: GsV, h: Map<VxRef, EntV>) -> bool { ginv(g, h) && forall|r: VxRef| #[trigger] em(g).count(r) > 0 ==> okg(h[r].s) && h[r].depth >= 0 && h[r].des >= 0real }
pub proof fn lemma_always_empty(nmax: int, ndep: int, h: Map<VxRef, EntV>) requires nmax >= 0, ndep >= 1
    ensures always(gempty(GsV { act: Seq::empty(), bt: Seq::empty(), ix: Map::empty(), nmax, ndep, sat: true }), h)
{ let g = GsV { act: Seq::empty(), bt: Seq::empty(), ix: Map::empty(), nmax, ndep, sat: true }; lemma_empty_inv(g, h); lemma_bfl_none(ndep); assert(ents(gempty(g)) =~= Seq::empty()); assert forall|r: VxRef| #[trigger] em(gempty(g)).count(r) == 0 by { if em(gempty(g)).count(r) > 0 { lemma_ms_has(ents(gempty(g)), r); } } }
pub proof fn lemma_always_added(g: GsV, h: Map<VxRef, EntV>, g1: GsV, h1: Map<VxRef, EntV>, s: SenV, evi: Option<Arc<Sentence>>, t: int, depth: int)
    requires always(g, h), added(g, h, g1, h1, s, evi, t, depth), okg(s), depth >= 0 ensures always(g1, h1)
{
    assert forall|r: VxRef| #[trigger] em(g1).count(r) > 0 implies okg(h1[r].s) && h1[r].depth >= 0 && h1[r].des >= 0real by {
        if em(g).count(r) > 0 { lemma_hin_em(g, h, r); assert(h1[r] == h[r]); }
        else { let e = choose|e: VxRef| !h.contains_key(e) && h1.contains_key(e) && #[trigger] em(g).insert(e) == em(g1) && h1[e] == newent(s, evi, t, depth, h1[e].acc); assert(em(g).insert(e).count(r) > 0); assert(r == e); }
    }
}
pub proof fn lemma_always_sat(g: GsV, h: Map<VxRef, EntV>, t: TermV) requires always(g, h) ensures always(g, hsat(h, ents(g), t))
{ let p = hsat(h, ents(g), t); assert forall|r: VxRef| #[trigger] em(g).count(r) > 0 implies p.contains_key(r) && fr(p[r], h[r]) && p[r].des >= 0real by { lemma_hin_em(g, h, r); } lemma_ginv_frame(g, h, p); }
pub proof fn lemma_always_limit(g: GsV, h: Map<VxRef, EntV>, t: int) requires always(g, h), entsok(h, ents(g), t) ensures always(glim(g, h, t).0, glim(g, h, t).1)
{ lemma_limit(g, h, t); let g1 = glim(g, h, t).0; let h1 = glim(g, h, t).1; assert forall|r: VxRef| #[trigger] em(g1).count(r) > 0 implies okg(h1[r].s) && h1[r].depth >= 0 && h1[r].des >= 0real by { assert(em(g).count(r) > 0); lemma_hin_em(g, h, r); assert(same_goal(h[r], h1[r])); } }
}
@@main
