// src/NarProc.rs: what is learned from the trace of events (A-LOCK, A-RAND, A-OP, A-CHAN)
@@over ProcNar TraceDefault
@@use goal2.vc
verus! {
/// ASSUMPTION A-CHAN: a channel to a worker, with everything that was sent to it
#[verifier::external_body]
pub struct VxTx { x: u64 }
impl VxTx { pub uninterp spec fn view(&self) -> Seq<(Sentence, i64)>; }
#[verifier::external_body]
pub fn vx_send(v: &mut Vec<VxTx>, i: usize, m: (Sentence, i64)) -> (r: Result<(), ()>)
    requires i < old(v)@.len()
    ensures r is Ok, chv(final(v)@) == chv(old(v)@).update(i as int, chv(old(v)@)[i as int].push((bvs(m.0), m.1 as int))), final(v)@.len() == old(v)@.len()
{ loop {} }
/// what was sent to every worker
pub open spec fn chv(v: Seq<VxTx>) -> Seq<Seq<(BV, int)>> { v.map_values(|c: VxTx| c@.map_values(|m: (Sentence, i64)| (bvs(m.0), m.1 as int))) }
@@item src/NarProc.rs ProcNar deep erase heap keep=cfg__perceptionSamplesPerStep,cfg__nOpsMax,cfg__multiOpProbability,cfgVerbosity,ops,t,expIntervalsTable,goalSystem,storeWorkersTx ty:storeWorkersTx=Vec<VxTx>
@@item src/NarProc.rs TraceDefault deep erase keep=trace,rng ty:rng=VxRng
pub struct EvtV { pub t: TermV, pub evi: int, pub occ: int }
pub open spec fn evtv(a: Arc<SimpleSentence>) -> EvtV { EvtV { t: tmv(a.name), evi: a.evi as int, occ: a.occT as int } }
pub open spec fn trv(t: Seq<Arc<SimpleSentence>>) -> Seq<EvtV> { t.map_values(|a: Arc<SimpleSentence>| evtv(a)) }

// ---------------------------------------------------------------- numbers
#[verifier::external_body]
pub fn vx_ix_min(v: &Vec<usize>) -> (r: Option<&usize>) ensures r is None <==> v@.len() == 0, r is Some ==> v@.contains(*r->0) && forall|i: int| 0 <= i < v@.len() ==> *r->0 <= #[trigger] v@[i] { v.iter().min() }
#[verifier::external_body]
pub fn vx_ix_max(v: &Vec<usize>) -> (r: Option<&usize>) ensures r is None <==> v@.len() == 0, r is Some ==> v@.contains(*r->0) && forall|i: int| 0 <= i < v@.len() ==> *r->0 >= #[trigger] v@[i] { v.iter().max() }
#[verifier::external_body]
pub fn vx_ix_has(v: &Vec<usize>, x: usize) -> (r: bool) ensures r == v@.contains(x) { v.contains(&x) }
/// A-SORT
#[verifier::external_body]
pub fn vx_ix_sort(v: &mut Vec<usize>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> #[trigger] final(v)@[i] <= #[trigger] final(v)@[j] { v.sort() }

// ---------------------------------------------------------------- one observation
/// positions of an event, of executed ops after it, and of the last or the last but one event
pub open spec fn selok(ops: Seq<Arc<VxOp>>, tr: Seq<EvtV>, nmax: int, ix: Seq<int>) -> bool {
    &&& 3 <= ix.len() <= nmax + 2 && tr.len() - 2 <= ix.last() < tr.len() && 0 <= ix[0]
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() - 1 ==> #[trigger] ix[i] < #[trigger] ix[j]
    &&& forall|i: int| 0 <= i < ix.len() - 1 ==> #[trigger] ix[i] <= ix.last()
    &&& forall|i: int| 1 <= i < ix.len() - 1 ==> callable(ops, tr[#[trigger] ix[i]].t)
}
pub open spec fn selt(tr: Seq<EvtV>, ix: Seq<int>) -> Seq<TermV> { ix.map_values(|i: int| tr[i].t) }
pub open spec fn seli(tr: Seq<EvtV>, ix: Seq<int>) -> Seq<i64> { ix.map_values(|i: int| tr[i].evi as i64) }
pub open spec fn xidxok(dt: int, tab: Seq<i64>, r: int) -> bool { 0 <= r < tab.len() && (forall|q: int| 0 < q <= r ==> #[trigger] tab[q] <= dt) && (r + 1 < tab.len() ==> tab[r + 1] > dt) }
pub open spec fn xidx(dt: int, tab: Seq<i64>) -> int { choose|r: int| xidxok(dt, tab, r) }
pub proof fn lemma_xidx(dt: int, tab: Seq<i64>, r: int) requires xidxok(dt, tab, r) ensures xidx(dt, tab) == r { let q = xidx(dt, tab); assert(xidxok(dt, tab, q)); if q < r { assert(tab[q + 1] <= dt); } if r < q { assert(tab[r + 1] <= dt); } }
pub open spec fn opisfirst(ops: Seq<Arc<VxOp>>, n: Seq<char>, i: int) -> bool { 0 <= i < ops.len() && ops[i].nm() == n && forall|j: int| 0 <= j < i ==> (#[trigger] ops[j]).nm() != n }
pub open spec fn opcnt(ops: Seq<Arc<VxOp>>, n: Seq<char>) -> int { ops[choose|i: int| opisfirst(ops, n, i)].ec() as int }
pub proof fn lemma_opcnt(ops: Seq<Arc<VxOp>>, n: Seq<char>, i: int) requires opisfirst(ops, n, i) ensures opcnt(ops, n) == ops[i].ec() { let q = choose|i: int| opisfirst(ops, n, i); assert(opisfirst(ops, n, q)); if q < i { assert(ops[q].nm() != n); } if i < q { assert(ops[i].nm() != n); } }
/// the evidence for a contingency that these events are
pub open spec fn obs(ops: Seq<Arc<VxOp>>, tab: Seq<i64>, tr: Seq<EvtV>, ix: Seq<int>) -> BV {
    let k = ix.len() as int; let n = opcnt(ops, opname(tr[ix[1]].t));
    BV { s: SenV { t: implv(selt(tr, ix).drop_last(), selt(tr, ix).last()), p: EnumPunctation::JUGEMENT, ids: seli(tr, ix), occ: None, dt: Some(xidx(tr[ix[k - 1]].occ - tr[ix[k - 2]].occ, tab) as i64), e: Some(EvV::Cnt(n, n)) }, last: 0, cnt: 0 }
}
/// one sample: nothing (w < 0, only if there is no op with an event before it), or a selection of events, given to worker w if it makes a contingency
pub struct SmpV { pub ix: Seq<int>, pub w: int }
pub open spec fn smpok(ops: Seq<Arc<VxOp>>, tr: Seq<EvtV>, nmax: int, nw: int, x: SmpV) -> bool { if x.w < 0 { (forall|i: int| 0 <= i < tr.len() ==> !callable(ops, (#[trigger] tr[i]).t)) || callable(ops, tr[0].t) } else { x.w < nw && selok(ops, tr, nmax, x.ix) } }
pub open spec fn smp(ops: Seq<Arc<VxOp>>, tab: Seq<i64>, tr: Seq<EvtV>, now: int, c: Seq<Seq<(BV, int)>>, x: SmpV) -> Seq<Seq<(BV, int)>> {
    if x.w < 0 || !buildable(ops, selt(tr, x.ix)) { c } else { c.update(x.w, c[x.w].push((obs(ops, tab, tr, x.ix), now))) }
}
pub open spec fn smps(ops: Seq<Arc<VxOp>>, tab: Seq<i64>, tr: Seq<EvtV>, now: int, c: Seq<Seq<(BV, int)>>, xs: Seq<SmpV>) -> Seq<Seq<(BV, int)>> decreases xs.len() { if xs.len() == 0 { c } else { smp(ops, tab, tr, now, smps(ops, tab, tr, now, c, xs.drop_last()), xs.last()) } }
pub open spec fn smpsok(ops: Seq<Arc<VxOp>>, tr: Seq<EvtV>, nmax: int, nw: int, xs: Seq<SmpV>) -> bool { forall|i: int| 0 <= i < xs.len() ==> smpok(ops, tr, nmax, nw, #[trigger] xs[i]) }
pub open spec fn trok(tr: Seq<EvtV>) -> bool { forall|i: int| 0 <= i < tr.len() ==> 0 <= (#[trigger] tr[i]).occ }
/// what a step leaves: goals satisfied by the last event (C28), and evidence sent to the workers
pub open spec fn stepped(ops: Seq<Arc<VxOp>>, tab: Seq<i64>, tr: Seq<EvtV>, now: int, nmax: int, n: int, c: Seq<Seq<(BV, int)>>, d: Seq<Seq<(BV, int)>>) -> bool {
    exists|xs: Seq<SmpV>| smpsok(ops, tr, nmax, c.len() as int, xs) && #[trigger] smps(ops, tab, tr, now, c, xs) == d && xs.len() == (if tr.len() >= 3 && n >= 0 { n } else { 0 })
}
pub proof fn lemma_step(ops: Seq<Arc<VxOp>>, tab: Seq<i64>, tr: Seq<EvtV>, now: int, nmax: int, n: int, c: Seq<Seq<(BV, int)>>, d: Seq<Seq<(BV, int)>>, x: SmpV)
    requires stepped(ops, tab, tr, now, nmax, n, c, d), smpok(ops, tr, nmax, c.len() as int, x), tr.len() >= 3, n >= 0
    ensures stepped(ops, tab, tr, now, nmax, n + 1, c, smp(ops, tab, tr, now, d, x))
{
    let xs = choose|xs: Seq<SmpV>| smpsok(ops, tr, nmax, c.len() as int, xs) && #[trigger] smps(ops, tab, tr, now, c, xs) == d && xs.len() == n;
    let ys = xs.push(x); assert(ys.drop_last() =~= xs); assert(smps(ops, tab, tr, now, c, ys) == smp(ops, tab, tr, now, d, x));
}
pub proof fn lemma_step0(ops: Seq<Arc<VxOp>>, tab: Seq<i64>, tr: Seq<EvtV>, now: int, nmax: int, c: Seq<Seq<(BV, int)>>) ensures stepped(ops, tab, tr, now, nmax, 0, c, c), tr.len() < 3 ==> forall|n: int| stepped(ops, tab, tr, now, nmax, n, c, c), forall|n: int| n < 0 ==> stepped(ops, tab, tr, now, nmax, n, c, c)
{ let xs = Seq::<SmpV>::empty(); assert(smps(ops, tab, tr, now, c, xs) == c); assert(smpsok(ops, tr, nmax, c.len() as int, xs)); }
/// the composed positions: an event before the ops, the ops, the last event
pub proof fn lemma_sorted(b: Seq<usize>, f: usize, s: Seq<usize>, l: usize)
    requires s.len() >= 1, b.to_multiset() == (seq![f] + s).push(l).to_multiset(), forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] <= #[trigger] b[j], s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> f < #[trigger] s[i] <= l
    ensures b.len() == s.len() + 2, b[0] == f, b.last() == l, forall|i: int| 1 <= i < b.len() - 1 ==> s.contains(#[trigger] b[i]), forall|i: int, j: int| 0 <= i < j < b.len() - 1 ==> #[trigger] b[i] < #[trigger] b[j], forall|i: int| 0 <= i < b.len() - 1 ==> #[trigger] b[i] <= l
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let a = (seq![f] + s).push(l); let n = a.len();
    assert(b.to_multiset().len() == b.len() && a.to_multiset().len() == a.len()); assert(b.len() == n); assert(a[0] == f && a[n - 1] == l); assert(s[0] > f);
    assert(a.contains(f) && a.contains(l));
    assert(b.to_multiset().count(f) > 0 && b.to_multiset().count(l) > 0);
    assert(b.contains(f) && b.contains(l));
    assert forall|i: int| 0 <= i < b.len() implies f <= #[trigger] b[i] <= l by { assert(b.contains(b[i])); assert(a.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; if 1 <= k < n - 1 { assert(a[k] == s[k - 1]); } }
    let jf = choose|j: int| 0 <= j < b.len() && b[j] == f; if jf > 0 { assert(b[0] <= b[jf]); } assert(b[0] == f);
    let jl = choose|j: int| 0 <= j < b.len() && b[j] == l; if jl < n - 1 { assert(b[jl] <= b[n - 1]); } assert(b[n - 1] == l);
    let m = b.subrange(1, n - 1);
    assert(b =~= (seq![f] + m).push(l));
    assert((seq![f] + m).to_multiset() =~= seq![f].to_multiset().add(m.to_multiset())) by { vstd::seq_lib::lemma_multiset_commutative(seq![f], m); }
    assert((seq![f] + s).to_multiset() =~= seq![f].to_multiset().add(s.to_multiset())) by { vstd::seq_lib::lemma_multiset_commutative(seq![f], s); }
    assert(b.to_multiset() =~= (seq![f] + m).to_multiset().insert(l)); assert(a.to_multiset() =~= (seq![f] + s).to_multiset().insert(l));
    assert forall|x: usize| m.to_multiset().count(x) == s.to_multiset().count(x) by {
        assert(b.to_multiset().count(x) == a.to_multiset().count(x));
    }
    assert(m.to_multiset() =~= s.to_multiset());
    s.lemma_multiset_has_no_duplicates(); m.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 1 <= i < n - 1 implies s.contains(#[trigger] b[i]) by { assert(m[i - 1] == b[i]); assert(m.contains(b[i])); assert(m.to_multiset().count(b[i]) > 0); }
    assert forall|i: int, j: int| 0 <= i < j < n - 1 implies #[trigger] b[i] < #[trigger] b[j] by { if i == 0 { let k = choose|k: int| 0 <= k < s.len() && s[k] == b[j]; assert(f < s[k]); } else { assert(m[i - 1] == b[i] && m[j - 1] == b[j]); assert(m[i - 1] != m[j - 1]); } }
}
pub open spec fn selin(ops: Seq<Arc<VxOp>>, tr: Seq<EvtV>, v: Seq<usize>) -> bool { v.no_duplicates() && forall|q: int| 0 <= q < v.len() ==> (#[trigger] v[q]) < tr.len() && callable(ops, tr[v[q] as int].t) }
pub open spec fn uints(v: Seq<usize>) -> Seq<int> { v.map_values(|x: usize| x as int) }
pub proof fn lemma_idx(ops: Seq<Arc<VxOp>>, t: Seq<Arc<SimpleSentence>>, v: Seq<i64>)
    requires ints(v) == opidx(ops, t, t.len() as int)
    ensures forall|a: int| 0 <= a < v.len() ==> 0 <= #[trigger] v[a] < t.len() && callable(ops, trv(t)[v[a] as int].t), v.len() == 0 ==> forall|i: int| 0 <= i < trv(t).len() ==> !callable(ops, (#[trigger] trv(t)[i]).t)
{
    let o = opidx(ops, t, t.len() as int);
    assert forall|a: int| 0 <= a < v.len() implies 0 <= #[trigger] v[a] < t.len() && callable(ops, trv(t)[v[a] as int].t) by { assert(ints(v)[a] == v[a]); assert(o[a] == v[a]); assert(o.contains(v[a] as int)); lemma_opidx(ops, t, t.len() as int, v[a] as int); }
    if v.len() == 0 { assert forall|i: int| 0 <= i < trv(t).len() implies !callable(ops, (#[trigger] trv(t)[i]).t) by { lemma_opidx(ops, t, t.len() as int, i); assert(o.len() == 0); } }
}
@@fn src/NarProc.rs TraceDefault::step heap deeplock erase selfmut deep=nar ixs
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
@sig &ProcNar => &mut ProcNar
@contract
    requires trok(trv(old(vx_self).trace@)), old($p2).storeWorkersTx@.len() >= 1, 1 <= old($p2).expIntervalsTable@.len() <= i64::MAX, old($p2).cfg__nOpsMax >= 1, old(vx_self).trace@.len() <= i64::MAX
    ensures
        final(vx_self).trace@ == old(vx_self).trace@,
        final($p2).ops@ == old($p2).ops@, final($p2).t == old($p2).t, final($p2).expIntervalsTable@ == old($p2).expIntervalsTable@,
        gsv(final($p2).goalSystem) == gsv(old($p2).goalSystem),
        hv(*final(vx_h)) == (if old(vx_self).trace@.len() > 0 && gsv(old($p2).goalSystem).sat { hsat(hv(*old(vx_h)), ents(gsv(old($p2).goalSystem)), trv(old(vx_self).trace@).last().t) } else { hv(*old(vx_h)) }),
        stepped(old($p2).ops@, old($p2).expIntervalsTable@, trv(old(vx_self).trace@), old($p2).t as int, old($p2).cfg__nOpsMax as int, old($p2).cfg__perceptionSamplesPerStep as int, chv(old($p2).storeWorkersTx@), chv(final($p2).storeWorkersTx@)),
@entry
    let ghost vx_tq = old(vx_self).trace@;
    let ghost vx_tr = trv(vx_tq);
    let ghost vx_ops = old($p2).ops@;
    let ghost vx_tab = old($p2).expIntervalsTable@;
    let ghost vx_now = old($p2).t as int;
    let ghost vx_nm = old($p2).cfg__nOpsMax as int;
    let ghost vx_ns = old($p2).cfg__perceptionSamplesPerStep as int;
    let ghost vx_c0 = chv(old($p2).storeWorkersTx@);
    let ghost mut vx_d = vx_c0;
    let ghost mut vx_x = SmpV { ix: Seq::empty(), w: -1 };
    let ghost mut vx_s: Seq<usize> = Seq::empty();
    let ghost vx_hh = if vx_tq.len() > 0 && gsv(old($p2).goalSystem).sat { hsat(hv(*old(vx_h)), ents(gsv(old($p2).goalSystem)), vx_tr.last().t) } else { hv(*old(vx_h)) };
    proof { lemma_step0(vx_ops, vx_tab, vx_tr, vx_now, vx_nm, vx_c0); }
@loop events
@when event_occurred(___)
@inv
      $n == 1, $e@ == seq![vx_tq.last()], nar.ops@ == vx_ops, nar.t as int == vx_now, nar.expIntervalsTable@ == vx_tab, chv(nar.storeWorkersTx@) == vx_c0, gsv(nar.goalSystem) == gsv(old(nar).goalSystem), nar.cfg__nOpsMax == old(nar).cfg__nOpsMax, nar.cfg__perceptionSamplesPerStep == old(nar).cfg__perceptionSamplesPerStep,
      hv(*vx_h) == (if $i == 0 { hv(*old(vx_h)) } else { vx_hh }),
@loop samples
@when calcIdxsOfOps(___, & $G)
@inv
      $G@ == vx_tq, nar.ops@ == vx_ops, nar.t as int == vx_now, nar.expIntervalsTable@ == vx_tab, gsv(nar.goalSystem) == gsv(old(nar).goalSystem), nar.cfg__nOpsMax == old(nar).cfg__nOpsMax, hv(*vx_h) == vx_hh, vx_tr.len() >= 3, nar.storeWorkersTx@.len() == vx_c0.len(),
      $i as int <= vx_ns || $i == 0, $n as int == vx_ns,
      stepped(vx_ops, vx_tab, vx_tr, vx_now, vx_nm, $i as int, vx_c0, chv(nar.storeWorkersTx@)),
@top
    proof { vx_d = chv(nar.storeWorkersTx@); vx_x = SmpV { ix: Seq::empty(), w: -1 }; }
@bot
    proof { assert(smpok(vx_ops, vx_tr, vx_nm, vx_c0.len() as int, vx_x)); assert(chv(nar.storeWorkersTx@) == smp(vx_ops, vx_tab, vx_tr, vx_now, vx_d, vx_x)); lemma_step(vx_ops, vx_tab, vx_tr, vx_now, vx_nm, $i - 1, vx_c0, vx_d, vx_x); }
@loop select
@when vx_ix_has(& $S, ___)
@inv
      invariant selin(vx_ops, vx_tr, $S@), $S@.len() < nSelOps,
      ensures selin(vx_ops, vx_tr, $S@), $S@.len() == nSelOps,
@let idxsOfOps
    proof { lemma_idx(vx_ops, vx_tq, idxsOfOps@); }
@before vx_ix_sort(& mut $V)
    proof { assert($V@ =~= (seq![idxFirst] + vx_s).push(idxLast)); }
@let selIdxOfOps
    proof { vx_s = selIdxOfOps@; }
@let idxs
    proof { vx_x = SmpV { ix: uints(idxs@), w: 0 }; if idxs@.len() != 1 { lemma_sorted(idxs@, idxFirst, vx_s, idxLast); } }
@let termsOfSelVecItems
    proof { assert(selTraceItems@.len() == vx_x.ix.len()); assert(selt(vx_tr, vx_x.ix).take(vx_x.ix.len() as int) =~= selt(vx_tr, vx_x.ix)); assert(tvseq(termsOfSelVecItems@) == selt(vx_tr, vx_x.ix)); }
@let expDt
    proof { lemma_xidx(dt as int, vx_tab, expDt as int); }
@let stamp
    proof { assert(seli(vx_tr, vx_x.ix).take(vx_x.ix.len() as int) =~= seli(vx_tr, vx_x.ix)); assert(stamp.ids@ == seli(vx_tr, vx_x.ix)); }
@let evidenceSentence
    proof {
        let nm = opname(vx_tr[vx_x.ix[1]].t);
        assert(selt(vx_tr, vx_x.ix)[1] == vx_tr[vx_x.ix[1]].t);
        assert(exists|i: int| opisfirst(vx_ops, nm, i) && (#[trigger] vx_ops[i]).ec() == cfg__eviCnt);
        let k = choose|i: int| opisfirst(vx_ops, nm, i) && (#[trigger] vx_ops[i]).ec() == cfg__eviCnt; lemma_opcnt(vx_ops, nm, k);
        assert(bvs(evidenceSentence) == obs(vx_ops, vx_tab, vx_tr, vx_x.ix));
    }
@let workerIdx
    proof { vx_x = SmpV { ix: vx_x.ix, w: workerIdx as int }; }
@loop items
@when $S.push(traceGuard[___].vx_ac())
@inv
      $acc@.len() == $i, forall|q: int| 0 <= q < $i ==> evtv(#[trigger] $acc@[q]) == vx_tr[vx_x.ix[q]], uints($e@) == vx_x.ix,
@loop names
@when $acc.push($x.name.clone())
@inv
      tvseq($acc@) =~= selt(vx_tr, vx_x.ix).take($i as int),
@loop evis
@when $acc.push($x.evi)
@inv
      $acc@ =~= seli(vx_tr, vx_x.ix).take($i as int),
@@end
}
@@main
