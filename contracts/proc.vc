// src/NarProc.rs: procedural knowledge (A-LOCK, A-OP: the name of an op is a pure function of the op)
@@use mem.vc
@@use goalinf.vc
@@use termutils.vc
@@include seqimpl.vc
verus! {
// ---------------------------------------------------------------- registered ops
pub struct VxOp { pub x: u64 }
impl VxOp {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    /// A-OP
    #[verifier::external_body]
    pub fn retName(&self) -> (r: String) ensures r@ == self.nm() { loop {} }
    pub uninterp spec fn ec(&self) -> i64;
    /// A-OP
    #[verifier::external_body]
    pub fn ret_evi_cnt(&self) -> (r: i64) ensures r == self.ec() { loop {} }
    pub uninterp spec fn bab(&self) -> bool;
    /// A-OP
    #[verifier::external_body]
    pub fn isBabbleable(&self) -> (r: bool) ensures r == self.bab() { loop {} }
}
@@item src/NarProc.rs ProcNar erase keep=ops
pub open spec fn hasop(ops: Seq<Arc<VxOp>>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ops.len() && (#[trigger] ops[i]).nm() == n }
pub open spec fn hasopn(ops: Seq<Arc<VxOp>>, n: Seq<char>, k: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] ops[i]).nm() == n }
pub open spec fn callable(ops: Seq<Arc<VxOp>>, x: TermV) -> bool { isop(x) && hasop(ops, opname(x)) }
/// the first op registered under the name
@@fn src/NarProc.rs ret_op_by_name erase
@contract
    ensures
        $r is Some <==> hasop($p1.ops@, $p2@),
        $r is Some ==> exists|i: int| 0 <= i < $p1.ops@.len() && (#[trigger] $p1.ops@[i]) == $r->0 && $p1.ops@[i].nm() == $p2@ && forall|j: int| 0 <= j < i ==> (#[trigger] $p1.ops@[j]).nm() != $p2@,
@loop scan
@inv
      forall|q: int| 0 <= q < $i ==> (#[trigger] $e@[q]).nm() != $p2@,
@@end
@@fn src/NarProc.rs checkIsCallableOp erase
@contract
    ensures $r == callable($p1.ops@, tmv(*$p2))
@loop scan
@inv
      forall|q: int| 0 <= q < $i ==> (#[trigger] $e@[q]).nm() != opname(tmv(*$p2)),
@@end
pub open spec fn allcallable(ops: Seq<Arc<VxOp>>, t: Seq<TermV>) -> bool { forall|i: int| 0 <= i < t.len() ==> callable(ops, #[trigger] t[i]) }
/// [e0, op1, .., opn, en1]: an observed event, registered ops, and a different observed event
pub open spec fn buildable(ops: Seq<Arc<VxOp>>, t: Seq<TermV>) -> bool { allcallable(ops, t.subrange(1, t.len() - 1)) && !callable(ops, t[0]) && !callable(ops, t.last()) && t[0] != t.last() }
@@fn src/NarProc.rs try_build_implSeq erase
@contract
    requires $p2@.len() >= 3
    ensures
        $r is Some <==> buildable($p1.ops@, tvseq($p2@)),
        $r is Some ==> tmv($r->0) == implv(tvseq($p2@).drop_last(), tvseq($p2@).last()),
@entry
    let ghost vx_ev = tvseq($p2@);
    let ghost vx_mid = vx_ev.subrange(1, vx_ev.len() - 1);
@loop all
@when checkIsCallableOp(___)
@inv
      tvseq($e@) =~= vx_mid,
      $acc ==> forall|q: int| 0 <= q < $i ==> callable($p1.ops@, #[trigger] vx_mid[q]),
      !$acc ==> !allcallable($p1.ops@, vx_mid),
@top
    assert(tmv(*$x) == vx_mid[$i - 1]);
@loop copy
@when $acc.push($x.clone())
@inv
      tvseq($e@) =~= vx_mid,
      tvseq($acc@) =~= vx_ev.take($i + 1),
@bot
    assert(tmv(*$x) == vx_mid[$i - 1]);
@post
    assert(tvseq($acc@) =~= vx_ev.drop_last());
@@end
@@item src/NarProc.rs SimpleSentence erase
pub open spec fn evn(a: Arc<SimpleSentence>) -> TermV { tmv(a.name) }
pub open spec fn opidx(ops: Seq<Arc<VxOp>>, t: Seq<Arc<SimpleSentence>>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else if callable(ops, evn(t[n - 1])) { opidx(ops, t, n - 1).push(n - 1) } else { opidx(ops, t, n - 1) } }
/// exactly the positions of executed ops, in order
pub proof fn lemma_opidx(ops: Seq<Arc<VxOp>>, t: Seq<Arc<SimpleSentence>>, n: int, i: int)
    requires 0 <= n <= t.len()
    ensures opidx(ops, t, n).contains(i) <==> 0 <= i < n && callable(ops, evn(t[i])),
        forall|a: int, b: int| 0 <= a < b < opidx(ops, t, n).len() ==> #[trigger] opidx(ops, t, n)[a] < #[trigger] opidx(ops, t, n)[b] < n,
        forall|a: int| 0 <= a < opidx(ops, t, n).len() ==> 0 <= #[trigger] opidx(ops, t, n)[a] < n,
    decreases n
{
    if n > 0 { lemma_opidx(ops, t, n - 1, i); let s = opidx(ops, t, n - 1); if callable(ops, evn(t[n - 1])) {
        let r = s.push(n - 1);
        if i == n - 1 { assert(r[s.len() as int] == i); } else if s.contains(i) { let q = choose|q: int| 0 <= q < s.len() && s[q] == i; assert(r[q] == i); } else if r.contains(i) { let q = choose|q: int| 0 <= q < r.len() && r[q] == i; if q < s.len() { assert(s[q] == i); } }
    } }
}
pub open spec fn ints(v: Seq<i64>) -> Seq<int> { v.map_values(|x: i64| x as int) }
@@fn src/NarProc.rs calcIdxsOfOps erase
@contract
    requires $p2@.len() <= i64::MAX
    ensures ints($r@) == opidx($p1.ops@, $p2@, $p2@.len() as int)
@loop scan
@when $V.push(___)
@inv
      ints($V@) =~= opidx($p1.ops@, $p2@, $i as int),
@@end
/// the last interval of the table that is not longer than the given one (0 if there is none)
@@fn src/NarProc.rs findMinTableIdx
@contract
    requires 1 <= $p2@.len() <= i64::MAX
    ensures 0 <= $r < $p2@.len(), forall|q: int| 0 < q <= $r ==> #[trigger] $p2@[q] <= $p1, $r + 1 < $p2@.len() ==> $p2@[$r + 1] > $p1
@loop scan
@inv
      forall|q: int| 0 < q < $i ==> #[trigger] $p2@[q] <= $p1,
@@end

// ---------------------------------------------------------------- procedural evidence
/// concepts under which an implication is filed: the subterms of its condition and of its consequence
pub open spec fn filed(x: TermV) -> Seq<TermV> { subs(condv(x)) + subs(x.kids[1]) }
pub open spec fn pstore(m: Map<TermV, CoV>, b: BV, n: int, now: int) -> Map<TermV, CoV> { if b.s.p == EnumPunctation::JUGEMENT { mstore(m, b, filed(b.s.t), n, now) } else { m } }
@@fn src/NarProc.rs mem_add_evidence_internal erase deeplock
@contract
    requires mok(mev(old($p1).concepts@), $p4 as int), $p2.punct == EnumPunctation::JUGEMENT ==> bok(bvs(*$p2), $p4 as int), condok(tmv(*$p2.term))
    ensures
        mev(final($p1).concepts@) == pstore(mev(old($p1).concepts@), bvs(*$p2), $p3 as int, $p4 as int),
        mok(mev(final($p1).concepts@), $p4 as int),
@entry
    broadcast use lemma_tvs_cat;
    let ghost vx_f = filed(sv(*$p2).t);
@exit
    assert(tvseq(Seq::<Term>::empty()) =~= Seq::<TermV>::empty()); assert(Seq::<TermV>::empty() + subs(condv(sv(*$p2).t)) =~= subs(condv(sv(*$p2).t)));
@@end
pub open spec fn ren(b: BV, t: TermV) -> BV { BV { s: SenV { t, ..b.s }, last: b.last, cnt: b.cnt } }
pub proof fn lemma_intro_cond(x: TermV, y: TermV) requires introduced(x, y), condok(x) ensures condok(y) {
    let a = introdd(x); let w = choose|w: TermV| w.tag == 7 && y == #[trigger] s_repl(x, a, w);
    assert(x != a);
    let r = s_repl(x, a, w); let c = x.kids[0];
    assert(r.kids.len() == x.kids.len() && r.kids[0] == s_repl(c, a, w));
    if c != a { assert(s_repl(c, a, w).tag == c.tag && s_repl(c, a, w).kids.len() == c.kids.len()); }
}
pub broadcast proof fn lemma_tvs_cat(a: Seq<Term>, b: Seq<Term>) ensures #[trigger] tvseq(a + b) == tvseq(a) + tvseq(b) { broadcast use group_tvs; assert(tvseq(a + b) =~= tvseq(a) + tvseq(b)); }
@@fn src/NarProc.rs mem_add_evidence erase deeplock
@sig rand :: rngs :: ThreadRng => VxRng
@contract
    requires mok(mev(old($p1).concepts@), $p4 as int), $p2.punct == EnumPunctation::JUGEMENT ==> bok(bvs(*$p2), $p4 as int), condok(tmv(*$p2.term)), forall|vx_s: TermV| #[trigger] occ(tmv(*$p2.term), vx_s) <= i64::MAX
    ensures
        mok(mev(final($p1).concepts@), $p4 as int),
        !(introable(tmv(*$p2.term)) && occ(tmv(*$p2.term), introdd(tmv(*$p2.term))) >= 2) ==> mev(final($p1).concepts@) == pstore(mev(old($p1).concepts@), bvs(*$p2), $p3 as int, $p4 as int),
        introable(tmv(*$p2.term)) && occ(tmv(*$p2.term), introdd(tmv(*$p2.term))) >= 2 ==> exists|y: TermV| introduced(tmv(*$p2.term), y) && mev(final($p1).concepts@) == pstore(pstore(mev(old($p1).concepts@), bvs(*$p2), $p3 as int, $p4 as int), #[trigger] ren(bvs(*$p2), y), $p3 as int, $p4 as int),
@entry
    let ghost vx_x = sv(*$p2).t; let ghost vx_b = bvs(*$p2); let ghost vx_m1 = pstore(mev(old($p1).concepts@), vx_b, $p3 as int, $p4 as int);
@loop vars
@when mem_add_evidence_internal(___)
@inv
      mok(mev($p1.concepts@), $p4 as int),
      $i == 0 ==> mev($p1.concepts@) == vx_m1,
      $i == 1 ==> mev($p1.concepts@) == pstore(vx_m1, ren(vx_b, tmv(*$e@[0].term)), $p3 as int, $p4 as int),
@top
    proof { lemma_intro_cond(vx_x, sv(*$x).t); assert(bvs(*$x) == ren(vx_b, sv(*$x).t)); }
@@end

// ---------------------------------------------------------------- finding it again
pub open spec fn fsel(s: Seq<BV>, f: spec_fn(BV) -> bool) -> Seq<BV> decreases s.len() { if s.len() == 0 { s } else if f(s.last()) { fsel(s.drop_last(), f).push(s.last()) } else { fsel(s.drop_last(), f) } }
pub proof fn lemma_fsel_take(s: Seq<BV>, f: spec_fn(BV) -> bool, i: int) requires 0 <= i < s.len() ensures fsel(s.take(i + 1), f) == (if f(s[i]) { fsel(s.take(i), f).push(s[i]) } else { fsel(s.take(i), f) }) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_fsel(s: Seq<BV>, f: spec_fn(BV) -> bool, x: BV) ensures fsel(s, f).contains(x) <==> s.contains(x) && f(x) decreases s.len()
{
    if s.len() > 0 { let d = s.drop_last(); lemma_fsel(d, f, x); let r = fsel(s, f); assert(s =~= d.push(s.last()));
        if s.contains(x) && f(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j == s.len() - 1 { assert(r[r.len() - 1] == x); } else { assert(d[j] == x); let q = choose|q: int| 0 <= q < fsel(d, f).len() && fsel(d, f)[q] == x; assert(r[q] == x); } }
        if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; if f(s.last()) && j == r.len() - 1 { assert(s[s.len() - 1] == x); } else { assert(fsel(d, f)[j] == x); assert(d.contains(x)); let q = choose|q: int| 0 <= q < d.len() && d[q] == x; assert(s[q] == x); } }
    }
}
pub broadcast proof fn lemma_tvseq_one(v: Seq<Term>) requires v.len() == 1 ensures #[trigger] tvseq(v) == seq![tmv(v[0])] { broadcast use group_tvs; assert(tvseq(v) =~= seq![tmv(v[0])]); }
pub open spec fn begins(t: TermV) -> spec_fn(BV) -> bool { |b: BV| isimplseq(b.s.t) && b.s.t.kids[0].kids[0] == t }
pub open spec fn yields(t: TermV) -> spec_fn(BV) -> bool { |b: BV| ispred(b.s.t) && b.s.t.kids[1] == t }
pub open spec fn noempty(s: Seq<BV>) -> bool { forall|i: int| 0 <= i < s.len() ==> isimplseq((#[trigger] s[i]).s.t) ==> s[i].s.t.kids[0].kids.len() >= 1 }
@@fn src/NarGoalSystem.rs query_by_antecedent erase
@contract
    requires noempty(belt($p2.concepts@, seq![tmv(*$p1)]))
    ensures tbv($r@) == fsel(belt($p2.concepts@, seq![tmv(*$p1)]), begins(tmv(*$p1)))
@entry
    broadcast use {lemma_tbv_push, lemma_tvseq_one};
    let ghost vx_q = tmv(*$p1); let ghost vx_c = belt($p2.concepts@, seq![vx_q]);
@loop filter
@when res.push(___)
@pre
    proof { assert(tbv($e@).take(0) =~= Seq::empty()); assert(tbv(res@) =~= Seq::empty()); assert(tbv($e@) == vx_c); assert(vx_c.take(0) =~= Seq::empty()); }
@inv
      tbv($e@) == vx_c,
      tbv(res@) == fsel(vx_c.take($i as int), begins(vx_q)),
@top
    proof { lemma_fsel_take(vx_c, begins(vx_q), $i - 1); assert(vx_c[$i - 1] == bv(*$x)); }
@post
    proof { assert(vx_c.take(vx_c.len() as int) =~= vx_c); }
@@end
@@fn src/NarGoalSystem.rs query_by_consequence erase
@contract
    ensures tbv($r@) == fsel(belt($p2.concepts@, seq![tmv(*$p1)]), yields(tmv(*$p1)))
@entry
    broadcast use {lemma_tbv_push, lemma_tvseq_one};
    let ghost vx_q = tmv(*$p1); let ghost vx_c = belt($p2.concepts@, seq![vx_q]);
@loop filter
@when res.push(___)
@pre
    proof { assert(tbv($e@).take(0) =~= Seq::empty()); assert(tbv(res@) =~= Seq::empty()); assert(tbv($e@) == vx_c); assert(vx_c.take(0) =~= Seq::empty()); }
@inv
      tbv($e@) == vx_c,
      tbv(res@) == fsel(vx_c.take($i as int), yields(vx_q)),
@top
    proof { lemma_fsel_take(vx_c, yields(vx_q), $i - 1); assert(vx_c[$i - 1] == bv(*$x)); }
@post
    proof { assert(vx_c.take(vx_c.len() as int) =~= vx_c); }
@@end
/// room for one more and nothing overlapping stored
pub open spec fn room(m: Map<TermV, CoV>, b: BV, t: TermV, n: int) -> bool { m.contains_key(t) ==> !thas(m[t].ex, b.s) && m[t].ex.len() < n }
pub proof fn lemma_stored(m: Map<TermV, CoV>, b: BV, ts: Seq<TermV>, t: TermV, n: int, now: int)
    requires mok(m, now), bok(b, now), n >= 1, b.s.ids.len() > 0, room(m, b, t, n)
    ensures
        ts.contains(t) ==> mstore(m, b, ts, n, now).contains_key(t) && mstore(m, b, ts, n, now)[t].ex.contains(b),
        !ts.contains(t) ==> room(mstore(m, b, ts, n, now), b, t, n),
    decreases ts.len()
{
    reveal(tstore);
    if ts.len() > 0 {
        let d = ts.drop_last(); let p = mstore(m, b, d, n, now); let l = ts.last(); let r = mstore(m, b, ts, n, now);
        lemma_stored(m, b, d, t, n, now); lemma_mstore(m, b, d, n, now);
        if ts.contains(t) && l != t { let j = choose|j: int| 0 <= j < ts.len() && ts[j] == t; assert(d[j] == t); }
        if d.contains(t) { let j = choose|j: int| 0 <= j < d.len() && d[j] == t; assert(ts[j] == t); }
        assert(ts[ts.len() - 1] == l);
        if l == t {
            if !p.contains_key(t) { assert(r[t].ex[0] == b); }
            else if thas(p[t].ex, b.s) { }
            else {
                if d.contains(t) { let j = choose|j: int| 0 <= j < p[t].ex.len() && p[t].ex[j] == b; assert(overlap(b.s.ids, b.s.ids)) by { assert(b.s.ids.contains(b.s.ids[0])); } assert(p[t].ex[j].s.t == b.s.t); }
                let q = p[t].ex.push(b); let k = ksort(q, kexp()); lemma_ksort(q, kexp());
                assert(q[q.len() - 1] == b);
                broadcast use vstd::seq_lib::group_to_multiset_ensures;
                assert(q.to_multiset().count(b) > 0); assert(k.contains(b));
                assert(k.len() <= n);
            }
        }
    } else { assert(mstore(m, b, ts, n, now) == m); }
}
pub proof fn lemma_bels_has(m: Map<TermV, Arc<Concept>>, ts: Seq<TermV>, t: TermV, b: BV) requires ts.contains(t), bel1(m, t).contains(b) ensures bels(m, ts).contains(b) decreases ts.len()
{
    let d = ts.drop_last(); let j = choose|j: int| 0 <= j < ts.len() && ts[j] == t;
    if j == ts.len() - 1 { let q = choose|q: int| 0 <= q < bel1(m, t).len() && bel1(m, t)[q] == b; assert(bels(m, ts)[bels(m, d).len() + q] == b); }
    else { assert(d[j] == t); lemma_bels_has(m, d, t, b); let q = choose|q: int| 0 <= q < bels(m, d).len() && bels(m, d)[q] == b; assert(bels(m, ts)[q] == b); }
}
/// an implication that was taught is found by what has to be observed first and by what it leads to
pub proof fn lemma_taught_is_found(m: Map<TermV, CoV>, c: Map<TermV, Arc<Concept>>, b: BV, t: TermV, n: int, now: int)
    requires mok(m, now), bok(b, now), n >= 1, b.s.ids.len() > 0, condok(b.s.t), mev(c) == pstore(m, b, n, now), room(m, b, t, n)
    ensures
        b.s.t.kids[1] == t ==> fsel(belt(c, seq![t]), yields(t)).contains(b),
        isimplseq(b.s.t) && b.s.t.kids[0].kids[0] == t ==> fsel(belt(c, seq![t]), begins(t)).contains(b),
{
    let f = filed(b.s.t); let x = condv(b.s.t); let y = b.s.t.kids[1];
    if t == y || isimplseq(b.s.t) && b.s.t.kids[0].kids[0] == t {
        assert(subs(x)[0] == x && subs(y)[0] == y);
        if t == y { assert(f[subs(x).len() as int] == y); } else { assert(f[0] == x); }
        assert(f.contains(t));
        lemma_stored(m, b, f, t, n, now);
        assert(mev(c).contains_key(t)); assert(c.contains_key(t)); assert(mev(c)[t] == cov(c[t]));
        let ex = tbv(c[t].payload.beliefsByExp@);
        let q = choose|q: int| 0 <= q < ex.len() && ex[q] == b; assert(bel1(c, t)[q] == b);
        assert(subs(t)[0] == t); assert(subs(t).contains(t));
        lemma_bels_has(c, subs(t), t, b);
        assert(seq![t].drop_last() =~= Seq::empty()); assert(belt(c, Seq::empty()) =~= Seq::empty());
        assert(belt(c, seq![t]) =~= bels(c, subs(t)));
        lemma_fsel(belt(c, seq![t]), yields(t), b); lemma_fsel(belt(c, seq![t]), begins(t), b);
    }
}

// ---------------------------------------------------------------- event trace
@@item src/NarProc.rs TraceDefault deep erase keep=trace
@@fn src/NarProc.rs TraceDefault::limit erase deeplock selfmut
@contract
    ensures final(vx_self).trace@ == (if old(vx_self).trace@.len() <= 20 { old(vx_self).trace@ } else { old(vx_self).trace@.subrange(old(vx_self).trace@.len() - 20, old(vx_self).trace@.len() as int) })
@@end
@@fn src/NarProc.rs TraceDefault::event_happened erase deeplock selfmut
@contract
    ensures final(vx_self).trace@ == old(vx_self).trace@.push(event)
@@end
@@fn src/NarProc.rs TraceDefault::force_flush erase deeplock selfmut
@contract
    ensures final(vx_self).trace@.len() == 0
@@end
@@fn src/NarProc.rs TraceDefault::ret_last_events erase deeplock selfmut
@contract
    ensures final(vx_self).trace@ == old(vx_self).trace@, $r is None <==> old(vx_self).trace@.len() == 0, $r is Some ==> ($r->0)@ == seq![old(vx_self).trace@.last()]
@@end
@@fn src/NarProc.rs TraceDefault::ret_view erase deeplock selfmut
@contract
    ensures final(vx_self).trace@ == old(vx_self).trace@, $r@ == old(vx_self).trace@
@loop copy
@inv
      res@ =~= $e@.take($i as int),
@@end
}
@@main
