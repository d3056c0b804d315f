// src/Nar.rs: what is said to the reasoner goes to the part that handles it (A-LOCK; the trace is the default one)
@@over Mem2 ProcNar
@@use goal.vc
@@use cycle.vc
@@use narsese.vc
verus! {
@@item src/NarWorkingCycle.rs Mem2 deep erase keep=shared
@@item src/NarProc.rs ProcNar deep erase heap keep=evidenceMem,trace,ops,t,rng,goalSystem ty:trace=TraceDefault ty:rng=VxRng
@@item src/Nar.rs Nar deep erase keep=procNar,mem,cfgVerbosityInput,cfg__nConceptBeliefs,cfg__maxComplexity
impl TraceDefault {
    pub fn event_happened(&mut self, event: Arc<SimpleSentence>) ensures final(self).trace@ == old(self).trace@.push(event) { event_happened(self, event) }
}
pub struct EvtV { pub t: TermV, pub evi: int, pub occ: int }
pub open spec fn evtv(a: Arc<SimpleSentence>) -> EvtV { EvtV { t: tmv(a.name), evi: a.evi as int, occ: a.occT as int } }
pub struct NarV { pub sh: ShV, pub g: GsV, pub h: Map<VxRef, EntV>, pub ev: Map<TermV, CoV>, pub tr: Seq<EvtV>, pub t: int, pub ops: Seq<Arc<VxOp>>, pub n: int, pub maxc: int, pub verb: int }
pub open spec fn narv(n: Nar, h: VxHeap) -> NarV { NarV { sh: shv(n.mem.shared), g: gsv(n.procNar.goalSystem), h: hv(h), ev: mev(n.procNar.evidenceMem.concepts@), tr: n.procNar.trace.trace@.map_values(|a: Arc<SimpleSentence>| evtv(a)), t: n.procNar.t as int, ops: n.procNar.ops@, n: n.cfg__nConceptBeliefs as int, maxc: n.cfg__maxComplexity as int, verb: n.cfgVerbosityInput as int } }
/// the sentence that was said, with fresh evidence
pub open spec fn saysen(t: TermV, p: EnumPunctation, tv: TvR, id: i64) -> SenV { SenV { t, p, ids: seq![id], occ: None, dt: None, e: if p != EnumPunctation::QUESTION { Some(EvV::Tv(tv)) } else { None } } }
pub open spec fn said(a: NarV, b: NarV, t: TermV, p: EnumPunctation, tv: TvR, ev: bool) -> bool {
    let s = saysen(t, p, tv, a.sh.stamp as i64);
    let sh = ShV { stamp: a.sh.stamp + 1, ..a.sh };
    let a1 = NarV { sh, ..a };
    if p == EnumPunctation::QUESTION || !ev && p == EnumPunctation::JUGEMENT && !ispred(t) {
        b == NarV { sh: taken(sh, BV { s, last: 0, cnt: 0 }, true, a.maxc, a.n, 1real, a.t), ..a }
    } else if p == EnumPunctation::GOAL {
        if ev { b == NarV { g: b.g, h: b.h, ..a1 } && added(a.g, a.h, b.g, b.h, s, None, a.t, 0) } else { b == a1 }
    } else if ev {
        b == NarV { tr: a.tr.push(EvtV { t, evi: a.t, occ: a.t }), ..a1 }
    } else {
        let x = BV { s: SenV { e: Some(EvV::Cnt(10, 10)), ..s }, last: 0, cnt: 0 };
        b == NarV { ev: b.ev, sh: ShV { pm: b.sh.pm, ..sh }, ..a1 } && taught(a.ev, b.ev, x, a.n, a.t)
    }
}
/// evidence for a contingency is in the procedural memory (C24)
pub open spec fn taught(m: Map<TermV, CoV>, m1: Map<TermV, CoV>, x: BV, n: int, now: int) -> bool {
    &&& !(introable(x.s.t) && occ(x.s.t, introdd(x.s.t)) >= 2) ==> m1 == pstore(m, x, n, now)
    &&& introable(x.s.t) && occ(x.s.t, introdd(x.s.t)) >= 2 ==> exists|y: TermV| introduced(x.s.t, y) && m1 == pstore(pstore(m, x, n, now), #[trigger] ren(x, y), n, now)
}
pub open spec fn narok(a: NarV) -> bool { ginv(a.g, a.h) && mrvok(a.sh.mem) && mok(a.sh.mem, a.t) && mok(a.ev, a.t) && a.sh.tid < i64::MAX - 2 && a.sh.stamp < i64::MAX && a.n >= 1 }
pub open spec fn sayok(t: TermV) -> bool { 0 < cpx(t) <= i64::MAX && (ispred(t) ==> condok(t)) && forall|x: TermV| #[trigger] occ(t, x) <= i64::MAX }
@@fn src/Nar.rs inputT2 heap deeplock erase deep=nar
@contract
    requires narok(narv(*old($p1), *old(vx_h))), ok(tr(*$p4)), sayok(tmv(*$p2))
    ensures said(narv(*old($p1), *old(vx_h)), narv(*final($p1), *final(vx_h)), tmv(*$p2), $p3, tr(*$p4), $p5)
@entry
    let ghost vx_a = narv(*old($p1), *old(vx_h));
@let sentence
    proof { assert(sv(sentence).ids =~= seq![vx_a.sh.stamp as i64]); assert(sv(sentence) == saysen(tmv(*$p2), $p3, tr(*$p4), vx_a.sh.stamp as i64)); assert(bvs(sentence) == (BV { s: saysen(tmv(*$p2), $p3, tr(*$p4), vx_a.sh.stamp as i64), last: 0, cnt: 0 })); }
@exit
    proof { let b = narv(*$p1, *vx_h);
      if $p5 && $p3 == EnumPunctation::JUGEMENT { assert(b.tr =~= vx_a.tr.push(EvtV { t: tmv(*$p2), evi: vx_a.t, occ: vx_a.t })); } else { assert(b.tr == vx_a.tr); }
    }
@@end
@@fn src/Nar.rs inputT heap deeplock erase deep=nar
@contract
    requires narok(narv(*old($p1), *old(vx_h))), ok(tr(*$p4)), sayok(tmv(*$p2))
    ensures said(narv(*old($p1), *old(vx_h)), narv(*final($p1), *final(vx_h)), tmv(*$p2), $p3, tr(*$p4), false)
@@end
// ---------------------------------------------------------------- what is read can be said
/// ASSUMPTION A-STR: no text is longer than the address space
#[verifier::external_body]
pub proof fn axiom_text_len(s: String) ensures s@.len() <= i64::MAX {}
/// the text of the first n components
pub open spec fn slen(t: TermV, n: int) -> int decreases n { if n <= 0 || n > t.kids.len() { 0 } else { slen(t, n - 1) + rn(t.kids[n - 1]).len() } }
pub proof fn lemma_slen_tl(t: TermV, k: int) requires 0 <= k <= t.kids.len() ensures slen(t, k) + tl(t, k).len() >= slen(t, t.kids.len() as int) decreases t.kids.len() - k
{ if k < t.kids.len() { lemma_slen_tl(t, k + 1); } }
pub proof fn lemma_slen(t: TermV) requires pok(t) ensures rn(t).len() >= slen(t, t.kids.len() as int) + 1
{
    let k = t.tag; reveal_with_fuel(slen, 3);
    if islist(k) { lemma_slen_tl(t, 1); }
}
pub proof fn lemma_brief_k(t: TermV, x: TermV, n: nat) requires n <= t.kids.len(), forall|i: int| 0 <= i < n ==> 1 <= cpx(#[trigger] t.kids[i]) <= rn(t.kids[i]).len() && occ(t.kids[i], x) <= rn(t.kids[i]).len()
    ensures cpx_k(t, n) <= slen(t, n as int), occ_k(t, x, n) <= slen(t, n as int), n >= 1 ==> cpx_k(t, n) >= 1 decreases n
{ if n > 0 { lemma_brief_k(t, x, (n - 1) as nat); assert(1 <= cpx(t.kids[n - 1])); } }
/// the parts of a written term are not more than the characters of its text
pub proof fn lemma_brief(t: TermV, x: TermV) requires pok(t) ensures 1 <= cpx(t) <= rn(t).len(), occ(t, x) <= rn(t).len(), ispred(t) ==> condok(t) decreases t
{
    assert forall|i: int| 0 <= i < t.kids.len() implies 1 <= cpx(#[trigger] t.kids[i]) <= rn(t.kids[i]).len() && occ(t.kids[i], x) <= rn(t.kids[i]).len() by { assert(pok(t.kids[i])); lemma_brief(t.kids[i], x); }
    lemma_slen(t); lemma_brief_k(t, x, t.kids.len()); lemma_occ_mono(t, x, arms(t), t.kids.len()); lemma_first(t);
    if ispred(t) { assert(pok(t.kids[0])); }
}
pub proof fn lemma_da_len(s: Seq<char>, f: bool) ensures da(s, f).len() <= s.len() decreases s.len() { if s.len() > 0 { lemma_da_len(s.skip(1), true); lemma_da_len(s.skip(1), s[0] == '*'); } }
pub proof fn lemma_db_len(s: Seq<char>) ensures db(s).len() <= s.len() decreases s.len() { if s.len() > 0 { lemma_db_len(s.skip(1)); } }
pub proof fn lemma_trimr_len(s: Seq<char>) ensures trimr(s).len() <= s.len() decreases s.len() { if s.len() > 0 { lemma_trimr_len(s.drop_last()); } }
/// what was read can be said
pub proof fn lemma_sayable(s: Seq<char>, r: Option<(Term, Tv, EnumPunctation, bool)>) requires sread(s, r), r is Some, s.len() <= i64::MAX ensures sayok(tmv((r->0).0)), ok(tr((r->0).1))
{
    let k = choose|k: CutV| #[trigger] tvcut(evcut(norm(s)), k) && ({ let u = trimr(k.s); match r { Some((t, tv, p, e)) => u.len() > 0 && isp(u.last()) && p == punct(u.last()) && e == endsw(norm(s), evs()) && tr(tv) == k.tv && readable(u.drop_last(), tmv(t)), None => u.len() == 0 || !isp(u.last()) || forall|t: TermV| !readable(u.drop_last(), t) } });
    let c = evcut(norm(s)); let t = tmv((r->0).0);
    lemma_da_len(s, false); lemma_db_len(da(s, false)); assert(c.len() <= s.len());
    assert(k.s.len() <= c.len()) by { if exists|a: Seq<char>, b: Seq<char>| #[trigger] braced(c, a, b) && tvof(b) is Some && k == (CutV { s: a, tv: tvof(b)->0 }) { let (a, b) = choose|a: Seq<char>, b: Seq<char>| #[trigger] braced(c, a, b) && tvof(b) is Some && k == (CutV { s: a, tv: tvof(b)->0 }); } }
    lemma_trimr_len(k.s); let u = trimr(k.s).drop_last();
    let x = choose|x: Seq<char>| gp(u, t, x); reveal(gp); assert(u == rn(t) + x); assert(rn(t).len() <= u.len());
    assert forall|y: TermV| #[trigger] occ(t, y) <= i64::MAX by { lemma_brief(t, y); }
    lemma_brief(t, t);
}
@@fn src/Nar.rs inputN heap deeplock erase deep=nar
@contract
    requires narok(narv(*old($p1), *old(vx_h)))
    ensures exists|v: Option<(Term, Tv, EnumPunctation, bool)>| #[trigger] sread($p2@, v) && $r == (v is Some) && match v {
        Some((t, tv, p, e)) => said(narv(*old($p1), *old(vx_h)), narv(*final($p1), *final(vx_h)), tmv(t), p, tr(tv), e),
        None => narv(*final($p1), *final(vx_h)) == narv(*old($p1), *old(vx_h)) }
@entry
    proof { axiom_text_len(*$p2);
        assert forall|v: Option<(Term, Tv, EnumPunctation, bool)>| #[trigger] sread($p2@, v) && v is Some implies sayok(tmv((v->0).0)) && ok(tr((v->0).1)) by { lemma_sayable($p2@, v); } }
@@end
}
@@main
