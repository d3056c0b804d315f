// src/NarInfProcedural.rs: procedural derivations
@@use sentence.vc
verus! {
pub open spec fn ispred(x: TermV) -> bool { x.tag == 0 && x.num == copn(Copula::PREDIMPL) }
pub open spec fn sden(s: Sentence) -> TvR { etv(ev(s.evi->0)) }
pub open spec fn hase(s: Sentence) -> bool { s.evi is Some && evok(ev(s.evi->0)) }
@@fn src/NarInfProcedural.rs retDesire erase
@contract
    requires hase(*$p1)
    ensures tr($r) == sden(*$p1), okc(tr($r))
@@end
/// a =/> b.  b!  |- a!   only from disjoint evidence, which the conclusion inherits from both
@@fn src/NarInfProcedural.rs infGoalBelief erase
@contract
    requires hase(*$p1), hase(*$p2), $p1.stamp.ids@.len() + $p2.stamp.ids@.len() <= usize::MAX
    ensures
        $r is Some <==> ispred(tmv(*$p2.term)) && tmv(*$p2.term).kids[1] == tmv(*$p1.term) && !overlap($p1.stamp.ids@, $p2.stamp.ids@),
        $r is Some ==> sv($r->0) == (SenV { t: tmv(*$p2.term).kids[0], p: EnumPunctation::GOAL, ids: s_merge($p1.stamp.ids@, $p2.stamp.ids@), occ: None, dt: None, e: Some(EvV::Tv(s_dedgoal(sden(*$p1), sden(*$p2)))) }),
@@end
/// (a, b, ..)!  |- a!
@@fn src/NarInfProcedural.rs infGoalDetach erase
@contract
    requires hase(*$p1)
    ensures
        $r is Some <==> (tmv(*$p1.term).tag == 2 && tmv(*$p1.term).kids.len() >= 1),
        $r is Some ==> sv($r->0) == (SenV { t: tmv(*$p1.term).kids[0], p: EnumPunctation::GOAL, ids: $p1.stamp.ids@, occ: None, dt: None, e: Some(EvV::Tv(sden(*$p1))) }),
@@end
// ---------------------------------------------------------------- variable introduction
/// x with every occurrence of a (outside image relations) replaced by w
pub open spec fn s_repl(x: TermV, a: TermV, w: TermV) -> TermV decreases x {
    if x == a { w } else { TermV { tag: x.tag, num: x.num, name: x.name, kids: Seq::new(x.kids.len(), |i: int| if 0 <= i < x.kids.len() { if i < arms(x) { s_repl(x.kids[i], a, w) } else { x.kids[i] } } else { x }) } }
}
#[verifier::opaque]
pub open spec fn s_repls(k: Seq<TermV>, a: TermV, w: TermV) -> Seq<TermV> { Seq::new(k.len(), |i: int| s_repl(k[i], a, w)) }
pub broadcast proof fn lemma_repls(k: Seq<TermV>, a: TermV, w: TermV) ensures #![trigger s_repls(k, a, w)] s_repls(k, a, w).len() == k.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] s_repls(k, a, w)[i] == s_repl(k[i], a, w) { reveal(s_repls); }
pub open spec fn hasub(x: TermV, w: TermV) -> bool decreases x { x == w || exists|i: int| 0 <= i < x.kids.len() && hasub(#[trigger] x.kids[i], w) }
pub open spec fn back(x: TermV, w: TermV, a: TermV) -> TermV decreases x {
    if x == w { a } else { TermV { tag: x.tag, num: x.num, name: x.name, kids: Seq::new(x.kids.len(), |i: int| if 0 <= i < x.kids.len() { back(x.kids[i], w, a) } else { x }) } }
}
pub proof fn lemma_back_id(x: TermV, w: TermV, a: TermV) requires !hasub(x, w) ensures back(x, w, a) == x decreases x
{
    assert forall|i: int| 0 <= i < x.kids.len() implies back(#[trigger] x.kids[i], w, a) == x.kids[i] by { assert(!hasub(x.kids[i], w)); lemma_back_id(x.kids[i], w, a); }
    assert(back(x, w, a).kids =~= x.kids);
}
/// generalisation: putting a back for a fresh variable w gives the original term
pub proof fn lemma_repl_back(x: TermV, a: TermV, w: TermV) requires !hasub(x, w), w.kids.len() == 0 ensures back(s_repl(x, a, w), w, a) == x decreases x
{
    if x != a {
        let y = s_repl(x, a, w);
        assert forall|i: int| 0 <= i < x.kids.len() implies back(#[trigger] y.kids[i], w, a) == x.kids[i] by {
            assert(!hasub(x.kids[i], w));
            if i < arms(x) { lemma_repl_back(x.kids[i], a, w); } else { lemma_back_id(x.kids[i], w, a); }
        }
        if y == w { assert(x.kids =~= w.kids); }
        assert(back(y, w, a).kids =~= x.kids);
    }
}
/// without an occurrence nothing changes
pub proof fn lemma_repl_none(x: TermV, a: TermV, w: TermV) requires !hasub(x, a) ensures s_repl(x, a, w) == x decreases x
{
    let y = s_repl(x, a, w);
    assert forall|i: int| 0 <= i < x.kids.len() implies #[trigger] y.kids[i] == x.kids[i] by { assert(!hasub(x.kids[i], a)); if i < arms(x) { lemma_repl_none(x.kids[i], a, w); } }
    assert(y.kids =~= x.kids);
}
pub proof fn lemma_repl(x: TermV, a: TermV, w: TermV)
    ensures x != a && x.tag != 10 ==> s_repl(x, a, w) == (TermV { tag: x.tag, num: x.num, name: x.name, kids: s_repls(x.kids, a, w) }),
        x != a && x.tag == 10 && x.kids.len() > 0 ==> s_repl(x, a, w) == (TermV { tag: x.tag, num: x.num, name: x.name, kids: s_repls(x.kids.drop_last(), a, w).push(x.kids.last()) }),
        s_repls(x.kids, a, w).len() == x.kids.len(),
        x.kids.len() == 0 ==> s_repls(x.kids, a, w) == x.kids,
        x.kids.len() == 1 ==> s_repls(x.kids, a, w) == seq![s_repl(x.kids[0], a, w)],
        x.kids.len() == 2 ==> s_repls(x.kids, a, w) == seq![s_repl(x.kids[0], a, w), s_repl(x.kids[1], a, w)],
{
    reveal(s_repls);
    if x != a && x.tag != 10 { assert(s_repl(x, a, w).kids =~= s_repls(x.kids, a, w)); }
    if x != a && x.tag == 10 && x.kids.len() > 0 { assert(s_repl(x, a, w).kids =~= s_repls(x.kids.drop_last(), a, w).push(x.kids.last())); }
    if x.kids.len() == 0 { assert(s_repls(x.kids, a, w) =~= x.kids); }
    if x.kids.len() == 1 { assert(s_repls(x.kids, a, w) =~= seq![s_repl(x.kids[0], a, w)]); }
    if x.kids.len() == 2 { assert(s_repls(x.kids, a, w) =~= seq![s_repl(x.kids[0], a, w), s_repl(x.kids[1], a, w)]); }
}
pub broadcast proof fn lemma_img_drop(r: TermV, k: int, e: Seq<TermV>) ensures #[trigger] imgv(r, k, e).kids.drop_last() == e, imgv(r, k, e).kids.last() == r { assert(e.push(r).drop_last() =~= e); }
@@fn src/NarInfProcedural.rs intro_vars::helper
@contract
    ensures tmv($r) == s_repl(tmv(*$p1), tmv(*$p2), tmv(*$p3))
    decreases *$p1
@entry
    broadcast use {lemma_repls, lemma_img_drop};
    let ghost vx_x = tmv(*$p1);
    proof { lemma_repl(vx_x, tmv(*$p2), tmv(*$p3)); }
@loop elements
@inv
      tmvs(arr@) =~= s_repls(tmvs($e@), tmv(*$p2), tmv(*$p3)).take($i as int),
@post
    assert(tmvs(arr@) =~= s_repls(tmvs($e@), tmv(*$p2), tmv(*$p3)));
@@end
pub struct VxRng { pub x: u64 }
/// A-RAND: a fresh random independent variable
@@fn src/NarInfProcedural.rs create_random_varname trusted
@sig rand :: rngs :: ThreadRng => VxRng
@contract
    ensures tmv($r).tag == 7
@@end
@@fn src/NarInfProcedural.rs intro_vars
@sig rand :: rngs :: ThreadRng => VxRng
@contract
    requires occ(tmv(*$p1), tmv(*$p2)) <= i64::MAX
    ensures
        occ(tmv(*$p1), tmv(*$p2)) < 2 ==> $r@.len() == 0,
        occ(tmv(*$p1), tmv(*$p2)) >= 2 ==> $r@.len() == 1 && exists|w: TermV| w.tag == 7 && tmv($r@[0]) == #[trigger] s_repl(tmv(*$p1), tmv(*$p2), w),
@@end
/// < (x --> [y], ..) =/> .. >
pub open spec fn introable(x: TermV) -> bool { ispred(x) && x.kids[0].tag == 2 && x.kids[0].kids.len() == 2 && x.kids[0].kids[0].tag == 0 && x.kids[0].kids[0].num == copn(Copula::INH) && x.kids[0].kids[0].kids[1].tag == 3 }
pub open spec fn introdd(x: TermV) -> TermV { x.kids[0].kids[0].kids[0] }
pub open spec fn introduced(x: TermV, y: TermV) -> bool { introable(x) && occ(x, introdd(x)) >= 2 && exists|w: TermV| w.tag == 7 && y == #[trigger] s_repl(x, introdd(x), w) }
@@fn src/NarInfProcedural.rs matchandintro_var1
@sig rand :: rngs :: ThreadRng => VxRng
@contract
    requires forall|vx_s: TermV| #[trigger] occ(tmv(*$p1), vx_s) <= i64::MAX
    ensures
        $r@.len() <= 1,
        $r@.len() == 1 <==> introable(tmv(*$p1)) && occ(tmv(*$p1), introdd(tmv(*$p1))) >= 2,
        $r@.len() == 1 ==> introduced(tmv(*$p1), tmv($r@[0])),
@@end
pub open spec fn wsame(a: Sentence, t: TermV, s: Sentence) -> bool { a.usage == s.usage && tmv(*a.term) == t && sv(a) == (SenV { t, ..sv(s) }) }
@@fn src/NarInfProcedural.rs matchandintro_var1_sentence erase
@sig rand :: rngs :: ThreadRng => VxRng
@contract
    requires forall|vx_s: TermV| #[trigger] occ(tmv(*$p1.term), vx_s) <= i64::MAX
    ensures
        $r@.len() == 1 <==> introable(tmv(*$p1.term)) && occ(tmv(*$p1.term), introdd(tmv(*$p1.term))) >= 2,
        $r@.len() <= 1,
        $r@.len() == 1 ==> introduced(tmv(*$p1.term), tmv(*$r@[0].term)) && sv($r@[0]) == (SenV { t: tmv(*$r@[0].term), ..sv(*$p1) }) && $r@[0].usage == $p1.usage,
@loop each
@inv
      res@.len() == $i,
      forall|q: int| 0 <= q < $i ==> wsame(#[trigger] res@[q], tmv($e@[q]), *$p1),
@@end
}
@@main
