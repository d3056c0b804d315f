// src/NarWorkingCycle.rs: conclusions as sentences (evidence bookkeeping)
@@use rules1.vc
@@use rules2.vc
verus! {
/// the conclusion a derived sentence states
pub open spec fn sc(s: (Sentence, F)) -> C { C { t: tmv(*s.0.term), v: (match s.0.evi { Some(Evidence::TV(t)) => tr(t), _ => arbitrary() }), p: s.0.punct } }
#[verifier::opaque]
pub open spec fn scs(s: Seq<(Sentence, F)>) -> vstd::multiset::Multiset<C> decreases s.len() { if s.len() == 0 { vstd::multiset::Multiset::empty() } else { scs(s.drop_last()).insert(sc(s.last())) } }
pub broadcast proof fn lemma_scs_push(s: Seq<(Sentence, F)>, x: (Sentence, F)) ensures #[trigger] scs(s.push(x)) == scs(s).add(om(Some(sc(x)))) { reveal(scs); assert(s.push(x).drop_last() =~= s); assert(scs(s).insert(sc(x)) =~= scs(s).add(om(Some(sc(x))))); }
pub broadcast proof fn lemma_scs_empty(s: Seq<(Sentence, F)>) requires s.len() == 0 ensures #[trigger] scs(s) == vstd::multiset::Multiset::<C>::empty() { reveal(scs); }
pub open spec fn sc1(s: (Sentence, F)) -> C1 { C1 { c: sc(s), bias: s.1@ } }
#[verifier::opaque]
pub open spec fn scs1(s: Seq<(Sentence, F)>) -> vstd::multiset::Multiset<C1> decreases s.len() { if s.len() == 0 { vstd::multiset::Multiset::empty() } else { scs1(s.drop_last()).insert(sc1(s.last())) } }
pub broadcast proof fn lemma_scs1_push(s: Seq<(Sentence, F)>, x: (Sentence, F)) ensures #[trigger] scs1(s.push(x)) == scs1(s).add(om1(Some(sc1(x)))) { reveal(scs1); assert(s.push(x).drop_last() =~= s); assert(scs1(s).insert(sc1(x)) =~= scs1(s).add(om1(Some(sc1(x))))); }
pub broadcast proof fn lemma_scs1_empty(s: Seq<(Sentence, F)>) requires s.len() == 0 ensures #[trigger] scs1(s) == vstd::multiset::Multiset::<C1>::empty() { reveal(scs1); }
/// a derived sentence is eternal, carries a truth value and exactly the given evidential base
pub open spec fn derived(s: Sentence, ids: Seq<i64>) -> bool { s.stamp.ids@ == ids && s.t is None && s.expDt is None && (s.evi matches Some(Evidence::TV(t))) && s.usage.useCount == 0 && s.usage.lastUsed == 0 }
pub open spec fn alld(s: Seq<(Sentence, F)>, ids: Seq<i64>) -> bool { forall|q: int| 0 <= q < s.len() ==> #[trigger] der1(s[q], ids) }
pub open spec fn der1(s: (Sentence, F), ids: Seq<i64>) -> bool { derived(s.0, ids) && s.1@ == 1real }
pub open spec fn prem_of(s: Sentence) -> TvR { etv(ev(s.evi->0)) }
@@fn src/NarWorkingCycle.rs inference2 erase
@byval infConcl
@contract
    requires prem($p2, *$p4), prem($p6, *$p8), $p3.ids@.len() + $p7.ids@.len() <= usize::MAX
    ensures
        overlap($p3.ids@, $p7.ids@) ==> $r@.len() == 0,
        !overlap($p3.ids@, $p7.ids@) ==> scs($r@) == rules_both(tmv(*$p1), $p2, to(*$p4), tmv(*$p5), $p6, to(*$p8)),
        alld($r@, s_merge($p3.ids@, $p7.ids@)),
        !overlap($p3.ids@, $p7.ids@) ==> *final($p9) == ($r@.len() > 0),
@entry
    broadcast use {lemma_scs_push, lemma_scs_empty};
@loop wrap
@pre
    proof { lemma_cms_take($e@, 0); }
@inv
      scs(concl@) == cms($e@.take($i as int)), concl@.len() == $i,
      alld(concl@, s_merge($p3.ids@, $p7.ids@)),
@bot
    proof { lemma_cms_take($e@, $i as int); }
@post
    proof { assert($e@.take($e@.len() as int) =~= $e@); }
@@end
@@fn src/NarWorkingCycle.rs inference erase
@contract
    requires senok(sv(*$p1)), senok(sv(*$p2)), $p1.stamp.ids@.len() + $p2.stamp.ids@.len() <= usize::MAX
    ensures
        overlap($p1.stamp.ids@, $p2.stamp.ids@) ==> $r@.len() == 0,
        !overlap($p1.stamp.ids@, $p2.stamp.ids@) ==> scs($r@) == rules_both(tmv(*$p1.term), $p1.punct, prem_of(*$p1), tmv(*$p2.term), $p2.punct, prem_of(*$p2)),
        alld($r@, s_merge($p1.stamp.ids@, $p2.stamp.ids@)),
        !overlap($p1.stamp.ids@, $p2.stamp.ids@) ==> *final($p3) == ($r@.len() > 0),
@@end
@@fn src/NarWorkingCycle.rs infSinglePremise2 erase
@byval infConcl
@contract
    requires senok(sv(*$p1))
    ensures
        scs1($r@) == (if $p1.punct == EnumPunctation::JUGEMENT { rules1(tmv(*$p1.term), prem_of(*$p1)) } else { vstd::multiset::Multiset::empty() }),
        forall|q: int| 0 <= q < $r@.len() ==> derived(#[trigger] $r@[q].0, $p1.stamp.ids@),
@entry
    broadcast use {lemma_scs1_push, lemma_scs1_empty};
@loop wrap
@pre
    proof { lemma_cms1_take($e@, 0); }
@inv
      scs1(concl@) == cms1($e@.take($i as int)), concl@.len() == $i,
      forall|q: int| 0 <= q < concl@.len() ==> derived(#[trigger] concl@[q].0, $p1.stamp.ids@),
@bot
    proof { lemma_cms1_take($e@, $i as int); }
@post
    proof { assert($e@.take($e@.len() as int) =~= $e@); }
@@end
}
@@main
