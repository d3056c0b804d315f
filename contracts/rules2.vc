// src/NarWorkingCycle.rs: rules with two premises
@@use rules_spec.vc
verus! {
pub open spec fn gate(p: EnumPunctation, q: EnumPunctation, c: Option<C>) -> Option<C> { if jj(p, q) { c } else { None } }
impl VxClone for (Term, Tv, EnumPunctation) { open spec fn vx_cl(&self, r: &Self) -> bool { cv(*self) == cv(*r) } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { loop {} } }
@@fn src/NarWorkingCycle.rs infGeneralizedJudgJudg::sel
@contract
    ensures *$r == (if $p3 == 1 { *$p1 } else { *$p2 })
@@end
@@fn src/NarWorkingCycle.rs infGeneralizedJudgJudg
@contract
    requires prem($p2, *$p3), prem($p5, *$p6), ($p10 == 1 || $p10 == -1), ($p11 == 1 || $p11 == -1),
        forall|x: &Tv, y: &Tv| okc(tr(*x)) && okc(tr(*y)) ==> #[trigger] $p12.requires((x, y)),
    ensures
        $r is Some ==> exists|x: &Tv, y: &Tv, z: Tv| #[trigger] $p12.ensures((x, y), z) && *x == ($p3)->0 && *y == ($p6)->0 && oc($r) == gate($p2, $p5, r_syl(tmv(*$p1), tmv(*$p4), $p7, $p8, $p9, $p10 as int, $p11 as int, tr(z))),
        $r is None ==> forall|v: TvR| gate($p2, $p5, #[trigger] r_syl(tmv(*$p1), tmv(*$p4), $p7, $p8, $p9, $p10 as int, $p11 as int, v)) is None,
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs infCompPred
@contract
    requires prem($p2, *$p3), prem($p5, *$p6)
    ensures oc($r) == gate($p2, $p5, r_comp_pred(tmv(*$p1), to(*$p3), tmv(*$p4), to(*$p6)))
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs infCompSubj
@contract
    requires prem($p2, *$p3), prem($p5, *$p6)
    ensures oc($r) == gate($p2, $p5, r_comp_subj(tmv(*$p1), to(*$p3), tmv(*$p4), to(*$p6)))
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs inf10
@contract
    requires prem($p2, *$p3), prem($p5, *$p6)
    ensures oc($r) == gate($p2, $p5, r_int(tmv(*$p1), to(*$p3), tmv(*$p4), to(*$p6)))
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs inf4
@contract
    ensures $r is None
@@end
@@fn src/NarWorkingCycle.rs infImplDed
@contract
    requires prem($p2, *$p3), prem($p5, *$p6)
    ensures oc($r) == gate($p2, $p5, r_detach(tmv(*$p1), to(*$p3), tmv(*$p4), to(*$p6)))
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs inf7
@contract
    requires prem($p5, *$p6)
    ensures oc($r) == (if $p2 == EnumPunctation::QUESTION && $p5 == EnumPunctation::JUGEMENT { r_ask(tmv(*$p1), tmv(*$p4), to(*$p6)) } else { None })
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs inf3
@contract
    requires prem($p2, *$p3), prem($p5, *$p6)
    ensures oc($r) == gate($p2, $p5, r_setint(tmv(*$p1), to(*$p3), tmv(*$p4), to(*$p6)))
@entry
    broadcast use {group_small, group_tvs};
@loop append-all
@pre
    let ghost vx_before = union_@;
@inv
      union_@.len() == vx_before.len() + $i,
      forall|q: int| 0 <= q < vx_before.len() ==> tmv(*#[trigger] union_@[q]) == tmv(*vx_before[q]),
      forall|q: int| vx_before.len() <= q < union_@.len() ==> tmv(*#[trigger] union_@[q]) == tmv(*$e@[q - vx_before.len()]),
@exit
    assert($r is Some ==> pr(tmv(($r->0).0)).kids =~= pr(tmv(*$p1)).kids + pr(tmv(*$p4)).kids);
@@end
@@fn src/NarWorkingCycle.rs inf5
@contract
    requires prem($p2, *$p3), prem($p5, *$p6)
    ensures oc($r) == gate($p2, $p5, r_conj(tmv(*$p1), to(*$p3), tmv(*$p4), to(*$p6), $p7 as int))
@entry
    broadcast use {group_small, group_tvs, lemma_apps};
@loop rest
@inv
      tmvs(conclConj@) == apps(vx_remk(tmvs(arr@), $p7 as int, $i as int), amap(unifyVal@)),
@@end
@@fn src/NarWorkingCycle.rs infBinaryInner
@contract
    requires prem($p2, *$p3), prem($p5, *$p6)
    ensures cms($r@) == rules2(tmv(*$p1), $p2, to(*$p3), tmv(*$p4), $p5, to(*$p6)),
        *final($p7) == (*old($p7) || $r@.len() > 0)
@entry
    broadcast use {lemma_cms_push, lemma_cms_empty};
@exit
    proof { reveal(jjrules); }
    assert(cms($r@) =~= rules2(tmv(*$p1), $p2, to(*$p3), tmv(*$p4), $p5, to(*$p6)));
@@end
@@fn src/NarWorkingCycle.rs infBinary
@contract
    requires prem($p2, *$p3), prem($p5, *$p6)
    ensures cms($r@) == rules_both(tmv(*$p1), $p2, to(*$p3), tmv(*$p4), $p5, to(*$p6)),
        *final($p7) == ($r@.len() > 0)
@entry
    broadcast use {lemma_cms_push, lemma_cms_empty};
@loop append-all
@pre
    let ghost vx_before = res@;
    proof { lemma_cms_take($e@, 0); assert(cms(vx_before).add(cms($e@.take(0))) =~= cms(vx_before)); }
@inv
      cms(res@) == cms(vx_before).add(cms($e@.take($i as int))), res@.len() == vx_before.len() + $i,
@bot
    proof { lemma_cms_take($e@, $i as int); assert(cms(res@) =~= cms(vx_before).add(cms($e@.take($i as int)))); }
@post
    proof { assert($e@.take($e@.len() as int) =~= $e@); }
@exit
    assert(cms($r@) =~= rules_both(tmv(*$p1), $p2, to(*$p3), tmv(*$p4), $p5, to(*$p6)));
@@end
pub proof fn lemma_cms_take(s: Seq<(Term, Tv, EnumPunctation)>, i: int) requires 0 <= i <= s.len()
    ensures i > 0 ==> cms(s.take(i)) == cms(s.take(i - 1)).add(om(Some(cv(s[i - 1])))), cms(s.take(0)) == vstd::multiset::Multiset::<C>::empty()
{ broadcast use {lemma_cms_push, lemma_cms_empty}; if i > 0 { assert(s.take(i) =~= s.take(i - 1).push(s[i - 1])); } }
pub open spec fn vx_remk(k: Seq<TermV>, c: int, i: int) -> Seq<TermV> { if i <= c { k.take(i) } else { k.take(c) + k.subrange(c + 1, i) } }
}
@@main
