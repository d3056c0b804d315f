// src/NarWorkingCycle.rs: rules with one premise
@@use rules_spec.vc
verus! {
@@fn src/NarWorkingCycle.rs infNeg
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_neg(tmv(*$p1), to(*$p3)) } else { None })
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs infStructPred1
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_pred(tmv(*$p1), to(*$p3), $p4 as int) } else { None })
@@end
@@fn src/NarWorkingCycle.rs infStructSubj1
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_subj(tmv(*$p1), to(*$p3), $p4 as int) } else { None })
@@end
@@fn src/NarWorkingCycle.rs infStructProd0
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_prod(tmv(*$p1), to(*$p3), 0) } else { None })
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs infStructProd1
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_prod(tmv(*$p1), to(*$p3), 1) } else { None })
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs infStructImg0
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_img(tmv(*$p1), to(*$p3), 0) } else { None })
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs infStructImg1
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_img(tmv(*$p1), to(*$p3), 1) } else { None })
@entry
    broadcast use group_small;
@@end
@@fn src/NarWorkingCycle.rs infStructSetInt
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_set(tmv(*$p1), to(*$p3), 3) } else { None })
@@end
@@fn src/NarWorkingCycle.rs infStructSetExt
@contract
    requires prem($p2, *$p3)
    ensures oc1($r) == (if $p2 == EnumPunctation::JUGEMENT { u_set(tmv(*$p1), to(*$p3), 4) } else { None })
@@end
@@fn src/NarWorkingCycle.rs infStructDecomposePar
@contract
    requires prem($p2, *$p3)
    ensures
        $r is Some <==> ($p2 == EnumPunctation::JUGEMENT && ispar(tmv(*$p1))),
        $r is Some ==> cms1($r->0@) == u_pars(tmv(*$p1), to(*$p3), pr(tmv(*$p1)).kids.len() as int)
@entry
    broadcast use {lemma_cms1_push, lemma_cms1_empty};
    let ghost vx_x = tmv(*$p1);
    proof { reveal_with_fuel(u_pars, 2); }
@loop components
@inv
      cms1(res@) == u_pars(vx_x, to(*$p3), $i as int),
@@end
@@fn src/NarWorkingCycle.rs infSinglePremise
@byval arr
@contract
    requires prem($p2, *$p3)
    ensures cms1($r@) == (if $p2 == EnumPunctation::JUGEMENT { rules1(tmv(*$p1), to(*$p3)) } else { vstd::multiset::Multiset::empty() })
@entry
    broadcast use {lemma_cms1_push, lemma_cms1_empty};
@loop append-all
@pre
    let ghost vx_before = cms1(res@);
    proof { lemma_cms1_take($e@, 0); assert(vx_before.add(cms1($e@.take(0))) =~= vx_before); }
@inv
      cms1(res@) == vx_before.add(cms1($e@.take($i as int))),
@bot
    proof { lemma_cms1_take($e@, $i as int); assert(cms1(res@) =~= vx_before.add(cms1($e@.take($i as int)))); }
@post
    proof { assert($e@.take($e@.len() as int) =~= $e@); }
@exit
    assert(cms1($r@) =~= (if $p2 == EnumPunctation::JUGEMENT { rules1(tmv(*$p1), to(*$p3)) } else { vstd::multiset::Multiset::empty() }));
@@end
pub proof fn lemma_cms1_take(s: Seq<(Term, Tv, EnumPunctation, F)>, i: int) requires 0 <= i <= s.len()
    ensures i > 0 ==> cms1(s.take(i)) == cms1(s.take(i - 1)).add(om1(Some(cv1(s[i - 1])))), cms1(s.take(0)) == vstd::multiset::Multiset::<C1>::empty()
{ broadcast use {lemma_cms1_push, lemma_cms1_empty}; if i > 0 { assert(s.take(i) =~= s.take(i - 1).push(s[i - 1])); } }
}
@@main
