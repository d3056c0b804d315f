// src/TermUtils.rs, src/TermApi.rs: operator calls and term builders
@@use term.vc
verus! {
/// <{(a0 * a1 * ..)} --> name>
pub open spec fn opv(args: Seq<TermV>, name: Seq<char>) -> TermV { stmtv(Copula::INH, node(4, seq![node(9, args)]), leaf(1, name)) }
pub open spec fn isop(x: TermV) -> bool { x.tag == 0 && x.num == copn(Copula::INH) && x.kids[1].tag == 1 && x.kids[0].tag == 4 && x.kids[0].kids.len() == 1 && x.kids[0].kids[0].tag == 9 && x.kids[0].kids[0].kids.len() >= 1 }
pub open spec fn opargs(x: TermV) -> Seq<TermV> { x.kids[0].kids[0].kids }
pub open spec fn opname(x: TermV) -> Seq<char> { x.kids[1].name }
/// decoding inverts encoding, and only encodings decode
pub proof fn lemma_op(args: Seq<TermV>, name: Seq<char>) requires args.len() >= 1 ensures isop(opv(args, name)), opargs(opv(args, name)) == args, opname(opv(args, name)) == name {}
pub broadcast proof fn lemma_tvs_1(v: Seq<Box<Term>>) requires v.len() == 1 ensures #[trigger] tmvs(v) == seq![tmv(*v[0])] { broadcast use group_tvs; assert(tmvs(v) =~= seq![tmv(*v[0])]); }
@@fn src/TermUtils.rs decodeOp
@contract
    ensures $r is Some <==> isop(tmv(*$p1)),
        $r is Some ==> tvseq(($r->0).0@) == opargs(tmv(*$p1)) && ($r->0).1@ == opname(tmv(*$p1))
@loop args
@inv
      tvseq($acc@) =~= tmvs($e@).take($i as int),
@post
    assert(tvseq($acc@) =~= tmvs($e@));
@@end
@@fn src/TermUtils.rs encodeOp
@contract
    ensures tmv($r) == opv(tvseq($p1@), $p2@)
@entry
    broadcast use lemma_tvs_1;
@loop args
@inv
      tmvs($acc@) =~= tvseq($e@).take($i as int),
@post
    assert(tmvs($acc@) =~= tvseq($e@));
@@end
@@fn src/TermApi.rs p2
@contract
    ensures tmv($r) == node(9, seq![tmv(*$p1), tmv(*$p2)])
@exit
    assert($r->Prod_0@.len() == 2); assert(tmvs($r->Prod_0@) =~= seq![tmv(*$p1), tmv(*$p2)]);
@@end
@@fn src/TermApi.rs p3
@contract
    ensures tmv($r) == node(9, seq![tmv(*$p1), tmv(*$p2), tmv(*$p3)])
@exit
    assert($r->Prod_0@.len() == 3); assert(tmvs($r->Prod_0@) =~= seq![tmv(*$p1), tmv(*$p2), tmv(*$p3)]);
@@end
@@fn src/TermApi.rs p
@contract
    ensures tmv($r) == node(9, tvseq($p1@))
@loop elements
@inv
      tmvs($acc@) =~= tvseq($e@).take($i as int),
@post
    assert(tmvs($acc@) =~= tvseq($e@));
@@end
@@fn src/TermApi.rs s
@contract
    ensures tmv($r) == stmtv($p1, tmv(*$p2), tmv(*$p3))
@@end
@@fn src/TermApi.rs seq
@contract
    ensures tmv($r) == node(2, tvseq($p1@))
@loop elements
@inv
      tmvs($acc@) =~= tvseq($e@).take($i as int),
@post
    assert(tmvs($acc@) =~= tvseq($e@));
@@end
@@fn src/TermApi.rs conj
@contract
    ensures tmv($r) == node(8, tvseq($p1@))
@loop elements
@inv
      tmvs($acc@) =~= tvseq($e@).take($i as int),
@post
    assert(tmvs($acc@) =~= tvseq($e@));
@@end
}
@@main
