// src/NarProc.rs: contingencies and their parts
@@use goalinf.vc
@@use termutils.vc
verus! {
// ---------------------------------------------------------------- sequential implications and their parts
/// <(a, b, ..) =/> c>
pub open spec fn implv(cond: Seq<TermV>, c: TermV) -> TermV { stmtv(Copula::PREDIMPL, node(2, cond), c) }
pub open spec fn isseq(x: TermV) -> bool { x.tag == 2 }
pub open spec fn isimplseq(x: TermV) -> bool { ispred(x) && isseq(x.kids[0]) }
/// the condition that has to be observed first
pub open spec fn condv(x: TermV) -> TermV { if isseq(x.kids[0]) { x.kids[0].kids[0] } else { x.kids[0] } }
pub open spec fn condok(x: TermV) -> bool { ispred(x) && (isseq(x.kids[0]) ==> x.kids[0].kids.len() >= 1) }
@@fn src/NarProc.rs retPred
@contract
    requires ispred(tmv(*$p1))
    ensures tmv($r) == tmv(*$p1).kids[1]
@@end
@@fn src/NarProc.rs retSubj
@contract
    requires ispred(tmv(*$p1))
    ensures tmv($r) == tmv(*$p1).kids[0]
@@end
@@fn src/NarProc.rs retImplSeqOp
@contract
    requires isimplseq(tmv(*$p1)), tmv(*$p1).kids[0].kids.len() >= 2
    ensures tmv($r) == tmv(*$p1).kids[0].kids[1]
@@end
@@fn src/NarProc.rs retSeqLast
@contract
    requires isseq(tmv(*$p1)), tmv(*$p1).kids.len() >= 1
    ensures tmv($r) == tmv(*$p1).kids.last()
@@end
@@fn src/NarProc.rs retSeqCond
@contract
    requires condok(tmv(*$p1))
    ensures tmv($r) == condv(tmv(*$p1))
@@end
@@fn src/NarProc.rs retSeqCond2
@contract
    requires isseq(tmv(*$p1)), tmv(*$p1).kids.len() >= 1
    ensures tmv($r) == tmv(*$p1).kids[0]
@@end
@@fn src/NarProc.rs is_seq
@contract
    ensures $r == isseq(tmv(*$p1))
@@end
@@fn src/NarProc.rs is_seqAndLastOp
@contract
    requires isseq(tmv(*$p1)) ==> tmv(*$p1).kids.len() >= 1
    ensures $r == (isseq(tmv(*$p1)) && isop(tmv(*$p1).kids.last()))
@@end

}
