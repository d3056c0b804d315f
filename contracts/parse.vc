// src/NarseseParser.rs: reading terms
@@use termutils.vc
@@include parse_spec.vc
verus! {
/// nom: errors are only distinguished from success
pub struct NomErr;
pub type IResult<I, O> = Result<(I, O), NomErr>;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
pub fn nom_error() -> NomErr { NomErr }
// ASSUMPTION A-NOM: contracts of the combinators of nom that are used
#[verifier::external_body]
pub fn nom_tag<'a>(t: &str, i: &'a str) -> (r: IResult<&'a str, &'a str>)
    ensures match r { Ok((x, m)) => starts(i@, t@) && x@ == i@.skip(t@.len() as int) && m@ == t@, Err(_) => !starts(i@, t@) }
{ loop {} }
#[verifier::external_body]
pub fn nom_take_while1<'a, G: Fn(char) -> bool>(f: G, i: &'a str) -> (r: IResult<&'a str, &'a str>)
    requires forall|c: char| f.requires((c,))
    ensures match r {
        Ok((x, t)) => 1 <= t@.len() && i@ == t@ + x@ && (forall|k: int| 0 <= k < t@.len() ==> f.ensures((#[trigger] t@[k],), true)) && (x@.len() > 0 ==> f.ensures((x@[0],), false)),
        Err(_) => i@.len() == 0 || f.ensures((i@[0],), false) }
{ loop {} }
pub assume_specification [char::is_alphanumeric](c: char) -> (r: bool) ensures r == alnum(c);
pub fn vx_pair_clone<'a>(x: &(&'a str, Term)) -> (r: (&'a str, Term)) ensures r.0@ == x.0@, tmv(r.1) == tmv(x.1) { (x.0, x.1.clone()) }
pub proof fn lemma_lits()
    ensures "{"@ == seq!['{'], "}"@ == seq!['}'], "["@ == seq!['['], "]"@ == seq![']'], "("@ == seq!['('], ")"@ == seq![')'], "(!"@ == seq!['(', '!'], "<"@ == seq!['<'], ">"@ == seq!['>'], "?"@ == seq!['?'], "#"@ == seq!['#'], "$"@ == seq!['$'],
        ","@ == seq![','], "*"@ == seq!['*'], "&"@ == seq!['&'], "|"@ == seq!['|'], "&&"@ == seq!['&', '&'], " /1 "@ == imgt(0), " /2 "@ == imgt(1),
        " <-> "@ == copt(0), " --> "@ == copt(1), " =/> "@ == copt(2), " ==> "@ == copt(3), " <=> "@ == copt(4),
        "{"@.len() == 1, "}"@.len() == 1, "["@.len() == 1, "]"@.len() == 1, "("@.len() == 1, ")"@.len() == 1, "(!"@.len() == 2, "<"@.len() == 1, ">"@.len() == 1, "?"@.len() == 1, "#"@.len() == 1, "$"@.len() == 1, ","@.len() == 1, "*"@.len() == 1, "&"@.len() == 1, "|"@.len() == 1, "&&"@.len() == 2, " /1 "@.len() == 4, " /2 "@.len() == 4, " <-> "@.len() == 5, " --> "@.len() == 5, " =/> "@.len() == 5, " ==> "@.len() == 5, " <=> "@.len() == 5
{
    reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit("(!"); reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("?"); reveal_strlit("#"); reveal_strlit("$");
    reveal_strlit(","); reveal_strlit("*"); reveal_strlit("&"); reveal_strlit("|"); reveal_strlit("&&"); reveal_strlit(" /1 "); reveal_strlit(" /2 "); reveal_strlit(" <-> "); reveal_strlit(" --> "); reveal_strlit(" =/> "); reveal_strlit(" ==> "); reveal_strlit(" <=> ");
    assert("{"@ =~= seq!['{'] && "}"@ =~= seq!['}'] && "["@ =~= seq!['['] && "]"@ =~= seq![']'] && "("@ =~= seq!['('] && ")"@ =~= seq![')'] && "(!"@ =~= seq!['(', '!'] && "<"@ =~= seq!['<'] && ">"@ =~= seq!['>'] && "?"@ =~= seq!['?'] && "#"@ =~= seq!['#'] && "$"@ =~= seq!['$']);
    assert(","@ =~= seq![','] && "*"@ =~= seq!['*'] && "&"@ =~= seq!['&'] && "|"@ =~= seq!['|'] && "&&"@ =~= seq!['&', '&'] && " /1 "@ =~= imgt(0) && " /2 "@ =~= imgt(1));
    assert(" <-> "@ =~= copt(0) && " --> "@ =~= copt(1) && " =/> "@ =~= copt(2) && " ==> "@ =~= copt(3) && " <=> "@ =~= copt(4));
}
/// r: the parse of input as a term of the kinds k
pub open spec fn reads(s: Seq<char>, k: spec_fn(TermV) -> bool, r: IResult<&str, Term>) -> bool {
    match r { Ok((x, t)) => gp(s, tmv(t), x@) && k(tmv(t)), Err(_) => forall|t: TermV, x: Seq<char>| #[trigger] gp(s, t, x) ==> !k(t) }
}
pub broadcast proof fn lemma_gp_len(s: Seq<char>, t: TermV, r: Seq<char>) requires #[trigger] gp(s, t, r) ensures r.len() < s.len() { reveal(gp); lemma_first(t); }
pub broadcast proof fn lemma_starts_len(s: Seq<char>, t: Seq<char>) requires #[trigger] starts(s, t) ensures t.len() <= s.len() { }
// what each shape needs, for a fixed text s
pub proof fn lemma_one(s: Seq<char>, k: int) requires k == 3 || k == 4 || k == 14
    ensures forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == k ==> starts(s, opn(k)) && gp(s.skip(opn(k).len() as int), t.kids[0], cls(k) + r) && starts(cls(k) + r, cls(k)),
        forall|x: TermV, r1: Seq<char>| #[trigger] gp(s.skip(opn(k).len() as int), x, r1) && starts(s, opn(k)) && starts(r1, cls(k)) ==> gp(s, node(k, seq![x]), r1.skip(1)), opn(k).len() == (if k == 14 { 2int } else { 1 }), cls(k).len() == 1
{
    assert forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == k implies starts(s, opn(k)) && gp(s.skip(opn(k).len() as int), t.kids[0], cls(k) + r) && starts(cls(k) + r, cls(k)) by { lemma_one_open(s, t, r); }
    assert forall|x: TermV, r1: Seq<char>| #[trigger] gp(s.skip(opn(k).len() as int), x, r1) && starts(s, opn(k)) && starts(r1, cls(k)) implies gp(s, node(k, seq![x]), r1.skip(1)) by { lemma_one_close(s, k, x, r1); }
}
pub open spec fn mlen(k: int) -> int { if k == 0 { 5 } else { 4 } }
pub proof fn lemma_bin(s: Seq<char>, k: int) requires k == 0 || k == 10
    ensures forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == k ==> bnum(k, t.num) && starts(s, bopn(k)) && gp(s.skip(1), bfst(t), brest(t, r)) && starts(brest(t, r), bmid(k, t.num)) && gp(brest(t, r).skip(mlen(k)), bsnd(t), bcls(k) + r) && starts(bcls(k) + r, bcls(k))
{
    assert forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == k implies bnum(k, t.num) && starts(s, bopn(k)) && gp(s.skip(1), bfst(t), brest(t, r)) && starts(brest(t, r), bmid(k, t.num)) && gp(brest(t, r).skip(mlen(k)), bsnd(t), bcls(k) + r) && starts(bcls(k) + r, bcls(k)) by { lemma_bin_open(s, t, r); }
}
pub proof fn lemma_binc(s: Seq<char>, k: int, n: int) requires bnum(k, n)
    ensures forall|x: TermV, r1: Seq<char>, y: TermV, r2: Seq<char>| #![trigger gp(s.skip(1), x, r1), gp(r1.skip(mlen(k)), y, r2)] starts(s, bopn(k)) && gp(s.skip(1), x, r1) && starts(r1, bmid(k, n)) && gp(r1.skip(mlen(k)), y, r2) && starts(r2, bcls(k)) ==> gp(s, bin(k, n, x, y), r2.skip(1)), bmid(k, n).len() == mlen(k)
{
    assert forall|x: TermV, r1: Seq<char>, y: TermV, r2: Seq<char>| #![trigger gp(s.skip(1), x, r1), gp(r1.skip(mlen(k)), y, r2)] starts(s, bopn(k)) && gp(s.skip(1), x, r1) && starts(r1, bmid(k, n)) && gp(r1.skip(mlen(k)), y, r2) && starts(r2, bcls(k)) implies gp(s, bin(k, n, x, y), r2.skip(1)) by { lemma_bin_close(s, k, n, x, r1, y, r2); }
}
pub broadcast proof fn lemma_tvseq_n(v: Seq<Term>) ensures #![trigger tvseq(v)] v.len() == 2 ==> tvseq(v) == Seq::<TermV>::empty().push(tmv(v[0])).push(tmv(v[1])), v.len() == 3 ==> tvseq(v) == Seq::<TermV>::empty().push(tmv(v[0])).push(tmv(v[1])).push(tmv(v[2])), v.len() == 4 ==> tvseq(v) == Seq::<TermV>::empty().push(tmv(v[0])).push(tmv(v[1])).push(tmv(v[2])).push(tmv(v[3]))
{ broadcast use group_tvs; if v.len() == 2 { assert(tvseq(v) =~= Seq::<TermV>::empty().push(tmv(v[0])).push(tmv(v[1]))); } if v.len() == 3 { assert(tvseq(v) =~= Seq::<TermV>::empty().push(tmv(v[0])).push(tmv(v[1])).push(tmv(v[2]))); } if v.len() == 4 { assert(tvseq(v) =~= Seq::<TermV>::empty().push(tmv(v[0])).push(tmv(v[1])).push(tmv(v[2])).push(tmv(v[3]))); } }
@@fn src/NarseseParser.rs ok1
@contract
    ensures $r is Ok, ($r->Ok_0)@ == $p1@
@@end
@@fn src/NarseseParser.rs isValidSign
@contract
    ensures $r == sign($p1)
@@end
/// the name at the start of s
pub open spec fn nameat(s: Seq<char>, n: Seq<char>, r: Seq<char>) -> bool { s == n + r && 1 <= n.len() && (forall|i: int| 0 <= i < n.len() ==> sign(#[trigger] n[i])) && (r.len() > 0 ==> !sign(r[0])) }
@@fn src/NarseseParser.rs alpha2
@contract
    ensures match $r { Ok((x, n)) => nameat($p1@, n@, x@), Err(_) => $p1@.len() == 0 || !sign($p1@[0]) }
@@end
@@fn src/NarseseParser.rs a
@contract
    ensures reads($p1@, |t: TermV| t.tag == 4, $r)
    decreases $p1@.len(), 0int
@entry
    let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvs_1;
    proof { lemma_lits(); lemma_one(s0, 4); }
@@end
@@fn src/NarseseParser.rs c
@contract
    ensures reads($p1@, |t: TermV| t.tag == 3, $r)
    decreases $p1@.len(), 0int
@entry
    let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvs_1;
    proof { lemma_lits(); lemma_one(s0, 3); }
@@end
@@fn src/NarseseParser.rs parseNeg
@contract
    ensures reads($p1@, |t: TermV| t.tag == 14, $r)
    decreases $p1@.len(), 0int
@entry
    let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len};
    proof { lemma_lits(); lemma_one(s0, 14); }
@@end
pub proof fn lemma_leaf(s: Seq<char>, k: int) requires k == 1 || k == 5 || k == 6 || k == 7
    ensures forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == k ==> (if k == 1 { nameat(s, t.name, r) } else { starts(s, varopn(k)) && nameat(s.skip(1), t.name, r) }),
        forall|n: Seq<char>, r: Seq<char>| k == 1 && #[trigger] nameat(s, n, r) ==> gp(s, leaf(1, n), r),
        forall|n: Seq<char>, r: Seq<char>| k != 1 && starts(s, varopn(k)) && #[trigger] nameat(s.skip(1), n, r) ==> gp(s, leaf(k, n), r),
        forall|n: Seq<char>, r: Seq<char>| #[trigger] nameat(s.skip(1), n, r) ==> s.skip(1).len() > 0 && sign(s.skip(1)[0]),
        forall|n: Seq<char>, r: Seq<char>| #[trigger] nameat(s, n, r) ==> s.len() > 0 && sign(s[0]),
{
    reveal(gp);
    assert forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == k implies (if k == 1 { nameat(s, t.name, r) } else { starts(s, varopn(k)) && nameat(s.skip(1), t.name, r) }) by { if k != 1 { assert(s =~= varopn(k) + (t.name + r)); lemma_cut(s, varopn(k), t.name + r); } }
    assert forall|n: Seq<char>, r: Seq<char>| k == 1 && #[trigger] nameat(s, n, r) implies gp(s, leaf(1, n), r) by { assert(pok(leaf(1, n))); }
    assert forall|n: Seq<char>, r: Seq<char>| k != 1 && starts(s, varopn(k)) && #[trigger] nameat(s.skip(1), n, r) implies gp(s, leaf(k, n), r) by { lemma_glue(s, varopn(k)); assert(pok(leaf(k, n))); assert(s =~= rn(leaf(k, n)) + r); }
    assert forall|n: Seq<char>, r: Seq<char>| #[trigger] nameat(s.skip(1), n, r) implies s.skip(1).len() > 0 && sign(s.skip(1)[0]) by { assert((n + r)[0] == n[0]); }
    assert forall|n: Seq<char>, r: Seq<char>| #[trigger] nameat(s, n, r) implies s.len() > 0 && sign(s[0]) by { assert((n + r)[0] == n[0]); }
}
pub open spec fn varopn(k: int) -> Seq<char> { if k == 5 { seq!['?'] } else if k == 6 { seq!['#'] } else { seq!['$'] } }
/// whatever a text could be read as as a list: its first component and what follows; step by step through the components
pub proof fn lemma_list(s: Seq<char>, k: int) requires islist(k)
    ensures forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == k ==> pok(t) && t.kids.len() >= 2 && starts(s, seq!['(']) && gp(s.skip(1), t.kids[0], lrest(t, 1, r)) && t == node(k, t.kids) && lstep(t, 1, r),
        forall|x: TermV, r1: Seq<char>| starts(s, seq!['(']) && #[trigger] gp(s.skip(1), x, r1) ==> lpre(k, s, Seq::<TermV>::empty().push(x), r1),
        forall|ks: Seq<TermV>, r: Seq<char>| #[trigger] lpre(k, s, ks, r) && larity(k, ks.len() as int) && starts(r, seq![')']) ==> gp(s, node(k, ks), r.skip(1)),
        forall|ks: Seq<TermV>, r: Seq<char>, x: TermV, r2: Seq<char>| #![trigger lpre(k, s, ks, r), gp(r.skip(sep(k).len() as int), x, r2)] lpre(k, s, ks, r) && starts(r, sep(k)) && gp(r.skip(sep(k).len() as int), x, r2) ==> lpre(k, s, ks.push(x), r2),
        sep(k).len() == (if k == 8 { 2int } else { 1 }), k == 2 ==> sep(k) == seq![','], k == 8 ==> sep(k) == seq!['&', '&'], k == 9 ==> sep(k) == seq!['*'], k == 11 ==> sep(k) == seq!['|'], k == 12 ==> sep(k) == seq!['&']
{
    assert forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == k implies pok(t) && t.kids.len() >= 2 && starts(s, seq!['(']) && gp(s.skip(1), t.kids[0], lrest(t, 1, r)) && t == node(k, t.kids) && lstep(t, 1, r) by { lemma_list_open(s, t, r); lemma_lstep(t, 1, r); }
    assert forall|x: TermV, r1: Seq<char>| starts(s, seq!['(']) && #[trigger] gp(s.skip(1), x, r1) implies lpre(k, s, Seq::<TermV>::empty().push(x), r1) by { lemma_lpre_first(k, s, x, r1); assert(seq![x] =~= Seq::<TermV>::empty().push(x)); }
    assert forall|ks: Seq<TermV>, r: Seq<char>| #[trigger] lpre(k, s, ks, r) && larity(k, ks.len() as int) && starts(r, seq![')']) implies gp(s, node(k, ks), r.skip(1)) by { lemma_lpre_close(k, s, ks, r); }
    assert forall|ks: Seq<TermV>, r: Seq<char>, x: TermV, r2: Seq<char>| #![trigger lpre(k, s, ks, r), gp(r.skip(sep(k).len() as int), x, r2)] lpre(k, s, ks, r) && starts(r, sep(k)) && gp(r.skip(sep(k).len() as int), x, r2) implies lpre(k, s, ks.push(x), r2) by { lemma_lpre_next(k, s, ks, r, x, r2); }
}
/// the separators and components from the k-th component on, and what they give
pub open spec fn lstep(t: TermV, k: int, r: Seq<char>) -> bool decreases t.kids.len() - k {
    if k >= t.kids.len() { lrest(t, k, r) == seq![')'] + r && starts(lrest(t, k, r), seq![')']) && !starts(lrest(t, k, r), sep(t.tag)) }
    else { starts(lrest(t, k, r), sep(t.tag)) && gp(lrest(t, k, r).skip(sep(t.tag).len() as int), t.kids[k], lrest(t, k + 1, r)) && !starts(lrest(t, k, r), seq![')']) && lstep(t, k + 1, r) }
}
pub proof fn lemma_lstep(t: TermV, k: int, r: Seq<char>) requires pok(t), islist(t.tag), 1 <= k <= t.kids.len() ensures lstep(t, k, r) decreases t.kids.len() - k
{ lemma_lrest(t, k, r); assert(seq![')'][0] == ')'); if k < t.kids.len() { lemma_lstep(t, k + 1, r); } }
@@fn src/NarseseParser.rs b
@contract
    ensures reads($p1@, |t: TermV| t.tag == 1, $r)
@entry
    proof { lemma_leaf($p1@, 1); }
@@end
@@fn src/NarseseParser.rs qVar
@contract
    ensures reads($p1@, |t: TermV| t.tag == 5, $r)
@entry
    proof { lemma_lits(); lemma_leaf($p1@, 5); }
@@end
@@fn src/NarseseParser.rs depVar
@contract
    ensures reads($p1@, |t: TermV| t.tag == 6, $r)
@entry
    proof { lemma_lits(); lemma_leaf($p1@, 6); }
@@end
@@fn src/NarseseParser.rs indepVar
@contract
    ensures reads($p1@, |t: TermV| t.tag == 7, $r)
@entry
    proof { lemma_lits(); lemma_leaf($p1@, 7); }
@@end
/// the copula at the start of s
pub open spec fn cops(s: Seq<char>, k: spec_fn(int) -> bool, r: IResult<&str, Copula>) -> bool {
    match r { Ok((x, c)) => k(copn(c)) && starts(s, copt(copn(c))) && x@ == s.skip(5), Err(_) => forall|n: int| 0 <= n <= 4 && k(n) ==> !starts(s, #[trigger] copt(n)) }
}
@@fn src/NarseseParser.rs copInh
@contract
    ensures cops($p1@, |n: int| n == 1, $r)
@entry
    proof { lemma_lits(); }
@@end
@@fn src/NarseseParser.rs copSim
@contract
    ensures cops($p1@, |n: int| n == 0, $r)
@entry
    proof { lemma_lits(); }
@@end
@@fn src/NarseseParser.rs copImpl
@contract
    ensures cops($p1@, |n: int| n == 3, $r)
@entry
    proof { lemma_lits(); }
@@end
@@fn src/NarseseParser.rs copPredImpl
@contract
    ensures cops($p1@, |n: int| n == 2, $r)
@entry
    proof { lemma_lits(); }
@@end
@@fn src/NarseseParser.rs copEquiv
@contract
    ensures cops($p1@, |n: int| n == 4, $r)
@entry
    proof { lemma_lits(); }
@@end
@@fn src/NarseseParser.rs parseCopula
@contract
    ensures cops($p1@, |n: int| true, $r)
@@end
@@fn src/NarseseParser.rs parseExtInt2
@contract
    ensures reads($p1@, |t: TermV| t.tag == 12 && t.kids.len() == 2, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(sep); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvseq_n; reveal_with_fuel(lstep, 5);
    proof { lemma_lits(); lemma_list(s0, 12); }
@loop elements
@inv
      tmvs($acc@).len() == $i, forall|vx_q: int| 0 <= vx_q < $i ==> #[trigger] tmvs($acc@)[vx_q] == tmv(*$e@[vx_q]),
@post
    assert(tmvs($acc@) =~= Seq::<TermV>::empty().push(tmv(*$e@[0])).push(tmv(*$e@[1])));
@@end
@@fn src/NarseseParser.rs parseIntInt2
@contract
    ensures reads($p1@, |t: TermV| t.tag == 11 && t.kids.len() == 2, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(sep); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvseq_n; reveal_with_fuel(lstep, 5);
    proof { lemma_lits(); lemma_list(s0, 11); }
@loop elements
@inv
      tmvs($acc@).len() == $i, forall|vx_q: int| 0 <= vx_q < $i ==> #[trigger] tmvs($acc@)[vx_q] == tmv(*$e@[vx_q]),
@post
    assert(tmvs($acc@) =~= Seq::<TermV>::empty().push(tmv(*$e@[0])).push(tmv(*$e@[1])));
@@end
@@fn src/NarseseParser.rs parseConj2
@contract
    ensures reads($p1@, |t: TermV| t.tag == 8 && t.kids.len() == 2, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(sep); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvseq_n; reveal_with_fuel(lstep, 5);
    proof { lemma_lits(); lemma_list(s0, 8); }
@@end
@@fn src/NarseseParser.rs parseConj3
@contract
    ensures reads($p1@, |t: TermV| t.tag == 8 && t.kids.len() == 3, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(sep); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvseq_n; reveal_with_fuel(lstep, 5);
    proof { lemma_lits(); lemma_list(s0, 8); }
@@end
@@fn src/NarseseParser.rs parseConj4
@contract
    ensures reads($p1@, |t: TermV| t.tag == 8 && t.kids.len() == 4, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(sep); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvseq_n; reveal_with_fuel(lstep, 5);
    proof { lemma_lits(); lemma_list(s0, 8); }
@@end
@@fn src/NarseseParser.rs parseImg0
@contract
    ensures reads($p1@, |t: TermV| t.tag == 10 && t.num == 0, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvs_1;
    proof { lemma_lits(); lemma_bin(s0, 10); lemma_binc(s0, 10, 0); }
@exit
    proof { if $r is Ok && ($r->Ok_0).1 is Img { let vx_v = (($r->Ok_0).1->Img_2)@; if vx_v.len() == 1 { assert(tmv(($r->Ok_0).1).kids =~= bin(10, 0, tmv(*($r->Ok_0).1->Img_0), tmv(*vx_v[0])).kids); } } }
@@end
@@fn src/NarseseParser.rs parseImg1
@contract
    ensures reads($p1@, |t: TermV| t.tag == 10 && t.num == 1, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len}; broadcast use lemma_tvs_1;
    proof { lemma_lits(); lemma_bin(s0, 10); lemma_binc(s0, 10, 1); }
@exit
    proof { if $r is Ok && ($r->Ok_0).1 is Img { let vx_v = (($r->Ok_0).1->Img_2)@; if vx_v.len() == 1 { assert(tmv(($r->Ok_0).1).kids =~= bin(10, 1, tmv(*($r->Ok_0).1->Img_0), tmv(*vx_v[0])).kids); } } }
@@end
@@fn src/NarseseParser.rs parseStatement
@contract
    ensures reads($p1@, |t: TermV| t.tag == 0, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_gp_len, lemma_starts_len};
    proof { lemma_lits(); lemma_bin(s0, 0); lemma_copt(); lemma_binc(s0, 0, 0); lemma_binc(s0, 0, 1); lemma_binc(s0, 0, 2); lemma_binc(s0, 0, 3); lemma_binc(s0, 0, 4); }
@@end
/// no copula is the start of another
pub proof fn lemma_copt() ensures forall|s: Seq<char>, m: int, n: int| 0 <= m <= 4 && 0 <= n <= 4 && #[trigger] starts(s, copt(m)) && #[trigger] starts(s, copt(n)) ==> m == n
{ assert forall|s: Seq<char>, m: int, n: int| 0 <= m <= 4 && 0 <= n <= 4 && #[trigger] starts(s, copt(m)) && #[trigger] starts(s, copt(n)) implies m == n by { assert(s[1] == copt(m)[1] && s[2] == copt(m)[2] && s[1] == copt(n)[1] && s[2] == copt(n)[2]); } }
/// the components ks have been read, cur is what follows them; whatever list the text could be goes on with cur
pub open spec fn lcur(tag: int, s: Seq<char>, ks: Seq<TermV>, cur: Seq<char>) -> bool {
    lpre(tag, s, ks, cur) && forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) && t.tag == tag ==> ks.len() <= t.kids.len() && cur == lrest(t, ks.len() as int, r) && lstep(t, ks.len() as int, r)
}
@@fn src/NarseseParser.rs parseSeq
@attr #[verifier::allow_complex_invariants]
@contract
    ensures reads($p1@, |t: TermV| t.tag == 2, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(sep); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_tvseq_n, lemma_gp_len, lemma_starts_len}; reveal_with_fuel(lstep, 3);
    proof { lemma_lits(); lemma_list(s0, 2); }
@loop while
@when $V.push(___)
@when nom_tag(",", $C)
@inv
      $C@.len() < s0.len(), $V@.len() >= 2, lcur(2, s0, tvseq($V@), $C@),
    ensures !starts($C@, sep(2)),
    decreases $C@.len()
@@end
@@fn src/NarseseParser.rs parseProd
@attr #[verifier::allow_complex_invariants]
@contract
    ensures reads($p1@, |t: TermV| t.tag == 9, $r)
    decreases $p1@.len(), 0int
@entry
    hide(starts); hide(sep); hide(pok); hide(rn); hide(tl); let ghost s0 = $p1@; broadcast use {lemma_unamb, lemma_tvseq_n, lemma_gp_len, lemma_starts_len}; reveal_with_fuel(lstep, 3);
    proof { lemma_lits(); lemma_list(s0, 9); }
@loop while
@when $V.push(___)
@when nom_tag("*", $C)
@inv
      $C@.len() < s0.len(), $V@.len() >= 2, lcur(9, s0, tvseq($V@), $C@),
    ensures !starts($C@, sep(9)),
    decreases $C@.len()
@@end
/// the kinds of terms that have a text form
pub open spec fn kinds(t: TermV) -> bool { isleaf(t.tag) || t.tag == 3 || t.tag == 4 || t.tag == 0 || t.tag == 14 || t.tag == 10 && (t.num == 0 || t.num == 1) || t.tag == 2 || t.tag == 9 || (t.tag == 11 || t.tag == 12) && t.kids.len() == 2 || t.tag == 8 && (t.kids.len() == 2 || t.kids.len() == 3 || t.kids.len() == 4) }
pub proof fn lemma_kinds(s: Seq<char>) ensures forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) ==> kinds(t)
{ assert forall|t: TermV, r: Seq<char>| #[trigger] gp(s, t, r) implies kinds(t) by { lemma_gp_first(s, t, r); } }
@@fn src/NarseseParser.rs parseSubjOrPred pairclone
@contract
    ensures reads($p1@, |t: TermV| true, $r)
    decreases $p1@.len(), 1int
@entry
    hide(starts); hide(sep); hide(pok); hide(rn); hide(tl);
    proof { lemma_kinds($p1@); }
@@end
@@fn src/NarseseParser.rs parseEntry
@contract
    ensures reads($p1@, |t: TermV| true, $r)
@@end
}
@@main
