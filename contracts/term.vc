// src/Term.rs: deep view of terms, equality, cloning, subterm enumeration, complexity
@@include core.vc
verus! {
@@item src/Term.rs Copula derive=PartialEq,Eq,Copy,Clone,Structural
impl PartialEqSpecImpl for Copula { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Copula) -> bool { *self == *o } }
impl VxEq for Copula { open spec fn vx_same(&self, o: &Self) -> bool { *self == *o } fn vx_eq_m(&self, o: &Self) -> (r: bool) { *self == *o } }
@@item src/Term.rs Term

pub struct TermV { pub tag: int, pub num: int, pub name: Seq<char>, pub kids: Seq<TermV> }

pub open spec fn copn(c: Copula) -> int { match c { Copula::SIM => 0, Copula::INH => 1, Copula::PREDIMPL => 2, Copula::IMPL => 3, Copula::EQUIV => 4 } }
#[verifier::opaque]
pub open spec fn tmvs(v: Seq<Box<Term>>) -> Seq<TermV> decreases v { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { tmv(*v[i]) } else { arbitrary() }) }
pub open spec fn node(tag: int, kids: Seq<TermV>) -> TermV { TermV { tag, num: 0, name: Seq::empty(), kids } }
pub open spec fn leaf(tag: int, name: Seq<char>) -> TermV { TermV { tag, num: 0, name, kids: Seq::empty() } }
pub open spec fn stmtv(c: Copula, a: TermV, b: TermV) -> TermV { TermV { tag: 0, num: copn(c), name: Seq::empty(), kids: seq![a, b] } }
pub open spec fn imgv(rel: TermV, k: int, els: Seq<TermV>) -> TermV { TermV { tag: 10, num: k, name: Seq::empty(), kids: els.push(rel) } }
/// deep value of a term (an image's relation is its last component)
#[verifier::opaque]
pub open spec fn tmv(t: Term) -> TermV decreases t {
    match t {
        Term::Stmt(c, a, b) => stmtv(c, tmv(*a), tmv(*b)),
        Term::Name(n) => leaf(1, n@),
        Term::Seq(v) => node(2, tmvs(v@)),
        Term::SetInt(v) => node(3, tmvs(v@)),
        Term::SetExt(v) => node(4, tmvs(v@)),
        Term::QVar(n) => leaf(5, n@),
        Term::DepVar(n) => leaf(6, n@),
        Term::IndepVar(n) => leaf(7, n@),
        Term::Conj(v) => node(8, tmvs(v@)),
        Term::Prod(v) => node(9, tmvs(v@)),
        Term::Img(r, k, v) => imgv(tmv(*r), k as int, tmvs(v@)),
        Term::IntInt(v) => node(11, tmvs(v@)),
        Term::ExtInt(v) => node(12, tmvs(v@)),
        Term::Par(v) => node(13, tmvs(v@)),
        Term::Neg(a) => node(14, seq![tmv(*a)]),
    }
}
#[verifier::opaque]
pub open spec fn tvseq(s: Seq<Term>) -> Seq<TermV> { Seq::new(s.len(), |i: int| tmv(s[i])) }

pub broadcast proof fn lemma_tvs_len(v: Seq<Box<Term>>) ensures #[trigger] tmvs(v).len() == v.len() { reveal(tmvs); }
pub broadcast proof fn lemma_tvs_idx(v: Seq<Box<Term>>, i: int) requires 0 <= i < v.len() ensures #[trigger] tmvs(v)[i] == tmv(*v[i]) { reveal(tmvs); reveal(tmv); }
pub broadcast proof fn lemma_tvs_push(v: Seq<Box<Term>>, b: Box<Term>) ensures #[trigger] tmvs(v.push(b)) == tmvs(v).push(tmv(*b))
{ broadcast use {lemma_tvs_len, lemma_tvs_idx}; assert(tmvs(v.push(b)) =~= tmvs(v).push(tmv(*b))); }
pub broadcast proof fn lemma_tv_Stmt(c: Copula, a: Box<Term>, b: Box<Term>) ensures #[trigger] tmv(Term::Stmt(c, a, b)) == stmtv(c, tmv(*a), tmv(*b)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_Name(n: String) ensures #[trigger] tmv(Term::Name(n)) == leaf(1, n@) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_QVar(n: String) ensures #[trigger] tmv(Term::QVar(n)) == leaf(5, n@) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_DepVar(n: String) ensures #[trigger] tmv(Term::DepVar(n)) == leaf(6, n@) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_IndepVar(n: String) ensures #[trigger] tmv(Term::IndepVar(n)) == leaf(7, n@) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_Seq(v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::Seq(v)) == node(2, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_SetInt(v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::SetInt(v)) == node(3, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_SetExt(v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::SetExt(v)) == node(4, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_Conj(v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::Conj(v)) == node(8, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_Prod(v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::Prod(v)) == node(9, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_IntInt(v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::IntInt(v)) == node(11, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_ExtInt(v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::ExtInt(v)) == node(12, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_Par(v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::Par(v)) == node(13, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_Img(r: Box<Term>, k: usize, v: Vec<Box<Term>>) ensures #[trigger] tmv(Term::Img(r, k, v)) == imgv(tmv(*r), k as int, tmvs(v@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tv_Neg(a: Box<Term>) ensures #[trigger] tmv(Term::Neg(a)) == node(14, seq![tmv(*a)]) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub open spec fn tagof(t: Term) -> int { match t { Term::Stmt(..) => 0, Term::Name(..) => 1, Term::Seq(..) => 2, Term::SetInt(..) => 3, Term::SetExt(..) => 4, Term::QVar(..) => 5, Term::DepVar(..) => 6, Term::IndepVar(..) => 7, Term::Conj(..) => 8, Term::Prod(..) => 9, Term::Img(..) => 10, Term::IntInt(..) => 11, Term::ExtInt(..) => 12, Term::Par(..) => 13, Term::Neg(..) => 14 } }
pub broadcast proof fn lemma_tag(t: Term) ensures (#[trigger] tmv(t)).tag == tagof(t), atom(tmv(t)) ==> tmv(t).kids == Seq::<TermV>::empty() && tmv(t).num == 0 { reveal_with_fuel(tmv, 2); }
pub broadcast proof fn lemma_as_Seq(t: Term) requires t is Seq ensures #![trigger tmv(t), t->Seq_0] tmv(t) == node(2, tmvs(t->Seq_0@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_SetInt(t: Term) requires t is SetInt ensures #![trigger tmv(t), t->SetInt_0] tmv(t) == node(3, tmvs(t->SetInt_0@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_SetExt(t: Term) requires t is SetExt ensures #![trigger tmv(t), t->SetExt_0] tmv(t) == node(4, tmvs(t->SetExt_0@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_Conj(t: Term) requires t is Conj ensures #![trigger tmv(t), t->Conj_0] tmv(t) == node(8, tmvs(t->Conj_0@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_Prod(t: Term) requires t is Prod ensures #![trigger tmv(t), t->Prod_0] tmv(t) == node(9, tmvs(t->Prod_0@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_IntInt(t: Term) requires t is IntInt ensures #![trigger tmv(t), t->IntInt_0] tmv(t) == node(11, tmvs(t->IntInt_0@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_ExtInt(t: Term) requires t is ExtInt ensures #![trigger tmv(t), t->ExtInt_0] tmv(t) == node(12, tmvs(t->ExtInt_0@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_Par(t: Term) requires t is Par ensures #![trigger tmv(t), t->Par_0] tmv(t) == node(13, tmvs(t->Par_0@)) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_Name(t: Term) requires t is Name ensures #![trigger tmv(t), t->Name_0] tmv(t) == leaf(1, t->Name_0@) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_QVar(t: Term) requires t is QVar ensures #![trigger tmv(t), t->QVar_0] tmv(t) == leaf(5, t->QVar_0@) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_DepVar(t: Term) requires t is DepVar ensures #![trigger tmv(t), t->DepVar_0] tmv(t) == leaf(6, t->DepVar_0@) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_IndepVar(t: Term) requires t is IndepVar ensures #![trigger tmv(t), t->IndepVar_0] tmv(t) == leaf(7, t->IndepVar_0@) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_Stmt(t: Term) requires t is Stmt ensures #![trigger tmv(t), t->Stmt_0] #![trigger tmv(t), t->Stmt_1] #![trigger tmv(t), t->Stmt_2] tmv(t) == stmtv(t->Stmt_0, tmv(*t->Stmt_1), tmv(*t->Stmt_2)), tmv(t).kids.len() == 2, tmv(t).kids[0] == tmv(*t->Stmt_1), tmv(t).kids[1] == tmv(*t->Stmt_2) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_Img(t: Term) requires t is Img ensures #![trigger tmv(t), t->Img_2] tmv(t) == imgv(tmv(*t->Img_0), t->Img_1 as int, tmvs(t->Img_2@)), tmv(t).kids.len() == t->Img_2@.len() + 1, tmv(t).kids[t->Img_2@.len() as int] == tmv(*t->Img_0) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_as_Neg(t: Term) requires t is Neg ensures #![trigger tmv(t), t->Neg_0] tmv(t) == node(14, seq![tmv(*t->Neg_0)]), tmv(t).kids.len() == 1, tmv(t).kids[0] == tmv(*t->Neg_0) { reveal_with_fuel(tmv, 2); reveal(tmvs); }
pub broadcast proof fn lemma_tvseq_len(s: Seq<Term>) ensures #[trigger] tvseq(s).len() == s.len() { reveal(tvseq); }
pub broadcast proof fn lemma_tvseq_idx(s: Seq<Term>, i: int) requires 0 <= i < s.len() ensures #[trigger] tvseq(s)[i] == tmv(s[i]) { reveal(tvseq); }
pub broadcast proof fn lemma_tvseq_push(s: Seq<Term>, t: Term) ensures #[trigger] tvseq(s.push(t)) == tvseq(s).push(tmv(t)) { reveal(tvseq); assert(tvseq(s.push(t)) =~= tvseq(s).push(tmv(t))); }
pub broadcast group group_tvs { lemma_tvseq_len, lemma_tvseq_idx, lemma_tvseq_push, lemma_tvs_len, lemma_tvs_idx, lemma_tvs_push, lemma_tv_Stmt, lemma_tv_Name, lemma_tv_QVar, lemma_tv_DepVar, lemma_tv_IndepVar, lemma_tv_Seq, lemma_tv_SetInt, lemma_tv_SetExt, lemma_tv_Conj, lemma_tv_Prod, lemma_tv_IntInt, lemma_tv_ExtInt, lemma_tv_Par, lemma_tv_Img, lemma_tv_Neg, lemma_tag, lemma_as_Seq, lemma_as_SetInt, lemma_as_SetExt, lemma_as_Conj, lemma_as_Prod, lemma_as_IntInt, lemma_as_ExtInt, lemma_as_Par, lemma_as_Name, lemma_as_QVar, lemma_as_DepVar, lemma_as_IndepVar, lemma_as_Stmt, lemma_as_Img, lemma_as_Neg }
@@entryall broadcast use group_tvs;

/// structural equality of two values is equality of their parts
pub broadcast proof fn lemma_eq_node(a: int, x: Seq<TermV>, b: int, y: Seq<TermV>)
    ensures #![trigger node(a, x), node(b, y)] (node(a, x) == node(b, y)) <==> (a == b && x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == y[i])
{ if x.len() == y.len() && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == y[i]) { assert(x =~= y); } if node(a, x) == node(b, y) { assert(node(a, x).kids == node(b, y).kids); } }
pub broadcast proof fn lemma_eq_img(r: TermV, k: int, x: Seq<TermV>, s: TermV, l: int, y: Seq<TermV>)
    ensures #![trigger imgv(r, k, x), imgv(s, l, y)] (imgv(r, k, x) == imgv(s, l, y)) <==> (k == l && r == s && x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == y[i])
{
    if x.len() == y.len() && (forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == y[i]) { assert(x =~= y); }
    if imgv(r, k, x) == imgv(s, l, y) {
        assert(x.push(r) == y.push(s)); assert(x.push(r).len() == x.len() + 1); assert(y.push(s).len() == y.len() + 1);
        assert(x.push(r)[x.len() as int] == r); assert(y.push(s)[y.len() as int] == s);
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == y[i] by { assert(x.push(r)[i] == x[i]); assert(y.push(s)[i] == y[i]); }
    }
}
pub broadcast proof fn lemma_eq_stmt(c: Copula, a: TermV, b: TermV, d: Copula, x: TermV, y: TermV)
    ensures #![trigger stmtv(c, a, b), stmtv(d, x, y)] (stmtv(c, a, b) == stmtv(d, x, y)) <==> (c == d && a == x && b == y)
{ if stmtv(c, a, b) == stmtv(d, x, y) { assert(seq![a, b][0] == seq![x, y][0]); assert(seq![a, b][1] == seq![x, y][1]); } }
pub broadcast proof fn lemma_eq_neg(a: TermV, b: TermV)
    ensures #![trigger node(14, seq![a]), node(14, seq![b])] (node(14, seq![a]) == node(14, seq![b])) <==> (a == b)
{ if node(14, seq![a]) == node(14, seq![b]) { assert(seq![a][0] == seq![b][0]); } }
pub broadcast group group_eq { lemma_eq_neg, lemma_eq_node, lemma_eq_img, lemma_eq_stmt }

/// subterms of a value, in preorder
pub open spec fn subs(x: TermV) -> Seq<TermV> decreases x, x.kids.len() + 1 { seq![x] + subs_k(x, x.kids.len()) }
pub open spec fn subs_k(x: TermV, n: nat) -> Seq<TermV> decreases x, n {
    if n == 0 || n > x.kids.len() { Seq::empty() } else { subs_k(x, (n - 1) as nat) + subs(x.kids[n - 1]) }
}
pub open spec fn atom(x: TermV) -> bool { x.tag == 1 || x.tag == 5 || x.tag == 6 || x.tag == 7 }
/// syntactic complexity: atoms, statements and negations count one each
pub open spec fn cpx(x: TermV) -> nat decreases x, x.kids.len() + 1 { (if atom(x) || x.tag == 0 || x.tag == 14 { 1nat } else { 0nat }) + cpx_k(x, x.kids.len()) }
pub open spec fn cpx_k(x: TermV, n: nat) -> nat decreases x, n {
    if n == 0 || n > x.kids.len() { 0 } else { cpx_k(x, (n - 1) as nat) + cpx(x.kids[n - 1]) }
}
pub proof fn lemma_cpx_mono(x: TermV, m: nat, n: nat) requires m <= n <= x.kids.len() ensures cpx_k(x, m) <= cpx_k(x, n) decreases n
{ if m < n { lemma_cpx_mono(x, m, (n - 1) as nat); } }

pub proof fn lemma_small(x: TermV)
    ensures
        x.kids.len() == 0 ==> subs(x) == seq![x] && cpx_k(x, 0) == 0,
        x.kids.len() == 1 ==> subs(x) == seq![x] + subs(x.kids[0]) && cpx_k(x, 1) == cpx(x.kids[0]),
        x.kids.len() == 2 ==> subs(x) == seq![x] + (subs(x.kids[0]) + subs(x.kids[1])) && cpx_k(x, 2) == cpx(x.kids[0]) + cpx(x.kids[1]),
{
    reveal_with_fuel(subs_k, 3); reveal_with_fuel(cpx_k, 3);
    if x.kids.len() == 0 { assert(subs(x) =~= seq![x]); }
    if x.kids.len() == 1 { assert(subs_k(x, 1) == subs_k(x, 0) + subs(x.kids[0])); assert(subs(x) =~= seq![x] + subs(x.kids[0])); }
    if x.kids.len() == 2 { assert(subs_k(x, 2) == subs_k(x, 1) + subs(x.kids[1])); assert(subs(x) =~= seq![x] + (subs(x.kids[0]) + subs(x.kids[1]))); }
}
pub proof fn lemma_subs_step(o: Seq<TermV>, x: TermV, i: nat) requires 0 < i <= x.kids.len() ensures (o + subs_k(x, (i - 1) as nat)) + subs(x.kids[i - 1]) == o + subs_k(x, i)
{ assert((o + subs_k(x, (i - 1) as nat)) + subs(x.kids[i - 1]) =~= o + subs_k(x, i)); }
pub proof fn lemma_subs_all(o: Seq<TermV>, x: TermV) ensures o.push(x) + subs_k(x, x.kids.len()) == o + subs(x), x.kids.len() == 0 ==> o.push(x) == o + subs(x)
{ assert(o.push(x) + subs_k(x, x.kids.len()) =~= o + subs(x)); if x.kids.len() == 0 { assert(o.push(x) =~= o + subs(x)); } }
pub proof fn lemma_subs_small(o: Seq<TermV>, x: TermV) requires 0 < x.kids.len() <= 2
    ensures x.kids.len() == 1 ==> o + subs_k(x, 1) == o + subs(x.kids[0]), x.kids.len() == 2 ==> o + subs_k(x, 2) == o + subs(x.kids[0]) + subs(x.kids[1]), 
{ lemma_subs_step(o, x, 1); assert(o + subs_k(x, 0) =~= o); if x.kids.len() == 2 { lemma_subs_step(o, x, 2); } }
pub proof fn lemma_subs_zero(o: Seq<TermV>, x: TermV) ensures o + subs_k(x, 0) == o { assert(o + subs_k(x, 0) =~= o); }
impl Clone for Term {
    // the body of this clone is verified as Term_clone below
    #[verifier::external_body]
    fn clone(&self) -> (r: Term) ensures tmv(r) == tmv(*self) { loop {} }
}

/// what `Box::clone` does: a box holding a copy of the content
pub fn vx_box_clone(b: &Box<Term>) -> (r: Box<Term>) ensures tmv(*r) == tmv(**b) { Box::new((**b).clone()) }

impl VxClone for Box<Term> { open spec fn vx_cl(&self, r: &Self) -> bool { tmv(**self) == tmv(**r) } fn vx_clone(&self) -> (r: Self) { vx_box_clone(self) } }
impl VxClone for Term { open spec fn vx_cl(&self, r: &Self) -> bool { tmv(*self) == tmv(*r) } fn vx_clone(&self) -> (r: Self) { self.clone() } }

@@fn src/Term.rs Term::clone as Term_clone termclone
@contract
    ensures tmv($r) == tmv(*$p1)
    decreases *$p1
@loop copy-elements
@when $acc.push(Box::new(Term_clone(&**$x)))
@inv
      tmvs($acc@) =~= tmvs($e@).take($i as int),
@post
    assert(tmvs($acc@) =~= tmvs($e@));
@@end

@@fn src/Term.rs checkEqTerm
@contract
    ensures $r == (tmv(*$p1) == tmv(*$p2))
    decreases *$p1
@entry
    broadcast use group_eq;
@loop compare-elements
@when checkEqTerm(&$A[$x], &$B[$x])
@inv
      forall|j: int| 0 <= j < $i ==> #[trigger] tmvs($A@)[j] == tmvs($B@)[j],
@top
    assert(tmvs($A@)[$i - 1] == tmv(*$A@[$i - 1]) && tmvs($B@)[$i - 1] == tmv(*$B@[$i - 1]));
@@end

@@fn src/Term.rs retSubterms2
@contract
    ensures tvseq(final($p2)@) == tvseq(old($p2)@) + subs(tmv(*$p1))
    decreases *$p1
@entry
    let ghost vx_old = tvseq(old($p2)@);
    let ghost vx_x = tmv(*$p1);
    let ghost vx_o1 = vx_old.push(vx_x);
    proof { lemma_subs_all(vx_old, vx_x); lemma_subs_zero(vx_o1, vx_x); if 0 < vx_x.kids.len() <= 2 { lemma_subs_small(vx_o1, vx_x); } if vx_x.kids.len() > 0 { lemma_subs_step(vx_o1, vx_x, vx_x.kids.len()); } }
@loop each-element
@when retSubterms2(&$x, res)
@inv
      tvseq($p2@) == vx_o1 + subs_k(vx_x, $i as nat),
@bot
    assert(tmv(**$x) == vx_x.kids[$i - 1]);
    proof { lemma_subs_step(vx_o1, vx_x, $i as nat); }
@@end

@@fn src/Term.rs retSubterms
@contract
    ensures tvseq($r@) == subs(tmv(*$p1))
@@end

@@fn src/Term.rs calcComplexity
@contract
    requires cpx(tmv(*$p1)) <= u64::MAX
    ensures $r == cpx(tmv(*$p1))
    decreases *$p1
@entry
    let ghost vx_x = tmv(*$p1);
    proof { lemma_small(vx_x); }
@loop sum-elements
@when $ACC = $ACC + (calcComplexity($x))
@inv
      $ACC == cpx_k(vx_x, $i as nat),
@top
    proof { assert(tmv(**$x) == vx_x.kids[$i - 1]); lemma_cpx_mono(vx_x, $i as nat, vx_x.kids.len()); }
@@end

/// s holds the distinct values among the first n of a, each once, in order of first occurrence
pub open spec fn firsts(a: Seq<TermV>, n: int) -> Seq<TermV> decreases n {
    if n <= 0 || n > a.len() { Seq::empty() } else { let p = firsts(a, n - 1); if p.contains(a[n - 1]) { p } else { p.push(a[n - 1]) } }
}
/// what "unique" means: no duplicates, and exactly the same members
pub proof fn lemma_firsts(a: Seq<TermV>, n: int) requires 0 <= n <= a.len()
    ensures firsts(a, n).no_duplicates(), forall|x: TermV| #[trigger] firsts(a, n).contains(x) <==> a.take(n).contains(x)
    decreases n
{
    if n > 0 {
        lemma_firsts(a, n - 1);
        let p = firsts(a, n - 1);
        assert forall|x: TermV| #[trigger] firsts(a, n).contains(x) <==> a.take(n).contains(x) by {
            assert(a.take(n) =~= a.take(n - 1).push(a[n - 1]));
            assert(p.contains(x) <==> a.take(n - 1).contains(x));
            if a.take(n).contains(x) { let k = choose|k: int| 0 <= k < n && #[trigger] a.take(n)[k] == x; if k < n - 1 { assert(a.take(n - 1)[k] == x); } else { assert(x == a[n - 1]); if !p.contains(x) { assert(p.push(x)[p.len() as int] == x); } } }
            if a.take(n - 1).contains(x) { let k = choose|k: int| 0 <= k < n - 1 && #[trigger] a.take(n - 1)[k] == x; assert(a.take(n)[k] == x); let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == x; assert(firsts(a, n)[j] == x); }
            if firsts(a, n).contains(x) && !p.contains(x) { assert(x == a[n - 1]); assert(a.take(n)[n - 1] == x); }
        }
    }
}
@@fn src/Term.rs retUniqueSubterms
@contract
    ensures tvseq($r@) == firsts(subs(tmv(*$p1)), subs(tmv(*$p1)).len() as int)
@loop each-subterm
@when outer
@inv
      tvseq(res@) == firsts(tvseq($e@), $i as int), tvseq($e@) == subs(tmv(*$p1)),
@top
    assert(tvseq($e@)[$i - 1] == tmv(*$x));
    let ghost vx_p = tvseq(res@);
@bot
    assert(inRes == vx_p.contains(tvseq($e@)[$i - 1]));
@loop search
@inv
      !inRes ==> forall|j: int| 0 <= j < $i ==> #[trigger] tvseq(res@)[j] != tmv(*iTerm),
      inRes ==> tvseq(res@).contains(tmv(*iTerm)),
@top
    assert(tvseq(res@)[$i - 1] == tmv(*$x));
@@end

/// occurrences of s in x, not looking inside an occurrence and not into the relation of an image
pub open spec fn occ(x: TermV, s: TermV) -> nat decreases x, x.kids.len() + 1 { if x == s { 1 } else { occ_k(x, s, arms(x)) } }
pub open spec fn arms(x: TermV) -> nat { if x.tag == 10 && x.kids.len() > 0 { (x.kids.len() - 1) as nat } else { x.kids.len() } }
pub open spec fn occ_k(x: TermV, s: TermV, n: nat) -> nat decreases x, n { if n == 0 || n > x.kids.len() { 0 } else { occ_k(x, s, (n - 1) as nat) + occ(x.kids[n - 1], s) } }
pub proof fn lemma_occ_mono(x: TermV, s: TermV, m: nat, n: nat) requires m <= n <= x.kids.len() ensures occ_k(x, s, m) <= occ_k(x, s, n) decreases n { if m < n { lemma_occ_mono(x, s, m, (n - 1) as nat); } }
pub proof fn lemma_occ_small(x: TermV, s: TermV)
    ensures x != s && x.kids.len() == 0 ==> occ(x, s) == 0, x != s && x.tag != 10 && x.kids.len() == 1 ==> occ(x, s) == occ(x.kids[0], s), x != s && x.tag != 10 && x.kids.len() == 2 ==> occ(x, s) == occ(x.kids[0], s) + occ(x.kids[1], s),
        occ_k(x, s, 0) == 0
{
    reveal_with_fuel(occ_k, 3); reveal_with_fuel(occ, 2);
    if x.kids.len() >= 1 { assert(occ_k(x, s, 1) == occ_k(x, s, 0) + occ(x.kids[0], s)); }
    if x.kids.len() >= 2 { assert(occ_k(x, s, 2) == occ_k(x, s, 1) + occ(x.kids[1], s)); }
}
@@fn src/Term.rs count_occurence_subterms
@contract
    requires occ(tmv(*$p1), tmv(*$p2)) <= i64::MAX
    ensures $r == occ(tmv(*$p1), tmv(*$p2))
    decreases *$p1
@entry
    let ghost vx_x = tmv(*$p1);
    proof { lemma_occ_small(vx_x, tmv(*$p2)); }
@loop sum-elements
@when $ACC = $ACC + (count_occurence_subterms(&$A[$x], $p2))
@inv
      $ACC == occ_k(vx_x, tmv(*$p2), $i as nat),
@top
    proof { assert(tmv(*$A@[$i - 1]) == vx_x.kids[$i - 1]); lemma_occ_mono(vx_x, tmv(*$p2), $i as nat, arms(vx_x)); }
@@end
}
@@main
