// statement of the inference rules over deep term values and real-valued truth values
@@use sentence.vc
@@use unify.vc
verus! {
/// a conclusion: term, truth value, punctuation
pub struct C { pub t: TermV, pub v: TvR, pub p: EnumPunctation }
pub open spec fn jj(p: EnumPunctation, q: EnumPunctation) -> bool { p == EnumPunctation::JUGEMENT && q == EnumPunctation::JUGEMENT }
/// a premise is well formed: everything but a question carries a proper truth value
pub open spec fn prem(p: EnumPunctation, t: Option<Tv>) -> bool { p != EnumPunctation::QUESTION ==> t is Some && okc(tr(t->0)) }
pub open spec fn to(t: Option<Tv>) -> TvR { tr(t->0) }
pub open spec fn oc(r: Option<(Term, Tv, EnumPunctation)>) -> Option<C> { match r { Some(x) => Some(cv(x)), None => None } }
pub open spec fn cv(x: (Term, Tv, EnumPunctation)) -> C { C { t: tmv(x.0), v: tr(x.1), p: x.2 } }
pub open spec fn judg(t: TermV, v: TvR) -> Option<C> { Some(C { t, v, p: EnumPunctation::JUGEMENT }) }
pub open spec fn isst(x: TermV, c: Copula) -> bool { x.tag == 0 && x.num == copn(c) }
pub open spec fn sb(x: TermV) -> TermV { x.kids[0] }
pub open spec fn pr(x: TermV) -> TermV { x.kids[1] }
pub open spec fn inhsim(x: TermV) -> bool { isst(x, Copula::INH) || isst(x, Copula::SIM) }

pub broadcast proof fn lemma_tvs_1(v: Seq<Box<Term>>) requires v.len() == 1 ensures #[trigger] tmvs(v) == seq![tmv(*v[0])] { broadcast use group_tvs; assert(tmvs(v) =~= seq![tmv(*v[0])]); }
pub broadcast proof fn lemma_tvs_2(v: Seq<Box<Term>>) requires v.len() == 2 ensures #[trigger] tmvs(v) == seq![tmv(*v[0]), tmv(*v[1])] { broadcast use group_tvs; assert(tmvs(v) =~= seq![tmv(*v[0]), tmv(*v[1])]); }
pub broadcast group group_small { lemma_tvs_1, lemma_tvs_2 }

// ---------------------------------------------------------------- two premises
/// <x a>. <x b>. |- <a <-> b>   (subjects shared)
pub open spec fn r_comp_pred(a: TermV, ta: TvR, b: TermV, tb: TvR) -> Option<C> {
    if inhsim(a) && inhsim(b) && sb(a) == sb(b) && pr(a) != pr(b) { judg(stmtv(Copula::SIM, pr(a), pr(b)), s_comp(ta, tb)) } else { None }
}
pub open spec fn r_comp_subj(a: TermV, ta: TvR, b: TermV, tb: TvR) -> Option<C> {
    if inhsim(a) && inhsim(b) && pr(a) == pr(b) && sb(a) != sb(b) { judg(stmtv(Copula::SIM, sb(a), sb(b)), s_comp(ta, tb)) } else { None }
}
/// x --> a. x --> b. |- x --> (a & b)
pub open spec fn r_int(a: TermV, ta: TvR, b: TermV, tb: TvR) -> Option<C> {
    if isst(a, Copula::INH) && isst(b, Copula::INH) && sb(a) == sb(b) && pr(a) != pr(b) { judg(stmtv(Copula::INH, sb(a), node(12, seq![pr(a), pr(b)])), s_int(ta, tb)) } else { None }
}
/// x --> [a]. x --> [b]. |- x --> [a b]
pub open spec fn r_setint(a: TermV, ta: TvR, b: TermV, tb: TvR) -> Option<C> {
    if isst(a, Copula::INH) && isst(b, Copula::INH) && pr(a).tag == 3 && pr(b).tag == 3 && sb(a) == sb(b) { judg(stmtv(Copula::INH, sb(a), node(3, pr(a).kids + pr(b).kids)), s_int(ta, tb)) } else { None }
}
pub open spec fn rem(k: Seq<TermV>, i: int) -> Seq<TermV> { k.take(i) + k.skip(i + 1) }
/// (.. && k_i && ..) ==> x.  b.  |- (rest ==> x) with the variables of k_i bound
pub open spec fn r_conj(a: TermV, ta: TvR, b: TermV, tb: TvR, i: int) -> Option<C> {
    if isst(a, Copula::IMPL) && sb(a).tag == 8 && 0 <= i < sb(a).kids.len() && uok(sb(a).kids[i], b) {
        let m = mgm(sb(a).kids[i], b);
        let rest = apps(rem(sb(a).kids, i), m);
        judg(stmtv(Copula::IMPL, if rest.len() == 1 { rest[0] } else { node(8, rest) }, app(pr(a), m)), s_ded(ta, tb))
    } else { None }
}
/// a ==> x.  b matching a.  |- x
pub open spec fn r_detach(a: TermV, ta: TvR, b: TermV, tb: TvR) -> Option<C> {
    if isst(a, Copula::IMPL) && uok(sb(a), b) { judg(app(pr(a), mgm(sb(a), b)), s_ded(ta, tb)) } else { None }
}
/// a ==> x?  b matching x.  |- a ==> x  with the variables bound
pub open spec fn r_ask(a: TermV, b: TermV, tb: TvR) -> Option<C> {
    if isst(a, Copula::IMPL) && uok(pr(a), b) { judg(app(a, mgm(pr(a), b)), tb) } else { None }
}
pub open spec fn side(x: TermV, s: int) -> TermV { if s == 1 { sb(x) } else { pr(x) } }
/// syllogism over copula ca, cb with the shared term at sides sa, sb
pub open spec fn r_syl(a: TermV, b: TermV, ca: Copula, cb: Copula, cc: Copula, sa: int, sbb: int, v: TvR) -> Option<C> {
    if isst(a, ca) && isst(b, cb) && side(a, sa) == side(b, sbb) && side(a, -sa) != side(b, -sbb) { judg(stmtv(cc, side(a, -sa), side(b, -sbb)), v) } else { None }
}
pub open spec fn om(o: Option<C>) -> vstd::multiset::Multiset<C> { match o { Some(c) => vstd::multiset::Multiset::singleton(c), None => vstd::multiset::Multiset::empty() } }
#[verifier::opaque]
pub open spec fn cms(s: Seq<(Term, Tv, EnumPunctation)>) -> vstd::multiset::Multiset<C> decreases s.len() { if s.len() == 0 { vstd::multiset::Multiset::empty() } else { cms(s.drop_last()).insert(cv(s.last())) } }
pub broadcast proof fn lemma_cms_push(s: Seq<(Term, Tv, EnumPunctation)>, x: (Term, Tv, EnumPunctation)) ensures #[trigger] cms(s.push(x)) == cms(s).add(om(Some(cv(x)))) { reveal(cms); assert(s.push(x).drop_last() =~= s); assert(cms(s).insert(cv(x)) =~= cms(s).add(om(Some(cv(x))))); }
pub broadcast proof fn lemma_cms_empty(s: Seq<(Term, Tv, EnumPunctation)>) requires s.len() == 0 ensures #[trigger] cms(s) == vstd::multiset::Multiset::<C>::empty() { reveal(cms); }
pub broadcast proof fn lemma_om(o: Option<C>, x: C) ensures #[trigger] om(o).count(x) == (if o == Some(x) { 1nat } else { 0nat }) {}
pub proof fn lemma_add0(m: vstd::multiset::Multiset<C>) ensures m.add(om(None)) == m { assert(m.add(om(None)) =~= m); }

/// conclusions of two premises in this order (question then judgement: only r_ask)
#[verifier::opaque]
pub open spec fn jjrules(a: TermV, ta: TvR, b: TermV, tb: TvR) -> vstd::multiset::Multiset<C> {
    om(r_setint(a, ta, b, tb)).add(om(r_conj(a, ta, b, tb, 0))).add(om(r_conj(a, ta, b, tb, 1))).add(om(r_conj(a, ta, b, tb, 2))).add(om(r_conj(a, ta, b, tb, 3)))
        .add(om(r_detach(a, ta, b, tb))).add(om(r_int(a, ta, b, tb))).add(om(r_comp_pred(a, ta, b, tb))).add(om(r_comp_subj(a, ta, b, tb)))
        .add(om(r_syl(a, b, Copula::PREDIMPL, Copula::PREDIMPL, Copula::PREDIMPL, -1, 1, s_ded(ta, tb))))
        .add(om(r_syl(a, b, Copula::IMPL, Copula::IMPL, Copula::IMPL, -1, 1, s_ded(ta, tb))))
        .add(om(r_syl(a, b, Copula::INH, Copula::INH, Copula::INH, -1, 1, s_ded(ta, tb))))
        .add(om(r_syl(a, b, Copula::INH, Copula::INH, Copula::INH, -1, -1, s_abd(ta, tb))))
        .add(om(r_syl(a, b, Copula::INH, Copula::INH, Copula::INH, 1, 1, s_ind(ta, tb))))
}
pub open spec fn rules2(a: TermV, pa: EnumPunctation, ta: TvR, b: TermV, pb: EnumPunctation, tb: TvR) -> vstd::multiset::Multiset<C> {
    if jj(pa, pb) { jjrules(a, ta, b, tb) }
    else if pa == EnumPunctation::QUESTION && pb == EnumPunctation::JUGEMENT { om(r_ask(a, b, tb)) }
    else { vstd::multiset::Multiset::empty() }
}
/// both orders
pub open spec fn rules_both(a: TermV, pa: EnumPunctation, ta: TvR, b: TermV, pb: EnumPunctation, tb: TvR) -> vstd::multiset::Multiset<C> { rules2(a, pa, ta, b, pb, tb).add(rules2(b, pb, tb, a, pa, ta)) }

// ---------------------------------------------------------------- one premise (with attention bias)
pub struct C1 { pub c: C, pub bias: real }
pub open spec fn cv1(x: (Term, Tv, EnumPunctation, F)) -> C1 { C1 { c: C { t: tmv(x.0), v: tr(x.1), p: x.2 }, bias: x.3@ } }
pub open spec fn oc1(r: Option<(Term, Tv, EnumPunctation, F)>) -> Option<C1> { match r { Some(x) => Some(cv1(x)), None => None } }
pub open spec fn judg1(t: TermV, v: TvR, bias: real) -> Option<C1> { Some(C1 { c: C { t, v, p: EnumPunctation::JUGEMENT }, bias }) }
pub open spec fn u_neg(a: TermV, t: TvR) -> Option<C1> { if a.tag == 14 { judg1(a.kids[0], s_neg(t), 1real / 2real) } else { None } }
pub open spec fn u_pred(a: TermV, t: TvR, i: int) -> Option<C1> { if isst(a, Copula::INH) && pr(a).tag == 11 && i < pr(a).kids.len() { judg1(stmtv(Copula::INH, sb(a), pr(a).kids[i]), t, 1real) } else { None } }
pub open spec fn u_subj(a: TermV, t: TvR, i: int) -> Option<C1> { if isst(a, Copula::INH) && sb(a).tag == 11 && i < sb(a).kids.len() { judg1(stmtv(Copula::INH, sb(a).kids[i], pr(a)), t, 9real / 10real) } else { None } }
/// (X * Y) --> rel |- X --> (rel /0 Y),  Y --> (rel /1 X)
pub open spec fn u_prod(a: TermV, t: TvR, k: int) -> Option<C1> { if isst(a, Copula::INH) && sb(a).tag == 9 && sb(a).kids.len() == 2 { judg1(stmtv(Copula::INH, sb(a).kids[k], imgv(pr(a), k, seq![sb(a).kids[1 - k]])), t, 8real / 10real) } else { None } }
/// X --> (rel /k Y) |- (X * Y) --> rel (k = 0), (Y * X) --> rel (k = 1)
pub open spec fn u_img(a: TermV, t: TvR, k: int) -> Option<C1> {
    if isst(a, Copula::INH) && pr(a).tag == 10 && pr(a).num == k && pr(a).kids.len() == 2 {
        judg1(stmtv(Copula::INH, node(9, if k == 0 { seq![sb(a), pr(a).kids[0]] } else { seq![pr(a).kids[0], sb(a)] }), pr(a).kids[1]), t, 9real / 10real)
    } else { None }
}
/// [a] <-> [b] |- a <-> b   (tag 3), {a} <-> {b} |- a <-> b (tag 4)
pub open spec fn u_set(a: TermV, t: TvR, tag: int) -> Option<C1> { if isst(a, Copula::SIM) && sb(a).tag == tag && sb(a).kids.len() == 1 && pr(a).tag == tag && pr(a).kids.len() == 1 { judg1(stmtv(Copula::SIM, sb(a).kids[0], pr(a).kids[0]), t, 1real) } else { None } }
/// x =/> (a &| b ..) |- x =/> a, ..
pub open spec fn ispar(a: TermV) -> bool { isst(a, Copula::PREDIMPL) && pr(a).tag == 13 }
pub open spec fn u_par(a: TermV, t: TvR, i: int) -> C1 { C1 { c: C { t: stmtv(Copula::PREDIMPL, sb(a), pr(a).kids[i]), v: t, p: EnumPunctation::JUGEMENT }, bias: 9real / 10real } }
#[verifier::opaque]
pub open spec fn u_pars(a: TermV, t: TvR, n: int) -> vstd::multiset::Multiset<C1> decreases n { if n <= 0 { vstd::multiset::Multiset::empty() } else { u_pars(a, t, n - 1).add(om1(Some(u_par(a, t, n - 1)))) } }
pub open spec fn om1(o: Option<C1>) -> vstd::multiset::Multiset<C1> { match o { Some(c) => vstd::multiset::Multiset::singleton(c), None => vstd::multiset::Multiset::empty() } }
#[verifier::opaque]
pub open spec fn cms1(s: Seq<(Term, Tv, EnumPunctation, F)>) -> vstd::multiset::Multiset<C1> decreases s.len() { if s.len() == 0 { vstd::multiset::Multiset::empty() } else { cms1(s.drop_last()).insert(cv1(s.last())) } }
pub broadcast proof fn lemma_cms1_push(s: Seq<(Term, Tv, EnumPunctation, F)>, x: (Term, Tv, EnumPunctation, F)) ensures #[trigger] cms1(s.push(x)) == cms1(s).add(om1(Some(cv1(x)))) { reveal(cms1); assert(s.push(x).drop_last() =~= s); assert(cms1(s).insert(cv1(x)) =~= cms1(s).add(om1(Some(cv1(x))))); }
pub broadcast proof fn lemma_cms1_empty(s: Seq<(Term, Tv, EnumPunctation, F)>) requires s.len() == 0 ensures #[trigger] cms1(s) == vstd::multiset::Multiset::<C1>::empty() { reveal(cms1); }
pub proof fn lemma_add01(m: vstd::multiset::Multiset<C1>) ensures m.add(om1(None)) == m { assert(m.add(om1(None)) =~= m); }
pub open spec fn rules1(a: TermV, t: TvR) -> vstd::multiset::Multiset<C1> {
    om1(u_neg(a, t)).add(om1(u_subj(a, t, 0))).add(om1(u_subj(a, t, 1))).add(om1(u_subj(a, t, 2))).add(om1(u_pred(a, t, 0))).add(om1(u_pred(a, t, 1))).add(om1(u_pred(a, t, 2)))
        .add(om1(u_prod(a, t, 0))).add(om1(u_prod(a, t, 1))).add(om1(u_img(a, t, 0))).add(om1(u_img(a, t, 1))).add(om1(u_set(a, t, 3))).add(om1(u_set(a, t, 4)))
        .add(if ispar(a) { u_pars(a, t, pr(a).kids.len() as int) } else { vstd::multiset::Multiset::empty() })
}
}
@@main
