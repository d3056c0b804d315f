// src/NarUnify.rs: one-sided unification and substitution
@@use term.vc
verus! {
@@item src/NarUnify.rs Asgnment
pub open spec fn isvar(x: TermV) -> bool { x.tag == 5 || x.tag == 6 || x.tag == 7 }
/// the finite map an assignment list stands for (the first binding of a variable counts)
#[verifier::opaque]
pub open spec fn amap(s: Seq<Asgnment>) -> Map<TermV, TermV> decreases s.len() {
    if s.len() == 0 { Map::empty() } else {
        let p = amap(s.drop_last());
        if p.dom().contains(tmv(s.last().var)) { p } else { p.insert(tmv(s.last().var), tmv(s.last().val)) }
    }
}
pub open spec fn msub(a: Map<TermV, TermV>, b: Map<TermV, TermV>) -> bool { forall|k: TermV| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k] }
/// every binding is of a variable, to a non-variable
pub open spec fn wfm(a: Map<TermV, TermV>) -> bool { forall|k: TermV| #[trigger] a.dom().contains(k) ==> isvar(k) && !isvar(a[k]) }
/// no variable is bound twice
pub open spec fn once(s: Seq<Asgnment>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> tmv(#[trigger] s[i].var) != tmv(#[trigger] s[j].var) }
/// value x matches value y under bindings m: the variables of x are bound to the corresponding parts of y
pub open spec fn matches(x: TermV, y: TermV, m: Map<TermV, TermV>) -> bool decreases x {
    if isvar(x) { !isvar(y) && m.dom().contains(x) && m[x] == y }
    else { x.tag == y.tag && x.num == y.num && x.name == y.name && x.kids.len() == y.kids.len() && forall|i: int| 0 <= i < x.kids.len() ==> matches(#[trigger] x.kids[i], y.kids[i], m) }
}
/// the most general bindings extending m0: every map extending m0 under which x matches y extends m1
pub open spec fn mgu(x: TermV, y: TermV, m0: Map<TermV, TermV>, m1: Map<TermV, TermV>) -> bool {
    forall|m: Map<TermV, TermV>| #![trigger msub(m0, m)] msub(m0, m) && matches(x, y, m) ==> msub(m1, m)
}
pub open spec fn nomatch(x: TermV, y: TermV, m0: Map<TermV, TermV>) -> bool {
    forall|m: Map<TermV, TermV>| #![trigger msub(m0, m)] msub(m0, m) ==> !matches(x, y, m)
}
/// x can be matched against y
pub open spec fn uok(x: TermV, y: TermV) -> bool { exists|m: Map<TermV, TermV>| matches(x, y, m) }
pub open spec fn ismgm(x: TermV, y: TermV, m: Map<TermV, TermV>) -> bool { matches(x, y, m) && forall|n: Map<TermV, TermV>| #[trigger] matches(x, y, n) ==> msub(m, n) }
/// the bindings that match x against y and nothing more
#[verifier::opaque]
pub open spec fn mgm(x: TermV, y: TermV) -> Map<TermV, TermV> { choose|m: Map<TermV, TermV>| ismgm(x, y, m) }
pub proof fn lemma_mgm(x: TermV, y: TermV, m: Map<TermV, TermV>) requires ismgm(x, y, m) ensures mgm(x, y) == m, uok(x, y)
{
    reveal(mgm); let k = mgm(x, y); assert(ismgm(x, y, k)); assert(msub(k, m) && msub(m, k));
    assert(k =~= m);
}
/// substitution
pub open spec fn app(x: TermV, m: Map<TermV, TermV>) -> TermV decreases x {
    if isvar(x) { if m.dom().contains(x) { m[x] } else { x } }
    else { TermV { tag: x.tag, num: x.num, name: x.name, kids: Seq::new(x.kids.len(), |i: int| if 0 <= i < x.kids.len() { app(x.kids[i], m) } else { x }) } }
}
#[verifier::opaque]
pub open spec fn apps(k: Seq<TermV>, m: Map<TermV, TermV>) -> Seq<TermV> { Seq::new(k.len(), |i: int| app(k[i], m)) }
pub broadcast proof fn lemma_apps(k: Seq<TermV>, m: Map<TermV, TermV>) ensures #![trigger apps(k, m)] apps(k, m).len() == k.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] apps(k, m)[i] == app(k[i], m) { reveal(apps); }
pub proof fn lemma_app(x: TermV, m: Map<TermV, TermV>) requires !isvar(x)
    ensures app(x, m) == (TermV { tag: x.tag, num: x.num, name: x.name, kids: apps(x.kids, m) })
{ reveal(apps); assert(app(x, m).kids =~= apps(x.kids, m)); }

pub broadcast proof fn lemma_amap_push(s: Seq<Asgnment>, a: Asgnment)
    ensures #[trigger] amap(s.push(a)) == (if amap(s).dom().contains(tmv(a.var)) { amap(s) } else { amap(s).insert(tmv(a.var), tmv(a.val)) })
{ reveal(amap); assert(s.push(a).drop_last() =~= s); }
pub broadcast proof fn lemma_amap_empty(s: Seq<Asgnment>) requires s.len() == 0 ensures #[trigger] amap(s) == Map::<TermV, TermV>::empty() { reveal(amap); }
pub proof fn lemma_amap_take(s: Seq<Asgnment>, i: int) requires 0 < i <= s.len()
    ensures amap(s.take(i)) == (if amap(s.take(i - 1)).dom().contains(tmv(s[i - 1].var)) { amap(s.take(i - 1)) } else { amap(s.take(i - 1)).insert(tmv(s[i - 1].var), tmv(s[i - 1].val)) })
{ assert(s.take(i) =~= s.take(i - 1).push(s[i - 1])); lemma_amap_push(s.take(i - 1), s[i - 1]); }
/// the domain is the set of bound variables; lookup gives the value of the first binding
pub proof fn lemma_amap_dom(s: Seq<Asgnment>, k: TermV)
    ensures amap(s).dom().contains(k) <==> (exists|i: int| 0 <= i < s.len() && tmv(#[trigger] s[i].var) == k)
    decreases s.len()
{
    reveal(amap);
    if s.len() > 0 {
        let d = s.drop_last(); lemma_amap_dom(d, k);
        assert(amap(s).dom().contains(k) <==> (amap(d).dom().contains(k) || tmv(s.last().var) == k));
        if amap(d).dom().contains(k) { let i = choose|i: int| 0 <= i < d.len() && tmv(#[trigger] d[i].var) == k; assert(s[i].var == d[i].var); }
        if tmv(s.last().var) == k { assert(tmv(s[s.len() - 1].var) == k); }
        if exists|i: int| 0 <= i < s.len() && tmv(#[trigger] s[i].var) == k { let i = choose|i: int| 0 <= i < s.len() && tmv(#[trigger] s[i].var) == k; if i < d.len() { assert(tmv(d[i].var) == k); } }
    }
}
pub proof fn lemma_amap_first(s: Seq<Asgnment>, i: int)
    requires 0 <= i < s.len(), forall|j: int| 0 <= j < i ==> tmv(#[trigger] s[j].var) != tmv(s[i].var)
    ensures amap(s).dom().contains(tmv(s[i].var)), amap(s)[tmv(s[i].var)] == tmv(s[i].val)
    decreases s.len()
{
    reveal(amap);
    let d = s.drop_last();
    if i == s.len() - 1 {
        lemma_amap_dom(d, tmv(s[i].var));
        if amap(d).dom().contains(tmv(s[i].var)) { let j = choose|j: int| 0 <= j < d.len() && tmv(#[trigger] d[j].var) == tmv(s[i].var); assert(s[j].var == d[j].var); }
    } else { assert forall|j: int| 0 <= j < i implies tmv(#[trigger] d[j].var) != tmv(d[i].var) by { assert(s[j].var == d[j].var); } lemma_amap_first(d, i); assert(d[i] == s[i]); }
}
pub proof fn lemma_msub_trans(a: Map<TermV, TermV>, b: Map<TermV, TermV>, c: Map<TermV, TermV>) requires msub(a, b), msub(b, c) ensures msub(a, c) {}
pub proof fn lemma_match_mono(x: TermV, y: TermV, a: Map<TermV, TermV>, b: Map<TermV, TermV>) requires matches(x, y, a), msub(a, b) ensures matches(x, y, b) decreases x
{ if !isvar(x) { assert forall|i: int| 0 <= i < x.kids.len() implies matches(#[trigger] x.kids[i], y.kids[i], b) by { assert(matches(x.kids[i], y.kids[i], a)); lemma_match_mono(x.kids[i], y.kids[i], a, b); } } }
/// what unification is for: the substituted pattern IS the other term
pub proof fn lemma_match_app(x: TermV, y: TermV, m: Map<TermV, TermV>) requires matches(x, y, m) ensures app(x, m) == y decreases x
{
    if !isvar(x) {
        assert forall|i: int| 0 <= i < x.kids.len() implies app(#[trigger] x.kids[i], m) == y.kids[i] by { assert(matches(x.kids[i], y.kids[i], m)); lemma_match_app(x.kids[i], y.kids[i], m); }
        assert(app(x, m).kids =~= y.kids);
    }
}
#[verifier::opaque]
pub open spec fn unified(x: TermV, y: TermV, m0: Map<TermV, TermV>, m1: Map<TermV, TermV>) -> bool { matches(x, y, m1) && msub(m0, m1) && mgu(x, y, m0, m1) }
#[verifier::opaque]
pub open spec fn failed(x: TermV, y: TermV, m0: Map<TermV, TermV>) -> bool { nomatch(x, y, m0) }
pub open spec fn alike(x: TermV, y: TermV) -> bool { x.tag == y.tag && x.num == y.num && x.name == y.name && x.kids.len() == y.kids.len() }
/// bindings c extend m0 and are forced by the requirement that x matches y
#[verifier::opaque]
pub open spec fn forced(x: TermV, y: TermV, m0: Map<TermV, TermV>, c: Map<TermV, TermV>) -> bool { msub(m0, c) && mgu(x, y, m0, c) }
/// component i matches under c
#[verifier::opaque]
pub open spec fn kidm(x: TermV, y: TermV, i: int, c: Map<TermV, TermV>) -> bool { 0 <= i < x.kids.len() && i < y.kids.len() && matches(x.kids[i], y.kids[i], c) }
pub proof fn lemma_unify(x: TermV, y: TermV, m0: Map<TermV, TermV>)
    ensures
        forced(x, y, m0, m0),
        forall|q: int, c: Map<TermV, TermV>| #![trigger failed(x.kids[q], y.kids[q], c)] !isvar(x) && x.kids.len() == y.kids.len() && 0 <= q < x.kids.len() && forced(x, y, m0, c) && failed(x.kids[q], y.kids[q], c) ==> failed(x, y, m0),
        forall|q: int, c: Map<TermV, TermV>, d: Map<TermV, TermV>| #![trigger unified(x.kids[q], y.kids[q], c, d)] !isvar(x) && x.kids.len() == y.kids.len() && 0 <= q < x.kids.len() && forced(x, y, m0, c) && unified(x.kids[q], y.kids[q], c, d)
            ==> forced(x, y, m0, d) && kidm(x, y, q, d) && (forall|i: int| #[trigger] kidm(x, y, i, c) ==> kidm(x, y, i, d)),
        forall|c: Map<TermV, TermV>| #![trigger forced(x, y, m0, c)] !isvar(x) && alike(x, y) && forced(x, y, m0, c) && (forall|i: int| 0 <= i < x.kids.len() ==> #[trigger] kidm(x, y, i, c)) ==> unified(x, y, m0, c),
        !isvar(x) && !alike(x, y) ==> failed(x, y, m0),
        isvar(x) && isvar(y) ==> failed(x, y, m0),
        isvar(x) && !isvar(y) ==> (if m0.dom().contains(x) { if m0[x] == y { unified(x, y, m0, m0) } else { failed(x, y, m0) } } else { unified(x, y, m0, m0.insert(x, y)) }),
{
    reveal(unified); reveal(failed); reveal(forced); reveal(kidm);
    assert forall|q: int, c: Map<TermV, TermV>| #![trigger failed(x.kids[q], y.kids[q], c)] !isvar(x) && x.kids.len() == y.kids.len() && 0 <= q < x.kids.len() && forced(x, y, m0, c) && failed(x.kids[q], y.kids[q], c) implies failed(x, y, m0) by {
        assert forall|m: Map<TermV, TermV>| #![trigger msub(m0, m)] msub(m0, m) implies !matches(x, y, m) by { if matches(x, y, m) { assert(msub(c, m)); assert(matches(x.kids[q], y.kids[q], m)); } }
    }
    assert forall|q: int, c: Map<TermV, TermV>, d: Map<TermV, TermV>| #![trigger unified(x.kids[q], y.kids[q], c, d)] !isvar(x) && x.kids.len() == y.kids.len() && 0 <= q < x.kids.len() && forced(x, y, m0, c) && unified(x.kids[q], y.kids[q], c, d)
            implies forced(x, y, m0, d) && kidm(x, y, q, d) && (forall|i: int| #[trigger] kidm(x, y, i, c) ==> kidm(x, y, i, d)) by {
        assert forall|m: Map<TermV, TermV>| #![trigger msub(m0, m)] msub(m0, m) && matches(x, y, m) implies msub(d, m) by { assert(msub(c, m)); assert(matches(x.kids[q], y.kids[q], m)); }
        assert forall|i: int| #[trigger] kidm(x, y, i, c) implies kidm(x, y, i, d) by { lemma_match_mono(x.kids[i], y.kids[i], c, d); }
    }
    assert forall|c: Map<TermV, TermV>| #![trigger forced(x, y, m0, c)] !isvar(x) && alike(x, y) && forced(x, y, m0, c) && (forall|i: int| 0 <= i < x.kids.len() ==> #[trigger] kidm(x, y, i, c)) implies unified(x, y, m0, c) by {
        assert forall|i: int| 0 <= i < x.kids.len() implies matches(#[trigger] x.kids[i], y.kids[i], c) by { assert(kidm(x, y, i, c)); }
    }
}
pub proof fn lemma_mgu_refl(x: TermV, y: TermV, m: Map<TermV, TermV>) ensures mgu(x, y, m, m), msub(m, m) {}
/// binding a variable that is not bound yet keeps every variable bound once
pub proof fn lemma_once(s: Seq<Asgnment>, v: Term)
    ensures once(s) && !amap(s).dom().contains(tmv(v)) ==> forall|a: Asgnment| tmv(a.var) == tmv(v) ==> once(#[trigger] s.push(a))
{
    lemma_amap_dom(s, tmv(v));
    if once(s) && !amap(s).dom().contains(tmv(v)) {
        assert forall|a: Asgnment| tmv(a.var) == tmv(v) implies once(#[trigger] s.push(a)) by {
            let p = s.push(a);
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies tmv(#[trigger] p[i].var) != tmv(#[trigger] p[j].var) by { assert(p[i] == s[i]); if j < s.len() { assert(p[j] == s[j]); assert(tmv(s[i].var) != tmv(s[j].var)); } else { assert(p[j] == a); assert(tmv(s[i].var) != tmv(v)); } }
        }
    }
}
pub proof fn lemma_leafkids(x: TermV, y: TermV) requires x.kids.len() == 0, y.kids.len() == 0 ensures x.kids == y.kids { assert(x.kids =~= y.kids); }

@@fn src/NarUnify.rs checkAssigned
@contract
    ensures $r == amap($p2@).dom().contains(tmv(*$p1))
@entry
    proof { lemma_amap_dom($p2@, tmv(*$p1)); }
@loop search
@when checkEqTerm(&$x.var, ___)
@inv
      $acc ==> exists|i: int| 0 <= i < $p2@.len() && tmv(#[trigger] $p2@[i].var) == tmv(*$p1),
      !$acc ==> forall|i: int| 0 <= i < $i ==> tmv(#[trigger] $p2@[i].var) != tmv(*$p1),
@loop search2
@inv
      forall|i: int| 0 <= i < $i ==> tmv(#[trigger] $p2@[i].var) != tmv(*$p1),
@@end

@@fn src/NarUnify.rs checkSameVal
@contract
    ensures $r == (amap($p3@).dom().contains(tmv(*$p1)) && amap($p3@)[tmv(*$p1)] == tmv(*$p2))
@entry
    proof { lemma_amap_dom($p3@, tmv(*$p1)); }
@loop search
@inv
      forall|i: int| 0 <= i < $i ==> tmv(#[trigger] $p3@[i].var) != tmv(*$p1),
@top
    proof { lemma_amap_dom($p3@, tmv(*$p1)); if tmv($p3@[$i - 1].var) == tmv(*$p1) { lemma_amap_first($p3@, $i - 1); } }
@@end

@@fn src/NarUnify.rs unify2
@contract
    ensures
        wfm(amap(old($p3)@)) ==> wfm(amap(final($p3)@)),
        once(old($p3)@) ==> once(final($p3)@),
        $r ==> unified(tmv(*$p1), tmv(*$p2), amap(old($p3)@), amap(final($p3)@)),
        !$r ==> failed(tmv(*$p1), tmv(*$p2), amap(old($p3)@)),
    decreases *$p1
@entry
    broadcast use lemma_amap_push;
    let ghost vx_x = tmv(*$p1);
    let ghost vx_y = tmv(*$p2);
    let ghost vx_m0 = amap(old($p3)@);
    proof { lemma_unify(vx_x, vx_y, vx_m0); lemma_once(old($p3)@, *$p1); 
      assert(vx_x.kids[0] == vx_x.kids[0] && vx_y.kids[0] == vx_y.kids[0] && vx_x.kids[1] == vx_x.kids[1] && vx_y.kids[1] == vx_y.kids[1]);
      assert(vx_x.kids[vx_x.kids.len() - 1] == vx_x.kids[vx_x.kids.len() - 1] && vx_y.kids[vx_y.kids.len() - 1] == vx_y.kids[vx_y.kids.len() - 1]); }
@loop components
@when unify2(&$A[$x], &$B[$x], $p3)
@inv
      wfm(amap(old($p3)@)) ==> wfm(amap($p3@)),
      once(old($p3)@) ==> once($p3@),
      forced(vx_x, vx_y, vx_m0, amap($p3@)),
      forall|i: int| 0 <= i < $i ==> #[trigger] kidm(vx_x, vx_y, i, amap($p3@)),
      vx_x.tag == 10 ==> kidm(vx_x, vx_y, vx_x.kids.len() - 1, amap($p3@)),
@top
    assert(vx_x.kids[$x as int] == tmv(*$A@[$x as int]) && vx_y.kids[$x as int] == tmv(*$B@[$x as int]));
    let ghost vx_c = amap($p3@);
@bot
    assert(unified(vx_x.kids[$x as int], vx_y.kids[$x as int], vx_c, amap($p3@)));
    assert(kidm(vx_x, vx_y, $x as int, amap($p3@)));
    assert forall|i: int| 0 <= i < $i implies #[trigger] kidm(vx_x, vx_y, i, amap($p3@)) by { if i < $x { assert(kidm(vx_x, vx_y, i, vx_c)); } }
@@end

@@fn src/NarUnify.rs unify
@contract
    ensures
        $r is Some ==> wfm(amap($r->0@)) && once($r->0@) && matches(tmv(*$p1), tmv(*$p2), amap($r->0@)) && app(tmv(*$p1), amap($r->0@)) == tmv(*$p2),
        $r is Some ==> forall|m: Map<TermV, TermV>| #[trigger] matches(tmv(*$p1), tmv(*$p2), m) ==> msub(amap($r->0@), m),
        $r is None ==> forall|m: Map<TermV, TermV>| !#[trigger] matches(tmv(*$p1), tmv(*$p2), m),
        $r is Some <==> uok(tmv(*$p1), tmv(*$p2)),
        $r is Some ==> amap($r->0@) == mgm(tmv(*$p1), tmv(*$p2)),
@entry
    broadcast use lemma_amap_empty;
@exit
    proof {
        reveal(unified); reveal(failed);
        let e = Map::<TermV, TermV>::empty();
        if $r is Some {
            lemma_match_app(tmv(*$p1), tmv(*$p2), amap($r->0@));
            assert forall|m: Map<TermV, TermV>| #[trigger] matches(tmv(*$p1), tmv(*$p2), m) implies msub(amap($r->0@), m) by { assert(msub(e, m)); }
            lemma_mgm(tmv(*$p1), tmv(*$p2), amap($r->0@));
        } else {
            assert forall|m: Map<TermV, TermV>| !#[trigger] matches(tmv(*$p1), tmv(*$p2), m) by { assert(msub(e, m)); }
        }
    }
@@end

@@fn src/NarUnify.rs unifySubst
@contract
    ensures tmv($r) == app(tmv(*$p1), amap($p2@))
    decreases *$p1
@entry
    let ghost vx_x = tmv(*$p1);
    let ghost vx_m = amap($p2@);
    broadcast use lemma_apps;
    proof { lemma_amap_dom($p2@, vx_x); if !isvar(vx_x) { lemma_app(vx_x, vx_m); } }
@loop lookup
@when checkEqTerm(___)
@inv
      forall|i: int| 0 <= i < $i ==> tmv(#[trigger] $p2@[i].var) != vx_x,
@top
    proof { if tmv($p2@[$i - 1].var) == vx_x { lemma_amap_first($p2@, $i - 1); } }
@loop elements
@when $A.push(Box::new(unifySubst($x, $p2)))
@inv
      tmvs($A@) =~= apps(tmvs($e@), vx_m).take($i as int),
@post
    assert(tmvs($A@) =~= apps(tmvs($e@), vx_m));
@exit
    proof { if !isvar(vx_x) { assert(tmv($r).kids =~= app(vx_x, vx_m).kids); } }
@@end
}
@@main
