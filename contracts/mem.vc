// src/NarMem.rs: belief memory (A-LOCK: locks erased, A-MAP: HashMap<Term, V> is a finite map keyed by deep term value, A-SORT)
@@use sentence.vc
verus! {
global size_of usize == 8;
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct TMap<V> { m: std::collections::HashMap<u64, V> }
impl<V> TMap<V> {
    pub uninterp spec fn view(&self) -> Map<TermV, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<TermV, V>::empty() { loop {} }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Term) -> (r: Option<&mut V>)
        ensures
            !old(self)@.contains_key(tmv(*k)) ==> r is None && final(self)@ == old(self)@,
            old(self)@.contains_key(tmv(*k)) ==> r is Some && *(r->0) == old(self)@[tmv(*k)] && final(self)@ == old(self)@.insert(tmv(*k), *final(r->0)),
    { loop {} }
    #[verifier::external_body]
    pub fn get(&self, k: &Term) -> (r: Option<&V>) ensures r is Some <==> self@.contains_key(tmv(*k)), r is Some ==> *(r->0) == self@[tmv(*k)] { loop {} }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Term) -> (r: bool) ensures r == self@.contains_key(tmv(*k)) { loop {} }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Term, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(tmv(k), v) { loop {} }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { loop {} }
    /// iteration visits every entry exactly once, in an unspecified order
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(Term, V)>) ensures entries(r@, self@) { loop {} }
    #[verifier::external_body]
    pub fn vx_put(&mut self, k: &Term, v: V) ensures final(self)@ == old(self)@.insert(tmv(*k), v) { loop {} }
}
pub open spec fn entries<V>(r: Seq<(Term, V)>, m: Map<TermV, V>) -> bool {
    &&& r.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(tmv((#[trigger] r[i]).0)) && m[tmv(r[i].0)] == r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> tmv((#[trigger] r[i]).0) != tmv((#[trigger] r[j]).0)
    &&& forall|k: TermV| m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && tmv((#[trigger] r[i]).0) == k
}
/// the value a mutable iterator currently points at (written back by vx_put)
#[verifier::external_body]
pub fn vx_copy<V>(v: &V) -> (r: V) ensures r == *v { loop {} }
/// A-UNIQ: the memory is the only owner of its concepts while it is written
#[verifier::external_body]
pub fn vx_arc_get_mut<T>(a: &mut Arc<T>) -> (r: Option<&mut T>) ensures r is Some, *(r->0) == **old(a), **final(a) == *final(r->0) { loop {} }

// ---------------------------------------------------------------- stable sort (A-SORT)
pub open spec fn kins<T>(s: Seq<T>, x: T, key: spec_fn(T) -> real) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![x] } else if key(s.last()) < key(x) { kins(s.drop_last(), x, key).push(s.last()) } else { s.push(x) } }
/// stable sort by descending key
pub open spec fn ksort<T>(s: Seq<T>, key: spec_fn(T) -> real) -> Seq<T> decreases s.len() { if s.len() == 0 { s } else { kins(ksort(s.drop_last(), key), s.last(), key) } }
pub open spec fn sorted<T>(s: Seq<T>, key: spec_fn(T) -> real) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> key(#[trigger] s[i]) >= key(#[trigger] s[j]) }
pub open spec fn key0<T>() -> spec_fn((F, T)) -> real { |x: (F, T)| x.0@ }
pub open spec fn key0n<T>() -> spec_fn((F, T)) -> real { |x: (F, T)| -(x.0@) }
pub open spec fn key1<T>() -> spec_fn((T, F)) -> real { |x: (T, F)| x.1@ }
pub open spec fn key1n<T>() -> spec_fn((T, F)) -> real { |x: (T, F)| -(x.1@) }
#[verifier::external_body]
pub fn vx_sort_0_desc<T>(v: &mut Vec<(F, T)>) ensures final(v)@ == ksort(old(v)@, key0::<T>()) { loop {} }
#[verifier::external_body]
pub fn vx_sort_0_asc<T>(v: &mut Vec<(F, T)>) ensures final(v)@ == ksort(old(v)@, key0n::<T>()) { loop {} }
#[verifier::external_body]
pub fn vx_sort_1_desc<T>(v: &mut Vec<(T, F)>) ensures final(v)@ == ksort(old(v)@, key1::<T>()) { loop {} }
#[verifier::external_body]
pub fn vx_sort_1_asc<T>(v: &mut Vec<(T, F)>) ensures final(v)@ == ksort(old(v)@, key1n::<T>()) { loop {} }
pub proof fn lemma_kins<T>(s: Seq<T>, x: T, key: spec_fn(T) -> real)
    ensures kins(s, x, key).len() == s.len() + 1, kins(s, x, key).to_multiset() == s.to_multiset().insert(x), sorted(s, key) ==> sorted(kins(s, x, key), key),
        forall|i: int| 0 <= i < kins(s, x, key).len() ==> s.contains(#[trigger] kins(s, x, key)[i]) || kins(s, x, key)[i] == x,
    decreases s.len()
{
    let r = kins(s, x, key);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 { assert(s =~= Seq::empty()); assert(r =~= s.push(x)); }
    else if key(s.last()) < key(x) {
        let d = s.drop_last(); lemma_kins(d, x, key);
        let q = kins(d, x, key);
        assert(r == q.push(s.last()));
        assert(s =~= d.push(s.last()));
        assert(r.to_multiset() =~= s.to_multiset().insert(x));
        assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) || r[i] == x by { if i < q.len() { if d.contains(q[i]) { let j = choose|j: int| 0 <= j < d.len() && d[j] == q[i]; assert(s[j] == q[i]); } } else { assert(s[s.len() - 1] == r[i]); } }
        if sorted(s, key) {
            assert(sorted(d, key));
            assert forall|i: int, j: int| 0 <= i <= j < r.len() implies key(#[trigger] r[i]) >= key(#[trigger] r[j]) by {
                if j < q.len() { assert(r[i] == q[i] && r[j] == q[j]); } else if i < q.len() { assert(d.contains(q[i]) || q[i] == x); if d.contains(q[i]) { let k = choose|k: int| 0 <= k < d.len() && d[k] == q[i]; assert(s[k] == q[i]); assert(key(s[k]) >= key(s[s.len() - 1])); } }
            }
        }
    } else {
        assert(r == s.push(x));
        assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) || r[i] == x by { if i < s.len() { assert(s[i] == r[i]); } }
        if sorted(s, key) { assert forall|i: int, j: int| 0 <= i <= j < r.len() implies key(#[trigger] r[i]) >= key(#[trigger] r[j]) by { if j == s.len() && i < s.len() { assert(r[i] == s[i]); assert(key(s[i]) >= key(s[s.len() - 1])); } else if j < s.len() { assert(r[i] == s[i] && r[j] == s[j]); } } }
    }
}
/// the sort is a permutation and is sorted
pub proof fn lemma_ksort<T>(s: Seq<T>, key: spec_fn(T) -> real)
    ensures ksort(s, key).len() == s.len(), ksort(s, key).to_multiset() == s.to_multiset(), sorted(ksort(s, key), key)
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 { lemma_ksort(s.drop_last(), key); lemma_kins(ksort(s.drop_last(), key), s.last(), key); assert(s =~= s.drop_last().push(s.last())); }
}
pub proof fn lemma_ksort_in<T>(s: Seq<T>, key: spec_fn(T) -> real, i: int) requires 0 <= i < s.len() ensures ksort(s, key).len() == s.len(), s.contains(ksort(s, key)[i])
{ lemma_ksort(s, key); let q = ksort(s, key); broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(q.contains(q[i])); assert(q.to_multiset().count(q[i]) > 0); assert(s.to_multiset().count(q[i]) > 0); }
pub proof fn lemma_kins_map<T, U>(s: Seq<T>, x: T, key: spec_fn(T) -> real, f: spec_fn(T) -> U, key2: spec_fn(U) -> real)
    requires forall|i: int| 0 <= i < s.len() ==> key2(f(#[trigger] s[i])) == key(s[i]), key2(f(x)) == key(x)
    ensures kins(s, x, key).map_values(f) == kins(s.map_values(f), f(x), key2)
    decreases s.len()
{
    if s.len() == 0 { assert(kins(s, x, key).map_values(f) =~= kins(s.map_values(f), f(x), key2)); }
    else { assert(s.map_values(f).last() == f(s.last())); assert(s.map_values(f).drop_last() =~= s.drop_last().map_values(f));
        if key(s.last()) < key(x) { lemma_kins_map(s.drop_last(), x, key, f, key2); }
        assert(kins(s, x, key).map_values(f) =~= kins(s.map_values(f), f(x), key2)); }
}
pub proof fn lemma_ksort_map<T, U>(s: Seq<T>, key: spec_fn(T) -> real, f: spec_fn(T) -> U, key2: spec_fn(U) -> real)
    requires forall|i: int| 0 <= i < s.len() ==> key2(f(#[trigger] s[i])) == key(s[i])
    ensures ksort(s, key).map_values(f) == ksort(s.map_values(f), key2)
    decreases s.len()
{
    if s.len() == 0 { assert(ksort(s, key).map_values(f) =~= ksort(s.map_values(f), key2)); }
    else {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies key2(f(#[trigger] d[i])) == key(d[i]) by { assert(s[i] == d[i]); }
        lemma_ksort_map(d, key, f, key2);
        assert(s.map_values(f).drop_last() =~= d.map_values(f));
        let q = ksort(d, key);
        assert forall|i: int| 0 <= i < q.len() implies key2(f(#[trigger] q[i])) == key(q[i]) by { lemma_ksort(d, key); lemma_ksort_in(d, key, i); let j = choose|j: int| 0 <= j < d.len() && d[j] == q[i]; assert(key2(f(d[j])) == key(d[j])); }
        assert(key2(f(s[s.len() - 1])) == key(s[s.len() - 1]));
        lemma_kins_map(q, s.last(), key, f, key2);
    }
}

// ---------------------------------------------------------------- belief tables
@@item src/NarMem.rs Payload erase
@@item src/NarMem.rs Concept erase
@@item src/NarMem.rs Mem erase
/// a stored belief and its usage record
pub struct BV { pub s: SenV, pub last: int, pub cnt: int }
pub open spec fn bvs(s: Sentence) -> BV { BV { s: sv(s), last: s.usage.lastUsed as int, cnt: s.usage.useCount as int } }
pub open spec fn bv(a: Arc<Sentence>) -> BV { bvs(*a) }
pub open spec fn tbv(v: Seq<Arc<Sentence>>) -> Seq<BV> { v.map_values(|a: Arc<Sentence>| bv(a)) }
pub struct CoV { pub name: TermV, pub ex: Seq<BV>, pub us: Seq<BV> }
pub open spec fn cov(c: Arc<Concept>) -> CoV { CoV { name: tmv(c.name), ex: tbv(c.payload.beliefsByExp@), us: tbv(c.payload.beliefsByUsage@) } }
pub open spec fn mev(m: Map<TermV, Arc<Concept>>) -> Map<TermV, CoV> { m.map_values(|c: Arc<Concept>| cov(c)) }

pub open spec fn bexp(b: BV) -> real { s_exp(etv(b.s.e->0)) }
pub open spec fn buse(now: int) -> spec_fn(BV) -> real { |b: BV| s_useful(b.last, b.cnt, now) }
pub open spec fn kexp() -> spec_fn(BV) -> real { |b: BV| bexp(b) }
/// a belief that can be stored at time `now`
pub open spec fn bok(b: BV, now: int) -> bool { b.s.p == EnumPunctation::JUGEMENT && senok(b.s) && b.cnt >= 0 && i64::MIN <= now - b.last <= i64::MAX }
pub open spec fn tok(t: Seq<BV>, now: int) -> bool { forall|i: int| 0 <= i < t.len() ==> bok(#[trigger] t[i], now) }
pub open spec fn mok(m: Map<TermV, CoV>, now: int) -> bool { forall|k: TermV| m.contains_key(k) ==> tok((#[trigger] m[k]).ex, now) && tok(m[k].us, now) && m[k].name == k }
/// the same statement from overlapping evidence is already known
pub open spec fn thas(t: Seq<BV>, s: SenV) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i].s.t == s.t && overlap(t[i].s.ids, s.ids) }
pub open spec fn top<T>(t: Seq<T>, n: int) -> Seq<T> { if t.len() <= n { t } else { t.take(n) } }
/// the n best beliefs of the table with b added
#[verifier::opaque]
pub open spec fn tstore(t: Seq<BV>, b: BV, n: int, key: spec_fn(BV) -> real) -> Seq<BV> { if thas(t, b.s) { t } else { top(ksort(t.push(b), key), n) } }
pub open spec fn cstore(c: CoV, b: BV, n: int, now: int) -> CoV { CoV { name: c.name, ex: tstore(c.ex, b, n, kexp()), us: tstore(c.us, b, n, buse(now)) } }
pub open spec fn mstore1(m: Map<TermV, CoV>, b: BV, t: TermV, n: int, now: int) -> Map<TermV, CoV> {
    if m.contains_key(t) { m.insert(t, cstore(m[t], b, n, now)) } else { m.insert(t, CoV { name: t, ex: seq![b], us: seq![b] }) }
}
pub open spec fn mstore(m: Map<TermV, CoV>, b: BV, ts: Seq<TermV>, n: int, now: int) -> Map<TermV, CoV> decreases ts.len() {
    if ts.len() == 0 { m } else { mstore1(mstore(m, b, ts.drop_last(), n, now), b, ts.last(), n, now) }
}

// ---------------------------------------------------------------- what users rely on
pub proof fn lemma_tstore(t: Seq<BV>, b: BV, n: int, key: spec_fn(BV) -> real, now: int)
    requires tok(t, now), bok(b, now), n >= 0
    ensures tok(tstore(t, b, n, key), now),
        // bounded
        t.len() <= n ==> tstore(t, b, n, key).len() <= n,
        // nothing invented
        forall|i: int| 0 <= i < tstore(t, b, n, key).len() ==> t.contains(#[trigger] tstore(t, b, n, key)[i]) || tstore(t, b, n, key)[i] == b,
        // whatever changes the table leaves it ordered by the key
        tstore(t, b, n, key) != t ==> sorted(tstore(t, b, n, key), key),
        // a belief is only dropped for n beliefs that are at least as good
        forall|x: BV| (t.contains(x) || x == b && !thas(t, b.s)) && !(#[trigger] tstore(t, b, n, key).contains(x)) ==> tstore(t, b, n, key).len() == n && forall|i: int| 0 <= i < n ==> key(#[trigger] tstore(t, b, n, key)[i]) >= key(x),
{
    reveal(tstore);
    let r = tstore(t, b, n, key);
    if !thas(t, b.s) {
        let p = t.push(b); let q = ksort(p, key);
        lemma_ksort(p, key);
        assert forall|i: int| 0 <= i < r.len() implies (t.contains(#[trigger] r[i]) || r[i] == b) && bok(r[i], now) by { lemma_ksort_in(p, key, i); assert(r[i] == q[i]); let j = choose|j: int| 0 <= j < p.len() && p[j] == q[i]; if j < t.len() { assert(t[j] == r[i]); } }
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies key(#[trigger] r[i]) >= key(#[trigger] r[j]) by { assert(r[i] == q[i] && r[j] == q[j]); }
        assert forall|x: BV| (t.contains(x) || x == b && !thas(t, b.s)) && !(#[trigger] r.contains(x)) implies r.len() == n && forall|i: int| 0 <= i < n ==> key(#[trigger] r[i]) >= key(x) by {
            assert(p.contains(x)) by { if t.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(p[j] == x); } else { assert(p[t.len() as int] == x); } }
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
            assert(p.to_multiset().count(x) > 0); assert(q.to_multiset().count(x) > 0); assert(q.contains(x));
            let j = choose|j: int| 0 <= j < q.len() && q[j] == x;
            if j < r.len() { assert(r[j] == x); }
            assert(r.len() == n);
            assert forall|i: int| 0 <= i < n implies key(#[trigger] r[i]) >= key(x) by { assert(r[i] == q[i]); assert(key(q[i]) >= key(q[j])); }
        }
    } else { assert forall|i: int| 0 <= i < r.len() implies t.contains(#[trigger] r[i]) by { assert(t[i] == r[i]); } }
}
pub proof fn lemma_mstore1(m: Map<TermV, CoV>, b: BV, t: TermV, n: int, now: int)
    requires mok(m, now), bok(b, now), n >= 0
    ensures mok(mstore1(m, b, t, n, now), now)
{ let r = mstore1(m, b, t, n, now); if m.contains_key(t) { lemma_tstore(m[t].ex, b, n, kexp(), now); lemma_tstore(m[t].us, b, n, buse(now), now); }
  assert forall|k: TermV| r.contains_key(k) implies tok((#[trigger] r[k]).ex, now) && tok(r[k].us, now) && r[k].name == k by { if k != t { assert(m.contains_key(k)); } } }
/// a concept exists for every subterm, concepts of other terms are untouched, tables stay within the capacity
pub proof fn lemma_mstore(m: Map<TermV, CoV>, b: BV, ts: Seq<TermV>, n: int, now: int)
    requires mok(m, now), bok(b, now), n >= 1
    ensures mok(mstore(m, b, ts, n, now), now),
        forall|i: int| 0 <= i < ts.len() ==> mstore(m, b, ts, n, now).contains_key(#[trigger] ts[i]),
        forall|k: TermV| !ts.contains(k) ==> (#[trigger] mstore(m, b, ts, n, now).contains_key(k) <==> m.contains_key(k)) && (m.contains_key(k) ==> mstore(m, b, ts, n, now)[k] == m[k]),
        (forall|k: TermV| m.contains_key(k) ==> (#[trigger] m[k]).ex.len() <= n && m[k].us.len() <= n) ==> (forall|k: TermV| mstore(m, b, ts, n, now).contains_key(k) ==> (#[trigger] mstore(m, b, ts, n, now)[k]).ex.len() <= n && mstore(m, b, ts, n, now)[k].us.len() <= n),
    decreases ts.len()
{
    if ts.len() > 0 {
        let d = ts.drop_last(); let p = mstore(m, b, d, n, now); let t = ts.last(); let r = mstore(m, b, ts, n, now);
        lemma_mstore(m, b, d, n, now); lemma_mstore1(p, b, t, n, now);
        if p.contains_key(t) { lemma_tstore(p[t].ex, b, n, kexp(), now); lemma_tstore(p[t].us, b, n, buse(now), now); }
        assert forall|i: int| 0 <= i < ts.len() implies r.contains_key(#[trigger] ts[i]) by { if i < d.len() { assert(d[i] == ts[i]); } }
        assert forall|k: TermV| !ts.contains(k) implies (#[trigger] r.contains_key(k) <==> m.contains_key(k)) && (m.contains_key(k) ==> r[k] == m[k]) by { assert(ts[ts.len() - 1] == t); assert(k != t); if d.contains(k) { let j = choose|j: int| 0 <= j < d.len() && d[j] == k; assert(ts[j] == k); } assert(p.contains_key(k) <==> m.contains_key(k)); }
    }
}

@@fn src/NarMem.rs make
@contract
    ensures $r.concepts@ == Map::<TermV, Arc<Concept>>::empty()
@@end
/// the table is rebuilt through a list of (key, belief) pairs
pub open spec fn keyed(x: Seq<(F, Arc<Sentence>)>, t: Seq<BV>, key: spec_fn(BV) -> real) -> bool { x.len() == t.len() && forall|q: int| 0 <= q < x.len() ==> bv((#[trigger] x[q]).1) == t[q] && x[q].0@ == key(t[q]) }
pub open spec fn snd(x: Seq<(F, Arc<Sentence>)>) -> Seq<BV> { x.map_values(|y: (F, Arc<Sentence>)| bv(y.1)) }
pub open spec fn unzipped(r: Seq<Arc<Sentence>>, x: Seq<(F, Arc<Sentence>)>, n: int) -> bool { r.len() == n && n <= x.len() && forall|q: int| 0 <= q < n ==> #[trigger] r[q] == x[q].1 }
pub open spec fn beliefs_ok(v: Seq<Arc<Sentence>>, now: int) -> bool { tok(tbv(v), now) }
pub proof fn lemma_tok_idx(v: Seq<Arc<Sentence>>, now: int, i: int) requires beliefs_ok(v, now), 0 <= i < v.len() ensures bok(bv(v[i]), now), tbv(v)[i] == bv(v[i]) { assert(tbv(v)[i] == bv(v[i])); }
pub broadcast proof fn lemma_tbv_push(v: Seq<Arc<Sentence>>, a: Arc<Sentence>) ensures #[trigger] tbv(v.push(a)) == tbv(v).push(bv(a)) { assert(tbv(v.push(a)) =~= tbv(v).push(bv(a))); }
pub broadcast proof fn lemma_tbv_one(v: Seq<Arc<Sentence>>) requires v.len() == 1 ensures #[trigger] tbv(v) == seq![bv(v[0])] { assert(tbv(v) =~= seq![bv(v[0])]); }
pub broadcast proof fn lemma_bok_push(v: Seq<Arc<Sentence>>, a: Arc<Sentence>, now: int) requires beliefs_ok(v, now), bok(bv(a), now) ensures #[trigger] beliefs_ok(v.push(a), now)
{ lemma_tbv_push(v, a); let w = tbv(v.push(a)); assert forall|i: int| 0 <= i < w.len() implies bok(#[trigger] w[i], now) by { if i < v.len() { assert(w[i] == tbv(v)[i]); } } }
pub proof fn lemma_keyed(x: Seq<(F, Arc<Sentence>)>, t: Seq<BV>, key: spec_fn(BV) -> real) requires keyed(x, t, key) ensures snd(ksort(x, key0())) == ksort(t, key)
{ let f = |y: (F, Arc<Sentence>)| bv(y.1); assert(x.map_values(f) =~= t); assert forall|i: int| 0 <= i < x.len() implies key(f(#[trigger] x[i])) == key0::<Arc<Sentence>>()(x[i]) by { } lemma_ksort_map(x, key0(), f, key); }
pub proof fn lemma_unzipped(r: Seq<Arc<Sentence>>, x: Seq<(F, Arc<Sentence>)>) requires unzipped(r, x, x.len() as int) ensures tbv(r) == snd(x) { assert(tbv(r) =~= snd(x)); }
pub proof fn lemma_top(r: Seq<Arc<Sentence>>, n: int) requires n >= 0 ensures tbv(r.subrange(0, if r.len() <= n { r.len() as int } else { n })) == top(tbv(r), n) { assert(tbv(r.subrange(0, if r.len() <= n { r.len() as int } else { n })) =~= top(tbv(r), n)); }
pub proof fn lemma_mstore_take(m: Map<TermV, CoV>, b: BV, ts: Seq<TermV>, i: int, n: int, now: int) requires 0 <= i < ts.len() ensures mstore(m, b, ts.take(i + 1), n, now) == mstore1(mstore(m, b, ts.take(i), n, now), b, ts[i], n, now)
{ assert(ts.take(i + 1).drop_last() =~= ts.take(i)); }
pub open spec fn seen(t: Seq<Arc<Sentence>>, s: SenV, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] bv(t[i]).s.t == s.t && overlap(bv(t[i]).s.ids, s.ids) }
pub proof fn lemma_seen(t: Seq<Arc<Sentence>>, s: SenV) ensures seen(t, s, t.len() as int) == thas(tbv(t), s), forall|k: int| 0 <= k <= t.len() && #[trigger] seen(t, s, k) ==> seen(t, s, t.len() as int)
{ if seen(t, s, t.len() as int) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] bv(t[i]).s.t == s.t && overlap(bv(t[i]).s.ids, s.ids); assert(tbv(t)[i].s.t == s.t); }
  if thas(tbv(t), s) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] tbv(t)[i].s.t == s.t && overlap(tbv(t)[i].s.ids, s.ids); assert(bv(t[i]).s.t == s.t); } }
pub proof fn lemma_seen1(t: Seq<Arc<Sentence>>, s: SenV, i: int) requires 0 <= i < t.len() ensures seen(t, s, i + 1) == (seen(t, s, i) || bv(t[i]).s.t == s.t && overlap(bv(t[i]).s.ids, s.ids))
{ if bv(t[i]).s.t == s.t && overlap(bv(t[i]).s.ids, s.ids) { assert(seen(t, s, i + 1)); } }
pub proof fn lemma_tstore_is(t: Seq<BV>, b: BV, n: int, key: spec_fn(BV) -> real) ensures tstore(t, b, n, key) == (if thas(t, b.s) { t } else { top(ksort(t.push(b), key), n) }) { reveal(tstore); }
@@fn src/NarMem.rs storeInConcepts2 erase
@contract
    requires mok(mev(old($p1).concepts@), $p5 as int), $p2.punct == EnumPunctation::JUGEMENT ==> bok(bvs(*$p2), $p5 as int)
    ensures
        $p2.punct != EnumPunctation::JUGEMENT ==> final($p1).concepts@ == old($p1).concepts@,
        $p2.punct == EnumPunctation::JUGEMENT ==> mev(final($p1).concepts@) == mstore(mev(old($p1).concepts@), bvs(*$p2), tvseq($p3@), $p4 as int, $p5 as int),
        mok(mev(final($p1).concepts@), $p5 as int),
@entry
    broadcast use {lemma_tbv_push, lemma_tbv_one, lemma_bok_push};
@loop terms
@when outer
@pre
    proof { assert(tvseq($e@).take(0) =~= Seq::empty()); }
@inv
      mev($p1.concepts@) == mstore(mev(old($p1).concepts@), bvs(*$p2), tvseq($e@).take($i as int), $p4 as int, $p5 as int),
      mok(mev($p1.concepts@), $p5 as int),
@top
    let ghost vx_m0 = mev($p1.concepts@);
    let ghost vx_c0 = $p1.concepts@;
    proof { lemma_mstore_take(mev(old($p1).concepts@), bvs(*$p2), tvseq($e@), $i - 1, $p4 as int, $p5 as int); lemma_mstore1(vx_m0, bvs(*$p2), tmv(*$x), $p4 as int, $p5 as int); if vx_c0.contains_key(tmv(*$x)) { assert(vx_m0[tmv(*$x)] == cov(vx_c0[tmv(*$x)])); } }
@bot
    proof { assert(mev($p1.concepts@) =~= mstore1(vx_m0, bvs(*$p2), tmv(*$x), $p4 as int, $p5 as int)); }
@post
    proof { assert(tvseq($e@).take($e@.len() as int) =~= tvseq($e@)); }
@loop scan
@when checkOverlap(&$G.stamp, &$p2.stamp)
@when $FOUND = true
@inv
      $FOUND == seen($e@, sv(*$p2), $i as int),
@top
    proof { lemma_seen1($e@, sv(*$p2), $i - 1); }
@post
    proof { lemma_seen($e@, sv(*$p2)); lemma_tstore_is(tbv($e@), bvs(*$p2), $p4 as int, kexp()); lemma_tstore_is(tbv($e@), bvs(*$p2), $p4 as int, buse($p5 as int)); }
@loop key-exp
@when calcExp(___)
@pre
    let ghost vx_t = tbv($e@);
    proof { assert(beliefs_ok($e@, $p5 as int)); }
@inv
      keyed($acc@, vx_t.take($i as int), kexp()), 
@top
    proof { lemma_tok_idx($e@, $p5 as int, $i - 1); }
@post
    proof { assert(vx_t.take(vx_t.len() as int) =~= vx_t); lemma_keyed($acc@, vx_t, kexp()); }
@loop key-use
@when calcUsageUsefulness(___)
@pre
    let ghost vx_t = tbv($e@);
    proof { assert(beliefs_ok($e@, $p5 as int)); }
@inv
      keyed($acc@, vx_t.take($i as int), buse($p5 as int)), 
@top
    proof { lemma_tok_idx($e@, $p5 as int, $i - 1); }
@post
    proof { assert(vx_t.take(vx_t.len() as int) =~= vx_t); lemma_keyed($acc@, vx_t, buse($p5 as int)); }
@loop unzip
@when $acc.push(Arc::clone(&$x.1))
@inv
      unzipped($acc@, $e@, $i as int),
@post
    proof { lemma_unzipped($acc@, $e@); lemma_top($acc@, $p4 as int); }
@@end
@@fn src/NarMem.rs storeInConcepts erase
@contract
    requires mok(mev(old($p1).concepts@), $p4 as int), $p2.punct == EnumPunctation::JUGEMENT ==> bok(bvs(*$p2), $p4 as int)
    ensures
        $p2.punct != EnumPunctation::JUGEMENT ==> final($p1).concepts@ == old($p1).concepts@,
        $p2.punct == EnumPunctation::JUGEMENT ==> mev(final($p1).concepts@) == mstore(mev(old($p1).concepts@), bvs(*$p2), subs(tmv(*$p2.term)), $p3 as int, $p4 as int),
        mok(mev(final($p1).concepts@), $p4 as int),
@@end

// ---------------------------------------------------------------- forgetting concepts
pub open spec fn rate(t: Seq<BV>) -> real decreases t.len() { if t.len() == 0 { 0real } else { let a = rate(t.drop_last()); let b = bexp(t.last()); if a >= b { a } else { b } } }
pub open spec fn crate_(c: Arc<Concept>) -> real { rate(tbv(c.payload.beliefsByExp@)) }
pub open spec fn nm(c: (Arc<Concept>, F)) -> TermV { tmv(c.0.name) }
/// names are keys and every belief by expectation carries a proper truth value; the memory is small enough to be counted
pub open spec fn rok(m: Map<TermV, Arc<Concept>>) -> bool {
    m.dom().len() < 0x4000_0000 && forall|k: TermV| m.contains_key(k) ==> tmv((#[trigger] m[k]).name) == k && eok(m[k].payload.beliefsByExp@) && m[k].payload.beliefsByExp@.len() < 0x1000_0000 && m[k].payload.beliefsByUsage@.len() < 0x1000_0000
}
pub open spec fn eok(v: Seq<Arc<Sentence>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] bv(v[i])).s.e is Some && evok(bv(v[i]).s.e->0) }
/// what forgetting guarantees
pub open spec fn limited(m: Map<TermV, Arc<Concept>>, r: Map<TermV, Arc<Concept>>, n: int) -> bool {
    if m.dom().len() <= n { r == m } else {
        &&& r.dom().len() == n
        &&& forall|k: TermV| r.contains_key(k) ==> m.contains_key(k) && #[trigger] r[k] == m[k]
        &&& forall|k: TermV, j: TermV| m.contains_key(k) && !r.contains_key(k) && r.contains_key(j) ==> crate_(#[trigger] m[k]) <= crate_(#[trigger] r[j])
    }
}
pub open spec fn scanned(c: Seq<(Arc<Concept>, F)>, e: Seq<(Term, Arc<Concept>)>, n: int) -> bool { c.len() == n && n <= e.len() && forall|q: int| 0 <= q < n ==> (#[trigger] c[q]).0 == e[q].1 && c[q].1@ == crate_(c[q].0) }
pub open spec fn ranked(c: Seq<(Arc<Concept>, F)>, m: Map<TermV, Arc<Concept>>) -> bool {
    &&& c.len() == m.dom().len()
    &&& forall|q: int| 0 <= q < c.len() ==> m.contains_key(nm(#[trigger] c[q])) && m[nm(c[q])] == c[q].0 && c[q].1@ == crate_(c[q].0)
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> nm(#[trigger] c[i]) != nm(#[trigger] c[j])
    &&& forall|k: TermV| m.contains_key(k) ==> exists|i: int| 0 <= i < c.len() && nm(#[trigger] c[i]) == k
}
pub proof fn lemma_ranked(c: Seq<(Arc<Concept>, F)>, e: Seq<(Term, Arc<Concept>)>, m: Map<TermV, Arc<Concept>>)
    requires entries(e, m), scanned(c, e, e.len() as int), rok(m)
    ensures ranked(c, m)
{
    assert forall|q: int| 0 <= q < c.len() implies m.contains_key(nm(#[trigger] c[q])) && m[nm(c[q])] == c[q].0 && c[q].1@ == crate_(c[q].0) && nm(c[q]) == tmv(e[q].0) by { assert(e[q].1 == c[q].0); assert(m[tmv(e[q].0)] == e[q].1); }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies nm(#[trigger] c[i]) != nm(#[trigger] c[j]) by { assert(nm(c[i]) == tmv(e[i].0) && nm(c[j]) == tmv(e[j].0)); }
    assert forall|k: TermV| m.contains_key(k) implies exists|i: int| 0 <= i < c.len() && nm(#[trigger] c[i]) == k by { let i = choose|i: int| 0 <= i < e.len() && tmv((#[trigger] e[i]).0) == k; assert(nm(c[i]) == k); }
}
pub proof fn lemma_ranked_sort(c: Seq<(Arc<Concept>, F)>, m: Map<TermV, Arc<Concept>>)
    requires ranked(c, m)
    ensures ranked(ksort(c, key1()), m), sorted(ksort(c, key1()), key1())
{
    let q = ksort(c, key1());
    lemma_ksort(c, key1());
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < q.len() implies c.contains(#[trigger] q[i]) by { lemma_ksort_in(c, key1(), i); }
    assert forall|i: int| 0 <= i < q.len() implies m.contains_key(nm(#[trigger] q[i])) && m[nm(q[i])] == q[i].0 && q[i].1@ == crate_(q[i].0) by { assert(c.contains(q[i])); let j = choose|j: int| 0 <= j < c.len() && c[j] == q[i]; assert(nm(c[j]) == nm(q[i])); }
    assert(c.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { if i < j { assert(nm(c[i]) != nm(c[j])); } else { assert(nm(c[j]) != nm(c[i])); } } }
    c.lemma_multiset_has_no_duplicates();
    q.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies nm(#[trigger] q[i]) != nm(#[trigger] q[j]) by {
        assert(c.contains(q[i]) && c.contains(q[j]));
        let a = choose|a: int| 0 <= a < c.len() && c[a] == q[i]; let b = choose|b: int| 0 <= b < c.len() && c[b] == q[j];
        if a == b { assert(q[i] == q[j]); } else if a < b { assert(nm(c[a]) != nm(c[b])); } else { assert(nm(c[b]) != nm(c[a])); }
    }
    assert forall|k: TermV| m.contains_key(k) implies exists|i: int| 0 <= i < q.len() && nm(#[trigger] q[i]) == k by {
        let i = choose|i: int| 0 <= i < c.len() && nm(#[trigger] c[i]) == k; assert(c.to_multiset().count(c[i]) > 0); assert(q.to_multiset().count(c[i]) > 0); assert(q.contains(c[i]));
        let j = choose|j: int| 0 <= j < q.len() && q[j] == c[i]; assert(nm(q[j]) == k);
    }
}
pub open spec fn putback(r: Map<TermV, Arc<Concept>>, c: Seq<(Arc<Concept>, F)>, n: int) -> bool {
    &&& r.dom().len() == n && n <= c.len()
    &&& forall|q: int| 0 <= q < n ==> r.contains_key(nm(#[trigger] c[q])) && r[nm(c[q])] == c[q].0
    &&& forall|k: TermV| #[trigger] r.contains_key(k) ==> exists|q: int| 0 <= q < n && nm(#[trigger] c[q]) == k
}
pub proof fn lemma_putback(r: Map<TermV, Arc<Concept>>, c: Seq<(Arc<Concept>, F)>, n: int, x: TermV, v: Arc<Concept>)
    requires putback(r, c, n), 0 <= n < c.len(), x == nm(c[n]), v == c[n].0, forall|i: int, j: int| 0 <= i < j < c.len() ==> nm(#[trigger] c[i]) != nm(#[trigger] c[j])
    ensures putback(r.insert(x, v), c, n + 1)
{
    let r2 = r.insert(x, v);
    if r.contains_key(x) { let q = choose|q: int| 0 <= q < n && nm(#[trigger] c[q]) == x; assert(nm(c[q]) != nm(c[n])); }
    assert(r2.dom() =~= r.dom().insert(x));
    assert forall|q: int| 0 <= q < n + 1 implies r2.contains_key(nm(#[trigger] c[q])) && r2[nm(c[q])] == c[q].0 by { if q < n { assert(nm(c[q]) != nm(c[n])); assert(r.contains_key(nm(c[q]))); } }
    assert forall|k: TermV| #[trigger] r2.contains_key(k) implies exists|q: int| 0 <= q < n + 1 && nm(#[trigger] c[q]) == k by { if k == x { assert(nm(c[n]) == k); } else { assert(r.contains_key(k)); let q = choose|q: int| 0 <= q < n && nm(#[trigger] c[q]) == k; assert(nm(c[q]) == k); } }
}
pub proof fn lemma_limited(m: Map<TermV, Arc<Concept>>, r: Map<TermV, Arc<Concept>>, q: Seq<(Arc<Concept>, F)>, n: int)
    requires 0 <= n < m.dom().len(), ranked(q, m), sorted(q, key1()), putback(r, q.subrange(0, n), n)
    ensures limited(m, r, n)
{
    let c = q.subrange(0, n);
    assert forall|k: TermV| r.contains_key(k) implies m.contains_key(k) && #[trigger] r[k] == m[k] by { let i = choose|i: int| 0 <= i < n && nm(#[trigger] c[i]) == k; assert(nm(q[i]) == k); assert(c[i] == q[i]); }
    assert forall|k: TermV, j: TermV| m.contains_key(k) && !r.contains_key(k) && r.contains_key(j) implies crate_(#[trigger] m[k]) <= crate_(#[trigger] r[j]) by {
        let a = choose|a: int| 0 <= a < q.len() && nm(#[trigger] q[a]) == k;
        if a < n { assert(c[a] == q[a]); assert(r.contains_key(nm(c[a]))); }
        let b = choose|b: int| 0 <= b < n && nm(#[trigger] c[b]) == j; assert(c[b] == q[b]);
        let key = key1::<Arc<Concept>>();
        assert(key(q[b]) >= key(q[a]));
        assert(nm(q[b]) == j);
    }
}
pub proof fn lemma_entry(e: Seq<(Term, Arc<Concept>)>, m: Map<TermV, Arc<Concept>>, i: int) requires entries(e, m), rok(m), 0 <= i < e.len() ensures m.contains_key(tmv(e[i].0)), m.insert(tmv(e[i].0), e[i].1) == m, eok(e[i].1.payload.beliefsByExp@), e[i].1.payload.beliefsByExp@.len() < 0x1000_0000, e[i].1.payload.beliefsByUsage@.len() < 0x1000_0000
{ assert(m[tmv(e[i].0)] == e[i].1); assert(m.insert(tmv(e[i].0), e[i].1) =~= m); }
pub proof fn lemma_rate_take(v: Seq<Arc<Sentence>>, i: int) requires 0 <= i < v.len() ensures rate(tbv(v).take(i + 1)) == (if rate(tbv(v).take(i)) >= bexp(bv(v[i])) { rate(tbv(v).take(i)) } else { bexp(bv(v[i])) })
{ assert(tbv(v).take(i + 1).drop_last() =~= tbv(v).take(i)); assert(tbv(v).take(i + 1).last() == bv(v[i])); }
@@fn src/NarMem.rs limitMemory erase
@contract
    requires rok(old($p1).concepts@)
    ensures limited(old($p1).concepts@, final($p1).concepts@, $p2 as int)
@loop put-back
@when $p1.concepts.insert(___)
@pre
    let ghost vx_c = $e@;
@inv
      putback($p1.concepts@, vx_c, $i as int), $e@ == vx_c,
@top
    proof { lemma_putback($p1.concepts@, vx_c, $i - 1, nm(vx_c[$i - 1]), vx_c[$i - 1].0); }
@post
    proof { assert forall|q: Seq<(Arc<Concept>, F)>| #[trigger] ranked(q, old($p1).concepts@) && sorted(q, key1()) && vx_c == q.subrange(0, $p2 as int) && $p2 < q.len() implies limited(old($p1).concepts@, $p1.concepts@, $p2 as int) by { lemma_limited(old($p1).concepts@, $p1.concepts@, q, $p2 as int); } }
@loop rating
@when outer
@when $C.push((___, $RT))
@inv
      $p1.concepts@ == old($p1).concepts@, scanned($C@, $e@, $i as int),
@top
    proof { lemma_entry($e@, old($p1).concepts@, $i - 1); }
@post
    proof { lemma_ranked($C@, $e@, old($p1).concepts@); lemma_ranked_sort($C@, old($p1).concepts@); }
@loop count
@when vx_arc_get_mut(&mut $Y)
@inv
      $p1.concepts@ == old($p1).concepts@, cnt_concepts <= $i, cnt_beliefs <= $i * 0x2000_0000,
@top
    proof { lemma_entry($e@, old($p1).concepts@, $i - 1); }
@loop best-belief
@when ; $RT = ___
@pre
    proof { assert(tbv($e@).take(0) =~= Seq::empty()); }
@inv
      $RT@ == rate(tbv($e@).take($i as int)),
@top
    proof { lemma_rate_take($e@, $i - 1); assert(bv($e@[$i - 1]).s.e is Some); }
@post
    proof { assert(tbv($e@).take($e@.len() as int) =~= tbv($e@)); }
@@end

// ---------------------------------------------------------------- lookup
/// `A.iter().chain(B.iter())`: references to the elements of A, then of B
#[verifier::external_body]
pub fn vx_chain<'a, T>(a: &'a Vec<T>, b: &'a Vec<T>) -> (r: Vec<&'a T>) ensures r@.len() == a@.len() + b@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == (if i < a@.len() { a@[i] } else { b@[i - a@.len()] }) { loop {} }
pub open spec fn rbv(r: Seq<&Arc<Sentence>>) -> Seq<BV> { Seq::new(r.len(), |i: int| bv(*r[i])) }
/// everything stored under one term
pub open spec fn bel1(m: Map<TermV, Arc<Concept>>, t: TermV) -> Seq<BV> { if m.contains_key(t) { tbv(m[t].payload.beliefsByExp@) + tbv(m[t].payload.beliefsByUsage@) } else { Seq::empty() } }
pub open spec fn bels(m: Map<TermV, Arc<Concept>>, ts: Seq<TermV>) -> Seq<BV> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { bels(m, ts.drop_last()) + bel1(m, ts.last()) } }
pub open spec fn belt(m: Map<TermV, Arc<Concept>>, ts: Seq<TermV>) -> Seq<BV> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { belt(m, ts.drop_last()) + bels(m, subs(ts.last())) } }
pub proof fn lemma_bels_take(m: Map<TermV, Arc<Concept>>, ts: Seq<TermV>, i: int) requires 0 <= i < ts.len() ensures bels(m, ts.take(i + 1)) == bels(m, ts.take(i)) + bel1(m, ts[i]) { assert(ts.take(i + 1).drop_last() =~= ts.take(i)); }
pub proof fn lemma_belt_take(m: Map<TermV, Arc<Concept>>, ts: Seq<TermV>, i: int) requires 0 <= i < ts.len() ensures belt(m, ts.take(i + 1)) == belt(m, ts.take(i)) + bels(m, subs(ts[i])) { assert(ts.take(i + 1).drop_last() =~= ts.take(i)); }
/// what was just stored is found again under every subterm
pub proof fn lemma_store_then_find(m: Map<TermV, CoV>, b: BV, ts: Seq<TermV>, n: int, now: int)
    requires mok(m, now), bok(b, now), n >= 1, ts.len() > 0, !m.contains_key(ts.last()), !ts.drop_last().contains(ts.last())
    ensures mstore(m, b, ts, n, now)[ts.last()].ex == seq![b]
{ lemma_mstore(m, b, ts.drop_last(), n, now); }
@@fn src/NarMem.rs ret_beliefs_of_concept erase
@contract
    ensures $r is Some <==> $p1.concepts@.contains_key(tmv(*$p2)), $r is Some ==> rbv($r->0@) == bel1($p1.concepts@, tmv(*$p2))
@exit
    proof { if $r is Some { assert(rbv($r->0@) =~= bel1($p1.concepts@, tmv(*$p2))); } }
@@end
@@fn src/NarMem.rs ret_beliefs_by_terms_nonunique erase
@byval beliefsOfConcept
@contract
    ensures tbv($r@) == belt($p1.concepts@, tvseq($p2@))
@entry
    broadcast use lemma_tbv_push;
@loop terms
@when outer
@when retSubterms(___)
@pre
    proof { assert(tvseq($e@).take(0) =~= Seq::empty()); assert(tbv(res@) =~= Seq::empty()); }
@inv
      tbv(res@) == belt($p1.concepts@, tvseq($p2@).take($i as int)),
@top
    proof { lemma_belt_take($p1.concepts@, tvseq($p2@), $i - 1); }
@post
    proof { assert(tvseq($e@).take($e@.len() as int) =~= tvseq($e@)); }
@loop subterms
@when ret_beliefs_of_concept(___)
@pre
    let ghost vx_b = tbv(res@); let ghost vx_s = tvseq($e@);
    proof { assert(vx_s.take(0) =~= Seq::empty()); assert(vx_b + Seq::empty() =~= vx_b); }
@inv
      tbv(res@) == vx_b + bels($p1.concepts@, vx_s.take($i as int)), vx_s == tvseq($e@),
@top
    let ghost vx_b2 = tbv(res@);
    proof { lemma_bels_take($p1.concepts@, vx_s, $i - 1); }
@bot
    proof { assert(tbv(res@) =~= vx_b + bels($p1.concepts@, vx_s.take($i as int))); }
@post
    proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
@loop copy
@when $R.push(Arc::clone($x))
@pre
    proof { assert(rbv($e@).take(0) =~= Seq::empty()); assert(vx_b2 + Seq::empty() =~= vx_b2); }
@inv
      tbv($R@) == vx_b2 + rbv($e@).take($i as int),
@bot
    proof { assert(rbv($e@).take($i as int) =~= rbv($e@).take($i - 1).push(rbv($e@)[$i - 1])); assert(tbv($R@) =~= vx_b2 + rbv($e@).take($i as int)); }
@post
    proof { assert(rbv($e@).take($e@.len() as int) =~= rbv($e@)); }
@@end
}
@@main
