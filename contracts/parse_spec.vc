// the text form of terms: rn(t) is the text of t; gp(s, t, r): s is the text of t followed by r
verus! {
pub uninterp spec fn alnum(c: char) -> bool;
/// ASSUMPTION A-STR: what counts as alphanumeric among the ASCII characters used as delimiters
#[verifier::external_body]
pub proof fn axiom_alnum() ensures !alnum('('), !alnum(')'), !alnum('{'), !alnum('}'), !alnum('['), !alnum(']'), !alnum('<'), !alnum('>'), !alnum('?'), !alnum('#'), !alnum('$'), !alnum('!'), !alnum('&'), !alnum('|'), !alnum('*'), !alnum(','), !alnum(' '), !alnum('/') {}
pub open spec fn sign(c: char) -> bool { alnum(c) || c == '-' || c == '_' || c == '^' }
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && forall|i: int| 0 <= i < t.len() ==> s[i] == #[trigger] t[i] }
pub open spec fn sep(tag: int) -> Seq<char> { if tag == 2 { seq![','] } else if tag == 8 { seq!['&', '&'] } else if tag == 9 { seq!['*'] } else if tag == 11 { seq!['|'] } else { seq!['&'] } }
pub open spec fn copt(n: int) -> Seq<char> { if n == 0 { seq![' ', '<', '-', '>', ' '] } else if n == 1 { seq![' ', '-', '-', '>', ' '] } else if n == 2 { seq![' ', '=', '/', '>', ' '] } else if n == 3 { seq![' ', '=', '=', '>', ' '] } else { seq![' ', '<', '=', '>', ' '] } }
pub open spec fn imgt(n: int) -> Seq<char> { if n == 0 { seq![' ', '/', '1', ' '] } else { seq![' ', '/', '2', ' '] } }
pub open spec fn islist(k: int) -> bool { k == 2 || k == 8 || k == 9 || k == 11 || k == 12 }
pub open spec fn isleaf(k: int) -> bool { k == 1 || k == 5 || k == 6 || k == 7 }
/// the text of a term
pub open spec fn rn(t: TermV) -> Seq<char> decreases t, t.kids.len() + 1 {
    let k = t.tag;
    if k == 1 { t.name } else if k == 5 { seq!['?'] + t.name } else if k == 6 { seq!['#'] + t.name } else if k == 7 { seq!['$'] + t.name }
    else if k == 3 && t.kids.len() == 1 { seq!['['] + rn(t.kids[0]) + seq![']'] }
    else if k == 4 && t.kids.len() == 1 { seq!['{'] + rn(t.kids[0]) + seq!['}'] }
    else if k == 14 && t.kids.len() == 1 { seq!['(', '!'] + rn(t.kids[0]) + seq![')'] }
    else if k == 0 && t.kids.len() == 2 { seq!['<'] + rn(t.kids[0]) + copt(t.num) + rn(t.kids[1]) + seq!['>'] }
    else if k == 10 && t.kids.len() == 2 { seq!['('] + rn(t.kids[1]) + imgt(t.num) + rn(t.kids[0]) + seq![')'] }
    else if islist(k) && t.kids.len() >= 2 { seq!['('] + rn(t.kids[0]) + tl(t, 1) + seq![')'] }
    else { Seq::empty() }
}
/// the text of the components from the k-th on, each after its separator
pub open spec fn tl(t: TermV, k: int) -> Seq<char> decreases t, t.kids.len() - k {
    if 0 <= k < t.kids.len() { sep(t.tag) + rn(t.kids[k]) + tl(t, k + 1) } else { Seq::empty() }
}
/// terms that have a text form
pub open spec fn pok(t: TermV) -> bool decreases t {
    let k = t.tag;
    let one = t.kids.len() == 1 && t.num == 0 && t.name.len() == 0;
    &&& forall|i: int| 0 <= i < t.kids.len() ==> pok(#[trigger] t.kids[i])
    &&& if isleaf(k) { t.kids.len() == 0 && t.num == 0 && 1 <= t.name.len() && forall|i: int| 0 <= i < t.name.len() ==> sign(#[trigger] t.name[i]) }
        else if k == 3 || k == 4 || k == 14 { one }
        else if k == 0 { t.kids.len() == 2 && 0 <= t.num <= 4 && t.name.len() == 0 }
        else if k == 10 { t.kids.len() == 2 && 0 <= t.num <= 1 && t.name.len() == 0 }
        else if k == 2 || k == 9 { t.kids.len() >= 2 && t.num == 0 && t.name.len() == 0 }
        else if k == 8 { 2 <= t.kids.len() <= 4 && t.num == 0 && t.name.len() == 0 }
        else if k == 11 || k == 12 { t.kids.len() == 2 && t.num == 0 && t.name.len() == 0 }
        else { false }
}
/// a name ends where no further character belongs to it
pub open spec fn stop(t: TermV, r: Seq<char>) -> bool { isleaf(t.tag) && r.len() > 0 ==> !sign(r[0]) }
#[verifier::opaque]
pub open spec fn gp(s: Seq<char>, t: TermV, r: Seq<char>) -> bool { pok(t) && s == rn(t) + r && stop(t, r) }

pub proof fn lemma_first(t: TermV) requires pok(t) ensures rn(t).len() >= 1,
    t.tag == 1 ==> sign(rn(t)[0]), t.tag == 5 ==> rn(t)[0] == '?', t.tag == 6 ==> rn(t)[0] == '#', t.tag == 7 ==> rn(t)[0] == '$', t.tag == 3 ==> rn(t)[0] == '[', t.tag == 4 ==> rn(t)[0] == '{', t.tag == 0 ==> rn(t)[0] == '<',
    t.tag == 14 ==> rn(t).len() >= 2 && rn(t)[0] == '(' && rn(t)[1] == '!', t.tag == 10 || islist(t.tag) ==> rn(t)[0] == '(',
    rn(t)[0] != '!', rn(t)[0] != '&'
{ axiom_alnum(); reveal_with_fuel(rn, 1); }
/// cutting a prefix off
pub proof fn lemma_cut(s: Seq<char>, a: Seq<char>, b: Seq<char>) requires s == a + b ensures starts(s, a), s.skip(a.len() as int) == b
{ assert(s.skip(a.len() as int) =~= b); }
pub proof fn lemma_glue(s: Seq<char>, a: Seq<char>) requires starts(s, a) ensures s == a + s.skip(a.len() as int)
{ assert(s =~= a + s.skip(a.len() as int)); }
/// ---- one component between delimiters
pub open spec fn opn(k: int) -> Seq<char> { if k == 3 { seq!['['] } else if k == 4 { seq!['{'] } else { seq!['(', '!'] } }
pub open spec fn cls(k: int) -> Seq<char> { if k == 3 { seq![']'] } else if k == 4 { seq!['}'] } else { seq![')'] } }
pub proof fn lemma_one_open(s: Seq<char>, t: TermV, r: Seq<char>) requires gp(s, t, r), t.tag == 3 || t.tag == 4 || t.tag == 14
    ensures starts(s, opn(t.tag)), gp(s.skip(opn(t.tag).len() as int), t.kids[0], cls(t.tag) + r), starts(cls(t.tag) + r, cls(t.tag)), (cls(t.tag) + r).skip(1) == r, t == node(t.tag, seq![t.kids[0]])
{ reveal(gp); axiom_alnum(); let k = t.tag; let a = opn(k); let b = rn(t.kids[0]) + (cls(k) + r); assert(rn(t) == a + rn(t.kids[0]) + cls(k)); assert(s =~= a + b); lemma_cut(s, a, b); assert(pok(t.kids[0])); lemma_cut(cls(k) + r, cls(k), r); assert(t.kids =~= seq![t.kids[0]]); assert(t.name =~= Seq::<char>::empty()); }
pub proof fn lemma_one_close(s: Seq<char>, k: int, x: TermV, r1: Seq<char>) requires k == 3 || k == 4 || k == 14, starts(s, opn(k)), gp(s.skip(opn(k).len() as int), x, r1), starts(r1, cls(k)) ensures gp(s, node(k, seq![x]), r1.skip(1))
{ reveal(gp); let t = node(k, seq![x]); lemma_glue(s, opn(k)); lemma_glue(r1, cls(k)); assert(t.kids[0] == x); assert(rn(t) == opn(k) + rn(x) + cls(k)); assert(s =~= rn(t) + r1.skip(1)); assert(pok(t)); }
/// ---- two components: statements and images
pub open spec fn bopn(k: int) -> Seq<char> { if k == 0 { seq!['<'] } else { seq!['('] } }
pub open spec fn bcls(k: int) -> Seq<char> { if k == 0 { seq!['>'] } else { seq![')'] } }
pub open spec fn bmid(k: int, n: int) -> Seq<char> { if k == 0 { copt(n) } else { imgt(n) } }
pub open spec fn bfst(t: TermV) -> TermV { if t.tag == 0 { t.kids[0] } else { t.kids[1] } }
pub open spec fn bsnd(t: TermV) -> TermV { if t.tag == 0 { t.kids[1] } else { t.kids[0] } }
pub open spec fn bin(k: int, n: int, a: TermV, b: TermV) -> TermV { TermV { tag: k, num: n, name: Seq::empty(), kids: if k == 0 { seq![a, b] } else { seq![b, a] } } }
pub open spec fn bnum(k: int, n: int) -> bool { k == 0 && 0 <= n <= 4 || k == 10 && 0 <= n <= 1 }
pub open spec fn brest(t: TermV, r: Seq<char>) -> Seq<char> { bmid(t.tag, t.num) + (rn(bsnd(t)) + (bcls(t.tag) + r)) }
pub proof fn lemma_bin_open(s: Seq<char>, t: TermV, r: Seq<char>) requires gp(s, t, r), t.tag == 0 || t.tag == 10
    ensures bnum(t.tag, t.num), starts(s, bopn(t.tag)), gp(s.skip(1), bfst(t), brest(t, r)), starts(brest(t, r), bmid(t.tag, t.num)), gp(brest(t, r).skip(bmid(t.tag, t.num).len() as int), bsnd(t), bcls(t.tag) + r),
        starts(bcls(t.tag) + r, bcls(t.tag)), (bcls(t.tag) + r).skip(1) == r, t == bin(t.tag, t.num, bfst(t), bsnd(t))
{
    reveal(gp); axiom_alnum(); let k = t.tag; let m = bmid(k, t.num);
    assert(pok(t.kids[0]) && pok(t.kids[1]));
    assert(rn(t) == bopn(k) + rn(bfst(t)) + m + rn(bsnd(t)) + bcls(k));
    assert(s =~= bopn(k) + (rn(bfst(t)) + brest(t, r))); lemma_cut(s, bopn(k), rn(bfst(t)) + brest(t, r));
    lemma_cut(brest(t, r), m, rn(bsnd(t)) + (bcls(k) + r)); lemma_cut(bcls(k) + r, bcls(k), r);
    assert(brest(t, r)[0] == m[0]); assert((bcls(k) + r)[0] == bcls(k)[0]);
    assert(t.name =~= Seq::<char>::empty()); assert(t.kids =~= bin(k, t.num, bfst(t), bsnd(t)).kids);
}
pub proof fn lemma_bin_close(s: Seq<char>, k: int, n: int, x: TermV, r1: Seq<char>, y: TermV, r2: Seq<char>)
    requires bnum(k, n), starts(s, bopn(k)), gp(s.skip(1), x, r1), starts(r1, bmid(k, n)), gp(r1.skip(bmid(k, n).len() as int), y, r2), starts(r2, bcls(k)) ensures gp(s, bin(k, n, x, y), r2.skip(1))
{
    reveal(gp); let t = bin(k, n, x, y); lemma_glue(s, bopn(k)); lemma_glue(r1, bmid(k, n)); lemma_glue(r2, bcls(k));
    assert(bfst(t) == x && bsnd(t) == y); assert(rn(t) == bopn(k) + rn(x) + bmid(k, n) + rn(y) + bcls(k)); assert(s =~= rn(t) + r2.skip(1)); assert(pok(t));
}
/// ---- lists
pub open spec fn lrest(t: TermV, k: int, r: Seq<char>) -> Seq<char> { tl(t, k) + (seq![')'] + r) }
pub proof fn lemma_lrest(t: TermV, k: int, r: Seq<char>) requires pok(t), islist(t.tag), 1 <= k <= t.kids.len()
    ensures k == t.kids.len() ==> lrest(t, k, r) == seq![')'] + r && starts(lrest(t, k, r), seq![')']) && lrest(t, k, r).skip(1) == r && !starts(lrest(t, k, r), sep(t.tag)),
        k < t.kids.len() ==> starts(lrest(t, k, r), sep(t.tag)) && gp(lrest(t, k, r).skip(sep(t.tag).len() as int), t.kids[k], lrest(t, k + 1, r)) && lrest(t, k, r)[0] != ')',
        lrest(t, k, r).len() > 0, !sign(lrest(t, k, r)[0])
{
    reveal(gp); axiom_alnum(); let sp = sep(t.tag);
    if k == t.kids.len() { assert(lrest(t, k, r) =~= seq![')'] + r); lemma_cut(seq![')'] + r, seq![')'], r); assert(lrest(t, k, r)[0] == ')'); assert(sp[0] != ')'); }
    else {
        let rest = lrest(t, k + 1, r);
        assert(tl(t, k) == sp + rn(t.kids[k]) + tl(t, k + 1));
        assert(lrest(t, k, r) =~= sp + (rn(t.kids[k]) + rest)); lemma_cut(lrest(t, k, r), sp, rn(t.kids[k]) + rest);
        assert(pok(t.kids[k])); lemma_lrest0(t, k + 1, r); assert(lrest(t, k, r)[0] == sp[0]);
    }
}
pub proof fn lemma_lrest0(t: TermV, k: int, r: Seq<char>) requires 1 <= k <= t.kids.len(), islist(t.tag) ensures lrest(t, k, r).len() > 0, !sign(lrest(t, k, r)[0])
{ axiom_alnum(); if k < t.kids.len() { assert(lrest(t, k, r)[0] == sep(t.tag)[0]); } else { assert(lrest(t, k, r)[0] == ')'); } }
pub proof fn lemma_list_open(s: Seq<char>, t: TermV, r: Seq<char>) requires gp(s, t, r), islist(t.tag)
    ensures pok(t), t.kids.len() >= 2, starts(s, seq!['(']), gp(s.skip(1), t.kids[0], lrest(t, 1, r)), t == node(t.tag, t.kids)
{
    reveal(gp); axiom_alnum(); assert(pok(t.kids[0])); assert(rn(t) == seq!['('] + rn(t.kids[0]) + tl(t, 1) + seq![')']);
    let b = rn(t.kids[0]) + lrest(t, 1, r); assert(s =~= seq!['('] + b); lemma_cut(s, seq!['('], b); lemma_lrest0(t, 1, r); assert(t.name =~= Seq::<char>::empty());
}
/// text of the first n components
pub open spec fn pre(tag: int, ks: Seq<TermV>, n: int) -> Seq<char> decreases n { if n <= 1 { rn(ks[0]) } else { pre(tag, ks, n - 1) + sep(tag) + rn(ks[n - 1]) } }
pub proof fn lemma_pre_tl(tag: int, ks: Seq<TermV>, n: int) requires 1 <= n <= ks.len() ensures pre(tag, ks, n) + tl(node(tag, ks), n) == rn(ks[0]) + tl(node(tag, ks), 1) decreases n
{ if n > 1 { lemma_pre_tl(tag, ks, n - 1); let t = node(tag, ks); assert(tl(t, n - 1) == sep(tag) + rn(ks[n - 1]) + tl(t, n)); assert(pre(tag, ks, n) + tl(t, n) =~= pre(tag, ks, n - 1) + tl(t, n - 1)); } }
pub proof fn lemma_pre_push(tag: int, ks: Seq<TermV>, x: TermV, n: int) requires 1 <= n <= ks.len() ensures pre(tag, ks.push(x), n) == pre(tag, ks, n) decreases n
{ if n > 1 { lemma_pre_push(tag, ks, x, n - 1); } }
/// s is an opening parenthesis, the components ks and r
#[verifier::opaque]
pub open spec fn lpre(tag: int, s: Seq<char>, ks: Seq<TermV>, r: Seq<char>) -> bool { ks.len() >= 1 && s == seq!['('] + pre(tag, ks, ks.len() as int) + r && forall|i: int| 0 <= i < ks.len() ==> pok(#[trigger] ks[i]) }
pub proof fn lemma_lpre_first(tag: int, s: Seq<char>, x: TermV, r: Seq<char>) requires starts(s, seq!['(']), gp(s.skip(1), x, r) ensures lpre(tag, s, seq![x], r)
{ reveal(gp); reveal(lpre); lemma_glue(s, seq!['(']); assert(s =~= seq!['('] + pre(tag, seq![x], 1) + r); }
pub proof fn lemma_lpre_next(tag: int, s: Seq<char>, ks: Seq<TermV>, r: Seq<char>, x: TermV, r2: Seq<char>) requires lpre(tag, s, ks, r), starts(r, sep(tag)), gp(r.skip(sep(tag).len() as int), x, r2) ensures lpre(tag, s, ks.push(x), r2)
{ reveal(gp); reveal(lpre); lemma_glue(r, sep(tag)); lemma_pre_push(tag, ks, x, ks.len() as int); let n = ks.len() as int; assert(pre(tag, ks.push(x), n + 1) == pre(tag, ks, n) + sep(tag) + rn(x)); assert(s =~= seq!['('] + pre(tag, ks.push(x), n + 1) + r2); }
pub open spec fn larity(tag: int, n: int) -> bool { n >= 2 && (tag == 8 ==> n <= 4) && (tag == 11 || tag == 12 ==> n == 2) }
pub proof fn lemma_lpre_close(tag: int, s: Seq<char>, ks: Seq<TermV>, r: Seq<char>) requires islist(tag), lpre(tag, s, ks, r), larity(tag, ks.len() as int), starts(r, seq![')']) ensures gp(s, node(tag, ks), r.skip(1))
{
    reveal(gp); reveal(lpre); lemma_glue(r, seq![')']); let t = node(tag, ks); let n = ks.len() as int; lemma_pre_tl(tag, ks, n); assert(tl(t, n) =~= Seq::<char>::empty());
    assert(pre(tag, ks, n) + tl(t, n) =~= pre(tag, ks, n)); assert(rn(t) == seq!['('] + rn(ks[0]) + tl(t, 1) + seq![')']); assert(s =~= rn(t) + r.skip(1)); assert(pok(t));
}
/// ---- the text determines the term and what follows it
pub proof fn lemma_unamb_leaf(s: Seq<char>, t1: TermV, r1: Seq<char>, t2: TermV, r2: Seq<char>) requires gp(s, t1, r1), gp(s, t2, r2), isleaf(t1.tag), t1.tag == t2.tag ensures t1 == t2, r1 == r2
{
    reveal(gp); let k = t1.tag;
        let o = if k == 1 { 0int } else { 1int };
        let (n1, n2) = (t1.name, t2.name);
        assert(forall|i: int| 0 <= i < n1.len() ==> n1[i] == s[i + o]); assert(forall|i: int| 0 <= i < n2.len() ==> n2[i] == s[i + o]);
        assert(rn(t1).len() == n1.len() + o && rn(t2).len() == n2.len() + o);
        if n1.len() < n2.len() { assert(r1[0] == s[n1.len() + o]); assert(sign(n2[n1.len() as int])); }
        if n2.len() < n1.len() { assert(r2[0] == s[n2.len() + o]); assert(sign(n1[n2.len() as int])); }
        assert(n1 =~= n2); assert(r1 =~= s.skip(n1.len() + o)); assert(r2 =~= s.skip(n2.len() + o)); assert(t1.kids =~= t2.kids);
}
/// what the first characters tell
pub proof fn lemma_gp_first(s: Seq<char>, t: TermV, r: Seq<char>) requires gp(s, t, r) ensures s.len() >= 1,
    t.tag == 1 ==> sign(s[0]), t.tag == 5 ==> s[0] == '?', t.tag == 6 ==> s[0] == '#', t.tag == 7 ==> s[0] == '$', t.tag == 3 ==> s[0] == '[', t.tag == 4 ==> s[0] == '{', t.tag == 0 ==> s[0] == '<',
    t.tag == 14 ==> s.len() >= 2 && s[0] == '(' && s[1] == '!', t.tag == 10 || islist(t.tag) ==> s[0] == '(',
    isleaf(t.tag) || t.tag == 3 || t.tag == 4 || t.tag == 0 || t.tag == 14 || t.tag == 10 || islist(t.tag), pok(t)
{ reveal(gp); lemma_first(t); }
pub broadcast proof fn lemma_unamb(s: Seq<char>, t1: TermV, r1: Seq<char>, t2: TermV, r2: Seq<char>) requires #[trigger] gp(s, t1, r1), #[trigger] gp(s, t2, r2) ensures t1 == t2, r1 == r2
    decreases t1, t1.kids.len() + 1
{
    hide(rn); hide(tl); hide(pok);
    axiom_alnum();
    lemma_gp_first(s, t1, r1); lemma_gp_first(s, t2, r2);
    let k = t1.tag;
    if isleaf(k) {
        assert(t2.tag == k); lemma_unamb_leaf(s, t1, r1, t2, r2);
    } else if k == 3 || k == 4 {
        assert(t2.tag == k);
        lemma_one_open(s, t1, r1); lemma_one_open(s, t2, r2);
        lemma_unamb(s.skip(1), t1.kids[0], cls(k) + r1, t2.kids[0], cls(k) + r2);
    } else if k == 0 {
        assert(t2.tag == 0);
        lemma_bin_open(s, t1, r1); lemma_bin_open(s, t2, r2);
        lemma_unamb(s.skip(1), t1.kids[0], brest(t1, r1), t2.kids[0], brest(t2, r2));
        let b = brest(t1, r1);
        assert(b[1] == copt(t1.num)[1] && b[2] == copt(t1.num)[2] && b[1] == copt(t2.num)[1] && b[2] == copt(t2.num)[2]);
        assert(t1.num == t2.num);
        lemma_unamb(b.skip(5), t1.kids[1], bcls(0) + r1, t2.kids[1], bcls(0) + r2);
    } else {
        // all that start with a parenthesis
        let second = |t: TermV| -> TermV { if t.tag == 10 { t.kids[1] } else { t.kids[0] } };
        if k == 14 { lemma_one_open(s, t1, r1); } else if k == 10 { lemma_bin_open(s, t1, r1); lemma_head(s, second(t1), brest(t1, r1)); } else { lemma_list_open(s, t1, r1); lemma_head(s, t1.kids[0], lrest(t1, 1, r1)); }
        if t2.tag == 14 { lemma_one_open(s, t2, r2); } else if t2.tag == 10 { lemma_bin_open(s, t2, r2); lemma_head(s, second(t2), brest(t2, r2)); } else { lemma_list_open(s, t2, r2); lemma_head(s, t2.kids[0], lrest(t2, 1, r2)); }
        assert(k == 14 ==> s[1] == opn(14)[1]); assert(t2.tag == 14 ==> s[1] == opn(14)[1]);
        assert((k == 14) == (t2.tag == 14));
        if k == 14 { lemma_unamb(s.skip(2), t1.kids[0], cls(k) + r1, t2.kids[0], cls(k) + r2); }
        else {
            let x1 = if k == 10 { brest(t1, r1) } else { lrest(t1, 1, r1) };
            let x2 = if t2.tag == 10 { brest(t2, r2) } else { lrest(t2, 1, r2) };
            lemma_unamb(s.skip(1), second(t1), x1, second(t2), x2);
            if k != 10 { lemma_lrest(t1, 1, r1); } if t2.tag != 10 { lemma_lrest(t2, 1, r2); }
            assert(k == 10 ==> x1[0] == ' '); assert(t2.tag == 10 ==> x1[0] == ' ');
            assert(k != 10 ==> x1[0] == sep(k)[0]); assert(t2.tag != 10 ==> x1[0] == sep(t2.tag)[0]);
            if k == 12 { lemma_head1(x1, t1.kids[1], lrest(t1, 2, r1)); } if t2.tag == 12 { lemma_head1(x1, t2.kids[1], lrest(t2, 2, r2)); }
            assert(k == 8 ==> x1[1] == sep(8)[1]); assert(t2.tag == 8 ==> x1[1] == sep(8)[1]);
            assert(k == t2.tag);
            if k == 10 {
                assert(x1[2] == imgt(t1.num)[2] && x1[2] == imgt(t2.num)[2]); assert(t1.num == t2.num);
                lemma_unamb(x1.skip(4), t1.kids[0], bcls(k) + r1, t2.kids[0], bcls(k) + r2);
            } else { lemma_unamb_list(t1, r1, t2, r2, 1); assert(t1.kids =~= t2.kids); }
        }
    }
}
pub proof fn lemma_head(s: Seq<char>, x: TermV, r: Seq<char>) requires s.len() > 0, gp(s.skip(1), x, r) ensures s.len() > 1, s[1] == rn(x)[0], s[1] != '!', s[1] != '&'
{ reveal(gp); lemma_first(x); let u = rn(x) + r; assert(s.skip(1) == u); assert(u.len() >= 1 && u[0] == rn(x)[0]); assert(s.skip(1).len() == s.len() - 1); assert(s.skip(1)[0] == s[1]); }
pub proof fn lemma_head1(s: Seq<char>, x: TermV, r: Seq<char>) requires s.len() > 0, gp(s.skip(1), x, r) ensures s.len() > 1, s[1] != '&'
{ lemma_head(s, x, r); }
pub proof fn lemma_unamb_list(t1: TermV, r1: Seq<char>, t2: TermV, r2: Seq<char>, k: int)
    requires pok(t1), pok(t2), islist(t1.tag), t1.tag == t2.tag, 1 <= k <= t1.kids.len(), k <= t2.kids.len(), lrest(t1, k, r1) == lrest(t2, k, r2)
    ensures t1.kids.len() == t2.kids.len(), r1 == r2, forall|i: int| k <= i < t1.kids.len() ==> t1.kids[i] == t2.kids[i] decreases t1, t1.kids.len() - k
{
    lemma_lrest(t1, k, r1); lemma_lrest(t2, k, r2);
    if k < t1.kids.len() {
        assert(k < t2.kids.len());
        lemma_unamb(lrest(t1, k, r1).skip(sep(t1.tag).len() as int), t1.kids[k], lrest(t1, k + 1, r1), t2.kids[k], lrest(t2, k + 1, r2));
        lemma_unamb_list(t1, r1, t2, r2, k + 1);
    }
}
/// ---- reading back: the text of a term is read as that term, whatever follows it
pub proof fn lemma_reads_back(t: TermV, r: Seq<char>) requires pok(t), stop(t, r) ensures gp(rn(t) + r, t, r) { reveal(gp); }
}
