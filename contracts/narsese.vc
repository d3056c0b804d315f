// src/NarseseParser.rs: reading sentences
@@use parse.vc
@@use sentence.vc
verus! {
// ---------------------------------------------------------------- text: ASSUMPTION A-STR, contracts of the methods of String and str that are used
pub uninterp spec fn clen(c: char) -> nat;
/// the length in bytes
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
#[verifier::external_body]
pub proof fn axiom_clen() ensures forall|c: char| 1 <= #[trigger] clen(c) <= 4, forall|c: char| (c as u32) < 128 ==> #[trigger] clen(c) == 1 {}
pub open spec fn endsw(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.skip(s.len() - t.len()) == t }
pub open spec fn inn(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() && starts(#[trigger] s.skip(i), t) }
/// every occurrence of a from the left on replaced by b
pub open spec fn repl(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 || a.len() == 0 { s } else if starts(s, a) { b + repl(s.skip(a.len() as int), a, b) } else { seq![s[0]] + repl(s.skip(1), a, b) }
}
/// the pieces between the occurrences of t
pub open spec fn pieces(s: Seq<char>, t: Seq<char>, acc: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 || t.len() == 0 { seq![acc + s] } else if starts(s, t) { seq![acc] + pieces(s.skip(t.len() as int), t, Seq::empty()) } else { pieces(s.skip(1), t, acc.push(s[0])) }
}
pub uninterp spec fn wsp(c: char) -> bool;
pub open spec fn trimr(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && wsp(s.last()) { trimr(s.drop_last()) } else { s } }
/// the number a text denotes
pub uninterp spec fn fnum(s: Seq<char>) -> Option<real>;
pub struct NumErr;
pub trait VxS {
    spec fn sq(&self) -> Seq<char>;
    fn vx_ends_with_s(&self, t: &str) -> (r: bool) ensures r == endsw(self.sq(), t@);
    fn vx_starts_with_s(&self, t: &str) -> (r: bool) ensures r == starts(self.sq(), t@);
    fn vx_contains_s(&self, t: &str) -> (r: bool) ensures r == inn(self.sq(), t@);
    fn vx_strip_suffix_c(&self, c: char) -> (r: Option<&str>) ensures match r { Some(p) => self.sq() == p@.push(c), None => self.sq().len() == 0 || self.sq().last() != c };
    fn vx_rsplit_once_c(&self, c: char) -> (r: Option<(&str, &str)>) ensures match r { Some((a, b)) => self.sq() == a@ + seq![c] + b@ && !b@.contains(c), None => !self.sq().contains(c) };
    fn vx_replace(&self, a: &str, b: &str) -> (r: String) requires a@.len() > 0 ensures r@ == repl(self.sq(), a@, b@);
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == trimr(self.sq());
    fn vx_split_s(&self, t: &str) -> (r: Vec<&str>) requires t@.len() > 0 ensures r@.len() == pieces(self.sq(), t@, Seq::empty()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(self.sq(), t@, Seq::empty())[i];
    fn vx_parse_f(&self) -> (r: Result<F, NumErr>) ensures match r { Ok(x) => fnum(self.sq()) == Some(x@), Err(_) => fnum(self.sq()) is None };
    fn vx_prefix(&self, n: usize) -> (r: String) requires exists|k: int| 0 <= k <= self.sq().len() && blen(#[trigger] self.sq().take(k)) == n ensures forall|k: int| 0 <= k <= self.sq().len() && blen(#[trigger] self.sq().take(k)) == n ==> r@ == self.sq().take(k);
}
impl VxS for str {
    open spec fn sq(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_ends_with_s(&self, t: &str) -> (r: bool) { self.ends_with(t) }
    #[verifier::external_body] fn vx_starts_with_s(&self, t: &str) -> (r: bool) { self.starts_with(t) }
    #[verifier::external_body] fn vx_contains_s(&self, t: &str) -> (r: bool) { self.contains(t) }
    #[verifier::external_body] fn vx_strip_suffix_c(&self, c: char) -> (r: Option<&str>) { self.strip_suffix(c) }
    #[verifier::external_body] fn vx_rsplit_once_c(&self, c: char) -> (r: Option<(&str, &str)>) { self.rsplit_once(c) }
    #[verifier::external_body] fn vx_replace(&self, a: &str, b: &str) -> (r: String) { self.replace(a, b) }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body] fn vx_split_s(&self, t: &str) -> (r: Vec<&str>) { loop {} }
    #[verifier::external_body] fn vx_parse_f(&self) -> (r: Result<F, NumErr>) { loop {} }
    #[verifier::external_body] fn vx_prefix(&self, n: usize) -> (r: String) { self[..n].to_string() }
}
impl VxS for String {
    open spec fn sq(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_ends_with_s(&self, t: &str) -> (r: bool) { self.ends_with(t) }
    #[verifier::external_body] fn vx_starts_with_s(&self, t: &str) -> (r: bool) { self.starts_with(t) }
    #[verifier::external_body] fn vx_contains_s(&self, t: &str) -> (r: bool) { self.contains(t) }
    #[verifier::external_body] fn vx_strip_suffix_c(&self, c: char) -> (r: Option<&str>) { self.strip_suffix(c) }
    #[verifier::external_body] fn vx_rsplit_once_c(&self, c: char) -> (r: Option<(&str, &str)>) { self.rsplit_once(c) }
    #[verifier::external_body] fn vx_replace(&self, a: &str, b: &str) -> (r: String) { self.replace(a, b) }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body] fn vx_split_s(&self, t: &str) -> (r: Vec<&str>) { loop {} }
    #[verifier::external_body] fn vx_parse_f(&self) -> (r: Result<F, NumErr>) { loop {} }
    #[verifier::external_body] fn vx_prefix(&self, n: usize) -> (r: String) { self[..n].to_string() }
}
pub trait VxSm { fn vx_pop(&mut self) -> (r: Option<char>); }
impl VxSm for String {
    #[verifier::external_body] fn vx_pop(&mut self) -> (r: Option<char>) ensures match r { Some(c) => old(self)@ == final(self)@.push(c), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { self.pop() }
}
pub assume_specification [String::len](s: &String) -> (r: usize) ensures r == blen(s@);
// ---------------------------------------------------------------- blanks next to a star
/// without the blanks after stars (f: a star came just before)
pub open spec fn da(s: Seq<char>, f: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s[0] == ' ' && f { da(s.skip(1), true) } else { seq![s[0]] + da(s.skip(1), s[0] == '*') }
}
/// without the blanks before stars
pub open spec fn db(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { let x = db(s.skip(1)); if s[0] == ' ' && x.len() > 0 && x[0] == '*' { x } else { seq![s[0]] + x } }
}
pub open spec fn st() -> Seq<char> { seq!['*'] }
pub open spec fn sa() -> Seq<char> { seq!['*', ' '] }
pub open spec fn sb() -> Seq<char> { seq![' ', '*'] }
pub proof fn lemma_da_repl(s: Seq<char>, f: bool) ensures da(repl(s, sa(), seq!['*']), f) == da(s, f) decreases s.len()
{
    let st = seq!['*'];
    if s.len() > 0 {
        if starts(s, sa()) {
            let y = repl(s.skip(2), sa(), st); let x = st + y;
            assert(s[0] == '*' && s[1] == ' '); assert(repl(s, sa(), st) == x);
            lemma_da_repl(s.skip(2), true);
            assert(x.skip(1) =~= y); assert(x[0] == '*'); assert(da(x, f) == seq!['*'] + da(y, true));
            assert(s.skip(1).skip(1) =~= s.skip(2)); assert(s.skip(1)[0] == ' '); assert(da(s.skip(1), true) == da(s.skip(2), true));
        } else {
            let y = repl(s.skip(1), sa(), st); let x = seq![s[0]] + y;
            assert(x.skip(1) =~= y); assert(x[0] == s[0]);
            lemma_da_repl(s.skip(1), true); lemma_da_repl(s.skip(1), s[0] == '*');
        }
    }
}
pub proof fn lemma_db_repl(s: Seq<char>) ensures db(repl(s, sb(), seq!['*'])) == db(s) decreases s.len()
{
    let st = seq!['*'];
    if s.len() > 0 {
        if starts(s, sb()) {
            let y = repl(s.skip(2), sb(), st); let x = st + y;
            assert(s[0] == ' ' && s[1] == '*'); assert(repl(s, sb(), st) == x);
            lemma_db_repl(s.skip(2));
            assert(x.skip(1) =~= y); assert(x[0] == '*'); assert(db(x) == st + db(y));
            assert(s.skip(1).skip(1) =~= s.skip(2)); assert(s.skip(1)[0] == '*'); assert(db(s.skip(1)) == st + db(s.skip(2)));
        } else {
            let y = repl(s.skip(1), sb(), st); let x = seq![s[0]] + y;
            assert(x.skip(1) =~= y); assert(x[0] == s[0]);
            lemma_db_repl(s.skip(1));
        }
    }
}
pub proof fn lemma_has_tail(s: Seq<char>, t: Seq<char>) requires s.len() > 0, !inn(s, t) ensures !inn(s.skip(1), t), !starts(s, t)
{
    assert(s.skip(0) =~= s);
    if inn(s.skip(1), t) { let i = choose|i: int| 0 <= i <= s.skip(1).len() && starts(#[trigger] s.skip(1).skip(i), t); assert(s.skip(1).skip(i) =~= s.skip(i + 1)); }
}
/// nothing to drop
pub proof fn lemma_da_id(s: Seq<char>, f: bool) requires !inn(s, sa()), f && s.len() > 0 ==> s[0] != ' ' ensures da(s, f) == s decreases s.len()
{ if s.len() > 0 { lemma_has_tail(s, sa()); if s.len() > 1 && s[0] == '*' && s[1] == ' ' { assert(starts(s, sa())); } lemma_da_id(s.skip(1), s[0] == '*'); assert(seq![s[0]] + s.skip(1) =~= s); } }
pub proof fn lemma_db_id(s: Seq<char>) requires !inn(s, sb()) ensures db(s) == s decreases s.len()
{ if s.len() > 0 { lemma_has_tail(s, sb()); if s.len() > 1 && s[0] == ' ' && s[1] == '*' { assert(starts(s, sb())); } lemma_db_id(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } }
pub proof fn lemma_repl_len(s: Seq<char>, a: Seq<char>) requires a.len() == 2 ensures repl(s, a, seq!['*']).len() <= s.len(), inn(s, a) ==> repl(s, a, seq!['*']).len() < s.len() decreases s.len()
{
    if s.len() > 0 {
        if starts(s, a) { lemma_repl_len(s.skip(2), a); }
        else { lemma_repl_len(s.skip(1), a); if inn(s, a) { let i = choose|i: int| 0 <= i <= s.len() && starts(#[trigger] s.skip(i), a); assert(s.skip(0) =~= s); assert(i > 0); assert(s.skip(1).skip(i - 1) =~= s.skip(i)); } }
    } else if inn(s, a) { let i = choose|i: int| 0 <= i <= s.len() && starts(#[trigger] s.skip(i), a); assert(s.skip(i).len() == 0); }
}
pub proof fn lemma_slits() ensures "* "@ == sa(), " *"@ == sb(), "*"@ == seq!['*'], "*"@ == st(), " "@ == seq![' '], " :|:"@ == evs()
{ reveal_strlit("* "); reveal_strlit(" *"); reveal_strlit("*"); reveal_strlit(" "); reveal_strlit(" :|:"); assert("* "@ =~= sa()); assert(" *"@ =~= sb()); assert("*"@ =~= seq!['*']); assert(" "@ =~= seq![' ']); assert(" :|:"@ =~= evs()); }
// ---------------------------------------------------------------- sentences
/// what a sentence text consists of
pub struct CutV { pub s: Seq<char>, pub tv: TvR }
pub open spec fn dtv() -> TvR { TvR { f: 1real, c: 9real / 10real } }
/// the text between the last opening brace and the closing brace at the end, if there is any
pub open spec fn ob() -> Seq<char> { seq!['{'] }
pub open spec fn braced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool { s == (a + ob() + b).push('}') && !b.contains('{') }
pub open spec fn tvof(b: Seq<char>) -> Option<TvR> {
    let p = pieces(b, seq![' '], Seq::empty());
    if p.len() == 2 && fnum(p[0]) is Some && fnum(p[1]) is Some && ok(TvR { f: fnum(p[0])->0, c: fnum(p[1])->0 }) { Some(TvR { f: fnum(p[0])->0, c: fnum(p[1])->0 }) } else { None }
}
/// a truth value at the end is cut off and read; otherwise the text stays and the default holds
pub open spec fn tvcut(s: Seq<char>, r: CutV) -> bool {
    ||| exists|a: Seq<char>, b: Seq<char>| #[trigger] braced(s, a, b) && tvof(b) is Some && r == (CutV { s: a, tv: tvof(b)->0 })
    ||| (forall|a: Seq<char>, b: Seq<char>| #[trigger] braced(s, a, b) ==> tvof(b) is None) && r == (CutV { s, tv: dtv() })
}
pub broadcast proof fn lemma_pushed(x: Seq<char>, c: char) ensures #![trigger x.push(c)] x.push(c).drop_last() == x, x.push(c).last() == c, x.push(c).len() == x.len() + 1 { assert(x.push(c).drop_last() =~= x); }
pub broadcast proof fn lemma_braced1(s: Seq<char>, a: Seq<char>, b: Seq<char>) requires #[trigger] braced(s, a, b) ensures s.len() > 0, s.last() == '}', s.drop_last().contains('{'), s.drop_last() == a + ob() + b
{ broadcast use lemma_pushed; assert((a + ob() + b)[a.len() as int] == '{'); assert((a + ob() + b).contains('{')); }
pub broadcast proof fn lemma_braced2(s: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) requires #[trigger] braced(s, a, b), #[trigger] braced(s, c, d) ensures a == c, b == d
{
    lemma_braced1(s, a, b); lemma_braced1(s, c, d); let x = s.drop_last();
    if a.len() < c.len() { assert(x[c.len() as int] == '{'); assert((a + ob() + b)[c.len() as int] == b[c.len() - a.len() - 1]); assert(b.contains('{')); }
    if c.len() < a.len() { assert(x[a.len() as int] == '{'); assert((c + ob() + d)[a.len() as int] == d[a.len() - c.len() - 1]); assert(d.contains('{')); }
    assert(a =~= x.take(a.len() as int)); assert(c =~= x.take(a.len() as int)); assert(b =~= x.skip(a.len() as int + 1)); assert(d =~= x.skip(a.len() as int + 1));
}
/// a text cut at a brace is braced
pub broadcast proof fn lemma_braced3(a: Seq<char>, b: Seq<char>) requires !b.contains('{') ensures braced((#[trigger] (a + ob() + b)).push('}'), a, b) { }
@@fn src/NarseseParser.rs parseNarseseRetTv strs
@contract
    ensures tvcut(old($p1)@, CutV { s: final($p1)@, tv: tr(*final($p2)) })
@entry
    let ghost s0 = $p1@; broadcast use {lemma_pushed, lemma_braced1, lemma_braced2, lemma_braced3};
    proof { lemma_slits(); }
@@end
pub open spec fn evs() -> Seq<char> { seq![' ', ':', '|', ':'] }
pub open spec fn evcut(s: Seq<char>) -> Seq<char> { if endsw(s, evs()) { s.take(s.len() - 4) } else { s } }
pub open spec fn norm(s: Seq<char>) -> Seq<char> { db(da(s, false)) }
pub open spec fn isp(c: char) -> bool { c == '.' || c == '!' || c == '?' }
pub open spec fn punct(c: char) -> EnumPunctation { if c == '.' { EnumPunctation::JUGEMENT } else if c == '!' { EnumPunctation::GOAL } else { EnumPunctation::QUESTION } }
/// what the reading of a text gives
pub open spec fn sread(s: Seq<char>, r: Option<(Term, Tv, EnumPunctation, bool)>) -> bool {
    exists|k: CutV| #[trigger] tvcut(evcut(norm(s)), k) && ({
        let u = trimr(k.s);
        match r {
            Some((t, tv, p, e)) => u.len() > 0 && isp(u.last()) && p == punct(u.last()) && e == endsw(norm(s), evs()) && tr(tv) == k.tv && readable(u.drop_last(), tmv(t)),
            None => u.len() == 0 || !isp(u.last()) || forall|t: TermV| !readable(u.drop_last(), t),
        }
    })
}
/// s starts with the text of t
pub open spec fn readable(s: Seq<char>, t: TermV) -> bool { exists|r: Seq<char>| gp(s, t, r) }
pub proof fn lemma_blen_cat(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_blen_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } }
pub proof fn lemma_blen_pos(a: Seq<char>) ensures a.len() > 0 ==> blen(a) > 0 decreases a.len() { axiom_clen(); }
pub proof fn lemma_blen_evs() ensures blen(evs()) == 4
{ axiom_clen(); reveal_with_fuel(blen, 5); assert(evs().drop_last() =~= seq![' ', ':', '|']); assert(evs().drop_last().drop_last() =~= seq![' ', ':']); assert(evs().drop_last().drop_last().drop_last() =~= seq![' ']); assert(seq![' '].drop_last().len() == 0); assert(clen(' ') == 1 && clen(':') == 1 && clen('|') == 1); }
/// cutting an event marker off by bytes cuts it off
pub broadcast proof fn lemma_evcut(s: Seq<char>) requires #[trigger] endsw(s, evs()) ensures blen(s) >= 4, blen(s.take(s.len() - 4)) == blen(s) - 4, forall|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == blen(s) - 4 ==> k == s.len() - 4
{
    let n = s.len() - 4; assert(evs().len() == 4); assert(s.take(n) + s.skip(n) =~= s); lemma_blen_cat(s.take(n), s.skip(n)); lemma_blen_evs();
    assert forall|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == blen(s) - 4 implies k == n by {
        if k < n { let d = s.subrange(k, n); assert(s.take(k) + d =~= s.take(n)); lemma_blen_cat(s.take(k), d); lemma_blen_pos(d); }
        if k > n { let d = s.subrange(n, k); assert(s.take(n) + d =~= s.take(k)); lemma_blen_cat(s.take(n), d); lemma_blen_pos(d); }
    }
}
@@fn src/NarseseParser.rs parseNarsese strs
@contract
    ensures sread($p1@, $r)
@entry
    let ghost s0 = $p1@; broadcast use {lemma_pushed, lemma_evcut, lemma_rep_a, lemma_rep_b};
    proof { lemma_slits(); lemma_blen_zero(); }
@loop while
@when $V.vx_replace("* ", "*")
@inv
      da($V@, false) == da(s0, false),
    decreases $V@.len()
@post
    proof { lemma_da_id($V@, false); }
@loop while
@when $V.vx_replace(" *", "*")
@inv
      db($V@) == norm(s0),
    decreases $V@.len()
@post
    proof { lemma_db_id($V@); assert(evcut(norm(s0)) == evcut($V@)); }
@@end
pub broadcast proof fn lemma_rep_a(s: Seq<char>) ensures #![trigger repl(s, sa(), st())] da(repl(s, sa(), st()), false) == da(s, false), inn(s, sa()) ==> repl(s, sa(), st()).len() < s.len() { lemma_da_repl(s, false); lemma_repl_len(s, sa()); }
pub broadcast proof fn lemma_rep_b(s: Seq<char>) ensures #![trigger repl(s, sb(), st())] db(repl(s, sb(), st())) == db(s), inn(s, sb()) ==> repl(s, sb(), st()).len() < s.len() { lemma_db_repl(s); lemma_repl_len(s, sb()); }
pub proof fn lemma_blen_zero() ensures forall|s: Seq<char>| #[trigger] blen(s) == 0 <==> s.len() == 0 { assert forall|s: Seq<char>| #[trigger] blen(s) == 0 <==> s.len() == 0 by { lemma_blen_pos(s); } }
// ---------------------------------------------------------------- what is written is read back
/// ASSUMPTION A-STR: punctuation is no white space
#[verifier::external_body]
pub proof fn axiom_wsp() ensures !wsp('.'), !wsp('!'), !wsp('?'), !wsp('}') {}
pub open spec fn bad(a: char, b: char) -> bool { a == '*' && b == ' ' || a == ' ' && b == '*' }
pub open spec fn tidy(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> !bad(#[trigger] s[i], s[i + 1]) }
pub open spec fn edge(c: char) -> bool { c != '*' && c != ' ' }
pub open spec fn neat(s: Seq<char>) -> bool { tidy(s) && s.len() > 0 && edge(s[0]) && edge(s.last()) }
pub proof fn lemma_tidy_cat(a: Seq<char>, b: Seq<char>) requires tidy(a), tidy(b), a.len() > 0 && b.len() > 0 ==> !bad(a.last(), b[0]) ensures tidy(a + b)
{ let s = a + b; assert forall|i: int| 0 <= i < s.len() - 1 implies !bad(#[trigger] s[i], s[i + 1]) by { if i + 1 < a.len() { assert(s[i] == a[i] && s[i + 1] == a[i + 1]); } else if i >= a.len() { let j = i - a.len(); assert(s[i] == b[j] && s[i + 1] == b[j + 1]); } else { assert(s[i] == a.last() && s[i + 1] == b[0]); } } }
pub proof fn lemma_neat_cat(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires neat(a), tidy(b), b.len() > 0, neat(c) ensures neat(a + b + c)
{ lemma_tidy_cat(a, b); assert((a + b).last() == b.last()); lemma_tidy_cat(a + b, c); assert((a + b + c)[0] == a[0]); assert((a + b + c).last() == c.last()); }
pub proof fn lemma_neat_leaf(t: TermV) requires pok(t), isleaf(t.tag) ensures neat(rn(t))
{
    axiom_alnum(); axiom_alnum2(); let k = t.tag;
    assert(tidy(t.name)) by { assert forall|i: int| 0 <= i < t.name.len() - 1 implies !bad(#[trigger] t.name[i], t.name[i + 1]) by { assert(sign(t.name[i]) && sign(t.name[i + 1])); } }
    assert(sign(t.name[0]) && sign(t.name.last()));
    if k != 1 { let o = rn(t).take(1); assert(rn(t) =~= o + t.name); lemma_tidy_cat(o, t.name); assert(rn(t).last() == t.name.last()); }
}
pub proof fn lemma_mid(k: int, n: int) requires bnum(k, n) ensures tidy(bmid(k, n)), bmid(k, n).len() > 0, bmid(k, n)[0] == ' ', bmid(k, n).last() == ' ', neat(bopn(k)), neat(bcls(k)) {}
pub proof fn lemma_rn_bin(t: TermV) requires pok(t), t.tag == 0 || t.tag == 10 ensures bnum(t.tag, t.num), rn(t) == bopn(t.tag) + (rn(bfst(t)) + bmid(t.tag, t.num) + rn(bsnd(t))) + bcls(t.tag)
{ assert(rn(t) == bopn(t.tag) + rn(bfst(t)) + bmid(t.tag, t.num) + rn(bsnd(t)) + bcls(t.tag)); assert(rn(t) =~= bopn(t.tag) + (rn(bfst(t)) + bmid(t.tag, t.num) + rn(bsnd(t))) + bcls(t.tag)); }
pub proof fn lemma_neat_bin(t: TermV) requires pok(t), t.tag == 0 || t.tag == 10, neat(rn(bfst(t))), neat(rn(bsnd(t))) ensures neat(rn(t))
{
    hide(rn); hide(pok); hide(tidy); hide(bmid); hide(bopn); hide(bcls);
    let k = t.tag; lemma_rn_bin(t); lemma_mid(k, t.num);
    lemma_neat_cat2(rn(bfst(t)), bmid(k, t.num), rn(bsnd(t))); lemma_neat_cat(bopn(k), rn(bfst(t)) + bmid(k, t.num) + rn(bsnd(t)), bcls(k));
}
pub proof fn lemma_neat_cat2(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires neat(a), tidy(b), b.len() > 0, b[0] == ' ', b.last() == ' ', neat(c) ensures neat(a + b + c) { lemma_neat_cat(a, b, c); }
pub proof fn lemma_neat(t: TermV) requires pok(t) ensures neat(rn(t)) decreases t, t.kids.len() + 1
{
    hide(rn); hide(tl); hide(tidy);
    let k = t.tag;
    if isleaf(k) { lemma_neat_leaf(t); }
    else if k == 3 || k == 4 || k == 14 { assert(pok(t.kids[0])); lemma_neat(t.kids[0]); lemma_neat_one(t); }
    else if k == 0 || k == 10 { assert(pok(t.kids[0]) && pok(t.kids[1])); lemma_neat(t.kids[0]); lemma_neat(t.kids[1]); lemma_neat_bin(t); }
    else { assert(pok(t.kids[0])); lemma_neat(t.kids[0]); lemma_neat_tl(t, 1); lemma_neat_list(t); }
}
pub proof fn lemma_neat_one(t: TermV) requires pok(t), t.tag == 3 || t.tag == 4 || t.tag == 14, neat(rn(t.kids[0])) ensures neat(rn(t))
{ let k = t.tag; assert(tidy(opn(k)) && tidy(cls(k))); assert(rn(t) == opn(k) + rn(t.kids[0]) + cls(k)); lemma_neat_cat(opn(k), rn(t.kids[0]), cls(k)); }
pub proof fn lemma_neat_list(t: TermV) requires pok(t), islist(t.tag), t.kids.len() >= 2, neat(rn(t.kids[0])), tidy(tl(t, 1)), tl(t, 1).len() > 0, edge(tl(t, 1).last()) ensures neat(rn(t))
{
    let k = t.tag; let x = rn(t.kids[0]); let z = tl(t, 1);
    assert(tl(t, 1)[0] == sep(k)[0]); lemma_tidy_cat(x, z); assert((x + z)[0] == x[0] && (x + z).last() == z.last()); lemma_neat_cat(seq!['('], x + z, seq![')']); assert(rn(t) =~= seq!['('] + (x + z) + seq![')']);
}
pub proof fn lemma_neat_tl(t: TermV, k: int) requires pok(t), islist(t.tag), 1 <= k <= t.kids.len() ensures tidy(tl(t, k)), k < t.kids.len() ==> tl(t, k).len() > 0 && edge(tl(t, k).last()) decreases t, t.kids.len() - k
{
    if k < t.kids.len() {
        assert(pok(t.kids[k])); lemma_neat(t.kids[k]); lemma_neat_tl(t, k + 1);
        let (a, x, z) = (sep(t.tag), rn(t.kids[k]), tl(t, k + 1));
        assert(tidy(a)); assert(a.last() != ' '); lemma_tidy_cat(a, x); assert((a + x).last() == x.last());
        if z.len() > 0 { assert(k + 1 < t.kids.len()); assert(z[0] == a[0]); }
        lemma_tidy_cat(a + x, z); assert(z.len() > 0 ==> (a + x + z).last() == z.last()); assert(z.len() == 0 ==> a + x + z =~= a + x);
    }
}
#[verifier::external_body]
pub proof fn axiom_alnum2() ensures !alnum('.'), !alnum(':'), !alnum('*'), !alnum(' ') {}
pub proof fn lemma_tidy_norm(s: Seq<char>) requires tidy(s) ensures norm(s) == s
{
    if inn(s, sa()) { let i = choose|i: int| 0 <= i <= s.len() && starts(#[trigger] s.skip(i), sa()); assert(s.skip(i)[0] == sa()[0] && s.skip(i)[1] == sa()[1]); assert(bad(s[i], s[i + 1])); }
    if inn(s, sb()) { let i = choose|i: int| 0 <= i <= s.len() && starts(#[trigger] s.skip(i), sb()); assert(s.skip(i)[0] == sb()[0] && s.skip(i)[1] == sb()[1]); assert(bad(s[i], s[i + 1])); }
    lemma_da_id(s, false); lemma_db_id(s);
}
/// the text of a term with a punctuation is read as that term with the default truth value; with the event marker as an event
pub proof fn lemma_written(t: TermV, c: char, e: bool, r: Option<(Term, Tv, EnumPunctation, bool)>)
    requires pok(t), isp(c), sread(if e { rn(t).push(c) + evs() } else { rn(t).push(c) }, r)
    ensures r is Some, tmv((r->0).0) == t, tr((r->0).1) == dtv(), (r->0).2 == punct(c), (r->0).3 == e
{
    broadcast use {lemma_pushed, lemma_braced1}; axiom_wsp(); axiom_alnum2();
    let w = rn(t).push(c); let s = if e { w + evs() } else { w };
    lemma_neat(t); assert(w =~= rn(t) + seq![c]); lemma_tidy_cat(rn(t), seq![c]); assert(tidy(evs())); lemma_tidy_cat(w, evs()); lemma_tidy_norm(s);
    if e { assert(s.skip(s.len() - 4) =~= evs()); assert(s.take(s.len() - 4) =~= w); } else if endsw(s, evs()) { assert(s.skip(s.len() - 4)[3] == s.last()); assert(evs()[3] == ':'); }
    assert(evcut(norm(s)) == w);
    let k = choose|k: CutV| #[trigger] tvcut(evcut(norm(s)), k) && ({ let u = trimr(k.s); match r { Some((t, tv, p, e)) => u.len() > 0 && isp(u.last()) && p == punct(u.last()) && e == endsw(norm(s), evs()) && tr(tv) == k.tv && readable(u.drop_last(), tmv(t)), None => u.len() == 0 || !isp(u.last()) || forall|t: TermV| !readable(u.drop_last(), t) } });
    assert(k.s == w && k.tv == dtv()); assert(trimr(w) == w);
    lemma_reads_back(t, Seq::empty()); assert(rn(t) + Seq::<char>::empty() =~= rn(t)); assert(readable(rn(t), t));
    if r is Some { let x = choose|x: Seq<char>| gp(rn(t), tmv((r->0).0), x); lemma_unamb(rn(t), t, Seq::empty(), tmv((r->0).0), x); }
}
}
@@main
