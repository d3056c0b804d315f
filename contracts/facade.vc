// src/NarInputFacade.rs: what a line of input does; the parts it starts are opaque here (C34 says what a sentence does)
@@use core.vc
verus! {
// ---------------------------------------------------------------- text (A-STR)
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
pub uninterp spec fn clen(c: char) -> nat;
/// the length in bytes
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
#[verifier::external_body]
pub proof fn axiom_clen() ensures forall|c: char| 1 <= #[trigger] clen(c) <= 4, forall|c: char| (c as u32) < 128 ==> #[trigger] clen(c) == 1 {}
/// the whole number a text denotes
pub uninterp spec fn inum(s: Seq<char>) -> Option<int>;
/// the words of a text
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
#[derive(Debug)]
pub struct NumErr;
pub open spec fn cuts(s: Seq<char>, k: int, n: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == n }
pub trait VxS {
    spec fn sq(&self) -> Seq<char>;
    fn vx_eq_s(&self, t: &str) -> (r: bool) ensures r == (self.sq() == t@);
    fn vx_starts_with_s(&self, t: &str) -> (r: bool) ensures r == starts(self.sq(), t@);
    fn vx_ends_with_c(&self, c: char) -> (r: bool) ensures r == (self.sq().len() > 0 && self.sq().last() == c);
    fn vx_prefix(&self, n: usize) -> (r: &str) requires exists|k: int| #[trigger] cuts(self.sq(), k, n as int) ensures forall|k: int| #[trigger] cuts(self.sq(), k, n as int) ==> r@ == self.sq().take(k);
    fn vx_suffix(&self, n: usize) -> (r: &str) requires exists|k: int| #[trigger] cuts(self.sq(), k, n as int) ensures forall|k: int| #[trigger] cuts(self.sq(), k, n as int) ==> r@ == self.sq().skip(k);
    fn vx_split_ws(&self) -> (r: Vec<&str>) ensures r@.len() == words(self.sq()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words(self.sq())[i];
    fn vx_parse_i(&self) -> (r: Result<i64, NumErr>) ensures match r { Ok(x) => inum(self.sq()) == Some(x as int), Err(_) => inum(self.sq()) is None };
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.sq();
}
impl VxS for str {
    open spec fn sq(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_eq_s(&self, t: &str) -> (r: bool) { self == t }
    #[verifier::external_body] fn vx_starts_with_s(&self, t: &str) -> (r: bool) { self.starts_with(t) }
    #[verifier::external_body] fn vx_ends_with_c(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body] fn vx_prefix(&self, n: usize) -> (r: &str) { &self[..n] }
    #[verifier::external_body] fn vx_suffix(&self, n: usize) -> (r: &str) { &self[n..] }
    #[verifier::external_body] fn vx_split_ws(&self) -> (r: Vec<&str>) { loop {} }
    #[verifier::external_body] fn vx_parse_i(&self) -> (r: Result<i64, NumErr>) { loop {} }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
impl VxS for String {
    open spec fn sq(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_eq_s(&self, t: &str) -> (r: bool) { self == t }
    #[verifier::external_body] fn vx_starts_with_s(&self, t: &str) -> (r: bool) { self.starts_with(t) }
    #[verifier::external_body] fn vx_ends_with_c(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body] fn vx_prefix(&self, n: usize) -> (r: &str) { &self[..n] }
    #[verifier::external_body] fn vx_suffix(&self, n: usize) -> (r: &str) { &self[n..] }
    #[verifier::external_body] fn vx_split_ws(&self) -> (r: Vec<&str>) { loop {} }
    #[verifier::external_body] fn vx_parse_i(&self) -> (r: Result<i64, NumErr>) { loop {} }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
pub trait VxSm { fn vx_pop(&mut self) -> (r: Option<char>); }
impl VxSm for String {
    #[verifier::external_body] fn vx_pop(&mut self) -> (r: Option<char>) ensures match r { Some(c) => old(self)@ == final(self)@.push(c), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { self.pop() }
}
pub assume_specification [String::len](s: &String) -> (r: usize) ensures r == blen(s@);
#[verifier::external_body]
pub fn vx_some_text() -> String { loop {} }
// ---------------------------------------------------------------- the reasoner: its parts are opaque
pub struct VxMem { pub x: u64 }
pub struct VxTrace { pub x: u64 }
pub struct VxEvidence { pub x: u64 }
pub struct VxGoals { pub x: u64 }
pub struct VxAnti { pub x: u64 }
pub struct VxRng { pub x: u64 }
pub struct VxOp { pub x: u64 }
impl VxOp { pub uninterp spec fn nm(&self) -> Seq<char>; }
@@item src/OpLib.rs OpNop
@@item src/OpLib.rs Op_nal9__exec_and_inject
@@item src/OpLib.rs Op__nlp_rel_0
/// the kinds of ops that can be registered; the name is what `retName` returns (verified below)
pub trait VxOpK { spec fn nmk(&self) -> Seq<char>; }
impl VxOpK for OpNop { open spec fn nmk(&self) -> Seq<char> { self.name@ } }
impl VxOpK for Op_nal9__exec_and_inject { open spec fn nmk(&self) -> Seq<char> { "^nal9_exeAndInject"@ } }
impl VxOpK for Op__nlp_rel_0 { open spec fn nmk(&self) -> Seq<char> { "^nlpRel0"@ } }
#[verifier::external_body]
pub fn vx_op<T: VxOpK>(x: T) -> (r: Arc<VxOp>) ensures r.nm() == x.nmk() { loop {} }
@@fn src/OpLib.rs OpNop::retName as nop_retName strs text
@contract
    ensures $r@ == $p1.nmk()
@@end
@@fn src/OpLib.rs Op_nal9__exec_and_inject::retName as exec_retName strs text
@contract
    ensures $r@ == $p1.nmk()
@@end
@@fn src/OpLib.rs Op__nlp_rel_0::retName as nlp_retName strs text
@contract
    ensures $r@ == $p1.nmk()
@@end
@@item src/NarProc.rs ProcNar erase keep=cfgEnBabbling,evidenceMem,trace,anticipatedEvents,ops,t,rng,goalSystem ty:evidenceMem=VxEvidence ty:trace=VxTrace ty:anticipatedEvents=VxAnti ty:rng=VxRng ty:goalSystem=VxGoals
@@item src/Nar.rs Nar erase keep=procNar,mem,cfgVerbosityInput,cfg__nConceptBeliefs,cfg__maxComplexity ty:mem=VxMem
// what the parts do, as relations between the state before and after
pub uninterp spec fn saidn(a: Nar, b: Nar, s: Seq<char>) -> bool;
pub uninterp spec fn nlpd(a: Nar, b: Nar, s: Seq<char>) -> bool;
pub uninterp spec fn cycled(a: Nar, b: Nar) -> bool;
pub uninterp spec fn step0(a: ProcNar, b: ProcNar) -> bool;
pub uninterp spec fn step1(a: ProcNar, m: VxMem, b: ProcNar, n: VxMem) -> bool;
pub uninterp spec fn flushed(m: VxMem, n: VxMem) -> bool;
pub uninterp spec fn credits(m: VxMem) -> Seq<String>;
#[verifier::external_body]
pub fn inputN(nar: &mut Nar, s: &String) -> (r: bool) ensures saidn(*old(nar), *final(nar), s@) { loop {} }
#[verifier::external_body]
pub fn process(nar: &mut Nar, s: &String) ensures nlpd(*old(nar), *final(nar), s@) { loop {} }
#[verifier::external_body]
pub fn cycle(nar: &mut Nar) ensures cycled(*old(nar), *final(nar)) { loop {} }
#[verifier::external_body]
pub fn narStep0(p: &mut ProcNar) ensures step0(*old(p), *final(p)) { loop {} }
#[verifier::external_body]
pub fn narStep1(p: &mut ProcNar, m: &mut VxMem) ensures step1(*old(p), *old(m), *final(p), *final(m)) { loop {} }
#[verifier::external_body]
pub fn flushTasks(m: &mut VxMem) ensures flushed(*old(m), *final(m)) { loop {} }
#[verifier::external_body]
pub fn debugCreditsOfTasks(m: &mut VxMem) -> (r: Vec<String>) ensures *final(m) == *old(m), r@ == credits(*old(m)) { loop {} }
#[verifier::external_body]
pub fn debugEvidence(p: &ProcNar) { loop {} }
// ---------------------------------------------------------------- what a line does
pub open spec fn nl(c: char) -> bool { c == '\n' || c == '\r' }
pub open spec fn trimnl(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && nl(s.last()) { trimnl(s.drop_last()) } else { s } }
/// n reasoning cycles
pub open spec fn cycn(a: Nar, b: Nar, n: int) -> bool decreases n { if n <= 0 { a == b } else { exists|m: Nar| cycn(a, m, n - 1) && #[trigger] cycled(m, b) } }
/// the name of the op that is registered
pub open spec fn opof(w: Seq<Seq<char>>) -> Option<Seq<char>> {
    if w.len() == 1 && w[0] == "execinj"@ { Some("^nal9_exeAndInject"@) } else if w.len() == 1 && w[0] == "nlpRel0"@ { Some("^nlpRel0"@) } else if w.len() == 2 && w[0] == "NOP"@ { Some(w[1]) } else { None }
}
pub open spec fn withp(a: Nar, p: ProcNar) -> Nar { Nar { procNar: p, ..a } }
pub open spec fn ldoes(a: Nar, b: Nar, s: Seq<char>, r: Seq<String>) -> bool {
    &&& s != "!dt"@ && s != "!dmd"@ ==> r.len() == 0
    &&& if s.len() == 0 || starts(s, "//"@) || s == "!QQ"@ || s == "!pse"@ { b == a }
        else if s == "!spA"@ { b == withp(a, b.procNar) && step0(a.procNar, b.procNar) }
        else if s == "!spB"@ { b == (Nar { procNar: b.procNar, mem: b.mem, ..a }) && step1(a.procNar, a.mem, b.procNar, b.mem) }
        else if starts(s, "!sp"@) { b == (Nar { procNar: b.procNar, mem: b.mem, ..a }) && exists|p: ProcNar| step0(a.procNar, p) && #[trigger] step1(p, a.mem, b.procNar, b.mem) }
        else if starts(s, "!s"@) { if s.len() == 2 { cycn(a, b, 1) } else { match inum(s.skip(2)) { Some(n) => cycn(a, b, n), None => b == a } } }
        else if s == "!dtf"@ { b == (Nar { mem: b.mem, ..a }) && flushed(a.mem, b.mem) }
        else if starts(s, "!por "@) { match opof(words(s.skip(5))) {
            Some(n) => b == withp(a, ProcNar { ops: b.procNar.ops, ..a.procNar }) && b.procNar.ops@.len() == a.procNar.ops@.len() + 1 && b.procNar.ops@.drop_last() == a.procNar.ops@ && b.procNar.ops@.last().nm() == n,
            None => b == a } }
        else if s == "!peb 0"@ { b == withp(a, ProcNar { cfgEnBabbling: false, ..a.procNar }) }
        else if s == "!peb 1"@ { b == withp(a, ProcNar { cfgEnBabbling: true, ..a.procNar }) }
        else if starts(s, "!.nlp "@) && s.len() > 6 { nlpd(a, b, s.skip(6)) }
        else if s == "!dt"@ { b == a && r == credits(a.mem) }
        else if s == "!dmd"@ { b == a && r.len() == 1 }
        else { saidn(a, b, s) }
}
pub open spec fn eqx(s: Seq<char>, t: Seq<char>) -> bool { s == t }
pub proof fn lemma_lits() ensures
    "//"@ == seq!['/', '/'], "!s"@ == seq!['!', 's'], "!sp"@ == seq!['!', 's', 'p'], "!spA"@ == seq!['!', 's', 'p', 'A'], "!spB"@ == seq!['!', 's', 'p', 'B'], "!dtf"@ == seq!['!', 'd', 't', 'f'], "!por "@ == seq!['!', 'p', 'o', 'r', ' '],
    "!pse"@ == seq!['!', 'p', 's', 'e'], "!peb 0"@ == seq!['!', 'p', 'e', 'b', ' ', '0'], "!peb 1"@ == seq!['!', 'p', 'e', 'b', ' ', '1'], "!.nlp "@ == seq!['!', '.', 'n', 'l', 'p', ' '], "!dt"@ == seq!['!', 'd', 't'], "!dmd"@ == seq!['!', 'd', 'm', 'd'], "!QQ"@ == seq!['!', 'Q', 'Q'], ""@.len() == 0
{
    reveal_strlit("//"); reveal_strlit("!s"); reveal_strlit("!sp"); reveal_strlit("!spA"); reveal_strlit("!spB"); reveal_strlit("!dtf"); reveal_strlit("!por "); reveal_strlit("!pse"); reveal_strlit("!peb 0"); reveal_strlit("!peb 1"); reveal_strlit("!.nlp "); reveal_strlit("!dt"); reveal_strlit("!dmd"); reveal_strlit("!QQ"); reveal_strlit("");
    assert("//"@ =~= seq!['/', '/']); assert("!s"@ =~= seq!['!', 's']); assert("!sp"@ =~= seq!['!', 's', 'p']); assert("!spA"@ =~= seq!['!', 's', 'p', 'A']); assert("!spB"@ =~= seq!['!', 's', 'p', 'B']); assert("!dtf"@ =~= seq!['!', 'd', 't', 'f']); assert("!por "@ =~= seq!['!', 'p', 'o', 'r', ' ']);
    assert("!pse"@ =~= seq!['!', 'p', 's', 'e']); assert("!peb 0"@ =~= seq!['!', 'p', 'e', 'b', ' ', '0']); assert("!peb 1"@ =~= seq!['!', 'p', 'e', 'b', ' ', '1']); assert("!.nlp "@ =~= seq!['!', '.', 'n', 'l', 'p', ' ']); assert("!dt"@ =~= seq!['!', 'd', 't']); assert("!dmd"@ =~= seq!['!', 'd', 'm', 'd']); assert("!QQ"@ =~= seq!['!', 'Q', 'Q']);
}
pub proof fn lemma_ops() ensures "execinj"@.len() == 7, "nlpRel0"@.len() == 7, "execinj"@[0] == 'e', "nlpRel0"@[0] == 'n' { reveal_strlit("execinj"); reveal_strlit("nlpRel0"); }
pub open spec fn ascii(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> ((#[trigger] t[i]) as u32) < 128 }
pub proof fn lemma_blen_ge(s: Seq<char>) ensures blen(s) >= s.len() decreases s.len() { axiom_clen(); if s.len() > 0 { lemma_blen_ge(s.drop_last()); } }
pub proof fn lemma_blen_ascii(s: Seq<char>) requires ascii(s) ensures blen(s) == s.len() decreases s.len()
{ axiom_clen(); if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies ((#[trigger] d[i]) as u32) < 128 by { assert(d[i] == s[i]); } lemma_blen_ascii(d); assert((s[s.len() - 1] as u32) < 128); } }
pub proof fn lemma_blen_cat(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_blen_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } }
/// a text that starts with ASCII text t can be cut after it, and only there
pub broadcast proof fn lemma_cut(s: Seq<char>, t: Seq<char>) requires #[trigger] starts(s, t), ascii(t) ensures cuts(s, t.len() as int, t.len() as int), blen(s) >= t.len(), blen(s) > t.len() <==> s.len() > t.len(), forall|k: int| #[trigger] cuts(s, k, t.len() as int) ==> k == t.len()
{
    let n = t.len() as int; lemma_blen_ascii(t); assert(s.take(n) == t); let d = s.skip(n); assert(s.take(n) + d =~= s); lemma_blen_cat(s.take(n), d); lemma_blen_ge(d); if d.len() == 0 { assert(blen(d) == 0); }
    assert forall|k: int| #[trigger] cuts(s, k, n) implies k == n by {
        if k < n { let d = s.subrange(k, n); assert(s.take(k) + d =~= s.take(n)); lemma_blen_cat(s.take(k), d); lemma_blen_ge(d); }
        if k > n { let d = s.subrange(n, k); assert(s.take(n) + d =~= s.take(k)); lemma_blen_cat(s.take(n), d); lemma_blen_ge(d); }
    }
}
@@fn src/NarInputFacade.rs trimNewline strs text
@contract
    ensures final($p1)@ == trimnl(old($p1)@)
@loop trim
@when $p1.vx_pop()
@inv
    invariant trimnl($p1@) == trimnl(old($p1)@),
    decreases $p1@.len()
@top
    let ghost vx_b = $p1@;
@bot
    proof { assert($p1@ =~= vx_b.drop_last()); }
@@end
@@fn src/NarInputFacade.rs input strs text memref erase
@contract
    ensures *final($p3) == (trimnl($p2@) == "!QQ"@), ldoes(*old($p1), *final($p1), trimnl($p2@), $r@)
@entry
    broadcast use lemma_cut;
    proof { lemma_lits(); lemma_ops(); }
    let ghost vx_a = *$p1; let ghost vx_s = trimnl($p2@);
    proof { if vx_s.len() == 0 { assert(vx_s =~= ""@); } }
@loop cycles
@when cycle(___)
@inv
    cycn(vx_a, *$p1, $i as int),
@exit
    proof { if $p1.procNar.ops@.len() == vx_a.procNar.ops@.len() + 1 { assert(forall|o: Arc<VxOp>| #[trigger] vx_a.procNar.ops@.push(o).drop_last() =~= vx_a.procNar.ops@); }
    }
@@end
}
@@main
