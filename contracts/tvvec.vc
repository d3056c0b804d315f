// src/TvVec.rs: pointwise and accumulated truth-value functions
@@use tv.vc
verus! {
pub open spec fn all_ok(s: Seq<Tv>) -> bool { forall|i: int| 0 <= i < s.len() ==> ok(tr(#[trigger] s[i])) }
/// evidence accumulated from the first n truth values
pub open spec fn s_fold(s: Seq<Tv>, n: nat) -> TvR decreases n { if n == 0 { TvR { f: 0real, c: 0real } } else { s_rev(s_fold(s, (n - 1) as nat), tr(s[n - 1])) } }
pub proof fn lemma_fold_ok(s: Seq<Tv>, n: nat) requires all_ok(s), n <= s.len() ensures ok(s_fold(s, n)), n > 0 ==> s_fold(s, n).c >= tr(s[n - 1]).c && s_fold(s, n).c >= s_fold(s, (n - 1) as nat).c decreases n
{ if n > 0 { lemma_fold_ok(s, (n - 1) as nat); lemma_ok_rev(s_fold(s, (n - 1) as nat), tr(s[n - 1])); } }
@@fn src/TvVec.rs revVec
@contract
    requires all_ok($p1@), all_ok($p2@)
    ensures $r@.len() == (if $p1@.len() < $p2@.len() { $p1@.len() } else { $p2@.len() }),
        forall|i: int| 0 <= i < $r@.len() ==> tr(#[trigger] $r@[i]) == s_rev(tr($p1@[i]), tr($p2@[i])) && ok(tr($r@[i]))
@entry
    broadcast use group_tv;
@loop pointwise
@when $acc.push(___)
@inv
      $acc@.len() == $i,
      forall|i: int| 0 <= i < $i ==> tr(#[trigger] $acc@[i]) == s_rev(tr($p1@[i]), tr($p2@[i])) && ok(tr($acc@[i])),
@@end
@@fn src/TvVec.rs compVec
@contract
    requires all_ok($p1@), all_ok($p2@)
    ensures $r@.len() == (if $p1@.len() < $p2@.len() { $p1@.len() } else { $p2@.len() }),
        forall|i: int| 0 <= i < $r@.len() ==> tr(#[trigger] $r@[i]) == s_comp(tr($p1@[i]), tr($p2@[i])) && ok(tr($r@[i]))
@entry
    broadcast use group_tv;
@loop pointwise
@when $acc.push(___)
@inv
      $acc@.len() == $i,
      forall|i: int| 0 <= i < $i ==> tr(#[trigger] $acc@[i]) == s_comp(tr($p1@[i]), tr($p2@[i])) && ok(tr($acc@[i])),
@@end
@@fn src/TvVec.rs foldVec
@contract
    requires all_ok($p1@)
    ensures tr($r) == s_fold($p1@, $p1@.len()), ok(tr($r))
@loop accumulate
@when $ACC = rev(___)
@inv
      tr($ACC) == s_fold($p1@, $i as nat), ok(tr($ACC)),
@top
    proof { lemma_fold_ok($p1@, $i as nat); }
@exit
    proof { lemma_fold_ok($p1@, $p1@.len()); }
@@end
}
@@main
