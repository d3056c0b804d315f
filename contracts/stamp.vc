// src/NarStamp.rs: evidential bases
@@include core.vc
verus! {
@@item src/NarStamp.rs Stamp
pub open spec fn overlap(a: Seq<i64>, b: Seq<i64>) -> bool { exists|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && a[i] == b[j] }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// element k of the interleaving of two evidential bases
pub open spec fn inter_at(a: Seq<i64>, b: Seq<i64>, k: int) -> i64 {
    let m = imin(a.len() as int, b.len() as int);
    if k < 2 * m { if k % 2 == 0 { a[k / 2] } else { b[k / 2] } } else if a.len() > m { a[k - m] } else { b[k - m] }
}
pub open spec fn inter(a: Seq<i64>, b: Seq<i64>) -> Seq<i64> { Seq::new(a.len() + b.len(), |k: int| inter_at(a, b, k)) }
#[verifier::opaque]
pub open spec fn s_merge(a: Seq<i64>, b: Seq<i64>) -> Seq<i64> { inter(a, b).take(imin(120, (a.len() + b.len()) as int)) }

/// consequences a user relies on: bounded length, nothing invented, nothing lost below the bound
pub proof fn lemma_merge(a: Seq<i64>, b: Seq<i64>)
    ensures
        s_merge(a, b).len() == imin(120, (a.len() + b.len()) as int),
        forall|k: int| 0 <= k < s_merge(a, b).len() ==> a.contains(#[trigger] s_merge(a, b)[k]) || b.contains(s_merge(a, b)[k]),
        a.len() + b.len() <= 120 ==> (forall|i: int| 0 <= i < a.len() ==> s_merge(a, b).contains(#[trigger] a[i])) && (forall|i: int| 0 <= i < b.len() ==> s_merge(a, b).contains(#[trigger] b[i])),
{
    reveal(s_merge);
    let m = imin(a.len() as int, b.len() as int);
    let r = s_merge(a, b);
    assert forall|k: int| 0 <= k < r.len() implies a.contains(#[trigger] r[k]) || b.contains(r[k]) by {
        if k < 2 * m { if k % 2 == 0 { assert(r[k] == a[k / 2]); } else { assert(r[k] == b[k / 2]); } }
        else if a.len() > m { assert(r[k] == a[k - m]); } else { assert(r[k] == b[k - m]); }
    }
    if a.len() + b.len() <= 120 {
        assert forall|i: int| 0 <= i < a.len() implies r.contains(#[trigger] a[i]) by { if i < m { assert(r[2 * i] == a[i]); } else { assert(r[i + m] == a[i]); } }
        assert forall|i: int| 0 <= i < b.len() implies r.contains(#[trigger] b[i]) by { if i < m { assert(r[2 * i + 1] == b[i]); } else { assert(r[i + m] == b[i]); } }
    }
}

@@fn src/NarStamp.rs newStamp
@contract
    ensures $r.ids@ == $p1@
@@end

@@fn src/NarStamp.rs checkOverlap
@contract
    ensures $r == overlap($p1.ids@, $p2.ids@)
@loop pairs-outer
@when outer
@inv
      forall|i: int, j: int| 0 <= i < $i && 0 <= j < $p2.ids@.len() ==> $p1.ids@[i] != $p2.ids@[j],
@loop pairs-inner
@when vx_eq(&$A, &$x)
@inv
      forall|j: int| 0 <= j < $i ==> *$A != $p2.ids@[j],
@@end

@@fn src/NarStamp.rs merge
@contract
    ensures $r.ids@ == s_merge($p1.ids@, $p2.ids@)
@entry
    proof { reveal(s_merge); }
@loop append-a
@when desugared
@when $acc.push($p1.ids[___])
@inv
      $acc@ =~= inter($p1.ids@, $p2.ids@).take(($lo + $i) as int),
@loop append-b
@when desugared
@when $acc.push($p2.ids[___])
@inv
      $acc@ =~= inter($p1.ids@, $p2.ids@).take(($p1.ids@.len() + $i) as int),
@loop interleave
@when push($p1.ids[$k])
@inv
      0 <= $k <= $p1.ids@.len(), $k <= $p2.ids@.len(),
      res.ids@ =~= inter($p1.ids@, $p2.ids@).take(2 * $k),
    decreases $p1.ids@.len() - $k
@exit
    assert($r.ids@ =~= s_merge($p1.ids@, $p2.ids@));
@@end

@@fn src/NarStamp.rs checkSame
@contract
    ensures $r == ($p1.ids@ == $p2.ids@)
@loop compare
@when $p1.ids[$k]
@inv
      0 <= $k <= $p1.ids@.len(), $p1.ids@.len() == $p2.ids@.len(),
      forall|i: int| 0 <= i < $k ==> $p1.ids@[i] == $p2.ids@[i],
    decreases $p1.ids@.len() - $k
@exit
    proof { if $r { assert($p1.ids@ =~= $p2.ids@); } }
@@end
}
@@main
