#![allow(non_snake_case)]
use replay::*;
use nar20_1::NarStamp::*;
fn merged(a: &[i64], b: &[i64]) -> Vec<i64> {
    let m = a.len().min(b.len()); let mut r = vec![];
    for i in 0..m { r.push(a[i]); r.push(b[i]); }
    r.extend_from_slice(&a[m..]); r.extend_from_slice(&b[m..]); r.truncate(120); r
}
fn main() {
    drive(|c, p| {
        let mut k = 0u64;
        while c.time() || k < 5000 {
            k += 1;
            if k > 400_000 && c.tier == "quick" { break; }
            let big = c.rng.chance(0.15);
            let n = if big { 50 + c.rng.below(90) } else { c.rng.below(6) }; let m = if c.rng.chance(0.15) { 50 + c.rng.below(90) } else { c.rng.below(6) };
            let base = if c.rng.chance(0.5) { 8 } else { 100000 };
            let ids = |r: &mut Rng, n: usize| (0..n).map(|_| if r.chance(0.02) { *r.pick(&[i64::MIN, i64::MAX, -1, 0]) } else { r.below(base) as i64 }).collect::<Vec<i64>>();
            let a = ids(&mut c.rng, n);
            let mut b = if c.rng.chance(0.3) { a.clone() } else { ids(&mut c.rng, m) };
            if !b.is_empty() && c.rng.chance(0.3) { let i = c.rng.below(b.len()); b[i] = c.rng.below(base) as i64; }
            // overlap in a single chosen position
            if c.rng.chance(0.2) && !a.is_empty() && !b.is_empty() { for x in b.iter_mut() { *x = x.wrapping_add(1 << 40); } let i = c.rng.below(a.len()); let j = c.rng.below(b.len()); b[j] = a[i]; }
            let (sa, sb) = (newStamp(&a), newStamp(&b));
            let s = || format!("evidence a={:?} b={:?}", a, b);
            match p {
                "C04" => {
                    let want = a.iter().any(|x| b.contains(x));
                    c.check(want, guard(|| checkOverlap(&sa, &sb)).and_then(|g| if g == want { Ok(()) } else { Err(format!("overlap reported {} want {}", g, want)) }), s);
                    c.check(want, guard(|| checkOverlap(&sb, &sa)).and_then(|g| if g == want { Ok(()) } else { Err(format!("overlap (swapped) reported {} want {}", g, want)) }), s);
                    let same = a == b;
                    c.check(same, guard(|| checkSame(&sa, &sb)).and_then(|g| if g == same { Ok(()) } else { Err(format!("same reported {} want {}", g, same)) }), s);
                    c.check(true, if sa.ids == a { Ok(()) } else { Err("newly made evidence base differs".into()) }, s);
                }
                _ => {
                    let want = merged(&a, &b);
                    c.check(n + m > 0, guard(|| merge(&sa, &sb)).and_then(|g| if g.ids == want { Ok(()) } else { Err(format!("merged to {:?} want {:?}", g.ids, want)) }), s);
                }
            }
        }
    });
}
