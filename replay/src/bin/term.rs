#![allow(non_snake_case)]
use replay::*;
use nar20_1::Term::*;
use nar20_1::TermUtils::*;
use nar20_1::TermApi;
fn occ(x: &V, s: &V) -> i64 { if x == s { return 1; } let n = if x.tag == 10 { x.kids.len() - 1 } else { x.kids.len() }; x.kids[..n].iter().map(|k| occ(k, s)).sum() }
fn uniq(a: Vec<V>) -> Vec<V> { let mut o: Vec<V> = vec![]; for x in a { if !o.contains(&x) { o.push(x); } } o }
fn vs(a: &[V]) -> String { format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(", ")) }
fn main() {
    drive(|c, p| {
        let mut k = 0u64;
        while c.time() || k < 2000 {
            k += 1;
            let d = 1 + c.rng.below(5);
            let x = gen(&mut c.rng, d, 0.3);
            match p {
                "C06" => {
                    let y = match c.rng.below(5) { 0 => x.clone(), 1 | 2 => mutate(&mut c.rng, &x), 3 => { let m = mutate(&mut c.rng, &x); mutate(&mut c.rng, &m) } _ => gen(&mut c.rng, d, 0.3) };
                    let (tx, ty) = (t(&x), t(&y));
                    let want = x == y;
                    let s = || format!("a={} b={}", show(&x), show(&y));
                    c.check(want || y.tag == x.tag, guard(|| (checkEqTerm(&tx, &ty), checkEqTerm(&ty, &tx), tx == ty)).and_then(|g| if g == (want, want, want) { Ok(()) } else { Err(format!("(checkEqTerm(a,b), checkEqTerm(b,a), a==b) = {:?}, structural equality is {}", g, want)) }), s);
                    let cl = guard(|| tx.clone());
                    c.check(true, cl.and_then(|g| { let w = v(&g); if w != x { Err(format!("copy is {}", show(&w))) } else if !checkEqTerm(&g, &tx) { Err("copy is not equal to the original".into()) } else { use std::collections::hash_map::DefaultHasher; use std::hash::{Hash, Hasher}; let h = |q: &Term| { let mut z = DefaultHasher::new(); q.hash(&mut z); z.finish() }; if h(&g) != h(&tx) { Err("copy hashes differently".into()) } else { Ok(()) } } }), || format!("a={}", show(&x)));
                }
                "C07" => {
                    let tx = t(&x);
                    let s = || format!("term={}", show(&x));
                    let want = subs(&x);
                    c.check(want.len() > 1, guard(|| retSubterms(&tx)).and_then(|g| { let g: Vec<V> = g.iter().map(v).collect(); if g == want { Ok(()) } else { Err(format!("subterms {} want {}", vs(&g), vs(&want))) } }), s);
                    let wu = uniq(want.clone());
                    c.check(wu.len() < want.len(), guard(|| retUniqueSubterms(&tx)).and_then(|g| { let g: Vec<V> = g.iter().map(v).collect(); if g == wu { Ok(()) } else { Err(format!("unique subterms {} want {}", vs(&g), vs(&wu))) } }), s);
                    let wc = cpx(&x);
                    c.check(wc > 1, guard(|| calcComplexity(&tx)).and_then(|g| if g == wc { Ok(()) } else { Err(format!("complexity {} want {}", g, wc)) }), s);
                    let q = if c.rng.chance(0.8) { want[c.rng.below(want.len())].clone() } else { gen(&mut c.rng, 1, 0.3) };
                    let wo = occ(&x, &q); let tq = t(&q);
                    c.check(wo >= 2, guard(|| count_occurence_subterms(&tx, &tq)).and_then(|g| if g == wo { Ok(()) } else { Err(format!("occurrences {} want {}", g, wo)) }), || format!("term={} searched={}", show(&x), show(&q)));
                }
                _ => {
                    let n = if c.rng.chance(0.05) { 8 + c.rng.below(12) } else { c.rng.below(5) };
                    let args: Vec<V> = (0..n).map(|_| { let d = c.rng.below(4); gen(&mut c.rng, d, 0.3) }).collect();
                    let nm = c.rng.pick(&["^x", "^pick", "x", "", "^\u{e9}", "^a b"]).to_string();
                    let ta: Vec<Term> = args.iter().map(t).collect();
                    let want = stmt(1, node(4, vec![node(9, args.clone())]), name(&nm));
                    let s = || format!("args={} name={:?}", vs(&args), nm);
                    c.check(n > 0, guard(|| encodeOp(&ta, &nm)).and_then(|g| if v(&g) == want { Ok(()) } else { Err(format!("encoded {} want {}", show(&v(&g)), show(&want))) }), s);
                    // decode: encodings, near misses, arbitrary terms
                    let z = match c.rng.below(4) { 0 | 1 => want.clone(), 2 => mutate(&mut c.rng, &want), _ => x.clone() };
                    let dec = if z.tag == 0 && z.num == 1 && z.kids[1].tag == 1 && z.kids[0].tag == 4 && z.kids[0].kids.len() == 1 && z.kids[0].kids[0].tag == 9 && !z.kids[0].kids[0].kids.is_empty() { Some((z.kids[0].kids[0].kids.clone(), z.kids[1].name.clone())) } else { None };
                    let tz = t(&z);
                    c.check(dec.is_some(), guard(|| decodeOp(&tz)).and_then(|g| { let g = g.map(|(a, n)| (a.iter().map(v).collect::<Vec<V>>(), n)); if g == dec { Ok(()) } else { Err(format!("decoded {:?} want {:?}", g.map(|(a, n)| (vs(&a), n)), dec.as_ref().map(|(a, n)| (vs(a), n)))) } }), || format!("term={}", show(&z)));
                    let mut b = |got: Result<Term, String>, want: V, what: &str| { let e = got.and_then(|g| if v(&g) == want { Ok(()) } else { Err(format!("{} built {} want {}", what, show(&v(&g)), show(&want))) }); c.check(true, e, s); };
                    b(guard(|| TermApi::p(&ta)), node(9, args.clone()), "p");
                    b(guard(|| TermApi::seq(&ta)), node(2, args.clone()), "seq");
                    b(guard(|| TermApi::conj(&ta)), node(8, args.clone()), "conj");
                    if n >= 3 {
                        b(guard(|| TermApi::p2(&ta[0], &ta[1])), node(9, args[..2].to_vec()), "p2");
                        b(guard(|| TermApi::p3(&ta[0], &ta[1], &ta[2])), node(9, args[..3].to_vec()), "p3");
                        for q in 0..5 { b(guard(|| TermApi::s(uncop(q), &ta[0], &ta[1])), stmt(q, args[0].clone(), args[1].clone()), "s"); }
                    }
                }
            }
        }
    });
}
