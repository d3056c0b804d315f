#![allow(non_snake_case)]
use replay::*;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::NarInfProcedural::*;
use nar20_1::Tv::Tv;
use std::sync::Arc;
use parking_lot::RwLock;
fn ev(e: &Option<Evidence>) -> Option<(i64, i64, f64, f64)> { e.as_ref().map(|e| match e { Evidence::CNT { pos, cnt } => (*pos, *cnt, -1.0, -1.0), Evidence::TV(t) => (-1, -1, t.f, t.c) }) }
fn pn(p: EnumPunctation) -> u8 { match p { EnumPunctation::JUGEMENT => 0, EnumPunctation::QUESTION => 1, EnumPunctation::GOAL => 2 } }
fn np(p: u8) -> EnumPunctation { match p { 0 => EnumPunctation::JUGEMENT, 1 => EnumPunctation::QUESTION, _ => EnumPunctation::GOAL } }
type S = (V, Option<i64>, u8, Vec<i64>, Option<i64>, Option<(i64, i64, f64, f64)>);
fn sv(s: &Sentence) -> S { (v(&s.term), s.t, pn(s.punct), s.stamp.ids.clone(), s.expDt, ev(&s.evi)) }
fn tvo(s: &Sentence) -> Option<Tv> { match &s.evi { None => None, Some(Evidence::TV(t)) => Some(t.clone()), Some(Evidence::CNT { pos, cnt }) => Some(Tv { f: *pos as f64 / *cnt as f64, c: *cnt as f64 / (*cnt as f64 + 1.0) }) } }
fn shs(s: &Sentence) -> String { format!("{} punct={} ids={:?} t={:?} dt={:?} evi={:?}", show(&v(&s.term)), pn(s.punct), s.stamp.ids, s.t, s.expDt, ev(&s.evi)) }
fn ids(r: &mut Rng) -> Vec<i64> { let n = if r.chance(0.1) { r.below(140) } else { r.below(5) }; let b = if r.chance(0.5) { 10 } else { 100_000 }; (0..n).map(|_| r.below(b) as i64).collect() }
fn mk(r: &mut Rng, x: &V, p: u8, i: &[i64]) -> Sentence {
    let evi = if p == 1 { None } else if r.chance(0.4) { let cnt = if r.chance(0.1) { 1 << (r.below(50)) } else { 1 + r.below(60) as i64 }; let pos = match r.below(4) { 0 => 0, 1 => cnt, _ => r.below(cnt as usize + 1) as i64 }; Some(Evidence::CNT { pos, cnt }) } else { Some(Evidence::TV(gtv(r))) };
    Sentence { term: Arc::new(t(x)), t: if r.chance(0.4) { Some(r.below(100) as i64) } else { None }, punct: np(p), stamp: newStamp(&i.to_vec()), expDt: if r.chance(0.4) { Some(r.below(64) as i64) } else { None }, evi, usage: Arc::new(RwLock::new(Usage { lastUsed: r.below(90) as i64, useCount: r.below(90) as i64 })) }
}
fn merged(a: &[i64], b: &[i64]) -> Vec<i64> { let m = a.len().min(b.len()); let mut r = vec![]; for i in 0..m { r.push(a[i]); r.push(b[i]); } r.extend_from_slice(&a[m..]); r.extend_from_slice(&b[m..]); r.truncate(120); r }
fn occ(x: &V, s: &V) -> i64 { if x == s { return 1; } let n = if x.tag == 10 { x.kids.len() - 1 } else { x.kids.len() }; x.kids[..n].iter().map(|k| occ(k, s)).sum() }
fn repl(x: &V, a: &V, w: &V) -> V { if x == a { return w.clone(); } let mut y = x.clone(); let n = if x.tag == 10 { x.kids.len() - 1 } else { x.kids.len() }; for k in 0..n { y.kids[k] = repl(&x.kids[k], a, w); } y }
fn newvars(x: &V, old: &V, o: &mut Vec<V>) { if x.tag == 7 && occ_all(old, x) == 0 && !o.contains(x) { o.push(x.clone()); } for k in &x.kids { newvars(k, old, o); } }
fn occ_all(x: &V, s: &V) -> i64 { (x == s) as i64 + x.kids.iter().map(|k| occ_all(k, s)).sum::<i64>() }
fn eqs(a: &S, b: &S) -> bool { a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 == b.3 && a.4 == b.4 && match (&a.5, &b.5) { (None, None) => true, (Some(x), Some(y)) => x.0 == y.0 && x.1 == y.1 && close(x.2, y.2) && close(x.3, y.3), _ => false } }
fn main() {
    drive(|c, p| {
        let mut k = 0u64;
        let mut rng = rand::thread_rng();
        let mut seen = std::collections::HashSet::new();
        while c.time() || k < 2000 {
            k += 1;
            let d = 1 + c.rng.below(4);
            let x = gen(&mut c.rng, d, 0.2);
            let pu = c.rng.below(3) as u8;
            let i1 = ids(&mut c.rng);
            match p {
                "C14" => {
                    let s = mk(&mut c.rng, &x, pu, &i1);
                    let inp = || shs(&s);
                    let want = tvo(&s);
                    c.check(want.is_some(), guard(|| retTv(&s)).and_then(|g| match (&g, &want) { (None, None) => Ok(()), (Some(a), Some(b)) => tveq(a, (b.f, b.c)), _ => Err(format!("truth value {:?}", g.as_ref().map(tvs))) }), inp);
                    if let Some(Evidence::CNT { pos, cnt }) = &s.evi {
                        let e = s.evi.as_ref().unwrap();
                        c.check(true, guard(|| (retFreq(e), retConf(e))).and_then(|g| tveq(&Tv { f: g.0, c: g.1 }, (*pos as f64 / *cnt as f64, *cnt as f64 / (*cnt as f64 + 1.0)))), inp);
                    }
                    c.check(true, guard(|| shallowCopySentence(&s)).and_then(|g| if eqs(&sv(&g), &sv(&s)) && Arc::ptr_eq(&g.usage, &s.usage) { Ok(()) } else { Err(format!("copy is {}", shs(&g))) }), inp);
                    let tt = gtv(&mut c.rng);
                    let want: S = (x.clone(), None, pu, i1.clone(), None, if pu == 1 { None } else { Some((-1, -1, tt.f, tt.c)) });
                    c.check(true, guard(|| newEternalSentenceByTv(&t(&x), np(pu), &tt, newStamp(&i1))).and_then(|g| { let u = g.usage.read(); if eqs(&sv(&g), &want) && u.lastUsed == 0 && u.useCount == 0 { Ok(()) } else { Err(format!("new sentence is {}", shs(&g))) } }), || format!("term={} punct={} tv={} ids={:?}", show(&x), pu, tvs(&tt), i1));
                    // usage
                    let (last, cnt, now) = (c.rng.below(1000) as i64, match c.rng.below(3) { 0 => 0, 1 => c.rng.below(5) as i64, _ => c.rng.below(100000) as i64 }, c.rng.below(1200) as i64);
                    let us = |last: i64, cnt: i64, now: i64| { let u = cnt as f64 / ((now - last).max(0) as f64 + 1.0); u / (u + 1.0) };
                    let u0 = Usage { lastUsed: last, useCount: cnt };
                    c.check(cnt > 0, guard(|| calcUsageUsefulness(&u0, now)).and_then(|g| if close(g, us(last, cnt, now)) { Ok(()) } else { Err(format!("usefulness {} want {}", g, us(last, cnt, now))) }), || format!("lastUsed={} useCount={} now={}", last, cnt, now));
                    let mut u1 = Usage { lastUsed: last, useCount: cnt };
                    c.check(true, guard(|| { usageUpdate(&mut u1, now); (u1.lastUsed, u1.useCount) }).and_then(|g| if g == (now, cnt + 1) { Ok(()) } else { Err(format!("usage became {:?}", g)) }), || format!("lastUsed={} useCount={} now={}", last, cnt, now));
                }
                "C15" => {
                    let a = gen(&mut c.rng, d - 1, 0.1);
                    let bx = match c.rng.below(6) { 0 => mutate(&mut c.rng, &x), _ => x.clone() };
                    let cop = if c.rng.chance(0.75) { 2 } else { c.rng.below(5) as i64 };
                    let bel = if c.rng.chance(0.9) { stmt(cop, a.clone(), bx) } else { gen(&mut c.rng, d, 0.1) };
                    let mut i2 = ids(&mut c.rng);
                    if c.rng.chance(0.5) { for q in i2.iter_mut() { *q += 1_000_000; } }
                    if c.rng.chance(0.25) && !i1.is_empty() && !i2.is_empty() { let (i, j) = (c.rng.below(i1.len()), c.rng.below(i2.len())); i2[j] = i1[i]; }
                    let (g, b) = (mk(&mut c.rng, &x, 2, &i1), mk(&mut c.rng, &bel, 0, &i2));
                    let fire = bel.tag == 0 && bel.num == 2 && bel.kids[1] == x && !i1.iter().any(|q| i2.contains(q));
                    let want: Option<S> = if fire { let w = o::dedgoal(&tvo(&g).unwrap(), &tvo(&b).unwrap()); Some((bel.kids[0].clone(), None, 2, merged(&i1, &i2), None, Some((-1, -1, w.0, w.1)))) } else { None };
                    c.check(fire, guard(|| infGoalBelief(&g, &b)).and_then(|r| match (&r, &want) { (None, None) => Ok(()), (Some(q), Some(w)) if eqs(&sv(q), w) => Ok(()), _ => Err(format!("derived {:?} want {:?}", r.as_ref().map(shs), want)) }), || format!("goal {} belief {}", shs(&g), shs(&b)));
                    let y = if c.rng.chance(0.6) { let n = c.rng.below(4); node(2, (0..n).map(|_| gen(&mut c.rng, 1, 0.1)).collect()) } else { x.clone() };
                    let s = mk(&mut c.rng, &y, 2, &i1);
                    let want: Option<S> = if y.tag == 2 && !y.kids.is_empty() { let w = tvo(&s).unwrap(); Some((y.kids[0].clone(), None, 2, i1.clone(), None, Some((-1, -1, w.f, w.c)))) } else { None };
                    c.check(want.is_some(), guard(|| infGoalDetach(&s)).and_then(|r| match (&r, &want) { (None, None) => Ok(()), (Some(q), Some(w)) if eqs(&sv(q), w) => Ok(()), _ => Err(format!("detached {:?} want {:?}", r.as_ref().map(shs), want)) }), || format!("goal {}", shs(&s)));
                }
                _ => {
                    // < (a --> [y], op) =/> z >, a repeated elsewhere
                    let a = gen(&mut c.rng, d - 1, 0.1);
                    let plant = |r: &mut Rng, a: &V| -> V { let mut z = gen(r, 2, 0.1); for _ in 0..r.below(3) { if z.kids.is_empty() { if r.chance(0.5) { z = a.clone(); } } else { let i = r.below(z.kids.len()); if z.kids[i].kids.is_empty() || r.chance(0.5) { z.kids[i] = a.clone(); } else { let n = z.kids[i].kids.len(); let j = r.below(n); z.kids[i].kids[j] = a.clone(); } } } z };
                    let n = if c.rng.chance(0.85) { 2 } else { 1 + c.rng.below(3) };
                    let tag = if c.rng.chance(0.85) { 3u8 } else { 4 };
                    let e = plant(&mut c.rng, &a);
                    let mut sq = vec![stmt(if c.rng.chance(0.9) { 1 } else { 0 }, a.clone(), node(tag, vec![e]))];
                    for _ in 1..n { let q = plant(&mut c.rng, &a); sq.push(q); }
                    let z = plant(&mut c.rng, &a);
                    let y = if c.rng.chance(0.92) { stmt(if c.rng.chance(0.9) { 2 } else { c.rng.below(5) as i64 }, node(if c.rng.chance(0.92) { 2 } else { 8 }, sq), z) } else { x.clone() };
                    let s = mk(&mut c.rng, &y, 0, &i1);
                    let can = y.tag == 0 && y.num == 2 && y.kids[0].tag == 2 && y.kids[0].kids.len() == 2 && { let q = &y.kids[0].kids[0]; q.tag == 0 && q.num == 1 && q.kids[1].tag == 3 };
                    let fire = can && occ(&y, &y.kids[0].kids[0].kids[0]) >= 2;
                    let r = guard(|| matchandintro_var1_sentence(&s, &mut rng));
                    let res = r.and_then(|r| {
                        if r.len() != fire as usize { return Err(format!("{} results want {}", r.len(), fire as usize)); }
                        if !fire { return Ok(()); }
                        let a = &y.kids[0].kids[0].kids[0];
                        let got = v(&r[0].term);
                        let w = got.kids[0].kids.get(0).and_then(|q| q.kids.get(0)).cloned().unwrap_or(name("?"));
                        if w.tag != 7 || occ_all(&y, &w) > 0 { return Err(format!("introduced {} which is not a fresh independent variable: {}", show(&w), show(&got))); }
                        if !seen.insert(w.name.clone()) { return Err(format!("variable name {} was used before", w.name)); }
                        let want = repl(&y, a, &w);
                        if got != want { return Err(format!("introduced to {} want {}", show(&got), show(&want))); }
                        let mut ws = sv(&s); ws.0 = want; if !eqs(&sv(&r[0]), &ws) { return Err(format!("the sentence became {}", shs(&r[0]))); }
                        Ok(())
                    });
                    if seen.len() > 200_000 { seen.clear(); }
                    c.check(fire, res, || shs(&s));
                }
            }
        }
    });
}
