#![allow(non_snake_case)]
use replay::*;
use nar20_1::NarWorkingCycle::*;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::Tv::Tv;
use nar20_1::Term::Term;
use std::collections::BTreeMap;
use std::sync::Arc;
use parking_lot::RwLock;
type M = BTreeMap<V, V>;
type C = (V, (f64, f64), char);
fn isvar(x: &V) -> bool { [5, 6, 7].contains(&x.tag) }
fn mat(x: &V, y: &V, m: &mut M) -> bool {
    if isvar(x) { if isvar(y) { return false; } match m.get(x) { Some(z) => z == y, None => { m.insert(x.clone(), y.clone()); true } } }
    else { x.tag == y.tag && x.num == y.num && x.name == y.name && x.kids.len() == y.kids.len() && x.kids.iter().zip(&y.kids).all(|(a, b)| mat(a, b, m)) }
}
fn app(x: &V, m: &M) -> V { if isvar(x) { m.get(x).cloned().unwrap_or(x.clone()) } else { let mut y = x.clone(); for k in y.kids.iter_mut() { *k = app(k, m); } y } }
fn is(x: &V, c: i64) -> bool { x.tag == 0 && x.num == c }
fn pc(p: EnumPunctation) -> char { match p { EnumPunctation::JUGEMENT => '.', EnumPunctation::QUESTION => '?', EnumPunctation::GOAL => '!' } }
fn cp(p: char) -> EnumPunctation { match p { '.' => EnumPunctation::JUGEMENT, '?' => EnumPunctation::QUESTION, _ => EnumPunctation::GOAL } }
fn rules2(a: &V, pa: char, ta: &Option<Tv>, b: &V, pb: char, tb: &Option<Tv>, o: &mut Vec<C>) {
    if pa == '?' && pb == '.' { if is(a, 3) { let mut m = M::new(); if mat(&a.kids[1], b, &mut m) { let t = tb.as_ref().unwrap(); o.push((app(a, &m), (t.f, t.c), '.')); } } return; }
    if pa != '.' || pb != '.' { return; }
    let (x, y) = (ta.as_ref().unwrap(), tb.as_ref().unwrap());
    let mut j = |t: V, v: (f64, f64)| o.push((t, v, '.'));
    let inh = is(a, 1) && is(b, 1);
    let l = |q: &V| is(q, 0) || is(q, 1);
    if inh && a.kids[0] == b.kids[0] && a.kids[1].tag == 3 && b.kids[1].tag == 3 { j(stmt(1, a.kids[0].clone(), node(3, [a.kids[1].kids.clone(), b.kids[1].kids.clone()].concat())), o::int(x, y)); }
    if inh && a.kids[0] == b.kids[0] && a.kids[1] != b.kids[1] { j(stmt(1, a.kids[0].clone(), node(12, vec![a.kids[1].clone(), b.kids[1].clone()])), o::int(x, y)); }
    if l(a) && l(b) && a.kids[0] == b.kids[0] && a.kids[1] != b.kids[1] { j(stmt(0, a.kids[1].clone(), b.kids[1].clone()), o::comp(x, y)); }
    if l(a) && l(b) && a.kids[1] == b.kids[1] && a.kids[0] != b.kids[0] { j(stmt(0, a.kids[0].clone(), b.kids[0].clone()), o::comp(x, y)); }
    if is(a, 3) {
        let mut m = M::new();
        if mat(&a.kids[0], b, &mut m) { j(app(&a.kids[1], &m), o::ded(x, y)); }
        if a.kids[0].tag == 8 { for i in 0..a.kids[0].kids.len().min(4) {
            let mut m = M::new();
            if mat(&a.kids[0].kids[i], b, &mut m) {
                let mut rest: Vec<V> = a.kids[0].kids.clone(); rest.remove(i); let rest: Vec<V> = rest.iter().map(|q| app(q, &m)).collect();
                let s = if rest.len() == 1 { rest[0].clone() } else { node(8, rest) };
                j(stmt(3, s, app(&a.kids[1], &m)), o::ded(x, y));
            }
        } }
    }
    for c in [1i64, 2, 3] { if is(a, c) && is(b, c) && a.kids[1] == b.kids[0] && a.kids[0] != b.kids[1] { j(stmt(c, a.kids[0].clone(), b.kids[1].clone()), o::ded(x, y)); } }
    if inh && a.kids[1] == b.kids[1] && a.kids[0] != b.kids[0] { j(stmt(1, a.kids[0].clone(), b.kids[0].clone()), o::abd(x, y)); }
    if inh && a.kids[0] == b.kids[0] && a.kids[1] != b.kids[1] { j(stmt(1, a.kids[1].clone(), b.kids[1].clone()), o::ind(x, y)); }
}
fn rules1(a: &V, p: char, t: &Option<Tv>) -> Vec<(C, f64)> {
    let mut o = vec![]; if p != '.' { return o; }
    let t = t.as_ref().unwrap(); let same = (t.f, t.c);
    if a.tag == 14 { o.push(((a.kids[0].clone(), o::neg(t), '.'), 0.5)); }
    let mut j = |c: i64, s: &V, q: &V, b: f64| o.push(((stmt(c, s.clone(), q.clone()), same, '.'), b));
    if is(a, 1) {
        let (s, q) = (&a.kids[0], &a.kids[1]);
        if s.tag == 11 { for k in s.kids.iter().take(3) { j(1, k, q, 0.9); } }
        if q.tag == 11 { for k in q.kids.iter().take(3) { j(1, s, k, 1.0); } }
        if s.tag == 9 && s.kids.len() == 2 { for k in 0..2 { j(1, &s.kids[k], &img(k as i64, q.clone(), vec![s.kids[1 - k].clone()]), 0.8); } }
        if q.tag == 10 && q.kids.len() == 2 && q.num == 0 { j(1, &node(9, vec![s.clone(), q.kids[0].clone()]), &q.kids[1], 0.9); }
        if q.tag == 10 && q.kids.len() == 2 && q.num == 1 { j(1, &node(9, vec![q.kids[0].clone(), s.clone()]), &q.kids[1], 0.9); }
    }
    if is(a, 0) { for tag in [3u8, 4] { let (s, q) = (&a.kids[0], &a.kids[1]); if s.tag == tag && q.tag == tag && s.kids.len() == 1 && q.kids.len() == 1 { j(0, &s.kids[0], &q.kids[0], 1.0); } } }
    if is(a, 2) && a.kids[1].tag == 13 { for k in &a.kids[1].kids { j(2, &a.kids[0], k, 0.9); } }
    o
}
fn ceq(a: &C, b: &C) -> bool { a.0 == b.0 && a.2 == b.2 && close(a.1 .0, b.1 .0) && close(a.1 .1, b.1 .1) }
fn msame<T>(got: &[T], want: &[T], eq: impl Fn(&T, &T) -> bool, sh: impl Fn(&T) -> String) -> Result<(), String> {
    let mut left: Vec<usize> = (0..want.len()).collect();
    for g in got { match left.iter().position(|&i| eq(g, &want[i])) { Some(p) => { left.remove(p); } None => return Err(format!("derived {} which no rule licenses (licensed: {})", sh(g), want.iter().map(&sh).collect::<Vec<_>>().join(" ; "))) } }
    if let Some(&i) = left.first() { return Err(format!("the licensed conclusion {} was not derived (derived: {})", sh(&want[i]), got.iter().map(&sh).collect::<Vec<_>>().join(" ; "))); }
    Ok(())
}
fn shc(c: &C) -> String { format!("{}{} {{{:?} {:?}}}", show(&c.0), c.2, c.1 .0, c.1 .1) }
fn ptv(r: &mut Rng, p: char) -> Option<Tv> { if p == '?' { None } else { Some(gtv(r)) } }
fn punct(r: &mut Rng) -> char { *r.pick(&['.', '.', '.', '.', '.', '.', '?', '!']) }
/// instantiates some variables of x
fn inst(r: &mut Rng, x: &V) -> V { fn vs(x: &V, o: &mut Vec<V>) { if isvar(x) && !o.contains(x) { o.push(x.clone()); } for k in &x.kids { vs(k, o); } } let mut w = vec![]; vs(x, &mut w); let mut m = M::new(); for q in w { if r.chance(0.93) { let d = r.below(2); m.insert(q, gen(r, d, 0.0)); } } app(x, &m) }
/// premise pair likely to trigger a rule
fn pair(r: &mut Rng) -> (V, V) {
    let g = |r: &mut Rng| { let d = r.below(3); gen(r, d, 0.15) };
    let a = match r.below(9) {
        0..=3 => { let c = *r.pick(&[0i64, 1, 1, 1, 2, 3, 4]); stmt(c, g(r), g(r)) }
        4 => stmt(1, g(r), { let n = r.below(4); let k = (0..n).map(|_| g(r)).collect(); node(*r.pick(&[3u8, 3, 3, 4]), k) }),
        5 | 6 => { let n = 1 + r.below(5); let k: Vec<V> = (0..n).map(|_| { let d = 1 + r.below(2); gen(r, d, 0.5) }).collect(); let d = 1 + r.below(2); let q = gen(r, d, 0.5); stmt(3, node(*r.pick(&[8u8, 8, 8, 2]), k), q) }
        7 => { let d = 1 + r.below(2); let x = gen(r, d, 0.5); let y = gen(r, d, 0.5); stmt(3, x, y) }
        _ => { let d = r.below(4); gen(r, d, 0.2) }
    };
    let b = match r.below(10) {
        0..=4 if a.tag == 0 => { // shares one component
            let (s, q) = (a.kids[0].clone(), a.kids[1].clone()); let c = if r.chance(0.75) { a.num } else { r.below(5) as i64 };
            let z = if r.chance(0.2) { let o = if r.chance(0.5) { &s } else { &q }; mutate(r, o) } else if r.chance(0.1) { s.clone() } else if r.chance(0.1) { q.clone() } else if q.tag == 3 { node(3, vec![g(r)]) } else { g(r) };
            match r.below(4) { 0 => stmt(c, s, z), 1 => stmt(c, z, q), 2 => stmt(c, q, z), _ => stmt(c, z, s) }
        }
        5..=7 if is(&a, 3) => { let s = &a.kids[0]; let x = match r.below(4) { 0 => s.clone(), 1 => a.kids[1].clone(), _ => if s.tag == 8 && !s.kids.is_empty() { s.kids[r.below(s.kids.len())].clone() } else { s.clone() } }; let y = inst(r, &x); if r.chance(0.15) { mutate(r, &y) } else { y } }
        8 => mutate(r, &a),
        _ => { let d = r.below(4); gen(r, d, 0.2) }
    };
    if r.chance(0.5) { (a, b) } else { (b, a) }
}
fn single(r: &mut Rng) -> V {
    let g = |r: &mut Rng| { let d = r.below(3); gen(r, d, 0.15) };
    let el = |r: &mut Rng, tag: u8| { let n = r.below(6); let k = (0..n).map(|_| g(r)).collect(); node(tag, k) };
    let mut x = match r.below(10) {
        0 => node(14, vec![g(r)]),
        1 => stmt(1, el(r, 11), g(r)), 2 => stmt(1, g(r), el(r, 11)), 3 => stmt(1, el(r, 9), g(r)),
        4 => { let n = r.below(4); let k = (0..n).map(|_| g(r)).collect(); let i = r.below(3) as i64; let rel = g(r); stmt(1, g(r), img(i, rel, k)) }
        5 => { let (p, q) = (*r.pick(&[3u8, 4]), *r.pick(&[3u8, 4])); let n = 1 + r.below(2); let k: Vec<V> = (0..n).map(|_| g(r)).collect(); stmt(0, node(p, k), node(q, vec![g(r)])) }
        6 => stmt(2, g(r), el(r, 13)),
        7 => stmt(1, el(r, 9), el(r, 11)),
        8 => stmt(1, el(r, 11), { let rel = g(r); img(r.below(2) as i64, rel, vec![g(r)]) }),
        _ => { let d = r.below(4); gen(r, d, 0.2) }
    };
    if r.chance(0.1) { x = mutate(r, &x); }
    x
}
fn merged(a: &[i64], b: &[i64]) -> Vec<i64> { let m = a.len().min(b.len()); let mut r = vec![]; for i in 0..m { r.push(a[i]); r.push(b[i]); } r.extend_from_slice(&a[m..]); r.extend_from_slice(&b[m..]); r.truncate(120); r }
fn sen(r: &mut Rng, x: &V, p: char, ids: &[i64]) -> Sentence {
    let evi = if p == '?' { None } else if r.chance(0.15) { let cnt = 1 + r.below(50) as i64; Some(Evidence::CNT { pos: r.below(cnt as usize + 1) as i64, cnt }) } else { Some(Evidence::TV(gtv(r))) };
    Sentence { term: Arc::new(t(x)), t: if r.chance(0.3) { Some(r.below(100) as i64) } else { None }, punct: cp(p), stamp: newStamp(&ids.to_vec()), expDt: if r.chance(0.2) { Some(7) } else { None }, evi, usage: Arc::new(RwLock::new(Usage { lastUsed: 5, useCount: 9 })) }
}
fn stv(s: &Sentence) -> Option<Tv> { match &s.evi { None => None, Some(Evidence::TV(t)) => Some(t.clone()), Some(Evidence::CNT { pos, cnt }) => Some(Tv { f: *pos as f64 / *cnt as f64, c: *cnt as f64 / (*cnt as f64 + 1.0) }) } }
fn dsen(s: &Sentence, ids: &[i64]) -> Result<C, String> {
    if s.stamp.ids != ids { return Err(format!("conclusion {} carries the evidence {:?}, its premises give {:?}", show(&v(&s.term)), s.stamp.ids, ids)); }
    if s.t.is_some() || s.expDt.is_some() { return Err(format!("conclusion {} is not eternal", show(&v(&s.term)))); }
    match &s.evi { Some(Evidence::TV(t)) => Ok((v(&s.term), (t.f, t.c), pc(s.punct))), _ => Err(format!("conclusion {} has no truth value", show(&v(&s.term)))) }
}
fn main() {
    drive(|c, p| {
        let mut k = 0u64;
        while c.time() || k < 3000 {
            k += 1;
            match p {
                "C11" => {
                    let x = single(&mut c.rng); let pu = punct(&mut c.rng); let tt = ptv(&mut c.rng, pu); let tx: Term = t(&x);
                    let want = rules1(&x, pu, &tt);
                    let r = guard(|| infSinglePremise(&tx, cp(pu), &tt)).and_then(|g| { let got: Vec<(C, f64)> = g.iter().map(|q| ((v(&q.0), (q.1.f, q.1.c), pc(q.2)), q.3)).collect(); msame(&got, &want, |a, b| ceq(&a.0, &b.0) && close(a.1, b.1), |q| format!("{} (bias {})", shc(&q.0), q.1)) });
                    c.check(!want.is_empty(), r, || format!("premise {}{} {}", show(&x), pu, tt.as_ref().map(tvs).unwrap_or_default()));
                }
                "C12" => {
                    let (a, b) = pair(&mut c.rng); let (pa, pb) = (punct(&mut c.rng), punct(&mut c.rng)); let (ta, tb) = (ptv(&mut c.rng, pa), ptv(&mut c.rng, pb)); let (xa, xb) = (t(&a), t(&b));
                    let mut want = vec![]; rules2(&a, pa, &ta, &b, pb, &tb, &mut want); rules2(&b, pb, &tb, &a, pa, &ta, &mut want);
                    let mut flag = c.rng.chance(0.5);
                    let r = guard(|| infBinary(&xa, cp(pa), &ta, &xb, cp(pb), &tb, &mut flag)).and_then(|g| { let got: Vec<C> = g.iter().map(|q| (v(&q.0), (q.1.f, q.1.c), pc(q.2))).collect(); msame(&got, &want, ceq, shc) });
                    let r = r.and_then(|_| if flag == !want.is_empty() { Ok(()) } else { Err(format!("rules-applied flag is {} with {} conclusions", flag, want.len())) });
                    c.check(!want.is_empty(), r, || format!("premises {}{} {}  and  {}{} {}", show(&a), pa, ta.as_ref().map(tvs).unwrap_or_default(), show(&b), pb, tb.as_ref().map(tvs).unwrap_or_default()));
                }
                _ => {
                    // evidence bookkeeping
                    let (a, b) = pair(&mut c.rng); let (pa, pb) = (punct(&mut c.rng), punct(&mut c.rng));
                    let long = c.rng.chance(0.2);
                    let n = if long { c.rng.below(140) } else { c.rng.below(5) }; let m = if long { c.rng.below(140) } else { c.rng.below(5) };
                    let base = if c.rng.chance(0.4) { 0 } else { 100_000 };
                    let ia: Vec<i64> = (0..n).map(|_| c.rng.below(if long { 5000 } else { 12 }) as i64).collect(); let mut ib: Vec<i64> = (0..m).map(|_| base + c.rng.below(if long { 5000 } else { 12 }) as i64).collect();
                    if c.rng.chance(0.25) && n > 0 && m > 0 { let i = c.rng.below(n); let j = c.rng.below(m); ib[j] = ia[i]; }
                    let (sa, sb) = (sen(&mut c.rng, &a, pa, &ia), sen(&mut c.rng, &b, pb, &ib));
                    let ov = ia.iter().any(|q| ib.contains(q));
                    let (ta, tb) = (stv(&sa), stv(&sb));
                    let mut want = vec![]; rules2(&a, pa, &ta, &b, pb, &tb, &mut want); rules2(&b, pb, &tb, &a, pa, &ta, &mut want);
                    let nt = !want.is_empty();
                    if ov { want.clear(); }
                    let mut flag = false; let mg = merged(&ia, &ib);
                    let s = || format!("premises {}{} evidence {:?}  and  {}{} evidence {:?}", show(&a), pa, ia, show(&b), pb, ib);
                    let r = guard(|| inference(&sa, &sb, &mut flag)).and_then(|g| {
                        if ov && !g.is_empty() { return Err(format!("the premises share evidence but {} was derived", show(&v(&g[0].0.term)))); }
                        let mut got = vec![]; for q in &g { got.push(dsen(&q.0, &mg)?); }
                        msame(&got, &want, ceq, shc)
                    });
                    c.check(nt, r, s);
                    let x = single(&mut c.rng); let px = punct(&mut c.rng); let sx = sen(&mut c.rng, &x, px, &ia);
                    let want: Vec<C> = rules1(&x, px, &stv(&sx)).into_iter().map(|q| q.0).collect();
                    let r = guard(|| infSinglePremise2(&sx)).and_then(|g| { let mut got = vec![]; for q in &g { got.push(dsen(&q.0, &ia)?); } msame(&got, &want, ceq, shc) });
                    c.check(!want.is_empty(), r, || format!("premise {}{} evidence {:?}", show(&x), px, ia));
                }
            }
        }
    });
}
