//! sentences, belief tables: generators and the executable statement of the memory contracts
use super::*;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::NarMem::*;
use std::sync::Arc;
use std::collections::BTreeMap;
use parking_lot::RwLock;
pub fn ev(e: &Option<Evidence>) -> Option<(i64, i64, f64, f64)> { e.as_ref().map(|e| match e { Evidence::CNT { pos, cnt } => (*pos, *cnt, -1.0, -1.0), Evidence::TV(t) => (-1, -1, t.f, t.c) }) }
pub fn pn(p: EnumPunctation) -> u8 { match p { EnumPunctation::JUGEMENT => 0, EnumPunctation::QUESTION => 1, EnumPunctation::GOAL => 2 } }
pub fn np(p: u8) -> EnumPunctation { match p { 0 => EnumPunctation::JUGEMENT, 1 => EnumPunctation::QUESTION, _ => EnumPunctation::GOAL } }
/// a belief: what it says and its usage record
#[derive(Clone, Debug)]
pub struct S { pub t: V, pub occ: Option<i64>, pub p: u8, pub ids: Vec<i64>, pub dt: Option<i64>, pub e: Option<(i64, i64, f64, f64)>, pub last: i64, pub cnt: i64 }
impl PartialEq for S { fn eq(&self, o: &S) -> bool { self.t == o.t && self.occ == o.occ && self.p == o.p && self.ids == o.ids && self.dt == o.dt && self.last == o.last && self.cnt == o.cnt && match (&self.e, &o.e) { (None, None) => true, (Some(x), Some(y)) => x.0 == y.0 && x.1 == y.1 && close(x.2, y.2) && close(x.3, y.3), _ => false } } }
pub fn sv(s: &Sentence) -> S { let u = s.usage.read(); S { t: v(&s.term), occ: s.t, p: pn(s.punct), ids: s.stamp.ids.clone(), dt: s.expDt, e: ev(&s.evi), last: u.lastUsed, cnt: u.useCount } }
impl S {
    pub fn tv(&self) -> Tv { let e = self.e.unwrap(); if e.1 >= 0 { Tv { f: e.0 as f64 / e.1 as f64, c: e.1 as f64 / (e.1 as f64 + 1.0) } } else { Tv { f: e.2, c: e.3 } } }
    pub fn exp(&self) -> f64 { o::exp(&self.tv()) }
    pub fn useful(&self, now: i64) -> f64 { let u = self.cnt as f64 / ((now - self.last).max(0) as f64 + 1.0); u / (u + 1.0) }
    pub fn show(&self) -> String { format!("{} punct={} ids={:?} t={:?} dt={:?} evi={:?} used={}@{}", super::show(&self.t), self.p, self.ids, self.occ, self.dt, self.e, self.cnt, self.last) }
}
pub fn overlap(a: &[i64], b: &[i64]) -> bool { a.iter().any(|q| b.contains(q)) }
pub fn merged(a: &[i64], b: &[i64]) -> Vec<i64> { let m = a.len().min(b.len()); let mut r = vec![]; for i in 0..m { r.push(a[i]); r.push(b[i]); } r.extend_from_slice(&a[m..]); r.extend_from_slice(&b[m..]); r.truncate(120); r }
pub fn mk(r: &mut Rng, x: &V, p: u8, i: &[i64]) -> Sentence {
    let evi = if p == 1 { None } else if r.chance(0.3) { let cnt = 1 + r.below(9) as i64; let pos = match r.below(4) { 0 => 0, 1 => cnt, _ => r.below(cnt as usize + 1) as i64 }; Some(Evidence::CNT { pos, cnt }) } else if r.chance(0.4) { Some(Evidence::TV(Tv { f: *r.pick(&[0.0, 0.5, 1.0]), c: *r.pick(&[0.0, 0.5, 0.9]) })) } else { Some(Evidence::TV(gtv(r))) };
    Sentence { term: Arc::new(t(x)), t: if r.chance(0.2) { Some(r.below(100) as i64) } else { None }, punct: np(p), stamp: newStamp(&i.to_vec()), expDt: if r.chance(0.2) { Some(r.below(64) as i64) } else { None }, evi, usage: Arc::new(RwLock::new(Usage { lastUsed: r.below(90) as i64, useCount: if r.chance(0.3) { 0 } else { r.below(90) as i64 } })) }
}
/// small terms over few names, so that statements, subterms and concepts repeat
pub fn small(r: &mut Rng) -> V {
    let nm = |r: &mut Rng| name(*r.pick(&["a", "b", "c"]));
    let st = |r: &mut Rng| { let a = nm(r); let b = nm(r); stmt(*r.pick(&[1i64, 1, 1, 0, 3]), a, b) };
    match r.below(14) { 0 => nm(r), 1 => { let d = 1 + r.below(3); gen(r, d, 0.2) } 2 => { let a = st(r); let b = st(r); stmt(3, a, b) } 3 => node(9, vec![nm(r), nm(r)]), 4 => { let a = st(r); node(14, vec![a]) } 5 => { let a = nm(r); stmt(1, a, leaf(5, "q")) } _ => st(r) }
}
pub fn idl(r: &mut Rng, fresh: &mut i64) -> Vec<i64> {
    if r.chance(0.6) { *fresh += 1; return vec![*fresh]; }
    if r.chance(0.02) { let n = r.below(140); return (0..n).map(|_| r.below(100000) as i64 + 1000000).collect(); }
    let n = r.below(4); (0..n).map(|_| 1 + r.below(12) as i64).collect()
}
pub type Tab = Vec<S>;
pub type MM = BTreeMap<V, (V, Tab, Tab)>;
pub fn tab(a: &Vec<Arc<RwLock<Sentence>>>) -> Tab { a.iter().map(|x| sv(&x.read())).collect() }
pub fn snap(m: &Mem) -> MM { m.concepts.iter().map(|(k, c)| (v(k), (v(&c.name), tab(&c.payload.beliefsByExp), tab(&c.payload.beliefsByUsage)))).collect() }
pub fn showm(m: &MM) -> String { m.iter().map(|(k, (_, a, b))| format!("{}: byExp[{}] byUsage[{}]", show(k), a.iter().map(|x| x.show()).collect::<Vec<_>>().join("; "), b.iter().map(|x| x.show()).collect::<Vec<_>>().join("; "))).collect::<Vec<_>>().join("\n  ") }
pub fn meq(a: &Tab, b: &Tab) -> bool { if a.len() != b.len() { return false; } let mut u = vec![false; b.len()]; a.iter().all(|x| { for i in 0..b.len() { if !u[i] && b[i] == *x { u[i] = true; return true; } } false }) }
/// the table after storing b in it, `times` times in a row
fn tstore(t: &Tab, b: &S, n: usize, key: &dyn Fn(&S) -> f64) -> Tab {
    if t.iter().any(|x| x.t == b.t && overlap(&x.ids, &b.ids)) { return t.clone(); }
    let mut r = t.clone(); r.push(b.clone()); r.sort_by(|x, y| key(y).partial_cmp(&key(x)).unwrap()); r.truncate(n); r
}
pub fn sim_store(m: &mut MM, b: &S, ts: &[V], n: usize, now: i64) {
    if b.p != 0 { return; }
    for k in ts { match m.get_mut(k) { Some(c) => { c.1 = tstore(&c.1, b, n, &|x| x.exp()); c.2 = tstore(&c.2, b, n, &|x| x.useful(now)); } None => { m.insert(k.clone(), (k.clone(), vec![b.clone()], vec![b.clone()])); } } }
}
/// the first belief with the same statement from disjoint evidence takes in the evidence of s
fn trev(t: &mut Tab, s: &S) -> Option<S> {
    let i = t.iter().position(|b| b.t == s.t && !overlap(&b.ids, &s.ids))?;
    let b = t.remove(i); let w = o::rev(&b.tv(), &s.tv());
    let r = S { t: b.t.clone(), occ: b.occ, p: b.p, ids: merged(&b.ids, &s.ids), dt: b.dt, e: Some((-1, -1, w.0, w.1)), last: 0, cnt: 0 };
    t.push(r.clone()); Some(r)
}
pub fn sim_rev(m: &mut MM, s: &S) -> Option<S> { let mut res = None; if s.p != 0 { return None; } for k in subs(&s.t) { if let Some(c) = m.get_mut(&k) { if let Some(x) = trev(&mut c.1, s) { res = Some(x); } if let Some(x) = trev(&mut c.2, s) { res = Some(x); } } } res }
/// tables agree up to the order of equally ranked beliefs; what changed is ordered
fn tabs(which: &str, k: &V, before: Option<&Tab>, got: &Tab, want: &Tab, key: &dyn Fn(&S) -> f64, cut: bool, src: &Tab) -> Result<(), String> {
    let l = |t: &Tab| t.iter().map(|x| format!("[{} rank {:?}]", x.show(), key(x))).collect::<Vec<_>>().join("; ");
    let bad = |w: &str| Err(format!("{} of concept {}: {}; holds {} want {}", which, show(k), w, l(got), l(want)));
    if got.len() != want.len() { return bad("wrong number of beliefs"); }
    if before.map(|b| b == want).unwrap_or(false) { if meq(got, want) { return Ok(()); } if !cut { return bad("changed"); } }
    for i in 1..got.len() { let (a, b) = (key(&got[i - 1]), key(&got[i])); if a < b && !close(a, b) { return bad("not ordered"); } }
    if meq(got, want) { return Ok(()); }
    if !cut { return bad("different beliefs"); }
    let last = want.last().map(|x| key(x)).unwrap_or(0.0);
    let top = |t: &Tab| -> Tab { t.iter().filter(|x| key(x) > last && !close(key(x), last)).cloned().collect() };
    if !meq(&top(got), &top(want)) { return bad("a better ranked belief was dropped or a belief was invented"); }
    for x in got { if !src.contains(x) { return bad("a belief was invented"); } if key(x) < last && !close(key(x), last) { return bad("a worse belief was kept"); } }
    Ok(())
}
pub fn cmp_store(before: &MM, got: &MM, want: &MM, b: &S, n: usize, now: i64) -> Result<(), String> {
    for k in want.keys() { if !got.contains_key(k) { return Err(format!("no concept for {}", show(k))); } }
    for (k, g) in got {
        let w = match want.get(k) { Some(w) => w, None => return Err(format!("unexpected concept {}", show(k))) };
        if g.0 != *k { return Err(format!("concept {} is named {}", show(k), show(&g.0))); }
        let bf = before.get(k);
        let src = |t: Option<&Tab>| -> Tab { let mut r = t.cloned().unwrap_or(vec![]); r.push(b.clone()); r };
        tabs("beliefs by expectation", k, bf.map(|x| &x.1), &g.1, &w.1, &|x| x.exp(), w.1.len() >= n, &src(bf.map(|x| &x.1)))?;
        tabs("beliefs by usage", k, bf.map(|x| &x.2), &g.2, &w.2, &|x| x.useful(now), w.2.len() >= n, &src(bf.map(|x| &x.2)))?;
    }
    Ok(())
}
/// the same concepts with the same beliefs (order within a table aside)
pub fn cmp_same(got: &MM, want: &MM) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{} concepts want {}", got.len(), want.len())); }
    for (k, w) in want { match got.get(k) { None => return Err(format!("concept {} is gone", show(k))), Some(g) => {
        if g.0 != w.0 { return Err(format!("concept {} is named {}", show(k), show(&g.0))); }
        for (nm, a, b) in [("expectation", &g.1, &w.1), ("usage", &g.2, &w.2)] { if !meq(a, b) { return Err(format!("beliefs by {} of concept {}: holds [{}] want [{}]", nm, show(k), a.iter().map(|x| x.show()).collect::<Vec<_>>().join("; "), b.iter().map(|x| x.show()).collect::<Vec<_>>().join("; "))); } }
    } } }
    Ok(())
}
