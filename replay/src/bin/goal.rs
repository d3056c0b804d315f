#![allow(non_snake_case)]
//! goal system: histories of operations on a real goal system, judged by what a goal system has to do
use replay::*;
use replay::sn::*;
use nar20_1::NarGoalSystem::*;
use nar20_1::NarMem;
use nar20_1::NarSentence::*;
use nar20_1::NarWorkingCycle::createMem2;
use nar20_1::BinSearch::binSearch;
use std::collections::BTreeMap;
use std::sync::Arc;
use parking_lot::RwLock;
type A = Arc<RwLock<Entry>>;
type P = usize;
fn p(a: &A) -> P { Arc::as_ptr(a) as *const () as usize }
fn pe(a: &Option<Arc<RwLock<Sentence>>>) -> P { a.as_ref().map(|x| Arc::as_ptr(x) as *const () as usize).unwrap_or(0) }
#[derive(Clone)]
struct E { p: P, s: S, evi: P, create: i64, depth: i64, des: f64, util: f64, acc: f64 }
fn ev(a: &A) -> E { let x = a.read(); E { p: p(a), s: sv(&x.sentence), evi: pe(&x.evidence), create: x.createTime, depth: x.depth, des: x.desirability as f64, util: x.utility, acc: x.accDesirability } }
impl E { fn show(&self) -> String { format!("{}! ids={:?} evi={:?} created={} depth={} des={:?} acc={:?}", show(&self.s.t), self.s.ids, self.s.e, self.create, self.depth, self.des, self.acc) } }
/// what the goal system holds
struct G { act: Vec<E>, bt: Vec<(i64, Vec<(V, Vec<E>)>)>, ix: BTreeMap<V, Vec<P>>, nmax: i64, ndep: i64 }
fn snap(g: &GoalSystem) -> G {
    G { act: g.activeSet.set.iter().map(ev).collect(), bt: g.batchesByDepth.iter().map(|b| { let b = b.read(); (b.depth, b.groups.iter().map(|q| (v(&q.term), q.entries.iter().map(ev).collect())).collect()) }).collect(),
        ix: g.entriesByTerm.iter().map(|(k, l)| (v(k), l.read().iter().map(p).collect())).collect(), nmax: g.nMaxEntries, ndep: g.nMaxDepth }
}
fn all(g: &G) -> Vec<E> { let mut r: Vec<E> = vec![]; for b in &g.bt { for q in &b.1 { r.extend(q.1.iter().cloned()); } } r.extend(g.act.iter().cloned()); r }
fn isop(x: &V) -> bool { x.tag == 0 && x.num == 1 && x.kids[1].tag == 1 && x.kids[0].tag == 4 && x.kids[0].kids.len() == 1 && x.kids[0].kids[0].tag == 9 && !x.kids[0].kids[0].kids.is_empty() }
/// the arrangement of the goals
fn inv(g: &G) -> Result<(), String> {
    if g.bt.len() as i64 != g.ndep { return Err(format!("{} depths want {}", g.bt.len(), g.ndep)); }
    for (i, b) in g.bt.iter().enumerate() {
        if b.0 != i as i64 { return Err(format!("depth number {} is marked {}", i, b.0)); }
        for (j, q) in b.1.iter().enumerate() {
            if q.1.is_empty() { return Err(format!("empty group {} at depth {}", show(&q.0), i)); }
            if b.1[..j].iter().any(|z| z.0 == q.0) { return Err(format!("two groups {} at depth {}", show(&q.0), i)); }
            if isop(&q.0) { return Err(format!("operation {} is not in the active set", show(&q.0))); }
            if q.1[0].acc != 0.0 { return Err(format!("group {} at depth {} starts with accumulated desirability {:?}", show(&q.0), i, q.1[0].acc)); }
            for k in 0..q.1.len() { let e = &q.1[k];
                if e.s.t != q.0 { return Err(format!("goal {} is filed under {}", e.show(), show(&q.0))); }
                if e.depth.min(g.ndep - 1) != i as i64 { return Err(format!("goal {} is filed at depth {}", e.show(), i)); }
                if k > 0 && e.acc < q.1[k - 1].acc { return Err(format!("accumulated desirability decreases in group {} at depth {}: {:?}", show(&q.0), i, q.1.iter().map(|z| z.acc).collect::<Vec<_>>())); }
            }
        }
    }
    for e in &g.act { if !isop(&e.s.t) { return Err(format!("{} is in the active set but is no operation", e.show())); } }
    let es = all(g);
    for i in 0..es.len() { for j in 0..i { if es[i].s.t == es[j].s.t && es[i].s.ids == es[j].s.ids { return Err(format!("the same goal is stored twice: {} and {}", es[j].show(), es[i].show())); } } }
    for b in &g.bt { for q in &b.1 { for e in &q.1 { if !g.ix.get(&q.0).map(|l| l.contains(&e.p)).unwrap_or(false) { return Err(format!("goal {} isn't found by its term", e.show())); } } } }
    for (k, l) in &g.ix { for x in l { if !g.bt.iter().any(|b| b.1.iter().any(|q| q.0 == *k && q.1.iter().any(|e| e.p == *x))) { return Err(format!("the index of {} holds something that is no goal of the system", show(k))); } } }
    Ok(())
}
/// what a goal is, without the bookkeeping
fn same(a: &E, b: &E) -> bool { a.p == b.p && a.s == b.s && a.evi == b.evi && a.create == b.create && a.depth == b.depth && a.des == b.des }
fn shows(e: &[E]) -> String { e.iter().map(|x| x.show()).collect::<Vec<_>>().join("; ") }
/// nothing else than the arrangement changed
fn unchanged(b: &G, a: &G) -> Result<(), String> {
    let (x, y) = (all(b), all(a));
    if x.len() != y.len() { return Err(format!("{} goals want {}", y.len(), x.len())); }
    for e in &x { match y.iter().find(|z| z.p == e.p) { None => return Err(format!("goal {} is gone", e.show())), Some(z) => if !same(e, z) || e.acc != z.acc { return Err(format!("goal {} became {}", e.show(), z.show())); } } }
    Ok(())
}
fn seq(r: &mut Rng) -> V { let n = 1 + r.below(3); let mut k: Vec<V> = (0..n).map(|_| match r.below(5) { 0 => leaf(*r.pick(&[5u8, 6, 7]), "x"), 1 => stmt(1, leaf(7, "x"), name("b")), 2 => gen(r, 2, 0.3), _ => small(r) }).collect(); if r.chance(0.7) { k.push(op(r)); } node(2, k) }
fn op(r: &mut Rng) -> V { let n = *r.pick(&["^left", "^right"]); let mut a = vec![node(4, vec![name("SELF")])]; if r.chance(0.3) { a.push(name(*r.pick(&["a", "b"]))); } stmt(1, node(4, vec![node(9, a)]), name(n)) }
fn gterm(r: &mut Rng) -> V { match r.below(10) { 0 | 1 => op(r), 2 | 3 | 4 => seq(r), 5 => gen(r, 2, 0.2), 6 => name(*r.pick(&["a", "b", "c"])), _ => small(r) } }
fn goal(r: &mut Rng, x: &V, i: &[i64]) -> Sentence { mk(r, x, 2, i) }
type M = BTreeMap<V, V>;
fn isvar(x: &V) -> bool { [5, 6, 7].contains(&x.tag) }
fn mat(x: &V, y: &V, m: &mut M) -> bool {
    if isvar(x) { if isvar(y) { return false; } match m.get(x) { Some(z) => z == y, None => { m.insert(x.clone(), y.clone()); true } } }
    else { x.tag == y.tag && x.num == y.num && x.name == y.name && x.kids.len() == y.kids.len() && x.kids.iter().zip(&y.kids).all(|(a, b)| mat(a, b, m)) }
}
fn app(x: &V, m: &M) -> V { if isvar(x) { m.get(x).cloned().unwrap_or(x.clone()) } else { let mut y = x.clone(); for k in y.kids.iter_mut() { *k = app(k, m); } y } }
fn util(e: &E, t: i64) -> f64 { e.s.exp() * e.des.abs() * ((t - e.create) as f64 * -0.01).exp() }
fn subgoal(k: &[V]) -> V { if k.len() == 1 { k[0].clone() } else { node(2, k.to_vec()) } }
/// goals that follow in one step
#[derive(Clone)]
struct D { s: S, evi: P, depth: i64 }
fn goalof(t: V, ids: Vec<i64>, tv: (f64, f64)) -> S { S { t, occ: None, p: 2, ids, dt: None, e: Some((-1, -1, tv.0, tv.1)), last: 0, cnt: 0 } }
fn bels(m: &NarMem::Mem, x: &V) -> Vec<(P, S)> { let mut r: Vec<(P, S)> = vec![]; for q in subs(x) { if let Some(q) = m.concepts.get(&t(&q)) { for a in q.payload.beliefsByExp.iter().chain(q.payload.beliefsByUsage.iter()) { let pp = Arc::as_ptr(a) as *const () as usize; if !r.iter().any(|z| z.0 == pp) { r.push((pp, sv(&a.read()))); } } } } r }
fn step(m: &NarMem::Mem, s: &S, depth: i64) -> Vec<D> {
    if s.t.tag == 2 && !s.t.kids.is_empty() { let tv = s.tv(); return vec![D { s: goalof(s.t.kids[0].clone(), s.ids.clone(), (tv.f, tv.c)), evi: 0, depth: depth + 1 }]; }
    bels(m, &s.t).into_iter().filter(|(_, b)| b.t.tag == 0 && b.t.num == 2 && b.t.kids[1] == s.t && !overlap(&s.ids, &b.ids)).map(|(q, b)| D { s: goalof(b.t.kids[0].clone(), merged(&s.ids, &b.ids), o::dedgoal(&s.tv(), &b.tv())), evi: q, depth: depth + 1 }).collect()
}
fn seq_(a: &S, b: &S) -> bool { a.t == b.t && a.occ == b.occ && a.p == b.p && a.ids == b.ids && a.dt == b.dt && match (&a.e, &b.e) { (Some(_), Some(_)) => close(a.tv().f, b.tv().f) && close(a.tv().c, b.tv().c), _ => false } }
fn isd(e: &E, d: &D, now: i64) -> bool { seq_(&e.s, &d.s) && e.evi == d.evi && e.depth == d.depth && e.create == now && e.des == 1.0 && e.util == 1.0 }
/// everything that can be derived from a goal in at most n steps, None if too much
fn closure(m: &NarMem::Mem, s: &S, depth: i64, n: i64) -> Option<Vec<D>> {
    let mut res: Vec<D> = vec![]; let mut cur = step(m, s, depth);
    for _ in 0..n.max(1) {
        let mut nx = vec![];
        for d in cur { if res.iter().any(|z| z.depth == d.depth && z.evi == d.evi && seq_(&z.s, &d.s)) { continue; } nx.extend(step(m, &d.s, d.depth)); res.push(d); if res.len() > 250 || nx.len() > 400 { return None; } }
        cur = nx;
    }
    Some(res)
}
fn w(g: &[E]) -> f64 { let l = g.last().unwrap(); l.acc + l.des }
/// each property answers for its own operations; a history that another one broke is given up
macro_rules! ck { ($c:ident, $pr:ident, $own:expr, $l:lifetime, $nt:expr, $r:expr, $f:expr) => { let r: Result<(), String> = $r; if $pr == $own { $c.check($nt, r, $f); } else if r.is_err() { break $l; } } }
fn main() {
    drive(|c, pr| {
        let mem2 = createMem2(20, 20);
        let mem2 = mem2.read();
        let mut rng = rand::thread_rng();
        let mut k = 0u64;
        let sent0 = Arc::new(mk(&mut c.rng, &name("a"), 2, &[1]));
        while c.time() || k < 60 {
            k += 1;
            if pr == "C31" {
                // binary search for the last goal whose share starts at or before the value
                for _ in 0..10 {
                    let n = 1 + c.rng.below(12); let mut acc = vec![0.0f64]; for _ in 1..n { let l = *acc.last().unwrap(); acc.push(l + if c.rng.chance(0.2) { 0.0 } else { *c.rng.pick(&[1.0, 0.5, 0.25]) }); }
                    let es: Vec<A> = acc.iter().map(|a| Arc::new(RwLock::new(Entry { sentence: Arc::clone(&sent0), evidence: None, createTime: 0, depth: 0, desirability: 1.0, utility: 1.0, accDesirability: *a }))).collect();
                    let val = match c.rng.below(4) { 0 => *c.rng.pick(&acc), 1 => -0.5, _ => c.rng.unit() * (acc[n - 1] + 1.0) };
                    let want = (0..n).rev().find(|i| acc[*i] <= val).unwrap_or(0);
                    let r = guard(|| { let g = binSearch(&es, val); es.iter().position(|x| Arc::ptr_eq(x, &g)) });
                    c.check(n > 1, r.and_then(|g| if g == Some(want) { Ok(()) } else { Err(format!("goal number {:?} want {}", g, want)) }), || format!("shares of the goals start at {:?}, value {:?}", acc, val));
                }
            }
            let (nmax, ndep) = (*c.rng.pick(&[0i64, 1, 2, 3, 5, 8, 20]), *c.rng.pick(&[1i64, 1, 2, 3, 8]));
            let gs = guard(|| makeGoalSystem(nmax, ndep)).unwrap_or_else(|e| c.fail(&e, "makeGoalSystem"));
            { let g = snap(&gs); let r = inv(&g).and_then(|_| if all(&g).is_empty() && g.ix.is_empty() && g.nmax == nmax && g.ndep == ndep { Ok(()) } else { Err("not empty".into()) }); if pr == "C29" { c.check(true, r, || format!("makeGoalSystem({}, {})", nmax, ndep)); } else if r.is_err() { continue; } }
            let gs = Arc::new(RwLock::new(gs));
            let rounds = *c.rng.pick(&[0i64, 1, 2, 4, 15]); gs.write().cfg__subworkingCycle_rounds = rounds;
            let sat = c.rng.chance(0.8); gs.write().cfg__enGoalSatisfaction = sat;
            gs.write().cfg__dbg_enAddEntry = c.rng.chance(0.5);
            let pool: Vec<V> = (0..2 + c.rng.below(6)).map(|_| gterm(&mut c.rng)).collect();
            // what the system has learned
            let mut pm = NarMem::make();
            if pr == "C30" || c.rng.chance(0.5) { let many = c.rng.chance(0.1); for i in 0..if many { 40 } else { c.rng.below(9) } {
                let pred = if many { pool[0].clone() } else if c.rng.chance(0.8) { c.rng.pick(&pool).clone() } else { gterm(&mut c.rng) };
                let mut cond = if c.rng.chance(0.3) { c.rng.pick(&pool).clone() } else { gterm(&mut c.rng) }; if cond.tag == 2 && cond.kids.is_empty() { cond = name("a"); }
                let ids: Vec<i64> = if c.rng.chance(0.8) { vec![500 + i as i64] } else { vec![1 + c.rng.below(3) as i64, 500 + i as i64] };
                let cp = if c.rng.chance(0.9) { 2 } else { 3 }; let b = mk(&mut c.rng, &stmt(cp, cond, pred), 0, &ids);
                NarMem::storeInConcepts(&mut pm, &b, if many { 60 } else { 20 }, 0);
            } }
            let (mut now, mut fresh) = (0i64, 1000i64);
            let mut hist: Vec<String> = vec![format!("goal system of at most {} goals, {} depths, satisfaction {}, rounds {}", nmax, ndep, sat, rounds)];
            'h: for _ in 0..1 + c.rng.below(if k % 7 == 0 { 40 } else { 12 }) {
                now += c.rng.below(30) as i64;
                let before = snap(&gs.read());
                let es = all(&before);
                let st = shows(&es);
                let x = if c.rng.chance(0.85) { c.rng.pick(&pool).clone() } else { gterm(&mut c.rng) };
                let tx = t(&x);
                let own = match pr { "C27" => 6, "C28" => 7 + c.rng.below(3), "C31" => 10, "C30" => 11, _ => 0 };
                match if c.rng.chance(0.3) { own } else { c.rng.below(12) } {
                    0..=5 => {
                        let dep = match c.rng.below(3) { 0 => 0, 1 => c.rng.below(3) as i64, _ => c.rng.below(12) as i64 };
                        let i = if c.rng.chance(0.3) && !es.is_empty() { c.rng.pick(&es).s.ids.clone() } else { idl(&mut c.rng, &mut fresh) };
                        let s = Arc::new(goal(&mut c.rng, &x, &i)); let b = sv(&s);
                        let evi = if c.rng.chance(0.3) { Some(Arc::new(RwLock::new(mk(&mut c.rng, &name("e"), 0, &[7])))) } else { None }; let pev = pe(&evi);
                        hist.push(format!("add {}! ids={:?} depth {} at {}", show(&x), b.ids, dep, now));
                        let twin = es.iter().any(|e| e.s.t == b.t && e.s.ids == b.ids);
                        let r = guard(|| addEntry(&gs, &mem2, now, Arc::clone(&s), evi, dep));
                        let after = snap(&gs.read());
                        let r = r.and_then(|_| inv(&after)).and_then(|_| {
                            if twin { return unchanged(&before, &after).map_err(|e| format!("the goal is already there: {}", e)); }
                            let new: Vec<E> = all(&after).into_iter().filter(|e| !es.iter().any(|z| z.p == e.p)).collect();
                            if new.len() != 1 { return Err(format!("{} new goals want 1", new.len())); }
                            let e = &new[0];
                            if e.s != b || e.evi != pev || e.create != now || e.depth != dep || e.des != 1.0 || e.util != 1.0 { return Err(format!("stored as {} created {} evidence kept: {}", e.show(), e.create, e.evi == pev)); }
                            for z in &es { match all(&after).iter().find(|y| y.p == z.p) { None => return Err(format!("goal {} is gone", z.show())), Some(y) => if !same(z, y) || z.acc != y.acc { return Err(format!("goal {} became {}", z.show(), y.show())); } } }
                            for bt in &after.bt { for q in &bt.1 { if let Some(i) = q.1.iter().position(|z| z.p == e.p) { if i > 0 { let l = &q.1[i - 1]; let wa = l.acc + l.des.max(0.0); if !close(wa, e.acc) { return Err(format!("accumulated desirability {:?} want {:?}", e.acc, wa)); } } } } }
                            Ok(())
                        });
                        ck!(c, pr, "C29", 'h, twin || dep >= ndep || isop(&x), r, || format!("history:\n  {}\ngoals before the last step: {}", hist.join("\n  "), st));
                    }
                    6 => {
                        let now = if c.rng.chance(0.2) { now - c.rng.below(300) as i64 } else { now };
                        hist.push(format!("limit at {}", now));
                        let r = guard(|| limitMemory(&gs, &mem2, now));
                        let after = snap(&gs.read()); let ea = all(&after);
                        let r = r.and_then(|_| inv(&after)).and_then(|_| {
                            if ea.len() as i64 != (es.len() as i64).min(nmax) { return Err(format!("{} goals kept of {} with a limit of {}", ea.len(), es.len(), nmax)); }
                            for e in &ea { match es.iter().find(|z| z.p == e.p) { None => return Err(format!("goal {} is new", e.show())), Some(z) => { if !same(z, e) { return Err(format!("goal {} became {}", z.show(), e.show())); } let u = util(z, now); if !close(u, e.util) { return Err(format!("utility of {} is {:?} want {:?}", e.show(), e.util, u)); } } } }
                            let lo = ea.iter().map(|e| util(e, now)).fold(f64::INFINITY, f64::min);
                            for z in es.iter().filter(|z| !ea.iter().any(|e| e.p == z.p)) { let u = util(z, now); if u > lo && !close(u, lo) { return Err(format!("forgot {} of utility {:?} but kept one of utility {:?}", z.show(), u, lo)); } }
                            for bt in &after.bt { for q in &bt.1 { let mut a = 0.0; for e in &q.1 { if !close(a, e.acc) { return Err(format!("accumulated desirability in group {}: {:?}", show(&q.0), q.1.iter().map(|z| z.acc).collect::<Vec<_>>())); } a += e.des.max(0.0); } } }
                            Ok(())
                        });
                        ck!(c, pr, "C27", 'h, es.len() as i64 > nmax, r, || format!("history:\n  {}\ngoals before the last step: {}", hist.join("\n  "), st));
                    }
                    7 => {
                        hist.push(format!("event {}", show(&x)));
                        let r = guard(|| event_occurred(&mut gs.write(), &tx));
                        let after = snap(&gs.read()); let ea = all(&after);
                        let r = r.and_then(|_| inv(&after)).and_then(|_| {
                            if ea.len() != es.len() { return Err(format!("{} goals want {}", ea.len(), es.len())); }
                            for z in &es { let mut wz = z.clone(); if sat && z.s.t == x { wz.des = 0.0; } match ea.iter().find(|e| e.p == z.p) { Some(e) if same(&wz, e) && e.acc == z.acc && e.util == z.util => {} o => return Err(format!("goal {} became {:?}", z.show(), o.map(|e| e.show()))) } }
                            Ok(())
                        });
                        ck!(c, pr, "C28", 'h, es.iter().any(|z| z.s.t == x), r, || format!("history:\n  {}\ngoals before the last step: {}", hist.join("\n  "), st));
                        let g = gs.read(); for a in retEntries(&g) { let e = ev(&a); let r = guard(|| is_desired(&a.read())).and_then(|d| if d == (e.des > 0.0001) { Ok(()) } else { Err(format!("desired: {}", d)) }); ck!(c, pr, "C28", 'h, true, r, || e.show()); }
                    }
                    8 => {
                        let r = guard(|| query(&gs.read(), &tx).map(|a| p(&a)));
                        let hit = es.iter().any(|z| z.s.t == x);
                        let r = r.and_then(|g| match g { None => if hit { Err("no goal found".into()) } else { Ok(()) }, Some(q) => if es.iter().any(|z| z.p == q && z.s.t == x) { Ok(()) } else { Err("found something else".to_string()) } }).and_then(|_| unchanged(&before, &snap(&gs.read())));
                        ck!(c, pr, "C28", 'h, hit, r, || format!("goal for {} of {}", show(&x), st));
                    }
                    9 => {
                        // decision making: what a sequence goal asks for, possibly with its variables filled in
                        let mut y = x.clone();
                        if let Some(e) = es.iter().filter(|e| e.s.t.tag == 2 && !e.s.t.kids.is_empty()).nth(c.rng.below(3)) { if c.rng.chance(0.8) { let n = e.s.t.kids.len(); y = subgoal(&e.s.t.kids[..n - 1]); let mut m = M::new(); for z in subs(&y) { if isvar(&z) { m.insert(z, name(*c.rng.pick(&["a", "b"]))); } } y = app(&y, &m); if c.rng.chance(0.2) { y = mutate(&mut c.rng, &y); } } }
                        let cand: Vec<(P, f64, V)> = es.iter().filter_map(|e| { let tt = &e.s.t; if tt.tag != 2 || tt.kids.is_empty() { return None; } let mut m = M::new(); if mat(&subgoal(&tt.kids[..tt.kids.len() - 1]), &y, &mut m) { Some((e.p, e.s.exp(), app(tt, &m))) } else { None } }).filter(|q| q.1 > 0.0).collect();
                        let best = cand.iter().map(|q| q.1).fold(0.0, f64::max);
                        let ty = t(&y);
                        let r = guard(|| { let (e, o) = selHighestExpGoalByState(&gs.read(), &ty); (e, o.map(|(a, u)| (p(&a), v(&u)))) });
                        let r = r.and_then(|(e, o)| match o {
                            None => if cand.is_empty() && e == 0.0 { Ok(()) } else if cand.iter().all(|q| q.1 < 1e-12) { Ok(()) } else { Err(format!("no goal (expectation {:?}) but {} apply", e, cand.len())) },
                            Some((q, u)) => match cand.iter().find(|z| z.0 == q) { None => Err("a goal which doesn't apply".into()), Some(z) => if !close(e, best) || !close(z.1, best) { Err(format!("expectation {:?} of a goal with {:?}, the best has {:?}", e, z.1, best)) } else if z.2 != u { Err(format!("unified to {} want {}", show(&u), show(&z.2))) } else { Ok(()) } },
                        }).and_then(|_| unchanged(&before, &snap(&gs.read())));
                        ck!(c, pr, "C28", 'h, !cand.is_empty(), r, || format!("best goal for the state {} of {}", show(&y), st));
                    }
                    10 => {
                        let n = if pr == "C31" && es.len() < 8 && c.rng.chance(0.2) { 3000 } else { 20 };
                        let ne: Vec<usize> = (0..before.bt.len()).filter(|i| !before.bt[*i].1.is_empty()).collect();
                        // chance of each goal; the share of a goal within its group reaches to where the next one starts
                        let mut pb: BTreeMap<P, f64> = BTreeMap::new(); let mut pnone = if ne.is_empty() { 1.0 } else { 0.0 };
                        for i in &ne { let q = &before.bt[*i].1; let tot: f64 = q.iter().map(|z| w(&z.1)).sum(); if tot <= 0.0 { pnone += 1.0 / ne.len() as f64; continue; } for z in q { for (j, e) in z.1.iter().enumerate() { let hi = if j + 1 < z.1.len() { z.1[j + 1].acc } else { w(&z.1) }; pb.insert(e.p, (hi - e.acc) / tot / ne.len() as f64); } } }
                        let mut got: BTreeMap<P, f64> = BTreeMap::new(); let mut bad: Result<(), String> = Ok(()); let mut gn = 0.0;
                        for _ in 0..n {
                            match guard(|| sample(&gs.read(), &mut rng)) {
                                Err(e) => { bad = Err(e); break; }
                                Ok(None) => { gn += 1.0; if pnone == 0.0 { bad = Err("no goal sampled".into()); break; } }
                                Ok(Some((s, d))) => { let q = Arc::as_ptr(&s) as *const (); let e = retEntries(&gs.read()).into_iter().find(|a| Arc::as_ptr(&a.read().sentence) as *const () == q && a.read().depth == d); match e.map(|a| p(&a)) { None => { bad = Err(format!("sampled {} of depth {} which is no goal of the system", show(&v(&s.term)), d)); break; } Some(q) => { *got.entry(q).or_insert(0.0) += 1.0; if pb.get(&q).map(|z| *z <= 0.0).unwrap_or(true) { bad = Err(format!("sampled {} of depth {} which has no share", show(&v(&s.term)), d)); break; } } } }
                            }
                        }
                        let nf = n as f64;
                        let tol = |q: f64| 8.0 * (nf * q * (1.0 - q)).sqrt() + 30.0;
                        let r = bad.and_then(|_| { for e in &es { if let Some(q) = pb.get(&e.p) { let g = got.get(&e.p).cloned().unwrap_or(0.0); if (g - nf * q).abs() > tol(*q) { return Err(format!("{} sampled {} times of {} but its share is {:?}", e.show(), g, n, q)); } } } if (gn - nf * pnone).abs() > tol(pnone.min(1.0)) { return Err(format!("nothing sampled {} times of {}", gn, n)); } Ok(()) }).and_then(|_| unchanged(&before, &snap(&gs.read())));
                        ck!(c, pr, "C31", 'h, pb.len() > 1, r, || format!("sampling from {}", st));
                    }
                    _ => {
                        hist.push(format!("derive at {}", now));
                        let r = guard(|| sampleAndInference(&gs, &mem2, now, &pm, &mut rng));
                        let after = snap(&gs.read()); let ea = all(&after);
                        let mut nt = false;
                        let r = r.and_then(|_| inv(&after)).and_then(|_| {
                            for z in &es { match ea.iter().find(|e| e.p == z.p) { Some(e) if same(z, e) && e.acc == z.acc => {} o => return Err(format!("goal {} became {:?}", z.show(), o.map(|e| e.show()))) } }
                            let new: Vec<&E> = ea.iter().filter(|e| !es.iter().any(|z| z.p == e.p)).collect();
                            nt = !new.is_empty();
                            if new.is_empty() && !before.bt.iter().any(|b| b.1.iter().any(|q| w(&q.1) > 0.0)) { return Ok(()); }
                            if new.is_empty() && before.bt.iter().any(|b| !b.1.is_empty() && b.1.iter().map(|q| w(&q.1)).sum::<f64>() <= 0.0) { return Ok(()); }
                            let mut why = String::new();
                            for b in &before.bt { for q in &b.1 { for e in &q.1 {
                                let d = step(&pm, &e.s, e.depth);
                                if let Some(m) = d.iter().find(|d| !ea.iter().any(|z| z.s.t == d.s.t && z.s.ids == d.s.ids)) { why += &format!("\n  not from {}: {}! ids={:?} is missing", e.show(), show(&m.s.t), m.s.ids); continue; }
                                let cl = match closure(&pm, &e.s, e.depth, rounds) { Some(q) => q, None => return Ok(()) };
                                match new.iter().find(|z| !cl.iter().any(|d| isd(z, d, now))) { Some(z) => why += &format!("\n  not from {}: {} doesn't follow from it", e.show(), z.show()), None => return Ok(()) }
                            } } }
                            Err(format!("the new goals [{}] don't come from any goal:{}", new.iter().map(|e| e.show()).collect::<Vec<_>>().join("; "), why))
                        });
                        ck!(c, pr, "C30", 'h, nt, r, || format!("history:\n  {}\ngoals before the last step: {}\nlearned: {}", hist.join("\n  "), st, replay::sn::showm(&replay::sn::snap(&pm))));
                    }
                }
            }
        }
    });
}
