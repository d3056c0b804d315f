#![allow(non_snake_case)]
//! the second half of a procedural step, judged by everything that may be decided
use replay::*;
use replay::sn::*;
use nar20_1::NarProc::*;
use nar20_1::NarGoalSystem::*;
use nar20_1::NarMem;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::NarWorkingCycle::{createMem2, Mem2};
use nar20_1::Term::Term;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;
use parking_lot::RwLock;
type A = Arc<RwLock<Entry>>;
type C = Arc<RwLock<Sentence>>;
type P = usize;
fn p<T>(a: &Arc<T>) -> P { Arc::as_ptr(a) as *const () as usize }
struct TOp { name: String, bab: bool, log: Rc<RefCell<Vec<(String, Vec<V>)>>> }
impl Op for TOp {
    fn retName(&self) -> String { self.name.clone() }
    fn call(&self, _n: &mut ProcNar, _m: &Option<Arc<RwLock<Mem2>>>, a: &Vec<Term>) { self.log.borrow_mut().push((self.name.clone(), a.iter().map(v).collect())); }
    fn isBabbleable(&self) -> bool { self.bab }
    fn ret_evi_cnt(&self) -> i64 { 1 }
}
fn call(n: &str, a: Option<&str>) -> V { let mut k = vec![node(4, vec![name("SELF")])]; if let Some(a) = a { k.push(name(a)); } stmt(1, node(4, vec![node(9, k)]), name(n)) }
fn isop(x: &V) -> bool { x.tag == 0 && x.num == 1 && x.kids[1].tag == 1 && x.kids[0].tag == 4 && x.kids[0].kids.len() == 1 && x.kids[0].kids[0].tag == 9 && !x.kids[0].kids[0].kids.is_empty() }
fn isvar(x: &V) -> bool { [5, 6, 7].contains(&x.tag) }
type M = BTreeMap<V, V>;
fn mat(x: &V, y: &V, m: &mut M) -> bool {
    if isvar(x) { if isvar(y) { return false; } match m.get(x) { Some(z) => z == y, None => { m.insert(x.clone(), y.clone()); true } } }
    else { x.tag == y.tag && x.num == y.num && x.name == y.name && x.kids.len() == y.kids.len() && x.kids.iter().zip(&y.kids).all(|(a, b)| mat(a, b, m)) }
}
fn app(x: &V, m: &M) -> V { if isvar(x) { m.get(x).cloned().unwrap_or(x.clone()) } else { let mut y = x.clone(); for k in y.kids.iter_mut() { *k = app(k, m); } y } }
fn subgoal(k: &[V]) -> V { if k.len() == 1 { k[0].clone() } else { node(2, k.to_vec()) } }
#[derive(Clone)]
struct E { a: A, s: S, evi: Option<C>, create: i64, depth: i64, des: f32 }
fn ev(a: &A) -> E { let x = a.read(); E { a: Arc::clone(a), s: sv(&x.sentence), evi: x.evidence.clone(), create: x.createTime, depth: x.depth, des: x.desirability } }
fn same(x: &E, y: &E) -> bool { x.s == y.s && x.evi.as_ref().map(p) == y.evi.as_ref().map(p) && x.create == y.create && x.depth == y.depth && x.des == y.des }
impl E { fn show(&self) -> String { format!("{}! ids={:?} evi={:?} des={:?} because of {}", show(&self.s.t), self.s.ids, self.s.e, self.des, self.evi.as_ref().map(|c| sv(&c.read()).show()).unwrap_or("nothing".into())) } }
fn goals(g: &GoalSystem) -> (Vec<E>, Vec<E>) { let mut r: Vec<E> = vec![]; for b in &g.batchesByDepth { for q in &b.read().groups { r.extend(q.entries.iter().map(ev)); } } (r, g.activeSet.set.iter().map(ev).collect()) }
fn beliefs(m: &NarMem::Mem, x: &V) -> Vec<C> { let mut r: Vec<C> = vec![]; let mut s = BTreeSet::new(); for q in subs(x) { if let Some(q) = m.concepts.get(&t(&q)) { for a in q.payload.beliefsByExp.iter().chain(q.payload.beliefsByUsage.iter()) { if s.insert(p(a)) { r.push(Arc::clone(a)); } } } } r }
fn ante(m: &NarMem::Mem, x: &V) -> Vec<C> { beliefs(m, x).into_iter().filter(|b| { let b = v(&b.read().term); b.tag == 0 && b.num == 2 && b.kids[0].tag == 2 && b.kids[0].kids[0] == *x }).collect() }
/// something to do, what is expected from it, why
#[derive(Clone)]
struct K { u: V, e: f64, y: Option<C> }
fn back(goal: &S, ch: &[S]) -> f64 { let mut tv = goal.tv(); for b in ch.iter().rev() { let w = o::dedgoal(&tv, &b.tv()); tv = nar20_1::Tv::Tv { f: w.0, c: w.1 }; } o::exp(&tv) }
/// every way in which planning ahead may end
fn plans(m: &NarMem::Mem, es: &[E], last: &V) -> Vec<Option<K>> {
    let mut r = vec![]; let a0 = ante(m, last);
    if a0.is_empty() { return vec![None]; }
    for c in &a0 {
        let s = sv(&c.read()); let x = s.t.kids[1].clone();
        let mut hit = false;
        for g in es.iter().filter(|g| g.s.t == x) { hit = true; r.push(Some(K { u: s.t.kids[0].clone(), e: back(&g.s, &[s.clone()]), y: Some(Arc::clone(c)) })); }
        if hit { continue; }
        let a1 = ante(m, &x);
        if a1.is_empty() { r.push(None); }
        for d in &a1 {
            let s2 = sv(&d.read()); let mut hit = false;
            for g in es.iter().filter(|g| g.s.t == s2.t.kids[1]) { hit = true; r.push(Some(K { u: s.t.kids[0].clone(), e: back(&g.s, &[s.clone(), s2.clone()]), y: Some(Arc::clone(c)) })); }
            if !hit { r.push(None); }
        }
    }
    r
}
struct O { new: Option<(V, Vec<i64>, f64, f64, C)>, done: Option<P>, donenew: bool, pick: Option<V>, why: Option<C> }
type Tr = Vec<(V, i64, i64)>;
fn main() {
    drive(|c, _p| {
        let m2 = Some(createMem2(20, 20));
        let mut k = 0u64; let mut fresh = 1000i64;
        while c.time() || k < 1500 {
            k += 1;
            let mut nar = narInit();
            nar.storeWorkersTx.clear(); for w in nar.storeWorkers.drain(..) { let _ = w.join(); }
            let derive = c.rng.chance(0.06);
            nar.cfg__resourceGoalDeriverPrio = if derive { 3.0 } else { 0.0 }; nar.cfg__resourceExpectedTime = if derive { 0.0003 } else { 0.01 };
            nar.cfgVerbosity = 0;
            nar.cfgEnBabbling = c.rng.chance(0.5); nar.cfg__enAnticipation = c.rng.chance(0.8);
            nar.cfgPerceptWindow = c.rng.below(5) as i64; nar.cfgDescnThreshold = *c.rng.pick(&[0.2, 0.503, 0.503, 0.62, 0.8]);
            nar.t = match c.rng.below(6) { 0 => 1 + 13 * c.rng.below(60) as i64, 1 => 1 + 101 * c.rng.below(9) as i64, _ => c.rng.below(2000) as i64 };
            nar.cfg__nConcepts = *c.rng.pick(&[1, 4, 8, 20000]);
            let log = Rc::new(RefCell::new(vec![]));
            let mut ops: Vec<(String, bool)> = vec![];
            for _ in 0..c.rng.below(4) { ops.push((c.rng.pick(&["^left", "^right", "^pick"]).to_string(), c.rng.chance(0.5))); }
            for o in &ops { nar.ops.push(Rc::new(Box::new(TOp { name: o.0.clone(), bab: o.1, log: Rc::clone(&log) }))); }
            let nmax = *c.rng.pick(&[1i64, 3, 6, 20, 2000]); { let mut g = makeGoalSystem(nmax, *c.rng.pick(&[1i64, 2, 4])); g.cfg__subworkingCycle_rounds = 1; nar.goalSystem = Arc::new(RwLock::new(g)); }
            let w = |r: &mut Rng| match r.below(8) { 0 => stmt(1, name("a"), name("b")), 1 => stmt(1, name("b"), name("a")), _ => name(*r.pick(&["a", "b", "c", "d"])) };
            let op = |r: &mut Rng| call(*r.pick(&["^left", "^left", "^right", "^pick", "^gone"]), if r.chance(0.2) { Some("z") } else { None });
            let vr = |r: &mut Rng| if r.chance(0.15) { stmt(1, leaf(7, "x"), name("b")) } else { w(r) };
            let seq = |r: &mut Rng| match r.below(10) { 0 => node(2, vec![w(r)]), 1 => node(2, vec![w(r), w(r)]), 2 => node(2, vec![vr(r), op(r), op(r)]), 3 => node(2, vec![w(r), w(r), op(r)]), 4 => node(2, vec![op(r)]), _ => node(2, vec![vr(r), op(r)]) };
            let ntab = nar.expIntervalsTable.len();
            let cont = |r: &mut Rng, x: V, fresh: &mut i64| { *fresh += 1; let b = mk(r, &x, 0, &[*fresh]); Sentence { expDt: if r.chance(0.2) { None } else { Some(r.below(ntab.min(9)) as i64) }, ..b } };
            // what was learned
            let mut cs: Vec<C> = vec![];
            for _ in 0..c.rng.below(6) {
                let x = stmt(if c.rng.chance(0.95) { 2 } else { 3 }, if c.rng.chance(0.9) { seq(&mut c.rng) } else { w(&mut c.rng) }, w(&mut c.rng));
                let b = cont(&mut c.rng, x.clone(), &mut fresh);
                NarMem::storeInConcepts(&mut nar.evidenceMem.write(), &b, 20, 0);
            }
            for q in nar.evidenceMem.read().concepts.values() { for a in &q.payload.beliefsByExp { cs.push(Arc::clone(a)); } }
            // what is wanted
            let mut hist = vec![];
            for _ in 0..c.rng.below(6) {
                let x = match c.rng.below(10) { 0..=3 => op(&mut c.rng), 4..=6 => seq(&mut c.rng), _ => w(&mut c.rng) };
                let evi = if c.rng.chance(0.25) { None } else if c.rng.chance(0.5) && !cs.is_empty() { Some(Arc::clone(c.rng.pick(&cs))) } else { let y = stmt(2, seq(&mut c.rng), w(&mut c.rng)); Some(Arc::new(RwLock::new(cont(&mut c.rng, y, &mut fresh)))) };
                let ids = if c.rng.chance(0.3) && !cs.is_empty() { c.rng.pick(&cs).read().stamp.ids.clone() } else { fresh += 1; vec![fresh] };
                let s = Sentence { t: None, expDt: None, ..mk(&mut c.rng, &x, 2, &ids) };
                let at = (nar.t - c.rng.below(30) as i64).max(0);
                addEntry(&nar.goalSystem, &m2.as_ref().unwrap().read(), at, Arc::new(s), evi, c.rng.below(3) as i64);
            }
            let (b0, a0) = { let g = nar.goalSystem.read(); goals(&g) };
            if !derive { for e in b0.iter().chain(a0.iter()) { if c.rng.chance(0.3) { e.a.write().desirability = *c.rng.pick(&[0.0, 0.00005, 0.0002, 0.4]); } } }
            // what happened
            let mut tr: Tr = vec![]; let len = match c.rng.below(5) { 0 => 17 + c.rng.below(6), _ => c.rng.below(6) };
            for i in 0..len { tr.push((if c.rng.chance(0.15) { op(&mut c.rng) } else { w(&mut c.rng) }, 10 + i as i64, i as i64)); }
            for e in &tr { nar.trace.event_happened(Rc::new(SimpleSentence { name: t(&e.0), evi: e.1, occT: e.2 })); }
            let ents: Vec<E> = { let g = nar.goalSystem.read(); let (b, a) = goals(&g); b.into_iter().chain(a).collect() };
            let act: Vec<E> = { let g = nar.goalSystem.read(); goals(&g).1 };
            // what was answered
            let mut qs: Vec<(E, S)> = vec![];
            if !ents.is_empty() && c.rng.chance(0.3) { for _ in 0..1 + c.rng.below(2) { let e = c.rng.pick(&ents).clone(); let x = w(&mut c.rng); let a = mk(&mut c.rng, &x, 0, &[5]); qs.push((e.clone(), sv(&a))); nar.goalSystem.write().queuedProcQaBridgeAnswers.push(QueuedProcQaBridgeAnswer { entry: Arc::clone(&e.a), answer: a }); } }
            for _ in 0..c.rng.below(3) { if let Some(q) = cs.first() { nar.anticipatedEvents.push(AnticipationEvent { evi: Arc::clone(q), deadline: c.rng.below(50) as i64 }); } }
            let an: Vec<(P, i64)> = nar.anticipatedEvents.iter().map(|a| (p(&a.evi), a.deadline)).collect();
            let mem = snap(&nar.evidenceMem.read());
            let (t0, thr, win) = (nar.t, nar.cfgDescnThreshold, nar.cfgPerceptWindow as usize);
            // ---- what may be decided
            let mut np: Vec<K> = vec![];
            for (i, s) in tr.iter().rev().enumerate() { if i >= win { break; } for e in &ents { let tt = &e.s.t; if tt.tag != 2 || tt.kids.is_empty() { continue; } let mut m = M::new(); if mat(&subgoal(&tt.kids[..tt.kids.len() - 1]), &s.0, &mut m) && e.s.exp() > 0.0 { np.push(K { u: app(tt, &m), e: e.s.exp(), y: e.evi.clone() }); } } }
            for (e, a) in &qs { np.push(K { u: e.s.t.clone(), e: a.exp(), y: e.evi.clone() }); }
            let pl = if tr.is_empty() { vec![None] } else { plans(&nar.evidenceMem.read(), &ents, &tr.last().unwrap().0) };
            let mx = np.iter().map(|q| q.e).fold(f64::NEG_INFINITY, f64::max);
            let mut ch: Vec<Option<K>> = vec![];
            for q in &pl {
                let tops = np.iter().filter(|z| close(z.e, mx)).cloned();
                match q { None => if np.is_empty() { ch.push(None) } else { ch.extend(tops.map(Some)) }, Some(z) => if np.is_empty() || z.e > mx && !close(z.e, mx) { ch.push(Some(z.clone())) } else { if close(z.e, mx) { ch.push(Some(z.clone())); } ch.extend(tops.map(Some)) } }
            }
            if ch.iter().any(|q| q.as_ref().map(|q| close(q.e, thr)).unwrap_or(false)) || ents.iter().any(|e| close(e.s.exp(), thr)) || cs.iter().any(|q| close(sv(&q.read()).exp(), thr)) { continue; }
            let mut outs: Vec<O> = vec![];
            for q in &ch {
                let mut new = None;
                if let Some(q) = q { if let Some(y) = &q.y { if q.e > thr && q.u.tag == 2 && !q.u.kids.is_empty() && isop(q.u.kids.last().unwrap()) { let s = sv(&y.read()); let x = q.u.kids.last().unwrap().clone(); if !ents.iter().any(|e| e.s.t == x && e.s.ids == s.ids) { new = Some((x, s.ids.clone(), s.tv().f, s.tv().c, Arc::clone(y))); } } } }
                // the best of the operations that are wanted
                let mut ws: Vec<(f64, Option<P>, V, Option<C>)> = act.iter().filter(|e| e.des > 0.0001 && e.s.exp() > thr && e.s.exp() > 0.0).map(|e| (e.s.exp(), Some(p(&e.a)), e.s.t.clone(), e.evi.clone())).collect();
                if let Some(n) = &new { let e = o::exp(&nar20_1::Tv::Tv { f: n.2, c: n.3 }); if e > thr && e > 0.0 { ws.push((e, None, n.0.clone(), Some(Arc::clone(&n.4)))); } }
                let b = ws.iter().map(|z| z.0).fold(f64::NEG_INFINITY, f64::max);
                let ties: Vec<_> = ws.iter().filter(|z| close(z.0, b)).cloned().collect();
                if ties.is_empty() { outs.push(O { new, done: None, donenew: false, pick: None, why: None }); continue; }
                // of equal ones the first
                for z in ties.iter().take(if ties.iter().all(|z| z.1.is_some() && z.0 == b) { 1 } else { 99 }) { match &z.3 { None => outs.push(O { new: new.clone(), done: None, donenew: false, pick: None, why: None }), Some(y) => outs.push(O { new: new.clone(), done: z.1, donenew: z.1.is_none(), pick: Some(z.2.clone()), why: Some(Arc::clone(y)) }) } }
            }
            hist.push(format!("time {}, threshold {}, window {}, babbling {}, anticipation {}, ops {:?}, at most {} goals and {} concepts, derivation {}", t0, thr, win, nar.cfgEnBabbling, nar.cfg__enAnticipation, ops, nmax, nar.cfg__nConcepts, derive));
            hist.push(format!("goals: {}", ents.iter().map(|e| e.show()).collect::<Vec<_>>().join("; ")));
            hist.push(format!("answers: {}", qs.iter().map(|e| format!("{} answers {}", e.1.show(), show(&e.0.s.t))).collect::<Vec<_>>().join("; ")));
            hist.push(format!("trace: {}", tr.iter().map(|e| show(&e.0)).collect::<Vec<_>>().join("; ")));
            hist.push(format!("learned: {}", cs.iter().map(|e| sv(&e.read()).show()).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join("; ")));
            let csb: Vec<S> = cs.iter().map(|q| sv(&q.read())).collect();
            // ---- the step
            let g = guard(|| narStep1(&mut nar, &m2));
            let r = g.and_then(|_| {
                if nar.t != t0 + 1 { return Err(format!("time {} after {}", nar.t, t0)); }
                if !derive && !nar.goalSystem.read().queuedProcQaBridgeAnswers.is_empty() { return Err("answers are still queued".into()); }
                for (q, b) in cs.iter().zip(&csb) { let z = sv(&q.read()); if z != *b { return Err(format!("contingency {} became {}", b.show(), z.show())); } }
                let mem1 = snap(&nar.evidenceMem.read()); let nc = nar.cfg__nConcepts as usize;
                if t0 % 101 == 1 && mem.len() > nc { if mem1.len() != nc { return Err(format!("{} concepts want {}", mem1.len(), nc)); } for (q, z) in &mem1 { if mem.get(q) != Some(z) { return Err(format!("concept {} changed", show(q))); } } }
                else if mem1 != mem { return Err(format!("the memory changed to {}", showm(&mem1))); }
                let (bb, ab) = { let g = nar.goalSystem.read(); goals(&g) }; let after: Vec<E> = bb.into_iter().chain(ab).collect();
                let an1: Vec<(P, i64)> = nar.anticipatedEvents.iter().map(|a| (p(&a.evi), a.deadline)).collect();
                let tr1: Tr = nar.trace.ret_view().iter().map(|e| (v(&e.name), e.evi, e.occT)).collect();
                let lg = log.borrow().clone();
                let mut whys: BTreeSet<String> = BTreeSet::new();
                for o in &outs {
                    let one = || -> Result<(), String> {
                        // what was done
                        let mut zs: Vec<Option<V>> = vec![o.pick.clone()];
                        if o.pick.is_none() && nar.cfgEnBabbling { for q in &ops { if q.1 { zs.push(Some(call(&q.0, None))); } } }
                        let mut ok = false;
                        for z in &zs {
                            let mut wt = tr.clone(); let mut wl = vec![];
                            if let Some(z) = z { if ops.iter().any(|q| q.0 == z.kids[1].name) { wt.push((z.clone(), t0, t0)); wl.push((z.kids[1].name.clone(), z.kids[0].kids[0].kids.clone())); } }
                            if wt.len() > 20 { wt = wt[wt.len() - 20..].to_vec(); }
                            if wt == tr1 && wl == lg { ok = true; }
                        }
                        if !ok { return Err(format!("done {:?} and remembered [{}] want {}", lg, tr1.iter().map(|e| format!("{} (evidence {}, at {})", show(&e.0), e.1, e.2)).collect::<Vec<_>>().join("; "), zs.iter().map(|z| z.as_ref().map(show).unwrap_or("nothing".into())).collect::<Vec<_>>().join(" or "))); }
                        // what is anticipated
                        let mut wa = an.clone();
                        if let Some(y) = &o.why { if nar.cfg__enAnticipation { wa.push((p(y), t0 + nar.expIntervalsTable[y.read().expDt.unwrap_or(0) as usize])); } }
                        if wa != an1 { return Err(format!("anticipated with deadlines {:?} want {:?}", an1.iter().map(|q| q.1).collect::<Vec<_>>(), wa.iter().map(|q| q.1).collect::<Vec<_>>())); }
                        // what is wanted
                        let lim = t0 % 13 == 1;
                        for e in &ents {
                            let now = ev(&e.a); let d = o.done == Some(p(&e.a));
                            let mut we = e.clone(); if d { we.des = 0.0; }
                            if !same(&we, &now) { return Err(format!("goal {} became {}", e.show(), now.show())); }
                            let here = after.iter().filter(|z| Arc::ptr_eq(&z.a, &e.a)).count();
                            if d && here != 0 { return Err(format!("goal {} was pursued but is still active", e.show())); }
                            if !d && !lim && here != 1 { return Err(format!("goal {} is there {} times", e.show(), here)); }
                        }
                        let new: Vec<&E> = after.iter().filter(|z| !ents.iter().any(|e| Arc::ptr_eq(&z.a, &e.a))).collect();
                        let isn = |z: &E| o.new.as_ref().map(|n| !o.donenew && z.s.t == n.0 && z.s.p == 2 && z.s.occ.is_none() && z.s.dt.is_none() && z.s.ids == n.1 && close(z.s.tv().f, n.2) && close(z.s.tv().c, n.3) && z.evi.as_ref().map(p) == Some(p(&n.4)) && z.depth == 0 && z.create == t0 && z.des == 1.0).unwrap_or(false);
                        let nn = new.iter().filter(|z| isn(z)).count();
                        if !derive && new.len() != nn { return Err(format!("new goals [{}]", new.iter().map(|e| e.show()).collect::<Vec<_>>().join("; "))); }
                        let want = if o.new.is_some() && !o.donenew { 1 } else { 0 };
                        if !lim && nn != want && !derive { return Err(format!("{} new goals for the decision want {}", nn, want)); }
                        if lim && !derive { let tot = ents.len() + o.new.is_some() as usize - o.pick.is_some() as usize; if after.len() != tot.min(nmax as usize) { return Err(format!("{} goals want {} of {}", after.len(), tot.min(nmax as usize), tot)); } }
                        Ok(())
                    };
                    match one() { Ok(()) => return Ok(()), Err(e) => { whys.insert(e); } }
                }
                Err(whys.into_iter().collect::<Vec<_>>().join("\n  or: "))
            });
            let nt = outs.iter().any(|q| q.pick.is_some());
            c.check(nt, r, || hist.join("\n  "));
            // every op that allows it can be babbled
            if k % 40 == 0 && c.time() {
                let mut nar = narInit(); nar.storeWorkersTx.clear(); for w in nar.storeWorkers.drain(..) { let _ = w.join(); }
                nar.cfg__resourceGoalDeriverPrio = 0.0; nar.cfgEnBabbling = true;
                let log = Rc::new(RefCell::new(vec![])); let os: Vec<(String, bool)> = (0..1 + c.rng.below(3)).map(|i| (format!("^o{}", i), c.rng.chance(0.7))).collect();
                for o in &os { nar.ops.push(Rc::new(Box::new(TOp { name: o.0.clone(), bab: o.1, log: Rc::clone(&log) }))); }
                let g = guard(|| for _ in 0..900 { narStep1(&mut nar, &m2); });
                let r = g.and_then(|_| { for o in &os { let n = log.borrow().iter().filter(|q| q.0 == o.0).count(); if o.1 && n == 0 { return Err(format!("{} was never babbled in 900 steps", o.0)); } if !o.1 && n > 0 { return Err(format!("{} was babbled although it doesn't allow it", o.0)); } } if log.borrow().len() > 500 { return Err(format!("babbled {} times in 900 steps", log.borrow().len())); } Ok(()) });
                c.check(true, r, || format!("babbling with the ops {:?}", os));
            }
        }
        let _ = newStamp(&vec![1]);
    });
}
