#![allow(non_snake_case)]
use replay::*;
use replay::sn::*;
use nar20_1::NarMem;
use nar20_1::NarSentence::*;
use nar20_1::NarWorkingCycle::*;
use nar20_1::Term::Term;
use std::sync::Arc;
use std::sync::atomic::*;
use std::collections::{HashMap, BTreeMap};
use std::rc::Rc; use std::cell::RefCell;
use parking_lot::RwLock;
type M = BTreeMap<V, V>;
fn isvar(x: &V) -> bool { [5, 6, 7].contains(&x.tag) }
fn mat(x: &V, y: &V, m: &mut M) -> bool {
    if isvar(x) { if isvar(y) { return false; } match m.get(x) { Some(z) => z == y, None => { m.insert(x.clone(), y.clone()); true } } }
    else { x.tag == y.tag && x.num == y.num && x.name == y.name && x.kids.len() == y.kids.len() && x.kids.iter().zip(&y.kids).all(|(a, b)| mat(a, b, m)) }
}
struct H { log: Arc<RwLock<Vec<(V, S)>>> }
impl QHandler for H { fn answer(&mut self, q: &Term, a: &Sentence) { self.log.write().push((v(q), sv(a))); } }
/// usable in revision: proper truth value with confidence below 1
fn fit(s: &Sentence) -> bool { s.evi.is_some() && sv(s).tv().c < 1.0 }
#[derive(Clone, PartialEq, Debug)]
struct K { s: S, credit: f64, qa: f64, mul: f64, id: i64, deriv: i64 }
fn kv(x: &Task) -> K { K { s: sv(&x.sentence), credit: x.credit, qa: x.qaCredit, mul: x.mulCredit, id: x.id, deriv: x.derivTime } }
fn keq(a: &K, b: &K) -> bool { a.s == b.s && close(a.credit, b.credit) && close(a.qa, b.qa) && close(a.mul, b.mul) && a.id == b.id && a.deriv == b.deriv }
fn shared() -> DeclarativeShared { DeclarativeShared { judgementTasks: vec![], judgementTasksByTerm: Arc::new(RwLock::new(HashMap::new())), questionTasks: Arc::new(RwLock::new(vec![])), mem: Arc::new(RwLock::new(NarMem::make())), stampIdCounter: AtomicI64::new(5), taskIdCounter: Arc::new(AtomicI64::new(1000)), cycleCounter: AtomicI64::new(0), procMem: Arc::new(RwLock::new(NarMem::make())) } }
type Ix = BTreeMap<V, Vec<K>>;
fn ix(s: &DeclarativeShared) -> Ix { s.judgementTasksByTerm.read().iter().map(|(k, l)| (v(k), l.iter().map(|x| kv(&x.read())).collect())).collect() }
fn mktask(r: &mut Rng) -> Task { let x = small(r); Task { sentence: mk(r, &x, 0, &[1]), credit: if r.chance(0.2) { 0.0 } else { r.unit() }, qaCredit: if r.chance(0.5) { 0.0 } else { r.unit() }, mulCredit: if r.chance(0.2) { 0.0 } else { r.unit() * 2.0 }, id: r.below(100) as i64, derivTime: r.below(3000) as i64 } }
fn credit(x: &Task, now: i64) -> f64 { (x.qaCredit * 0.2 + x.credit) * (-0.001 * ((now - x.derivTime) as f64)).exp() * x.mulCredit }
/// first index whose cumulated weight reaches the fraction v of the total, else the last
fn picked(w: &[f64], v: f64, r: usize) -> Result<(), String> {
    if r >= w.len() { return Err(format!("selected {} of {}", r, w.len())); }
    let goal = v * w.iter().sum::<f64>();
    // weights and fraction that are small dyadic numbers make every sum and the product exact: then the boundary counts too
    let dy = |x: &f64| x.abs() <= 64.0 && (x * 16.0).fract() == 0.0;
    let eps = if dy(&v) && w.iter().all(dy) { 0.0 } else { 1e-9 * (1.0 + goal.abs()) };
    let over = |a: f64| if eps == 0.0 { a >= goal } else { a >= goal + eps };
    let before: f64 = w[..r].iter().sum(); let with = before + w[r];
    if r > 0 && over(before) { return Err(format!("selected {} although index {} already reaches {}; weights {:?}", r, r - 1, goal, w)); }
    if r > 0 { let mut a = 0.0; for q in 0..r { a += w[q]; if over(a) { return Err(format!("selected {} although index {} already reaches {}; weights {:?}", r, q, goal, w)); } } }
    if r + 1 < w.len() && with < goal - eps { return Err(format!("selected {} although only {} of {} is reached there; weights {:?}", r, with, goal, w)); }
    Ok(())
}
fn argmax(w: &[f64], r: usize, same: &dyn Fn(usize, usize) -> bool) -> Result<(), String> {
    if r >= w.len() { return Err(format!("selected {} of {}", r, w.len())); }
    for q in 0..w.len() {
        if w[q] > w[r] && !close(w[q], w[r]) { return Err(format!("selected {} with credit {} although {} has {}", r, w[r], q, w[q])); }
        if q < r && same(q, r) { return Err(format!("selected {} although {} has the same credit and comes first", r, q)); }
    }
    Ok(())
}
/// the trace output of the crate cannot print compounds without components
fn printable(x: &V) -> bool { ([1, 5, 6, 7].contains(&x.tag) || !x.kids.is_empty()) && !(x.tag == 10 && x.kids.len() == 1) && x.kids.iter().all(printable) }
fn main() {
    drive(|c, p| {
        let mut k = 0u64;
        while c.time() || k < 300 {
            k += 1;
            match p {
                "C20" | "C23" => {
                    let sh = Arc::new(RwLock::new(shared()));
                    let n = *c.rng.pick(&[1usize, 2, 3, 8, 20]);
                    let (mut now, mut fresh) = (0i64, 1000i64);
                    let maxc = *c.rng.pick(&[3i64, 5, 12, 100]);
                    let mut hist: Vec<String> = vec![];
                    for _ in 0..1 + c.rng.below(25) {
                        now += c.rng.below(30) as i64;
                        if c.rng.chance(0.5) { sh.read().cycleCounter.fetch_add(1 + c.rng.below(3) as i64, Ordering::SeqCst); }
                        let x = small(&mut c.rng);
                        if cpx(&x) == 0 { continue; }
                        let pu = if c.rng.chance(0.85) { 0 } else { 1 + c.rng.below(2) as u8 };
                        let i = idl(&mut c.rng, &mut fresh);
                        let s = mk(&mut c.rng, &x, pu, &i);
                        if pu == 0 && !fit(&s) { continue; }
                        let b = sv(&s);
                        let before = { let g = sh.read(); let m = g.mem.read(); snap(&m) };
                        let mut want = before.clone();
                        let rv = sim_rev(&mut want, &b);
                        if p == "C20" && c.rng.chance(0.6) {
                            hist.push(format!("revise with {}", b.show()));
                            let r = guard(|| memReviseBelief(Arc::clone(&sh.read().mem), &s));
                            let got = { let g = sh.read(); let m = g.mem.read(); snap(&m) };
                            let res = r.and_then(|g| { cmp_same(&got, &want)?; let g = g.as_ref().map(sv); if g == rv { Ok(()) } else { Err(format!("concluded {:?} want {:?}", g.map(|q| q.show()), rv.as_ref().map(|q| q.show()))) } });
                            c.check(rv.is_some(), res, || format!("history:\n  {}\nmemory before the last step:\n  {}", hist.join("\n  "), showm(&before)));
                            continue;
                        }
                        if p == "C20" { let r = guard(|| { let g = sh.read(); let mut m = g.mem.write(); NarMem::storeInConcepts(&mut m, &s, n, now) }); hist.push(format!("store {} n={} now={}", b.show(), n, now)); if r.is_err() { break; } continue; }
                        // adding a task
                        let calc = c.rng.chance(0.5); let mul = *c.rng.pick(&[1.0, 0.5, 0.0]);
                        hist.push(format!("add {} calcCredit={} maxComplexity={} nBeliefs={} mul={} now={}", b.show(), calc, maxc, n, mul, now));
                        let (jt0, ix0, q0, tid, cyc, st) = { let g = sh.read(); let q: Vec<(S, f64, f64, bool)> = g.questionTasks.read().iter().map(|q| (sv(&q.sentence), q.bestAnswerExp, q.prio, q.handler.is_some())).collect(); (g.judgementTasks.iter().map(|q| kv(&q.read())).collect::<Vec<K>>(), ix(&g), q, g.taskIdCounter.load(Ordering::SeqCst), g.cycleCounter.load(Ordering::SeqCst), g.stampIdCounter.load(Ordering::SeqCst)) };
                        let r = guard(|| memAddTask(Arc::clone(&sh), &s, calc, maxc, n, mul, now));
                        let (mut jt, mut ixw, mut qw, mut tw) = (jt0.clone(), ix0.clone(), q0.clone(), tid);
                        let accept = cpx(&x) as i64 <= maxc;
                        if accept {
                            let mut l = vec![b.clone()]; if let Some(x) = &rv { l.push(x.clone()); }
                            for y in l { match y.p {
                                0 => { if jt.iter().any(|q| q.s.t == y.t && q.s.ids == y.ids) { break; } let q = K { credit: if calc { 1.0 / cpx(&y.t) as f64 } else { 1.0 }, s: y.clone(), qa: 0.0, mul, id: tw, deriv: cyc }; tw += 1; jt.push(q.clone()); for t in subs(&y.t) { ixw.entry(t).or_insert(vec![]).push(q.clone()); } }
                                1 => qw.push((y.clone(), 0.0, 1.0, false)), _ => {} } }
                            if rv.is_none() { sim_store(&mut want, &b, &subs(&x), n, now); }
                        } else { want = before.clone(); }
                        let res = r.and_then(|_| {
                            let g = sh.read();
                            let got = snap(&g.mem.read());
                            if accept && rv.is_none() && pu == 0 { cmp_store(&before, &got, &want, &b, n, now)?; } else { cmp_same(&got, &want)?; }
                            let j: Vec<K> = g.judgementTasks.iter().map(|q| kv(&q.read())).collect();
                            if j.len() != jt.len() || !j.iter().zip(&jt).all(|(a, b)| keq(a, b)) { return Err(format!("judgement tasks: {} want {}; last {:?} want {:?}", j.len(), jt.len(), j.last(), jt.last())); }
                            let i2 = ix(&g);
                            if i2.len() != ixw.len() { return Err(format!("tasks are filed under {} terms want {}", i2.len(), ixw.len())); }
                            for (q, w) in &ixw { match i2.get(q) { None => return Err(format!("no task is filed under {}", show(q))), Some(x) => if x.len() != w.len() || !x.iter().zip(w).all(|(a, b)| keq(a, b)) { return Err(format!("under {} {} tasks are filed want {}", show(q), x.len(), w.len())); } } }
                            // the filed tasks are the tasks
                            let last = g.judgementTasks.last();
                            if jt.len() > jt0.len() { let tt = t(&jt.last().unwrap().s.t); let f = g.judgementTasksByTerm.read(); if !Arc::ptr_eq(f[&tt].last().unwrap(), last.unwrap()) { return Err("the filed task is another object than the task".into()); } }
                            let q: Vec<(S, f64, f64, bool)> = g.questionTasks.read().iter().map(|q| (sv(&q.sentence), q.bestAnswerExp, q.prio, q.handler.is_some())).collect();
                            if q != qw { return Err(format!("question tasks {:?} want {:?}", q, qw)); }
                            let (t2, c2, s2) = (g.taskIdCounter.load(Ordering::SeqCst), g.cycleCounter.load(Ordering::SeqCst), g.stampIdCounter.load(Ordering::SeqCst));
                            if (t2, c2, s2) != (tw, cyc, st) { return Err(format!("counters (task id, cycle, stamp) {:?} want {:?}", (t2, c2, s2), (tw, cyc, st))); }
                            Ok(())
                        });
                        c.check(pu < 2, res, || format!("history:\n  {}\nmemory before the last step:\n  {}\ntasks before: {:?}", hist.join("\n  "), showm(&before), jt0));
                    }
                    if p == "C23" {
                        let mut tk = mktask(&mut c.rng); let cx = cpx(&v(&tk.sentence.term));
                        if cx > 0 { let w = kv(&tk); let r = guard(|| { divCreditByComplexity(&mut tk); kv(&tk) }); let want = K { credit: w.credit / cx as f64, qa: w.qa / cx as f64, ..w.clone() }; c.check(true, r.and_then(|g| if keq(&g, &want) { Ok(()) } else { Err(format!("became {:?} want {:?}", g, want)) }), || format!("divide credit by complexity: {:?}", w)); }
                    }
                }
                "C21" => {
                    let d = 1 + c.rng.below(3);
                    let x = gen(&mut c.rng, d, 0.3);
                    let mut vv = M::new(); fn vars(x: &V, r: &mut Rng, o: &mut M) { if isvar(x) { if !o.contains_key(x) { let y = gen(r, 1, 0.0); o.insert(x.clone(), y); } } for k in &x.kids { vars(k, r, o); } } vars(&x, &mut c.rng, &mut vv);
                    fn app(x: &V, m: &M) -> V { if isvar(x) { m.get(x).cloned().unwrap_or(x.clone()) } else { let mut y = x.clone(); for k in y.kids.iter_mut() { *k = app(k, m); } y } }
                    if !printable(&x) { continue; }
                    let own = Arc::new(RwLock::new(vec![])); let has = c.rng.chance(0.6);
                    let q = mk(&mut c.rng, &x, 1, &[1]);
                    let best0 = *c.rng.pick(&[0.0, 0.5, 0.7, 0.95]);
                    let prio = c.rng.unit();
                    let mut tk = Task2 { sentence: q, handler: if has { Some(Arc::new(RwLock::new(H { log: Arc::clone(&own) }))) } else { None }, bestAnswerExp: best0, prio };
                    let ng = c.rng.below(4);
                    let logs: Vec<Arc<RwLock<Vec<(V, S)>>>> = (0..ng).map(|_| Arc::new(RwLock::new(vec![]))).collect();
                    let hs: Vec<Arc<RwLock<dyn QHandler>>> = logs.iter().map(|l| Arc::new(RwLock::new(H { log: Arc::clone(l) })) as Arc<RwLock<dyn QHandler>>).collect();
                    let (mut best, mut told): (f64, Vec<(V, S)>) = (best0, vec![]);
                    let mut hist = vec![format!("question {} best={} handler={} observers={}", show(&x), best0, has, ng)];
                    let qs = sv(&tk.sentence);
                    for _ in 0..1 + c.rng.below(6) {
                        let a = match c.rng.below(6) { 0 => { let i = app(&x, &vv); mutate(&mut c.rng, &i) } 1 => gen(&mut c.rng, d, 0.1), _ => app(&x, &vv) };
                        if !printable(&a) { continue; }
                        let pu = if c.rng.chance(0.85) { 0 } else { 1 + c.rng.below(2) as u8 };
                        let s = mk(&mut c.rng, &a, pu, &[2]); let b = sv(&s);
                        let fire = pu == 0 && b.exp() > best && mat(&x, &a, &mut M::new());
                        if pu == 0 && b.exp() != best && close(b.exp(), best) { continue; }
                        hist.push(format!("candidate {}", b.show()));
                        if fire { best = b.exp(); told.push((x.clone(), b.clone())); }
                        let r = guard(|| qaTryAnswer(&mut tk, &s, &hs));
                        let res = r.and_then(|_| {
                            if !close(tk.bestAnswerExp, best) { return Err(format!("best answer expectation {} want {}", tk.bestAnswerExp, best)); }
                            if tk.prio != prio || sv(&tk.sentence) != qs { return Err("the question was changed".into()); }
                            if has && *own.read() != told { return Err(format!("the asker was told {} answers want {}: {:?}", own.read().len(), told.len(), own.read().last())); }
                            for (j, l) in logs.iter().enumerate() { if *l.read() != told { return Err(format!("observer {} was told {} answers want {}: {:?}", j, l.read().len(), told.len(), l.read().last())); } }
                            Ok(())
                        });
                        c.check(fire, res, || hist.join("\n  "));
                    }
                }
                _ => {
                    let mx = if c.rng.chance(0.1) { 40 } else { 6 }; let n = 1 + c.rng.below(mx);
                    let now = 3000 + c.rng.below(500) as i64;
                    let dyad = c.rng.chance(0.3);
                    let v = match c.rng.below(5) { 0 => 0.0, 1 => 1.0, _ => if dyad { c.rng.below(17) as f64 / 16.0 } else { c.rng.unit() } };
                    let mut ts: Vec<Arc<RwLock<Task>>> = (0..n).map(|_| Arc::new(RwLock::new(mktask(&mut c.rng)))).collect();
                    if c.rng.chance(0.3) { let (i, j) = (c.rng.below(n), c.rng.below(n)); ts[j] = Arc::clone(&ts[i]); }
                    if dyad { for x in &ts { let mut g = x.write(); g.derivTime = now; g.qaCredit = 0.0; g.mulCredit = 1.0; g.credit = c.rng.below(9) as f64 / 8.0; } }
                    let ts = ts; let same = |a: usize, b: usize| Arc::ptr_eq(&ts[a], &ts[b]);
                    let w: Vec<f64> = ts.iter().map(|x| credit(&x.read(), now)).collect();
                    for (x, y) in ts.iter().zip(&w) { c.check(true, guard(|| taskCalcCredit(&x.read(), now)).and_then(|g| if close(g, *y) { Ok(()) } else { Err(format!("credit {} want {}", g, y)) }), || format!("task {:?} at {}", kv(&x.read()), now)); }
                    let inp = |w: &Vec<f64>| format!("weights {:?} fraction {}", w, v);
                    c.check(n > 1, guard(|| taskSelByCreditRandom(v, &ts, now)).and_then(|r| picked(&w, v, r)), || inp(&w));
                    c.check(n > 1, guard(|| taskSelByCreditTop(&ts, now)).and_then(|r| argmax(&w, r, &same)), || inp(&w));
                    let rs: Vec<Rc<RefCell<Task>>> = ts.iter().map(|x| { let g = x.read(); Rc::new(RefCell::new(Task { sentence: shallowCopySentence(&g.sentence), credit: g.credit, qaCredit: g.qaCredit, mulCredit: g.mulCredit, id: g.id, derivTime: g.derivTime })) }).collect();
                    c.check(n > 1, guard(|| tasksSelHighestCreditIdx(&rs, now)).and_then(|r| match r { Some(r) => argmax(&w, r, &same), None => Err("nothing selected".into()) }), || inp(&w));
                    c.check(false, guard(|| tasksSelHighestCreditIdx(&vec![], now)).and_then(|r| if r.is_none() { Ok(()) } else { Err("selected from nothing".into()) }), || "no tasks".into());
                    let qs: Vec<Box<Task2>> = (0..n).map(|_| { let x = small(&mut c.rng); Box::new(Task2 { sentence: mk(&mut c.rng, &x, 1, &[1]), handler: None, bestAnswerExp: c.rng.unit(), prio: if c.rng.chance(0.2) { 0.0 } else if dyad { c.rng.below(9) as f64 / 8.0 } else { c.rng.unit() } }) }).collect();
                    let w: Vec<f64> = qs.iter().map(|x| x.prio).collect();
                    c.check(n > 1, guard(|| task2SelByCreditRandom(v, &qs)).and_then(|r| picked(&w, v, r)), || inp(&w));
                    let bs: Vec<Arc<RwLock<Sentence>>> = (0..n).map(|_| { let x = small(&mut c.rng); let pu = if c.rng.chance(0.8) { 0 } else { 2 }; Arc::new(RwLock::new(mk(&mut c.rng, &x, pu, &[1]))) }).collect();
                    let w: Vec<f64> = bs.iter().map(|x| sv(&x.read()).tv().c).collect();
                    c.check(n > 1, guard(|| conceptSelByAvRandom(v, &bs)).and_then(|r| picked(&w, v, r)), || inp(&w));
                }
            }
        }
    });
}
