#![allow(non_snake_case)]
use replay::*;
use replay::sn::*;
use nar20_1::NarProc::*;
use nar20_1::NarMem;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::NarWorkingCycle::Mem2;
use nar20_1::Term::Term;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::mpsc::sync_channel;
use parking_lot::RwLock;
struct TOp { name: String, evi: i64 }
impl Op for TOp {
    fn retName(&self) -> String { self.name.clone() }
    fn call(&self, _n: &mut ProcNar, _m: &Option<Arc<RwLock<Mem2>>>, _a: &Vec<Term>) {}
    fn isBabbleable(&self) -> bool { false }
    fn ret_evi_cnt(&self) -> i64 { self.evi }
}
fn call(n: &str, a: Option<&str>) -> V { let mut k = vec![node(4, vec![name("SELF")])]; if let Some(a) = a { k.push(name(a)); } stmt(1, node(4, vec![node(9, k)]), name(n)) }
fn isop(x: &V) -> bool { x.tag == 0 && x.num == 1 && x.kids[1].tag == 1 && x.kids[0].tag == 4 && x.kids[0].kids.len() == 1 && x.kids[0].kids[0].tag == 9 && !x.kids[0].kids[0].kids.is_empty() }
fn event(r: &mut Rng) -> V { match r.below(10) { 0..=4 => name(*r.pick(&["a", "b", "c"])), 5 => stmt(1, name("a"), name("b")), 6 => node(9, vec![name("a"), name("b")]), 7 => gen(r, 2, 0.0), 8 => call("^x", None), _ => name("d") } }
type Tr = Vec<(V, i64, i64)>;
fn showt(t: &Tr) -> String { t.iter().map(|e| format!("{} (evidence {}, at {})", show(&e.0), e.1, e.2)).collect::<Vec<_>>().join("; ") }
/// which interval a delay falls into
fn slot(dt: i64, tab: &[i64]) -> i64 { let mut r = 0; for i in 1..tab.len() { if tab[i] <= dt { r = i as i64 } else { break } } r }
/// a learned contingency: term, evidence, interval, count
type L = (V, Vec<i64>, i64, i64);
/// everything which may be learned, with the number of ops in it and whether single draws reach it
fn legal(tr: &Tr, ops: &[(String, i64)], nmax: usize, tab: &[i64]) -> Vec<(L, usize)> {
    let cal = |x: &V| isop(x) && ops.iter().any(|o| o.0 == x.kids[1].name);
    let o: Vec<usize> = (0..tr.len()).filter(|i| cal(&tr[*i].0)).collect();
    let n = tr.len(); let mut r = vec![];
    if n < 3 { return r; }
    for m in 1u32..(1 << o.len()) {
        let sel: Vec<usize> = (0..o.len()).filter(|i| m >> i & 1 == 1).map(|i| o[i]).collect();
        if sel.len() > nmax { continue; }
        let (lo, hi) = (sel[0], sel[sel.len() - 1]);
        for f in 0..lo { for l in [n - 1, n - 2] {
            if l <= hi || cal(&tr[f].0) || cal(&tr[l].0) || tr[f].0 == tr[l].0 { continue; }
            let mut ix = vec![f]; ix.extend(&sel); ix.push(l);
            let t = stmt(2, node(2, ix[..ix.len() - 1].iter().map(|i| tr[*i].0.clone()).collect()), tr[l].0.clone());
            let cnt = ops.iter().find(|q| q.0 == tr[lo].0.kids[1].name).unwrap().1;
            r.push(((t, ix.iter().map(|i| tr[*i].1).collect(), slot(tr[l].2 - tr[hi].2, tab), cnt), sel.len()));
        } }
    }
    r
}
fn fill(nar: &ProcNar, tr: &Tr) { for e in tr { nar.trace.event_happened(Rc::new(SimpleSentence { name: t(&e.0), evi: e.1, occT: e.2 })); } }
fn seqtag() -> u8 { v(&nar20_1::TermApi::seq(&vec![t(&name("a")), t(&name("b"))])).tag }
fn contingency(r: &mut Rng) -> V {
    let w = |r: &mut Rng| if r.chance(0.8) { name(*r.pick(&["a", "b", "c"])) } else { stmt(1, name("a"), name(*r.pick(&["b", "c"]))) };
    let o = |r: &mut Rng| call(*r.pick(&["^left", "^right"]), None);
    let mut k = vec![w(r), o(r)]; if r.chance(0.15) { k.push(o(r)); }
    stmt(2, if r.chance(0.9) { node(2, k) } else { w(r) }, w(r))
}
fn cells(m: &NarMem::Mem) -> BTreeMap<usize, S> { let mut r = BTreeMap::new(); for c in m.concepts.values() { for x in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) { r.insert(Arc::as_ptr(x) as *const () as usize, sv(&x.read())); } } r }
type LM = BTreeMap<V, (Vec<usize>, Vec<usize>)>;
fn layout(m: &NarMem::Mem) -> LM { m.concepts.iter().map(|(k, c)| { let p = |a: &Vec<Arc<RwLock<Sentence>>>| a.iter().map(|x| Arc::as_ptr(x) as *const () as usize).collect::<Vec<_>>(); (v(k), (p(&c.payload.beliefsByExp), p(&c.payload.beliefsByUsage))) }).collect() }
fn cond(x: &V) -> V { if x.kids[0].tag == 2 { x.kids[0].kids[0].clone() } else { x.kids[0].clone() } }
fn fits(b: &S, m: &S) -> bool { b.t == m.t && !overlap(&b.ids, &m.ids) && b.dt.unwrap_or(0) >= m.dt.unwrap() }
fn main() {
    drive(|c, p| {
        assert!(seqtag() == 2);
        let mut k = 0u64;
        if p == "C37" {
            while c.time() || k < 60 {
                k += 1;
                let mut nar = narInit();
                let mut ops: Vec<(String, i64)> = vec![];
                for _ in 0..1 + c.rng.below(3) { ops.push((c.rng.pick(&["^left", "^right", "^pick"]).to_string(), 1 + c.rng.below(6) as i64)); }
                for o in &ops { nar.ops.push(Rc::new(Box::new(TOp { name: o.0.clone(), evi: o.1 }))); }
                nar.cfg__nOpsMax = *c.rng.pick(&[1, 1, 2, 3]);
                nar.cfg__multiOpProbability = *c.rng.pick(&[0.0, 0.5, 1.0]);
                nar.cfg__perceptionSamplesPerStep = c.rng.below(6) as i64;
                nar.t = c.rng.below(1000) as i64;
                let nw = 1 + c.rng.below(2);
                let mut rx = vec![]; nar.storeWorkersTx.clear();
                for _ in 0..nw { let (a, b) = sync_channel(4096); nar.storeWorkersTx.push(a); rx.push(b); }
                let mut tr: Tr = vec![]; let mut at = c.rng.below(4) as i64;
                let len = 1 + c.rng.below(6); let mut nops = 0;
                for i in 0..len {
                    let op = nops < 3 && (i > 0 || c.rng.chance(0.1)) && c.rng.chance(0.35);
                    let e = if op { nops += 1; call(*c.rng.pick(&["^left", "^right", "^pick", "^gone"]), if c.rng.chance(0.3) { Some("z") } else { None }) } else { event(&mut c.rng) };
                    tr.push((e, 100 + 7 * i as i64 - c.rng.below(3) as i64, at)); at += *c.rng.pick(&[0, 1, 1, 2, 3, 5, 9, 17, 40]);
                }
                fill(&nar, &tr);
                let lg = legal(&tr, &ops, nar.cfg__nOpsMax as usize, &nar.expIntervalsTable);
                let cal = |x: &V| isop(x) && ops.iter().any(|o| o.0 == x.kids[1].name);
                let nc = tr.iter().filter(|e| cal(&e.0)).count();
                let n = nar.cfg__perceptionSamplesPerStep as usize;
                let ctx = format!("ops {:?}, at most {} ops, multi probability {}, {} samples, trace: {}", ops, nar.cfg__nOpsMax, nar.cfg__multiOpProbability, n, showt(&tr));
                // every selection is learnable: each sample teaches something
                let all = tr.len() >= 3 && nc > 0 && !cal(&tr[0].0) && { let o0: Vec<usize> = (0..tr.len()).filter(|i| cal(&tr[*i].0)).collect(); let hi = o0[o0.len() - 1]; hi < tr.len() - 1 && (0..hi).all(|f| !o0.iter().any(|q| *q == f) || true) && nc == 1 && (0..hi).all(|f| [tr.len() - 1, tr.len() - 2].iter().all(|l| *l <= hi || tr[f].0 != tr[*l].0)) };
                let mut seen: Vec<L> = vec![]; let runs = if n == 0 { 3 } else { 2400 / n };
                let mut bad: Option<String> = None;
                for _ in 0..runs {
                    let g = guard(|| nar.trace.step(&nar));
                    if let Err(e) = g { bad = Some(e); break; }
                    let mut got = 0;
                    for r in &rx { while let Ok((s, now)) = r.try_recv() {
                        got += 1;
                        let x = sv(&s);
                        let l: L = (x.t.clone(), x.ids.clone(), x.dt.unwrap_or(-99), x.e.map(|e| e.1).unwrap_or(-99));
                        if now != nar.t { bad = Some(format!("learned with time {} at {}", now, nar.t)); }
                        else if x.p != 0 || x.occ.is_some() || x.dt.is_none() || x.last != 0 || x.cnt != 0 || x.e.map(|e| e.0 != e.1 || e.0 < 0).unwrap_or(true) { bad = Some(format!("learned {} which isn't a plain positive observation", x.show())); }
                        else if !lg.iter().any(|q| q.0 == l) { bad = Some(format!("learned {} which was not observed; possible are [{}]", x.show(), lg.iter().map(|q| format!("{} ids={:?} dt={} n={}", show(&q.0 .0), q.0 .1, q.0 .2, q.0 .3)).collect::<Vec<_>>().join("; "))); }
                        else if !seen.contains(&l) { seen.push(l); }
                    } }
                    if bad.is_none() && got > n { bad = Some(format!("{} contingencies from {} samples", got, n)); }
                    if bad.is_none() && all && got != n { bad = Some(format!("{} contingencies from {} samples although every selection is a contingency", got, n)); }
                    if bad.is_some() { break; }
                }
                let back: Vec<V> = nar.trace.ret_view().iter().map(|e| v(&e.name)).collect();
                if bad.is_none() && back != tr.iter().map(|e| e.0.clone()).collect::<Vec<_>>() { bad = Some("the trace was changed".into()); }
                if bad.is_none() && n > 0 && (nar.cfg__nOpsMax == 1 || nar.cfg__multiOpProbability < 0.9) {
                    for q in &lg { if q.1 == 1 && !seen.contains(&q.0) { bad = Some(format!("{} ids={:?} was never learned in {} samples", show(&q.0 .0), q.0 .1, runs * n)); break; } }
                }
                c.check(!lg.is_empty(), match bad { Some(e) => Err(e), None => Ok(()) }, || ctx.clone());
            }
        }
        if p == "C38" {
            let mut nar = narInit();
            nar.ops.push(Rc::new(Box::new(TOp { name: "^left".into(), evi: 2 })));
            let (tx, rx) = sync_channel(64); nar.storeWorkersTx = vec![tx];
            while c.time() || k < 3000 {
                k += 1;
                nar.trace.force_flush();
                nar.cfgPerceptWindow = c.rng.below(5) as i64; nar.t = c.rng.below(20) as i64;
                let mut tr: Tr = vec![]; for i in 0..c.rng.below(6) { tr.push((event(&mut c.rng), i as i64, i as i64)); }
                // a contingency is there to be learned
                let teach = c.rng.chance(0.3); if teach { tr.insert(0, (call("^left", None), 50, 0)); tr.insert(0, (name("before"), 51, 0)); tr.push((name("after"), 52, 30)); let z = tr.len(); tr[z - 2].0 = if z > 3 { name("after2") } else { tr[z - 2].0.clone() }; }
                fill(&nar, &tr);
                nar.cfg__perceptionSamplesPerStep = if teach { 3 } else { 0 };
                let mut cl: Vec<Arc<RwLock<Sentence>>> = vec![];
                for i in 0..c.rng.below(4) {
                    let mut x = contingency(&mut c.rng);
                    if !tr.is_empty() && c.rng.chance(0.6) { x.kids[1] = c.rng.pick(&tr).0.clone(); }
                    let n = c.rng.below(50) as i64;
                    cl.push(Arc::new(RwLock::new(Sentence { punct: EnumPunctation::JUGEMENT, t: None, stamp: newStamp(&vec![i as i64]), expDt: Some(c.rng.below(3) as i64), term: Arc::new(t(&x)), evi: Some(Evidence::CNT { pos: (c.rng.below(n as usize + 1)) as i64, cnt: n }), usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) })));
                }
                let mut an: Vec<(usize, i64)> = vec![];
                if !cl.is_empty() { for _ in 0..c.rng.below(6) { an.push((c.rng.below(cl.len()), if c.rng.chance(0.4) { nar.t + c.rng.below(3) as i64 - 1 } else { c.rng.below(22) as i64 })); } }
                nar.anticipatedEvents = an.iter().map(|a| AnticipationEvent { evi: Arc::clone(&cl[a.0]), deadline: a.1 }).collect();
                let before: Vec<S> = cl.iter().map(|x| sv(&x.read())).collect();
                let w = nar.cfgPerceptWindow as usize;
                let met = |i: usize| tr.iter().rev().take(w).any(|e| e.0 == before[i].t.kids[1]);
                let keep: Vec<(usize, i64)> = an.iter().filter(|a| !met(a.0) && a.1 > nar.t).cloned().collect();
                let mut want = before.clone();
                for a in &an { if !met(a.0) && a.1 <= nar.t { let e = want[a.0].e.unwrap(); want[a.0].e = Some((e.0, e.1 + 1, e.2, e.3)); } }
                let ctx = format!("time {}, window {}, trace: {}; anticipated: {}", nar.t, w, showt(&tr), an.iter().map(|a| format!("[{} until {}]", before[a.0].show(), a.1)).collect::<Vec<_>>().join("; "));
                let t0 = nar.t;
                let r = guard(|| narStep0(&mut nar)).and_then(|_| {
                    let after: Vec<S> = cl.iter().map(|x| sv(&x.read())).collect();
                    for i in 0..want.len() { if after[i] != want[i] { return Err(format!("contingency is now {} want {}", after[i].show(), want[i].show())); } }
                    let got: Vec<(usize, i64)> = nar.anticipatedEvents.iter().map(|a| (cl.iter().position(|q| Arc::ptr_eq(q, &a.evi)).unwrap_or(99), a.deadline)).collect();
                    if got != keep { return Err(format!("still anticipated {:?} want {:?} (contingency, deadline)", got, keep)); }
                    if nar.t != t0 { return Err(format!("time {} want {}", nar.t, t0)); }
                    let mut n = 0; while let Ok(_) = rx.try_recv() { n += 1; }
                    if teach && n != 3 || !teach && n != 0 { return Err(format!("{} contingencies were learned, the trace wasn't sampled once", n)); }
                    Ok(())
                });
                if r.is_err() { while let Ok(_) = rx.try_recv() {} }
                c.check(!an.is_empty(), r, || ctx.clone());
            }
        }
        if p == "C39" {
            let mut held: Option<Arc<RwLock<NarMem::Mem>>> = None; let mut hist: Vec<String> = vec![]; let mut pool: Vec<V> = vec![]; let mut fresh = 100i64;
            while c.time() || k < 1500 {
                k += 1;
                let mut nar = narInit();
                if held.is_none() || hist.len() > 24 { held = None; hist.clear(); pool = (0..3).map(|_| contingency(&mut c.rng)).collect(); }
                if let Some(h) = &held { std::mem::swap(&mut *h.write(), &mut *nar.evidenceMem.write()); }
                let nb = nar.cfg__nConceptBeliefs; let now = k as i64;
                let x = c.rng.pick(&pool).clone();
                let n = 1 + c.rng.below(8) as i64;
                let taught = c.rng.chance(0.15);
                let ids: Vec<i64> = if c.rng.chance(0.7) { fresh += 3; vec![fresh, fresh + 1, fresh + 2] } else { (0..1 + c.rng.below(3)).map(|_| 1 + c.rng.below(9) as i64).collect() };
                let s = Sentence { punct: EnumPunctation::JUGEMENT, t: None, stamp: newStamp(&ids), expDt: if taught { None } else { Some(c.rng.below(4) as i64) }, term: Arc::new(t(&x)), evi: Some(Evidence::CNT { pos: c.rng.below(n as usize + 1) as i64, cnt: n }), usage: Arc::new(RwLock::new(Usage { lastUsed: now, useCount: c.rng.below(3) as i64 })) };
                let m = sv(&s);
                if taught {
                    // given by the user: straight into the memory
                    hist.push(format!("given {}", m.show()));
                    mem_add_evidence(Arc::clone(&nar.evidenceMem), &s, nb, now, &mut rand::thread_rng());
                    held = Some(Arc::clone(&nar.evidenceMem)); nar.storeWorkersTx.clear(); for w in nar.storeWorkers.drain(..) { let _ = w.join(); }
                    continue;
                }
                hist.push(format!("observed {}", m.show()));
                let (b, lb, cb) = { let g = nar.evidenceMem.read(); (snap(&g), layout(&g), cells(&g)) };
                let mut look: Vec<usize> = vec![]; for q in subs(&cond(&m.t)).into_iter().chain(subs(&m.t.kids[1])) { if let Some(l) = lb.get(&q) { look.extend(&l.0); look.extend(&l.1); } }
                // which of the two tables the memory lists is C19
                let listed: Vec<usize> = { let g = nar.evidenceMem.read(); NarMem::ret_beliefs_by_terms_nonunique(&g, &[t(&cond(&m.t)), t(&m.t.kids[1])]).iter().map(|q| Arc::as_ptr(q) as *const () as usize).collect() };
                let fit: Vec<usize> = cb.iter().filter(|(q, s)| listed.contains(q) && look.contains(q) && fits(s, &m)).map(|(q, _)| *q).collect();
                let mut cw = cb.clone();
                for q in &fit { let s = cw.get_mut(q).unwrap(); s.ids = merged(&s.ids, &m.ids); let (e, f) = (s.e.unwrap(), m.e.unwrap()); s.e = Some((e.0 + f.0, e.1 + f.1, e.2, e.3)); }
                let sent = nar.storeWorkersTx[0].send((s, now)).is_ok();
                nar.storeWorkersTx.clear();
                let died = nar.storeWorkers.drain(..).map(|w| w.join().is_err()).fold(false, |a, b| a || b);
                let ctx = format!("history:\n  {}\nmemory before: {}", hist.join("\n  "), showm(&b));
                let r = (|| {
                    if !sent || died { return Err("the worker which files observations crashed".to_string()); }
                    let g = nar.evidenceMem.read();
                    if !fit.is_empty() {
                        let ca = cells(&g); let la = layout(&g);
                        if la != lb { return Err(format!("the memory holds other beliefs although the observation was counted: {}", showm(&snap(&g)))); }
                        for (q, w) in &cw { if ca[q] != *w { return Err(format!("contingency is now {} want {}", ca[q].show(), w.show())); } }
                        Ok(())
                    } else {
                        let ts: Vec<V> = { let mut ts = subs(&cond(&m.t)); ts.extend(subs(&m.t.kids[1])); ts };
                        let mut w = b.clone(); sim_store(&mut w, &m, &ts, nb, now);
                        cmp_store(&b, &snap(&g), &w, &m, nb, now)
                    }
                })();
                let nt = !fit.is_empty();
                held = Some(Arc::clone(&nar.evidenceMem));
                c.check(nt, r, || ctx.clone());
            }
        }
    });
}
