#![allow(non_snake_case)]
use replay::*;
use replay::sn::*;
use nar20_1::NarProc::*;
use nar20_1::NarMem;
use nar20_1::NarGoalSystem;
use nar20_1::OpLib::OpNop;
use std::rc::Rc;
use std::sync::Arc;
use parking_lot::RwLock;
fn occ(x: &V, s: &V) -> i64 { if x == s { return 1; } let n = if x.tag == 10 { x.kids.len() - 1 } else { x.kids.len() }; x.kids[..n].iter().map(|k| occ(k, s)).sum() }
fn repl(x: &V, a: &V, w: &V) -> V { if x == a { return w.clone(); } let mut y = x.clone(); let n = if x.tag == 10 { x.kids.len() - 1 } else { x.kids.len() }; for k in 0..n { y.kids[k] = repl(&x.kids[k], a, w); } y }
fn opcall(r: &mut Rng) -> V {
    let n = *r.pick(&["^left", "^right", "^nop", "^pick", "left", ""]);
    let self_ = node(4, vec![name("SELF")]);
    let args = match r.below(5) { 0 => vec![self_, gen(r, 2, 0.2)], 1 => vec![self_, name("a"), name("b")], 2 => vec![name("a")], _ => vec![self_] };
    stmt(1, node(4, vec![node(9, args)]), name(n))
}
/// nearly an operator call
fn almost(r: &mut Rng) -> V {
    let mut x = opcall(r);
    match r.below(7) { 0 => x.num = 0, 1 => x.kids[0].tag = 3, 2 => x.kids[0].kids[0].tag = 2, 3 => { let e = x.kids[0].kids[0].clone(); x.kids[0].kids.push(e) } 4 => x.kids[0].kids[0].kids.clear(), 5 => x.kids[1] = leaf(7, "x"), _ => x.kids[0] = x.kids[0].kids[0].clone() }
    x
}
fn isop(x: &V) -> bool { x.tag == 0 && x.num == 1 && x.kids[1].tag == 1 && x.kids[0].tag == 4 && x.kids[0].kids.len() == 1 && x.kids[0].kids[0].tag == 9 && !x.kids[0].kids[0].kids.is_empty() }
fn event(r: &mut Rng) -> V { match r.below(10) { 0 | 1 | 2 => opcall(r), 3 => almost(r), 4 => name("b"), 5 => name("a"), 6 => stmt(1, node(4, vec![name("a")]), node(3, vec![name("b")])), 7 => gen(r, 2, 0.1), _ => small(r) } }
fn impls(r: &mut Rng) -> V {
    let cond = match r.below(4) { 0 => { let s = *r.pick(&["a", "b"]); let p = *r.pick(&["p", "q"]); stmt(1, name(s), node(3, vec![name(p)])) } 1 => gen(r, 2, 0.2), _ => small(r) };
    let pred = match r.below(4) { 0 => stmt(1, name(*r.pick(&["a", "b"])), node(3, vec![name("z")])), 1 => gen(r, 2, 0.2), _ => small(r) };
    let subj = match r.below(8) { 0 => cond, 1 => node(2, vec![cond]), 2 => { let (a, b) = (opcall(r), opcall(r)); node(2, vec![cond, a, b]) } 3 => { let a = small(r); node(2, vec![cond, a]) } _ => { let a = opcall(r); node(2, vec![cond, a]) } };
    stmt(2, subj, pred)
}
fn cond(x: &V) -> V { if x.kids[0].tag == 2 { x.kids[0].kids[0].clone() } else { x.kids[0].clone() } }
fn filed(x: &V) -> Vec<V> { let mut q = subs(&cond(x)); q.extend(subs(&x.kids[1])); q }
fn noempty(x: &V) -> bool { !(x.tag == 2 && x.kids.is_empty()) && x.kids.iter().all(noempty) }
fn introdd(x: &V) -> Option<V> { let s = &x.kids[0]; if s.tag == 2 && s.kids.len() == 2 && s.kids[0].tag == 0 && s.kids[0].num == 1 && s.kids[0].kids[1].tag == 3 { let a = s.kids[0].kids[0].clone(); if occ(x, &a) >= 2 { return Some(a); } } None }
fn main() {
    drive(|c, p| {
        let mut k = 0u64;
        if p == "C25" {
            let mut nar = narInit();
            while c.time() || k < 3000 {
                k += 1;
                nar.ops.clear();
                let mut names: Vec<String> = vec![];
                for _ in 0..c.rng.below(4) { let n = c.rng.pick(&["^left", "^right", "^nop", "^pick", "left", ""]).to_string(); nar.ops.push(Rc::new(Box::new(OpNop { name: n.clone() }))); names.push(n); }
                let callable = |x: &V| isop(x) && names.contains(&x.kids[1].name);
                let n = c.rng.pick(&["^left", "^right", "^nop", "^x", "left", ""]).to_string();
                let want = names.iter().position(|q| *q == n);
                let r = guard(|| ret_op_by_name(&nar, &n).map(|o| nar.ops.iter().position(|q| Rc::ptr_eq(q, &o))));
                c.check(want.is_some(), r.and_then(|g| if g == want.map(|q| Some(q)) { Ok(()) } else { Err(format!("op number {:?} want {:?}", g, want)) }), || format!("op by name {:?} of {:?}", n, names));
                // build
                let m = 3 + c.rng.below(3);
                let mut es: Vec<V> = (0..m).map(|i| if i > 0 && i + 1 < m { if c.rng.chance(0.7) && !names.is_empty() { let mut o = opcall(&mut c.rng); o.kids[1].name = c.rng.pick(&names).clone(); o } else { event(&mut c.rng) } } else { event(&mut c.rng) }).collect();
                if c.rng.chance(0.1) { es[m - 1] = es[0].clone(); }
                let ok = es[1..m - 1].iter().all(|x| callable(x)) && !callable(&es[0]) && !callable(&es[m - 1]) && es[0] != es[m - 1];
                let ts: Vec<nar20_1::Term::Term> = es.iter().map(|x| t(x)).collect();
                let want = if ok { Some(stmt(2, node(2, es[..m - 1].to_vec()), es[m - 1].clone())) } else { None };
                let r = guard(|| try_build_implSeq(&nar, &ts).map(|x| v(&x)));
                c.check(ok, r.and_then(|g| if g == want { Ok(()) } else { Err(format!("{:?} want {:?}", g.as_ref().map(show), want.as_ref().map(show))) }), || format!("implication from events [{}] with ops {:?}", es.iter().map(show).collect::<Vec<_>>().join(", "), names));
                // positions of ops
                let tr: Vec<Rc<SimpleSentence>> = (0..c.rng.below(9)).map(|i| Rc::new(SimpleSentence { name: t(&event(&mut c.rng)), evi: i as i64, occT: i as i64 })).collect();
                let want: Vec<i64> = (0..tr.len()).filter(|i| callable(&v(&tr[*i].name))).map(|i| i as i64).collect();
                let r = guard(|| calcIdxsOfOps(&nar, &tr));
                c.check(!want.is_empty(), r.and_then(|g| if g == want { Ok(()) } else { Err(format!("{:?} want {:?}", g, want)) }), || format!("positions of ops in [{}] with ops {:?}", tr.iter().map(|x| show(&v(&x.name))).collect::<Vec<_>>().join(", "), names));
                // interval table
                let mut tb: Vec<i64> = vec![1]; for _ in 0..c.rng.below(10) { let l = *tb.last().unwrap(); tb.push(l + 1 + c.rng.below(5) as i64); }
                let dt = c.rng.below(60) as i64 - 3;
                let want = (1..tb.len()).find(|i| tb[*i] > dt).unwrap_or(tb.len()) as i64 - 1;
                let r = guard(|| findMinTableIdx(dt, &tb));
                c.check(dt > 0, r.and_then(|g| if g == want { Ok(()) } else { Err(format!("{} want {}", g, want)) }), || format!("index of interval {} in {:?}", dt, tb));
                // parts
                let x = impls(&mut c.rng); let tx = t(&x); let (s, q) = (x.kids[0].clone(), x.kids[1].clone()); let tsq = t(&s);
                let eq = |r: Result<V, String>, w: V| r.and_then(|g| if g == w { Ok(()) } else { Err(format!("{} want {}", show(&g), show(&w))) });
                c.check(true, eq(guard(|| v(&retPred(&tx))), q), || format!("consequence of {}", show(&x)));
                c.check(true, eq(guard(|| v(&retSubj(&tx))), s.clone()), || format!("condition of {}", show(&x)));
                if noempty(&s) { c.check(true, eq(guard(|| v(&retSeqCond(&tx))), cond(&x)), || format!("first condition of {}", show(&x))); }
                if s.tag == 2 && s.kids.len() >= 2 { c.check(true, eq(guard(|| v(&retImplSeqOp(&tx))), s.kids[1].clone()), || format!("op of {}", show(&x))); }
                if s.tag == 2 && !s.kids.is_empty() {
                    c.check(true, eq(guard(|| v(&retSeqLast(&tsq))), s.kids.last().unwrap().clone()), || format!("last of {}", show(&s)));
                    c.check(true, eq(guard(|| v(&retSeqCond2(&tsq))), s.kids[0].clone()), || format!("first of {}", show(&s)));
                }
                let w = if c.rng.chance(0.3) { let a = event(&mut c.rng); let b = event(&mut c.rng); node(2, vec![a, b]) } else if c.rng.chance(0.5) { s } else { gen(&mut c.rng, 2, 0.2) }; let tw = t(&w);
                c.check(w.tag == 2, guard(|| is_seq(&tw)).and_then(|g| if g == (w.tag == 2) { Ok(()) } else { Err(format!("{}", g)) }), || format!("is {} a sequence", show(&w)));
                if noempty(&w) { let want = w.tag == 2 && isop(w.kids.last().unwrap()); c.check(want, guard(|| is_seqAndLastOp(&tw)).and_then(|g| if g == want { Ok(()) } else { Err(format!("{}", g)) }), || format!("does {} end with an op", show(&w))); }
            }
            return;
        }
        if p == "C26" {
            while c.time() || k < 300 {
                k += 1;
                let tr = TraceDefault { trace: Arc::new(RwLock::new(vec![])), rng: Arc::new(RwLock::new(rand::thread_rng())) };
                let mut want: Vec<Rc<SimpleSentence>> = vec![]; let mut hist: Vec<String> = vec![];
                for i in 0..1 + c.rng.below(90) {
                    let op = c.rng.below(40);
                    let r = if op < 30 {
                        let e = if c.rng.chance(0.1) && !want.is_empty() { Rc::clone(c.rng.pick(&want)) } else { Rc::new(SimpleSentence { name: t(&event(&mut c.rng)), evi: i as i64, occT: if c.rng.chance(0.2) { 0 } else { i as i64 } }) };
                        want.push(Rc::clone(&e)); hist.push(format!("event {}@{}", show(&v(&e.name)), e.occT)); guard(|| tr.event_happened(e))
                    } else if op < 38 { hist.push("limit".into()); let n = want.len(); if n > 20 { want = want[n - 20..].to_vec(); } guard(|| tr.limit()) }
                    else if op == 38 { hist.push("flush".into()); want.clear(); guard(|| tr.force_flush()) } else { Ok(()) };
                    let same = |a: &Vec<Rc<SimpleSentence>>, b: &Vec<Rc<SimpleSentence>>| a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| v(&x.name) == v(&y.name) && x.evi == y.evi && x.occT == y.occT);
                    let sh = |a: &Vec<Rc<SimpleSentence>>| a.iter().map(|x| format!("{}@{}", show(&v(&x.name)), x.occT)).collect::<Vec<_>>().join(", ");
                    let r = r.and_then(|_| guard(|| (tr.ret_view(), tr.ret_last_events()))).and_then(|(vw, last)| {
                        if !same(&vw, &want) { return Err(format!("trace is [{}] want [{}]", sh(&vw), sh(&want))); }
                        match last { None if want.is_empty() => Ok(()), Some(l) if !want.is_empty() && same(&l, &vec![Rc::clone(want.last().unwrap())]) => Ok(()), l => Err(format!("last events {:?} of [{}]", l.map(|q| sh(&q)), sh(&want))) }
                    });
                    c.check(want.len() > 20, r, || format!("history: {}", hist.join("; ")));
                }
            }
            return;
        }
        let mut rng = rand::thread_rng();
        while c.time() || k < 300 {
            k += 1;
            let mem = Arc::new(RwLock::new(NarMem::make()));
            let n = *c.rng.pick(&[1usize, 2, 3, 8, 20, 20]);
            let (mut now, mut fresh) = (0i64, 1000i64);
            let mut hist: Vec<String> = vec![];
            for _ in 0..1 + c.rng.below(14) {
                now += c.rng.below(20) as i64;
                let x = loop { let x = impls(&mut c.rng); if noempty(&x.kids[0]) { break x; } };
                let pu = if c.rng.chance(0.95) { 0 } else { 1 + c.rng.below(2) as u8 };
                let i = idl(&mut c.rng, &mut fresh);
                let s = mk(&mut c.rng, &x, pu, &i); let b = sv(&s);
                let before = snap(&mem.read());
                hist.push(format!("add {}, n={}, now={}", b.show(), n, now));
                let r = guard(|| mem_add_evidence(Arc::clone(&mem), &s, n, now, &mut rng));
                let got = snap(&mem.read());
                let mut w1 = before.clone(); sim_store(&mut w1, &b, &filed(&x), n, now);
                let intro = introdd(&x);
                let res = r.and_then(|_| {
                    // sentences other than judgements are not stored
                    if pu != 0 { return cmp_same(&got, &before); }
                    match &intro {
                        None => cmp_store(&before, &got, &w1, &b, n, now),
                        Some(a) => {
                            // the variable that was introduced shows up as a new concept
                            let nv: Vec<V> = got.keys().filter(|q| q.tag == 7 && !w1.contains_key(*q)).cloned().collect();
                            if nv.len() != 1 { return Err(format!("{} concepts of introduced variables want 1", nv.len())); }
                            let mut b2 = b.clone(); b2.t = repl(&x, a, &nv[0]);
                            let mut w2 = w1.clone(); sim_store(&mut w2, &b2, &filed(&b2.t), n, now);
                            if n < 8 { return if got.keys().collect::<Vec<_>>() == w2.keys().collect::<Vec<_>>() { Ok(()) } else { Err("not filed under the subterms of its condition and consequence".into()) }; }
                            cmp_same(&got, &w2)
                        }
                    }
                });
                if intro.is_some() && n >= 8 && n < 20 && res.is_err() && got.values().any(|q| q.1.len() >= n || q.2.len() >= n) { break; } // which of equally ranked beliefs was dropped is open
                c.check(pu == 0, res, || format!("history:\n  {}\nmemory before the last step:\n  {}", hist.join("\n  "), showm(&before)));
                // look it up again
                let m = mem.read();
                if m.concepts.values().any(|q| q.payload.beliefsByExp.iter().chain(q.payload.beliefsByUsage.iter()).any(|a| !noempty(&v(&a.read().term)))) { continue; }
                let y = match c.rng.below(4) { 0 => cond(&x), 1 => x.kids[1].clone(), 2 => { let ks: Vec<&V> = got.keys().collect(); if ks.is_empty() { name("a") } else { (*c.rng.pick(&ks)).clone() } } _ => small(&mut c.rng) };
                let ty = t(&y);
                let mut all: Vec<(*const (), V)> = vec![];
                for q in subs(&y) { if let Some(q) = m.concepts.get(&t(&q)) { all.extend(q.payload.beliefsByExp.iter().chain(q.payload.beliefsByUsage.iter()).map(|a| (Arc::as_ptr(a) as *const (), v(&a.read().term)))); } }
                let key = |mut q: Vec<*const ()>| { q.sort(); q };
                let wa = key(all.iter().filter(|(_, z)| z.tag == 0 && z.num == 2 && z.kids[0].tag == 2 && z.kids[0].kids[0] == y).map(|q| q.0).collect());
                let wc = key(all.iter().filter(|(_, z)| z.tag == 0 && z.num == 2 && z.kids[1] == y).map(|q| q.0).collect());
                let ga = guard(|| key(NarGoalSystem::query_by_antecedent(&ty, &m).iter().map(|a| Arc::as_ptr(a) as *const ()).collect()));
                let gc = guard(|| key(NarGoalSystem::query_by_consequence(&ty, &m).iter().map(|a| Arc::as_ptr(a) as *const ()).collect()));
                c.check(!wa.is_empty(), ga.and_then(|g| if g == wa { Ok(()) } else { Err(format!("{} implications want {}", g.len(), wa.len())) }), || format!("implications that start with {} in\n  {}", show(&y), showm(&got)));
                c.check(!wc.is_empty(), gc.and_then(|g| if g == wc { Ok(()) } else { Err(format!("{} implications want {}", g.len(), wc.len())) }), || format!("implications that lead to {} in\n  {}", show(&y), showm(&got)));
            }
        }
    });
}
