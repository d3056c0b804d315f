#![allow(non_snake_case)]
use replay::*;
use replay::sn::*;
use nar20_1::NarMem::*;
use std::sync::Arc;
fn main() {
    drive(|c, p| {
        let mut k = 0u64;
        while c.time() || k < 300 {
            k += 1;
            // one history of a memory
            let mut m = match guard(|| make()) { Ok(m) => m, Err(e) => c.fail(&e, "make()") };
            if !m.concepts.is_empty() { c.fail("a new memory has concepts", "make()"); }
            let n = *c.rng.pick(&[1usize, 2, 3, 5, 8, 20]);
            let (mut now, mut fresh) = (0i64, 1000i64);
            let mut hist: Vec<String> = vec![];
            for _ in 0..1 + c.rng.below(40) {
                now += c.rng.below(30) as i64;
                let x = small(&mut c.rng);
                let pu = if c.rng.chance(0.9) { 0 } else { 1 + c.rng.below(2) as u8 };
                let i = idl(&mut c.rng, &mut fresh);
                let before = snap(&m);
                let op = c.rng.below(20);
                if op < 15 || p == "C17" {
                    let s = mk(&mut c.rng, &x, pu, &i); let b = sv(&s);
                    let ts: Vec<V> = if c.rng.chance(0.8) { subs(&x) } else { let mut q = subs(&x); let cut = c.rng.below(q.len() + 1); q.truncate(cut); q };
                    let direct = ts.len() == subs(&x).len();
                    hist.push(format!("store {} under {} terms, n={}, now={}", b.show(), ts.len(), n, now));
                    let tt: Vec<nar20_1::Term::Term> = ts.iter().map(|q| t(q)).collect();
                    let r = guard(|| if direct { storeInConcepts(&mut m, &s, n, now) } else { storeInConcepts2(&mut m, &s, &tt, n, now) });
                    if p == "C17" {
                        let mut want = before.clone(); sim_store(&mut want, &b, &ts, n, now);
                        let res = r.and_then(|_| cmp_store(&before, &snap(&m), &want, &b, n, now));
                        c.check(pu == 0, res, || format!("history:\n  {}\nmemory before the last step:\n  {}", hist.join("\n  "), showm(&before)));
                    } else if r.is_err() { break; }
                    // belief gets used
                    if c.rng.chance(0.3) { let mut u = s.usage.write(); u.useCount += 1; u.lastUsed = now; }
                } else if op == 15 && p == "C18" {
                    let s = mk(&mut c.rng, &x, 0, &i);
                    hist.push(format!("revise with {}", sv(&s).show()));
                    let a = Arc::new(parking_lot::RwLock::new(m));
                    let r = guard(|| nar20_1::NarWorkingCycle::memReviseBelief(Arc::clone(&a), &s));
                    m = match Arc::try_unwrap(a) { Ok(q) => q.into_inner(), Err(_) => { c.fail("the memory is still in use", "memReviseBelief"); } };
                    if r.is_err() { break; }
                } else if op < 18 {
                    let lim = c.rng.below(before.len() + 3);
                    hist.push(format!("limit to {} concepts", lim));
                    let r = guard(|| limitMemory(&mut m, lim));
                    if p == "C18" {
                        let got = snap(&m);
                        let rate = |q: &(V, Tab, Tab)| q.1.iter().map(|b| b.exp()).fold(0.0, f64::max);
                        let res = r.and_then(|_| {
                            if got.len() != before.len().min(lim) { return Err(format!("{} concepts remain of {}", got.len(), before.len())); }
                            for (q, g) in &got { match before.get(q) { None => return Err(format!("concept {} appeared", show(q))), Some(w) => if g.0 != w.0 || g.1 != w.1 || g.2 != w.2 { return Err(format!("concept {} was changed", show(q))); } } }
                            let worst = got.iter().map(|(_, g)| rate(g)).fold(f64::INFINITY, f64::min);
                            for (q, w) in &before { if !got.contains_key(q) && rate(w) > worst && !close(rate(w), worst) { return Err(format!("concept {} with rating {} was forgotten although one rated {} was kept", show(q), rate(w), worst)); } }
                            Ok(())
                        });
                        c.check(before.len() > lim, res, || format!("history:\n  {}\nmemory before the last step:\n  {}", hist.join("\n  "), showm(&before)));
                    } else if r.is_err() { break; }
                }
                if p == "C19" {
                    let y = if c.rng.chance(0.7) && !before.is_empty() { let ks: Vec<&V> = before.keys().collect(); (*c.rng.pick(&ks)).clone() } else { small(&mut c.rng) };
                    let ty = t(&y);
                    let want: Option<Vec<*const ()>> = m.concepts.get(&ty).map(|q| q.payload.beliefsByExp.iter().chain(q.payload.beliefsByUsage.iter()).map(|a| Arc::as_ptr(a) as *const ()).collect());
                    let r = guard(|| ret_beliefs_of_concept(&m, &ty).map(|it| it.map(|a| Arc::as_ptr(a) as *const ()).collect::<Vec<_>>()));
                    c.check(want.is_some(), r.and_then(|g| if g == want { Ok(()) } else { Err(format!("{:?} beliefs want {:?}", g.map(|q| q.len()), want.as_ref().map(|q| q.len()))) }), || format!("beliefs of concept {} in\n  {}", show(&y), showm(&snap(&m))));
                    let ys: Vec<V> = (0..c.rng.below(4)).map(|_| small(&mut c.rng)).collect();
                    let mut want: Vec<*const ()> = vec![];
                    for y in &ys { for q in subs(y) { if let Some(q) = m.concepts.get(&t(&q)) { want.extend(q.payload.beliefsByExp.iter().chain(q.payload.beliefsByUsage.iter()).map(|a| Arc::as_ptr(a) as *const ())); } } }
                    let tys: Vec<nar20_1::Term::Term> = ys.iter().map(|q| t(q)).collect();
                    let r = guard(|| ret_beliefs_by_terms_nonunique(&m, &tys).iter().map(|a| Arc::as_ptr(a) as *const ()).collect::<Vec<_>>());
                    c.check(!want.is_empty(), r.and_then(|g| if g == want { Ok(()) } else { Err(format!("{} beliefs, want the {} of the concepts of all subterms in order", g.len(), want.len())) }), || format!("beliefs by {} in\n  {}", ys.iter().map(show).collect::<Vec<_>>().join(", "), showm(&snap(&m))));
                }
            }
        }
    });
}
