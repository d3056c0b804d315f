#![allow(non_snake_case)]
use replay::*;
use replay::sn::*;
use replay::nr::*;
use nar20_1::Nar::*;
use std::sync::atomic::Ordering;
fn occ(x: &V, s: &V) -> i64 { if x == s { return 1; } let n = if x.tag == 10 { x.kids.len() - 1 } else { x.kids.len() }; x.kids[..n].iter().map(|k| occ(k, s)).sum() }
fn introable(x: &V) -> bool { let s = &x.kids[0]; s.tag == 2 && s.kids.len() == 2 && s.kids[0].tag == 0 && s.kids[0].num == 1 && s.kids[0].kids[1].tag == 3 && occ(x, &s.kids[0].kids[0]) >= 2 }
fn filed(x: &V) -> Vec<V> { let c = if x.kids[0].tag == 2 { x.kids[0].kids[0].clone() } else { x.kids[0].clone() }; let mut q = subs(&c); q.extend(subs(&x.kids[1])); q }
fn want(d: &D, mem: &MM, ev: &MM, x: &V, p: u8, tv: (f64, f64), event: bool, maxc: i64, n: usize) -> (D, MM, MM) {
    let (mut w, mut m, mut e) = (d.clone(), mem.clone(), ev.clone());
    let mut s = S { t: x.clone(), occ: None, p, ids: vec![d.stamp], dt: None, e: if p == 1 { None } else { Some((-1, -1, tv.0, tv.1)) }, last: 0, cnt: 0 };
    w.stamp += 1;
    let pred = x.tag == 0 && x.num == 2;
    if p == 1 || !event && p == 0 && !pred {
        if cpx(x) as i64 <= maxc {
            let rv = sim_rev(&mut m, &s);
            if rv.is_none() { sim_store(&mut m, &s, &subs(x), n, d.t); }
            let mut l = vec![s.clone()]; if let Some(y) = rv { l.push(y); }
            for y in l { if y.p == 1 { w.q.push(y); } else { w.jt.push((y.clone(), w.tid)); for k in subs(&y.t) { match w.ix.iter_mut().find(|q| q.0 == k) { Some(q) => q.1.push(w.tid), None => w.ix.push((k, vec![w.tid])) } } w.tid += 1; } }
            w.ix.sort();
        }
    } else if p == 2 {
        if event { w.goals.push((s, 0, d.t, false)); w.goals.sort_by(|a, b| (&a.0.t, &a.0.ids).cmp(&(&b.0.t, &b.0.ids))); }
    } else if event { w.tr.push((x.clone(), d.t, d.t)); }
    else { s.e = Some((10, 10, -1.0, -1.0)); sim_store(&mut e, &s, &filed(x), n, d.t); }
    (w, m, e)
}
fn main() {
    drive(|c, _p| {
        let mut k = 0u64;
        while c.time() || k < 150 {
            k += 1;
            let mut nar = createNar();
            if c.rng.chance(0.7) { let e = nar.procNar.evidenceMem.clone(); nar.mem.read().shared.write().procMem = e; } // as the facade does
            if c.rng.chance(0.4) { nar.cfg__maxComplexity = *c.rng.pick(&[1i64, 2, 4, 6]); }
            if c.rng.chance(0.4) { nar.cfg__nConceptBeliefs = *c.rng.pick(&[1usize, 2, 3]); }
            if c.rng.chance(0.1) { nar.cfgVerbosityInput = 1; }
            let mut hist: Vec<String> = vec![]; let mut old: Vec<V> = vec![];
            for _ in 0..1 + c.rng.below(20) {
                if c.rng.chance(0.3) { nar.procNar.t += c.rng.below(40) as i64; }
                if c.rng.chance(0.2) { nar.mem.read().shared.read().cycleCounter.fetch_add(1, Ordering::SeqCst); }
                let mut x = if !old.is_empty() && c.rng.chance(0.35) { c.rng.pick(&old).clone() } else { let d = 1 + c.rng.below(3); gt(&mut c.rng, d) };
                if c.rng.chance(0.2) { let a = gt(&mut c.rng, 1); let s = if c.rng.chance(0.3) { a } else { let o = opcall(&mut c.rng); node(2, vec![a, o]) }; x = stmt(2, s, gt(&mut c.rng, 1)); }
                if c.rng.chance(0.05) { let s = name("a"); x = stmt(2, node(2, vec![stmt(1, s.clone(), node(3, vec![name("p")])), opcall(&mut c.rng)]), stmt(1, s, node(3, vec![name("q")]))); }
                if x.tag == 0 && x.num == 2 && c.rng.chance(0.1) { x = stmt(3, x.clone(), name("b")); }
                let p = c.rng.below(3) as u8; let event = c.rng.chance(0.45);
                let tv = if c.rng.chance(0.3) { (1.0, 0.9) } else { (*c.rng.pick(&[0.0, 0.25, 1.0, 0.5]), *c.rng.pick(&[0.0, 0.5, 0.9, 0.99])) };
                let (d0, m0, e0, pm0) = dig(&nar);
                let text = format!("{}{}{}{}", wr(&x), [".", "?", "!"][p as usize], if tv == (1.0, 0.9) && c.rng.chance(0.7) { String::new() } else { format!(" {{{:?} {:?}}}", tv.0, tv.1) }, if event { " :|:" } else { "" });
                let how = c.rng.below(4);
                let ctx = format!("t={} nBeliefs={} maxComplexity={}", nar.procNar.t, nar.cfg__nConceptBeliefs, nar.cfg__maxComplexity);
                let res: Result<(), String> = if c.rng.chance(0.15) {
                    let bad = match c.rng.below(6) { 0 => String::new(), 1 => wr(&x), 2 => format!("{},", wr(&x)), 3 => format!("<a -> b>{}", [".", "?", "!"][p as usize]), 4 => format!("<{} --> .", wr(&x)), _ => "nonsense".into() };
                    hist.push(format!("read {:?}", bad));
                    guard(|| inputN(&mut nar, &bad)).and_then(|g| if g { Err("is said to be understood".into()) } else { Ok(()) }).and_then(|_| { let (d, m, e, pm) = dig(&nar); diff(&d, &d0)?; cmp_same(&m, &m0)?; cmp_same(&e, &e0)?; cmp_same(&pm, &pm0) })
                } else {
                    let (w, wm, we) = want(&d0, &m0, &e0, &x, p, tv, event && how != 0, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs);
                    let tx = t(&x); let ttv = Tv { f: tv.0, c: tv.1 };
                    let r = match how {
                        0 => { hist.push(format!("say eternally {} punct={} tv={:?} ({})", show(&x), p, tv, ctx)); guard(|| inputT(&mut nar, &tx, np(p), &ttv)) }
                        1 => { hist.push(format!("say {} punct={} tv={:?} event={} ({})", show(&x), p, tv, event, ctx)); guard(|| inputT2(&mut nar, &tx, np(p), &ttv, event)) }
                        _ => { hist.push(format!("read {:?} ({})", text, ctx)); guard(|| inputN(&mut nar, &text)).and_then(|g| if g { Ok(()) } else { Err("is said not to be understood".into()) }) }
                    };
                    let taught = !(event && how != 0) && p == 0 && x.tag == 0 && x.num == 2;
                    r.and_then(|_| {
                        let (d, m, e, pm) = dig(&nar); diff(&d, &w)?;
                        let s = S { t: x.clone(), occ: None, p, ids: vec![d0.stamp], dt: None, e: Some(if taught { (10, 10, -1.0, -1.0) } else { (-1, -1, tv.0, tv.1) }), last: 0, cnt: 0 };
                        if wm == m0 { cmp_same(&m, &m0)?; } else if d.jt.len() == d0.jt.len() + 1 { cmp_store(&m0, &m, &wm, &s, nar.cfg__nConceptBeliefs, nar.procNar.t)?; } else { cmp_same(&m, &wm)?; }
                        if !taught { cmp_same(&e, &e0)?; cmp_same(&pm, &pm0)?; } else if !introable(&x) { cmp_store(&e0, &e, &we, &s, nar.cfg__nConceptBeliefs, nar.procNar.t)?; }
                        Ok(())
                    })
                };
                let bad = res.is_err();
                c.check(p != 0 || event, res, || format!("a new reasoner, then:\n  {}", hist.join("\n  ")));
                if bad { break; }
                old.push(x);
            }
        }
    });
}
use nar20_1::Tv::Tv;
