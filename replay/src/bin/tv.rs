#![allow(non_snake_case)]
use replay::*;
use nar20_1::Tv::*;
fn inr(t: &Tv) -> Result<(), String> { if t.f >= -1e-12 && t.f <= 1.0 + 1e-12 && t.c >= -1e-12 && t.c <= 1.0 + 1e-12 { Ok(()) } else { Err(format!("result {} outside [0,1]", tvs(t))) } }
fn main() {
    drive(|c, p| {
        let grid: Vec<f64> = vec![0.0, 1e-300, 1e-17, 1e-12, 9e-9, 1.1e-8, 1e-7, 1e-3, 0.1, 0.25, 1.0 / 3.0, 0.5, 0.51, 0.75, 0.9, 0.99, 0.998, 0.999999, 1.0 - 1e-12, 1.0];
        let mut cases: Vec<(Tv, Tv)> = vec![];
        for &f1 in &grid { for &c1 in &grid { for &f2 in &grid { for &c2 in &grid { if c1 < 1.0 && c2 < 1.0 { cases.push((Tv { f: f1, c: c1 }, Tv { f: f2, c: c2 })); } } } } }
        c.exhaustive = cases.len() as u64;
        let mut k = 0;
        loop {
            if k >= cases.len() && !c.time() { break; }
            let (a, b) = if k < cases.len() { (Tv { ..cases[k].0 }, Tv { ..cases[k].1 }) } else { (gtv(&mut c.rng), gtv(&mut c.rng)) };
            k += 1;
            let s = || format!("a={} b={}", tvs(&a), tvs(&b));
            let two: Vec<(&str, fn(&Tv, &Tv) -> Tv, fn(&Tv, &Tv) -> (f64, f64))> = vec![("deduction", ded, o::ded), ("goal deduction", dedGoal, o::dedgoal), ("abduction", abd, o::abd), ("induction", ind, o::ind), ("comparison", comp, o::comp), ("intersection", int, o::int), ("revision", rev, o::rev)];
            match p {
                "C01" => {
                    for (n, f, _) in &two { let r = guard(|| f(&a, &b)).and_then(|x| inr(&x)).map_err(|e| format!("{}: {}", n, e)); c.check(true, r, s); }
                    c.check(true, guard(|| neg(&a)).and_then(|x| inr(&x)).map_err(|e| format!("negation: {}", e)), s);
                    let e = calcExp(&a); c.check(true, if e >= -1e-12 && e <= 1.0 + 1e-12 { Ok(()) } else { Err(format!("expectation {:?}", e)) }, s);
                }
                "C02" => {
                    for (n, f, g) in &two[..6] {
                        // the 1e-8 cut-off of comparison is not compared at the cut itself
                        if *n == "comparison" { let f0 = 1.0 - (1.0 - a.f) * (1.0 - b.f); if (f0 - 1.0e-8).abs() < 1e-10 { continue; } if f0 < 1e-7 { let g = comp(&a, &b); if f0 < 0.99e-8 { c.check(true, if g.f == 0.0 { Ok(()) } else { Err(format!("comparison with no positive evidence gives frequency {:?}", g.f)) }, s); } continue; } }
                        if *n == "goal deduction" { let d1 = o::ded(&a, &b); let na = o::neg(&a); let d2 = o::ded(&Tv { f: na.0, c: na.1 }, &b); if (d1.1 - d2.1).abs() < 1e-12 { continue; } }
                        let r = guard(|| f(&a, &b)).and_then(|x| tveq(&x, g(&a, &b))).map_err(|e| format!("{}: {}", n, e)); c.check(a.c > 0.0 && b.c > 0.0, r, s);
                    }
                    c.check(true, tveq(&neg(&a), o::neg(&a)).map_err(|e| format!("negation: {}", e)), s);
                    c.check(true, if close(calcExp(&a), o::exp(&a)) { Ok(()) } else { Err(format!("expectation {:?} want {:?}", calcExp(&a), o::exp(&a))) }, s);
                    let w = c2w(a.c); c.check(true, if (w - o::c2w(a.c)).abs() <= 1e-6 * (1.0 + w.abs()) { Ok(()) } else { Err(format!("confidence to weight {:?}", w)) }, s);
                    c.check(true, if close(w2c(b.f * 10.0), o::w2c(b.f * 10.0)) { Ok(()) } else { Err("weight to confidence".into()) }, s);
                }
                _ => {
                    let r = guard(|| rev(&a, &b)).and_then(|x| {
                        tveq(&x, o::rev(&a, &b))?;
                        let y = rev(&b, &a); tveq(&y, (x.f, x.c)).map_err(|e| format!("not symmetric: {}", e))?;
                        if x.c < a.c.max(b.c) - 1e-12 { return Err(format!("confidence {:?} below an input", x.c)); }
                        if a.c > 1e-6 && b.c > 1e-6 && a.c < 0.9999 && b.c < 0.9999 && x.c <= a.c.max(b.c) { return Err(format!("confidence {:?} did not rise", x.c)); }
                        if a.c + b.c > 0.0 && (x.f < a.f.min(b.f) - 1e-9 || x.f > a.f.max(b.f) + 1e-9) { return Err(format!("frequency {:?} outside the inputs' range", x.f)); }
                        Ok(())
                    });
                    c.check(a.c > 0.0 && b.c > 0.0, r, s);
                    // order of accumulation does not matter
                    let d = gtv(&mut c.rng);
                    if a.c < 0.999 && b.c < 0.999 && d.c < 0.999 {
                        let x = rev(&rev(&a, &b), &d); let y = rev(&a, &rev(&b, &d));
                        c.check(true, if a.c + b.c > 1e-3 && b.c + d.c > 1e-3 && ((x.f - y.f).abs() > 1e-6 || (x.c - y.c).abs() > 1e-6) { Err(format!("grouping changes the result: {} vs {}", tvs(&x), tvs(&y))) } else { Ok(()) }, || format!("{} d={}", s(), tvs(&d)));
                    }
                    // vectors
                    let n = c.rng.below(5); let va: Vec<Tv> = (0..n).map(|_| gtv(&mut c.rng)).collect(); let m = c.rng.below(5); let vb: Vec<Tv> = (0..m).map(|_| gtv(&mut c.rng)).collect();
                    let r = guard(|| nar20_1::TvVec::revVec(&va, &vb)).and_then(|x| { if x.len() != n.min(m) { return Err(format!("length {}", x.len())); } for i in 0..x.len() { tveq(&x[i], o::rev(&va[i], &vb[i]))?; } Ok(()) });
                    c.check(n > 0 && m > 0, r, || format!("vector revision of {:?} and {:?}", va.iter().map(tvs).collect::<Vec<_>>(), vb.iter().map(tvs).collect::<Vec<_>>()));
                    let r = guard(|| nar20_1::TvVec::foldVec(&va)).and_then(|x| { let mut w = 0.0; let mut wf = 0.0; for i in &va { w += o::c2w(i.c); wf += o::c2w(i.c) * i.f; } if w > 1e6 { return Ok(()); } tveq(&x, (if w > 0.0 { wf / w } else { 0.0 }, o::w2c(w))) });
                    c.check(n > 0, r, || format!("fold of {:?}", va.iter().map(tvs).collect::<Vec<_>>()));
                    let r = guard(|| nar20_1::TvVec::compVec(&va, &vb)).and_then(|x| { if x.len() != n.min(m) { return Err(format!("length {}", x.len())); } Ok(()) });
                    c.check(n > 0 && m > 0, r, || "vector comparison".into());
                }
            }
        }
    });
}
