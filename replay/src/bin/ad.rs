#![allow(non_snake_case)]
use replay::*;
use nar20_1::ad::*;
use nar20_1::mlutils::*;
use nar20_1::Nn::*;
type D = (f64, f64);
fn a(x: D) -> Ad { Ad { r: x.0, d: x.1 } }
fn num(r: &mut Rng) -> f64 { match r.below(9) { 0 => 0.0, 1 => 1.0, 2 => -1.0, 3 => r.unit() * 1e-6, 4 => (r.below(21) as f64 - 10.0) / 4.0, _ => (r.unit() - 0.5) * 20.0 } }
fn dn(r: &mut Rng) -> D { (num(r), num(r)) }
fn near(x: f64, y: f64) -> bool { x == y || (x - y).abs() <= 1e-8 * (1.0f64).max(x.abs()).max(y.abs()) }
fn is(g: Result<Ad, String>, w: D) -> Result<(), String> { g.and_then(|g| if near(g.r, w.0) && near(g.d, w.1) { Ok(()) } else { Err(format!("value {:?} derivative {:?} want {:?} {:?}", g.r, g.d, w.0, w.1)) }) }
fn sig(x: D) -> D { let s = if x.0 >= 0.0 { 1.0 / (1.0 + (-x.0).exp()) } else { let e = x.0.exp(); e / (1.0 + e) }; let s1 = if x.0 >= 0.0 { let e = (-x.0).exp(); e / (1.0 + e) } else { 1.0 / (1.0 + x.0.exp()) }; (s, x.1 * (s * s1)) }
fn relu(x: D) -> D { if x.0 > 0.0 { x } else { (0.0, 0.0) } }
fn vs(g: Result<Vec<f64>, String>, w: Vec<f64>) -> Result<(), String> { g.and_then(|g| if g.len() == w.len() && g.iter().zip(&w).all(|(x, y)| near(*x, *y)) { Ok(()) } else { Err(format!("{:?} want {:?}", g, w)) }) }
fn one(g: Result<f64, String>, w: f64) -> Result<(), String> { g.and_then(|g| if near(g, w) { Ok(()) } else { Err(format!("{:?} want {:?}", g, w)) }) }
fn main() {
    drive(|c, _p| {
        let mut k = 0u64;
        while c.time() || k < 3000 {
            k += 1;
            let (x, y) = (dn(&mut c.rng), dn(&mut c.rng));
            let big = if c.rng.chance(0.3) { ((c.rng.unit() - 0.5) * 3000.0, x.1) } else { x };
            let n = 1 + c.rng.below(6);
            let (v, w): (Vec<D>, Vec<D>) = ((0..n).map(|_| dn(&mut c.rng)).collect(), (0..n).map(|_| dn(&mut c.rng)).collect());
            let (va, wa): (Vec<Ad>, Vec<Ad>) = (v.iter().map(|q| a(*q)).collect(), w.iter().map(|q| a(*q)).collect());
            let dt: D = v.iter().zip(&w).fold((0.0, 0.0), |s, (p, q)| (s.0 + p.0 * q.0, s.1 + p.0 * q.1 + p.1 * q.0));
            match k % 10 {
                0 => c.check(true, is(guard(|| add(&a(x), &a(y))), (x.0 + y.0, x.1 + y.1)), || format!("{:?} + {:?}", x, y)),
                1 => c.check(true, is(guard(|| sub(&a(x), &a(y))), (x.0 - y.0, x.1 - y.1)), || format!("{:?} - {:?}", x, y)),
                2 => c.check(true, is(guard(|| mul(&a(x), &a(y))), (x.0 * y.0, x.0 * y.1 + x.1 * y.0)), || format!("{:?} * {:?}", x, y)),
                3 => if y.0.abs() > 0.05 { c.check(true, is(guard(|| div(&a(x), &a(y))), (x.0 / y.0, x.1 / y.0 - x.0 / y.0 * (y.1 / y.0))), || format!("{:?} / {:?}", x, y)) },
                4 => c.check(true, is(guard(|| exp(&a(x))), (x.0.exp(), x.1 * x.0.exp())), || format!("exp {:?}", x)),
                5 => c.check(n > 1, is(guard(|| dot(&va, &wa)), dt), || format!("{:?} . {:?}", v, w)),
                6 => c.check(true, is(guard(|| reluAct(&a(x))), relu(x)), || format!("relu {:?}", x)),
                7 => c.check(true, is(guard(|| sigmoidAct(&a(big))), sig(big)), || format!("sigmoid {:?}", big)),
                8 => { let act = c.rng.below(3) as u32; let b = dn(&mut c.rng); let ne = Neuron { weights: wa, bias: a(b), act }; let s = (dt.0 + b.0, dt.1 + b.1); if s.0.abs() > 1e-9 || act != 0 { c.check(true, is(guard(|| calc(&va, &ne)), if act == 0 { relu(s) } else { sig(s) }), || format!("neuron with weights {:?} bias {:?} act {} on {:?}", w, b, act, v)) } }
                _ => {
                    let (p, q): (Vec<f64>, Vec<f64>) = (v.iter().map(|z| z.0).collect(), w.iter().map(|z| z.0).collect()); let f = num(&mut c.rng);
                    let z = |h: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { p.iter().zip(&q).map(|(x, y)| h(*x, *y)).collect() };
                    c.check(true, vs(guard(|| vecAddScale(&p, &q, f)), z(&|x, y| x + y * f)), || format!("{:?} + {:?} * {:?}", p, q, f));
                    c.check(true, vs(guard(|| vecAdd(&p, &q)), z(&|x, y| x + y)), || format!("{:?} + {:?}", p, q));
                    c.check(true, vs(guard(|| vecScale(&p, f)), z(&|x, _| x * f)), || format!("{:?} * {:?}", p, f));
                    let d = |x: &Vec<f64>, y: &Vec<f64>| x.iter().zip(y).map(|(x, y)| x * y).sum::<f64>();
                    c.check(true, one(guard(|| vecDot(&p, &q)), d(&p, &q)), || format!("{:?} . {:?}", p, q));
                    c.check(true, one(guard(|| vecLen(&p)), d(&p, &p).sqrt()), || format!("length of {:?}", p));
                    // long and short vectors
                    let k = *c.rng.pick(&[1.0, 1.0, 1e-9, 1e-4, 1e5, 1e20]); let (p, q): (Vec<f64>, Vec<f64>) = if d(&p, &p) > 1e-6 && d(&q, &q) > 1e-6 { (p.iter().map(|x| x * k).collect(), q.iter().map(|x| x * k).collect()) } else { (vec![], vec![]) };
                    if d(&p, &p) > 0.0 && d(&q, &q) > 0.0 { c.check(true, one(guard(|| calcCosineSim(&p, &q)), d(&p, &q) / (d(&p, &p).sqrt() * d(&q, &q).sqrt())).and_then(|_| if calcCosineSim(&p, &q).abs() <= 1.0 + 1e-9 { Ok(()) } else { Err("out of range".into()) }), || format!("cosine of {:?} and {:?}", p, q)); }
                    // networks from parameters
                    let (ni, n0, n1, s) = (c.rng.below(4), c.rng.below(4), c.rng.below(4), c.rng.below(3)); let need = s + n0 * (ni + 1) + n1 * (n0 + 1);
                    let len = need + c.rng.below(2); let ps: Vec<f64> = (0..len).map(|_| num(&mut c.rng)).collect();
                    let diff = if c.rng.chance(0.3) || len == 0 { None } else { Some(c.rng.below(len)) }; let act = c.rng.below(3) as u32;
                    let r = guard(|| { let mut i = s as i64; let n = buildNnFromParameters(&mut i, &ps, ni as i64, act, n0 as i64, n1 as i64, diff); (n, i) }).and_then(|(n, i)| {
                        if i != need as i64 { return Err(format!("{} parameters used want {}", i, need)); }
                        let mut at = s;
                        for (l, cnt, m, boost, ac) in [(&n.neuronsLayer0, n0, ni, 15.0, act), (&n.neuronsLayer1, n1, n0, 8.0, 1)] {
                            if l.len() != cnt { return Err(format!("{} neurons want {}", l.len(), cnt)); }
                            for x in l.iter() { if x.act != ac || x.weights.len() != m { return Err(format!("activation {} with {} inputs want {} {}", x.act, x.weights.len(), ac, m)); }
                                for (g, f) in x.weights.iter().map(|g| (g, 1.0)).chain(std::iter::once((&x.bias, boost))) { let w = (ps[at] * f, if diff == Some(at) { 1.0 } else { 0.0 }); if !near(g.r, w.0) || g.d != w.1 { return Err(format!("parameter {}: {:?} want {:?}", at, (g.r, g.d), w)); } at += 1; } }
                        }
                        Ok(())
                    });
                    c.check(true, r, || format!("network from {:?} at {} inputs {} layers {} {} act {} diff {:?}", ps, s, ni, n0, n1, act, diff));
                }
            }
        }
    });
}
