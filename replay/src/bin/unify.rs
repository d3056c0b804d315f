#![allow(non_snake_case)]
use replay::*;
use nar20_1::NarUnify::*;
use std::collections::BTreeMap;
type M = BTreeMap<V, V>;
fn isvar(x: &V) -> bool { [5, 6, 7].contains(&x.tag) }
fn mat(x: &V, y: &V, m: &mut M) -> bool {
    if isvar(x) { if isvar(y) { return false; } match m.get(x) { Some(z) => z == y, None => { m.insert(x.clone(), y.clone()); true } } }
    else { x.tag == y.tag && x.num == y.num && x.name == y.name && x.kids.len() == y.kids.len() && x.kids.iter().zip(&y.kids).all(|(a, b)| mat(a, b, m)) }
}
fn app(x: &V, m: &M) -> V { if isvar(x) { m.get(x).cloned().unwrap_or(x.clone()) } else { let mut y = x.clone(); for k in y.kids.iter_mut() { *k = app(k, m); } y } }
fn sm(m: &M) -> String { m.iter().map(|(a, b)| format!("{}={}", show(a), show(b))).collect::<Vec<_>>().join(", ") }
fn vars(x: &V, o: &mut Vec<V>) { if isvar(x) { if !o.contains(x) { o.push(x.clone()); } } for k in &x.kids { vars(k, o); } }
fn main() {
    drive(|c, p| {
        let mut k = 0u64;
        while c.time() || k < 2000 {
            k += 1;
            let d = 1 + c.rng.below(5);
            let x = gen(&mut c.rng, d, *[0.1, 0.4, 0.8].iter().nth((k % 3) as usize).unwrap());
            let mut vv = vec![]; vars(&x, &mut vv);
            let mut m = M::new();
            let pv = if c.rng.chance(0.2) { 0.5 } else { 0.0 };
            for q in &vv { if p == "C08" || c.rng.chance(0.8) { let dd = c.rng.below(3); let z = gen(&mut c.rng, dd, pv); m.insert(q.clone(), z); } }
            if p == "C08" {
                // instances, near misses, arbitrary terms
                let inst = app(&x, &m);
                let y = match c.rng.below(6) { 0..=2 => inst, 3 => mutate(&mut c.rng, &inst), 4 => mutate(&mut c.rng, &x), _ => gen(&mut c.rng, d, 0.2) };
                let mut want = M::new();
                let ok = mat(&x, &y, &mut want);
                let (tx, ty) = (t(&x), t(&y));
                let s = || format!("pattern={} term={}", show(&x), show(&y));
                let r = guard(|| unify(&tx, &ty).map(|a| { let n = a.len(); let l: Vec<(V, V)> = a.iter().map(|q| (v(&q.var), v(&q.val))).collect(); let sub = v(&unifySubst(&tx, &a)); (n, l, sub) }));
                c.check(ok && !want.is_empty(), r.and_then(|g| match (g, ok) {
                    (None, false) => Ok(()),
                    (None, true) => Err(format!("not unified, but {{{}}} unifies", sm(&want))),
                    (Some((_, l, _)), false) => Err(format!("unified with {}, but nothing unifies", l.iter().map(|(a, b)| format!("{}={}", show(a), show(b))).collect::<Vec<_>>().join(", "))),
                    (Some((n, l, sub)), true) => {
                        let got: M = l.iter().cloned().collect();
                        if got.len() != n { Err(format!("a variable is bound more than once: {}", l.iter().map(|(a, b)| format!("{}={}", show(a), show(b))).collect::<Vec<_>>().join(", "))) }
                        else if got != want { Err(format!("bindings {{{}}} want {{{}}}", sm(&got), sm(&want))) }
                        else if sub != y { Err(format!("the substituted pattern is {}", show(&sub))) } else { Ok(()) }
                    }
                }), s);
            } else {
                if c.rng.chance(0.3) { m.insert(leaf(*c.rng.pick(&[5u8, 6, 7]), "zz"), name("unused")); }
                let mut order: Vec<(V, V)> = m.clone().into_iter().collect();
                if !order.is_empty() && c.rng.chance(0.5) { let i = c.rng.below(order.len()); order.swap(0, i); }
                let asg: Vec<Asgnment> = order.iter().map(|(a, b)| Asgnment { var: t(a), val: t(b) }).collect();
                let want = app(&x, &m);
                let tx = t(&x);
                c.check(want != x, guard(|| v(&unifySubst(&tx, &asg))).and_then(|g| if g == want { Ok(()) } else { Err(format!("substituted to {} want {}", show(&g), show(&want))) }), || format!("term={} bindings={{{}}}", show(&x), sm(&m)));
            }
        }
    });
}
