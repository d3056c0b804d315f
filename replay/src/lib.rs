//! Executable statements of the contracts, run against the real crate (path dependency on /repo).
//! Used to turn a failed proof obligation into a failing input, and as the bounded stand-in.
#![allow(non_snake_case)]
use nar20_1::Term::{Copula, Term};
use nar20_1::Tv::Tv;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03 | 1) }
    pub fn next(&mut self) -> u64 { let mut x = self.0; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % (n as u64)) as usize } }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Ctx { pub rng: Rng, pub deadline: Instant, pub start: Instant, pub budget: f64, pub prop: String, pub tier: String, pub n: u64, pub nontrivial: u64, pub exhaustive: u64, pub samples: Vec<String>, pub known: u64 }
impl Ctx {
    /// one evaluation; `r` is the verdict, `nt` says whether it exercised the interesting case
    pub fn check(&mut self, nt: bool, r: Result<(), String>, input: impl Fn() -> String) {
        self.n += 1;
        if nt { self.nontrivial += 1; if self.samples.len() < 3 && (self.nontrivial & (self.nontrivial - 1)) == 0 { let mut s = input(); s.truncate(s.char_indices().nth(200).map(|x| x.0).unwrap_or(s.len())); self.samples.push(s); } }
        if let Err(e) = r { self.fail(&e, &input()); }
    }
    pub fn fail(&mut self, why: &str, input: &str) -> ! {
        unquiet();
        println!("FAILING-INPUT property={}", self.prop);
        println!("input: {}", input);
        println!("observed: {}", why);
        println!("after {} evaluations, seed-reproducible", self.n);
        std::process::exit(1);
    }
    pub fn time(&self) -> bool { Instant::now() < self.deadline }
    /// deadline for the k-th of n equal phases
    pub fn phase(&mut self, k: usize, n: usize) { self.deadline = self.start + Duration::from_secs_f64(self.budget * (k as f64 + 1.0) / n as f64); }
}

/// silent catch of panics: a panic is reported as Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
        format!("panicked: {}", m)
    })
}

/// the crate under test prints; keep its output away from ours
mod quiet { extern "C" { fn dup(a: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; } 
    pub fn on() -> i32 { use std::os::fd::AsRawFd; unsafe { let s = dup(1); if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") { dup2(f.as_raw_fd(), 1); } s } }
    pub fn off(s: i32) { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { dup2(s, 1); } } }
static SAVED: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
pub fn unquiet() { let s = SAVED.swap(-1, std::sync::atomic::Ordering::SeqCst); if s >= 0 { quiet::off(s); } }

pub fn drive(f: impl FnOnce(&mut Ctx, &str)) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let tier = a.get(4).cloned().unwrap_or("quick".into());
    SAVED.store(quiet::on(), std::sync::atomic::Ordering::SeqCst);
    let now = Instant::now();
    let mut c = Ctx { rng: Rng::new(seed), deadline: now + Duration::from_secs_f64(budget), start: now, budget, prop: prop.clone(), tier, n: 0, nontrivial: 0, exhaustive: 0, samples: vec![], known: 0 };
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped_compat(|| { let r = guard(|| f(&mut c, &prop)); (r, c) });
    let (r, c) = r;
    unquiet();
    if let Err(e) = r { println!("HARNESS-ERROR {}", e); std::process::exit(3); }
    let q = |s: &String| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "));
    println!("STAT {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}, \"samples\": [{}]}}", c.n, c.nontrivial, c.start.elapsed().as_secs_f64(), c.samples.iter().map(q).collect::<Vec<_>>().join(","));
}
trait SpawnCompat { fn spawn_scoped_compat<T: Send>(self, f: impl FnOnce() -> T) -> T; }
impl SpawnCompat for std::thread::Builder {
    fn spawn_scoped_compat<T: Send>(self, f: impl FnOnce() -> T) -> T {
        // run on a big stack; everything is joined before returning
        struct P<F>(F); unsafe impl<F> Send for P<F> {}
        struct Q<R>(R); unsafe impl<R> Send for Q<R> {}
        let p = P(f);
        std::thread::scope(|s| { self.spawn_scoped(s, move || { let p = p; Q((p.0)()) }).unwrap().join().ok().unwrap().0 })
    }
}

pub mod sn;
pub mod nr;

// ------------------------------------------------------------------ terms
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct V { pub tag: u8, pub num: i64, pub name: String, pub kids: Vec<V> }
fn cop(c: &Copula) -> i64 { match c { Copula::SIM => 0, Copula::INH => 1, Copula::PREDIMPL => 2, Copula::IMPL => 3, Copula::EQUIV => 4 } }
pub fn uncop(n: i64) -> Copula { match n { 0 => Copula::SIM, 1 => Copula::INH, 2 => Copula::PREDIMPL, 3 => Copula::IMPL, _ => Copula::EQUIV } }
pub fn v(t: &Term) -> V {
    let nd = |tag, k: &Vec<Box<Term>>| V { tag, num: 0, name: String::new(), kids: k.iter().map(|x| v(x)).collect() };
    let lf = |tag, n: &String| V { tag, num: 0, name: n.clone(), kids: vec![] };
    match t {
        Term::Stmt(c, a, b) => V { tag: 0, num: cop(c), name: String::new(), kids: vec![v(a), v(b)] },
        Term::Name(n) => lf(1, n), Term::Seq(k) => nd(2, k), Term::SetInt(k) => nd(3, k), Term::SetExt(k) => nd(4, k),
        Term::QVar(n) => lf(5, n), Term::DepVar(n) => lf(6, n), Term::IndepVar(n) => lf(7, n), Term::Conj(k) => nd(8, k), Term::Prod(k) => nd(9, k),
        Term::Img(r, i, k) => { let mut x = nd(10, k); x.num = *i as i64; x.kids.push(v(r)); x }
        Term::IntInt(k) => nd(11, k), Term::ExtInt(k) => nd(12, k), Term::Par(k) => nd(13, k),
        Term::Neg(a) => V { tag: 14, num: 0, name: String::new(), kids: vec![v(a)] },
    }
}
pub fn t(x: &V) -> Term {
    let k = || x.kids.iter().map(|y| Box::new(t(y))).collect::<Vec<_>>();
    match x.tag {
        0 => Term::Stmt(uncop(x.num), Box::new(t(&x.kids[0])), Box::new(t(&x.kids[1]))),
        1 => Term::Name(x.name.clone()), 2 => Term::Seq(k()), 3 => Term::SetInt(k()), 4 => Term::SetExt(k()),
        5 => Term::QVar(x.name.clone()), 6 => Term::DepVar(x.name.clone()), 7 => Term::IndepVar(x.name.clone()), 8 => Term::Conj(k()), 9 => Term::Prod(k()),
        10 => { let mut kk = k(); let r = kk.pop().unwrap(); Term::Img(r, x.num as usize, kk) }
        11 => Term::IntInt(k()), 12 => Term::ExtInt(k()), 13 => Term::Par(k()),
        _ => Term::Neg(Box::new(t(&x.kids[0]))),
    }
}
pub fn name(s: &str) -> V { V { tag: 1, num: 0, name: s.into(), kids: vec![] } }
pub fn leaf(tag: u8, s: &str) -> V { V { tag, num: 0, name: s.into(), kids: vec![] } }
pub fn node(tag: u8, kids: Vec<V>) -> V { V { tag, num: 0, name: String::new(), kids } }
pub fn img(i: i64, rel: V, els: Vec<V>) -> V { let mut k = els; k.push(rel); V { tag: 10, num: i, name: String::new(), kids: k } }
pub fn stmt(c: i64, a: V, b: V) -> V { V { tag: 0, num: c, name: String::new(), kids: vec![a, b] } }
pub fn show(x: &V) -> String {
    let k = || x.kids.iter().map(show).collect::<Vec<_>>().join(" ");
    match x.tag {
        0 => format!("<{} {} {}>", show(&x.kids[0]), ["<->", "-->", "=/>", "==>", "<=>"][x.num as usize], show(&x.kids[1])),
        1 => format!("{:?}", x.name).trim_matches('"').to_string(), 5 => format!("?{}", x.name), 6 => format!("#{}", x.name), 7 => format!("${}", x.name),
        n => format!("{}{}({})", ["", "", "Seq", "SetInt", "SetExt", "", "", "", "Conj", "Prod", "Img", "IntInt", "ExtInt", "Par", "Neg"][n as usize], if n == 10 { format!("@{}", x.num) } else { String::new() }, k()),
    }
}
/// random value; at most `d` levels deep
pub fn gen(r: &mut Rng, d: usize, vars: f64) -> V {
    const NM: [&str; 4] = ["a", "b", "c", "^x"];
    if d == 0 || r.chance(0.25) {
        if r.chance(vars) { let tag = *r.pick(&[5u8, 6, 7]); return leaf(tag, *r.pick(&["0", "1", "y"])); }
        if r.chance(0.04) { let l = *r.pick(&["", "A", "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz", "\u{e9}\u{4e2d}", "aB", "a b", "^pick", "0"]); return name(l); }
        return name(*r.pick(&NM));
    }
    match r.below(18) {
        0..=4 => { let c = *r.pick(&[0i64, 1, 1, 1, 2, 3, 3, 4]); let a = gen(r, d - 1, vars); let b = if r.chance(0.1) { a.clone() } else { gen(r, d - 1, vars) }; stmt(c, a, b) }
        5 => node(14, vec![gen(r, d - 1, vars)]),
        6 | 7 => { let n = r.below(4); let els = (0..n).map(|_| gen(r, d - 1, vars)).collect(); let i = r.below(3) as i64; let rel = gen(r, d - 1, vars); img(i, rel, els) }
        k => { let tag = [2u8, 3, 4, 8, 9, 11, 12, 13, 9, 3][k - 8]; let n = if r.chance(0.05) { 0 } else if r.chance(0.04) { 5 + r.below(30) } else { 1 + r.below(4) }; let d = if n > 5 { d.min(2) } else { d }; node(tag, (0..n).map(|_| gen(r, d - 1, vars)).collect()) }
    }
}
/// changes exactly one thing somewhere in the value
pub fn mutate(r: &mut Rng, x: &V) -> V {
    let mut y = x.clone();
    if !y.kids.is_empty() && r.chance(0.75) { let i = r.below(y.kids.len()); y.kids[i] = mutate(r, &x.kids[i]); return y; }
    match r.below(6) {
        0 if y.kids.len() >= 2 && y.tag != 0 && y.tag != 10 => { y.kids.pop(); y }
        1 if y.tag != 0 && y.tag != 14 && !y.kids.is_empty() => { y.kids.push(name("z")); y }
        2 if y.kids.len() >= 2 => { let n = y.kids.len(); y.kids.swap(0, n - 1); y }
        3 if y.tag == 0 => { y.num = (y.num + 1 + r.below(4) as i64) % 5; y }
        3 if y.tag == 10 => { y.num += 1; y }
        4 if [2, 3, 4, 8, 9, 11, 12, 13].contains(&y.tag) => { y.tag = *r.pick(&[2u8, 3, 4, 8, 9, 11, 12, 13]); y }
        4 if [1, 5, 6, 7].contains(&y.tag) => { y.tag = *r.pick(&[1u8, 5, 6, 7]); y }
        _ => if y.kids.is_empty() && [1, 5, 6, 7].contains(&y.tag) { y.name = r.pick(&["a", "b", "q", "0", "1"]).to_string(); y } else { name("mut") },
    }
}
pub fn subs(x: &V) -> Vec<V> { let mut o = vec![x.clone()]; for k in &x.kids { o.extend(subs(k)); } o }
pub fn cpx(x: &V) -> u64 { (if [0, 1, 5, 6, 7, 14].contains(&x.tag) { 1 } else { 0 }) + x.kids.iter().map(cpx).sum::<u64>() }

// ------------------------------------------------------------------ truth values
pub fn gtv(r: &mut Rng) -> Tv { Tv { f: g01(r, true), c: g01(r, false) } }
pub fn g01(r: &mut Rng, one: bool) -> f64 {
    match r.below(8) { 0 => 0.0, 1 => if one { 1.0 } else { 0.99 }, 2 => 0.5, 3 => 0.9, 4 => r.unit() * 1e-9, 5 => 1.0 - r.unit() * 1e-6, _ => r.unit() }.min(if one { 1.0 } else { 1.0 - 1e-9 })
}
pub fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-9 * (1.0f64).max(a.abs()).max(b.abs()) }
pub fn tvs(a: &Tv) -> String { format!("{{{:?} {:?}}}", a.f, a.c) }
pub fn tveq(got: &Tv, want: (f64, f64)) -> Result<(), String> { if close(got.f, want.0) && close(got.c, want.1) { Ok(()) } else { Err(format!("truth value {} but the rule requires {{{:?} {:?}}}", tvs(got), want.0, want.1)) } }
pub mod o { // oracle formulas
    use super::Tv;
    pub fn w2c(w: f64) -> f64 { w / (w + 1.0) }
    pub fn c2w(c: f64) -> f64 { c / (1.0 - c) }
    pub fn ded(a: &Tv, b: &Tv) -> (f64, f64) { (a.f * b.f, a.f * b.f * a.c * b.c) }
    pub fn neg(a: &Tv) -> (f64, f64) { (1.0 - a.f, a.c) }
    pub fn abd(a: &Tv, b: &Tv) -> (f64, f64) { (a.f, w2c(b.f * a.c * b.c)) }
    pub fn ind(a: &Tv, b: &Tv) -> (f64, f64) { abd(b, a) }
    pub fn int(a: &Tv, b: &Tv) -> (f64, f64) { (a.f * b.f, a.c * b.c) }
    pub fn comp(a: &Tv, b: &Tv) -> (f64, f64) { let f0 = 1.0 - (1.0 - a.f) * (1.0 - b.f); (if f0.abs() < 1.0e-8 { 0.0 } else { a.f * b.f / f0 }, w2c(f0 * a.c * b.c)) }
    pub fn rev(a: &Tv, b: &Tv) -> (f64, f64) { let (w1, w2) = (c2w(a.c), c2w(b.c)); (if w1 + w2 > 0.0 { (w1 * a.f + w2 * b.f) / (w1 + w2) } else { 0.0 }, w2c(w1 + w2)) }
    pub fn exp(a: &Tv) -> f64 { a.c * (a.f - 0.5) + 0.5 }
    pub fn dedgoal(a: &Tv, b: &Tv) -> (f64, f64) { let d1 = ded(a, b); let n = neg(a); let d2 = ded(&Tv { f: n.0, c: n.1 }, b); if d1.1 >= d2.1 { d1 } else { (1.0 - d2.0, d2.1) } }
}
