//! the state of a reasoner as a value
use crate::*;
use crate::sn::*;
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem::retEntries;
use std::sync::atomic::Ordering;
pub const COP: [&str; 5] = [" <-> ", " --> ", " =/> ", " ==> ", " <=> "];
pub fn wr(x: &V) -> String {
    let j = |sp: &str| format!("({})", x.kids.iter().map(wr).collect::<Vec<_>>().join(sp));
    match x.tag {
        0 => format!("<{}{}{}>", wr(&x.kids[0]), COP[x.num as usize], wr(&x.kids[1])), 1 => x.name.clone(), 5 => format!("?{}", x.name), 6 => format!("#{}", x.name), 7 => format!("${}", x.name),
        2 => j(","), 8 => j("&&"), 9 => j("*"), 11 => j("|"), 12 => j("&"), 3 => format!("[{}]", wr(&x.kids[0])), 4 => format!("{{{}}}", wr(&x.kids[0])), 14 => format!("(!{})", wr(&x.kids[0])),
        _ => format!("({} /{} {})", wr(&x.kids[1]), x.num + 1, wr(&x.kids[0])),
    }
}
pub fn gt(r: &mut Rng, d: usize) -> V {
    if d == 0 || r.chance(0.2) { let n = r.pick(&["a", "b", "c", "AB"]).to_string(); let tag = if r.chance(0.2) { *r.pick(&[5u8, 6, 7]) } else { 1 }; return leaf(tag, &n); }
    let mut g = |n: usize, r: &mut Rng| (0..n).map(|_| gt(r, d - 1)).collect::<Vec<V>>();
    match r.below(14) {
        0..=5 => { let k = g(2, r); stmt(*r.pick(&[0i64, 1, 1, 1, 2, 3, 4]), k[0].clone(), k[1].clone()) }
        6 => node(3, g(1, r)), 7 => node(4, g(1, r)), 8 => node(14, g(1, r)),
        9 => { let k = g(2, r); img(r.below(2) as i64, k[0].clone(), vec![k[1].clone()]) }
        10 => { let n = 2 + r.below(2); node(2, g(n, r)) } 11 => { let n = 2 + r.below(2); node(9, g(n, r)) } 12 => { let n = 2 + r.below(2); node(8, g(n, r)) }
        _ => node(11, g(2, r)),
    }
}
pub fn opcall(r: &mut Rng) -> V { stmt(1, node(4, vec![node(9, vec![node(4, vec![name("SELF")]), name("a")])]), name(*r.pick(&["^left", "^x"]))) }
/// everything the reasoner holds
#[derive(Clone, PartialEq, Debug)]
pub struct D { pub jt: Vec<(S, i64)>, pub ix: Vec<(V, Vec<i64>)>, pub q: Vec<S>, pub goals: Vec<(S, i64, i64, bool)>, pub tr: Vec<(V, i64, i64)>, pub stamp: i64, pub tid: i64, pub cyc: i64, pub t: i64, pub ops: usize, pub anti: usize }
pub fn dig(n: &Nar) -> (D, MM, MM, MM) {
    let m = n.mem.read(); let s = m.shared.read();
    let mut ix: Vec<(V, Vec<i64>)> = s.judgementTasksByTerm.read().iter().map(|(k, l)| (v(k), l.iter().map(|x| x.read().id).collect())).collect(); ix.sort();
    let mut goals: Vec<(S, i64, i64, bool)> = retEntries(&n.procNar.goalSystem.read()).iter().map(|e| { let e = e.read(); (sv(&e.sentence), e.depth, e.createTime, e.evidence.is_some()) }).collect(); goals.sort_by(|a, b| (&a.0.t, &a.0.ids).cmp(&(&b.0.t, &b.0.ids)));
    let d = D { jt: s.judgementTasks.iter().map(|x| { let x = x.read(); (sv(&x.sentence), x.id) }).collect(), ix, q: s.questionTasks.read().iter().map(|x| sv(&x.sentence)).collect(), goals, tr: n.procNar.trace.ret_view().iter().map(|x| (v(&x.name), x.evi, x.occT)).collect(), stamp: s.stampIdCounter.load(Ordering::SeqCst), tid: s.taskIdCounter.load(Ordering::SeqCst), cyc: s.cycleCounter.load(Ordering::SeqCst), t: n.procNar.t, ops: n.procNar.ops.len(), anti: n.procNar.anticipatedEvents.len() };
    let r = (d, snap(&s.mem.read()), snap(&n.procNar.evidenceMem.read()), snap(&s.procMem.read())); r
}
pub fn diff(g: &D, w: &D) -> Result<(), String> {
    if g == w { return Ok(()); }
    let l = |a: &Vec<S>| a.iter().map(|x| x.show()).collect::<Vec<_>>().join("; ");
    if g.q != w.q { return Err(format!("questions [{}] want [{}]", l(&g.q), l(&w.q))); }
    if g.jt != w.jt { return Err(format!("judgement tasks {} want {}; last {:?} want {:?}", g.jt.len(), w.jt.len(), g.jt.last().map(|x| x.0.show()), w.jt.last().map(|x| x.0.show()))); }
    if g.goals != w.goals { return Err(format!("goals {:?} want {:?}", g.goals.iter().map(|x| (x.0.show(), x.1, x.2, x.3)).collect::<Vec<_>>(), w.goals.iter().map(|x| (x.0.show(), x.1, x.2, x.3)).collect::<Vec<_>>())); }
    if g.tr != w.tr { return Err(format!("events {:?} want {:?}", g.tr.iter().map(|x| (show(&x.0), x.1, x.2)).collect::<Vec<_>>(), w.tr.iter().map(|x| (show(&x.0), x.1, x.2)).collect::<Vec<_>>())); }
    if g.ix != w.ix { return Err("the tasks are not filed under the same terms".into()); }
    Err(format!("counters (stamp, task, cycle, time, ops, anticipated) {:?} want {:?}", (g.stamp, g.tid, g.cyc, g.t, g.ops, g.anti), (w.stamp, w.tid, w.cyc, w.t, w.ops, w.anti)))
}
