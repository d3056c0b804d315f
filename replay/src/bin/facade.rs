#![allow(non_snake_case)]
use replay::*;
use replay::sn::*;
use replay::nr::*;
use nar20_1::Nar::*;
use nar20_1::NarProc::AnticipationEvent;
use nar20_1::NarInputFacade::input;
use nar20_1::NarWorkingCycle::debugCreditsOfTasks;
use parking_lot::RwLock;
use std::sync::atomic::Ordering;
use std::sync::Arc;
fn names(n: &Nar) -> Vec<String> { n.procNar.ops.iter().map(|o| o.retName()).collect() }
fn exact(s: &str) -> bool { ["!spA", "!spB", "!dtf", "!pse", "!peb 0", "!peb 1", "!dt", "!dmd", "!QQ", ""].contains(&s) }
fn same(a: &Nar, b: &Nar) -> Result<(), String> {
    let ((d, m, e, p), (d2, m2, e2, p2)) = (dig(a), dig(b)); diff(&d, &d2)?; cmp_same(&m, &m2)?; cmp_same(&e, &e2)?; cmp_same(&p, &p2)?;
    if names(a) != names(b) { return Err(format!("ops {:?} want {:?}", names(a), names(b))); }
    if a.procNar.cfgEnBabbling != b.procNar.cfgEnBabbling { return Err(format!("babbling {} want {}", a.procNar.cfgEnBabbling, b.procNar.cfgEnBabbling)); }
    Ok(())
}
fn anti(n: &mut Nar) { let s = mkc(3); n.procNar.anticipatedEvents.push(AnticipationEvent { evi: Arc::new(RwLock::new(s)), deadline: n.procNar.t }); }
fn mkc(id: i64) -> nar20_1::NarSentence::Sentence { let mut r = Rng::new(7); let x = stmt(2, name("zz"), name("yy")); let mut s = mk(&mut r, &x, 0, &[id]); s.evi = Some(nar20_1::NarSentence::Evidence::CNT { pos: 1, cnt: 2 }); s }
fn main() {
    drive(|c, _p| {
        let mut k = 0u64;
        while c.time() || k < 120 {
            k += 1;
            // a is told the lines, b gets what the lines mean
            let (mut a, mut b) = (createNar(), createNar());
            let mut hist: Vec<String> = vec![];
            for _ in 0..1 + c.rng.below(14) {
                let x = { let d = 1 + c.rng.below(2); gt(&mut c.rng, d) };
                let x = if x.tag == 0 && x.num == 2 { stmt(2, node(2, vec![name("a"), opcall(&mut c.rng)]), name("b")) } else { x };
                let mut s: String = match c.rng.below(16) {
                    0 => format!("//{}", c.rng.pick(&["", "!QQ", " x", "<a --> b>."])),
                    1 => (*c.rng.pick(&["", "!QQ", "!pse", "!dt", "!dmd", "!dtf"])).into(),
                    2 => (*c.rng.pick(&["!peb 0", "!peb 1", "!peb 2", "!peb", "!peb 0 ", "!peb 10"])).into(),
                    3 => (*c.rng.pick(&["!por execinj", "!por nlpRel0", "!por NOP ^x", "!por NOP ^left", "!por  NOP \t^up ", "!por NOP", "!por execinj ^x", "!por nop ^x", "!por ", "!por", "!por NOP ^a ^b", "!porNOP ^x", "!por nlpRel1", "!por X ^y", "!por NOP ^\u{e4}"])).into(),
                    4 => if c.rng.chance(0.3) { (*c.rng.pick(&["!sp", "!spA", "!spB", "!spC", "!sp ", "!spAA", "!spBx"])).into() } else { (*c.rng.pick(&["!s", "!s0", "!s2", "!s3", "!s12", "!s-1", "!s+2", "!s 2", "!sx", "!s2.0", "!s\u{e4}", "!s99999999999999999999", "!S"])).into() },
                    5 => (*c.rng.pick(&["!.nlp ", "!.nlp", "!.nlp2 a", "!.nlp\n", "!.nl x"])).into(),
                    6 => (*c.rng.pick(&["!", "/", "!d", "!Q", "!QQ ", " !QQ", "!QQQ", "\u{e4}", "\u{20ac}", "!\u{20ac}", "/\u{e4}", "!dt ", "!dmdx", "\n!QQ", "!p\u{20ac}", "!.nl\u{20ac}", "x\u{20ac}y\u{20ac}"])).into(),
                    7 => (*c.rng.pick(&["nonsense", "<a -> b>.", "a", "?"])).into(),
                    _ => format!("{}{}{}", wr(&x), c.rng.pick(&[".", "?", "!"]), if c.rng.chance(0.4) { " :|:" } else { "" }),
                };
                if s.starts_with("!por") && c.rng.chance(0.4) { // words of any kind
                    let mut w = |r: &mut Rng| (0..1 + r.below(6)).map(|_| *r.pick(&['^', 'a', 'B', 'z', 'Q', '0', '_', '-', '\u{e4}', '\u{c4}', '\u{20ac}', '!', '{', '"'])).collect::<String>();
                    let a = if c.rng.chance(0.6) { "NOP".to_string() } else { w(&mut c.rng) }; let b = format!("^{}", w(&mut c.rng));
                    let sp = *c.rng.pick(&[" ", "  ", "\t", " \u{a0}"]);
                    s = format!("!por {}{}{}{}", a, sp, b, c.rng.pick(&["", "", " ", " x"]));
                }
                let tail = *c.rng.pick(&["", "", "\n", "\r\n", "\n\n", "\r", "\n\r\n"]);
                if c.rng.chance(0.1) && s.starts_with('!') { s.truncate(s.char_indices().map(|q| q.0).nth(c.rng.below(8)).unwrap_or(s.len())); }
                let line = format!("{}{}", s, tail);
                let s = { let mut q = s.as_str(); while q.ends_with('\n') || q.ends_with('\r') { q = &q[..q.len() - 1]; } q.to_string() };
                hist.push(format!("{:?}", line));
                let mut quit = c.rng.chance(0.5);
                let cyc = |n: &Nar| n.mem.read().shared.read().cycleCounter.load(Ordering::SeqCst);
                let stepping = s.starts_with("!sp"); let cycling = s.starts_with("!s") && !stepping;
                if stepping { anti(&mut a); anti(&mut b); }
                let (c0, t0) = (cyc(&a), a.procNar.t);
                let mut done = false; // what reasoning does is not compared, so the history ends
                let n = s.get(2..).unwrap_or("").parse::<i64>().ok();
                let res = guard(|| input(&mut a, &line, &mut quit)).and_then(|r| {
                    if quit != (s == "!QQ") { return Err(format!("quit is {}", quit)); }
                    if s != "!dt" && s != "!dmd" && !r.is_empty() { return Err(format!("answers {:?}", r)); }
                    if stepping {
                        done = true;
                        let (w0, w1) = (s != "!spB", s != "!spA"); let (g0, g1) = (a.procNar.anticipatedEvents.is_empty(), a.procNar.t == t0 + 1);
                        if a.procNar.t != t0 && !g1 { return Err(format!("the time went from {} to {}", t0, a.procNar.t)); }
                        return if (g0, g1) != (w0, w1) { Err(format!("first half of the step done: {} want {}, second half: {} want {}", g0, w0, g1, w1)) } else { Ok(()) };
                    }
                    if cycling && (s.len() == 2 || n.is_some()) {
                        done = true; let w = if s.len() == 2 { 1 } else { n.unwrap().max(0) }; let g = cyc(&a) - c0;
                        return if g != w { Err(format!("{} cycles want {}", g, w)) } else if a.procNar.t != t0 { Err("the procedural time changed".into()) } else { Ok(()) };
                    }
                    if s == "!dtf" { let m = a.mem.read(); let sh = m.shared.read(); if !sh.judgementTasks.is_empty() || !sh.judgementTasksByTerm.read().is_empty() { return Err("tasks are left".into()); } drop(sh); drop(m); let m = b.mem.read(); let mut sh = m.shared.write(); sh.judgementTasks.clear(); sh.judgementTasksByTerm.write().clear(); drop(sh); drop(m); let r = { let (d, m, e, p) = dig(&a); let (d2, m2, e2, p2) = dig(&b); let mut d1 = d.clone(); d1.q = d2.q.clone(); diff(&d1, &d2)?; cmp_same(&m, &m2)?; cmp_same(&e, &e2)?; cmp_same(&p, &p2) }; done = true; return r; }
                    if s == "!dt" { let w = debugCreditsOfTasks(&*b.mem.read()); if r != w { return Err(format!("answers {:?} want {:?}", r, w)); } }
                    if s == "!dmd" { let w = format!("concept count = {}", b.mem.read().shared.read().mem.read().concepts.len()); if r != vec![w.clone()] { return Err(format!("answers {:?} want {:?}", r, w)); } }
                    if s.starts_with("!por ") {
                        let w: Vec<&str> = s[5..].split_whitespace().collect(); let mut want = names(&b);
                        let nm = match w.len() { 1 if w[0] == "execinj" => Some("^nal9_exeAndInject"), 1 if w[0] == "nlpRel0" => Some("^nlpRel0"), 2 if w[0] == "NOP" => Some(w[1]), _ => None };
                        if let Some(x) = nm { want.push(x.to_string()); }
                        if names(&a) != want { return Err(format!("ops {:?} want {:?}", names(&a), want)); }
                        if let Some(_) = nm { let o = a.procNar.ops.last().unwrap().clone(); b.procNar.ops.push(o); }
                    }
                    else if s == "!peb 0" { b.procNar.cfgEnBabbling = false; } else if s == "!peb 1" { b.procNar.cfgEnBabbling = true; }

                    else if !s.starts_with("//") && !exact(&s) && !cycling { inputN(&mut b, &s); }
                    same(&a, &b)
                });
                let bad = res.is_err();
                c.check(s.starts_with('!'), res, || format!("a new reasoner, then the lines:\n  {}", hist.join("\n  ")));
                if bad || done { break; }
            }
        }
    });
}
