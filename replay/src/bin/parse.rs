#![allow(non_snake_case)]
use replay::*;
use nar20_1::NarSentence::EnumPunctation;
use nar20_1::NarseseParser::*;
use nar20_1::Tv::Tv;
// ---- an independent reader: looks at the text once, from left to right
fn sign(c: char) -> bool { c.is_alphanumeric() || "-_^".contains(c) }
fn at(s: &[char], p: usize, t: &str) -> Option<usize> { let t: Vec<char> = t.chars().collect(); if s.len() >= p + t.len() && s[p..p + t.len()] == t[..] { Some(p + t.len()) } else { None } }
fn nm(s: &[char], p: usize) -> Option<(String, usize)> { let mut q = p; while q < s.len() && sign(s[q]) { q += 1; } if q == p { None } else { Some((s[p..q].iter().collect(), q)) } }
const COP: [&str; 5] = [" <-> ", " --> ", " =/> ", " ==> ", " <=> "];
fn rd(s: &[char], p: usize) -> Option<(V, usize)> {
    match s.get(p)? {
        '?' => nm(s, p + 1).map(|(n, q)| (leaf(5, &n), q)), '#' => nm(s, p + 1).map(|(n, q)| (leaf(6, &n), q)), '$' => nm(s, p + 1).map(|(n, q)| (leaf(7, &n), q)),
        '[' => { let (x, q) = rd(s, p + 1)?; Some((node(3, vec![x]), at(s, q, "]")?)) }
        '{' => { let (x, q) = rd(s, p + 1)?; Some((node(4, vec![x]), at(s, q, "}")?)) }
        '<' => { let (x, q) = rd(s, p + 1)?; let k = COP.iter().position(|c| at(s, q, c).is_some())?; let (y, q) = rd(s, q + 5)?; Some((stmt(k as i64, x, y), at(s, q, ">")?)) }
        '(' => {
            if let Some(q) = at(s, p, "(!") { let (x, q) = rd(s, q)?; return Some((node(14, vec![x]), at(s, q, ")")?)); }
            let (x, q) = rd(s, p + 1)?;
            for (i, m) in [" /1 ", " /2 "].iter().enumerate() { if let Some(q) = at(s, q, m) { let (y, q) = rd(s, q)?; return Some((img(i as i64, x, vec![y]), at(s, q, ")")?)); } }
            let (tag, sp, hi) = if at(s, q, ",").is_some() { (2u8, ",", usize::MAX) } else if at(s, q, "*").is_some() { (9, "*", usize::MAX) } else if at(s, q, "&&").is_some() { (8, "&&", 4) } else if at(s, q, "&").is_some() { (12, "&", 2) } else if at(s, q, "|").is_some() { (11, "|", 2) } else { return None };
            let (mut ks, mut q) = (vec![x], q);
            while let Some(q2) = at(s, q, sp) { let (y, q3) = rd(s, q2)?; ks.push(y); q = q3; }
            if ks.len() > hi { return None; }
            Some((node(tag, ks), at(s, q, ")")?))
        }
        _ => nm(s, p).map(|(n, q)| (name(&n), q)),
    }
}
fn wr(x: &V) -> String {
    let j = |sp: &str| format!("({})", x.kids.iter().map(wr).collect::<Vec<_>>().join(sp));
    match x.tag {
        0 => format!("<{}{}{}>", wr(&x.kids[0]), COP[x.num as usize], wr(&x.kids[1])), 1 => x.name.clone(), 5 => format!("?{}", x.name), 6 => format!("#{}", x.name), 7 => format!("${}", x.name),
        2 => j(","), 8 => j("&&"), 9 => j("*"), 11 => j("|"), 12 => j("&"), 3 => format!("[{}]", wr(&x.kids[0])), 4 => format!("{{{}}}", wr(&x.kids[0])), 14 => format!("(!{})", wr(&x.kids[0])),
        _ => format!("({} /{} {})", wr(&x.kids[1]), x.num + 1, wr(&x.kids[0])),
    }
}
fn gt(r: &mut Rng, d: usize) -> V {
    if d == 0 || r.chance(0.2) {
        let n = match r.below(24) { 0 => "x".repeat(510 + r.below(4)), 1 => "\u{e9}\u{4e2d}".into(), 2 => "-".into(), 3 => "^left".into(), 4 => "a-b_c".into(), 5 => "0".into(), 6 => "\u{b2}".into(), _ => r.pick(&["a", "b", "c", "AB"]).to_string() };
        let tag = if r.chance(0.3) { *r.pick(&[5u8, 6, 7]) } else { 1 }; return leaf(tag, &n);
    }
    let mut g = |n: usize, r: &mut Rng| (0..n).map(|_| gt(r, d - 1)).collect::<Vec<V>>();
    match r.below(12) {
        0 | 1 | 2 => { let k = g(2, r); stmt(r.below(5) as i64, k[0].clone(), k[1].clone()) }
        3 => node(3, g(1, r)), 4 => node(4, g(1, r)), 5 => node(14, g(1, r)),
        6 => { let k = g(2, r); img(r.below(2) as i64, k[0].clone(), vec![k[1].clone()]) }
        7 => { let n = 2 + r.below(3); node(2, g(n, r)) } 8 => { let n = 2 + r.below(3); node(9, g(n, r)) } 9 => { let n = 2 + r.below(3); node(8, g(n, r)) }
        10 => node(11, g(2, r)), _ => node(12, g(2, r)),
    }
}
const ALPH: [&str; 34] = ["a", "b", "(", ")", "<", ">", "{", "}", "[", "]", "?", "#", "$", "!", ".", "&", "&&", "|", "*", ",", " ", " --> ", " <-> ", " =/> ", " ==> ", " <=> ", " /1 ", " /2 ", "-", "^", ":|:", "\u{e9}", "\u{2192}", "\t"];
/// one small change of a text
fn edit(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect(); let n = c.len();
    let w: Vec<char> = r.pick(&ALPH).chars().collect();
    match r.below(5) { 0 if n > 0 => { c.remove(r.below(n)); } 1 if n > 1 => { let i = r.below(n - 1); c.swap(i, i + 1); } 2 if n > 0 => { let i = r.below(n); c.splice(i..i + 1, w); } 3 if n > 0 => { let i = r.below(n); c.truncate(i); } _ => { let i = r.below(n + 1); c.splice(i..i, w); } }
    c.into_iter().collect()
}
/// the reader of the crate tries alternatives one after the other: keep the nesting small
fn nest(s: &str) -> usize { let (mut d, mut m) = (0usize, 0); for ch in s.chars() { if "([{<".contains(ch) { d += 1; m = m.max(d); } else if ")]}>".contains(ch) { d = d.saturating_sub(1); } } m }
fn term_ok(s: &str) -> Result<(), String> {
    let ch: Vec<char> = s.chars().collect();
    let want = rd(&ch, 0);
    let got = guard(|| parseEntry(s).ok().map(|(r, t)| (v(&t), r.to_string())))?;
    match (&want, &got) {
        (None, None) => Ok(()),
        (Some((x, q)), Some((y, r))) => { let rest: String = ch[*q..].iter().collect(); if x != y { Err(format!("read as {} but the text is that of {}", show(y), show(x))) } else if rest != *r { Err(format!("{:?} left unread, should be {:?}", r, rest)) } else { Ok(()) } }
        (Some((x, _)), None) => Err(format!("rejected, though it starts with the text of {}", show(x))),
        (None, Some((y, _))) => Err(format!("read as {} though no term has this text", show(y))),
    }
}
/// an independent reading of sentences
fn sent(s: &str) -> (Option<(V, f64, f64, char, bool)>, ()) {
    // blanks next to a star are dropped
    let c: Vec<char> = s.chars().collect(); let mut o: Vec<char> = vec![];
    for &x in &c { if x == ' ' && o.last() == Some(&'*') { continue; } o.push(x); }
    let mut u: Vec<char> = vec![];
    for &x in &o { if x == '*' { while u.last() == Some(&' ') { u.pop(); } } u.push(x); }
    let mut e = false;
    if u.len() >= 4 && u[u.len() - 4..] == [' ', ':', '|', ':'] { e = true; u.truncate(u.len() - 4); }
    let (mut f, mut cc) = (1.0, 0.9);
    if u.last() == Some(&'}') { if let Some(i) = u.iter().rposition(|x| *x == '{') {
        let b: String = u[i + 1..u.len() - 1].iter().collect(); let bl: Vec<usize> = b.char_indices().filter(|x| x.1 == ' ').map(|x| x.0).collect();
        if bl.len() == 1 { if let (Ok(x), Ok(y)) = (b[..bl[0]].parse::<f64>(), b[bl[0] + 1..].parse::<f64>()) { if 0.0 <= x && x <= 1.0 && 0.0 <= y && y < 1.0 { f = x; cc = y; u.truncate(i); } } }
    } }
    while u.last().map(|x| x.is_whitespace()).unwrap_or(false) { u.pop(); }
    let p = match u.pop() { Some(p) if ".!?".contains(p) => p, _ => return (None, ()) };
    (rd(&u, 0).map(|(x, _)| (x, f, cc, p, e)), ())
}
fn sent_ok(s: &str) -> Result<(), String> {
    let want = sent(s).0;
    let got = guard(|| parseNarsese(&s.to_string()).map(|(t, tv, p, e)| (v(&t), tv.f, tv.c, match p { EnumPunctation::JUGEMENT => '.', EnumPunctation::GOAL => '!', EnumPunctation::QUESTION => '?' }, e)))?;
    let sh = |x: &Option<(V, f64, f64, char, bool)>| match x { None => "no sentence".to_string(), Some((t, f, c, p, e)) => format!("{} {} {{{:?} {:?}}}{}", show(t), p, f, c, if *e { " event" } else { "" }) };
    if want == got { Ok(()) } else { Err(format!("read as {} but is {}", sh(&got), sh(&want))) }
}
fn cut_ok(s: &str) -> Result<(), String> {
    let mut st = s.to_string(); let mut tv = Tv { f: 0.25, c: 0.25 };
    guard(|| parseNarseseRetTv(&mut st, &mut tv))?;
    let mut want = (s.to_string(), 1.0, 0.9);
    if let Some(u) = s.strip_suffix('}') { if let Some(i) = u.rfind('{') { let b = &u[i + 1..]; let w: Vec<&str> = b.split(' ').collect(); if w.len() == 2 { if let (Ok(x), Ok(y)) = (w[0].parse::<f64>(), w[1].parse::<f64>()) { if 0.0 <= x && x <= 1.0 && 0.0 <= y && y < 1.0 { want = (s[..i].to_string(), x, y); } } } } }
    if st == want.0 && tv.f == want.1 && tv.c == want.2 { Ok(()) } else { Err(format!("cut to {:?} with {}, should be {:?} with {{{:?} {:?}}}", st, tvs(&tv), want.0, want.1, want.2)) }
}
fn num(r: &mut Rng) -> String { match r.below(16) { 0 => "NaN".into(), 1 => "inf".into(), 2 => "-0.1".into(), 3 => "1.5".into(), 4 => "1.0".into(), 5 => "0".into(), 6 => "".into(), 7 => "x".into(), 8 => "1e-3".into(), 9 => "+0.5".into(), 10 => ".5".into(), 11 => "1.0000000000000002".into(), 12 => "-0".into(), 13 => "\u{e9}".into(), _ => format!("{:?}", (r.below(101) as f64) / 100.0) } }
fn tvt(r: &mut Rng) -> String { if r.chance(0.6) { return format!("{{{:?} {:?}}}", r.below(101) as f64 / 100.0, r.below(100) as f64 / 100.0); } let (a, b) = (num(r), num(r)); match r.below(8) { 0 => format!("{{{}  {}}}", a, b), 1 => format!("{{{}}}", a), 2 => format!("{{{} {} {}}}", a, b, a), 3 => "{}".into(), 4 => format!("{} {}}}", a, b), _ => format!("{{{} {}}}", a, b) } }
fn main() {
    drive(|c, p| {
        // every text of up to 4 characters over a small alphabet
        let al = ['a', '(', ')', '<', '>', '&', '*', ',', '.', ' ', '{', '}', '!', '|', '#', '['];
        for n in 0..=4usize { for k in 0..al.len().pow(n as u32) { let mut k = k; let s: String = (0..n).map(|_| { let x = al[k % al.len()]; k /= al.len(); x }).collect();
            let r = if p == "C32" { term_ok(&s) } else { sent_ok(&s).and_then(|_| cut_ok(&s)) }; let s2 = s.clone(); c.exhaustive += 1; c.check(false, r, move || format!("text {:?}", s2)); } }
        let mut k = 0u64;
        while c.time() || k < 3000 {
            k += 1; if k > 300_000 && c.tier == "quick" { break; }
            let d = 1 + c.rng.below(3); let x = gt(&mut c.rng, d); let mut s = wr(&x);
            if p == "C32" {
                if c.rng.chance(0.3) { s.push_str(*c.rng.pick(&ALPH)); }
                let ed = c.rng.chance(0.5); if ed { for _ in 0..1 + c.rng.below(2) { s = edit(&mut c.rng, &s); } }
                if nest(&s) > 4 { continue; }
                let s2 = s.clone(); c.check(!ed, term_ok(&s), move || format!("text {:?}", s2));
            } else {
                if c.rng.chance(0.3) { s = s.replace('*', *c.rng.pick(&[" * ", "  *", "* ", " *  ", "*"])); }
                s.push_str(*c.rng.pick(&[".", ".", ".", "!", "?", ",", ""]));
                if c.rng.chance(0.5) { if c.rng.chance(0.8) { s.push(' '); } s.push_str(&tvt(&mut c.rng)); }
                if c.rng.chance(0.4) { s.push_str(*c.rng.pick(&[" :|:", " :|:", " :|:", ":|:", " :|: ", " :\\:"])); }
                if c.rng.chance(0.15) { s.push_str(*c.rng.pick(&[" ", "\t", "  ", "\u{3000}"])); }
                let ed = c.rng.chance(0.3); if ed { s = edit(&mut c.rng, &s); }
                if nest(&s) > 4 { continue; }
                let s2 = s.clone(); let r = sent_ok(&s).and_then(|_| cut_ok(&s)); c.check(!ed, r, move || format!("text {:?}", s2));
            }
        }
    })
}
