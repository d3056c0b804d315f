use super::*;
/// token patterns: `$X` matches one token tree (consistently), `___` any token run inside a group level
pub type Binds = BTreeMap<String, String>;

fn tts(s: &str) -> Vec<TokenTree> { s.parse::<TokenStream>().unwrap_or_else(|e| panic!("bad pattern {}: {}", s, e)).into_iter().collect() }

pub fn find(pattern: &str, code: &TokenStream, b: &Binds) -> Option<Binds> {
    let p = norm(tts(pattern));
    let c: Vec<TokenTree> = norm(code.clone().into_iter().collect());
    search(&p, &c, b)
}
/// drop None-delimited groups
fn norm(v: Vec<TokenTree>) -> Vec<TokenTree> {
    let mut o = vec![];
    for t in v { match t { TokenTree::Group(ref g) if g.delimiter() == Delimiter::None => o.extend(norm(g.stream().into_iter().collect())), t => o.push(t) } }
    o
}
fn search(p: &[TokenTree], c: &[TokenTree], b: &Binds) -> Option<Binds> {
    for s in 0..=c.len() {
        if let Some((b2, _)) = m(p, &c[s..], b.clone(), false) { return Some(b2); }
        if s < c.len() { if let TokenTree::Group(g) = &c[s] {
            let inner = norm(g.stream().into_iter().collect());
            if let Some(x) = search(p, &inner, b) { return Some(x); }
        } }
    }
    None
}
fn m(p: &[TokenTree], c: &[TokenTree], mut b: Binds, full: bool) -> Option<(Binds, usize)> {
    if p.is_empty() { return if full && !c.is_empty() { None } else { Some((b, 0)) }; }
    if let TokenTree::Ident(id) = &p[0] { if id == "___" {
        for k in 0..=c.len() { if let Some(x) = m(&p[1..], &c[k..], b.clone(), full) { return Some(x); } }
        return None;
    } }
    if c.is_empty() { return None; }
    if let TokenTree::Punct(pp) = &p[0] { if pp.as_char() == '$' {
        if let TokenTree::Ident(id) = &p[1] {
            let key = id.to_string();
            let val = c[0].to_string();
            if let TokenTree::Punct(_) = &c[0] { return None; }
            match b.get(&key) { Some(v) if *v != val => return None, None if ["vx_i", "vx_n"].iter().any(|q| val.strip_prefix(*q).map_or(false, |d| !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()))) => return None, _ => {} }
            b.insert(key, val);
            return m(&p[2..], &c[1..], b, full);
        }
    } }
    match (&p[0], &c[0]) {
        (TokenTree::Group(g1), TokenTree::Group(g2)) => {
            if g1.delimiter() != g2.delimiter() { return None; }
            let (b2, _) = m(&norm(g1.stream().into_iter().collect()), &norm(g2.stream().into_iter().collect()), b, true)?;
            m(&p[1..], &c[1..], b2, full)
        }
        (TokenTree::Ident(x), TokenTree::Ident(y)) if x == y => m(&p[1..], &c[1..], b, full),
        (TokenTree::Punct(x), TokenTree::Punct(y)) if x.as_char() == y.as_char() => m(&p[1..], &c[1..], b, full),
        (TokenTree::Literal(x), TokenTree::Literal(y)) if x.to_string() == y.to_string() => m(&p[1..], &c[1..], b, full),
        _ => None,
    }
}
pub fn subst(t: &str, b: &Binds) -> String {
    let mut o = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '$' {
            let mut j = i + 1;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') { j += 1; }
            let k: String = cs[i+1..j].iter().collect();
            match b.get(&k) { Some(v) => o.push_str(v), None => { o.push('$'); o.push_str(&k); } }
            i = j;
        } else { o.push(cs[i]); i += 1; }
    }
    o
}
