use super::*;
/// prints tokens; `vx_inv!(K);` as first statement of a block is moved in front of the block, `vx_raw!(K);` is replaced by raw text
pub fn print_ts(ts: TokenStream, raws: &BTreeMap<usize, String>) -> String {
    let mut o = String::new();
    pr(ts, raws, &mut o, 0);
    o
}
fn nl(o: &mut String, ind: usize) { while o.ends_with(' ') { o.pop(); } if !o.ends_with('\n') { o.push('\n'); } for _ in 0..ind { o.push_str("  "); } }
fn macro_at(v: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    if i + 2 < v.len() {
        if let (TokenTree::Ident(id), TokenTree::Punct(p), TokenTree::Group(g)) = (&v[i], &v[i+1], &v[i+2]) {
            if id == name && p.as_char() == '!' { return g.stream().to_string().trim().parse().ok(); }
        }
    }
    None
}
fn pr(ts: TokenStream, raws: &BTreeMap<usize, String>, o: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some(k) = macro_at(&v, i, "vx_raw") {
            nl(o, ind);
            o.push_str(&raws[&k]);
            nl(o, ind);
            i += 3;
            if i < v.len() { if let TokenTree::Punct(p) = &v[i] { if p.as_char()==';' { i += 1; } } }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        if let Some(k) = macro_at(&inner, 0, "vx_inv") {
                            nl(o, ind + 1);
                            o.push_str(&raws[&k]);
                            nl(o, ind);
                            skip = 4;
                        }
                        o.push('{');
                        nl(o, ind + 1);
                        pr(inner[skip..].iter().cloned().collect(), raws, o, ind + 1);
                        nl(o, ind);
                        o.push('}');
                        // newline unless followed by punctuation/else
                        match v.get(i+1) { Some(TokenTree::Punct(_)) => o.push(' '), Some(TokenTree::Ident(id)) if id == "else" => o.push(' '), None => o.push(' '), _ => nl(o, ind) }
                    }
                    Delimiter::Parenthesis => { o.push('('); pr(g.stream(), raws, o, ind); while o.ends_with(' ') { o.pop(); } o.push_str(") "); }
                    Delimiter::Bracket => { o.push('['); pr(g.stream(), raws, o, ind); while o.ends_with(' ') { o.pop(); } o.push_str("] "); }
                    Delimiter::None => { pr(g.stream(), raws, o, ind); }
                }
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if (c == '.' || c == ',' || c == ';' || c == '?') && o.ends_with(' ') { o.pop(); }
                o.push(c);
                if c == ';' { nl(o, ind); }
                else if p.spacing() == Spacing::Alone && c != '.' && c != '&' && c != '!' { o.push(' '); }
            }
            TokenTree::Ident(id) => { o.push_str(&id.to_string());
                let tight = matches!(v.get(i+1), Some(TokenTree::Group(g)) if g.delimiter()==Delimiter::Parenthesis || g.delimiter()==Delimiter::Bracket) && !["in","if","while","match","return","let","else","mut","as"].contains(&id.to_string().as_str());
                if !tight { o.push(' '); } }
            TokenTree::Literal(l) => { o.push_str(&l.to_string()); o.push(' '); }
        }
        i += 1;
    }
}
