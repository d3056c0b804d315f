//! vx: mechanical extraction of functions from the repository into a Verus input file.
//!
//! usage: vx <repo> <spec.vc> <out.rs> <report.json>
//!
//! The spec file is Verus text in which `@@item` / `@@fn` directives are replaced by the CURRENT
//! text of the named item of the repository.  The tool knows nothing about what the code should do:
//! it copies signatures and bodies, applies the definitional rewrites listed in DESIGN.md
//! (desugaring of `for`, iterator chains, `+=`; `f64` -> `F`; printing dropped; lock erasure) and
//! attaches the contracts.  Loop annotations are attached by shape (token patterns with
//! metavariables), not by position.
use proc_macro2::{Delimiter, TokenStream, TokenTree, Spacing};
use quote::{quote, ToTokens, format_ident};
use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod rewrite;
mod pat;
mod print;

#[derive(Default, Debug, Clone)]
pub struct LoopRule { pub invx: String, pub name: String, pub when: Vec<String>, pub inv: String, pub top: String, pub bot: String, pub pre: String, pub post: String }

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub file: String, pub name: String, pub rename: Option<String>, pub attr: String, pub ret: String,
    pub contract: String, pub entry: String, pub exit: String, pub loops: Vec<LoopRule>, pub byval: Vec<String>,
    pub opts: Vec<String>,
    pub lets: Vec<(String,String)>,      // `let NAME` -> proof text inserted after the let
    pub closures: Vec<(String, String)>, // pattern -> closure spec
    pub sigsub: Vec<(String,String)>,
    pub params: String, // parameters of a thread body: what the closure captures
    pub heap: Heap,
    pub cuts: Vec<(String,String)>, // token patterns -> invariant (and proof text at the end) of a top-level statement verified as a query of its own
    pub stmts: Vec<(String,String,bool)>, // token pattern -> proof text inserted after (or before) the statement
}

/// shared mutable cells: `Arc<RwLock<cell>>` is a handle into an explicit heap; `deep` types are plain values; ro/mt: functions that read/write the heap
#[derive(Default, Debug, Clone)]
pub struct Heap { pub cell: String, pub deep: Vec<String>, pub ro: Vec<String>, pub mt: Vec<String> }

#[derive(Default)]
pub struct Report { pub fns: Vec<FnRep> }
pub struct FnRep { pub name: String, pub file: String, pub start: usize, pub end: usize, pub unmatched: Vec<String>, pub dropped: Vec<String>, pub calls: Vec<String>, pub missing: bool, pub hash: String, pub lost_hints: Vec<String>, pub used: bool }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = &a[1];
    // optional: --exclude=f,g (contract only), --canary (assert(false) at every exit: every function must then fail)
    let mut exclude: Vec<String> = vec![];
    let mut canary = false;
    for x in &a[5.min(a.len())..] { if let Some(r) = x.strip_prefix("--exclude=") { exclude = r.split(',').map(|s| s.to_string()).collect(); } if x == "--canary" { canary = true; } }
    let spec = load_spec(&a[2]);
    let mut files: HashMap<String, File> = HashMap::new();
    let mut out = String::new();
    let mut rep = Report::default();
    let mut items: Vec<String> = vec![];
    let lines: Vec<&str> = spec.lines().collect();
    let mut i = 0;
    let mut mode_use = false;
    let mut entry_all = String::new();
    let mut heap = Heap::default();
    let mut opaque: Vec<String> = vec![];
    let mut over: Vec<String> = vec![]; // items of used units that this unit declares itself
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("@@mode") { mode_use = l.trim().ends_with("use"); i += 1; }
        else if let Some(r) = l.strip_prefix("@@entryall ") { entry_all.push_str(r); entry_all.push('\n'); i += 1; }
        else if let Some(r) = l.strip_prefix("@@heap ") {
            for w in r.split_whitespace() { if let Some((k, v)) = w.split_once('=') { let v: Vec<String> = v.split(',').map(|x| x.to_string()).collect(); match k { "cell" => heap.cell = v[0].clone(), "deep" => heap.deep = v, "ro" => heap.ro = v, "mut" => heap.mt = v, _ => panic!("@@heap {}", k) } } }
            i += 1;
        }
        // definitions of used units that are opaque here; the lemmas of used units are proved there and only stated here
        else if let Some(r) = l.strip_prefix("@@opaque ") { opaque.extend(r.split_whitespace().map(|x| x.to_string())); i += 1; }
        else if let Some(r) = l.strip_prefix("@@over ") { over.extend(r.split_whitespace().map(|x| x.to_string())); i += 1; }
        else if let Some(r) = l.strip_prefix("@@stub ") { let (n, t) = r.split_once(' ').unwrap(); if !over.iter().any(|o| o == n) { out.push_str(t); out.push('\n'); } i += 1; }
        else if l.starts_with("@@item") {
            let w: Vec<&str> = l.split_whitespace().collect();
            if mode_use && over.iter().any(|o| o == w[2]) { i += 1; continue; }
            let f = get_file(&mut files, repo, w[1]);
            match f.and_then(|f| find_item(f, w[2])) {
                Some(mut it) => {
                    rewrite::clean_item(&mut it, &w[3..], &heap);
                    out.push_str(&print::print_ts(it.to_token_stream(), &BTreeMap::new()));
                    out.push('\n');
                    items.push(w[2].to_string());
                }
                None => rep.fns.push(FnRep{name:w[2].into(),file:w[1].into(),start:0,end:0,unmatched:vec![],dropped:vec![],calls:vec![],missing:true,hash:String::new(),lost_hints:vec![],used:mode_use}),
            }
            i += 1;
        } else if l.starts_with("@@fn") {
            let mut fs = FnSpec::default();
            let w: Vec<&str> = l.split_whitespace().collect();
            fs.file = w[1].into(); fs.name = w[2].into(); fs.ret = "r".into();
            let mut k = 3;
            while k < w.len() { if w[k]=="as" { fs.rename = Some(w[k+1].into()); k += 2; } else { fs.opts.push(w[k].into()); k += 1; } }
            i += 1;
            enum Sec { None, Contract, Entry, Exit, Inv, Invx, Top, Bot, Pre, Post, Let, Closure, Stmt, Cut }
            let mut sec = Sec::None;
            while !lines[i].starts_with("@@end") {
                let l = lines[i];
                if let Some(r) = l.strip_prefix("@attr ") { fs.attr.push_str(r); fs.attr.push('\n'); sec = Sec::None; }
                else if let Some(r) = l.strip_prefix("@ret ") { fs.ret = r.trim().into(); sec = Sec::None; }
                else if let Some(r) = l.strip_prefix("@byval ") { fs.byval.extend(r.split_whitespace().map(|s| s.to_string())); }
                else if let Some(r) = l.strip_prefix("@params ") { fs.params = r.trim().into(); sec = Sec::None; }
                else if let Some(r) = l.strip_prefix("@sig ") { let (x,y) = r.split_once("=>").unwrap(); fs.sigsub.push((x.trim().into(), y.trim().into())); }
                else if l.starts_with("@contract") { sec = Sec::Contract; }
                else if l.starts_with("@entry") { sec = Sec::Entry; }
                else if l.starts_with("@exit") { sec = Sec::Exit; }
                else if let Some(r) = l.strip_prefix("@loop") { fs.loops.push(LoopRule{name:r.trim().into(),..Default::default()}); sec = Sec::None; }
                else if let Some(r) = l.strip_prefix("@when ") { fs.loops.last_mut().unwrap().when.push(r.into()); }
                else if l.trim() == "@inv" { sec = Sec::Inv; }
                else if l.starts_with("@top") { sec = Sec::Top; }
                else if l.starts_with("@bot") { sec = Sec::Bot; }
                else if l.starts_with("@invx") { sec = Sec::Invx; }
                else if l.starts_with("@pre") { sec = Sec::Pre; }
                else if l.starts_with("@post") { sec = Sec::Post; }
                else if let Some(r) = l.strip_prefix("@let ") { fs.lets.push((r.trim().into(), String::new())); sec = Sec::Let; }
                else if let Some(r) = l.strip_prefix("@closure ") { fs.closures.push((r.trim().into(), String::new())); sec = Sec::Closure; }
                else if let Some(r) = l.strip_prefix("@after ") { fs.stmts.push((r.trim().into(), String::new(), false)); sec = Sec::Stmt; }
                else if let Some(r) = l.strip_prefix("@cut ") { fs.cuts.push((r.trim().into(), String::new())); sec = Sec::Cut; }
                else if let Some(r) = l.strip_prefix("@before ") { fs.stmts.push((r.trim().into(), String::new(), true)); sec = Sec::Stmt; }
                else {
                    let t: &mut String = match sec {
                        Sec::Contract => &mut fs.contract, Sec::Entry => &mut fs.entry, Sec::Exit => &mut fs.exit,
                        Sec::Inv => &mut fs.loops.last_mut().unwrap().inv, Sec::Top => &mut fs.loops.last_mut().unwrap().top,
                        Sec::Bot => &mut fs.loops.last_mut().unwrap().bot, Sec::Post => &mut fs.loops.last_mut().unwrap().post,
                        Sec::Pre => &mut fs.loops.last_mut().unwrap().pre, Sec::Invx => &mut fs.loops.last_mut().unwrap().invx,
                        Sec::Let => &mut fs.lets.last_mut().unwrap().1,
                        Sec::Closure => &mut fs.closures.last_mut().unwrap().1,
                        Sec::Cut => &mut fs.cuts.last_mut().unwrap().1,
                        Sec::Stmt => &mut fs.stmts.last_mut().unwrap().1,
                        Sec::None => { if !l.trim().is_empty() && !l.starts_with("//") { panic!("stray line in @@fn {}: {}", fs.name, l); } i += 1; continue; }
                    };
                    t.push_str(l); t.push('\n');
                }
                i += 1;
            }
            i += 1;
            if fs.opts.iter().any(|o| o == "heap") { fs.heap = heap.clone(); }
            fs.entry = format!("{}{}", entry_all, fs.entry);
            if let (Some(n), Some(st)) = (&fs.rename, std::path::Path::new(&fs.file).file_stem()) { rewrite::ALIAS.with(|m| { m.borrow_mut().insert((st.to_string_lossy().to_string(), fs.name.clone()), n.clone()); }); }
            let start = out.lines().count() + 1;
            let f = get_file(&mut files, repo, &fs.file);
            let found = f.and_then(|f| find_fn(f, &fs.name));
            match found {
                Some(func) => {
                    let nm = fs.rename.clone().unwrap_or_else(|| fs.name.split("::").last().unwrap().to_string());
                    let excl = exclude.contains(&nm);
                    if canary && !mode_use { fs.exit.push_str("\n    assert(false);\n"); }
                    let (txt, mut r) = rewrite::emit_fn(func, &fs, mode_use || excl);
                    if excl { r.used = mode_use; r.lost_hints.push("excluded: not accepted by the verifier's front end".into()); }
                    out.push_str(&txt);
                    out.push('\n');
                    r.start = start; r.end = out.lines().count();
                    rep.fns.push(r);
                }
                None => rep.fns.push(FnRep{name:fs.name.clone(),file:fs.file.clone(),start:0,end:0,unmatched:vec![],dropped:vec![],calls:vec![],missing:true,hash:String::new(),lost_hints:vec![],used:mode_use}),
            }
        } else {
            if mode_use && !opaque.is_empty() {
                if l.starts_with("pub proof fn ") || l.starts_with("pub broadcast proof fn ") { out.push_str("#[verifier::external_body] "); }
                if let Some(n) = l.strip_prefix("pub open spec fn ") { let n: String = n.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); if opaque.contains(&n) { out.push_str("#[verifier::opaque] "); } }
            }
            out.push_str(l); out.push('\n');
            i += 1;
        }
    }
    std::fs::write(&a[3], &out).unwrap();
    // report
    let mut j = String::from("{\"fns\":[\n");
    for (n, r) in rep.fns.iter().enumerate() {
        if n > 0 { j.push_str(",\n"); }
        j.push_str(&format!("{{\"name\":{},\"file\":{},\"start\":{},\"end\":{},\"missing\":{},\"hash\":{},\"unmatched_loops\":{},\"dropped\":{},\"calls\":{},\"lost_hints\":{},\"used\":{}}}",
            js(&r.name), js(&r.file), r.start, r.end, r.missing, js(&r.hash), jsv(&r.unmatched), jsv(&r.dropped), jsv(&r.calls), jsv(&r.lost_hints), r.used));
    }
    j.push_str("\n]}\n");
    std::fs::write(&a[4], j).unwrap();
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(" "), c => o.push(c) } }
    o.push('"'); o
}
fn jsv(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

/// reads a spec file, expanding `@@include other.vc` (once each) relative to it
fn load_spec(path: &str) -> String {
    fn rec(p: &std::path::Path, seen: &mut Vec<std::path::PathBuf>, out: &mut String, mode: &str) {
        if seen.contains(&p.to_path_buf()) { return; }
        seen.push(p.to_path_buf());
        out.push_str(&format!("@@mode {}\n", mode));
        let t = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{:?}: {}", p, e));
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("@@include ") { { rec(&p.parent().unwrap().join(r.trim()), seen, out, mode); out.push_str(&format!("@@mode {}\n", mode)); } }
            else if let Some(r) = l.strip_prefix("@@use ") { rec(&p.parent().unwrap().join(r.trim()), seen, out, "use"); out.push_str(&format!("@@mode {}\n", mode)); }
            else if l.trim() == "@@main" {}
            else { out.push_str(l); out.push('\n'); }
        }
    }
    let mut o = String::new();
    rec(std::path::Path::new(path), &mut vec![], &mut o, "own");
    o.push_str("fn main() {}\n");
    o
}

fn get_file<'a>(files: &'a mut HashMap<String, File>, repo: &str, f: &str) -> Option<&'a File> {
    if !files.contains_key(f) {
        let t = std::fs::read_to_string(format!("{}/{}", repo, f)).ok()?;
        let p = syn::parse_file(&t).ok()?;
        files.insert(f.to_string(), p);
    }
    files.get(f)
}

fn find_item(f: &File, name: &str) -> Option<Item> {
    for it in &f.items {
        match it {
            Item::Struct(s) if s.ident == name => return Some(it.clone()),
            Item::Enum(s) if s.ident == name => return Some(it.clone()),
            Item::Const(s) if s.ident == name => return Some(it.clone()),
            Item::Trait(s) if s.ident == name => return Some(it.clone()),
            _ => {}
        }
    }
    None
}

fn find_fn(f: &File, name: &str) -> Option<ItemFn> {
    if let Some((ty, m)) = name.split_once("::") {
        // impl method (inherent or trait); becomes a free function with self renamed
        for it in &f.items {
            if let Item::Impl(im) = it {
                let t = im.self_ty.to_token_stream().to_string().replace(' ', "");
                if t != ty { continue; }
                for ii in &im.items {
                    if let ImplItem::Fn(mf) = ii {
                        if mf.sig.ident == m {
                            return Some(ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: mf.sig.clone(), block: Box::new(mf.block.clone()) });
                        }
                    }
                }
            }
        }
        // outer::spawn: the body of the (only) closure that outer gives to thread::spawn
        if m == "spawn" {
            struct Sp(Vec<Block>);
            impl<'a> syn::visit::Visit<'a> for Sp { fn visit_expr_call(&mut self, c: &'a ExprCall) { if c.func.to_token_stream().to_string().replace(' ', "").ends_with("thread::spawn") && c.args.len() == 1 { if let Expr::Closure(cl) = &c.args[0] { if let Expr::Block(b) = &*cl.body { self.0.push(b.block.clone()); } } } syn::visit::visit_expr_call(self, c); } }
            let mut sp = Sp(vec![]);
            for it in &f.items { if let Item::Fn(fun) = it { if fun.sig.ident == ty { syn::visit::Visit::visit_item_fn(&mut sp, fun); } } }
            if sp.0.len() == 1 { let b = sp.0.pop().unwrap(); return Some(ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: parse_quote!(fn spawn()), block: Box::new(b) }); }
            return None;
        }
        // nested fn: outer::inner
        for it in &f.items {
            if let Item::Fn(fun) = it {
                if fun.sig.ident == ty {
                    struct Nf<'s>(&'s str, Option<ItemFn>);
                    impl<'a, 's> syn::visit::Visit<'a> for Nf<'s> { fn visit_item_fn(&mut self, i: &'a ItemFn) { if i.sig.ident == self.0 && self.1.is_none() { self.1 = Some(i.clone()); } syn::visit::visit_item_fn(self, i); } }
                    let mut nf = Nf(m, None); syn::visit::Visit::visit_block(&mut nf, &fun.block);
                    if nf.1.is_some() { return nf.1; }
                }
            }
        }
        return None;
    }
    for it in &f.items { if let Item::Fn(fun) = it { if fun.sig.ident == name { return Some(fun.clone()); } } }
    None
}
