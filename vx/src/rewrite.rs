use super::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const MODS: &[&str] = &["NarStamp","NarMem","NarSentence","NarUnify","NarWorkingCycle","TermUtils","TermApi","NarGoalSystem","NarProc","NarInfProcedural","Map2d","BinSearch","Misc","Utils","NarModuleNlp3","OpLib"];

thread_local! { /// functions which are printed under another name, by module and name
pub static ALIAS: std::cell::RefCell<std::collections::HashMap<(String, String), String>> = Default::default(); }
pub fn flatten_path(p: &mut Path) {
    let mut segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
    if segs.len() > 1 && (segs[0].ident == "crate" || segs[0].ident == "super" || segs[0].ident == "self") { segs.remove(0); }
    loop {
        if segs.len() < 2 { break; }
        let a = segs[0].ident.to_string();
        let b = segs[1].ident.to_string();
        let low = b.chars().next().map(|c| c.is_lowercase()).unwrap_or(false);
        if MODS.contains(&a.as_str()) { segs.remove(0); if let Some(n) = ALIAS.with(|m| m.borrow().get(&(a.clone(), b.clone())).cloned()) { segs[0].ident = format_ident!("{}", n); } continue; }
        if (a == "Tv" || a == "Term") && (b == a || low || b == "Copula") { segs.remove(0); continue; }
        if a == "parking_lot" || a == "std" || a == "core" { break; }
        break;
    }
    p.segments = segs.into_iter().collect();
}

pub struct TypeRw { pub erase: bool }
impl VisitMut for TypeRw {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::BareFn(bf) = t {
            let ins: Vec<Type> = bf.inputs.iter().map(|a| a.ty.clone()).collect();
            let out = bf.output.clone();
            *t = parse_quote!(impl Fn(#(#ins),*) #out);
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(tp) = t {
            flatten_path(&mut tp.path);
            if tp.path.is_ident("f64") || tp.path.is_ident("f32") { *t = parse_quote!(F); return; }
            // Chain<slice::Iter<'a, X>, ..> -> Vec<&'a X> (the references it yields, in order)
            if let Some(s) = tp.path.segments.last() { if s.ident == "Chain" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(Type::Path(it))) = a.args.first() { if let Some(q) = it.path.segments.last() { if let (true, PathArguments::AngleBracketed(b)) = (q.ident == "Iter", &q.arguments) { let v: Vec<GenericArgument> = b.args.iter().cloned().collect(); if v.len() == 2 { let (l, x) = (&v[0], &v[1]); *t = parse_quote!(Vec<&#l #x>); return; } } } } } } }
            // HashMap<Term, V> -> TMap<V> (finite map keyed by deep term value, A-MAP)
            if let Some(s) = tp.path.segments.last() { if s.ident == "HashMap" { if let PathArguments::AngleBracketed(a) = &s.arguments { let v: Vec<GenericArgument> = a.args.iter().cloned().collect(); if v.len() == 2 && v[0].to_token_stream().to_string() == "Term" { let x = &v[1]; *t = parse_quote!(TMap<#x>); return; } } } }
            if self.erase {
                if tp.path.segments.last().map(|s| s.ident == "AtomicI64").unwrap_or(false) { *t = parse_quote!(VxAtomic); return; }
                // Arc<RwLock<dyn T>> -> VxT (an opaque object with the trait's methods under contract)
                if let Some(s) = tp.path.segments.last() { if s.ident == "Arc" || s.ident == "Box" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() { if let Some(TypeParamBound::Trait(b)) = o.bounds.first() { let n = format_ident!("Vx{}", b.path.segments.last().unwrap().ident); *t = parse_quote!(#n); return; } } } } }
                // lock erasure: Arc<RwLock<T>> / RwLock<T> -> T (see DESIGN.md)
                if let Some(s) = tp.path.segments.last() {
                    if s.ident == "RwLock" || s.ident == "RefCell" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(inner)) = a.args.last() { let i = inner.clone(); *t = i; return; } } }
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) { flatten_path(p); visit_mut::visit_path_mut(self, p); }
}

/// Arc<RwLock<T>> -> T, Arc<AtomicI64> -> AtomicI64 (outermost only; T not a trait object)
fn deep_type(t: &Type) -> Option<Type> {
    let arg = |t: &Type, n: &str| -> Option<Type> { if let Type::Path(p) = t { let s = p.path.segments.last()?; if s.ident == n { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(x)) = a.args.last() { return Some(x.clone()); } } } } None };
    let i = arg(t, "Arc")?;
    if let Some(x) = arg(&i, "RwLock") { if matches!(x, Type::TraitObject(_)) { None } else { Some(x) } }
    else if i.to_token_stream().to_string().ends_with("AtomicI64") { Some(i) } else { None }
}

/// Arc<RwLock<Cell>> -> VxRef, Arc<RwLock<Deep>> -> Deep (at any depth)
struct HeapTy<'a>(&'a Heap);
impl<'a> VisitMut for HeapTy<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if p.path.segments.last().map(|s| s.ident == "Arc").unwrap_or(false) { if let Some(x) = deep_type(t) {
            let n = if let Type::Path(q) = &x { q.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() } else { String::new() };
            if n == self.0.cell { *t = parse_quote!(VxRef); return; }
            if self.0.deep.contains(&n) { *t = x; return; }
        } } }
        visit_mut::visit_type_mut(self, t);
    }
}
/// reads and writes of shared cells go through the heap
struct HeapRw<'a> { h: &'a Heap }
impl<'a> VisitMut for HeapRw<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "read" || m.method == "borrow") => { let r = &m.receiver; *e = parse_quote!(#r.vx_rd(&*vx_h)); }
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "write" || m.method == "borrow_mut") => { let r = &m.receiver; *e = parse_quote!(#r.vx_wr(vx_h)); }
            Expr::Call(c) => {
                let f = if let Expr::Path(p) = &*c.func { p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") } else { return };
                let last = f.rsplit("::").next().unwrap().to_string();
                let mut q: Vec<&str> = f.split("::").collect(); let last = if q.len() >= 2 { let b = q.pop().unwrap(); ALIAS.with(|m| m.borrow().get(&(q.pop().unwrap().to_string(), b.to_string())).cloned()).unwrap_or(last) } else { last };
                if f == "Arc::clone" && c.args.len() == 1 { let a = strip_ref(&c.args[0]); *e = parse_quote!(#a.vx_ac()); return; }
                if f == "Arc::new" && c.args.len() == 1 { if let Expr::Call(l) = &c.args[0] { if l.func.to_token_stream().to_string().replace(' ', "").ends_with("RwLock::new") && l.args.len() == 1 { let x = l.args[0].clone(); if let Expr::Struct(s) = &x { let n = s.path.segments.last().unwrap().ident.to_string(); if n == self.h.cell { *e = parse_quote!(vx_h.vx_alloc(#x)); return; } if self.h.deep.contains(&n) { *e = x; return; } } } } }
                if self.h.ro.contains(&last) { c.args.push(parse_quote!(&*vx_h)); }
                else if self.h.mt.contains(&last) { if let Some(Expr::Reference(r)) = c.args.first_mut() { if matches!(&*r.expr, Expr::Field(_)) { r.mutability = Some(Default::default()); } } c.args.push(parse_quote!(vx_h)); }
            }
            Expr::MethodCall(m) if self.h.mt.contains(&format!(".{}", m.method)) => { m.args.push(parse_quote!(vx_h)); }
            Expr::Macro(m) if macro_name(&m.mac.path) == "vec" => {
                if let Ok(mut els) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { for x in els.iter_mut() { self.visit_expr_mut(x); } *e = parse_quote!(vec![#els]); }
            }
            _ => {}
        }
    }
}
/// deeplock: locks reached from a parameter are read as exclusive references to the protected value
struct DeepRw { deep: Vec<String>, heap: bool }
impl DeepRw {
    fn root(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| self.deep.contains(&i.to_string())).unwrap_or(false),
            Expr::Field(f) => self.root(&f.base),
            Expr::Index(i) => self.heap && self.root(&i.expr),
            Expr::Paren(p) => self.root(&p.expr),
            Expr::Reference(r) => self.root(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.root(&u.expr),
            Expr::MethodCall(m) => ["read", "write", "borrow", "borrow_mut"].contains(&m.method.to_string().as_str()) && m.args.is_empty() && self.root(&m.receiver),
            _ => false,
        }
    }
    fn strip(e: &Expr) -> Expr {
        match e {
            Expr::Field(f) => { let mut f = f.clone(); f.base = Box::new(Self::strip(&f.base)); Expr::Field(f) }
            Expr::Index(f) => { let mut f = f.clone(); f.expr = Box::new(Self::strip(&f.expr)); Expr::Index(f) }
            Expr::Paren(p) => Self::strip(&p.expr),
            Expr::Reference(r) => Self::strip(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => Self::strip(&u.expr),
            Expr::MethodCall(m) => Self::strip(&m.receiver),
            e => e.clone(),
        }
    }
    fn excl(e: &Expr) -> Expr { let s = Self::strip(e); if matches!(s, Expr::Path(_)) { parse_quote!(&mut *#s) } else { parse_quote!(&mut #s) } }
}
impl VisitMut for DeepRw {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if self.heap { if let (Pat::Type(pt), Some(init)) = (&l.pat, &l.init) { if matches!(&*pt.pat, Pat::Ident(_)) { let hit = match &*init.expr { Expr::MethodCall(m) => ["read", "write"].contains(&m.method.to_string().as_str()) && self.root(&m.receiver), Expr::Call(c) => c.func.to_token_stream().to_string().replace(' ', "") == "Arc::clone" && c.args.len() == 1 && self.root(&c.args[0]), _ => false }; if hit { l.pat = (*pt.pat).clone(); } } } }
        if let (Pat::Ident(id), Some(init)) = (&l.pat, &mut l.init) {
            if let Expr::MethodCall(m) = &*init.expr { if ["read", "write", "borrow", "borrow_mut"].contains(&m.method.to_string().as_str()) && self.root(&m.receiver) { self.deep.push(id.ident.to_string()); let x = Self::excl(&m.receiver); init.expr = Box::new(x); return; } }
            if let Expr::Call(c) = &*init.expr { if c.func.to_token_stream().to_string().replace(' ', "") == "Arc::clone" && c.args.len() == 1 && self.root(&c.args[0]) { self.deep.push(id.ident.to_string()); let x = Self::excl(&c.args[0]); init.expr = Box::new(x); return; } }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e { if c.func.to_token_stream().to_string().replace(' ', "") == "Arc::clone" && c.args.len() == 1 && self.root(&c.args[0]) { *e = Self::excl(&c.args[0]); return; } }
        if let Expr::Reference(r) = e { if r.mutability.is_some() { if let Expr::MethodCall(m) = &*r.expr { if ["write", "borrow_mut"].contains(&m.method.to_string().as_str()) && self.root(&m.receiver) { *e = Self::excl(&m.receiver); return; } } } }
        // a lock reached from a parameter, used in place
        if self.heap { if let Expr::MethodCall(m) = e { if ["read", "write"].contains(&m.method.to_string().as_str()) && m.args.is_empty() && self.root(&m.receiver) { *e = Self::strip(&m.receiver); return; } } }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// a lock guard that is taken and never used is dropped
struct UnusedGuard;
impl VisitMut for UnusedGuard {
    fn visit_block_mut(&mut self, b: &mut Block) {
        loop {
            let used = |k: usize, name: &str| b.stmts.iter().enumerate().any(|(j, o)| j != k && o.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name));
            let hit = b.stmts.iter().enumerate().find(|(k, st)| if let Stmt::Local(l) = st { if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) { matches!(&*init.expr, Expr::MethodCall(m) if m.args.is_empty() && (m.method == "read" || m.method == "write")) && !used(*k, &id.ident.to_string()) } else { false } } else { false }).map(|(k, _)| k);
            match hit { Some(k) => { b.stmts.remove(k); } None => break }
        }
        visit_mut::visit_block_mut(self, b);
    }
}
/// handlers: callbacks are owned objects that record what they are told
struct HandlerRw;
impl VisitMut for HandlerRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e { if m.method == "as_ref" && m.receiver.to_token_stream().to_string().ends_with("handler") { m.method = format_ident!("as_mut"); } }
    }
}

/// flag: a local Arc<AtomicBool> is a boolean that is set and read in this thread only
struct FlagRw;
impl VisitMut for FlagRw {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let hit = l.init.as_ref().map(|i| i.expr.to_token_stream().to_string().starts_with("VxFlag ::")).unwrap_or(false);
        if hit { let id = match &l.pat { Pat::Type(t) => t.pat.clone(), p => Box::new(p.clone()) }; if let Pat::Ident(i) = &*id { let i = &i.ident; l.pat = parse_quote!(mut #i); } }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e { if c.func.to_token_stream().to_string().replace(' ', "") == "Arc::new" && c.args.len() == 1 { if let Expr::Call(i) = &c.args[0] { if i.func.to_token_stream().to_string().replace(' ', "").ends_with("AtomicBool::new") { let a = &i.args; *e = parse_quote!(VxFlag::new(#a)); return; } } } }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e { let t = m.args.to_token_stream().to_string(); if t.contains("Ordering") && (m.method == "store" || m.method == "load") { m.args.pop(); } }
    }
}
struct RcRw;
impl VisitMut for RcRw { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "Rc" { *i = Ident::new("Arc", i.span()); } } }
pub fn clean_item(it: &mut Item, opts: &[&str], heap: &Heap) {
    if opts.contains(&"heap") { HeapTy(heap).visit_item_mut(it); }
    let mut derives: Option<String> = None;
    let mut erase = false;
    let mut ext = false;
    for o in opts { if let Some(d) = o.strip_prefix("derive=") { derives = Some(d.to_string()); } if *o == "erase" { erase = true; } if *o == "external_body" { ext = true; } }
    let mut attrs: Vec<Attribute> = vec![];
    if let Some(d) = derives { let ids: Vec<Ident> = d.split(',').map(|s| format_ident!("{}", s)).collect(); attrs.push(parse_quote!(#[derive(#(#ids),*)])); }
    if ext { attrs.push(parse_quote!(#[verifier::external_body])); }
    match it {
        Item::Struct(s) => { s.attrs = attrs; s.vis = parse_quote!(pub); for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); } }
        Item::Enum(s) => { s.attrs = attrs; s.vis = parse_quote!(pub); for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } } }
        Item::Const(s) => { s.attrs = attrs; s.vis = parse_quote!(pub); }
        _ => {}
    }
    if opts.contains(&"deep") { if let Item::Struct(s) = it { for f in s.fields.iter_mut() { if let Some(x) = deep_type(&f.ty) { f.ty = x; } } } }
    if let Some(d) = opts.iter().find_map(|o| o.strip_prefix("drop=")) { if let Item::Struct(s) = it { if let Fields::Named(n) = &mut s.fields { n.named = n.named.iter().filter(|f| !d.split(',').any(|x| f.ident.as_ref().unwrap() == x)).cloned().collect(); } } }
    if let Some(d) = opts.iter().find_map(|o| o.strip_prefix("keep=")) { if let Item::Struct(s) = it { if let Fields::Named(n) = &mut s.fields { n.named = n.named.iter().filter(|f| d.split(',').any(|x| f.ident.as_ref().unwrap() == x)).cloned().collect(); } } }
    for o in opts { if let Some((f0, t0)) = o.strip_prefix("ty:").and_then(|x| x.split_once('=')) { if let Item::Struct(s) = it { for f in s.fields.iter_mut() { if f.ident.as_ref().map(|i| i == f0).unwrap_or(false) { f.ty = syn::parse_str(t0).unwrap(); } } } } }
    if erase { RcRw.visit_item_mut(it); }
    let mut rw = TypeRw { erase };
    rw.visit_item_mut(it);
    let mut br = BodyRw { opts: vec![], byval: vec![], loops: vec![], dropped: vec![], n: 0, closures: vec![], ty_erase: erase };
    br.visit_item_mut(it);
}

#[derive(Default, Clone, Debug)]
pub struct LoopInfo { pub binds: pat::Binds, pub auto: String }

pub struct BodyRw { pub opts: Vec<String>, pub byval: Vec<String>, pub loops: Vec<LoopInfo>, pub dropped: Vec<String>, pub n: usize, pub closures: Vec<(String,String)>, pub ty_erase: bool }

fn strip_ref(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => strip_ref(&r.expr),
        Expr::Paren(p) => strip_ref(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip_ref(&u.expr),
        Expr::MethodCall(m) if (m.method == "iter" || m.method == "as_slice") && m.args.is_empty() => strip_ref(&m.receiver),
        _ => e.clone(),
    }
}
fn is_place(e: &Expr) -> bool {
    match e { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr), Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => is_place(&u.expr), Expr::Index(i) => is_place(&i.expr) && is_simple(&i.index), _ => false }
}
fn is_simple(e: &Expr) -> bool { matches!(e, Expr::Path(_) | Expr::Lit(_)) }

fn float_lit(s: &str) -> (String, String) {
    // decimal literal -> numerator, denominator
    let s = s.replace('_', "").replace("f64", "").replace("f32", "");
    let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') { Some(p) => (s[..p].to_string(), s[p+1..].parse::<i32>().unwrap()), None => (s.clone(), 0) };
    let (ip, fp) = match mant.find('.') { Some(p) => (mant[..p].to_string(), mant[p+1..].to_string()), None => (mant.clone(), String::new()) };
    let mut num = format!("{}{}", ip, fp).trim_start_matches('0').to_string();
    let mut scale = fp.len() as i32 - exp;
    while scale > 0 && num.ends_with('0') { num.pop(); scale -= 1; }
    if num.is_empty() { num = "0".into(); scale = 0; }
    let mut den = String::from("1");
    while scale > 0 { den.push('0'); scale -= 1; }
    while scale < 0 { num.push('0'); scale += 1; }
    (num, den)
}

/// P(args)(i) -> nom_P(args, i); map_res(P, f)(i) -> its definition
fn nom_apply(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e { if let Expr::Call(p) = &*c.func { if c.args.len() == 1 {
        let f = p.func.to_token_stream().to_string().replace(' ', "");
        let f = f.split("::").last().unwrap().to_string();
        let (i, a) = (&c.args[0], &p.args);
        if f == "tag" && a.len() == 1 || f == "take_while_m_n" && a.len() == 3 || f == "take_while1" && a.len() == 1 { let n = format_ident!("nom_{}", f); return Some(parse_quote!(#n(#a, #i))); }
        if f == "map_res" && a.len() == 2 { let (q, g) = (&a[0], &a[1]); let inner: Expr = parse_quote!(#q(#i)); let inner = nom_apply(&inner)?; return Some(parse_quote!(match #inner { Err(vx_e) => Err(vx_e), Ok((vx_x, vx_y)) => match #g(vx_y) { Ok(vx_z) => Ok((vx_x, vx_z)), Err(_) => Err(nom_error()) } })); }
    } } }
    None
}
/// string methods with literal patterns -> the VxS trait (assumed contracts of std)
fn str_method(m: &ExprMethodCall) -> Option<Expr> {
    let n = m.method.to_string(); let r = &m.receiver; let a = &m.args;
    let kind = |x: &Expr| match x { Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) => Some("c"), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => Some("s"), _ => None };
    match n.as_str() {
        "ends_with" | "starts_with" | "contains" | "strip_suffix" | "strip_prefix" | "split_once" | "rsplit_once" if a.len() == 1 => { let k = kind(&a[0])?; let f = format_ident!("vx_{}_{}", n, k); Some(parse_quote!(#r.#f(#a))) }
        "replace" if a.len() == 2 => { if kind(&a[0])? != "s" || kind(&a[1])? != "s" { return None; } Some(parse_quote!(#r.vx_replace(#a))) }
        "trim_end" | "pop" if a.is_empty() => { let f = format_ident!("vx_{}", n); Some(parse_quote!(#r.#f())) }
        "collect" if a.is_empty() => if let Expr::MethodCall(q) = &**r { if q.method == "split" && q.args.len() == 1 { let k = kind(&q.args[0])?; let (r, a, f) = (&q.receiver, &q.args, format_ident!("vx_split_{}", k)); return Some(parse_quote!(#r.#f(#a))); } None } else { None },
        "parse" if a.is_empty() => { let t = m.turbofish.as_ref()?.to_token_stream().to_string(); if t.contains("f64") { Some(parse_quote!(#r.vx_parse_f())) } else if t.contains("i64") { Some(parse_quote!(#r.vx_parse_i())) } else { None } }
        "to_string" if a.is_empty() => if let Expr::Index(ix) = &**r { if let Expr::Range(g) = &*ix.index { let b = &ix.expr; match (&g.start, &g.end, &g.limits) { (None, Some(h), RangeLimits::HalfOpen(_)) => return Some(parse_quote!(#b.vx_prefix(#h))), _ => {} } } None } else { None },
        _ => None,
    }
}
/// text beyond method calls: `x == "lit"`, `x[n..]`, `&x[..n]`, `split_whitespace().collect()`, `to_string()`, `format!`
fn str_expr(e: &Expr) -> Option<Expr> {
    let slice = |x: &Expr| -> Option<Expr> { if let Expr::Index(ix) = x { if let Expr::Range(g) = &*ix.index { let b = &ix.expr; return match (&g.start, &g.end, &g.limits) { (None, Some(h), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#b.vx_prefix(#h))), (Some(l), None, _) => Some(parse_quote!(#b.vx_suffix(#l))), _ => None }; } } None };
    let lit = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (lit(&b.left) != lit(&b.right)) => {
            let (x, l) = if lit(&b.right) { (strip_ref(&b.left), &b.right) } else { (strip_ref(&b.right), &b.left) };
            let x = slice(&x).unwrap_or(x);
            Some(if matches!(b.op, BinOp::Eq(_)) { parse_quote!(#x.vx_eq_s(#l)) } else { parse_quote!(!#x.vx_eq_s(#l)) })
        }
        Expr::Reference(r) if r.mutability.is_none() => slice(&r.expr),
        Expr::MethodCall(m) if m.method == "collect" => if let Expr::MethodCall(q) = &*m.receiver { if q.method == "split_whitespace" { let r = slice(&q.receiver).unwrap_or((*q.receiver).clone()); Some(parse_quote!(#r.vx_split_ws())) } else { None } } else { None },
        Expr::MethodCall(m) if m.method == "to_string" && m.args.is_empty() => { let r = slice(&m.receiver).unwrap_or((*m.receiver).clone()); Some(parse_quote!(#r.vx_to_string())) }
        Expr::MethodCall(m) => { let r = slice(&m.receiver)?; let mut m = m.clone(); m.receiver = Box::new(r); Some(Expr::MethodCall(m)) }
        Expr::Macro(m) if macro_name(&m.mac.path) == "format" => Some(parse_quote!(vx_some_text())),
        Expr::Call(c) if ["Rc::new", "Arc::new"].contains(&c.func.to_token_stream().to_string().replace(" ", "").as_str()) && c.args.len() == 1 => if let Expr::Call(b) = &c.args[0] { if b.func.to_token_stream().to_string().replace(' ', "") == "Box::new" { let a = &b.args; Some(parse_quote!(vx_op(#a))) } else { None } } else { None },
        _ => None,
    }
}
/// the handle of a locked object, or the reference its guard gives, passed to a function: exclusive access to the object (A-LOCK)
/// vectors of numbers: smallest, largest, contains, sort, extend by a vector; sending to a channel
fn ix_expr(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = e {
        let r = &m.receiver; let n = m.method.to_string();
        if (n == "min" || n == "max") && m.args.is_empty() { if let Expr::MethodCall(it) = &**r { if it.method == "iter" { let b = &it.receiver; let f = format_ident!("vx_ix_{}", n); return Some(parse_quote!(#f(&#b))); } } }
        if n == "contains" && m.args.len() == 1 { if let (Expr::Path(_), Expr::Reference(a)) = (&**r, &m.args[0]) { let a = &a.expr; return Some(parse_quote!(vx_ix_has(&#r, #a))); } }
        if (n == "sort" || n == "sort_unstable") && m.args.is_empty() { return Some(parse_quote!(vx_ix_sort(&mut #r))); }
        if n == "extend" && m.args.len() == 1 && matches!(&m.args[0], Expr::Path(_)) { let a = &m.args[0]; return Some(parse_quote!(vx_extend(&mut #r, #a))); }
        if n == "send" && m.args.len() == 1 { if let Expr::Index(ix) = &**r { let (b, i, a) = (&ix.expr, &ix.index, &m.args[0]); return Some(parse_quote!(vx_send(&mut #b, #i, #a))); } }
    }
    None
}
fn mem_ref(e: &Expr) -> Option<Expr> {
    if let Expr::Reference(r) = e {
        match &*r.expr {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => if let Expr::MethodCall(m) = &*u.expr { if ["read", "write"].contains(&m.method.to_string().as_str()) && is_place(&m.receiver) { let x = &m.receiver; return Some(parse_quote!(&mut #x)); } },
            Expr::Call(c) if c.func.to_token_stream().to_string() == "Some" && c.args.len() == 1 => if let Expr::Call(a) = &c.args[0] { if a.func.to_token_stream().to_string().replace(' ', "") == "Arc::clone" && a.args.len() == 1 { let x = strip_ref(&a.args[0]); return Some(parse_quote!(&mut #x)); } },
            _ => {}
        }
    }
    None
}
impl BodyRw {
    fn fresh(&mut self) -> usize { self.n += 1; self.n - 1 }
    /// builds a desugared loop over `src` (by reference unless byval); returns (setup statements, loop expr)
    fn mk_loop(&mut self, pat: &Pat, src: &Expr, body: Vec<Stmt>, extra_cond: Option<Expr>, label: Option<Label>, acc: Option<Ident>) -> (Vec<Stmt>, Stmt) {
        let k = self.fresh();
        let iv = format_ident!("vx_i{}", k);
        let nv = format_ident!("vx_n{}", k);
        let mut setup: Vec<Stmt> = vec![];
        let mut binds = pat::Binds::new();
        binds.insert("i".into(), iv.to_string());
        binds.insert("n".into(), nv.to_string());
        if let Some(a) = &acc { binds.insert("acc".into(), a.to_string()); }
        let bindstmt: Stmt;
        let mut auto;
        if let Expr::Range(r) = match src { Expr::Paren(p) => &*p.expr, e => e } {
            let lo = r.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
            let hi = (**r.end.as_ref().expect("open range")).clone();
            let hi: Expr = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!(#hi + 1) } else { hi };
            let ann = if let Expr::Lit(_) = hi { None } else { Some(()) };
            let ity: Type = parse_quote!(usize);
            let is_usize = self.opts.iter().any(|o| o == "range_usize") || hi.to_token_stream().to_string().contains("len");
            let _ = ann;
            if is_usize { setup.push(parse_quote!(let #nv: #ity = #hi;)); setup.push(parse_quote!(let mut #iv: #ity = #lo;)); }
            else { setup.push(parse_quote!(let #nv = #hi;)); setup.push(parse_quote!(let mut #iv = #lo;)); }
            bindstmt = parse_quote!(let #pat = #iv;);
            let lo_s = lo.to_token_stream().to_string();
            binds.insert("lo".into(), lo_s.clone());
            auto = format!("invariant ({}) <= {} , {} <= {} || {} == ({}),", lo_s, iv, iv, nv, iv, lo_s);
            let p = pat.to_token_stream().to_string();
            binds.insert("x".into(), p);
        } else {
            let byval = match src { Expr::Path(p) => p.path.get_ident().map(|i| self.byval.contains(&i.to_string())).unwrap_or(false), Expr::Call(_) | Expr::MethodCall(_) => matches!(strip_ref(src), Expr::Call(_)) , _ => false };
            // `v.iter().take(k)`: the first k elements
            let (src, takek): (&Expr, Option<Expr>) = match src { Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 && matches!(&*m.receiver, Expr::MethodCall(q) if q.method == "iter" && q.args.is_empty()) => (&*m.receiver, Some(m.args[0].clone())), e => (e, None) };
            let base0 = strip_ref(src);
            let base0: Expr = match &base0 { Expr::Array(a) => { let els = &a.elems; parse_quote!(vec![#els]) } Expr::Field(_) if !is_place(&base0) => parse_quote!(&#base0), Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => parse_quote!(&#base0), _ => base0 };
            let base: Expr = if is_place(&base0) { base0 } else { let ev = format_ident!("vx_e{}", k); setup.push(parse_quote!(let #ev = #base0;)); parse_quote!(#ev) };
            match &takek { None => setup.push(parse_quote!(let #nv: usize = #base.len();)), Some(t) => { let tv = format_ident!("vx_t{}", k); setup.push(parse_quote!(let #tv: usize = #t;)); setup.push(parse_quote!(let #nv: usize = if #tv < #base.len() { #tv } else { #base.len() };)); } }
            setup.push(parse_quote!(let mut #iv: usize = 0;));
            let mutit = matches!(src, Expr::Reference(r) if r.mutability.is_some()) || self.opts.iter().any(|o| o == "handlers") && base.to_token_stream().to_string().ends_with("Handlers");
            bindstmt = if mutit { parse_quote!(let #pat = &mut #base[#iv];) } else if byval { parse_quote!(let #pat = vx_take(&#base, #iv);) } else {
                match pat { Pat::Reference(pr) => { let inner = &pr.pat; parse_quote!(let #inner = #base[#iv];) } _ => parse_quote!(let #pat = &#base[#iv];) }
            };
            binds.insert("e".into(), base.to_token_stream().to_string());
            binds.insert("x".into(), pat.to_token_stream().to_string());
            auto = format!("invariant {} <= {}, {} {} {}@.len(),", iv, nv, nv, if takek.is_some() { "<=" } else { "==" }, base.to_token_stream());
        }
        auto.push_str(&format!("\n// decreases\n"));
        binds.insert("dec".into(), format!("{} - {}", nv, iv));
        self.loops.push(LoopInfo { binds, auto });
        let lk = proc_macro2::Literal::usize_unsuffixed(self.loops.len() - 1);
        let cond: Expr = match extra_cond { Some(c) => parse_quote!(#c && #iv < #nv), None => parse_quote!(#iv < #nv) };
        let w: Expr = parse_quote!(#label while #cond { vx_loop!(#lk); #bindstmt #iv = #iv + 1; #(#body)* });
        (setup, Stmt::Expr(w, None))
    }
    fn closure1(c: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(cl) = c { if cl.inputs.len() == 1 { let p = match &cl.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }; return Some((p, (*cl.body).clone())); } }
        None
    }
}

/// break, continue, return or `?` anywhere in the block (conservative)
fn leaves_early(b: &Block) -> bool { let t: String = b.to_token_stream().to_string(); t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| ["break", "continue", "return"].contains(&w)) || t.contains("?") }
/// `for (k, v) in &mut M` and friends over a HashMap; a loop that may leave early is not rewritten
fn map_source(p: &Pat, src: &Expr) -> Option<(Expr, bool)> {
    match p { Pat::Tuple(t) if t.elems.len() == 2 => {} _ => return None }
    let named = |e: &Expr| matches!(e, Expr::Field(f) if matches!(&f.member, Member::Named(i) if i == "concepts"));
    match src {
        Expr::Reference(r) if r.mutability.is_some() => Some((strip_ref(&r.expr), true)),
        Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some((strip_ref(&m.receiver), true)),
        Expr::Reference(r) if named(&strip_ref(&r.expr)) => Some((strip_ref(&r.expr), false)),
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() && named(&strip_ref(&m.receiver)) => Some((strip_ref(&m.receiver), false)),
        _ => None,
    }
}
/// recognises a comparator on one tuple component; returns (component, descending)
fn sort_key(c: &Expr) -> Option<(usize, bool)> {
    let cl = if let Expr::Closure(cl) = c { cl } else { return None };
    if cl.inputs.len() != 2 { return None; }
    let body = match &*cl.body { Expr::Block(b) if b.block.stmts.len() == 1 => if let Stmt::Expr(e, None) = &b.block.stmts[0] { e.clone() } else { return None }, e => e.clone() };
    let u = if let Expr::MethodCall(u) = &body { u } else { return None };
    if u.method != "unwrap" { return None; }
    let pc = if let Expr::MethodCall(p) = &*u.receiver { p } else { return None };
    if pc.method != "partial_cmp" || pc.args.len() != 1 { return None; }
    let names: Vec<BTreeMap<String, usize>> = cl.inputs.iter().map(|p| { let p = match p { Pat::Type(t) => &*t.pat, p => p }; let p = match p { Pat::Reference(r) => &*r.pat, p => p }; let mut m = BTreeMap::new(); match p { Pat::Tuple(t) => for (i, q) in t.elems.iter().enumerate() { if let Pat::Ident(id) = q { m.insert(id.ident.to_string(), i); } }, Pat::Ident(id) => { m.insert(id.ident.to_string(), 99); } _ => {} } m }).collect();
    let side = |e: &Expr| -> Option<(usize, usize)> { // (parameter, component)
        let e = strip_ref(e);
        for (k, m) in names.iter().enumerate() {
            match &e {
                Expr::Path(p) => if let Some(i) = p.path.get_ident() { if let Some(&c) = m.get(&i.to_string()) { if c != 99 { return Some((k, c)); } } },
                Expr::Field(f) => if let (Expr::Path(p), Member::Unnamed(ix)) = (&*f.base, &f.member) { if let Some(i) = p.path.get_ident() { if m.get(&i.to_string()) == Some(&99) { return Some((k, ix.index as usize)); } } },
                _ => {}
            }
        }
        None
    };
    let (l, r) = (side(&pc.receiver)?, side(&pc.args[0])?);
    if l.1 != r.1 || l.0 == r.0 { return None; }
    Some((l.1, l.0 == 1))
}

/// comparator on a field of shared cells: |a, b| b.read().K.partial_cmp(&a.read().K).unwrap()
fn heap_sort_key(c: &Expr) -> Option<(Ident, bool)> {
    let cl = if let Expr::Closure(cl) = c { cl } else { return None };
    if cl.inputs.len() != 2 { return None; }
    let body = match &*cl.body { Expr::Block(b) if b.block.stmts.len() == 1 => if let Stmt::Expr(e, None) = &b.block.stmts[0] { e.clone() } else { return None }, e => e.clone() };
    let u = if let Expr::MethodCall(u) = &body { u } else { return None };
    if u.method != "unwrap" { return None; }
    let pc = if let Expr::MethodCall(p) = &*u.receiver { p } else { return None };
    if pc.method != "partial_cmp" || pc.args.len() != 1 { return None; }
    let names: Vec<String> = cl.inputs.iter().map(|p| match p { Pat::Type(t) => t.pat.to_token_stream().to_string(), p => p.to_token_stream().to_string() }).collect();
    let side = |e: &Expr| -> Option<(usize, Ident)> {
        let e = strip_ref(e);
        if let Expr::Field(f) = &e { if let (Expr::MethodCall(m), Member::Named(k)) = (&*f.base, &f.member) { if m.method == "vx_rd" { let x = m.receiver.to_token_stream().to_string(); return names.iter().position(|n| *n == x).map(|i| (i, k.clone())); } } }
        None
    };
    let (l, r) = (side(&pc.receiver)?, side(&pc.args[0])?);
    if l.1 != r.1 || l.0 == r.0 { return None; }
    Some((l.1, l.0 == 1))
}
fn macro_name(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

impl VisitMut for BodyRw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match &s {
                Stmt::Macro(m) if ["println","print","eprintln","eprint","debug_assert"].contains(&macro_name(&m.mac.path).as_str()) => { self.dropped.push(format!("{}!", macro_name(&m.mac.path))); continue; }
                Stmt::Expr(Expr::Call(c), _) if c.func.to_token_stream().to_string() == "dbg" => { self.dropped.push("dbg()".into()); continue; }
                Stmt::Item(Item::Fn(f)) => { self.dropped.push(format!("nested fn {} (hoisted)", f.sig.ident)); continue; }
                Stmt::Item(Item::Use(_)) => { continue; }
                _ => {}
            }
            out.push(s);
        }
        // locals that only feed the dropped output
        loop {
            let mut hit = None;
            for (k, st) in out.iter().enumerate() {
                if let Stmt::Local(l) = st { if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    let t = init.expr.to_token_stream().to_string();
                    if (t.contains("ToStr") || t.contains("to_owned") || t.contains("format !") || t.contains("to_string")) && !t.contains("return") && !t.contains("=") {
                        let name = id.ident.to_string();
                        let used = out.iter().enumerate().any(|(j, o)| j != k && o.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name));
                        if !used { hit = Some(k); break; }
                    }
                } }
            }
            match hit { Some(k) => { self.dropped.push("local used only for output".into()); out.remove(k); } None => break }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        // statement level rewrites: A.extend(..)
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = &s {
                if m.method == "extend" && m.args.len() == 1 {
                    let recv = (*m.receiver).clone();
                    let arg = m.args[0].clone();
                    let acc = format_ident!("vx_dummy");
                    let _ = acc;
                    // &B[lo..hi]
                    if let Expr::Reference(r) = &arg {
                        if let Expr::Index(ix) = &*r.expr { if let Expr::Range(_) = &*ix.index {
                            let base = (*ix.expr).clone(); let range = (*ix.index).clone();
                            let x = format_ident!("vx_x{}", self.n);
                            let xp: Pat = parse_quote!(#x);
                            let (setup, lp) = self.mk_loop(&xp, &range, vec![parse_quote!(#recv.push(#base[#x]);)], None, None, None);
                            if let Some(l) = self.loops.last_mut() { l.binds.insert("e".into(), base.to_token_stream().to_string()); l.binds.insert("acc".into(), recv.to_token_stream().to_string()); l.binds.insert("ext".into(), "1".into()); }
                            out.push(Stmt::Expr(parse_quote!({ #(#setup)* #lp }), None));
                            continue;
                        } }
                    }
                    // B.iter().cloned()
                    let mut e = arg.clone();
                    let mut cl = false;
                    if let Expr::MethodCall(mc) = &e { if mc.method == "cloned" || mc.method == "copied" { cl = true; let r = (*mc.receiver).clone(); e = r; } }
                    if cl {
                        let x = format_ident!("vx_x{}", self.n);
                        let xp: Pat = parse_quote!(#x);
                        let src = strip_ref(&e);
                        let src: Expr = if is_place(&src) { parse_quote!(&#src) } else { e.clone() };
                        // by reference always here
                        let save = self.byval.clone(); self.byval.clear();
                        let (mut setup, lp) = if is_place(&strip_ref(&src)) { self.mk_loop(&xp, &src, vec![parse_quote!(#recv.push(#x.vx_clone());)], None, None, None) } else {
                            let ev = format_ident!("vx_s{}", self.n);
                            let base = strip_ref(&e);
                            let pre: Stmt = parse_quote!(let #ev = #base;);
                            let (s, l) = self.mk_loop(&xp, &parse_quote!(&#ev), vec![parse_quote!(#recv.push(#x.vx_clone());)], None, None, None);
                            let mut s2 = vec![pre]; s2.extend(s); (s2, l)
                        };
                        self.byval = save;
                        if let Some(l) = self.loops.last_mut() { l.binds.insert("acc".into(), recv.to_token_stream().to_string()); l.binds.insert("ext".into(), "1".into()); }
                        setup.push(lp);
                        out.push(Stmt::Expr(parse_quote!({ #(#setup)* }), None));
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_type_mut(&mut self, t: &mut Type) { TypeRw { erase: self.ty_erase }.visit_type_mut(t); }
    fn visit_path_mut(&mut self, p: &mut Path) { flatten_path(p); visit_mut::visit_path_mut(self, p); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.opts.iter().any(|o| o == "strs") {
            if let Expr::MethodCall(m) = e { if let Some(x) = str_method(m) { *e = x; } }
            if self.opts.iter().any(|o| o == "text") { if let Some(x) = str_expr(e) { *e = x; } }
        }
        if self.opts.iter().any(|o| o == "ixs") { if let Some(x) = ix_expr(e) { *e = x; } }
        if self.opts.iter().any(|o| o == "memref") { if let Some(x) = mem_ref(e) { *e = x; } }
        if self.opts.iter().any(|o| o == "pairclone") { if let Expr::MethodCall(m) = e { if m.method == "clone" && matches!(&*m.receiver, Expr::Path(_)) { let r = &m.receiver; *e = parse_quote!(vx_pair_clone(&#r)); } } }
        // `loop` that is left by break
        if let Expr::Loop(l) = e { if l.body.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "break") { let (lb, b) = (&l.label, &l.body); *e = parse_quote!(#lb while true #b); } }
        // X.iter().filter(|q| C).map(|p| E).collect()
        if let Expr::MethodCall(m) = e { if m.method == "collect" {
            let (mp, rest): (Option<(Pat, Expr)>, Expr) = match &*m.receiver { Expr::MethodCall(mm) if mm.method == "map" && mm.args.len() == 1 => (Self::closure1(&mm.args[0]), (*mm.receiver).clone()), Expr::MethodCall(mm) if mm.method == "cloned" => (Some((parse_quote!(vx_c), parse_quote!(vx_c.clone()))), (*mm.receiver).clone()), _ => (None, parse_quote!(x)) };
            if let (Some((p, body)), Expr::MethodCall(fl)) = (mp, rest) { if fl.method == "filter" && fl.args.len() == 1 { if let (Some((q, c)), Expr::MethodCall(it)) = (Self::closure1(&fl.args[0]), &*fl.receiver) { if it.method == "iter" {
                let q: Pat = match &q { Pat::Reference(r) => (*r.pat).clone(), q => q.clone() };
                let src = (*it.receiver).clone();
                let r = format_ident!("vx_r{}", self.n); let y = format_ident!("vx_y{}", self.n);
                let yp: Pat = parse_quote!(#y);
                let (setup, lp) = self.mk_loop(&yp, &parse_quote!(&#src), vec![parse_quote!(let #q = #y;), parse_quote!(if #c { let #p = #y; #r.push(#body); })], None, None, Some(r.clone()));
                *e = parse_quote!({ let mut #r = Vec::new(); #(#setup)* #lp #r });
            } } } }
        } }
        // structural desugarings are applied before visiting children so that closure bodies are visited in place
        if let Expr::MethodCall(m) = e {
            // X.iter().map(|p| E).collect()
            if m.method == "collect" || m.method == "sum" {
                if let Expr::MethodCall(mm) = &*m.receiver {
                    if mm.method == "map" && mm.args.len() == 1 {
                        if let (Some((p, body)), Expr::MethodCall(it)) = (Self::closure1(&mm.args[0]), &*mm.receiver) {
                            if it.method == "zip" && it.args.len() == 1 && m.method == "collect" {
                                // A.iter().zip(B.iter()).map(|(p, q)| E).collect()
                                if let (Expr::MethodCall(a_it), Expr::MethodCall(b_it), Pat::Tuple(tp)) = (&*it.receiver, &it.args[0], &p) {
                                    if a_it.method == "iter" && b_it.method == "iter" && tp.elems.len() == 2 {
                                        let (a, b) = (strip_ref(&a_it.receiver), strip_ref(&b_it.receiver));
                                        let k = self.n;
                                        let r = format_ident!("vx_r{}", k); let z = format_ident!("vx_z{}", k);
                                        let val = |pt: &Pat, base: &Expr| -> (Pat, Expr) { match pt { Pat::Reference(pr) => ((*pr.pat).clone(), parse_quote!(#base[#z])), q => (q.clone(), parse_quote!(&#base[#z])) } };
                                        let (p1, e1) = val(&tp.elems[0], &a); let (p2, e2) = val(&tp.elems[1], &b);
                                        let zp: Pat = parse_quote!(#z);
                                        let range: Expr = parse_quote!(0..(if #a.len() < #b.len() { #a.len() } else { #b.len() }));
                                        let (setup, lp) = self.mk_loop(&zp, &range, vec![parse_quote!(let (#p1, #p2) = (#e1, #e2);), parse_quote!(#r.push(#body);)], None, None, Some(r.clone()));
                                        *e = parse_quote!({ let mut #r = Vec::new(); #(#setup)* #lp #r });
                                        visit_mut::visit_expr_mut(self, e);
                                        return;
                                    }
                                }
                                return;
                            }
                            if it.method == "iter" {
                                let src = (*it.receiver).clone();
                                let r = format_ident!("vx_r{}", self.n);
                                let collect = m.method == "collect";
                                let st: Stmt = if collect { parse_quote!(#r.push(#body);) } else { parse_quote!(#r = #r + #body;) };
                                let (setup, lp) = self.mk_loop(&p, &parse_quote!(&#src), vec![st], None, None, Some(r.clone()));
                                let init: Stmt = if collect { parse_quote!(let mut #r = Vec::new();) } else { parse_quote!(let mut #r: f64 = 0.0;) };
                                *e = parse_quote!({ #init #(#setup)* #lp #r });
                            }
                        }
                    }
                }
            } else if (m.method == "any" || m.method == "all") && m.args.len() == 1 {
                let all = m.method == "all";
                let mut hit: Option<(Pat, Expr, Expr)> = None; // pattern, condition, source
                if let (Some((p, body)), Expr::MethodCall(it)) = (Self::closure1(&m.args[0]), &*m.receiver) {
                    if it.method == "iter" { hit = Some((p, body, (*it.receiver).clone())); }
                    else if it.method == "map" && it.args.len() == 1 { if let (Some((p0, e0)), Expr::MethodCall(it2)) = (Self::closure1(&it.args[0]), &*it.receiver) { if it2.method == "iter" { hit = Some((p0, parse_quote!({ let #p = #e0; #body }), (*it2.receiver).clone())); } } }
                }
                if let Some((p, body, src)) = hit {
                    let r = format_ident!("vx_r{}", self.n);
                    let (st, cond, init): (Stmt, Expr, Expr) = if all { (parse_quote!(if !(#body) { #r = false; }), parse_quote!(#r), parse_quote!(true)) } else { (parse_quote!(if #body { #r = true; }), parse_quote!(!#r), parse_quote!(false)) };
                    let (setup, lp) = self.mk_loop(&p, &parse_quote!(&#src), vec![st], Some(cond), None, Some(r.clone()));
                    *e = parse_quote!({ let mut #r = #init; #(#setup)* #lp #r });
                }
            } else if m.method == "to_vec" && m.args.is_empty() {
                if let Expr::Index(ix) = &strip_ref(&m.receiver) { if let Expr::Range(r) = &*ix.index {
                    let b = &ix.expr;
                    let lo = r.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
                    let hi = r.end.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(#b.len()));
                    *e = parse_quote!(vx_to_vec(&#b, #lo, #hi));
                } } else if let Expr::Path(p) = &*m.receiver {
                    *e = parse_quote!(#p.vx_copy());
                }
            }
        }
        if let Expr::Reference(rf) = e { if let (None, Expr::Index(ix)) = (&rf.mutability, &*rf.expr) { if let Expr::Range(r) = &*ix.index {
            let b = &ix.expr;
            let lo = r.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
            let hi = r.end.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(#b.len()));
            let hi: Expr = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!(#hi + 1) } else { hi };
            *e = parse_quote!(#b.vx_sl(#lo, #hi));
        } } }
        if let Expr::MethodCall(m) = e { if m.method == "extend" && m.args.len() == 1 { if let Expr::Reference(r) = &m.args[0] { if let Expr::Index(ix) = &*r.expr { if let Expr::Range(_) = &*ix.index { self.visit_expr_mut(&mut m.receiver); return; } } } } }
        // for p in X.iter().rev()  ->  for p in &vx_rev(&X)
        if let Expr::ForLoop(f) = e { if let Expr::MethodCall(m) = &*f.expr { if m.method == "rev" && m.args.is_empty() { if let Expr::MethodCall(it) = &*m.receiver { if it.method == "iter" && it.args.is_empty() { let x = it.receiver.clone(); f.expr = Box::new(parse_quote!(&vx_rev(&#x))); } } } } }
        // for p in X.iter().filter(|q| C) { .. }  ->  for p in &X { if { let q = p; C } { .. } }
        if let Expr::ForLoop(f) = e { if let (Pat::Ident(pi), Expr::MethodCall(m)) = (&*f.pat, &*f.expr) { if m.method == "filter" && m.args.len() == 1 { if let (Some((q, c)), Expr::MethodCall(it)) = (Self::closure1(&m.args[0]), &*m.receiver) { if it.method == "iter" {
            let q: Pat = match &q { Pat::Reference(r) => (*r.pat).clone(), q => q.clone() };
            let (x, b, st, lb) = (&it.receiver, &pi.ident, &f.body, &f.label);
            *e = parse_quote!(#lb for #b in &#x { let #q = #b; if #c #st });
        } } } } }
        if let Expr::ForLoop(f) = e {
            let src = (*f.expr).clone();
            if let Some((m, mutable)) = map_source(&f.pat, &src).filter(|(_, mt)| !*mt || !leaves_early(&f.body)) {
                let k = self.n;
                let (en, ek) = (format_ident!("vx_m{}", k), format_ident!("vx_k{}", k));
                let (kp, vp) = match &*f.pat { Pat::Tuple(t) => (t.elems[0].clone(), t.elems[1].clone()), _ => unreachable!() };
                let mut body: Vec<Stmt> = vec![];
                if !matches!(kp, Pat::Wild(_)) { body.push(parse_quote!(let #kp = &#ek.0;)); }
                if mutable {
                    let vid = match &vp { Pat::Ident(i) => i.ident.clone(), _ => format_ident!("vx_v{}", k) };
                    body.push(parse_quote!(let mut #vid = vx_copy(&#ek.1);));
                    body.extend(f.body.stmts.clone());
                    body.push(parse_quote!(#m.vx_put(&#ek.0, #vid);));
                } else {
                    if !matches!(vp, Pat::Wild(_)) { body.push(parse_quote!(let #vp = &#ek.1;)); }
                    body.extend(f.body.stmts.clone());
                }
                let ekp: Pat = parse_quote!(#ek);
                let (setup, lp) = self.mk_loop(&ekp, &parse_quote!(&#en), body, None, f.label.clone(), None);
                if let Some(l) = self.loops.last_mut() { l.binds.insert("map".into(), m.to_token_stream().to_string()); }
                *e = parse_quote!({ let #en = #m.vx_entries(); #(#setup)* #lp });
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            let (setup, lp) = self.mk_loop(&f.pat, &src, f.body.stmts.clone(), None, f.label.clone(), None);
            *e = parse_quote!({ #(#setup)* #lp });
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let (n, d) = float_lit(&f.to_string());
                let n: proc_macro2::Literal = n.parse().unwrap(); let d: proc_macro2::Literal = d.parse().unwrap();
                *e = parse_quote!(F::lit(#n, #d));
            }
            Expr::Cast(c) => { if let Type::Path(tp) = &*c.ty { if tp.path.is_ident("F") || tp.path.is_ident("f64") || tp.path.is_ident("f32") { let i = &c.expr; *e = parse_quote!((#i).vx_to_f()); } } }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && matches!(&*b.left, Expr::MethodCall(m) if (m.method == "to_owned" || m.method == "to_string") && matches!(&*m.receiver, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) => {
                // "lit".to_owned() + s: string concatenation
                if let Expr::MethodCall(m) = &*b.left { let (l, r) = (&m.receiver, &b.right); *e = parse_quote!(vx_cat(#l, #r)); }
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op { BinOp::AddAssign(_) => Some(parse_quote!(+)), BinOp::SubAssign(_) => Some(parse_quote!(-)), BinOp::MulAssign(_) => Some(parse_quote!(*)), BinOp::DivAssign(_) => Some(parse_quote!(/)), _ => None };
                if let Some(op) = op { let (l, r) = (&b.left, &b.right); *e = parse_quote!(#l = #l #op (#r)); }
                else if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                    // comparison of two locals (possibly references): through the VxEq trait, whose contract looks through references
                    if let (Expr::Reference(l), Expr::Reference(r)) = (&*b.left, &*b.right) { let (l, r) = (l.expr.clone(), r.expr.clone()); b.left = l; b.right = r; } // &a == &b
                    let loc = |x: &Expr| matches!(x, Expr::Path(p) if p.path.get_ident().map(|i| i.to_string().chars().next().unwrap().is_lowercase()).unwrap_or(false));
                    if loc(&b.left) && loc(&b.right) {
                        let (l, r) = (&b.left, &b.right);
                        *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_eq(&#l, &#r)) } else { parse_quote!(!vx_eq(&#l, &#r)) };
                    }
                }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Call(_)) => {
                // nom: tag(T)(i), take_while_m_n(m, n, f)(i): the parser applied to its input
                if let Some(x) = nom_apply(e) { *e = x; }
            }
            Expr::Call(c) => {
                // Box::clone(e) -> vx_box_clone(e), whose body is Box::new((**e).clone())
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.ends_with("RwLock::new") && self.opts.iter().any(|o| o == "erase") && c.args.len() == 1 { let a = &c.args[0]; *e = parse_quote!((#a)); }
                else if f == "HashMap::new" { *e = parse_quote!(TMap::new()); }
                else if f == "Arc::get_mut" { let a = &c.args; *e = parse_quote!(vx_arc_get_mut(#a)); }
                else if f == "Box::clone" { let a = &c.args; *e = parse_quote!(vx_box_clone(#a)); }
            }
            Expr::Macro(m) => {
                let n = macro_name(&m.mac.path);
                if ["println","print","eprintln","eprint"].contains(&n.as_str()) { self.dropped.push(format!("{}!", n)); *e = parse_quote!({}); }
                else if n == "panic" || n == "unreachable" || n == "unimplemented" { *e = parse_quote!(vx_panic()); }
                else if n == "assert" { if let Ok(els) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { let mut c = els[0].clone(); self.visit_expr_mut(&mut c); *e = parse_quote!(vx_assert(#c)); } }
                else if n == "vec" {
                    // elements of vec![..] are visited
                    if let Ok(els) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut els = els; for x in els.iter_mut() { self.visit_expr_mut(x); }
                        *e = parse_quote!(vec![#els]);
                    } else if let Ok((mut x, mut l)) = m.mac.parse_body_with(|s: parse::ParseStream| { let x: Expr = s.parse()?; let _: Token![;] = s.parse()?; let l: Expr = s.parse()?; Ok((x, l)) }) {
                        self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut l); *e = parse_quote!(vx_fill(#x, #l));
                    }
                }
            }
            Expr::MethodCall(m) => {
                if m.method == "sort_by" && m.args.len() == 1 {
                    // v.sort_by(|a, b| b.K.partial_cmp(&a.K).unwrap()): stable sort by a key component (A-SORT)
                    let r = m.receiver.clone();
                    if let Some((k, desc)) = heap_sort_key(&m.args[0]) {
                        let f = format_ident!("vx_sort_{}_{}", k, if desc { "desc" } else { "asc" });
                        *e = parse_quote!(#f(&mut #r, &*vx_h));
                    } else if let Some((k, desc)) = sort_key(&m.args[0]) {
                        let f = format_ident!("vx_sort_{}_{}", k, if desc { "desc" } else { "asc" });
                        *e = parse_quote!(#f(&mut #r));
                    }
                } else if m.method == "extend" && m.args.len() == 1 && matches!(&m.args[0], Expr::Call(_)) {
                    let (r, a) = (&m.receiver, &m.args[0]); *e = parse_quote!(vx_extend(&mut #r, #a));
                } else if m.method == "chain" && m.args.len() == 1 {
                    // A.iter().chain(B.iter()) -> the references to the elements of A, then of B
                    let it = |x: &Expr| if let Expr::MethodCall(q) = x { if q.method == "iter" { Some((*q.receiver).clone()) } else { None } } else { None };
                    if let (Some(a), Some(b)) = (it(&m.receiver), it(&m.args[0])) { *e = parse_quote!(vx_chain(&#a, &#b)); }
                } else if self.opts.iter().any(|o| o == "erase") && ["read","write","borrow","borrow_mut"].contains(&m.method.to_string().as_str()) && m.args.is_empty() {
                    let r = &m.receiver; *e = parse_quote!((#r));
                }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = macro_name(&m.mac.path);
            if n == "panic" || n == "unreachable" { *s = parse_quote!(vx_panic();); return; }
            if n == "assert" { if let Ok(els) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { let mut c = els[0].clone(); self.visit_expr_mut(&mut c); *s = parse_quote!(vx_assert(#c);); return; } }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// `match e { P if g => A, .., _ => B }` -> `match e { P => if g { A } else { B }, .., _ => B }` when no other arm can match P
pub struct GuardRw;
fn head(p: &Pat) -> Option<String> { match p { Pat::TupleStruct(t) => Some(t.path.to_token_stream().to_string()), Pat::Path(t) => Some(t.path.to_token_stream().to_string()), Pat::Reference(r) => head(&r.pat), _ => None } }
impl VisitMut for GuardRw {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        let n = m.arms.len();
        if n == 0 || !matches!(m.arms[n - 1].pat, Pat::Wild(_)) || m.arms[n - 1].guard.is_some() { return; }
        let b = m.arms[n - 1].body.clone();
        if b.to_token_stream().to_string().split_whitespace().count() > 60 { return; }
        for k in 0..n - 1 {
            if m.arms[k].guard.is_none() { continue; }
            let h = head(&m.arms[k].pat);
            if h.is_none() || m.arms[k + 1..n - 1].iter().any(|a| head(&a.pat).is_none() || head(&a.pat) == h) { continue; }
            let (_, g) = m.arms[k].guard.take().unwrap();
            let a = m.arms[k].body.clone();
            m.arms[k].body = parse_quote!({ if #g { #a } else { #b } });
            m.arms[k].comma = Some(Default::default());
        }
    }
}
struct CloneRw { strings: bool }
impl VisitMut for CloneRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func {
            let s = p.path.segments.last().unwrap().ident.to_string();
            if ["Name","QVar","DepVar","IndepVar"].contains(&s.as_str()) { let old = self.strings; self.strings = true; visit_mut::visit_expr_mut(self, e); self.strings = old; return; }
        } }
        visit_mut::visit_expr_mut(self, e);
        if !self.strings { if let Expr::MethodCall(m) = e { if m.method == "clone" { let r = &m.receiver; *e = parse_quote!(Box::new(Term_clone(&**#r))); } } }
    }
}

/// annotate loops & hints
struct Annot<'a> { spec: &'a FnSpec, infos: &'a [LoopInfo], raws: BTreeMap<usize, String>, params: pat::Binds, unmatched: Vec<String>, used_hints: Vec<bool>, used_lets: Vec<bool> }
impl<'a> Annot<'a> {
    fn raw(&mut self, s: String) -> proc_macro2::Literal { let k = self.raws.len(); self.raws.insert(k, s); proc_macro2::Literal::usize_unsuffixed(k) }
}
impl<'a> VisitMut for Annot<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            // loops
            let mut pre = String::new(); let mut post = String::new();
            let mut s = s;
            if let Stmt::Expr(Expr::While(w), _) = &mut s {
                let mut info: Option<LoopInfo> = None;
                if let Some(Stmt::Macro(m)) = w.body.stmts.first() {
                    if m.mac.path.is_ident("vx_loop") { let k: usize = m.mac.tokens.to_string().trim().parse().unwrap(); info = Some(self.infos[k].clone()); }
                }
                if info.is_some() { w.body.stmts.remove(0); }
                let toks = quote!(#w);
                let mut binds = self.params.clone();
                if let Some(i) = &info { for (k, v) in &i.binds { binds.insert(k.clone(), v.clone()); } }
                let mut hit = None;
                for r in &self.spec.loops {
                    let mut b2 = Some(binds.clone());
                    for p in &r.when { b2 = b2.and_then(|b| { if p.trim() == "desugared" { if info.is_some() { Some(b) } else { None } } else if let Some(rest) = p.trim().strip_prefix("not ") { if pat::find(&pat::subst(rest, &b), &toks, &b).is_some() { None } else { Some(b) } } else if p.trim() == "outer" || p.trim() == "innermost" { let n = toks.to_string().split_whitespace().filter(|w| *w == "while").count(); if (n > 1) == (p.trim() == "outer") { Some(b) } else { None } } else { pat::find(&pat::subst(p, &b), &toks, &b) } }); if b2.is_none() { break; } }
                    if let Some(b2) = b2 { hit = Some((r.clone(), b2)); break; }
                }
                let mut inv = String::new();
                if let Some(i) = &info { inv.push_str(&i.auto.replace("// decreases", "")); }
                let mut top = String::new(); let mut bot = String::new();
                match hit {
                    Some((r, b2)) => {
                        if !r.invx.trim().is_empty() { inv = format!("invariant_except_break {}\n    {}", pat::subst(&r.invx, &b2), inv); }
                        if info.is_none() && !r.inv.trim_start().starts_with("invariant") && !r.inv.trim().is_empty() { inv.push_str("invariant "); }
                        inv.push_str(&pat::subst(&r.inv, &b2));
                        top = pat::subst(&r.top, &b2); bot = pat::subst(&r.bot, &b2); pre = pat::subst(&r.pre, &b2); post = pat::subst(&r.post, &b2);
                    }
                    None => { self.unmatched.push(toks.to_string().chars().take(200).collect()); }
                }
                if let Some(i) = &info { inv.push_str(&format!("\n    decreases {}", i.binds["dec"])); }
                if !inv.trim().is_empty() { let k = self.raw(inv); w.body.stmts.insert(0, parse_quote!(vx_inv!(#k);)); }
                let has_inv = if let Some(Stmt::Macro(m)) = w.body.stmts.first() { m.mac.path.is_ident("vx_inv") } else { false };
                if !top.trim().is_empty() { let k = self.raw(top); let at = (if has_inv {1} else {0}) + (if info.is_some() {2} else {0}); w.body.stmts.insert(at, parse_quote!(vx_raw!(#k);)); }
                if !bot.trim().is_empty() { let k = self.raw(bot); w.body.stmts.push(parse_quote!(vx_raw!(#k);)); }
            }
            // hints
            let mut before: Vec<String> = vec![]; let mut after: Vec<String> = vec![];
            if let Stmt::Local(l) = &s {
                let name = match &l.pat { Pat::Ident(i) => i.ident.to_string(), Pat::Type(t) => t.pat.to_token_stream().to_string().replace("mut ", ""), p => p.to_token_stream().to_string() };
                for (k, (n, txt)) in self.spec.lets.iter().enumerate() { if *n == name { self.used_lets[k] = true; after.push(pat::subst(txt, &self.params)); } }
            }
            let nested = matches!(&s, Stmt::Expr(Expr::Block(_)|Expr::If(_)|Expr::Match(_)|Expr::While(_)|Expr::Loop(_), _));
            let nested = nested || matches!(&s, Stmt::Local(Local { init: Some(LocalInit { expr, .. }), .. }) if matches!(&**expr, Expr::Block(b) if b.block.stmts.len() > 1));
            if !nested {
                let toks = s.to_token_stream();
                for (k, (p, txt, bef)) in self.spec.stmts.iter().enumerate() {
                    if let Some(b2) = pat::find(p, &toks, &self.params) { self.used_hints[k] = true; if *bef { before.push(pat::subst(txt, &b2)); } else { after.push(pat::subst(txt, &b2)); } }
                }
            }
            if let Stmt::Expr(Expr::If(i), _) = &s {
                let toks = i.cond.to_token_stream();
                for (k, (p, txt, bef)) in self.spec.stmts.iter().enumerate() { if *bef { if let Some(b2) = pat::find(p, &toks, &self.params) { self.used_hints[k] = true; before.push(pat::subst(txt, &b2)); } } }
            }
            for t in before { let k = self.raw(t); out.push(parse_quote!(vx_raw!(#k);)); }
            if !pre.trim().is_empty() { let k = self.raw(pre); out.push(parse_quote!(vx_raw!(#k);)); }
            if let Stmt::Expr(Expr::While(_), semi) = &mut s { if semi.is_none() { *semi = Some(Default::default()); } }
            out.push(s);
            if !post.trim().is_empty() { let k = self.raw(post); out.push(parse_quote!(vx_raw!(#k);)); }
            for t in after { let k = self.raw(t); out.push(parse_quote!(vx_raw!(#k);)); }
        }
        b.stmts = out;
    }
}

struct Calls(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func { let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"); if !self.0.contains(&s) { self.0.push(s); } }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        let s = format!(".{}", c.method); if !self.0.contains(&s) { self.0.push(s); }
        syn::visit::visit_expr_method_call(self, c);
    }
}

/// pushes the return of a tail expression into the branches (`match x { A => e }` -> `match x { A => { return e; } }`)
fn tail_block(b: &mut Block, unit: bool) {
    let nested = match b.stmts.last() { Some(Stmt::Expr(Expr::Block(x), s)) => x.label.is_none() && (s.is_none() || unit), Some(Stmt::Expr(Expr::If(_) | Expr::Match(_), s)) => s.is_none() || unit, _ => false };
    if nested {
        if let Some(Stmt::Expr(e, _)) = b.stmts.last_mut() { tail_expr(e, unit); }
        return;
    }
    match b.stmts.last_mut() {
        Some(Stmt::Expr(Expr::Return(_) | Expr::While(_) | Expr::Loop(_), _)) => { if unit { b.stmts.push(parse_quote!(return;)); } }
        Some(Stmt::Expr(e, semi)) => {
            if e.to_token_stream().to_string().replace(' ', "") == "vx_panic()" { return; }
            if !unit && semi.is_none() { let x = e.clone(); *b.stmts.last_mut().unwrap() = parse_quote!(return #x;); }
            else if unit { if semi.is_none() { *semi = Some(Default::default()); } b.stmts.push(parse_quote!(return;)); }
        }
        _ => if unit { b.stmts.push(parse_quote!(return;)); },
    }
}
fn tail_expr(e: &mut Expr, unit: bool) {
    match e {
        Expr::If(i) => {
            tail_block(&mut i.then_branch, unit);
            match &mut i.else_branch { Some((_, el)) => tail_expr(el, unit), None => if unit { i.else_branch = Some((Default::default(), parse_quote!({ return; }))); } }
        }
        Expr::Match(m) => for a in m.arms.iter_mut() { tail_expr(&mut a.body, unit); if a.comma.is_none() { a.comma = Some(Default::default()); } },
        Expr::Block(b) if b.label.is_none() => tail_block(&mut b.block, unit),
        Expr::Return(_) => {}
        x => {
            if x.to_token_stream().to_string().replace(' ', "") == "vx_panic()" { return; }
            let y = x.clone();
            *x = if unit { parse_quote!({ #y; return; }) } else { parse_quote!({ return #y; }) };
        }
    }
}

pub fn emit_fn(mut f: ItemFn, spec: &FnSpec, mode_use: bool) -> (String, FnRep) {
    // trusted: only the signature is taken, the contract is assumed (reported as such)
    let mode_use = mode_use || spec.opts.iter().any(|o| o == "trusted");
    f.attrs.clear();
    let mut h = DefaultHasher::new(); f.to_token_stream().to_string().hash(&mut h);
    let hash = format!("{:016x}", h.finish());
    let mut calls = Calls(vec![]); syn::visit::Visit::visit_block(&mut calls, &f.block);
    let is_method = f.sig.receiver().is_some();
    let erase = spec.opts.iter().any(|o| o == "erase");
    if is_method {
        // method -> free function: self becomes parameter `vx_self`
        let ty = spec.name.split("::").next().unwrap();
        let tyi: Type = syn::parse_str(ty).unwrap();
        let recv = f.sig.receiver().unwrap().clone();
        let newp: FnArg = if recv.reference.is_some() { if recv.mutability.is_some() || spec.opts.iter().any(|o| o == "selfmut") { parse_quote!(vx_self: &mut #tyi) } else { parse_quote!(vx_self: &#tyi) } } else { parse_quote!(vx_self: #tyi) };
        f.sig.inputs = std::iter::once(newp).chain(f.sig.inputs.iter().skip(1).cloned()).collect();
        struct S; impl VisitMut for S { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = Ident::new("vx_self", i.span()); } } }
        S.visit_block_mut(&mut f.block);
    }
    if !spec.params.is_empty() { let q: Signature = syn::parse_str(&format!("fn x({})", spec.params)).unwrap(); f.sig.inputs = q.inputs; }
    if spec.opts.iter().any(|o| o == "flag") { FlagRw.visit_block_mut(&mut f.block); }
    if erase && !spec.heap.cell.is_empty() {
        struct RcC; impl VisitMut for RcC { fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Expr::Call(c) = e { if c.func.to_token_stream().to_string().replace(' ', "") == "Rc::clone" && c.args.len() == 1 { let a = strip_ref(&c.args[0]); *e = parse_quote!(#a.vx_ac()); } } } }
        RcC.visit_block_mut(&mut f.block);
    }
    if erase { RcRw.visit_signature_mut(&mut f.sig); RcRw.visit_block_mut(&mut f.block); }
    let is_heap = !spec.heap.cell.is_empty();
    if is_heap {
        struct CellTy<'a>(&'a Heap); // only cells first: parameters behind &Arc<RwLock<Deep>> are handled below
        impl<'a> VisitMut for CellTy<'a> { fn visit_type_mut(&mut self, t: &mut Type) { if let Type::Path(_) = t { if let Some(x) = deep_type(t) { if x.to_token_stream().to_string().split(' ').last() == Some(self.0.cell.as_str()) { *t = parse_quote!(VxRef); return; } } } visit_mut::visit_type_mut(self, t); } }
        CellTy(&spec.heap).visit_signature_mut(&mut f.sig);
        HeapTy(&spec.heap).visit_block_mut(&mut f.block);
    }
    if spec.opts.iter().any(|o| o == "deeplock") {
        let mut d = DeepRw { deep: vec![], heap: is_heap };
        for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { let inner = match &*t.ty { Type::Reference(r) if is_heap => (*r.elem).clone(), x => x.clone() }; if let Some(x) = deep_type(&inner) { t.ty = parse_quote!(&mut #x); if let Pat::Ident(i) = &*t.pat { d.deep.push(i.ident.to_string()); } } } }
        for o in &spec.opts { if let Some(x) = o.strip_prefix("deep=") { d.deep.push(x.to_string()); } }
        if is_method { d.deep.push("vx_self".into()); }
        d.visit_block_mut(&mut f.block);
    }
    if is_heap {
        HeapTy(&spec.heap).visit_signature_mut(&mut f.sig);
        UnusedGuard.visit_block_mut(&mut f.block);
        HeapRw { h: &spec.heap }.visit_block_mut(&mut f.block);
        let nm = f.sig.ident.to_string();
        if spec.heap.mt.contains(&nm) { f.sig.inputs.push(parse_quote!(vx_h: &mut VxHeap)); } else if spec.heap.ro.contains(&nm) { f.sig.inputs.push(parse_quote!(vx_h: &VxHeap)); }
    }
    if spec.opts.iter().any(|o| o == "handlers") { HandlerRw.visit_block_mut(&mut f.block); }
    let mut rw = BodyRw { opts: spec.opts.clone(), byval: spec.byval.clone(), loops: vec![], dropped: vec![], n: 0, closures: spec.closures.clone(), ty_erase: erase };
    if f.sig.inputs.to_token_stream().to_string().contains("& mut") { GuardRw.visit_block_mut(&mut f.block); }
    rw.visit_block_mut(&mut f.block);
    if spec.opts.iter().any(|o| o == "termclone") { CloneRw { strings: false }.visit_block_mut(&mut f.block); }
    TypeRw { erase }.visit_signature_mut(&mut f.sig);
    let mut params = pat::Binds::new();
    for (k, a) in f.sig.inputs.iter_mut().enumerate() { if let FnArg::Typed(t) = a { t.attrs.clear(); if let Pat::Ident(i) = &*t.pat { params.insert(format!("p{}", k+1), i.ident.to_string()); } } }
    params.insert("r".into(), spec.ret.clone());
    let mut an = Annot { spec, infos: &rw.loops, raws: BTreeMap::new(), params: params.clone(), unmatched: vec![], used_hints: vec![false; spec.stmts.len()], used_lets: vec![false; spec.lets.len()] };
    an.visit_block_mut(&mut f.block);
    let unmatched = an.unmatched.clone();
    let mut lost: Vec<String> = vec![];
    for (k, u) in an.used_hints.iter().enumerate() { if !u { lost.push(spec.stmts[k].0.clone()); } }
    for (k, u) in an.used_lets.iter().enumerate() { if !u { lost.push(spec.lets[k].0.clone()); } }
    // @cut: the statement S becomes `{ let mut o = true; while o INV { o = false; S } }`, which runs S exactly once
    for (n, (ps, txt)) in spec.cuts.iter().enumerate() {
        let mut done = false;
        for s in f.block.stmts.iter_mut() {
            if matches!(s, Stmt::Local(_) | Stmt::Item(_) | Stmt::Macro(_)) { continue; }
            let toks = s.to_token_stream();
            let mut b2 = Some(params.clone());
            for p in ps.split(";;") { b2 = b2.and_then(|b| pat::find(&pat::subst(p.trim(), &b), &toks, &b)); }
            if let Some(mut b2) = b2 {
                struct Ctl(bool); impl<'a> syn::visit::Visit<'a> for Ctl { fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; } }
                let mut ctl = Ctl(false); syn::visit::Visit::visit_stmt(&mut ctl, s); if ctl.0 { break; }
                let o = format_ident!("vx_once{}", n);
                b2.insert("once".into(), o.to_string());
                let parts: Vec<&str> = txt.split("---").collect(); let (inv, top, bot) = (parts[0], parts.get(1).unwrap_or(&""), parts.get(2).unwrap_or(&"")); // invariant --- first --- last
                let ki = an.raw(format!("invariant {}", pat::subst(inv, &b2))); let kt = an.raw(pat::subst(top, &b2)); let kb = an.raw(pat::subst(bot, &b2));
                let body = s.clone();
                *s = parse_quote!({ let mut #o = true; while #o { vx_inv!(#ki); #o = false; vx_raw!(#kt); { #body } vx_raw!(#kb); } });
                done = true; break;
            }
        }
        if !done { lost.push(format!("cut {}", ps)); }
    }
    let mut raws = an.raws.clone();
    if !spec.opts.iter().any(|o| o == "notailret") { let unit = matches!(f.sig.output, ReturnType::Default); tail_block(&mut f.block, unit); }
    if !spec.exit.trim().is_empty() {
        let k = raws.len(); raws.insert(k, pat::subst(&spec.exit, &params));
        struct ExitRw(proc_macro2::Literal, Ident, Option<Type>);
        impl VisitMut for ExitRw {
            fn visit_block_mut(&mut self, b: &mut Block) {
                visit_mut::visit_block_mut(self, b);
                let mut out: Vec<Stmt> = vec![];
                for s in std::mem::take(&mut b.stmts) {
                    let k = &self.0; let r = &self.1;
                    match &s {
                        Stmt::Expr(Expr::Return(ret), _) => match &ret.expr {
                            Some(e) => { match &self.2 { Some(t) => out.push(parse_quote!(let #r: #t = #e;)), None => out.push(parse_quote!(let #r = #e;)) } out.push(parse_quote!(vx_raw!(#k);)); out.push(parse_quote!(return #r;)); }
                            None => { out.push(parse_quote!(vx_raw!(#k);)); out.push(parse_quote!(return;)); }
                        },
                        _ => out.push(s),
                    }
                }
                b.stmts = out;
            }
        }
        ExitRw(proc_macro2::Literal::usize_unsuffixed(k), format_ident!("{}", spec.ret), match &f.sig.output { ReturnType::Type(_, t) if spec.sigsub.is_empty() => Some((**t).clone()), _ => None }).visit_block_mut(&mut f.block);
    }
    let name = spec.rename.clone().unwrap_or_else(|| f.sig.ident.to_string());
    let gens = { let g = &f.sig.generics; let s = print::print_ts(quote!(#g), &raws); s };
    let mut ins = { let i = &f.sig.inputs; print::print_ts(quote!(#i), &raws) };
    let mut out_ty = match &f.sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => print::print_ts(quote!(#t), &raws) };
    for (x, y) in &spec.sigsub { ins = ins.replace(x.as_str(), y); out_ty = out_ty.replace(x.as_str(), y); }
    let mut o = String::new();
    o.push_str(&format!("// ---- {}::{} ----\n", spec.file, spec.name));
    if !spec.opts.iter().any(|o| o == "isolate") { o.push_str("#[verifier::loop_isolation(false)]\n"); }
    if mode_use { o.push_str("#[verifier::external_body]\n"); } else { o.push_str(&spec.attr); }
    let ret = if out_ty.is_empty() { String::new() } else { format!("-> ({}: {})", spec.ret, out_ty.trim()) };
    o.push_str(&format!("pub fn {}{}({}) {}\n", name, gens.trim(), ins.trim(), ret));
    let mut ctr = pat::subst(&spec.contract, &params);
    if mode_use { if let Some(p) = ctr.find("decreases") { ctr.truncate(p); } }
    o.push_str(&ctr);
    if mode_use {
        o.push_str("{ loop {} }\n");
        return (o, FnRep { name, file: spec.file.clone(), start: 0, end: 0, unmatched: vec![], dropped: vec![], calls: vec![], missing: false, hash, lost_hints: vec![], used: true });
    }
    o.push_str("{\n");
    let entry = pat::subst(&spec.entry, &params);
    for hide in [true, false] { for l in entry.lines().filter(|l| l.trim_start().starts_with("hide(") == hide) { o.push_str(l); o.push('\n'); } }
    let stmts = &f.block.stmts;
    o.push_str(&print::print_ts(quote!(#(#stmts)*), &raws));
    o.push_str("\n}\n");
    let cs = calls.0;
    (o, FnRep { name: name, file: spec.file.clone(), start: 0, end: 0, unmatched, dropped: rw.dropped, calls: cs, missing: false, hash, lost_hints: lost, used: false })
}
