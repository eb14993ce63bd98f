//! vx: mechanical extraction of Rust items from /repo into text a deductive verifier (Verus) accepts.
//!
//! Input (stdin, JSON): { repo, sources:[{path, drop:[..], only:[..]}], derives:{Type:"A, B"},
//!   methods:{name:new}, calls:{"a::b":"c"}, casts:{"f64":"vx_as_f64"}, fns:{id:{external:bool,...}}, opaque_format:bool }
//! Output (stdout, JSON): { items:[{kind,id,code}], fns:[{id,source,loops,locals,calls,hash}], notes:[..], dropped:[..], literals:{..} }
//!
//! Nothing here invents code: every emitted function is the source function with the local rewrites
//! listed in `notes` (one line per rewrite applied).
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Map, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const RESERVED: &[&str] = &[
    "assert", "matches", "is", "has", "spec", "proof", "exec", "ghost", "tracked", "requires", "ensures", "invariant",
    "decreases", "via", "when", "assume", "forall", "exists", "choose", "open", "closed", "broadcast", "implies", "seq",
    "map", "set", "old", "int", "nat", "any", "global",
];

struct Cfg {
    methods: HashMap<String, String>,
    calls: HashMap<String, String>,
    casts: HashMap<String, String>,
    reserved: BTreeSet<String>,
    fn_values: BTreeSet<String>,
    known: BTreeSet<String>,
    types: HashMap<String, String>,
    arrays: BTreeSet<String>,
    /// fields declared to be hash maps (and nowhere anything else)
    maps: BTreeSet<String>,
    traits: HashMap<String, String>,
    ctx: Vec<Ctx>,
    thunks: BTreeSet<String>,
}
/// state that the extraction makes an argument (the console, a clock): functions with the option take it,
/// calls of them and of the listed library functions pass it
struct Ctx { opt: String, name: String, ty: String, pass: BTreeSet<String>, fns: BTreeSet<String> }
impl Cfg {
    fn names(ids: &BTreeSet<String>, path: &str, owner: &str) -> bool {
        let seg: Vec<&str> = path.split("::").collect();
        let last = seg[seg.len() - 1];
        if seg.len() == 1 { return ids.contains(last); }
        let before = seg[seg.len() - 2];
        if before.starts_with(|c: char| c.is_lowercase()) { return ids.contains(last); }
        ids.contains(&format!("{}::{}", if before == "Self" { owner } else { before }, last))
    }
    /// the arguments a call of this path takes in addition
    fn extra(&self, path: &str, fid: &str) -> Vec<Expr> {
        let owner = fid.rsplit_once("::").map(|x| x.0).unwrap_or("");
        self.ctx.iter().filter(|c| c.pass.contains(path) || Cfg::names(&c.fns, path, owner)).map(|c| { let n = format_ident!("{}", c.name); parse_quote!(#n) }).collect()
    }
}

fn has_test_attr(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test") || (a.path().is_ident("cfg") && {
            let t = a.meta.to_token_stream().to_string().replace(' ', "");
            t.starts_with("cfg(test") || t.contains("basjoofan_verif")
        })
    })
}

fn path_string(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn path_of(t: &Type) -> String { match t { Type::Path(p) => path_string(&p.path), _ => String::new() } }

fn type_string(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// Type name without generics, for ids.
fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => type_string(t),
    }
}

/// what only the test configuration compiles
struct StripTest;
fn stmt_attrs(s: &Stmt) -> &[Attribute] {
    match s {
        Stmt::Local(l) => &l.attrs,
        Stmt::Macro(m) => &m.attrs,
        Stmt::Expr(Expr::If(e), _) => &e.attrs,
        Stmt::Expr(Expr::Block(e), _) => &e.attrs,
        Stmt::Expr(Expr::Call(e), _) => &e.attrs,
        Stmt::Expr(Expr::MethodCall(e), _) => &e.attrs,
        _ => &[],
    }
}
impl VisitMut for StripTest {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !has_test_attr(stmt_attrs(s)));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        e.variants = e.variants.iter().filter(|v| !has_test_attr(&v.attrs)).cloned().collect();
        visit_mut::visit_item_enum_mut(self, e);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| !has_test_attr(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
}

/// `std::thread::spawn(move || BODY)`: the K-th of a function becomes a call that begins the function
/// `<fn>_threadK`, which is BODY with the variables it captures as parameters
struct Threads<'a> { id: String, name: String, specs: &'a Map<String, J>, k: usize, out: Vec<(String, ImplItemFn)>, notes: Vec<String> }
impl<'a> VisitMut for Threads<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let spawn = matches!(&*c.func, Expr::Path(p) if path_string(&p.path) == "spawn" || path_string(&p.path).ends_with("thread::spawn") || path_string(&p.path) == "ctrlc::set_handler");
            if spawn && c.args.len() == 1 {
                if let Expr::Closure(k) = &c.args[0] {
                    let n = self.k;
                    self.k += 1;
                    if let Some(ps) = self.specs.get(&format!("{}#{}", self.id, n)).and_then(|x| x.as_str()) {
                        let body = &k.body;
                        let name = format_ident!("{}_thread{}", self.name, n);
                        let block: Block = match &**body { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x; }) };
                        let mut f: ImplItemFn = parse_str(&format!("fn {}({}) {{}}", name, ps)).expect("thread parameters");
                        f.block = block;
                        let args: Vec<Ident> = f.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.clone()), _ => None }, _ => None }).collect();
                        let call = format_ident!("vx_spawn_{}", name);
                        self.out.push((format!("{}_thread{}", self.id, n), f));
                        self.notes.push(format!("{}: thread {} is a function of the variables its closure captures; beginning it is an assumed contract", self.id, n));
                        *e = parse_quote!(#call(#(#args),*));
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `iter::from_fn(move || BODY)`: BODY is a function of the captured state, the iterator is that state
struct Steps { params: Vec<(Ident, Type)>, ret: Type, name: Ident, state: Ident, body: Option<Expr> }
impl VisitMut for Steps {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "from_fn").unwrap_or(false)) && c.args.len() == 1 && self.body.is_none() {
                if let Expr::Closure(k) = &c.args[0] {
                    if k.inputs.is_empty() {
                        self.body = Some((*k.body).clone());
                        let (s, f) = (&self.state, self.params.iter().map(|p| p.0.clone()).collect::<Vec<_>>());
                        *e = parse_quote!(#s { #(#f),* });
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// names bound by patterns
struct Bound(Vec<String>);
impl<'a> Visit<'a> for Bound { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
/// single names read or written
struct Used(BTreeSet<String>);
impl<'a> Visit<'a> for Used { fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } } }
/// assignments to captured state go through its reference
struct Through(BTreeSet<String>);
impl VisitMut for Through {
    fn visit_expr_assign_mut(&mut self, a: &mut ExprAssign) {
        visit_mut::visit_expr_assign_mut(self, a);
        if let Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { if self.0.contains(&i.to_string()) { let l = a.left.clone(); a.left = parse_quote!(*#l); } } }
    }
}
/// `let f = |p, ..| BODY;` that is only called: BODY at each call
fn inline_closures(block: &mut Block, id: &str, notes: &mut Vec<String>) {
    let mut i = 0;
    while i < block.stmts.len() {
        let found = match &block.stmts[i] {
            Stmt::Local(l) => match (&l.pat, l.init.as_ref().map(|x| &*x.expr)) {
                (Pat::Ident(n), Some(Expr::Closure(c))) if !c.inputs.is_empty() && !has_return(&c.body) => Some((n.ident.clone(), c.clone())),
                _ => None,
            },
            _ => None,
        };
        let Some((name, c)) = found else { i += 1; continue };
        let mut rest = block.clone();
        rest.stmts.remove(i);
        let mut b = Bound(vec![]);
        b.visit_block(&rest);
        let mut own = Bound(vec![]);
        for p in &c.inputs { own.visit_pat(p); }
        own.visit_expr(&c.body);
        let mut u = Used(BTreeSet::new());
        u.visit_expr(&c.body);
        let caught = u.0.iter().any(|x| !own.0.contains(x) && b.0.iter().filter(|y| *y == x).count() > 1);
        struct Calls { name: Ident, c: ExprClosure, n: usize }
        impl VisitMut for Calls {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(k) = e {
                    if matches!(&*k.func, Expr::Path(p) if p.path.is_ident(&self.name)) && k.args.len() == self.c.inputs.len() {
                        let ps: Vec<Pat> = self.c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), x => x.clone() }).collect();
                        let (a, body) = (k.args.iter(), &self.c.body);
                        self.n += 1;
                        *e = if ps.len() == 1 { let p = &ps[0]; parse_quote!({ let #p = #(#a)*; #body }) } else { parse_quote!({ let (#(#ps),*) = (#(#a),*); #body }) };
                    }
                }
            }
        }
        let mut v = Calls { name: name.clone(), c, n: 0 };
        v.visit_block_mut(&mut rest);
        let mut left = Used(BTreeSet::new());
        left.visit_block(&rest);
        if caught || v.n == 0 || left.0.contains(&name.to_string()) { i += 1; continue; }
        notes.push(format!("{}: closure `{}` written out at its calls", id, name));
        *block = rest;
    }
}

struct Rewriter<'a> {
    cfg: &'a Cfg,
    opts: BTreeSet<String>,
    notes: Vec<String>,
    fid: String,
    counter: usize,
    prints: usize,
    receivers: BTreeSet<String>,
}

impl<'a> Rewriter<'a> {
    fn note(&mut self, s: &str) {
        self.notes.push(format!("{}: {}", self.fid, s));
    }
    fn fresh(&mut self, base: &str) -> Ident {
        self.counter += 1;
        format_ident!("vx_{}{}", base, self.counter)
    }
    /// format!/write! with every piece and argument written out as an append of its text
    fn exact_format(&mut self, m: &Macro, target: Option<&Expr>) -> Option<Expr> {
        let (stmts, acc) = self.pieces(m, target)?;
        Some(if target.is_some() {
            self.note("`write!` to a formatter written as appends of its pieces, failure of the formatter not modelled");
            parse_quote!(({ #(#stmts)* Ok(()) }))
        } else {
            self.note("`format!` written as appends of its pieces");
            parse_quote!({ let mut #acc = String::new(); #(#stmts)* #acc })
        })
    }
    /// print!/println! as appends to the console argument
    fn console(&mut self, m: &Macro) -> Option<Expr> {
        let line = path_string(&m.path) == "println";
        let toks = m.tokens.clone();
        let fm: Macro = if toks.is_empty() { if line { parse_quote!(writeln!(vx_out, "")) } else { parse_quote!(write!(vx_out, "")) } }
            else if line { parse_quote!(writeln!(vx_out, #toks)) } else { parse_quote!(write!(vx_out, #toks)) };
        let t: Expr = parse_quote!(vx_out);
        let (stmts, _) = self.pieces(&fm, Some(&t))?;
        self.note(&format!("`{}!` written as appends to the console, which is an argument", path_string(&m.path)));
        let h = format!("{}#print#{}", self.fid, self.prints);
        self.prints += 1;
        Some(parse_quote!({ #(#stmts)* vx_hint!(#h); }))
    }
    fn pieces(&mut self, m: &Macro, target: Option<&Expr>) -> Option<(Vec<Stmt>, Expr)> {
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let mut it = args.into_iter();
        if target.is_some() { it.next()?; }
        let mut lit = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            Expr::Macro(c) if path_string(&c.mac.path) == "concat" => {
                let parts = c.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                parts.iter().map(|p| match p { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), _ => None }).collect::<Option<String>>()?
            }
            _ => return None,
        };
        if path_string(&m.path) == "writeln" { lit.push('\n'); }
        let mut rest: Vec<Expr> = it.collect();
        for r in rest.iter_mut() { self.visit_expr_mut(r); }
        let acc: Expr = match target { Some(t) => parse_quote!(#t.buf), None => { let a = self.fresh("s"); parse_quote!(#a) } };
        let mut stmts: Vec<Stmt> = Vec::new();
        let mut text = String::new();
        let mut next = 0usize;
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => { text.push('{'); i += 2; }
                '}' if cs.get(i + 1) == Some(&'}') => { text.push('}'); i += 2; }
                '{' => {
                    let e = (i..cs.len()).find(|k| cs[*k] == '}')?;
                    let spec: String = cs[i + 1..e].iter().collect();
                    let (name, f) = match spec.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (spec, String::new()) };
                    let arg: Expr = if name.is_empty() { let a = rest.get(next)?.clone(); next += 1; a }
                        else if let Ok(k) = name.parse::<usize>() { rest.get(k)?.clone() }
                        else { let id = format_ident!("{}", name); parse_quote!(#id) };
                    if !text.is_empty() { let t = std::mem::take(&mut text); stmts.push(parse_quote!(#acc.vx_push_text(#t);)); }
                    match f.as_str() {
                        "" => stmts.push(parse_quote!(#acc.vx_push_shown(&(#arg));)),
                        "?" => stmts.push(parse_quote!(#acc.vx_push_debug(&(#arg));)),
                        z if z.len() > 1 && z.starts_with('0') && z[1..].parse::<usize>().is_ok() => {
                            let n: usize = z[1..].parse().unwrap();
                            stmts.push(parse_quote!(#acc.vx_push_padded(&(#arg), #n);))
                        }
                        _ => return None,
                    }
                    i = e + 1;
                }
                c => { text.push(c); i += 1; }
            }
        }
        if !text.is_empty() { stmts.push(parse_quote!(#acc.vx_push_text(#text);)); }
        Some((stmts, acc))
    }
    /// A.iter()...map/filter_map/for_each(closure)...collect::<T>() => explicit loop
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let mut turbofish: Option<Type> = None;
        let (recv, kind) = match e {
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => {
                if let Some(t) = &m.turbofish {
                    if let Some(GenericArgument::Type(t)) = t.args.first() {
                        turbofish = Some(t.clone());
                    }
                }
                (&*m.receiver, "collect")
            }
            Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => (e, "for_each"),
            _ => return None,
        };
        if kind == "for_each" {
            let m = match e { Expr::MethodCall(m) => m, _ => return None };
            let c = match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
            if has_return(&c.body) { return None; }
            let pat = &c.inputs[0];
            let body = &c.body;
            let it = &m.receiver;
            self.note("`.for_each(closure)` written as a `for` loop");
            return Some(parse_quote!({ for #pat in #it { #body; } }));
        }
        let m = match recv { Expr::MethodCall(m) => m, _ => return None };
        let name = m.method.to_string();
        if (name != "map" && name != "filter_map") || m.args.len() != 1 { return None; }
        let c = match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
        if has_return(&c.body) { return None; }
        let pat = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
        let body = &c.body;
        let it = &m.receiver;
        let acc = self.fresh("acc");
        let t = turbofish.as_ref().map(type_string).unwrap_or_default();
        self.note(&format!("`.{}(closure).collect()` written as a `for` loop", name));
        let tmp = self.fresh("item");
        let is_map = t.starts_with("HashMap");
        if name == "map" && t.starts_with("Result<Vec<") {
            if let Some(Type::Path(tp)) = &turbofish {
                if let PathArguments::AngleBracketed(a) = &tp.path.segments.last().unwrap().arguments {
                    if a.args.len() == 2 {
                        let (ok, er) = (&a.args[0], &a.args[1]);
                        let failed = self.fresh("failed");
                        self.note("`.map(closure).collect()` into a Result written as a `for` loop that ends at the first error");
                        return Some(parse_quote!({ let mut #acc: #ok = Vec::new(); let mut #failed: Option<#er> = None; for #pat in #it { match #body { Ok(#tmp) => { #acc.push(#tmp); } Err(vx_e) => { #failed = Some(vx_e); break; } } } match #failed { Some(vx_e) => Err(vx_e), None => Ok(#acc) } }));
                    }
                }
            }
        }
        let ty: TokenStream = turbofish.map(|t| quote!(: #t)).unwrap_or_default();
        let init: TokenStream = if is_map { quote!(HashMap::new()) } else { quote!(Vec::new()) };
        let push: TokenStream = if is_map {
            quote!({ #acc.insert(#tmp.0, #tmp.1); })
        } else { quote!({ #acc.push(#tmp); }) };
        if name == "map" {
            Some(parse_quote!({ let mut #acc #ty = #init; for #pat in #it { let #tmp = #body; #push } #acc }))
        } else {
            Some(parse_quote!({ let mut #acc #ty = #init; for #pat in #it { if let Some(#tmp) = #body #push } #acc }))
        }
    }
}

/// a `continue` of this loop itself
fn has_continue(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

fn is_range_index(e: &Expr) -> bool {
    matches!(e, Expr::Index(i) if matches!(&*i.index, Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_))))
}

/// the list of `&list[..]`, `list.as_slice()`
fn list_of(e: &Expr) -> Option<Ident> {
    match e {
        Expr::Reference(r) => match &*r.expr {
            Expr::Index(i) if matches!(&*i.index, Expr::Range(x) if x.start.is_none() && x.end.is_none()) => match &*i.expr { Expr::Path(p) => p.path.get_ident().cloned(), _ => None },
            _ => None,
        },
        Expr::MethodCall(m) if m.method == "as_slice" && m.args.is_empty() => match &*m.receiver { Expr::Path(p) => p.path.get_ident().cloned(), _ => None },
        _ => None,
    }
}
fn partition_of(l: &Local) -> Option<(Expr, ExprClosure)> {
    match l.init.as_ref().map(|i| &*i.expr) {
        Some(Expr::MethodCall(m)) if (m.method == "partition" || m.method == "vx_partition") && m.args.len() == 1 => match (&*m.receiver, &m.args[0]) {
            (Expr::MethodCall(r), Expr::Closure(c)) if (r.method == "into_iter" || r.method == "vx_into_iter") && r.args.is_empty() && c.inputs.len() == 1 && !has_return(&c.body) => Some(((*r.receiver).clone(), c.clone())),
            _ => None,
        },
        _ => None,
    }
}
/// the receiving ends of the channels a function makes, and its receivers
fn receivers_of(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Pat::Tuple(t), Some(i)) = (&l.pat, &l.init) {
                if let Expr::Call(c) = &*i.expr {
                    if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "channel").unwrap_or(false)) && t.elems.len() == 2 {
                        if let Pat::Ident(r) = &t.elems[1] { self.0.insert(r.ident.to_string()); }
                    }
                }
            }
            visit::visit_local(self, l);
        }
    }
    let mut v = V(BTreeSet::new());
    v.visit_block(b);
    v.0.insert("receiver".into());
    v.0
}
/// `for p in receiver` or `receiver.iter()`
fn receiver_loop(f: &ExprForLoop, set: &BTreeSet<String>) -> Option<Ident> {
    let base = match &*f.expr { Expr::MethodCall(m) if (m.method == "iter" || m.method == "into_iter") && m.args.is_empty() => &*m.receiver, x => x };
    let base = match base { Expr::Reference(r) => &*r.expr, x => x };
    match base { Expr::Path(p) => p.path.get_ident().filter(|i| set.contains(&i.to_string())).cloned(), _ => None }
}
fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

impl<'a> Rewriter<'a> {
    /// named constants of libraries in patterns
    fn const_pattern(&self, p: &mut Pat) {
        match p {
            Pat::Path(x) => { if let Some(n) = self.cfg.calls.get(&format!("const {}", path_string(&x.path))) { x.path = parse_str(n).unwrap(); } }
            Pat::Or(o) => for c in o.cases.iter_mut() { self.const_pattern(c); },
            Pat::Paren(c) => self.const_pattern(&mut c.pat),
            Pat::TupleStruct(t) => for c in t.elems.iter_mut() { self.const_pattern(c); },
            Pat::Tuple(t) => for c in t.elems.iter_mut() { self.const_pattern(c); },
            Pat::Reference(r) => self.const_pattern(&mut r.pat),
            _ => {}
        }
    }
}
impl<'a> VisitMut for Rewriter<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if self.cfg.reserved.contains(&s) {
            *i = Ident::new(&format!("{}_", s), i.span());
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        let name = m.method.clone();
        visit_mut::visit_expr_method_call_mut(self, m);
        m.method = name;
    }
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        // the lifetime argument of the formatter is dropped with its borrow
        if let Some(l) = t.path.segments.last_mut() { if l.ident == "Formatter" { l.arguments = PathArguments::None; let i = l.ident.clone(); t.path = parse_quote!(#i); } }
        if let Some(n) = self.cfg.types.get(&path_string(&t.path)) {
            let mut np: Path = parse_str(n).unwrap();
            np.segments.last_mut().unwrap().arguments = t.path.segments.last().unwrap().arguments.clone();
            t.path = np;
        }
        visit_mut::visit_type_path_mut(self, t);
    }
    fn visit_trait_bound_mut(&mut self, t: &mut TraitBound) {
        if let Some(n) = self.cfg.types.get(&path_string(&t.path)) {
            let mut np: Path = parse_str(n).unwrap();
            np.segments.last_mut().unwrap().arguments = t.path.segments.last().unwrap().arguments.clone();
            t.path = np;
        }
        visit_mut::visit_trait_bound_mut(self, t);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // do not rename the macro's own path; rewrite simple `matches!`/`vec!` arguments by parsing them
        let name = path_string(&m.path);
        if name == "vec" {
            if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                m.tokens = args.to_token_stream();
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            match s {
                // `for (i, x) in e.enumerate()` => explicit counter declared before the loop
                Stmt::Expr(Expr::ForLoop(mut f), semi) => {
                    if let Expr::MethodCall(mc) = &*f.expr {
                        if mc.method == "enumerate" && mc.args.is_empty() {
                            if let Pat::Tuple(t) = &*f.pat {
                                if t.elems.len() == 2 {
                                    let n = self.fresh("n");
                                    let i = t.elems[0].clone();
                                    let x = t.elems[1].clone();
                                    let inner = (*mc.receiver).clone();
                                    f.pat = Box::new(x);
                                    f.expr = Box::new(inner);
                                    f.body.stmts.insert(0, parse_quote!(let #i = #n;));
                                    f.body.stmts.insert(1, parse_quote!(#n = #n + 1;));
                                    out.push(parse_quote!(let mut #n: usize = 0;));
                                    self.note("`.enumerate()` written as an explicit counter");
                                }
                            }
                        }
                    }
                    out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                }
                s => out.push(s),
            }
        }
        for s in std::mem::take(&mut out) {
            match s {
                // `for p in CONSTANT_ARRAY` => over its elements
                Stmt::Expr(Expr::ForLoop(mut f), semi) if matches!(&*f.expr, Expr::Path(p) if p.path.get_ident().map(|i| self.cfg.arrays.contains(&i.to_string())).unwrap_or(false)) => {
                    let (pat, ex) = (f.pat.clone(), f.expr.clone());
                    let it = self.fresh("e");
                    f.pat = parse_quote!(#it);
                    f.expr = parse_quote!(#ex.as_slice().iter());
                    f.body.stmts.insert(0, parse_quote!(let #pat = *#it;));
                    self.note("`for` over a constant array written as `for` over its elements, copied");
                    out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                }
                // `for (k, v) in &x.field` of a hash map => over its `iter()`
                Stmt::Expr(Expr::ForLoop(mut f), semi) if matches!(&*f.expr, Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Field(x) if matches!(&x.member, Member::Named(n) if self.cfg.maps.contains(&n.to_string())))) => {
                    if let Expr::Reference(r) = &*f.expr { let ex = r.expr.clone(); f.expr = parse_quote!(#ex.iter()); }
                    self.note("`for` over a reference to a hash map written as `for` over its `iter()`");
                    out.push(Stmt::Expr(Expr::ForLoop(f), semi));
                }
                // `for p in receiver` => `while let Some(p) = receiver.vx_receive()`
                Stmt::Expr(Expr::ForLoop(f), semi) if self.opts.contains("drain") && receiver_loop(&f, &self.receivers).is_some() => {
                    let r = receiver_loop(&f, &self.receivers).unwrap();
                    let (pat, body, label) = (&f.pat, &f.body, &f.label);
                    let args: Vec<Ident> = self.cfg.ctx.iter().filter(|c| self.opts.contains(&c.opt) && c.pass.contains(".vx_receive")).map(|c| format_ident!("{}", c.name)).collect();
                    self.note("`for` over a receiver written as `while let Some(..)` over what it receives");
                    out.push(Stmt::Expr(parse_quote!(#label while let Some(#pat) = #r.vx_receive(#(#args),*) #body), semi));
                }
                // `let (a, b) = v.into_iter().partition(|p| cond);` => a loop
                Stmt::Local(l) if self.opts.contains("partition") && partition_of(&l).is_some() => {
                    let (recv, c) = partition_of(&l).unwrap();
                    let (pat, body, yes, no, it, x, k) = (&c.inputs[0], &c.body, self.fresh("yes"), self.fresh("no"), self.fresh("it"), self.fresh("x"), self.fresh("keep"));
                    let whole = &l.pat;
                    self.note("`partition` written as a loop");
                    out.push(parse_quote!(let mut #yes = Vec::new();));
                    out.push(parse_quote!(let mut #no = Vec::new();));
                    out.push(parse_quote!(let mut #it = #recv.vx_into_iter();));
                    out.push(parse_quote!(while let Some(#x) = #it.next() { let #k = { let #pat = &#x; #body }; if #k { #yes.push(#x); } else { #no.push(#x); } }));
                    out.push(parse_quote!(let #whole = (#yes, #no);));
                }
                // a `for` with `continue` => `while let` over its iterator
                Stmt::Expr(Expr::ForLoop(f), semi) if has_continue(&f.body) || self.opts.contains("whilelet") => {
                    let (pat, body, label, ex) = (&f.pat, &f.body, &f.label, &f.expr);
                    let it = self.fresh("it");
                    self.note("`for` with `continue` written as `while let Some(..) = next()` over its iterator");
                    out.push(parse_quote!(let mut #it = #ex.vx_into_iter();));
                    out.push(Stmt::Expr(parse_quote!(#label while let Some(#pat) = #it.next() #body), semi));
                }
                // `for p in it.by_ref()` => `while let Some(p) = it.next()`
                Stmt::Expr(Expr::ForLoop(f), semi) if matches!(&*f.expr, Expr::MethodCall(mc) if mc.method == "by_ref" && mc.args.is_empty()) => {
                    let (pat, body, label) = (&f.pat, &f.body, &f.label);
                    let it = match &*f.expr { Expr::MethodCall(mc) => &mc.receiver, _ => unreachable!() };
                    self.note("`for` over `by_ref()` written as `while let Some(..) = next()`");
                    out.push(Stmt::Expr(parse_quote!(#label while let Some(#pat) = #it.next() #body), semi));
                }
                // `cond.then(|| stmt);` => `if cond { stmt }`
                Stmt::Expr(Expr::MethodCall(mc), Some(semi)) if mc.method == "then" && mc.args.len() == 1 => {
                    if let Expr::Closure(c) = &mc.args[0] {
                        if c.inputs.is_empty() && !has_return(&c.body) {
                            let mut cond = (*mc.receiver).clone();
                            if let Expr::Paren(p) = &cond { cond = (*p.expr).clone(); }
                            let body = &c.body;
                            self.note("`cond.then(|| stmt);` written as `if cond { stmt }`");
                            out.push(match &**body {
                                Expr::Block(bk) => parse_quote!(if #cond #bk),
                                e => parse_quote!(if #cond { #e; }),
                            });
                            continue;
                        }
                    }
                    out.push(Stmt::Expr(Expr::MethodCall(mc), Some(semi)));
                }
                // a block that is just a loop
                Stmt::Expr(Expr::Block(bk), _) if bk.label.is_none() && bk.block.stmts.len() == 1 && matches!(&bk.block.stmts[0], Stmt::Expr(Expr::ForLoop(_), _)) => {
                    out.extend(bk.block.stmts);
                }
                Stmt::Item(Item::Use(_)) => {}
                // macros in statement position
                Stmt::Macro(sm) => {
                    let name = path_string(&sm.mac.path);
                    if (name == "println" || name == "print") && self.opts.contains("console") {
                        match self.console(&sm.mac) {
                            Some(e) => out.push(Stmt::Expr(e, Some(Default::default()))),
                            None => out.push(Stmt::Macro(sm)),
                        }
                    } else if name == "println" || name == "print" || name == "eprintln" || name == "eprint" {
                        let args = format_args_exprs(&sm.mac, self);
                        self.note(&format!("`{}!` output not modelled", name));
                        out.push(parse_quote!(vx_print(#args);));
                    } else if (name == "write" || name == "writeln") && self.opts.contains("exact") {
                        let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: sm.mac.clone() });
                        self.visit_expr_mut(&mut e);
                        out.push(Stmt::Expr(e, sm.semi_token));
                    } else {
                        out.push(Stmt::Macro(sm));
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `if let [a, b] = &list[..]` => a test of its length
        if self.opts.contains("slicepat") {
            if let Expr::If(f) = e {
                let hit = match &*f.cond {
                    Expr::Let(l) => match (&*l.pat, list_of(&l.expr)) {
                        (Pat::Slice(s), Some(v)) if s.elems.iter().all(|p| matches!(p, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) || matches!(p, Pat::Wild(_))) => Some((s.elems.iter().cloned().collect::<Vec<_>>(), v)),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((pats, v)) = hit {
                    let n = pats.len();
                    f.cond = parse_quote!(vx_count(&#v) == #n);
                    for (i, p) in pats.iter().enumerate().rev() { f.then_branch.stmts.insert(0, parse_quote!(let #p = &#v[#i];)); }
                    self.note("a slice pattern written as a test of the length");
                }
            }
        }
        // guarded arms of one pattern => one arm that tests the guards in turn and goes on with the rest
        {
            if let Expr::Match(m) = e {
                if let Some(arms) = unguard(&m.arms) {
                    m.arms = arms;
                    self.note("guarded arms of a match written as tests inside one arm");
                }
            }
        }
        if let Some(n) = self.chain(e) { *e = n; }
        if let Some(n) = byte_array(e) { *e = n; return; }
        // `&text[a..b]` => call of the slicing contract
        if self.opts.contains("strindex") {
            if let Expr::Reference(r) = e { if is_range_index(&r.expr) { *e = (*r.expr).clone(); } }
            if is_range_index(e) {
                if let Expr::Index(ix) = e {
                    let base = &ix.expr;
                    if let Expr::Range(r) = &*ix.index {
                        let n: Option<Expr> = match (&r.start, &r.end) {
                            (Some(a), Some(b)) => Some(parse_quote!(#base.vx_slice(#a, #b))),
                            (Some(a), None) => Some(parse_quote!(#base.vx_slice_from(#a))),
                            (None, Some(b)) => Some(parse_quote!(#base.vx_slice_to(#b))),
                            _ => None,
                        };
                        if let Some(n) = n { *e = n; self.note("slice of a text written as a call of its contract"); }
                    }
                }
            }
        }
        // `option == Some(x)` => call of the comparison contract
        if self.opts.contains("optis") {
            if let Expr::Binary(b) = e {
                if let (BinOp::Eq(_), Expr::Call(c)) = (&b.op, &*b.right) {
                    if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) && c.args.len() == 1 {
                        let (x, y) = (&b.left, &c.args[0]);
                        *e = parse_quote!(vx_option_is(#x, #y));
                        self.note("`option == Some(x)` written as a call of its contract");
                    }
                }
            }
        }
        // `text == "literal"` => call of the comparison contract
        if self.opts.contains("exact") {
            if let Expr::Binary(b) = e {
                let lit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (lit(&b.left) != lit(&b.right)) {
                    let (x, l) = if lit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                    let new: Expr = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(#x.vx_is(#l)) } else { parse_quote!(!#x.vx_is(#l)) };
                    *e = new;
                }
            }
        }
        // macros in expression position
        if let Expr::Macro(m) = e {
            let name = path_string(&m.mac.path);
            if (name == "write" || name == "writeln" || name == "format") && self.opts.contains("exact") {
                let target: Option<Expr> = if name != "format" {
                    m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().and_then(|a| a.first().cloned())
                } else { None };
                let mac = m.mac.clone();
                if name != "format" && self.opts.contains("io") {
                    // written to a byte sink: one write of the whole text
                    if let (Some(t), Ok(args)) = (&target, m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)) {
                        let rest: Vec<Expr> = args.into_iter().skip(1).collect();
                        let fm: Macro = parse_quote!(format!(#(#rest),*));
                        if let (Some(n), "write") = (self.exact_format(&fm, None), name.as_str()) {
                            self.note("`write!` to a byte sink written as one write of its text");
                            *e = parse_quote!(#t.vx_write_text(#n)); return;
                        }
                    }
                }
                if let Some(n) = self.exact_format(&mac, target.as_ref()) { *e = n; return; }
            }
            if name == "format" {
                let args = format_args_exprs(&m.mac, self);
                let lit = format_literal(&m.mac);
                self.note("`format!` text left unspecified (value-preserving arguments evaluated)");
                let _ = lit;
                *e = parse_quote!(vx_format(#args));
                return;
            }
            if name == "panic" && self.opts.contains("panic") {
                let args = format_args_exprs(&m.mac, self);
                self.note("`panic!` written as a call that does not return");
                *e = parse_quote!(vx_panic(#args));
                return;
            }
            if (name == "println" || name == "print") && self.opts.contains("console") {
                let mac = m.mac.clone();
                if let Some(n) = self.console(&mac) { *e = n; }
                return;
            }
            if name == "println" || name == "print" {
                let args = format_args_exprs(&m.mac, self);
                *e = parse_quote!(vx_print(#args));
                return;
            }
            if name == "write" || name == "writeln" {
                // handled by unit specific config: left alone
            }
        }
        if self.opts.contains("thunk") {
            if let Expr::Call(c) = e {
                if let (Expr::Path(p), true) = (&*c.func, c.args.is_empty()) {
                    if let Some(id) = p.path.get_ident() {
                        if !self.cfg.known.contains(&id.to_string()) && !id.to_string().starts_with(|c: char| c.is_uppercase()) {
                            let args = self.cfg.ctx.iter().filter(|c| self.opts.contains(&c.opt)).map(|c| format_ident!("{}", c.name));
                            *e = parse_quote!(#id.run(#(#args),*));
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            let callee = match &*c.func { Expr::Path(p) => path_string(&p.path), _ => String::new() };
            let owner = self.fid.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
            if !callee.is_empty() && Cfg::names(&self.cfg.thunks, &callee, &owner) {
                let mut found: Option<(Expr, Ident)> = None;
                for a in c.args.iter_mut() {
                    let some = matches!(&*a, Expr::Call(k) if k.args.len() == 1 && matches!(&*k.func, Expr::Path(p) if p.path.is_ident("Some")));
                    let clo = match &*a { Expr::Call(k) if some => k.args.first().cloned(), x => Some(x.clone()) };
                    if let Some(Expr::Closure(k)) = clo {
                        if k.inputs.is_empty() && found.is_none() && !has_return(&k.body) {
                            let t = self.fresh("thunk");
                            *a = if some { parse_quote!(Some(&mut #t)) } else { parse_quote!(&mut #t) };
                            found = Some(((*k.body).clone(), t));
                        }
                    }
                }
                if let Some((body, t)) = found {
                    let r = self.fresh("result");
                    let ctx: Vec<Stmt> = self.cfg.ctx.iter().filter(|c| self.opts.contains(&c.opt)).map(|c| { let n = format_ident!("{}", c.name); parse_quote!(let #n = &mut #t.#n;) }).collect();
                    let call = c.clone();
                    let call: Expr = { let mut x = Expr::Call(call); self.visit_expr_mut(&mut x); x };
                    let body: Expr = { let mut x = body; self.visit_expr_mut(&mut x); x };
                    self.notes.push(format!("{}: the closure given to `{}` runs after the call, at the moment the call recorded, if the call ran it", self.fid, callee));
                    *e = parse_quote!({ let mut #t = VxThunk::new(); let #r = #call; if #t.ran() { #(#ctx)* #body; } #r });
                    return;
                }
            }
        }
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() { self.const_pattern(&mut a.pat); }
        }
        if let Expr::Let(l) = e { self.const_pattern(&mut l.pat); }
        if let Expr::Macro(m) = e {
            if self.opts.contains("exact") {
                let n = path_string(&m.mac.path);
                let def = LOCAL_MACROS.with(|l| l.borrow().get(&n).cloned());
                if let Some(x) = def.and_then(|d| expand_one(d, m.mac.tokens.clone()).ok()).and_then(|t| parse2::<Expr>(t).ok()) {
                    self.note(&format!("macro {}! expanded with its own rules", n));
                    *e = x;
                    return self.visit_expr_mut(e);
                }
            }
        }
        if let Expr::Path(p) = e {
            let s = path_string(&p.path);
            if let Some(n) = self.cfg.calls.get(&format!("const {}", s)) { p.path = parse_str(n).unwrap(); }
            else if let Some((t, f)) = s.rsplit_once("::") {
                // an associated function or constant of a renamed library type
                if !self.cfg.calls.contains_key(&s) && p.qself.is_none() {
                    if let Some(n) = self.cfg.types.get(t) {
                        let (mut np, id): (Path, Ident) = (parse_str(n).unwrap(), format_ident!("{}", f));
                        np.segments.push(id.into());
                        p.path = np;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(mc) if mc.method == "map" && mc.args.len() == 1 && self.opts.contains("resmap")
                && matches!(&mc.args[0], Expr::Closure(c) if c.inputs.len() == 1 && !has_return(&c.body)) => {
                let (r, c) = (&mc.receiver, match &mc.args[0] { Expr::Closure(c) => c, _ => unreachable!() });
                let (p, b) = (&c.inputs[0], &c.body);
                let n: Expr = parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) });
                self.notes.push(format!("{}: `result.map(closure)` written as a `match`", self.fid));
                Some(n)
            }
            Expr::MethodCall(mc) if mc.method == "map_err" && mc.args.len() == 1
                && matches!(&mc.args[0], Expr::Closure(c) if c.inputs.len() == 1 && !has_return(&c.body)) => {
                let (r, c) = (&mc.receiver, match &mc.args[0] { Expr::Closure(c) => c, _ => unreachable!() });
                let (p, b) = (&c.inputs[0], &c.body);
                self.notes.push(format!("{}: `result.map_err(closure)` written as a `match`", self.fid));
                Some(parse_quote!(match #r { Ok(vx_o) => Ok(vx_o), Err(#p) => Err(#b) }))
            }
            Expr::MethodCall(mc) if mc.method == "map" && mc.args.len() == 1 && self.opts.contains("optmap")
                && matches!(&mc.args[0], Expr::Path(p) if self.cfg.fn_values.contains(&path_string(&p.path))) => {
                let (r, p) = (&mc.receiver, &mc.args[0]);
                self.notes.push(format!("{}: `option.map(constructor)` written as a `match`", self.fid));
                Some(parse_quote!(match #r { Some(vx_x) => Some(#p(vx_x)), None => None }))
            }
            Expr::MethodCall(mc) if mc.method == "map" && mc.args.len() == 1 && self.opts.contains("optmap")
                && matches!(&mc.args[0], Expr::Closure(c) if c.inputs.len() == 1 && !has_return(&c.body)) => {
                let (r, c) = (&mc.receiver, match &mc.args[0] { Expr::Closure(c) => c, _ => unreachable!() });
                let (p, b) = (&c.inputs[0], &c.body);
                let n: Expr = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                self.notes.push(format!("{}: `option.map(closure)` written as a `match`", self.fid));
                Some(n)
            }
            Expr::MethodCall(mc) => {
                let mut name = mc.method.to_string();
                for c in &self.cfg.ctx {
                    if self.opts.contains(&c.opt) && c.pass.contains(&format!(".{}", name)) { let n = format_ident!("{}", c.name); mc.args.push(parse_quote!(#n)); }
                }
                if let Some(t) = &mc.turbofish {
                    if name == "parse" {
                        let ty = t.args.to_token_stream().to_string().replace(' ', "");
                        name = format!("parse_{}", ty);
                        mc.turbofish = None;
                        mc.method = format_ident!("vx_{}", name);
                        self.notes.push(format!("{}: `.parse::<{}>()` is an assumed library contract", self.fid, ty));
                    }
                }
                let own = self.opts.iter().find_map(|o| o.strip_prefix(&format!("method:{}=", name)).map(|n| n.to_string()));
                if let Some(n) = own.as_ref().or_else(|| self.cfg.methods.get(&name)) {
                    if name == "collect" { mc.turbofish = None; }
                    mc.method = Ident::new(n, Span::call_site());
                    self.notes.push(format!("{}: method `{}` is an assumed library contract", self.fid, name));
                }
                // constructor used as a function value
                for a in mc.args.iter_mut() {
                    if let Expr::Path(p) = a {
                        let s = path_string(&p.path);
                        if self.cfg.fn_values.contains(&s) {
                            let pp = p.clone();
                            *a = parse_quote!(|vx_x| #pp(vx_x));
                        }
                    }
                }
                None
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let s = path_string(&p.path);
                    // `module::function` of this crate: the unit is one flat module
                    let first = p.path.segments.first().map(|x| x.ident.to_string()).unwrap_or_default();
                    let last = p.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
                    if p.path.segments.len() > 1 && first.starts_with(|c: char| c.is_lowercase()) && self.cfg.known.contains(&last) && !self.cfg.calls.contains_key(&s) {
                        let id = format_ident!("{}", last);
                        p.path = parse_quote!(#id);
                    }
                    for a in self.cfg.extra(&s, &self.fid) { c.args.push(a); }
                    if let Some(n) = self.cfg.calls.get(&s) {
                        let np: Path = parse_str(n).unwrap();
                        p.path = np;
                        self.notes.push(format!("{}: call `{}` is an assumed library contract", self.fid, s));
                    }
                }
                None
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_)) && self.opts.contains("boolassign") => {
                let (l, r) = (&b.left, &b.right);
                let f = format_ident!("{}", if matches!(b.op, BinOp::BitAndAssign(_)) { "vx_and" } else { "vx_or" });
                self.notes.push(format!("{}: `&=`/`|=` on bool written as an assignment of the result", self.fid));
                Some(parse_quote!(#l = #f(#l, #r)))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && !matches!(&*u.expr, Expr::Lit(_)) => {
                let inner = &u.expr;
                let n: Expr = parse_quote!(vx_neg(#inner));
                self.notes.push(format!("{}: unary minus written as a call of its contract", self.fid));
                Some(n)
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && matches!(&*b.right, Expr::Reference(_)) => {
                let (l, r) = (&b.left, &b.right);
                let n: Expr = parse_quote!(vx_concat(#l, #r));
                self.notes.push(format!("{}: string `a + &b` is an assumed library contract", self.fid));
                Some(n)
            }
            Expr::Cast(c) => {
                let t = type_string(&c.ty);
                if let Some(n) = self.cfg.casts.get(&t) {
                    let f = Ident::new(n, Span::call_site());
                    let inner = &c.expr;
                    let n: Expr = parse_quote!(#f(#inner));
                    self.notes.push(format!("{}: cast `as {}` is an assumed conversion", self.fid, t));
                    Some(n)
                } else { None }
            }
            _ => None,
        };
        if let Some(n) = new { *e = n; }
    }
}

fn format_literal(m: &Macro) -> Option<String> {
    let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    match args.first()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        _ => None,
    }
}

/// The non-literal arguments of a formatting macro as a tuple of references. A reference to each
/// argument keeps it evaluated and borrowed exactly as the macro does.
fn format_args_exprs(m: &Macro, rw: &mut Rewriter) -> TokenStream {
    match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
        Ok(args) => {
            let mut rest: Vec<Expr> = args.into_iter().skip(1).collect();
            for r in rest.iter_mut() { rw.visit_expr_mut(r); }
            let n = rest.len();
            let _ = n;
            quote!((#(&#rest,)*))
        }
        Err(_) => quote!(()),
    }
}

/// Inserts the marker statements used for contracts and hints.
struct Marker { fid: String, loops: usize }
impl VisitMut for Marker {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let k = self.loops;
        let m = format!("{}#{}", self.fid, k);
        match e {
            Expr::While(w) => {
                self.loops += 1;
                visit_mut::visit_expr_mut(self, &mut w.cond);
                self.visit_block_mut(&mut w.body);
                let b = format!("{}#begin", m);
                let en = format!("{}#end", m);
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#m);));
                w.body.stmts.insert(1, parse_quote!(vx_hint!(#b);));
                close_tail(&mut w.body); w.body.stmts.push(parse_quote!(vx_hint!(#en);));
            }
            Expr::Loop(w) => {
                self.loops += 1;
                self.visit_block_mut(&mut w.body);
                let b = format!("{}#begin", m);
                let en = format!("{}#end", m);
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#m);));
                w.body.stmts.insert(1, parse_quote!(vx_hint!(#b);));
                close_tail(&mut w.body); w.body.stmts.push(parse_quote!(vx_hint!(#en);));
            }
            Expr::ForLoop(f) => {
                self.loops += 1;
                visit_mut::visit_expr_mut(self, &mut f.expr);
                self.visit_block_mut(&mut f.body);
                let b = format!("{}#begin", m);
                let en = format!("{}#end", m);
                f.body.stmts.insert(0, parse_quote!(vx_loop!(#m);));
                f.body.stmts.insert(1, parse_quote!(vx_hint!(#b);));
                close_tail(&mut f.body); f.body.stmts.push(parse_quote!(vx_hint!(#en);));
                let it = format_ident!("vxit{}", k);
                let ex = &f.expr;
                f.expr = parse_quote!(vx_it!(#it, #ex));
            }
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            let before = self.loops;
            self.visit_stmt_mut(&mut s);
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _) | Stmt::Expr(Expr::ForLoop(_), _));
            if is_loop {
                let p = format!("{}#{}#before", self.fid, before);
                let a = format!("{}#{}#after", self.fid, before);
                out.push(parse_quote!(vx_hint!(#p);));
                // a trailing `loop` may be the value of the block
                let trailing_value = matches!(&s, Stmt::Expr(Expr::Loop(_), None));
                out.push(s);
                if !trailing_value { out.push(parse_quote!(vx_hint!(#a);)); }
            } else {
                let mut after: Option<Stmt> = None;
                if let Stmt::Local(l) = &s {
                    let mut names = Vec::new();
                    pat_idents(&l.pat, &mut names);
                    if let Some(n) = names.first() {
                        let h = format!("{}#let#{}", self.fid, n);
                        after = Some(parse_quote!(vx_hint!(#h);));
                    }
                }
                if let Stmt::Expr(Expr::MethodCall(mc), Some(_)) = &s {
                    if let Expr::Path(rp) = &*mc.receiver {
                        if let Some(r) = rp.path.get_ident() {
                            let h = format!("{}#call#{}.{}", self.fid, r, mc.method);
                            after = Some(parse_quote!(vx_hint!(#h);));
                        }
                    }
                }
                out.push(s);
                if let Some(a) = after { out.push(a); }
            }
        }
        b.stmts = out;
    }
}

/// `;` after the unit-valued tail expression of a loop body
fn close_tail(b: &mut Block) {
    if let Some(Stmt::Expr(e, semi @ None)) = b.stmts.last_mut() {
        if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Unsafe(_)) { *semi = Some(Default::default()); }
    }
}

fn pat_idents(p: &Pat, out: &mut Vec<String>) {
    struct V<'b>(&'b mut Vec<String>);
    impl<'a, 'b> Visit<'a> for V<'b> {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            let s = i.ident.to_string();
            if s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) { self.0.push(s); }
            visit::visit_pat_ident(self, i);
        }
    }
    V(out).visit_pat(p);
}

struct Facts { loops: Vec<String>, locals: Vec<String>, calls: BTreeSet<String> }
impl<'a> Visit<'a> for Facts {
    fn visit_expr_while(&mut self, i: &'a ExprWhile) { self.loops.push(if matches!(&*i.cond, Expr::Let(_)) {"while-let".into()} else {"while".into()}); visit::visit_expr_while(self, i); }
    fn visit_expr_loop(&mut self, i: &'a ExprLoop) { self.loops.push("loop".into()); visit::visit_expr_loop(self, i); }
    fn visit_expr_for_loop(&mut self, i: &'a ExprForLoop) { self.loops.push("for".into()); visit::visit_expr_for_loop(self, i); }
    fn visit_expr_closure(&mut self, i: &'a ExprClosure) { visit::visit_expr_closure(self, i); }
    fn visit_pat(&mut self, p: &'a Pat) { if let Pat::Ident(i) = p { let s = i.ident.to_string(); if s.chars().next().map(|c| c.is_lowercase() || c=='_').unwrap_or(false) { self.locals.push(s); } } visit::visit_pat(self, p); }
    fn visit_expr_call(&mut self, i: &'a ExprCall) { if let Expr::Path(p) = &*i.func { self.calls.insert(path_string(&p.path)); } visit::visit_expr_call(self, i); }
    fn visit_expr_method_call(&mut self, i: &'a ExprMethodCall) { self.calls.insert(format!(".{}", i.method)); visit::visit_expr_method_call(self, i); }
    fn visit_macro(&mut self, m: &'a Macro) {
        if path_string(&m.path) == "vx_it" {
            if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                for a in args.iter().skip(1) { self.visit_expr(a); }
            }
        }
    }
}

/// Collects literals of a file for the input generators.
#[derive(Default)]
struct Lits { strs: BTreeSet<String>, ints: BTreeSet<String>, chars: BTreeSet<String>, floats: BTreeSet<String> }
impl Lits {
    fn tokens(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                proc_macro2::TokenTree::Literal(l) => {
                    if let Ok(l) = parse2::<Lit>(l.to_token_stream()) { self.lit(&l) }
                }
                _ => {}
            }
        }
    }
    fn lit(&mut self, l: &Lit) {
        match l {
            Lit::Str(s) => { self.strs.insert(s.value()); }
            Lit::ByteStr(s) => { self.strs.insert(String::from_utf8_lossy(&s.value()).to_string()); }
            Lit::Int(i) => { self.ints.insert(i.base10_digits().to_string()); }
            Lit::Float(f) => { self.floats.insert(f.base10_digits().to_string()); }
            Lit::Char(c) => { self.chars.insert(c.value().to_string()); }
            Lit::Byte(c) => { self.chars.insert((c.value() as char).to_string()); }
            _ => {}
        }
    }
}

fn fn_id(owner: &str, f: &Ident) -> String {
    if owner.is_empty() { f.to_string() } else { format!("{}::{}", owner, f) }
}

struct Out<'a> {
    cfg: &'a Cfg,
    input: &'a J,
    items: Vec<J>,
    fns: Vec<J>,
    notes: Vec<String>,
    dropped: Vec<String>,
    errors: Vec<String>,
    derived: Vec<String>,
    inline: HashMap<String, ItemFn>,
    inline_m: HashMap<String, ImplItemFn>,
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    format!("{:016x}", h)
}

impl<'a> Out<'a> {
    fn fcfg(&self, id: &str) -> Option<&'a J> { self.input["fns"].get(id) }

    /// functions written out of this one: the bodies of its threads, the step of its iterator
    fn lift(&mut self, id: &str, sig: &mut Signature, block: &mut Block) -> Vec<(String, ImplItemFn)> {
        let mut res = Vec::new();
        let none = Map::new();
        if self.fcfg(id).and_then(|c| c["opts"].as_array()).map(|a| a.iter().any(|x| x == "inlineclosure")).unwrap_or(false) {
            let mut notes = vec![];
            inline_closures(block, id, &mut notes);
            self.notes.extend(notes);
        }
        let mut t = Threads { id: id.to_string(), name: sig.ident.to_string(), specs: self.input["threads"].as_object().unwrap_or(&none), k: 0, out: vec![], notes: vec![] };
        t.visit_block_mut(block);
        self.notes.extend(t.notes);
        res.extend(t.out);
        if let Some(st) = self.input["steps"].get(id).and_then(|x| x.as_str()) {
            let name = format_ident!("{}_step", sig.ident);
            let mut f: ImplItemFn = parse_str(&format!("fn {}{} {{}}", name, st)).expect("step signature");
            let params: Vec<(Ident, Type)> = f.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => Some((i.ident.clone(), (*t.ty).clone())), _ => None }, _ => None }).collect();
            let ret: Type = match &f.sig.output { ReturnType::Type(_, t) => (**t).clone(), _ => parse_quote!(()) };
            let state = format_ident!("VxState_{}", sig.ident);
            let mut v = Steps { params, ret, name, state: state.clone(), body: None };
            v.visit_block_mut(block);
            if let Some(mut body) = v.body {
                let names: BTreeSet<String> = v.params.iter().map(|p| p.0.to_string()).collect();
                let mut assigned = Through(names);
                assigned.visit_expr_mut(&mut body);
                let _ = (&v.ret, &v.name);
                f.sig.generics = sig.generics.clone();
                f.block = match body { Expr::Block(b) => b.block, x => parse_quote!({ #x }) };
                let g: Vec<Ident> = sig.generics.type_params().map(|p| p.ident.clone()).collect();
                sig.output = parse_quote!(-> #state<#(#g),*>);
                self.notes.push(format!("{}: the iterator is the state its closure captures, the closure a function of that state", id));
                res.push((format!("{}_step", id), f));
            } else { self.errors.push(format!("{}: no iterator from a closure", id)); }
        }
        res
    }
    fn process_fn(&mut self, id: &str, src: &str, sig: &mut Signature, block: &mut Block, vis: &mut Visibility, in_trait_impl: bool) {
        let original = quote!(#sig #block).to_string();
        let mut inl = Inliner { fns: &self.inline, methods: &self.inline_m, notes: Vec::new(), fid: id.to_string(), depth: 0 };
        inl.visit_block_mut(block);
        let n = inl.notes.clone();
        self.notes.extend(n.iter().cloned());
        let inlined = n.len();
        let opts: BTreeSet<String> = self.fcfg(id).and_then(|c| c["opts"].as_array()).map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        let mut rw = Rewriter { cfg: self.cfg, opts, notes: Vec::new(), fid: id.to_string(), counter: 0, prints: 0, receivers: receivers_of(block) };
        for i in sig.inputs.iter_mut() { rw.visit_fn_arg_mut(i); }
        rw.visit_generics_mut(&mut sig.generics);
        if let ReturnType::Type(_, t) = &mut sig.output { if !matches!(path_of(t).as_str(), "std::fmt::Result" | "fmt::Result") { rw.visit_type_mut(t); } }
        if rw.opts.contains("thunk") {
            for i in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = i {
                    let ts = type_string(&t.ty);
                    if ts == "Option<implFnMut()>" || ts == "Option<implFnOnce()>" { t.ty = parse_quote!(Option<&mut VxThunk>); }
                    else if ts == "implFnMut()" || ts == "implFnOnce()" { t.ty = parse_quote!(&mut VxThunk); }
                }
            }
            rw.note("the closure it is given is an argument that records when it is called");
        }
        for c in &self.cfg.ctx {
            if rw.opts.contains(&c.opt) {
                let (n, t) = (format_ident!("{}", c.name), format_ident!("{}", c.ty));
                sig.inputs.push(parse_quote!(#n: &mut #t)); rw.notes.push(format!("{}: the {} is an argument", id, c.opt));
            }
        }
        let lits: Vec<String> = { let mut l = Lits::default(); l.tokens(block.to_token_stream()); l.strs.into_iter().collect() };
        let external = self.fcfg(id).map(|c| c["external"].as_bool().unwrap_or(false)).unwrap_or(false);
        if external {
            *block = parse_quote!({ unimplemented!() });
        } else {
            rw.visit_block_mut(block);
        }
        let mut notes = rw.notes; notes.sort(); notes.dedup();
        self.notes.extend(notes);
        let mut facts = Facts { loops: vec![], locals: vec![], calls: BTreeSet::new() };
        facts.visit_block(block);
        let mut mk = Marker { fid: id.to_string(), loops: 0 };
        mk.visit_block_mut(block);
        // exit hint around the tail expression
        let want_exit = self.fcfg(id).map(|c| c["exit"].as_bool().unwrap_or(false)).unwrap_or(false);
        if want_exit {
            if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
                if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                    let h = format!("{}#exit", id);
                    block.stmts.push(parse_quote!(let vx_r = #e;));
                    block.stmts.push(parse_quote!(vx_hint!(#h);));
                    block.stmts.push(Stmt::Expr(parse_quote!(vx_r), None));
                }
            } else {
                let h = format!("{}#exit", id);
                block.stmts.push(parse_quote!(vx_hint!(#h);));
            }
        }
        let entry = format!("{}#entry", id);
        let s = id.to_string();
        block.stmts.insert(0, parse_quote!(vx_sig!(#s);));
        block.stmts.insert(1, parse_quote!(vx_hint!(#entry);));
        if !lits.is_empty() && !external { block.stmts.insert(2, parse_quote!(vx_lits!(#s, #(#lits),*);)); }
        if let ReturnType::Type(_, t) = &mut sig.output {
            let ts = type_string(t);
            if sig.ident == "fmt" && (ts == "Result" || ts == "std::fmt::Result" || ts == "fmt::Result") { **t = parse_quote!(core::result::Result<(), VxFmtError>); }
            let tt = t.clone();
            *t = parse_quote!(vx_ret!(#tt));
        }
        if !in_trait_impl { *vis = parse_quote!(pub); }
        self.fns.push(json!({"id": id, "source": src, "loops": facts.loops, "locals": facts.locals,
            "calls": facts.calls.iter().collect::<Vec<_>>(), "lits": lits, "hash": fnv(&original), "external": external, "inlined": inlined}));
    }
}

/// renames library types in field declarations
struct Renamer<'a>(&'a Cfg);
impl<'a> VisitMut for Renamer<'a> {
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        if let Some(n) = self.0.types.get(&path_string(&t.path)) {
            let mut np: Path = parse_str(n).unwrap();
            np.segments.last_mut().unwrap().arguments = t.path.segments.last().unwrap().arguments.clone();
            t.path = np;
        }
        visit_mut::visit_type_path_mut(self, t);
    }
    fn visit_trait_bound_mut(&mut self, t: &mut TraitBound) {
        if let Some(n) = self.0.types.get(&path_string(&t.path)) {
            let mut np: Path = parse_str(n).unwrap();
            np.segments.last_mut().unwrap().arguments = t.path.segments.last().unwrap().arguments.clone();
            t.path = np;
        }
        visit_mut::visit_trait_bound_mut(self, t);
    }
}

/// `&T` of a constant's type is `&'static T`, byte strings are arrays of their bytes
struct Consts;
impl VisitMut for Consts {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() { t.lifetime = Some(Lifetime::new("'static", Span::call_site())); }
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = byte_array(e) { *e = n; return; }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `super::X`, `crate::X` => `X`: the unit is one flat module
fn flat_paths(mut f: File) -> File {
    struct Flat;
    impl VisitMut for Flat {
        fn visit_path_mut(&mut self, p: &mut Path) {
            while p.segments.len() > 1 && p.segments[0].arguments.is_none() && (p.segments[0].ident == "super" || p.segments[0].ident == "crate") {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(1).cloned().collect();
            }
            visit_mut::visit_path_mut(self, p);
        }
    }
    Flat.visit_file_mut(&mut f);
    f
}
/// `P if a => x, P if b => y, rest` => `P => if a { x } else if b { y } else { match P { rest } }, rest` for a pattern P that is a constructor of names
struct PatP { ctor: String, vars: Vec<Ident> }
impl PatP {
    fn of(p: &Pat) -> Option<PatP> {
        match p {
            Pat::TupleStruct(t) => Some(PatP { ctor: t.path.segments.last()?.ident.to_string(), vars: t.elems.iter().map(|x| match x { Pat::Ident(i) => Some(i.ident.clone()), _ => None }).collect::<Option<Vec<_>>>()? }),
            _ => None,
        }
    }
}
fn unguard(arms: &[Arm]) -> Option<Vec<Arm>> {
    let i = arms.iter().position(|a| a.guard.is_some())?;
    let pat = arms[i].pat.clone();
    let names = |p: &Pat| matches!(p, Pat::TupleStruct(t) if t.elems.iter().all(|x| matches!(x, Pat::Ident(n) if n.by_ref.is_none() && n.subpat.is_none() && n.mutability.is_none())));
    if !names(&pat) { return None; }
    let same = |a: &Arm| a.guard.is_some() && a.pat.to_token_stream().to_string() == pat.to_token_stream().to_string();
    let n = arms[i..].iter().take_while(|a| same(a)).count();
    let rest: Vec<Arm> = match unguard(&arms[i + n..]) { Some(r) => r, None if arms[i + n..].iter().any(|a| a.guard.is_some()) => return None, None => arms[i + n..].to_vec() };
    if rest.is_empty() { return None; }
    // the arms that are left for a value of this constructor
    let PatP { ctor, vars } = PatP::of(&pat)?;
    let mut body: Option<Expr> = None;
    for a in &rest {
        match &a.pat {
            Pat::TupleStruct(t) if names(&a.pat) && a.guard.is_none() => {
                let p = PatP::of(&a.pat)?;
                if p.ctor == ctor && t.elems.len() == vars.len() {
                    let (new, b) = (&p.vars, &a.body);
                    body = Some(parse_quote!({ let (#(#new,)*) = (#(#vars,)*); #b }));
                    break;
                }
            }
            // a variant with another name takes none of them
            Pat::TupleStruct(t) if t.path.segments.last().map(|x| x.ident.to_string()) != Some(ctor.clone()) => {}
            Pat::TupleStruct(t) if a.guard.is_none() && t.elems.len() == vars.len() && t.elems.iter().all(|x| matches!(x, Pat::Wild(_))) => {
                let b = &a.body;
                body = Some(parse_quote!({ #b }));
                break;
            }
            Pat::Ident(i) if a.guard.is_none() && i.subpat.is_none() && i.by_ref.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase()) => {
                let (n, b) = (&i.ident, &a.body);
                body = Some(parse_quote!({ let #n = #pat; #b }));
                break;
            }
            Pat::Wild(_) if a.guard.is_none() => { let b = &a.body; body = Some(parse_quote!({ #b })); break; }
            // an arm that may take some of these values
            _ => { body = Some(parse_quote!({ match #pat { #(#rest)* } })); break; }
        }
    }
    let mut body = body?;
    for a in arms[i..i + n].iter().rev() {
        let (g, b) = (&a.guard.as_ref().unwrap().1, &a.body);
        body = parse_quote!(if #g { #b } else #body);
    }
    let mut out = arms[..i].to_vec();
    out.push(parse_quote!(#pat => { #body }));
    out.extend(rest);
    Some(out)
}
fn byte_array(e: &Expr) -> Option<Expr> {
    if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
        let v = b.value();
        Some(parse_quote!(&[#(#v),*]))
    } else { None }
}

/// what #[derive(Default)] gives a field
fn default_of(t: &Type) -> TokenStream {
    let n = self_name(t);
    match n.as_str() {
        "Vec" => quote!(Vec::new()), "String" => quote!(String::new()), "HashMap" => quote!(HashMap::new()), "Option" => quote!(None), "bool" => quote!(false),
        "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" => quote!(0),
        _ => { let i = format_ident!("{}", if n.is_empty() { "Unknown" } else { &n }); quote!(#i::default()) }
    }
}

impl<'a> Out<'a> {
    /// #[derive(Default)] written out
    fn derived_default(&mut self, id: &str, path: &str, mut block: Block, generics: &Generics) {
        let fid = format!("{}::default", id);
        let mut f: ImplItemFn = parse_quote!(pub fn default() -> Self {});
        let mut vis: Visibility = parse_quote!(pub);
        self.process_fn(&fid, path, &mut f.sig, &mut block, &mut vis, false);
        f.block = block;
        let t = format_ident!("{}", id);
        let (a, b, c) = generics.split_for_impl();
        self.notes.push(format!("{}: derived Default of {} written out", path, id));
        self.items.push(json!({"kind":"impl","id":format!("impl {}", id),"source":path,"code":quote!(impl #a #t #b #c { #f }).to_string()}));
    }
}

/// the identifiers of a text
fn idents(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            _ => {}
        }
    }
}
impl<'a> Out<'a> {
    /// helpers without contract that were inlined at every call are not looked at on their own: what they rely on holds where they are called
    fn drop_inlined(&mut self, input: &J) {
        let mut names: Vec<(String, String)> = self.inline.keys().map(|n| (n.clone(), n.clone())).collect();
        for f in &self.fns {
            let id = f["id"].as_str().unwrap().to_string();
            if let Some((_, n)) = id.rsplit_once("::") { if !id.contains(" for ") && self.inline_m.contains_key(n) { names.push((id.clone(), n.to_string())); } }
        }
        let inlined_somewhere = |n: &str, notes: &Vec<String>| notes.iter().any(|x| x.contains("has no contract and was inlined") && (x.contains(&format!("`{}`", n)) || x.contains(&format!("::{}`", n))));
        names.sort();
        for (id, n) in names {
            if input["fns"].get(&id).is_some() || !inlined_somewhere(&n, &self.notes) { continue; }
            let mut uses = 0;
            for it in &self.items {
                let mut v = Vec::new();
                if let Ok(ts) = it["code"].as_str().unwrap().parse::<TokenStream>() { idents(ts, &mut v); }
                uses += v.iter().filter(|x| **x == n).count();
            }
            if uses != 1 { continue; }
            let mut gone = false;
            self.items.retain(|it| { let g = it["kind"] == "fn" && it["id"] == id.as_str(); gone |= g; !g });
            for it in self.items.iter_mut().filter(|it| it["kind"] == "impl") {
                if let Ok(mut im) = parse_str::<ItemImpl>(it["code"].as_str().unwrap()) {
                    let k = im.items.len();
                    im.items.retain(|x| !matches!(x, ImplItem::Fn(f) if f.sig.ident == n));
                    if im.items.len() != k { gone = true; it["code"] = json!(im.to_token_stream().to_string()); }
                }
            }
            if gone { self.fns.retain(|f| f["id"] != id.as_str()); self.notes.push(format!("helper `{}` was inlined at every call and is not verified on its own", id)); }
        }
    }
}

/// Inlines calls of functions that have no contract (small helpers), when their body has no early exit.
struct Inliner<'a> { fns: &'a HashMap<String, ItemFn>, methods: &'a HashMap<String, ImplItemFn>, notes: Vec<String>, fid: String, depth: usize }
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.depth > 4 { return; }
        // `helper(args)?` where helper's value is Ok(..)/? free of other returns is handled by the generic rule below
        let repl: Option<(Expr, String)> = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let full = path_string(&p.path);
                    let last = full.rsplit("::").next().unwrap().to_string();
                    let key = if full.starts_with("Self::") { last.clone() } else { full.clone() };
                    if let Some(f) = self.fns.get(&key) {
                        inline_body(&f.sig, &f.block, None, &c.args).map(|x| (x, full))
                    } else if let (true, Some(f)) = (full.starts_with("Self::"), self.methods.get(&last)) {
                        inline_body(&f.sig, &f.block, None, &c.args).map(|x| (x, full))
                    } else { None }
                } else { None }
            }
            Expr::MethodCall(m) => {
                if let Some(f) = self.methods.get(&m.method.to_string()) {
                    if let Expr::Path(p) = &*m.receiver {
                        if p.path.is_ident("self") && f.sig.receiver().is_some() {
                            inline_body(&f.sig, &f.block, Some(()), &m.args).map(|x| (x, m.method.to_string()))
                        } else { None }
                    } else { None }
                } else { None }
            }
            _ => None,
        };
        if let Some((mut n, name)) = repl {
            self.notes.push(format!("{}: helper `{}` has no contract and was inlined", self.fid, name));
            self.depth += 1;
            self.visit_expr_mut(&mut n);
            self.depth -= 1;
            *e = n;
        }
    }
}

fn inline_body(sig: &Signature, block: &Block, recv: Option<()>, args: &punctuated::Punctuated<Expr, Token![,]>) -> Option<Expr> {
    let be: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: block.clone() });
    if has_return(&be) || !sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) { return None; }
    let mut lets: Vec<Stmt> = Vec::new();
    let mut k = 0usize;
    for i in sig.inputs.iter() {
        match i {
            FnArg::Receiver(_) => { recv?; }
            FnArg::Typed(t) => {
                let a = args.get(k)?;
                k += 1;
                let pat = &t.pat;
                let ty = &t.ty;
                // a reborrow keeps `&mut` arguments usable afterwards
                if let Type::Reference(r) = &**ty {
                    if r.mutability.is_some() {
                        if let Expr::Path(_) = a { lets.push(parse_quote!(let #pat = &mut *#a;)); continue; }
                    }
                    // the argument is taken as the type the helper gives it
                    if r.mutability.is_none() && !matches!(a, Expr::Closure(_)) && !type_string(ty).contains("impl") && !type_string(ty).contains('\'') && !type_string(ty).contains("dyn") { lets.push(parse_quote!(let #pat: #ty = #a;)); }
                    else { lets.push(parse_quote!(let #pat = #a;)); }
                    continue;
                }
                if type_string(ty).contains("impl") || type_string(ty).contains('\'') { lets.push(parse_quote!(let #pat = #a;)); }
                else { lets.push(parse_quote!(let #pat: #ty = #a;)); }
            }
        }
    }
    if k != args.len() { return None; }
    let stmts = &block.stmts;
    Some(parse_quote!({ #(#lets)* #(#stmts)* }))
}

fn derive_string(attrs: &[Attribute]) -> String {
    attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.meta.to_token_stream().to_string().replace(' ', "")).collect::<Vec<_>>().join(" ")
}

fn strip(attrs: &mut Vec<Attribute>) { attrs.clear(); }

fn main() {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let input: J = serde_json::from_str(&s).expect("input json");
    let strmap = |k: &str| -> HashMap<String, String> {
        input[k].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()).unwrap_or_default()
    };
    let with_opt = |o: &str| -> BTreeSet<String> {
        input["fns"].as_object().map(|m| m.iter().filter(|(_, v)| v["opts"].as_array().map(|a| a.iter().any(|x| x.as_str() == Some(o))).unwrap_or(false)).map(|(k, _)| k.clone()).collect()).unwrap_or_default()
    };
    let cfg = Cfg {
        methods: strmap("methods"), calls: strmap("calls"), casts: strmap("casts"),
        reserved: RESERVED.iter().map(|s| s.to_string()).collect(),
        types: strmap("types"), arrays: BTreeSet::new(), maps: BTreeSet::new(), traits: strmap("traits"),
        ctx: input["args"].as_array().cloned().unwrap_or_default().iter().map(|a| {
            let opt = a["opt"].as_str().unwrap().to_string();
            Ctx { fns: with_opt(&opt), name: a["name"].as_str().unwrap().into(), ty: a["type"].as_str().unwrap().into(),
                pass: a["pass"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(), opt }
        }).collect(),
        thunks: with_opt("thunk"),
        known: input["fns"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default(),
        fn_values: input["fn_values"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
    };
    let derives = strmap("derives");
    let repo = input["repo"].as_str().unwrap_or("/repo");
    let mut cfg = cfg;
    let mut others: BTreeSet<String> = BTreeSet::new();
    for src in input["sources"].as_array().cloned().unwrap_or_default() {
        let text = std::fs::read_to_string(format!("{}/{}", repo, src["path"].as_str().unwrap())).unwrap_or_default();
        if let Ok(f) = parse_file(&text) {
            for it in f.items {
                match it {
                    Item::Const(c) => { if matches!(&*c.ty, Type::Array(_)) { cfg.arrays.insert(c.ident.to_string()); } }
                    Item::Struct(st) => for f in st.fields.iter() {
                        let Some(n) = &f.ident else { continue };
                        let map = matches!(&f.ty, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "HashMap").unwrap_or(false));
                        if map { cfg.maps.insert(n.to_string()); } else { others.insert(n.to_string()); }
                    },
                    _ => {}
                }
            }
        }
    }
    cfg.maps.retain(|n| !others.contains(n));
    let cfg = cfg;
    let mut out = Out { cfg: &cfg, input: &input, items: vec![], fns: vec![], notes: vec![], dropped: vec![], errors: vec![], derived: vec![], inline: HashMap::new(), inline_m: HashMap::new() };
    let mut lits = Lits::default();
    let no_inline: BTreeSet<String> = input["no_inline"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    for src in input["sources"].as_array().cloned().unwrap_or_default() {
        let path = src["path"].as_str().unwrap();
        let text = match std::fs::read_to_string(format!("{}/{}", repo, path)) {
            Ok(t) => t,
            Err(e) => { out.errors.push(format!("{}: {}", path, e)); continue; }
        };
        let file = match parse_file(&text).map(flat_paths) {
            Ok(mut f) => { StripTest.visit_file_mut(&mut f); f }
            Err(e) => { out.errors.push(format!("{}: {}", path, e)); continue; }
        };
        let drops: BTreeSet<String> = src["drop"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        let only: Option<BTreeSet<String>> = src["only"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect());
        let keep = |id: &str| -> bool { !drops.contains(id) && only.as_ref().map(|o| o.contains(id)).unwrap_or(true) };
        let mut items = file.items;
        LOCAL_MACROS.with(|l| {
            let mut l = l.borrow_mut();
            l.clear();
            for it in &items { if let Item::Macro(m) = it { if let (true, Some(i)) = (m.mac.path.is_ident("macro_rules"), &m.ident) { l.insert(i.to_string(), m.mac.tokens.clone()); } } }
        });
        // expand local macro_rules used to declare items, when asked to
        if let Some(ms) = src["expand"].as_object() {
            items = expand_macros(items, ms, &mut out.notes, path, &mut out.errors);
        }
        // first pass: functions without contract are candidates for inlining
        for it in &items {
            match it {
                Item::Fn(f) if !has_test_attr(&f.attrs) => {
                    let id = f.sig.ident.to_string();
                    if input["fns"].get(&id).is_none() && !drops.contains(&id) && !no_inline.contains(&id) {
                        out.inline.insert(id, f.clone());
                    }
                }
                Item::Impl(im) if !has_test_attr(&im.attrs) && im.trait_.is_none() => {
                    let ty = self_name(&im.self_ty);
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            let id = fn_id(&ty, &f.sig.ident);
                            if input["fns"].get(&id).is_none() && !drops.contains(&id) && !no_inline.contains(&id) && !has_test_attr(&f.attrs) {
                                out.inline_m.insert(f.sig.ident.to_string(), f.clone());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for it in items {
            match it {
                Item::Fn(mut f) => {
                    if has_test_attr(&f.attrs) { continue; }
                    lits.tokens(f.block.to_token_stream());
                    let id = f.sig.ident.to_string();
                    if !keep(&id) { out.dropped.push(format!("{} fn {}", path, id)); continue; }
                    strip(&mut f.attrs);
                    let known = input["fns"].get(&id).is_some();
                    let mut vis = f.vis.clone();
                    for (lid, mut l) in out.lift(&id, &mut f.sig, &mut f.block) {
                        let mut v = f.vis.clone();
                        out.process_fn(&lid, path, &mut l.sig, &mut l.block, &mut v, false);
                        l.vis = v;
                        out.items.push(json!({"kind":"fn","id":lid,"known":true,"source":path,"code":l.to_token_stream().to_string()}));
                    }
                    out.process_fn(&id, path, &mut f.sig, &mut f.block, &mut vis, false);
                    f.vis = vis;
                    out.items.push(json!({"kind":"fn","id":id,"known":known,"source":path,"code":f.to_token_stream().to_string()}));
                }
                Item::Struct(mut st) => {
                    let id = st.ident.to_string();
                    if has_test_attr(&st.attrs) || !keep(&id) { out.dropped.push(format!("{} struct {}", path, id)); continue; }
                    out.derived.push(format!("{} {}", id, derive_string(&st.attrs)));
                    let has_default = derive_string(&st.attrs).contains("Default");
                    strip(&mut st.attrs);
                    Renamer(&cfg).visit_fields_mut(&mut st.fields);
                    st.vis = parse_quote!(pub);
                    for f in st.fields.iter_mut() { f.vis = parse_quote!(pub); strip(&mut f.attrs); }
                    let d = derives.get(&id).cloned().unwrap_or_default();
                    out.items.push(json!({"kind":"type","id":id,"derive":d,"source":path,"code":st.to_token_stream().to_string()}));
                    if has_default && input["fns"].get(format!("{}::default", id)).is_some() {
                        let vals: Vec<TokenStream> = st.fields.iter().map(|f| { let n = &f.ident; let v = default_of(&f.ty); quote!(#n: #v) }).collect();
                        let t = &st.ident;
                        out.derived_default(&id, path, parse_quote!({ #t { #(#vals),* } }), &st.generics);
                    }
                }
                Item::Enum(mut en) => {
                    let id = en.ident.to_string();
                    if has_test_attr(&en.attrs) || !keep(&id) { out.dropped.push(format!("{} enum {}", path, id)); continue; }
                    out.derived.push(format!("{} {}", id, derive_string(&en.attrs)));
                    let has_default = derive_string(&en.attrs).contains("Default");
                    let first = en.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).map(|v| v.ident.clone());
                    strip(&mut en.attrs);
                    for v in en.variants.iter_mut() { Renamer(&cfg).visit_fields_mut(&mut v.fields); }
                    en.vis = parse_quote!(pub);
                    for v in en.variants.iter_mut() { strip(&mut v.attrs); for f in v.fields.iter_mut() { strip(&mut f.attrs); } }
                    let vs: punctuated::Punctuated<Variant, Token![,]> = en.variants.iter().filter(|_| true).cloned().collect();
                    en.variants = vs;
                    let d = derives.get(&id).cloned().unwrap_or_default();
                    out.items.push(json!({"kind":"type","id":id,"derive":d,"source":path,"code":en.to_token_stream().to_string()}));
                    if let (true, Some(v), true) = (has_default, first, input["fns"].get(format!("{}::default", id)).is_some()) {
                        let t = &en.ident;
                        out.derived_default(&id, path, parse_quote!({ #t::#v }), &en.generics);
                    }
                }
                Item::Const(mut c) => {
                    lits.tokens(c.to_token_stream());
                    let id = c.ident.to_string();
                    if !keep(&id) { out.dropped.push(format!("{} const {}", path, id)); continue; }
                    strip(&mut c.attrs);
                    c.vis = parse_quote!(pub);
                    Consts.visit_type_mut(&mut c.ty);
                    Consts.visit_expr_mut(&mut c.expr);
                    out.items.push(json!({"kind":"const","id":id,"source":path,"code":c.to_token_stream().to_string()}));
                }
                Item::Impl(mut im) => {
                    if has_test_attr(&im.attrs) { continue; }
                    lits.tokens(im.to_token_stream());
                    let ty = self_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| {
                        let seg = p.segments.last().unwrap();
                        seg.to_token_stream().to_string().replace(' ', "")
                    });
                    let id = match &tr { Some(t) => format!("impl {} for {}", t, ty), None => format!("impl {}", ty) };
                    if tr.is_some() && !keep(&id) { out.dropped.push(format!("{} {}", path, id)); continue; }
                    let derive_skip = tr.is_some() && !input["trait_impls"].as_array().map(|a| a.iter().any(|x| x.as_str() == Some(&id))).unwrap_or(false);
                    if derive_skip { out.dropped.push(format!("{} {}", path, id)); continue; }
                    strip(&mut im.attrs);
                    // a library trait with its own specification here, or written as inherent functions
                    let mut renamed: Option<String> = None;
                    if let Some((_, p, _)) = &mut im.trait_ {
                        let last = p.segments.last().unwrap().clone();
                        // the formatting traits are stand-ins of the same name
                        if last.ident == "Display" { *p = Path { leading_colon: None, segments: punctuated::Punctuated::from_iter([last.clone()]) }; }
                        if let Some(n) = cfg.traits.get(&last.ident.to_string()) {
                            let mut seg = last.clone();
                            seg.ident = format_ident!("{}", if n.is_empty() { "Inherent" } else { n.as_str() });
                            *p = Path { leading_colon: None, segments: punctuated::Punctuated::from_iter([seg]) };
                            renamed = Some(n.clone());
                            out.notes.push(format!("{}: {} written as {}", path, id, if n.is_empty() { "inherent functions".to_string() } else { format!("an implementation of {}", n) }));
                        }
                    }
                    let owner = match &tr { Some(t) => format!("{} for {}", t, ty), None => ty.clone() };
                    let mut items2 = Vec::new();
                    let is_trait = tr.is_some();
                    for ii in im.items.clone() {
                        match ii {
                            ImplItem::Fn(mut f) => {
                                if has_test_attr(&f.attrs) { continue; }
                                let fid = fn_id(&owner, &f.sig.ident);
                                if !keep(&fid) { out.dropped.push(format!("{} fn {}", path, fid)); continue; }
                                // fully inlined helpers stay too, unless they were inlined everywhere: harmless
                                strip(&mut f.attrs);
                                let mut vis = f.vis.clone();
                                if !is_trait {
                                    for (lid, mut l) in out.lift(&fid, &mut f.sig, &mut f.block) {
                                        let mut v = f.vis.clone();
                                        out.process_fn(&lid, path, &mut l.sig, &mut l.block, &mut v, false);
                                        l.vis = v;
                                        items2.push(ImplItem::Fn(l));
                                    }
                                }
                                out.process_fn(&fid, path, &mut f.sig, &mut f.block, &mut vis, is_trait);
                                f.vis = vis;
                                if let Some(n) = &renamed {
                                    if !n.is_empty() {
                                        let old = f.sig.ident.clone();
                                        let new = format_ident!("vx_{}", old);
                                        f.sig.ident = new.clone();
                                        struct R(Ident, Ident);
                                        impl VisitMut for R { fn visit_path_mut(&mut self, p: &mut Path) {
                                            if p.segments.len() == 2 && p.segments[0].ident == "Self" && p.segments[1].ident == self.0 { p.segments[1].ident = self.1.clone(); }
                                            visit_mut::visit_path_mut(self, p);
                                        } }
                                        R(old, new).visit_block_mut(&mut f.block);
                                    } else { f.vis = parse_quote!(pub); }
                                }
                                items2.push(ImplItem::Fn(f));
                            }
                            o => items2.push(o),
                        }
                    }
                    if items2.is_empty() && !im.items.is_empty() { continue; }
                    im.items = items2;
                    Renamer(&cfg).visit_generics_mut(&mut im.generics);
                    if renamed.as_deref() == Some("") { im.trait_ = None; }
                    out.items.push(json!({"kind":"impl","id":id,"source":path,"code":im.to_token_stream().to_string()}));
                }
                Item::Use(_) | Item::Mod(_) => {}
                Item::Macro(_) => { out.dropped.push(format!("{} macro", path)); }
                o => { out.dropped.push(format!("{} other item {}", path, o.to_token_stream().to_string().chars().take(40).collect::<String>())); }
            }
        }
    }
    out.drop_inlined(&input);
    let mut notes = out.notes; notes.sort(); notes.dedup();
    let res = json!({"items": out.items, "fns": out.fns, "notes": notes, "dropped": out.dropped, "errors": out.errors, "derived": out.derived,
        "literals": {"strs": lits.strs, "ints": lits.ints, "chars": lits.chars, "floats": lits.floats}});
    println!("{}", serde_json::to_string(&res).unwrap());
    let _: Map<String, J> = Map::new();
    let _: BTreeMap<u8, u8> = BTreeMap::new();
}

/// Expands `name! { Type, A => "x", ... }` item macros of the form used by http/mod.rs with the
/// file's own macro_rules body (one rule, `$(...)+` repetitions over ident/literal pairs).
fn expand_macros(items: Vec<Item>, names: &Map<String, J>, notes: &mut Vec<String>, path: &str, errors: &mut Vec<String>) -> Vec<Item> {
    let mut defs: HashMap<String, TokenStream> = HashMap::new();
    for it in &items {
        if let Item::Macro(m) = it {
            if m.mac.path.is_ident("macro_rules") {
                if let Some(i) = &m.ident { defs.insert(i.to_string(), m.mac.tokens.clone()); }
            }
        }
    }
    let mut out = Vec::new();
    for it in items {
        if let Item::Macro(m) = &it {
            let n = path_string(&m.mac.path);
            if names.contains_key(&n) {
                match defs.get(&n).ok_or("no definition".to_string()).and_then(|d| expand_one(d.clone(), m.mac.tokens.clone())) {
                    Ok(ts) => match parse2::<File>(ts) {
                        Ok(f) => { notes.push(format!("{}: macro {}! expanded with its own rule", path, n)); out.extend(f.items); continue; }
                        Err(e) => errors.push(format!("{}: expansion of {}!: {}", path, n, e)),
                    },
                    Err(e) => errors.push(format!("{}: expansion of {}!: {}", path, n, e)),
                }
            }
            if m.mac.path.is_ident("macro_rules") { continue; }
        }
        out.push(it);
    }
    out
}

thread_local! {
    /// the macro_rules of the file at hand
    static LOCAL_MACROS: std::cell::RefCell<HashMap<String, TokenStream>> = Default::default();
}
use proc_macro2::TokenTree as TT;
/// A tiny macro_rules engine: one rule, matcher made of tokens, `$x: frag` and `$( ... ) sep? op`.
fn expand_one(def: TokenStream, input: TokenStream) -> std::result::Result<TokenStream, String> {
    let mut d: Vec<TT> = def.into_iter().collect();
    let inp: Vec<TT> = input.into_iter().collect();
    let mut failure = String::from("unsupported macro definition");
    // the first rule that matches
    while d.len() >= 4 {
        let rest = d.split_off((0..d.len()).find(|i| d[*i].to_string() == ";").map(|i| i + 1).unwrap_or(d.len()));
        let (m, b) = match (&d[0], d.get(3)) {
            (TT::Group(m), Some(TT::Group(b))) => (m.stream(), b.stream()),
            _ => return Err("unsupported macro definition".into()),
        };
        let mut binds: Binds = Binds::default();
        let mut pos = 0;
        match match_seq(&m.into_iter().collect::<Vec<_>>(), &inp, &mut pos, &mut binds) {
            Ok(()) if pos == inp.len() => return Ok(subst(&b.into_iter().collect::<Vec<_>>(), &binds)),
            Ok(()) => failure = "macro input left over".into(),
            Err(e) => failure = e,
        }
        d = rest;
    }
    Err(failure)
}
#[derive(Default, Clone)]
struct Binds { one: HashMap<String, TokenStream>, many: HashMap<String, Vec<Binds>> }
fn frag(inp: &[TT], pos: &mut usize, kind: &str) -> std::result::Result<TokenStream, String> {
    match kind {
        "ident" | "literal" | "tt" => { let t = inp.get(*pos).ok_or("end")?; *pos += 1; Ok(t.clone().into_token_stream()) }
        "expr" => {
            let mut v = Vec::new();
            while let Some(t) = inp.get(*pos) { if let TT::Punct(p) = t { if p.as_char() == ',' { break; } } v.push(t.clone()); *pos += 1; }
            Ok(v.into_iter().collect())
        }
        k => Err(format!("fragment {}", k)),
    }
}
fn match_seq(m: &[TT], inp: &[TT], pos: &mut usize, b: &mut Binds) -> std::result::Result<(), String> {
    let mut i = 0;
    while i < m.len() {
        match &m[i] {
            TT::Punct(p) if p.as_char() == '$' => match m.get(i + 1) {
                Some(TT::Ident(n)) => {
                    let kind = m.get(i + 3).map(|t| t.to_string()).unwrap_or_default();
                    let t = frag(inp, pos, &kind)?;
                    b.one.insert(n.to_string(), t);
                    i += 4;
                }
                Some(TT::Group(g)) => {
                    let inner: Vec<TT> = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let mut sep: Option<String> = None;
                    let op = m.get(j).map(|t| t.to_string()).unwrap_or_default();
                    if op != "+" && op != "*" && op != "?" { sep = Some(op); j += 1; }
                    let mut list = Vec::new();
                    while *pos < inp.len() {
                        let save = *pos;
                        if let (Some(s), false) = (&sep, list.is_empty()) {
                            if inp[*pos].to_string() != *s { break; }
                            *pos += 1;
                        }
                        let mut nb = Binds::default();
                        if match_seq(&inner, inp, pos, &mut nb).is_err() { *pos = save; break; }
                        list.push(nb);
                    }
                    let mut names = BTreeSet::new();
                    for l in &list { for k in l.one.keys() { names.insert(k.clone()); } }
                    for n in names { b.many.insert(n, list.clone()); }
                    i = j + 1;
                }
                _ => return Err("bad matcher".into()),
            },
            t => {
                let want = t.to_string();
                let got = inp.get(*pos).map(|t| t.to_string()).unwrap_or_default();
                if want != got { return Err(format!("expected {} got {}", want, got)); }
                *pos += 1;
                i += 1;
            }
        }
    }
    Ok(())
}
fn vars(ts: &[TT], out: &mut Vec<String>) {
    let mut i = 0;
    while i < ts.len() {
        match &ts[i] {
            TT::Punct(p) if p.as_char() == '$' => match ts.get(i + 1) {
                Some(TT::Ident(n)) => { out.push(n.to_string()); i += 2; }
                Some(TT::Group(g)) => { vars(&g.stream().into_iter().collect::<Vec<_>>(), out); i += 2; }
                _ => i += 1,
            },
            TT::Group(g) => { vars(&g.stream().into_iter().collect::<Vec<_>>(), out); i += 1; }
            _ => i += 1,
        }
    }
}
fn subst(ts: &[TT], b: &Binds) -> TokenStream {
    let mut out: Vec<TT> = Vec::new();
    let mut i = 0;
    while i < ts.len() {
        match &ts[i] {
            TT::Punct(p) if p.as_char() == '$' => match ts.get(i + 1) {
                Some(TT::Ident(n)) => {
                    if let Some(t) = b.one.get(&n.to_string()) { out.extend(t.clone()); }
                    i += 2;
                }
                Some(TT::Group(g)) => {
                    let inner: Vec<TT> = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let op = ts.get(j).map(|t| t.to_string()).unwrap_or_default();
                    let mut sep = None;
                    if op != "+" && op != "*" && op != "?" { sep = ts.get(j).cloned(); j += 1; }
                    let mut vs = Vec::new();
                    vars(&inner, &mut vs);
                    if let Some(list) = vs.iter().find_map(|v| b.many.get(v)) {
                        for (k, nb) in list.iter().enumerate() {
                            if k > 0 { if let Some(s) = &sep { out.push(s.clone()); } }
                            let mut merged = b.clone();
                            for (k, v) in &nb.one { merged.one.insert(k.clone(), v.clone()); }
                            out.extend(subst(&inner, &merged));
                        }
                    }
                    i = j + 1;
                }
                _ => { out.push(ts[i].clone()); i += 1; }
            },
            TT::Group(g) => {
                let inner = subst(&g.stream().into_iter().collect::<Vec<_>>(), b);
                out.push(TT::Group(proc_macro2::Group::new(g.delimiter(), inner)));
                i += 1;
            }
            t => { out.push(t.clone()); i += 1; }
        }
    }
    out.into_iter().collect()
}
