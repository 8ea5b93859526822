use crate::{print, lost, weak, Anchor, Contract, Global, Mode, Opts};
use proc_macro2::{Literal, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt, Type};

const ADAPTERS: &[&str] = &["map", "filter", "filter_map", "flat_map", "enumerate", "rev", "copied", "cloned"];
const TERMINALS: &[&str] = &["collect", "any", "all", "find", "position", "count"];
const SOURCES: &[&str] = &["iter", "into_iter", "values", "keys", "split", "iter_mut", "chars"];
const MUTATING: &[&str] = &["push", "remove", "pop", "clear", "insert", "retain", "append", "swap", "truncate", "push_str", "extend", "take", "replace", "push_back", "push_front", "pop_front", "pop_back", "sort", "dedup", "reverse", "drain", "swap_remove", "split_off", "rotate_left", "rotate_right"];

static PROBES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn drop_lifetimes(g: &syn::Generics) -> syn::Generics { let mut g = g.clone(); g.params = g.params.into_iter().filter(|p| !matches!(p, syn::GenericParam::Lifetime(_))).collect(); g }

struct Types<'a> { mode: Mode, subst: &'a [(String, String)] }
fn norm(t: impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }
impl VisitMut for Types<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let n = norm(&*t);
        let bare = if let Type::Reference(r) = &*t { let mut r = r.clone(); r.lifetime = None; norm(&r) } else { n.clone() };
        for (a, b) in self.subst { if n == a.replace(' ', "") || bare == a.replace(' ', "") { *t = syn::parse_str(b).unwrap_or_else(|_| panic!("type {b}")); return; } }
        if self.mode != Mode::Plain {
            let inner = match &*t { Type::Reference(r) => Some((*r.elem).clone()), Type::Ptr(p) => Some((*p.elem).clone()), _ => None };
            if let Some(i) = inner {
                let n = norm(&i);
                if n == "dynNode" { *t = parse_quote!(NodePtr); return; }
                if n == "dynNodeTree" || n == "NodeTreeBase" { *t = parse_quote!(TreePtr); return; }
            }
            if norm(&*t) == "Box<dynNode>" { *t = parse_quote!(NodeBox); return; }
            if let Type::Path(p) = t {
                for s in p.path.segments.iter_mut() { if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                    a.args = a.args.clone().into_iter().filter(|x| !matches!(x, syn::GenericArgument::Lifetime(_))).collect();
                    if a.args.is_empty() { s.arguments = syn::PathArguments::None; }
                } }
            }
            if let Type::Reference(r) = t { r.lifetime = None; }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
pub fn lower_type(t: &mut Type, mode: Mode, subst: &[(String, String)]) { Types { mode, subst }.visit_type_mut(t); }

struct L<'a> {
    o: &'a Opts, c: &'a Contract, g: &'a Global, key: &'a str,
    marks: Vec<String>, loops: usize, closures: usize, calls: HashMap<String, usize>,
    before: Vec<usize>, after: Vec<usize>, used: Vec<bool>, fields_of_self: bool, hname: TokenStream, after_open: Vec<Vec<usize>>, ints: Vec<String>, words: Vec<(String, String)>, aliases: Vec<(String, Type)>,
}
fn method_chain(e: &Expr) -> Option<&syn::ExprMethodCall> { if let Expr::MethodCall(m) = e { Some(m) } else { None } }
fn strip_group(e: &Expr) -> &Expr { match e { Expr::Group(g) => strip_group(&g.expr), Expr::Paren(p) => strip_group(&p.expr), x => x } }
/// A chain SOURCE.adapters*[.terminal], outermost first.
struct Chain { src: Expr, kind: String, srcargs: Vec<Expr>, adapters: Vec<(String, Vec<Expr>)>, terminal: Option<(String, Vec<Expr>, Option<syn::AngleBracketedGenericArguments>)> }
fn chain_of(e: &Expr, need_terminal: bool) -> Option<Chain> {
    let mut m = method_chain(e)?;
    let mut terminal = None;
    let name = m.method.to_string();
    if TERMINALS.contains(&name.as_str()) { terminal = Some((name, m.args.iter().cloned().collect(), m.turbofish.clone())); m = method_chain(&m.receiver)?; } else if need_terminal { return None; }
    let mut adapters = vec![];
    loop {
        let name = m.method.to_string();
        if SOURCES.contains(&name.as_str()) { adapters.reverse(); return Some(Chain { src: (*m.receiver).clone(), kind: name, srcargs: m.args.iter().cloned().collect(), adapters, terminal }); }
        if !ADAPTERS.contains(&name.as_str()) { return None; }
        adapters.push((name, m.args.iter().cloned().collect()));
        m = method_chain(&m.receiver)?;
    }
}
/// The value an iteration step works on.
#[derive(Clone)]
enum Cur { Ref(TokenStream), Val(TokenStream) }
impl Cur { fn tokens(&self) -> TokenStream { match self { Cur::Ref(t) => quote!(& #t), Cur::Val(t) => t.clone() } } }
fn bind(p: &Pat, c: &Cur) -> TokenStream {
    match (p, c) {
        (Pat::Reference(r), Cur::Ref(t)) => { let q = &r.pat; quote!(let #q = #t;) }
        (Pat::Type(t), c) => bind(&t.pat, c),
        (Pat::Reference(r), Cur::Val(t)) => { let q = &r.pat; quote!(let #q = *#t;) }
        (Pat::Tuple(p), Cur::Val(t)) if p.elems.iter().any(|x| matches!(x, Pat::Reference(_))) => {
            let mut o = quote!(let t__ = #t;);
            for (i, x) in p.elems.iter().enumerate() { let i = syn::Index::from(i); let v = format_ident!("t__{}", i); o.extend(quote!(let #v = t__.#i;)); o.extend(bind(x, &Cur::Val(quote!(#v)))); }
            o
        }
        (p, c) => { let t = c.tokens(); quote!(let #p = #t;) }
    }
}
impl L<'_> {
    /// &mut ROOT.children[I], &mut (*P).children[I] and &mut *P for raw pointers P.
    fn raw_place(&mut self, e: &Expr) -> Option<Expr> {
        let root = format_ident!("{}", self.o.rawptr.clone()?);
        fn target(e: &Expr) -> Option<Expr> { match strip_group(e) {
            Expr::Unsafe(u) if u.block.stmts.len() == 1 => if let Stmt::Expr(x, None) = &u.block.stmts[0] { target(x) } else { None },
            Expr::Reference(r) => target(&r.expr), Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => Some((*u.expr).clone()), _ => None } }
        let Expr::Reference(r) = strip_group(e) else { return None };
        match strip_group(&r.expr) {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => { let p = self.expr(&u.expr); Some(parse_quote!(ptr_deref(#root, #p))) }
            Expr::Index(i) => {
                let Expr::Field(f) = strip_group(&i.expr) else { return None };
                if norm(&f.member) != "children" { return None; }
                let k = self.expr(&i.index);
                if norm(strip_group(&f.base)) == root.to_string() { return Some(parse_quote!(ptr_top(&*#root, #k))); }
                let p = target(&f.base)?; let p = self.expr(&p); Some(parse_quote!(ptr_below(&*#root, #p, #k)))
            }
            _ => None,
        }
    }
    fn mark(&mut self, text: String) -> Literal { self.marks.push(text); Literal::usize_unsuffixed(self.marks.len() - 1) }
    fn heap(&self) -> bool { self.o.mode != Mode::Plain }
    fn hints(&mut self, f: impl Fn(&Anchor) -> bool) -> TokenStream {
        let mut t = TokenStream::new();
        for i in 0..self.c.hints.len() { if f(&self.c.hints[i].0) { self.used[i] = true; let m = self.mark(self.c.hints[i].1.clone()); t.extend(quote!(__mark!(#m);)); } }
        t
    }
    /// PROBE=1: a reachability assertion that must be rejected, see verusrun.probe.
    fn probe(&mut self, what: &str) -> TokenStream {
        if std::env::var("PROBE").is_err() { return quote!(); }
        let k = PROBES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let m = self.mark(format!("proof {{ if probe_here({k}) {{ assert(false); /*probe {} {what}*/ }} }}", self.key));
        quote!(__mark!(#m);)
    }
    /// Registers hints that refer to this call.
    fn call(&mut self, name: &str) {
        let k = { let e = self.calls.entry(name.into()).or_insert(0); *e += 1; *e - 1 };
        for i in 0..self.c.hints.len() { match &self.c.hints[i].0 {
            Anchor::Before(n, j) if n == name && *j == k => { self.used[i] = true; self.before.push(i); }
            Anchor::After(n, j) if n == name && *j == k => { self.used[i] = true; self.after.push(i); }
            _ => () } }
    }
    fn expr(&mut self, e: &Expr) -> Expr { let mut e = e.clone(); self.visit_expr_mut(&mut e); e }
    fn closure_parts(&mut self, e: &Expr) -> Option<(Vec<Pat>, Expr)> { if let Expr::Closure(c) = strip_group(e) { Some((c.inputs.iter().cloned().collect(), (*c.body).clone())) } else { None } }
    fn apply(&mut self, f: &Expr, cur: &Cur, out: &mut TokenStream, v: &syn::Ident) {
        match self.closure_parts(f) {
            Some((ps, b)) => { if ps.len() != 1 { lost(format!("{}: closure with {} parameters in a chain", self.key, ps.len())); } let mut p = ps[0].clone(); self.visit_pat_mut(&mut p); let b = self.expr(&b); let l = bind(&p, cur); out.extend(quote!(#l let #v = #b;)); }
            None => { let f = self.expr(f); let c = cur.tokens(); out.extend(quote!(let #v = #f(#c);)); }
        }
    }
    fn steps(&mut self, n: usize, ad: &[(String, Vec<Expr>)], cur: Cur, depth: usize, fin: &mut dyn FnMut(&mut Self, Cur) -> TokenStream) -> TokenStream {
        let Some((name, args)) = ad.first() else { return fin(self, cur) };
        let v = format_ident!("e{}_{}", n, depth);
        let mut t = TokenStream::new();
        match name.as_str() {
            "map" => { self.apply(&args[0], &cur, &mut t, &v); let r = self.steps(n, &ad[1..], Cur::Val(quote!(#v)), depth + 1, fin); t.extend(r); }
            "copied" | "cloned" => { let x = match &cur { Cur::Ref(x) => quote!(#x), Cur::Val(x) => quote!(*#x) }; let x = if name == "cloned" { quote!((#x).clone()) } else { x }; t.extend(quote!(let #v = #x;)); let r = self.steps(n, &ad[1..], Cur::Val(quote!(#v)), depth + 1, fin); t.extend(r); }
            "filter" => { let c = format_ident!("c{}_{}", n, depth); let x = cur.tokens(); t.extend(quote!(let #c = #x;)); self.apply(&args[0], &Cur::Ref(quote!(#c)), &mut t, &v); let r = self.steps(n, &ad[1..], Cur::Val(quote!(#c)), depth + 1, fin); t.extend(quote!(if #v { #r })); }
            "filter_map" => { self.apply(&args[0], &cur, &mut t, &v); let w = format_ident!("w{}_{}", n, depth); let r = self.steps(n, &ad[1..], Cur::Val(quote!(#w)), depth + 1, fin); t.extend(quote!(match #v { Some(#w) => { #r } None => {} })); }
            "flat_map" => { self.apply(&args[0], &cur, &mut t, &v); if ad.len() != 1 { lost(format!("{}: adapter after flat_map", self.key)); } let o = format_ident!("o{}", n); t.extend(quote!(let mut #v = #v; #o.append(&mut #v);)); }
            x => lost(format!("{}: adapter {x}", self.key)),
        }
        t
    }
    fn chain(&mut self, ch: Chain, for_body: Option<(Pat, Block)>) -> TokenStream {
        let n = self.loops; self.loops += 1;
        let lc = self.c.loops.get(&n).cloned().unwrap_or_default();
        let (s, k, o, i) = (format_ident!("s{}", n), format_ident!("k{}", n), format_ident!("o{}", n), format_ident!("i{}", n));
        let src = self.expr(&ch.src);
        let mut ad = ch.adapters; let mut rev = false; let mut enumerate = false; let mut backwards = false;
        while let Some((a, _)) = ad.first() { match a.as_str() { "rev" => rev = !rev, "enumerate" if !enumerate => { enumerate = true; backwards = rev; } "copied" if false => (), _ => break } ad.remove(0); }
        let by_ref = ch.kind == "iter";
        let args: Vec<Expr> = ch.srcargs.iter().map(|a| self.expr(a)).collect();
        let init = match &lc.src {
            Some(f) => { let (r, f) = match f.strip_prefix('&') { Some(f) => (quote!(&), f), None => (quote!(), &f[..]) }; let f: Expr = syn::parse_str(f).unwrap(); quote!(#f(#r #src #(, #args)*)) }
            None => match ch.kind.as_str() { "iter" => quote!(&(#src)), "into_iter" => quote!(#src), x => { let f = format_ident!("it_{}", x); quote!(#f(&(#src) #(, #args)*)) } } };
        let at = if rev { quote!(#s.len() - 1 - #i) } else { quote!(#i) };
        let by_ref = by_ref || (lc.elem.is_none() && ch.kind == "ref");
        let elem = match &lc.elem { Some(e) if e == "ref" => Cur::Ref(quote!(#s[#at])), Some(e) if e == "val" => Cur::Val(quote!(#s[#at])), Some(e) => Cur::Val(syn::parse_str::<Expr>(e).unwrap().to_token_stream()), None if lc.owned => Cur::Val(quote!(#s.remove(0))), None if by_ref => Cur::Ref(quote!(#s[#at])), None => Cur::Val(quote!(#s[#at])) };
        let elem = if enumerate { let e = elem.tokens(); let nth = if rev == backwards { quote!(#i) } else { quote!(#s.len() - 1 - #i) }; Cur::Val(quote!((#nth, #e))) } else { elem };
        let term = ch.terminal.as_ref().map(|t| t.0.clone()).unwrap_or_else(|| if for_body.is_some() { "for".into() } else { "collect".into() });
        // What contracts say about a loop whichever way it runs: the elements seen so far, and whether a search has hit.
        self.words.push((format!("SEEN{n}(i)"), if rev { format!("({s}@.len() - {k} <= i < {s}@.len())") } else { format!("(0 <= i < {k})") }));
        self.words.push((format!("HIT{n}"), if term == "all" { format!("(!{o})") } else { format!("({o})") }));
        let mut extra = quote!();
        // collect::<Option<C>>(): up to the first None.
        let turbofish = ch.terminal.as_ref().and_then(|t| t.2.as_ref()).and_then(|a| a.args.first().cloned()).map(norm);
        let opt = term == "collect" && lc.out.as_ref().map(|o| o.starts_with("Option<")).unwrap_or(turbofish.as_ref().is_some_and(|t| t.starts_with("Option<")));
        let inner = |o: &String| o.strip_prefix("Option<").and_then(|o| o.strip_suffix('>')).map(|x| x.to_string());
        let out = if opt { lc.out.as_ref().and_then(inner) } else { lc.out.clone() };
        let (ok, cont) = (format_ident!("ok{}", n), format_ident!("y{}", n));
        if opt { extra = quote!(&& #ok); }
        let outinit = match term.as_str() {
            "collect" => match out.as_deref() { None | Some("Vec") => quote!(let mut #o = Vec::new();), Some(x) => { let t: Type = syn::parse_str(x).unwrap(); let y = format_ident!("{}", x.split('<').next().unwrap()); if x.contains('<') { quote!(let mut #o: #t = #y::new();) } else { quote!(let mut #o = #y::new();) } } },
            "any" => { extra = quote!(&& !#o); quote!(let mut #o = false;) } "all" => { extra = quote!(&& #o); quote!(let mut #o = true;) }
            "find" | "position" => { extra = quote!(&& #o.is_none()); if term == "position" { quote!(let mut #o: Option<usize> = None;) } else { quote!(let mut #o = None;) } }
            "count" => quote!(let mut #o: usize = 0;), _ => quote!() };
        let targs = ch.terminal.as_ref().map(|t| t.1.clone()).unwrap_or_default();
        let outkind = out.clone().unwrap_or("Vec".into()).split('<').next().unwrap().to_string();
        let body = if ad.last().map(|a| a.0 == "flat_map").unwrap_or(false) { self.steps(n, &ad, elem, 0, &mut |_, _| quote!()) } else {
            let mut fb = for_body;
            self.steps(n, &ad, elem, 0, &mut |me, cur| { let t = cur.tokens(); match term.as_str() {
                "for" => { let (mut p, mut b) = fb.take().unwrap(); me.visit_pat_mut(&mut p); me.visit_block_mut(&mut b); let l = bind(&p, &cur); let st = b.stmts; quote!(#l #(#st)*) }
                "collect" if opt => match outkind.as_str() { "Vec" => quote!(match #t { Some(#cont) => { #o.push(#cont); } None => { #ok = false; } }), x if x.contains("Set") => quote!(match #t { Some(#cont) => { #o.insert(#cont); } None => { #ok = false; } }), _ => quote!(match #t { Some(#cont) => { #o.insert(#cont.0, #cont.1); } None => { #ok = false; } }) },
                "collect" => match outkind.as_str() { "Vec" | "Array" => quote!(#o.push(#t);), "VecDeque" => quote!(#o.push_back(#t);), "String" => quote!(#o.push_str(#t);), "HashSet" => quote!(#o.insert(#t);), _ => quote!(let kv = #t; #o.insert(kv.0, kv.1);) },
                "any" => { let mut q = quote!(); let v = format_ident!("b{}", n); me.apply(&targs[0], &cur, &mut q, &v); quote!(#q if #v { #o = true; }) }
                "all" => { let mut q = quote!(); let v = format_ident!("b{}", n); me.apply(&targs[0], &cur, &mut q, &v); quote!(#q if !#v { #o = false; }) }
                "find" => { let c = format_ident!("f{}", n); let mut q = quote!(let #c = #t;); let v = format_ident!("b{}", n); me.apply(&targs[0], &Cur::Ref(quote!(#c)), &mut q, &v); quote!(#q if #v { #o = Some(#c); }) }
                "position" => { let mut q = quote!(); let v = format_ident!("b{}", n); me.apply(&targs[0], &cur, &mut q, &v); quote!(#q if #v { #o = Some(#i); }) }
                "count" => quote!(#o = #o + 1;),
                x => lost(format!("{}: terminal {x}", me.key)) } }) };
        let auto = if lc.owned { format!("k{n} <= n{n}, n{n} == g{n}.len(), s{n}@ == g{n}.skip(k{n} as int),") } else { format!("k{n} <= s{n}.len(),") };
        let bound = if lc.owned { format!("n{n} - k{n}") } else { format!("s{n}.len() - k{n}") };
        let text = if lc.text.contains("invariant") { lc.text.replace("AUTO", &auto) } else { format!("invariant {auto}\n{}\n", lc.text) };
        let text = if text.contains("decreases") { text } else { format!("{text}\ndecreases {bound}") };
        let spec = self.mark(text);
        let (hb, hs, he, ha) = (self.hints(|a| *a == Anchor::BeforeLoop(n)), { let mut t = self.hints(|a| *a == Anchor::LoopStart(n)); t.extend(self.probe(&format!("loop {n}"))); t }, self.hints(|a| *a == Anchor::LoopEnd(n)), self.hints(|a| *a == Anchor::AfterLoop(n)));
        let (pre, cond) = if lc.owned { let g = self.mark(format!("let ghost g{n} = s{n}@; let n{n}: usize = s{n}.len();")); let nn = format_ident!("n{}", n); (quote!(let mut #s = #init; __mark!(#g);), quote!(#k < #nn)) } else { (quote!(let #s = #init;), quote!(#k < #s.len())) };
        let res = if term == "for" { quote!() } else if opt { quote!(if #ok { Some(#o) } else { None }) } else { quote!(#o) };
        let outinit = if opt { quote!(let mut #ok = true; #outinit) } else { outinit };
        quote!({ #pre let mut #k: usize = 0; #outinit #hb while #cond #extra { __spec!(#spec); #hs let #i: usize = #k; #k = #k + 1; #body #he } #ha #res })
    }
    fn h_for(&self, is_tree: bool) -> Option<TokenStream> { match self.o.mode { Mode::Plain => None, _ if is_tree => None, _ => Some(self.hname.clone()) } }
    fn is_self(e: &Expr) -> bool { matches!(strip_group(e), Expr::Path(p) if p.path.is_ident("self")) }
    /// An expression that is the tree itself.
    fn is_tree(&self, e: &Expr) -> bool { match &self.o.heap { Some(h) => matches!(strip_group(e), Expr::Path(p) if p.path.is_ident(h)), None => self.o.mode == Mode::Tree && Self::is_self(e) } }
    /// The place of a node field: `base.field` becomes a heap access.
    fn heap_field(&mut self, e: &Expr, mutable: bool) -> Option<Expr> {
        if !self.heap() || self.o.nofields { return None; }
        if let Expr::Field(f) = e { if let syn::Member::Named(name) = &f.member {
            if self.g.fields.contains(&name.to_string()) {
                let own = Self::is_self(&f.base);
                if (own && self.o.mode != Mode::Node) || self.is_tree(&f.base) { return None; }
                let base = self.expr(&f.base); let h = self.hname.clone();
                return Some(if mutable { parse_quote!(#h.mem.get_mut(#base).#name) } else { parse_quote!(#h.mem.get(#base).#name) });
            }
        } }
        None
    }
    /// An integer, as far as the text shows.
    fn int(&self, e: &Expr) -> bool {
        match strip_group(e) {
            Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_)),
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.ints.contains(&i.to_string())),
            Expr::MethodCall(m) => m.method == "len" || m.method == "count",
            Expr::Binary(b) => self.int(&b.left) || self.int(&b.right),
            _ => false,
        }
    }
    fn fmt(&mut self, m: &syn::Macro) -> Expr {
        let args: syn::punctuated::Punctuated<Expr, syn::Token![,]> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).unwrap_or_else(|_| lost(format!("{}: format arguments", self.key)));
        let mut it = args.into_iter();
        let lit = match it.next() { Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(), _ => lost(format!("{}: format string", self.key)) };
        let args: Vec<Expr> = it.map(|a| self.expr(&a)).collect();
        if self.heap() && !self.o.realfmt {
            // The text does not matter here, the evaluation of the arguments does.
            return parse_quote!({ #( let _ = #args; )* fmt_any() });
        }
        let mut e: Expr = parse_quote!(String::new());
        let mut rest = lit.as_str(); let mut k = 0;
        while !rest.is_empty() {
            match rest.find(['{', '}']) {
                Some(0) if rest.starts_with("{{") || rest.starts_with("}}") => { let l = &rest[..1]; e = parse_quote!(fmt_lit(#e, #l)); rest = &rest[2..]; }
                Some(0) => {
                    let end = rest.find('}').unwrap(); let spec = &rest[1..end]; rest = &rest[end + 1..];
                    let (nm, ty) = spec.split_once(':').unwrap_or((spec, ""));
                    let a: Expr = if nm.is_empty() { k += 1; args.get(k - 1).cloned().unwrap_or_else(|| lost(format!("{}: format arguments", self.key))) } else if let Ok(i) = nm.parse::<usize>() { args[i].clone() } else { syn::parse_str(nm).unwrap() };
                    let f = format_ident!("{}", match ty { "" => "fmt_display", "?" => "fmt_debug", _ => lost(format!("{}: format spec {ty}", self.key)) });
                    e = parse_quote!(#f(#e, &(#a)));
                }
                Some(n) => { let l = &rest[..n]; e = parse_quote!(fmt_lit(#e, #l)); rest = &rest[n..]; }
                None => { e = parse_quote!(fmt_lit(#e, #rest)); rest = ""; }
            }
        }
        e
    }
    fn mac(&mut self, m: &syn::Macro, stmt: bool) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        Some(match name.as_str() {
            "__mark" | "__spec" => return None,
            "format" => { let e = self.fmt(m); self.call("format"); e }
            "println" | "print" | "eprintln" | "eprint" => {
                let args: Vec<Expr> = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).map(|a| a.into_iter().skip(1).collect()).unwrap_or_default();
                let args: Vec<Expr> = args.iter().map(|a| self.expr(a)).collect();
                self.call(&name);
                parse_quote!({ #( let _ = &(#args); )* }) }
            "panic" if self.o.panics.is_some() => { self.call("panic"); let c: Expr = syn::parse_str(self.o.panics.as_ref().unwrap()).unwrap(); if stmt { parse_quote!(panics_if::<()>(Ghost(#c))) } else { parse_quote!(panics_if(Ghost(#c))) } }
            "panic" | "unreachable" | "unimplemented" | "todo" => { self.call("panic"); if stmt { parse_quote!(unreached::<()>()) } else { parse_quote!(unreached()) } }
            "vec" => { let args: Vec<Expr> = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).map(|a| a.into_iter().collect()).unwrap_or_else(|_| lost(format!("{}: vec!", self.key))); let args: Vec<Expr> = args.iter().map(|a| self.expr(a)).collect(); parse_quote!({ let mut v__ = Vec::new(); #( v__.push(#args); )* v__ }) }
            "matches" => { let p = |i: syn::parse::ParseStream| { let e: Expr = i.parse()?; i.parse::<syn::Token![,]>()?; let p = Pat::parse_multi(i)?; let g: Option<Expr> = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<syn::Token![,]>>()?; Ok((e, p, g)) };
                let (e, p, g) = m.parse_body_with(p).unwrap_or_else(|_| lost(format!("{}: matches!", self.key))); let e = self.expr(&e); match g { None => parse_quote!((match #e { #p => true, _ => false })), Some(g) => { let g = self.expr(&g); parse_quote!((match #e { #p if #g => true, _ => false })) } } }
            x => lost(format!("{}: macro {x}!", self.key)),
        })
    }
}
fn int_type(t: &Type) -> bool { matches!(norm(t).as_str(), "usize" | "u64" | "u32" | "u8" | "i32" | "i64" | "RID") }
fn is_str_lit(p: &Pat) -> bool { matches!(p, Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_))) }
impl VisitMut for L<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) { lower_type(t, self.o.mode, &self.o.subst); }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        // A raw pointer to the tree itself.
        if let (Pat::Type(t), Some(i)) = (&l.pat, &l.init) { if norm(&t.ty) == "*mutNodeTreeBase" && self.is_tree(&i.expr) { let p = &t.pat; let s: Stmt = parse_quote!(let #p: TreePtr = TreePtr {};); if let Stmt::Local(x) = s { *l = x; } return; } }
        if let Pat::Type(t) = &l.pat { if int_type(&t.ty) { self.ints.push(norm(&t.pat).trim_start_matches("mut").to_string()); } }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let (sb, sa) = (std::mem::take(&mut self.before), std::mem::take(&mut self.after));
        for mut s in old {
            if let Stmt::Item(syn::Item::Type(t)) = &s { self.aliases.push((t.ident.to_string(), (*t.ty).clone())); }
            if let Stmt::Item(_) = s { continue; } // Nested functions are extracted on their own, `use` is not needed.
            if let Stmt::Macro(m) = &s { let semi = m.semi_token.is_some(); match self.mac(&m.mac, semi) { Some(e) => s = if semi { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) }, None => () } } else { self.visit_stmt_mut(&mut s); }
            for i in std::mem::take(&mut self.before) { let m = self.mark(self.c.hints[i].1.clone()); b.stmts.push(parse_quote!(__mark!(#m);)); }
            let af = std::mem::take(&mut self.after);
            if af.is_empty() { b.stmts.push(s); continue; }
            let tail = if let Stmt::Expr(e, None) = &s { Some(e.clone()) } else { None };
            match &tail { Some(e) if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Block(_)) => b.stmts.push(parse_quote!(let tail__ = #e;)), Some(_) | None => b.stmts.push(s) }
            for i in af { let m = self.mark(self.c.hints[i].1.clone()); b.stmts.push(parse_quote!(__mark!(#m);)); }
            if let Some(e) = tail { if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Block(_)) { b.stmts.push(Stmt::Expr(parse_quote!(tail__), None)); } }
        }
        self.before = sb; self.after = sa;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // Blocks and parentheses.
        match e {
            Expr::Group(g) => { let mut x = (*g.expr).clone(); self.visit_expr_mut(&mut x); *e = x; return; }
            Expr::Unsafe(u) => { let mut b = u.block.clone(); self.visit_block_mut(&mut b); *e = if b.stmts.len() == 1 && matches!(b.stmts[0], Stmt::Expr(_, None)) { if let Stmt::Expr(x, None) = b.stmts.pop().unwrap() { if matches!(x, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { parse_quote!({ #x }) } else { parse_quote!((#x)) } } else { unreachable!() } } else { Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }) }; return; }
            Expr::Macro(m) => { let mm = m.mac.clone(); if let Some(x) = self.mac(&mm, false) { *e = x; } return; }
            _ => (),
        }
        // A local type alias.
        if let Expr::Path(p) = &*e { if p.qself.is_none() && p.path.segments.len() == 2 { if let Some((_, t)) = self.aliases.iter().find(|(a, _)| p.path.segments[0].ident == a) { let mut t = t.clone(); lower_type(&mut t, self.o.mode, &self.o.subst); let n = &p.path.segments[1]; *e = parse_quote!(<#t>::#n); return; } } }
        // An expanded format!.
        if let Expr::Call(c) = &*e { let n = norm(&*c.func); if n == "::alloc::__export::must_use" && c.args.len() == 1 { let mut x = c.args[0].clone(); if let Expr::Block(b) = &x { if let [Stmt::Expr(y, None)] = &b.block.stmts[..] { x = y.clone(); } } *e = self.expr(&x); return; }
            if n.starts_with("::core::panicking::") || n.starts_with("::std::rt::") { self.call("panic"); *e = if let Some(p) = &self.o.panics { let c: Expr = syn::parse_str(p).unwrap(); parse_quote!(panics_if(Ghost(#c))) } else { parse_quote!(unreached()) }; return; }
            if n == "::alloc::fmt::format" && c.args.len() == 1 { if let Expr::Macro(m) = &c.args[0] { let m = m.mac.clone(); let x = self.fmt(&m); self.call("format"); *e = x; return; } } }
        if let Expr::Path(p) = &*e { if !self.o.paths.is_empty() { let n = norm(p); if let Some((_, b)) = self.o.paths.iter().find(|(a, _)| *a == n) { *e = syn::parse_str(b).unwrap(); return; } } }
        if let Some(x) = self.heap_field(e, false) { *e = x; return; }
        if let (Expr::Struct(s), Some(f)) = (&mut *e, &self.o.fill) { if s.path == f.path && s.rest.is_none() { for x in f.fields.iter() { s.fields.push(x.clone()); } } }
        if let Some(ch) = chain_of(e, true) {
            // A plain listing of a collection needs no loop.
            if self.g.listed && ch.adapters.is_empty() && ch.srcargs.is_empty() { if let Some((t, a, _)) = &ch.terminal { if a.is_empty() && (t == "collect" || t == "count") {
                let f = format_ident!("listed_{}", ch.kind); let x = self.expr(&ch.src); let x = if ch.kind == "into_iter" { quote!(#x) } else { quote!(&(#x)) };
                *e = if t == "collect" { parse_quote!(#f(#x)) } else { parse_quote!(#f(#x).len()) }; return;
            } } }
            let t = self.chain(ch, None); *e = syn::parse2(t).unwrap(); return;
        }
        // if let [a, b] = slice: Verus has no slice patterns.
        if let Expr::If(f) = e { if let Expr::Let(l) = &*f.cond { if let Pat::Slice(p) = &*l.pat { if p.elems.iter().all(|x| matches!(x, Pat::Ident(i) if i.subpat.is_none()) || matches!(x, Pat::Wild(_))) {
            let n = Literal::usize_unsuffixed(p.elems.len()); let x = self.expr(&l.expr);
            let mut lets = quote!();
            for (i, q) in p.elems.iter().enumerate() { let i = Literal::usize_unsuffixed(i); if let Pat::Ident(_) = q { lets.extend(quote!(let #q = &v__[#i];)); } }
            let mut b = f.then_branch.clone(); self.visit_block_mut(&mut b); let st = &b.stmts;
            let els = f.else_branch.as_ref().map(|x| { let y = self.expr(&x.1); quote!(else #y) });
            *e = parse_quote!(match #x { v__ => { if v__.len() == #n { #lets #(#st)* } #els } }); return;
        } } } }
        match e {
            Expr::ForLoop(f) => {
                let body = f.body.clone(); let pat = (*f.pat).clone();
                let ch = match chain_of(&f.expr, false) { Some(c) if c.terminal.is_none() => c, _ => match strip_group(&f.expr) {
                    Expr::Reference(r) if r.mutability.is_none() => Chain { src: (*r.expr).clone(), kind: "iter".into(), srcargs: vec![], adapters: vec![], terminal: None },
                    Expr::Range(r) => {
                        let (a, b) = (self.expr(r.start.as_ref().unwrap()), self.expr(r.end.as_ref().unwrap()));
                        let n = self.loops; self.loops += 1; let k = format_ident!("k{}", n); let m = format_ident!("m{}", n);
                        let lc = self.c.loops.get(&n).cloned().unwrap_or_default(); let spec = self.mark(lc.text);
                        let mut b2 = body; let mut p = pat; self.visit_pat_mut(&mut p); self.visit_block_mut(&mut b2); let st = b2.stmts;
                        let (hb, hs, he, ha) = (self.hints(|a| *a == Anchor::BeforeLoop(n)), { let mut t = self.hints(|a| *a == Anchor::LoopStart(n)); t.extend(self.probe(&format!("loop {n}"))); t }, self.hints(|a| *a == Anchor::LoopEnd(n)), self.hints(|a| *a == Anchor::AfterLoop(n)));
                        *e = syn::parse2(quote!({ let mut #k = #a; let #m = #b; #hb while #k < #m { __spec!(#spec); #hs let #p = #k; #k = #k + 1; #(#st)* #he } #ha })).unwrap(); return; }
                    x => Chain { src: x.clone(), kind: "into_iter".into(), srcargs: vec![], adapters: vec![], terminal: None } } };
                let t = self.chain(ch, Some((pat, body))); *e = syn::parse2(t).unwrap(); return;
            }
            Expr::While(_) | Expr::Loop(_) => {
                let n = self.loops; self.loops += 1;
                visit_mut::visit_expr_mut(self, e);
                let lc = self.c.loops.get(&n).cloned().unwrap_or_default(); let spec = self.mark(lc.text);
                let (hb, hs, he, ha) = (self.hints(|a| *a == Anchor::BeforeLoop(n)), { let mut t = self.hints(|a| *a == Anchor::LoopStart(n)); t.extend(self.probe(&format!("loop {n}"))); t }, self.hints(|a| *a == Anchor::LoopEnd(n)), self.hints(|a| *a == Anchor::AfterLoop(n)));
                let t = match e { Expr::While(w) => { let (c, st) = (&w.cond, &w.body.stmts);
                        // `while let` has no loop specification in Verus.
                        if let Expr::Let(l) = &**c { let (p, x) = (&l.pat, &l.expr); quote!(loop { __spec!(#spec); #hs match #x { #p => { #(#st)* } _ => { break; } } #he }) } else { quote!(while #c { __spec!(#spec); #hs #(#st)* #he }) } }
                    Expr::Loop(w) => { let st = &w.body.stmts; quote!(loop { __spec!(#spec); #hs #(#st)* #he }) } _ => unreachable!() };
                *e = if hb.is_empty() && ha.is_empty() { syn::parse2(t).unwrap() } else { syn::parse2(quote!({ #hb #t #ha })).unwrap() };
                return;
            }
            Expr::Closure(c) => {
                let k = self.closures; self.closures += 1;
                for p in c.inputs.iter_mut() { self.visit_pat_mut(p); }
                let mut b = (*c.body).clone(); self.visit_expr_mut(&mut b);
                if let Some(cc) = self.c.closures.get(&k) {
                    let ret = &cc.ret; let m = self.mark(cc.text.clone());
                    if let Some(p) = &cc.params { 
                        let old: Vec<Pat> = c.inputs.iter().cloned().collect(); c.inputs.clear();
                        let f: syn::ExprClosure = syn::parse_str(&format!("|{p}| 0")).unwrap(); c.inputs = f.inputs;
                        if old.len() != c.inputs.len() { lost(format!("{}: closure {k} has {} parameters", self.key, old.len())); }
                        for (o, n) in old.iter().zip(c.inputs.iter()).rev() {
                            let o = if let Pat::Type(t) = o { &*t.pat } else { o };
                            let name = match n { Pat::Type(t) => &*t.pat, x => x };
                            if norm(o) == norm(name) { continue; }
                            // A pattern: taken apart in the body.
                            b = if let Pat::Reference(r) = o { let q = &r.pat; parse_quote!({ let #q = *#name; #b }) } else { parse_quote!({ let #o = #name; #b }) };
                        }
                    }
                    // `-> (r: T)` is not Rust: it is printed through a mark.
                    let sig = self.mark(format!("-> ({ret})\n{}", self.marks[m.to_string().parse::<usize>().unwrap()]));
                    let inputs = &c.inputs;
                    *e = syn::parse2(quote!(|#inputs| { __spec!(#sig); #b })).unwrap();
                } else { *c.body = b; }
                return;
            }
            // Raw pointers into a nested value: where they lead.
            Expr::Cast(c) if self.o.rawptr.is_some() && matches!(&*c.ty, Type::Ptr(_)) && self.raw_place(&c.expr).is_some() => { *e = self.raw_place(&c.expr).unwrap(); return; }
            Expr::Reference(r) if self.o.rawptr.is_some() && r.mutability.is_some() && self.raw_place(e).is_some() => { *e = self.raw_place(e).unwrap(); return; }
            Expr::Reference(r) if self.heap() => {
                // &*p, &mut *p: the pointer itself. &**p: the pointer behind the reference.
                if let Expr::Unary(u) = strip_group(&r.expr) { if let syn::UnOp::Deref(_) = u.op {
                    let mut inner = (*u.expr).clone(); self.visit_expr_mut(&mut inner); *e = inner; return;
                } }
                if let (Some(rec), Some(_)) = (&self.o.record, &r.mutability) { if norm(&r.expr) == *rec { *e = (*r.expr).clone(); return; } }
                if let Some(m) = &r.mutability { let _ = m; if let Some(x) = self.heap_field(&r.expr, true) { let at = r.mutability; *e = parse_quote!(& #at #x); return; } }
                visit_mut::visit_expr_mut(self, e); return;
            }
            Expr::Assign(a) => {
                if let Some(t) = &self.o.table {
                    let (mut keys, mut x) = (vec![], (*a.left).clone());
                    while let Expr::Index(i) = strip_group(&x).clone() { keys.insert(0, self.expr(&i.index)); x = (*i.expr).clone(); }
                    if !keys.is_empty() && norm(strip_group(&x)) == *t { let (f, v) = (format_ident!("put{}", keys.len()), self.expr(&a.right)); self.call("put"); *e = parse_quote!(#x.#f(#(#keys),*, #v)); return; }
                }
                let l = match self.heap_field(&a.left, true) { Some(x) => x, None => self.expr(&a.left) };
                let r = self.expr(&a.right);
                if let (true, Expr::Unary(u)) = (self.o.subst.iter().any(|s| s.0 == "*assign"), &l) { let _ = u; }
                *e = parse_quote!(#l = #r); return;
            }
            Expr::Binary(b) => {
                use syn::BinOp::*;
                let comp = matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_));
                if comp {
                    let l = match self.heap_field(&b.left, true) { Some(x) => x, None => self.expr(&b.left) };
                    let r = self.expr(&b.right);
                    if self.o.strplus && matches!(b.op, AddAssign(_)) && !self.int(&b.right) { *e = parse_quote!(str_push(&mut #l, #r)); return; }
                    if self.o.ops { let f = format_ident!("op_{}", match b.op { AddAssign(_) => "add", SubAssign(_) => "sub", MulAssign(_) => "mul", DivAssign(_) => "div", RemAssign(_) => "rem", BitXorAssign(_) => "xor", BitAndAssign(_) => "and", BitOrAssign(_) => "or", ShlAssign(_) => "shl", _ => "shr" });
                        // *x op= y
                        let place = if let Expr::Unary(u) = &l { u.expr.to_token_stream() } else { quote!(&mut #l) };
                        *e = parse_quote!(#f(#place, #r)); return; }
                    let bin: syn::BinOp = match b.op { AddAssign(_) => parse_quote!(+), SubAssign(_) => parse_quote!(-), MulAssign(_) => parse_quote!(*), DivAssign(_) => parse_quote!(/), RemAssign(_) => parse_quote!(%), BitXorAssign(_) => parse_quote!(^), BitAndAssign(_) => parse_quote!(&), BitOrAssign(_) => parse_quote!(|), ShlAssign(_) => parse_quote!(<<), _ => parse_quote!(>>) };
                    *e = parse_quote!(#l = #l #bin (#r)); return;
                }
                let d = |x: &Expr| matches!(strip_group(x), Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)));
                let int = |x: &Expr| matches!(strip_group(x), Expr::Lit(l) if !matches!(l.lit, syn::Lit::Str(_)));
                if matches!(b.op, Eq(_) | Ne(_)) && ((d(&b.left) && d(&b.right)) || self.o.strplus || self.o.streq != "str_eq") && !int(&b.left) && !int(&b.right) {
                    let un = |me: &mut Self, x: &Expr| { let x = strip_group(x).clone(); if let Expr::Unary(u) = &x { if matches!(u.op, syn::UnOp::Deref(_)) { return me.expr(&u.expr); } } me.expr(&x) };
                    let (l, r) = (un(self, &b.left), un(self, &b.right));
                    let f = format_ident!("{}", self.o.streq);
                    *e = if matches!(b.op, Eq(_)) { parse_quote!(#f(&(#l), &(#r))) } else { parse_quote!((!#f(&(#l), &(#r)))) }; return;
                }
                if self.o.strplus && matches!(b.op, Add(_)) && !self.int(&b.left) && !self.int(&b.right) { let (l, r) = (self.expr(&b.left), self.expr(&b.right)); *e = parse_quote!(str_cat(#l, #r)); return; }
            }
            Expr::Index(x) => {
                if let Expr::Range(r) = strip_group(&x.index) {
                    let b = self.expr(&x.expr);
                    let f = |me: &mut Self, x: &Option<Box<Expr>>| x.as_ref().map(|x| me.expr(x));
                    let (s, t) = (f(self, &r.start), f(self, &r.end));
                    *e = match (s, t) { (Some(s), None) => parse_quote!(slice_from(#b, #s)), (None, Some(t)) => parse_quote!(slice_to(#b, #t)), _ => lost(format!("{}: slice", self.key)) }; return;
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| is_str_lit(&a.pat)) => {
                let x = self.expr(&m.expr);
                let mut t: TokenStream = quote!();
                let mut closed = false;
                for a in &m.arms {
                    let b = self.expr(&a.body);
                    match &a.pat {
                        p if is_str_lit(p) && a.guard.is_none() => t.extend(quote!(if str_eq(&m__, &#p) { #b } else)),
                        Pat::Ident(i) if a.guard.is_none() => { let n = &i.ident; t.extend(quote!({ let #n = m__; #b })); closed = true; break; }
                        Pat::Wild(_) if a.guard.is_none() => { t.extend(quote!({ #b })); closed = true; break; }
                        _ => lost(format!("{}: match on strings", self.key)) }
                }
                if !closed { lost(format!("{}: match on strings", self.key)); }
                *e = syn::parse2(quote!({ let m__ = #x; #t })).unwrap(); return;
            }
            Expr::Call(c) => {
                let mut h = None;
                if let (Some((n, _)), Expr::Unary(u)) = (&self.o.callptr, strip_group(&c.func)) { if matches!(u.op, syn::UnOp::Deref(_)) {
                    let n = format_ident!("{}", n); let f = self.expr(&u.expr); let a: Vec<Expr> = c.args.iter().map(|a| self.expr(a)).collect();
                    self.call("invoke"); *e = parse_quote!(#n.invoke(#f, #(#a),*)); return;
                } }
                // A value that is called.
                if self.o.callptr.is_some() && matches!(strip_group(&c.func), Expr::Try(_) | Expr::MethodCall(_) | Expr::Field(_)) {
                    let f = self.expr(&c.func); let a: Vec<Expr> = c.args.iter().map(|a| self.expr(a)).collect();
                    self.call("invoke"); *e = parse_quote!((#f).invoke(#(#a),*)); return;
                }
                if let Expr::Path(p) = &*c.func {
                    let n = norm(&p.path); let last = p.path.segments.last().unwrap().ident.to_string();
                    // C::from_iter(source.adapters()): collected to a vector first.
                    if last == "from_iter" && c.args.len() == 1 { if let Some(mut ch) = chain_of(&c.args[0], false) { if ch.terminal.is_none() {
                        ch.terminal = Some(("collect".into(), vec![], None));
                        let t = self.chain(ch, None); let f = self.expr(&c.func); *e = syn::parse2(quote!(#f(#t))).unwrap(); return;
                    } } }
                    if let Some(w) = self.g.hfns.get(&n) { let _ = w; h = self.h_for(false).or(Some(self.hname.clone())); }
                    for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                    let mut f = (*c.func).clone(); self.visit_expr_mut(&mut f);
                    if last == "unreachable_unchecked" { *e = parse_quote!(unreached()); return; }
                    if n == "mem::replace" || n == "std::mem::replace" { let a = &c.args; self.call("replace"); *e = parse_quote!(mem_replace(#a)); return; }
                    if n == "mem::take" || n == "std::mem::take" { let a = &c.args; *e = parse_quote!(mem_take(#a)); return; }
                    if (n == "mem::transmute" || n == "std::mem::transmute") && self.heap() { let a = &c.args[0]; *e = a.clone(); return; }
                    if n == "Box::from_raw" && self.heap() { self.call("from_raw"); let (a, hh) = (&c.args[0], &self.hname); *e = parse_quote!(#hh.mem.from_raw(#a)); return; }
                    if n == "Box::into_raw" && self.heap() { let (a, hh) = (&c.args[0], &self.hname); *e = parse_quote!({ let b__ = #a; #hh.mem.into_raw(b__) }); return; }
                    if let Some(rec) = &self.o.record { if n == *rec { let a = &c.args; self.call("record"); *e = parse_quote!(#f.push((#a))); return; } }
                    if let Some(h) = h { c.args.push(parse_quote!(#h)); }
                    self.call(&last);
                    c.func = Box::new(f);
                    return;
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // scene.iterate(|parent, node, is_owner| ..): the closure runs for every visit.
                if self.heap() && name == "iterate" && m.args.len() == 1 { if let Expr::Closure(c) = strip_group(&m.args[0]) {
                    let pats: Vec<Pat> = c.inputs.iter().cloned().collect();
                    let body: Block = match &*c.body { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x; }) };
                    let r = &m.receiver; let hh = self.hname.clone(); let ch = Chain { src: parse_quote!(scene_visits(#r, #hh)), kind: "into_iter".into(), srcargs: vec![], adapters: vec![], terminal: None };
                    let t = self.chain(ch, Some((parse_quote!((#(#pats),*)), body))); *e = syn::parse2(t).unwrap(); return;
                } }
                let opt = self.heap() || self.g.optmap;
                if opt && m.args.len() == 1 && matches!(name.as_str(), "map" | "and_then" | "is_some_and" | "unwrap_or_else" | "map_or") || self.o.results && name == "map_err" && m.args.len() == 1 { if let Expr::Closure(c) = strip_group(&m.args[0]) {
                    let (pats, body) = (c.inputs.clone(), (*c.body).clone());
                    // A parsed text is a Result.
                    let parsed = self.o.results && matches!(strip_group(&m.receiver), Expr::MethodCall(x) if x.method == "parse") && name == "map";
                    let r = self.expr(&m.receiver);
                    let mut p: Vec<Pat> = pats.into_iter().collect(); for q in p.iter_mut() { self.visit_pat_mut(q); }
                    let b = self.expr(&body);
                    let q = p.first().cloned();
                    *e = match name.as_str() {
                        "map" if parsed => parse_quote!((match #r { Ok(#q) => Ok(#b), Err(x__) => Err(x__) })),
                        "map_err" => parse_quote!((match #r { Ok(x__) => Ok(x__), Err(#q) => Err(#b) })),
                        "map" => parse_quote!((match #r { Some(#q) => Some(#b), None => None })),
                        "and_then" => parse_quote!((match #r { Some(#q) => #b, None => None })),
                        "is_some_and" => parse_quote!((match #r { Some(#q) => #b, None => false })),
                        _ => parse_quote!((match #r { Some(x__) => x__, None => #b })) };
                    return;
                } }
                if opt && m.args.is_empty() && name == "copied" { let r = self.expr(&m.receiver); *e = parse_quote!((match #r { Some(x__) => Some(*x__), None => None })); return; }
                for (f, n, to) in &self.g.cells { if name == *n { if let Expr::Field(x) = strip_group(&m.receiver) { if self.is_tree(&x.base) && norm(&x.member) == *f { let b = x.base.clone(); let to = format_ident!("{}", to); for a in m.args.iter_mut() { self.visit_expr_mut(a); } self.call(&name); let a = &m.args; *e = parse_quote!(#b.#to(#a)); return; } } } }
                let own = self.is_tree(&m.receiver);
                let mut recv = match self.heap_field(&m.receiver, MUTATING.contains(&name.as_str())) { Some(x) => x, None => self.expr(&m.receiver) };
                // (*p).method(): the method of the pointer.
                if self.heap() { if let Expr::Paren(p) = &recv { if let Expr::Unary(u) = &*p.expr { if matches!(u.op, syn::UnOp::Deref(_)) { recv = (*u.expr).clone(); } } } }
                for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                if let Some(t) = &mut m.turbofish { for a in t.args.iter_mut() { self.visit_generic_argument_mut(a); } }
                m.receiver = Box::new(recv);
                self.call(&name);
                if let Some((_, f)) = self.o.mcalls.iter().find(|x| x.0 == name) {
                    let (r, a) = (&m.receiver, &m.args);
                    let (r, f) = if let Some(f) = f.strip_prefix("&mut:") { (quote!(&mut #r), f) } else if let Some(f) = f.strip_prefix("&:") { (quote!(&#r), f) } else { (quote!(#r), &f[..]) };
                    let hh = if self.g.hfns.contains_key(f) { let h = &self.hname; let c = if a.is_empty() || a.trailing_punct() { quote!() } else { quote!(,) }; quote!(#c #h) } else { quote!() };
                    let f = format_ident!("{}", f);
                    *e = parse_quote!(#f(#r, #a #hh)); return;
                }
                if name == "unwrap_unchecked" && !self.g.keep_unchecked { m.method = format_ident!("unwrap"); }
                if self.heap() && (self.g.hmethods.contains_key(&name) || Self::is_self(&m.receiver) && self.g.hmethods.contains_key(&format!("self.{name}"))) { if let Some(h) = self.h_for(own) { m.args.push(parse_quote!(#h)); } }
                return;
            }
            Expr::Cast(c) if self.heap() => {
                let mut ty = (*c.ty).clone(); lower_type(&mut ty, self.o.mode, &self.o.subst);
                if matches!(norm(&ty).as_str(), "NodePtr" | "TreePtr") { *e = self.expr(&c.expr); return; }
            }
            Expr::Unary(u) if self.heap() && matches!(u.op, syn::UnOp::Deref(_)) => (),
            _ => (),
        }
        visit_mut::visit_expr_mut(self, e);
        // Redundant parentheses around calls etc. are harmless.
    }
}

pub fn lower_fn(mut sig: syn::Signature, mut block: Block, o: &Opts, c: &Contract, g: &Global, key: &str) -> String {
    let hname = if let Some(h) = &o.heap { let h = format_ident!("{}", h); quote!(#h) } else if o.mode == Mode::Tree { quote!(self) } else { quote!(h) };
    if let Some(f) = &o.free_self {
        struct Cell(syn::Ident);
        impl VisitMut for Cell { fn visit_expr_mut(&mut self, e: &mut Expr) { if L::is_self(e) { let f = &self.0; *e = parse_quote!(self.#f); } else { visit_mut::visit_expr_mut(self, e); } }
            fn visit_macro_mut(&mut self, m: &mut syn::Macro) { if let Ok(mut a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) { for x in a.iter_mut() { self.visit_expr_mut(x); } m.tokens = a.to_token_stream(); } } }
        Cell(format_ident!("{}", f)).visit_block_mut(&mut block);
    }
    let mut l = L { o, c, g, key, marks: vec![], loops: 0, closures: 0, calls: HashMap::new(), before: vec![], after: vec![], used: vec![false; c.hints.len()], fields_of_self: false, hname, after_open: vec![], ints: vec![], words: vec![], aliases: vec![] };
    for i in &sig.inputs { if let syn::FnArg::Typed(t) = i { if int_type(&t.ty) { l.ints.push(norm(&t.pat)); } } }
    let _ = (l.fields_of_self, &l.after_open);
    sig.unsafety = None; sig.constness = None; sig.abi = None;
    if let Some(r) = &o.rename { sig.ident = format_ident!("{}", r); }
    let heap = o.mode != Mode::Plain;
    if heap { sig.generics = drop_lifetimes(&sig.generics); }
    // A closure parameter whose calls are recorded: a list of the arguments.
    if let Some(rec) = &o.record {
        let fs: Vec<String> = sig.generics.params.iter().filter_map(|p| if let syn::GenericParam::Type(t) = p { if norm(&t.bounds).contains("FnMut") { Some(t.ident.to_string()) } else { None } } else { None }).collect();
        sig.generics.params = sig.generics.params.clone().into_iter().filter(|p| !matches!(p, syn::GenericParam::Type(t) if fs.contains(&t.ident.to_string()))).collect();
        for i in sig.inputs.iter_mut() { if let syn::FnArg::Typed(t) = i { let n = norm(&t.pat); if n == *rec || n == format!("mut{rec}") { let r = format_ident!("{}", rec); *i = parse_quote!(#r: &mut Vec<Visit>); } } }
    }
    for i in sig.inputs.iter_mut() { match i {
        syn::FnArg::Receiver(r) => if o.mode == Mode::Node { *i = parse_quote!(self); } else { r.attrs.clear(); },
        syn::FnArg::Typed(t) => { if o.heap.as_ref().is_some_and(|h| norm(&t.pat) == *h) { if let Type::Reference(r) = &mut *t.ty { r.lifetime = None; } continue; } lower_type(&mut t.ty, o.mode, &o.subst); } } }
    if o.selfmut { if let Some(syn::FnArg::Receiver(_)) = sig.inputs.first() { sig.inputs[0] = parse_quote!(&mut self); } }
    if let Some((n, t)) = &o.callptr { let n = format_ident!("{}", n); let t: Type = syn::parse_str(t).unwrap(); sig.inputs.push(parse_quote!(#n: #t)); }
    if let Some(m) = o.hmut { if m { sig.inputs.push(parse_quote!(h: &mut NodeTreeBase)); } else { sig.inputs.push(parse_quote!(h: &NodeTreeBase)); } }
    // A function that never returns and whose panics a contract allows for.
    if o.panics.is_some() && matches!(&sig.output, syn::ReturnType::Type(_, t) if norm(t) == "!") { sig.output = syn::ReturnType::Default; }
    if let syn::ReturnType::Type(_, t) = &mut sig.output { lower_type(t, o.mode, &o.subst); }
    l.visit_block_mut(&mut block);
    // A trailing macro or expression of a diverging function.
    let mut entry = l.probe("entry"); entry.extend(l.hints(|a| *a == Anchor::Entry));
    let exit = l.hints(|a| *a == Anchor::Exit);
    // Nothing is known of what a closure gives that was not put in line.
    { struct Closures(usize); impl VisitMut for Closures { fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) { self.0 += 1; } }
      let mut n = Closures(0); n.visit_block_mut(&mut block.clone()); if n.0 > c.closures.len() { weak(format!("{key}: {} closures in the text", n.0)); } }
    // Hints whose anchor is gone are left out: what is still accepted is proved, a rejection of this function then says nothing.
    if l.loops != c.loops.len() { weak(format!("{key}: {} loops, contracts for {}", l.loops, c.loops.len())); }
    for (i, u) in l.used.iter().enumerate() { if !u { weak(format!("{key}: no anchor {:?}", c.hints[i].0)); } }
    let out = match &sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) if norm(t) == "!" => "-> !".into(), syn::ReturnType::Type(_, t) => format!("-> ({}: {})", o.ret, print::print(t.to_token_stream(), &[]).trim()) };
    let mut s = sig.clone(); s.output = syn::ReturnType::Default;
    let wh = s.generics.where_clause.take();
    let head = print::print(quote!(pub #s), &[]);
    let wh = wh.map(|w| print::print(w.to_token_stream(), &[])).unwrap_or_default();
    // `mut self`: a local copy called `me`.
    let mut pre = quote!();
    if let Some(syn::FnArg::Receiver(r)) = s.inputs.first_mut() { if r.reference.is_none() && r.mutability.is_some() {
        r.mutability = None; pre = quote!(let mut me = self;);
        struct Me; impl VisitMut for Me { fn visit_ident_mut(&mut self, i: &mut syn::Ident) { if i == "self" { *i = format_ident!("me"); } } }
        Me.visit_block_mut(&mut block);
    } }
    let head = if o.private { print::print(quote!(#s), &[]) } else { print::print(quote!(pub #s), &[]) };
    if !exit.is_empty() && matches!(sig.output, syn::ReturnType::Default) { if let Some(Stmt::Expr(_, s @ None)) = block.stmts.last_mut() { *s = Some(Default::default()); } }
    if !exit.is_empty() && !matches!(sig.output, syn::ReturnType::Default) { if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() { block.stmts.pop(); block.stmts.push(parse_quote!(let tail__ = #e;)); block.stmts.push(parse_quote!(__exit!();)); block.stmts.push(Stmt::Expr(parse_quote!(tail__), None)); } }
    if let Some(k) = block.stmts.iter().position(|s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__exit"))) {
        let st = &mut block.stmts; st.remove(k); let b: Block = parse_quote!({ #exit }); for (i, s) in b.stmts.into_iter().enumerate() { st.insert(k + i, s); }
    } else { let b: Block = parse_quote!({ #exit }); block.stmts.extend(b.stmts); }
    let st = &block.stmts;
    let mut body = print::print(quote!({ #pre #entry #(#st)* }), &l.marks);
    for (a, b) in &l.words { body = body.replace(a, b); }
    let mut headline = format!("{head} {out} {wh}");
    for (a, b) in &o.subst {
        let from = print::print(a.parse::<TokenStream>().unwrap(), &[]); let to = print::print(b.parse::<TokenStream>().unwrap(), &[]);
        headline = headline.replace(from.trim(), to.trim()); body = body.replace(from.trim(), to.trim());
    }
    format!("{headline}\n{}{body}", c.spec)
}
