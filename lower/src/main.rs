//! lower GROUP.vc REPO_SRC OUT.rs OUT.json
//!
//! Copies functions and types out of the repository, lowers them to the subset of Rust that Verus
//! accepts (see DESIGN.md, "What the extraction changes") and joins them with their contracts.
//! Exit 0: written. Exit 4: something the contracts refer to is gone ("lost"), named on stdout.
mod pass; mod print;
use std::collections::HashMap;
use std::fs;
use quote::ToTokens;

#[derive(Default, Clone, Debug)]
pub struct Contract { pub spec: String, pub loops: HashMap<usize, LoopC>, pub closures: HashMap<usize, ClosureC>, pub hints: Vec<(Anchor, String)> }
#[derive(Default, Clone, Debug)]
pub struct LoopC { pub src: Option<String>, pub owned: bool, pub elem: Option<String>, pub out: Option<String>, pub text: String }
#[derive(Default, Clone, Debug)]
pub struct ClosureC { pub params: Option<String>, pub ret: String, pub text: String }
#[derive(Clone, Debug, PartialEq)]
pub enum Anchor { Entry, LoopStart(usize), LoopEnd(usize), BeforeLoop(usize), AfterLoop(usize), Before(String, usize), After(String, usize), Exit }
#[derive(Clone, Debug, PartialEq, Copy)]
pub enum Mode { Plain, Node, Tree, Ptr }
#[derive(Clone, Debug)]
pub struct Opts { pub mode: Mode, pub hmut: Option<bool>, pub strplus: bool, pub ops: bool, pub rename: Option<String>, pub subst: Vec<(String, String)>, pub ret: String, pub free_self: Option<String>, pub attrs: Vec<String>, pub sig: Option<String>, pub keep_static: bool, pub record: Option<String>, pub heap: Option<String>, pub streq: String, pub mcalls: Vec<(String, String)>, pub private: bool, pub nofields: bool, pub selfmut: bool, pub callptr: Option<(String, String)>, pub realfmt: bool, pub rawptr: Option<String>, pub results: bool, pub table: Option<String>, pub fill: Option<syn::ExprStruct>, pub panics: Option<String>, pub paths: Vec<(String, String)> }
#[derive(Default, Debug, Clone)]
pub struct Global { pub hmethods: HashMap<String, bool>, pub hfns: HashMap<String, bool>, pub fields: Vec<String>, pub optmap: bool, pub listed: bool, pub keep_unchecked: bool, pub cells: Vec<(String, String, String)> }

thread_local! { static IN_FN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; static WHY: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; static WEAK: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// The function is verified without some of its hints.
pub fn weak(m: impl AsRef<str>) { WEAK.with(|w| *w.borrow_mut() = m.as_ref().to_string()); }
/// Inside of one function only that function is lost: its contract stays, as an assumption.
pub fn lost(m: impl AsRef<str>) -> ! {
    if IN_FN.with(|i| i.get()) { WHY.with(|w| *w.borrow_mut() = m.as_ref().to_string()); panic!("lost"); }
    println!("LOST {}", m.as_ref()); std::process::exit(4)
}
/// Runs f; None and the reason when it cannot be done.
fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    WHY.with(|w| w.borrow_mut().clear());
    IN_FN.with(|i| i.set(true)); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); IN_FN.with(|i| i.set(false));
    r.map_err(|_| { let w = WHY.with(|w| w.borrow().clone()); if w.is_empty() { "the extractor fails".into() } else { w } })
}

struct Ctx { src: String, files: HashMap<String, syn::File>, out: String, map: Vec<String>, g: Global, dir: String, included: Vec<String>, mode: Mode, bc: String, subst: Vec<(String, String)>, skip: Vec<String> }

fn norm(t: impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }

/// A function of the repository: its signature, its body and the line it starts at.
struct Found { sig: syn::Signature, block: syn::Block }

impl Ctx {
    fn file(&mut self, f: &str) -> syn::File {
        if !self.files.contains_key(f) {
            // @classes is the expansion of the sample declarations.
            let p = if f == "@classes" { std::env::var("CLASSES").unwrap_or_else(|_| lost("the expansion of the sample classes".to_string())) } else { format!("{}/{}", self.src, f) };
            let t = fs::read_to_string(&p).unwrap_or_else(|_| lost(format!("file {p}")));
            let s = syn::parse_file(&t).unwrap_or_else(|e| lost(format!("{p} does not parse: {e}")));
            self.files.insert(f.into(), s);
        }
        self.files[f].clone()
    }
    fn find(&mut self, f: &str, key: &str) -> Found {
        let file = self.file(f);
        let (owner, mut name) = match key.rsplit_once("::") { Some((o, n)) => (Some(o.to_string()), n.to_string()), None => (None, key.to_string()) };
        let mut nested = None;
        if let Some((a, b)) = name.clone().split_once('/') { nested = Some(b.to_string()); name = a.to_string(); }
        let mut hits: Vec<Found> = vec![];
        match owner {
            None => for i in &file.items { if let syn::Item::Fn(x) = i { if x.sig.ident == name { hits.push(Found { sig: x.sig.clone(), block: (*x.block).clone() }); } } },
            Some(o) => {
                let (tr, ty) = match o.strip_prefix('<').and_then(|o| o.strip_suffix('>')) { Some(x) => match x.split_once(" for ") { Some((t, y)) => (Some(t.replace(' ', "")), y.replace(' ', "")), None => lost(format!("bad key {key}")) }, None => (None, o.replace(' ', "")) };
                for i in &file.items { match i {
                    syn::Item::Impl(im) if cfg_ok(&im.attrs) => {
                        let t = im.trait_.as_ref().map(|(_, p, _)| norm(p.segments.last().unwrap()));
                        if t != tr { continue; }
                        let full = norm(&im.self_ty);
                        let last = match &*im.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), x => norm(x) };
                        if full != ty && last != ty { continue; }
                        for it in &im.items { if let syn::ImplItem::Fn(x) = it { if x.sig.ident == name { hits.push(Found { sig: x.sig.clone(), block: x.block.clone() }); } } }
                    }
                    syn::Item::Trait(td) if tr.is_none() && td.ident == ty.as_str() => for it in &td.items { if let syn::TraitItem::Fn(x) = it { if x.sig.ident == name { if let Some(b) = &x.default { hits.push(Found { sig: x.sig.clone(), block: b.clone() }); } } } },
                    _ => (),
                } }
            }
        }
        if hits.len() != 1 { lost(format!("{} definitions of {key} in {f}", hits.len())); }
        let mut h = hits.pop().unwrap();
        if let Some(n) = nested {
            let mut found = None;
            for s in &h.block.stmts { if let syn::Stmt::Item(syn::Item::Fn(x)) = s { if x.sig.ident == n { found = Some(Found { sig: x.sig.clone(), block: (*x.block).clone() }); } } }
            h = found.unwrap_or_else(|| lost(format!("nested function {n} of {key} in {f}")));
        }
        h
    }
    fn emit_fn(&mut self, f: &str, key: &str, o: Opts, c: Contract) {
        let start = self.out.matches('\n').count() + 1;
        let js = |w: &str| format!("\"{}\"", w.replace(['\\', '"'], "'").replace('\n', " "));
        let found = match attempt(|| self.find(f, key)) { Ok(x) => x, Err(w) => { self.out.push_str(&format!("// {f} {key}: {w}\n")); self.map.push(format!("{{\"start\":{start},\"end\":{start},\"file\":\"{f}\",\"line\":0,\"fn\":\"{}\",\"lost\":{}}}", key.replace('"', ""), js(&w))); return; } };
        let line = found.sig.ident.span().start().line;
        let mut why = if self.skip.iter().any(|k| k == key) { Some("the verifier does not take its text".to_string()) } else { None };
        let mut text = None;
        WEAK.with(|w| w.borrow_mut().clear());
        if why.is_none() { match attempt(|| pass::lower_fn(found.sig.clone(), found.block, &o, &c, &self.g, key)) { Ok(t) => text = Some(t), Err(w) => why = Some(w) } }
        let mut weak = WEAK.with(|w| w.borrow().clone());
        if text.is_none() { weak.clear(); }
        let weak = if weak.is_empty() { String::new() } else { format!(",\"weak\":{}", js(&weak)) };
        let text = text.unwrap_or_else(|| {
            let t = pass::lower_fn(found.sig, syn::parse_quote!({}), &o, &Contract { spec: c.spec.clone(), ..Contract::default() }, &self.g, key);
            format!("#[verifier::external_body]\n{} {{ unimplemented!() }}", &t[..t.rfind('{').unwrap()])
        });
        self.out.push_str(&format!("// {f}:{line} {key}\n"));
        for a in &o.attrs { if why.is_none() || !a.contains("loop_isolation") { self.out.push_str(a); self.out.push('\n'); } }
        self.out.push_str(&text); self.out.push('\n');
        let end = self.out.matches('\n').count();
        self.map.push(format!("{{\"start\":{start},\"end\":{end},\"file\":\"{f}\",\"line\":{line},\"fn\":\"{}\"{weak}{}}}", key.replace('"', ""), why.map(|w| format!(",\"lost\":{}", js(&w))).unwrap_or_default()));
    }
    fn emit_type(&mut self, f: &str, name: &str, add: &[String], drop: &[String], derive: &str, subst: &[(String, String)]) {
        let file = self.file(f);
        for i in &file.items { match i {
            syn::Item::Struct(s) if s.ident == name => {
                let mut s = s.clone(); s.attrs.clear(); s.vis = syn::parse_quote!(pub);
                if let syn::Fields::Named(n) = &mut s.fields {
                    n.named = n.named.clone().into_iter().filter(|x| !drop.contains(&x.ident.as_ref().unwrap().to_string())).collect();
                    for d in drop { if !self_has(&file, name, d) { lost(format!("field {d} of {name}")); } }
                }
                for x in s.fields.iter_mut() { x.attrs.clear(); x.vis = syn::parse_quote!(pub); pass::lower_type(&mut x.ty, self.mode, subst); }
                if self.mode != Mode::Plain { s.generics = pass::drop_lifetimes(&s.generics); }
                let mut t = print::print(s.to_token_stream(), &[]);
                if !add.is_empty() { let p = t.rfind('}').unwrap(); t.insert_str(p, &format!(", {}\n", add.join(",\n"))); t = t.replace(", ,", ","); t = fix_commas(t); }
                self.out.push_str(derive); self.out.push_str(&t); self.out.push('\n'); return;
            }
            syn::Item::Enum(s) if s.ident == name => {
                let mut s = s.clone(); s.attrs.clear(); s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() { v.attrs.clear(); for x in v.fields.iter_mut() { x.attrs.clear(); pass::lower_type(&mut x.ty, self.mode, subst); } }
                if self.mode != Mode::Plain { s.generics = pass::drop_lifetimes(&s.generics); }
                self.out.push_str(derive); self.out.push_str(&print::print(s.to_token_stream(), &[])); self.out.push('\n'); return;
            }
            syn::Item::Type(s) if s.ident == name => { let mut s = s.clone(); s.attrs.clear(); s.vis = syn::parse_quote!(pub); pass::lower_type(&mut s.ty, self.mode, subst); self.out.push_str(&print::print(s.to_token_stream(), &[])); self.out.push('\n'); return; }
            _ => (),
        } }
        lost(format!("type {name} in {f}"))
    }
    fn group(&mut self, path: &str) {
        if self.included.contains(&path.to_string()) { return; }
        self.included.push(path.into());
        let text = fs::read_to_string(format!("{}/{}", self.dir, path)).unwrap_or_else(|_| { println!("no contract file {path}"); std::process::exit(2) });
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i]; i += 1;
            let Some(d) = l.trim_start().strip_prefix("//@ ") else { self.out.push_str(l); self.out.push('\n'); continue };
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "include" => self.group(w[1]),
                "mode" => self.mode = mode(w[1]),
                // Methods and functions that get the heap: NAME or NAME:mut
                "hmethods" => for x in &w[1..] { let (n, m) = x.split_once(':').map(|(a, _)| (a, true)).unwrap_or((x, false)); self.g.hmethods.insert(n.into(), m); },
                "hfns" => for x in &w[1..] { let (n, m) = x.rsplit_once(":mut").map(|(a, _)| (a, true)).unwrap_or((x, false)); self.g.hfns.insert(n.into(), m); },
                "fields" => for x in &w[1..] { self.g.fields.push(x.to_string()); },
                // Axioms and lemmas that are used everywhere in the group.
                "broadcast" => for x in &w[1..] { self.bc.push_str(", "); self.bc.push_str(x); },
                "unchecked" => self.g.keep_unchecked = w[1] == "keep",
                // Replaces types (and their text) in everything that follows.
                "subst" => { let (a, b) = d[6..].split_once("=>").unwrap(); self.subst.push((a.trim().into(), b.trim().into())); }
                // cell FIELD METHOD FN: self.FIELD.METHOD(..) is self.FN(..)
                "cell" => self.g.cells.push((w[1].into(), w[2].into(), w[3].into())),
                "optmap" => self.g.optmap = w[1] == "on",
                "listed" => self.g.listed = w[1] == "on",
                // const FILE [TYPE::]NAME
                "const" => {
                    let file = self.file(w[1]); let (o, n) = match w[2].rsplit_once("::") { Some((o, n)) => (Some(o), n), None => (None, w[2]) };
                    let mut hit = None;
                    for i in &file.items { match i {
                        syn::Item::Const(c) if o.is_none() && c.ident == n => hit = Some((c.ty.clone(), c.expr.clone())),
                        syn::Item::Impl(im) if im.trait_.is_none() && o.is_some() && matches!(&*im.self_ty, syn::Type::Path(p) if p.path.segments.last().unwrap().ident == o.unwrap()) => for it in &im.items { if let syn::ImplItem::Const(c) = it { if c.ident == n { hit = Some((Box::new(c.ty.clone()), Box::new(c.expr.clone()))); } } },
                        _ => () } }
                    let (ty, e) = hit.unwrap_or_else(|| lost(format!("const {} in {}", w[2], w[1])));
                    self.out.push_str(&format!("pub const {n}: {} = {};\n", print::print(ty.to_token_stream(), &[]).trim().replace("& str", "&'static str"), print::print(e.to_token_stream(), &[]).trim()));
                }
                // consts FILE FN: the string constants inside a function, and those of the file
                "consts" => {
                    let file = self.file(w[1]); let mut cs = vec![];
                    for i in &file.items { match i {
                        syn::Item::Const(c) => cs.push(c.clone()),
                        syn::Item::Fn(x) if x.sig.ident == w[2] => for st in &x.block.stmts { if let syn::Stmt::Item(syn::Item::Const(c)) = st { cs.push(c.clone()); } },
                        _ => () } }
                    for c in cs { if norm(&c.ty).replace("'static", "") == "&str" { self.out.push_str(&format!("pub const {}: &'static str = {};\n", c.ident, print::print(c.expr.to_token_stream(), &[]).trim())); } }
                }
                "type" => {
                    // type FILE NAME [drop=a,b] [derive] ... lines until end are added fields
                    let (mut add, mut drop, mut derive, mut subst) = (vec![], vec![], String::new(), vec![]);
                    for o in &w[3..] { if let Some(x) = o.strip_prefix("drop=") { drop = x.split(',').map(|s| s.to_string()).collect(); } else if *o == "copy" { derive += "#[derive(Clone, Copy)]\n"; } else if *o == "eq" { derive += "#[derive(PartialEq, Eq, Structural)]\n"; } else if *o == "add" { while lines[i].trim() != "//@ end" { if !lines[i].trim().is_empty() { add.push(lines[i].trim().trim_end_matches(',').to_string()); } i += 1; } i += 1; } else if let Some(x) = o.strip_prefix("subst=") { let (a, b) = x.split_once("=>").unwrap(); subst.push((a.to_string(), b.to_string())); } else { panic!("{l}"); } }
                    subst.extend(self.subst.clone());
                    self.emit_type(w[1], w[2], &add, &drop, &derive, &subst);
                }
                "fn" => {
                    let body: Vec<&str> = { let s = i; while lines[i].trim() != "//@ end" { i += 1; } i += 1; lines[s..i - 1].to_vec() };
                    // fn FILE KEY | options
                    let (head, opts) = match d[3..].split_once(" | ") { Some((a, b)) => (a.trim(), b), None => (d[3..].trim(), "") };
                    let (f, key) = head.split_once(' ').unwrap();
                    let mut o = Opts { mode: self.mode, hmut: None, strplus: false, ops: false, rename: None, subst: vec![], ret: "ret".into(), free_self: None, attrs: vec![], sig: None, keep_static: false, record: None, heap: None, streq: "str_eq".into(), mcalls: vec![], private: false, nofields: false, selfmut: false, callptr: None, realfmt: false, rawptr: None, results: false, table: None, fill: None, panics: None, paths: vec![] };
                    for x in opts.split_whitespace() { match x.split_once('=') {
                        None if x == "strplus" => o.strplus = true, None if x == "ops" => o.ops = true, None if x == "priv" => o.private = true, None if x == "nofields" => o.nofields = true, None if x == "selfmut" => o.selfmut = true, None if x == "realfmt" => o.realfmt = true, None if x == "results" => o.results = true,
                        // Values of fields that only the contracts have, for literals of this struct.
                        // A panic! may be reached exactly under this condition.
                        Some(("panics", v)) => o.panics = Some(v.replace('~', " ")),
                        // The function or constant path A is B.
                        Some(("path", v)) => { let (a, b) = v.split_once("=>").unwrap(); o.paths.push((a.into(), b.into())); }
                        Some(("fill", v)) => o.fill = Some(syn::parse_str(v).unwrap()),
                        // NAME[a][b] = x is NAME.put2(a, b, x)
                        Some(("table", v)) => o.table = Some(v.into()),
                        // (*f)(args) is NAME.invoke(f, args), NAME is a parameter of the given type.
                        Some(("callptr", v)) => { let (a, b) = v.split_once(':').unwrap(); o.callptr = Some((a.into(), b.replace('~', " "))); }
                        // Raw pointers into the value of this name.
                        Some(("rawptr", v)) => o.rawptr = Some(v.into()),
                        Some(("h", v)) => o.hmut = match v { "mut" => Some(true), "ref" => Some(false), _ => None },
                        Some(("as", v)) => o.rename = Some(v.into()),
                        Some(("mode", v)) => o.mode = mode(v),
                        Some(("subst", v)) => { let (a, b) = v.split_once("=>").unwrap(); o.subst.push((a.into(), b.into())); }
                        // recv.NAME(args) => FN(recv, args), with recv borrowed if FN starts with & or &mut:
                        Some(("mcall", v)) => { let (a, b) = v.split_once("=>").unwrap(); o.mcalls.push((a.into(), b.into())); }
                        Some(("ret", v)) => o.ret = v.into(),
                        Some(("self", v)) => o.free_self = Some(v.into()),
                        // The parameter that is the tree.
                        Some(("heap", v)) => o.heap = Some(v.into()),
                        Some(("streq", v)) => o.streq = v.into(),
                        Some(("record", v)) => o.record = Some(v.into()),
                        Some(("attr", v)) => o.attrs.push(format!("#[{v}]")),
                        _ => panic!("option {x} in {l}") } }
                    o.subst.extend(self.subst.clone());
                    self.emit_fn(f, key.trim(), o, contract(&body));
                }
                x => panic!("directive {x} in {path}"),
            }
        }
    }
}
fn self_has(f: &syn::File, name: &str, field: &str) -> bool { f.items.iter().any(|i| matches!(i, syn::Item::Struct(s) if s.ident == name && s.fields.iter().any(|x| x.ident.as_ref().map(|i| i == field).unwrap_or(false)))) }
fn fix_commas(t: String) -> String { t }
fn cfg_ok(attrs: &[syn::Attribute]) -> bool { !attrs.iter().any(|a| a.path().is_ident("cfg")) }
fn mode(s: &str) -> Mode { match s { "plain" => Mode::Plain, "node" => Mode::Node, "tree" => Mode::Tree, "ptr" => Mode::Ptr, _ => panic!("mode {s}") } }
fn contract(body: &[&str]) -> Contract {
    let mut c = Contract::default();
    enum At { Spec, Loop(usize), Closure(usize), Hint(usize) }
    let mut at = At::Spec;
    for l in body {
        if let Some(d) = l.trim_start().strip_prefix("//@ ") {
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "loop" => { let n: usize = w[1].parse().unwrap(); let e = c.loops.entry(n).or_default(); for o in &w[2..] { if *o == "owned" { e.owned = true } else if let Some(x) = o.strip_prefix("src=") { e.src = Some(x.into()) } else if let Some(x) = o.strip_prefix("elem=") { e.elem = Some(x.into()) } else if let Some(x) = o.strip_prefix("out=") { e.out = Some(x.into()) } else { panic!("{l}") } } at = At::Loop(n); }
                "closure" => { let n: usize = w[1].parse().unwrap(); let e = c.closures.entry(n).or_default(); let rest = d.splitn(3, ' ').nth(2).unwrap_or(""); let (p, r) = rest.split_once("->").unwrap_or((rest, "")); e.params = if p.trim().is_empty() { None } else { Some(p.trim().into()) }; e.ret = r.trim().into(); at = At::Closure(n); }
                "hint" => {
                    let k = |i: usize| w[i].parse::<usize>().unwrap();
                    let a = match w[1] { "entry" => Anchor::Entry, "exit" => Anchor::Exit, "loopstart" => Anchor::LoopStart(k(2)), "loopend" => Anchor::LoopEnd(k(2)), "beforeloop" => Anchor::BeforeLoop(k(2)), "afterloop" => Anchor::AfterLoop(k(2)), "before" => Anchor::Before(w[2].into(), k(3)), "after" => Anchor::After(w[2].into(), k(3)), _ => panic!("{l}") };
                    c.hints.push((a, String::new())); at = At::Hint(c.hints.len() - 1);
                }
                _ => panic!("{l}"),
            }
            continue;
        }
        let t = match at { At::Spec => &mut c.spec, At::Loop(n) => &mut c.loops.get_mut(&n).unwrap().text, At::Closure(n) => &mut c.closures.get_mut(&n).unwrap().text, At::Hint(n) => &mut c.hints[n].1 };
        t.push_str(l); t.push('\n');
    }
    c
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = std::path::Path::new(&a[1]);
    let mut c = Ctx { src: a[2].clone(), files: HashMap::new(), out: String::new(), map: vec![], g: Global::default(), dir: p.parent().unwrap().to_str().unwrap().into(), included: vec![], mode: Mode::Plain, bc: String::new(), subst: vec![], skip: std::env::var("SKIP").unwrap_or_default().lines().map(|l| l.to_string()).collect() };
    std::panic::set_hook(Box::new(|i| if !IN_FN.with(|f| f.get()) { eprintln!("{i}") }));
    c.group(p.file_name().unwrap().to_str().unwrap());
    c.out = c.out.replace("/*BROADCAST*/", &c.bc);
    fs::write(&a[3], &c.out).unwrap();
    fs::write(&a[4], format!("[{}]", c.map.join(",\n"))).unwrap();
}
