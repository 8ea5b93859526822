use crate::{Ctx, Res, Rng};
use crate::world::odd_text;
use classes::*;
use node_tree::prelude::*;
use node_tree::services::node_registry::{self, SFieldMap};
use node_tree::traits::node::NodeAbstract;
use node_tree::traits::registered::Registered;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use toml_edit::Value;

fn err<T>(m: impl Into<String>) -> Result<T, String> { Err(m.into()) }
macro_rules! eq { ($what:expr, $a:expr, $b:expr) => { { let (a, b) = (&$a, &$b); if a != b { return err(format!("{} is {:?} instead of {:?}", $what, a, b)); } } } }

// ---------------------------------------------------------------- C24
/// What the fields of an `All` hold: a field that may be void as an option.
#[derive(Clone, Debug, PartialEq)]
struct Held { plain: Option<u8>, preset: Option<i32>, tag: String, count: u32, level: u8, maybe: Option<i8>, score: u16, list: Vec<u8>, once: Option<u64>, spare: Option<i8> }
fn held(x: &All) -> Held {
    fn f<T: Clone>(f: &Field<T>) -> Option<T> { match f { Field::Valid(x) => Some(x.clone()), Field::Void => None } }
    fn u<T: Clone>(f: &UniqueField<T>) -> Option<T> { match f { UniqueField::Valid(x) => Some(x.clone()), UniqueField::Void => None } }
    Held { plain: f(&x.plain), preset: f(x.get_preset()), tag: (*x.tag).clone(), count: *x.count, level: x.get_level(), maybe: x.get_maybe(), score: *x.score, list: (*x.list).clone(), once: u(&x.once), spare: u(x.get_spare()) }
}
fn made(tag: &str, plain: u8) -> Held { Held { plain: Some(plain), preset: Some(5), tag: tag.into(), count: 9, level: 0, maybe: None, score: 0, list: vec![], once: Some(7), spare: Some(-3) } }
/// Changes some of the fields, in the node and in what it should hold.
fn change(x: &mut All, h: &mut Held, r: &mut Rng) {
    for k in 0..10 { if r.coin() { match k {
        0 => { let v = r.next() as u8; x.plain = Field::new(v); h.plain = Some(v); }
        1 => { let v = r.next() as i32; x.set_preset(v); h.preset = Some(v); }
        2 => { let v = odd_text(r); *x.tag = v.clone(); h.tag = v; }
        3 => { let v = r.next() as u32; *x.count = v; h.count = v; }
        4 => { let v = r.next() as u8; x.set_level(v); h.level = v; }
        5 => { let v = if r.coin() { Some(r.next() as i8) } else { None }; x.set_maybe(v); h.maybe = v; }
        6 => { let v = r.next() as u16; *x.score = v; h.score = v; }
        7 => { let v: Vec<u8> = (0..r.below(4)).map(|_| r.next() as u8).collect(); *x.list = v.clone(); h.list = v; }
        8 => { let v = r.next(); x.once = UniqueField::new(v); h.once = Some(v); }
        _ => { let _ = x.plain.take(); h.plain = None; }
    } } }
}
const EXPORTED: [&str; 4] = ["count", "level", "maybe", "tag"];
fn exported(h: &Held) -> BTreeMap<String, String> {
    fn t<T: Exportable>(x: T) -> String { x.to_value().to_string() }
    [("tag", t(h.tag.clone())), ("count", t(h.count)), ("level", t(h.level)), ("maybe", t(h.maybe))].into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}
/// The state that is saved: what is exported, by field.
fn saved(n: &dyn Node, fields: &[&str]) -> Result<(BTreeMap<String, String>, SFieldMap), String> {
    let (mut shown, mut map) = (BTreeMap::new(), SFieldMap::new());
    let all = n.save_from_owned();
    for (k, v) in all {
        if !fields.contains(&&*k) { return err(format!("the state has an entry {:?}", k)); }
        if !unsafe { v.is_ghost_export() } { let v = v.to_value(); shown.insert(k.to_string(), v.to_string()); map.insert(k, v); }
    }
    Ok((shown, map))
}
fn copy(m: &SFieldMap) -> SFieldMap { m.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn listen<T: Clone + 'static + std::fmt::Debug>(s: &Signal<T>) -> Rc<RefCell<Vec<String>>> { let seen = Rc::new(RefCell::new(vec![])); let k = seen.clone(); unsafe { s.connect(move |x| k.borrow_mut().push(format!("{:?}", x))); } seen }
const FIELDS: [&str; 13] = ["on_tick", "on_text", "on_hit", "plain", "preset", "tag", "count", "level", "score", "list", "maybe", "once", "spare"];
fn emits(x: &All, to: [usize; 3], seen: &[&Rc<RefCell<Vec<String>>>; 3], what: &str) -> Result<(), String> {
    let before: Vec<usize> = seen.iter().map(|s| s.borrow().len()).collect();
    x.on_tick.emit(()); x.text().emit(String::from("t")); x.on_hit.emit((1, 2, -3));
    for i in 0..3 { eq!(format!("{what}: the number of calls of a listener"), seen[i].borrow().len() - before[i], to[i]); }
    if to == [1, 1, 1] { for (i, e) in ["()", "\"t\"", "(1, 2, -3)"].iter().enumerate() { eq!(format!("{what}: what a listener gets"), seen[i].borrow().last().cloned().unwrap_or_default(), e.to_string()); } }
    Ok(())
}
/// A declaration of more.rs: construction, copies, saving, loading, hooks, the mode.
fn sample(x: &Sample, p: u8, s: &str, v: &Vec<u8>, o: Option<i8>, r: &mut Rng) -> Res {
    let kinds: Vec<char> = x.kinds.chars().collect();
    let (mut n, want) = (x.make)(p, s, v, o);
    eq!("a new node", (x.held)(&*n), Some(want.clone())); eq!("its name", n.name(), x.name);
    eq!("its type", n.name_as_type(), format!("classes::{}", x.name));
    let copied: Vec<String> = want.iter().zip(&kinds).map(|(w, k)| if *k == 'u' { "void".to_string() } else { w.clone() }).collect();
    eq!("a clone", (x.held)(&*n.clone_as_instance()), Some(copied)); eq!("the name of a clone", n.clone_as_instance().name().to_string(), x.name);
    let (shown, map) = saved(&*n, x.fields)?;
    let exported: Vec<&str> = x.fields.iter().zip(&kinds).filter(|(_, k)| "ex".contains(**k)).map(|(f, _)| *f).collect();
    let mut saved_keys: Vec<&str> = shown.keys().map(|k| &**k).collect(); saved_keys.sort(); let mut sorted = exported.clone(); sorted.sort();
    eq!("what is saved", saved_keys, sorted);
    eq!("the node after saving", (x.held)(&*n), Some(want.clone()));
    let ty = format!("classes::{}", x.name);
    let back: Vec<String> = (0..want.len()).map(|i| match kinds[i] { 'e' | 'x' | 's' => want[i].clone(), 'd' => x.zeros[i].to_string(), _ => "void".to_string() }).collect();
    let l = node_registry::deserialize(&ty, copy(&map))?; eq!("a loaded node", (x.held)(&*l), Some(back.clone())); eq!("the name of a loaded node", l.name(), x.name);
    let mut more = copy(&map); for f in x.fields { if !exported.contains(f) { more.insert((*f).into(), Value::from(3)); } } for f in ["nobody", "base", "_", ""] { if !x.fields.contains(&f) { more.insert(f.into(), Value::from("x")); } }
    let l = node_registry::deserialize(&ty, more)?; eq!("a node loaded with more entries", (x.held)(&*l), Some(back));
    if !exported.is_empty() { let f = exported[r.below(exported.len())];
        let mut m = copy(&map); let old = m.remove(f); let mut odd = copy(&m);
        if node_registry::deserialize(&ty, m).is_ok() { return err(format!("a state without {f} is loaded")); }
        odd.insert(format!("_{f}").into(), old.unwrap());
        if node_registry::deserialize(&ty, copy(&odd)).is_ok() && !exported.contains(&&*format!("_{f}")) { return err(format!("a state with _{f} for {f} is loaded")); }
        odd.insert(f.into(), Value::Array(toml_edit::Array::from_iter([Value::from(true), Value::from("x"), Value::from(2.5)])));
        if node_registry::deserialize(&ty, odd).is_ok() { return err(format!("a state with a wrong {f} is loaded")); }
    }
    calls();
    n.loaded(); n.ready(); n.process(0.5); n.terminal(TerminationReason::Freed);
    eq!("the hooks", calls(), x.hooks.iter().map(|h| format!("{} {h}", x.name)).collect::<Vec<_>>());
    eq!("the process mode", n.process_mode(), x.mode);
    Ok(true)
}
pub fn c24(c: &mut Ctx) {
    for i in 0..c.n(600, 6000) { if c.expired() { break; } let mut r = c.rng("more", i); let x = &SAMPLES[i as usize % SAMPLES.len()];
        let (p, s, v, o) = (r.next() as u8, odd_text(&mut r), (0..r.below(4)).map(|_| r.next() as u8).collect::<Vec<u8>>(), if r.coin() { Some(r.next() as i8) } else { None });
        c.case("more", i, || format!("{}: {p} {:?} {:?} {:?}", x.name, s, v, o), || sample(x, p, &s, &v, o, &mut r)); }
    fn one(tag: &str, plain: u8, r: &mut Rng) -> Res {
        calls();
        // Construction.
        let mut x = All::new(tag.to_string(), plain);
        let mut h = made(tag, plain);
        eq!("a new node", held(&x), h);
        eq!("the name of a new node", x.name(), "All");
        eq!("the name through the base", NodeAbstract::base(&x).name(), "All");
        eq!("the name of the type", x.name_as_type(), "classes::All");
        eq!("a constant", (All::K, All::hidden()), (4, 40));
        eq!("a function", x.doubled(), plain as u16 * 2);
        if !x.is_stray() { return err("a new node is not stray"); }
        // Signals of its own, that nothing listens to.
        let (a, b, d) = (listen(&x.on_tick), listen(x.text()), listen(&x.on_hit)); let seen = [&a, &b, &d];
        emits(&x, [1, 1, 1], &seen, "the node")?;
        let y = All::new(String::new(), 0); emits(&y, [0, 0, 0], &seen, "another node")?;
        // Access as a node.
        change(&mut x, &mut h, r);
        eq!("a changed node", held(&x), h);
        let at = &x as *const All as *const u8;
        if x.as_dyn() as *const dyn Node as *const u8 != at || x.as_dyn_raw() as *const u8 != at || x.as_dyn_mut() as *const dyn Node as *const u8 != at || x.as_dyn_raw_mut() as *const u8 != at { return err("as_dyn leads to another node"); }
        if x.as_any_ref().downcast_ref::<All>().map(|p| p as *const All as *const u8) != Some(at) || x.as_any_mut().downcast_mut::<All>().map(|p| p as *const All as *const u8) != Some(at) || x.as_any_ref().is::<Bare>() { return err("as_any leads to another node"); }
        x.set_name("renamed");
        eq!("the name after renaming", (x.name(), NodeAbstract::base(&x).name(), std::ops::Deref::deref(&x).name(), x.as_dyn().name()), ("renamed", "renamed", "renamed", "renamed"));
        NodeAbstract::base_mut(&mut x).set_name("again"); eq!("the name after renaming the base", x.name(), "again");
        // Copies.
        let mut want = h.clone(); want.once = None; want.spare = None;
        let mut k = x.clone();
        eq!("a clone", held(&k), want); eq!("the name of a clone", k.name(), "again");
        emits(&k, [0, 0, 0], &seen, "a clone")?;
        let inst = x.clone_as_instance(); let inst = inst.as_any_ref().downcast_ref::<All>().ok_or("clone_as_instance makes another type")?;
        eq!("a clone as an instance", held(inst), want); eq!("the name of a clone as an instance", inst.name(), "again");
        emits(inst, [0, 0, 0], &seen, "a clone as an instance")?;
        let mut wk = want.clone(); change(&mut k, &mut wk, r);
        eq!("the node after its clone was changed", held(&x), h); eq!("a changed clone", held(&k), wk);
        emits(&x, [1, 1, 1], &seen, "the node after it was cloned")?;
        // Saving and loading.
        let (shown, map) = saved(&x, &FIELDS)?;
        eq!("the saved state", shown, exported(&h));
        eq!("the node after saving", held(&x), h);
        let back = Held { plain: None, preset: None, score: 0, list: vec![], once: None, spare: None, ..h.clone() };
        let l = All::load_from_owned(copy(&map))?;
        eq!("the loaded node", held(&l), back); eq!("the name of a loaded node", l.name(), "All");
        emits(&l, [0, 0, 0], &seen, "the loaded node")?;
        let mut more = copy(&map); more.insert("nobody".into(), Value::from(3)); more.insert("plain".into(), Value::from(3)); more.insert("score".into(), Value::from(3)); more.insert("once".into(), Value::from(3));
        eq!("the node loaded with more entries", held(&All::load_from_owned(more)?), back);
        let d = node_registry::deserialize("classes::All", copy(&map))?; let d = d.as_any_ref().downcast_ref::<All>().ok_or("the registry makes another type")?;
        eq!("the node made by the registry", held(d), back);
        for f in EXPORTED {
            let mut m = copy(&map); m.remove(f);
            match All::load_from_owned(m) { Ok(_) => return err(format!("a state without {f} is loaded")), Err(e) => if !e.contains(f) { return err(format!("the message about the missing {f} is {:?}", e)); } }
            let mut m = copy(&map); m.insert(f.into(), Value::Array(toml_edit::Array::from_iter([Value::from(true), Value::from("x"), Value::from(2.5)])));
            match All::load_from_owned(m) { Ok(_) => return err(format!("a state with a wrong {f} is loaded")), Err(e) => if !e.contains(f) { return err(format!("the message about the wrong {f} is {:?}", e)); } }
        }
        // As a node of a tree: hooks and casts.
        let mut top = NodeScene::new({ let mut b = Bare::new(); b.set_name("top"); b }); x.set_name("kid"); let plain_now = h.plain; top.append(NodeScene::new(x)); top.append(NodeScene::new(Preset::new())); top.append(NodeScene::new_dyn(private(3, 4)));
        calls();
        let mut t = Grove::new(top, LoggerVerbosity::OnlyPanics);
        if t.extra != 3 { return err("the tree lost a field"); }
        let mut got = calls(); got.sort(); eq!("the hooks called when the tree is built", got, ["Preset high 1099511627777", "kid ready"]);
        t.process(); t.process(); eq!("the hooks called in two frames", calls(), ["kid process true", "kid process true"]);
        let rid = t.get_node_rid(NodePath::from_str("/top/kid"), None).ok_or("the node is not found")?;
        let n = t.root().get_node_dyn(NodePath::from_str("kid")).to_option().ok_or("the node is not found")?;
        if !n.is_of::<dyn Loud>() || !n.is_of::<dyn Tall>() || n.is_of::<dyn Odd>() || !n.is::<All>() || n.is::<Bare>() { return err("the node is castable to other traits than it extends"); }
        if let Some(p) = plain_now { let v = unsafe { TpDyn::new(t.as_dyn_raw_mut(), 0, rid) }.to_option().and_then(|n| n.cast::<dyn Tall>().to_option()).map(|n| n.tall()); eq!("a call through a cast", v, Some(p)); }
        let b = t.root().get_node_dyn(NodePath::from_str("../top")).to_option(); let _ = b;
        for (path, odd) in [("Preset", false), ("Private", true)] { let n = t.root().get_node_dyn(NodePath::from_str(path)).to_option().ok_or("a node is not found")?; if n.is_of::<dyn Loud>() || n.is_of::<dyn Tall>() || n.is_of::<dyn Odd>() != odd { return err(format!("{path} is castable to other traits than it extends")); } }
        if let Some(n) = t.get_node_mut(rid) { n.free(); } eq!("the hooks called when the node is freed", calls(), ["kid terminal Freed"]);
        if t.as_any().downcast_ref::<Grove>().is_none() || t.as_dyn().root().name() != "top" || NodeTree::base(&*t).get_log() != t.get_log() { return err("the tree is not the tree it was declared as"); }
        t.terminate(); eq!("the state of the tree", NodeTree::base(&*t).verif_status(), TreeStatus::Terminated);
        Ok(true)
    }
    for (i, (tag, plain)) in [("", 0), ("a", 1), ("x y", 255)].into_iter().enumerate() { let mut r = c.rng("fixed", i as u64); c.case("fixed", i as u64, || format!("All({:?}, {plain})", tag), || one(tag, plain, &mut r)); }
    for i in 0..c.n(6000, 60000) { if c.expired() { break; } let mut r = c.rng("random", i); let tag = odd_text(&mut r); let plain = r.next() as u8; c.case("random", i, || format!("All({:?}, {plain})", tag), || one(&tag, plain, &mut r)); }
    for i in 0..256u64 { c.case("others", i, || format!("Private({i}, {}), Preset, Bare", 255 - i), || {
        let (a, b) = (i as u8, 255 - i as u8);
        let p = private(a, b);
        eq!("a new node", private_fields(&*p), Some((a, Field::Valid(b)))); eq!("its name", p.name(), "Private");
        let (shown, map) = saved(&*p, &["a", "b"])?; eq!("its saved state", shown, BTreeMap::from([("a".to_string(), a.to_value().to_string())]));
        eq!("a clone", private_fields(&*p.clone_as_instance()), Some((a, Field::Valid(b))));
        eq!("a loaded node", private_fields(&*node_registry::deserialize("classes::Private", map)?), Some((a, Field::Void)));
        let mut x = Preset::new(); eq!("a new Preset", (*x.low, *x.high, *x.flag, (*x.word).clone()), (-7, 1 << 40, false, String::new()));
        *x.low = i as i64 - 128; *x.word = format!("w{i}"); *x.flag = true;
        let k = x.clone(); eq!("a cloned Preset", (*k.low, *k.high, *k.flag, (*k.word).clone()), (i as i64 - 128, 1 << 40, true, format!("w{i}")));
        let (_, map) = saved(&x, &["low", "high", "flag", "word"])?; eq!("the keys of its state", map.len(), 2);
        let l = Preset::load_from_owned(map)?; eq!("a loaded Preset", (*l.low, l.high.is_void(), *l.flag, (*l.word).clone()), (i as i64 - 128, true, false, format!("w{i}")));
        let e = Bare::new(); eq!("a new Bare", (e.name(), e.name_as_type(), e.save_from_owned().len()), ("Bare", "classes::Bare".to_string(), 0));
        Bare::load_from_owned(SFieldMap::new())?;
        if Private::unknown().is_ok() { return err("an unknown type is made by the registry"); }
        Ok(true)
    }); }
}
struct Private;
impl Private { fn unknown() -> Result<Box<dyn Node>, String> { node_registry::deserialize("classes::Nobody", SFieldMap::new()) } }

// ---------------------------------------------------------------- C25
/// A node of a scene as text: type, name, fields.
fn show(s: &NodeScene) -> String {
    let b = unsafe { s.get_node() };
    let a = b.as_any_ref();
    let f = if let Some(x) = a.downcast_ref::<All>() { format!("{:?}", held(x)) } else if let Some(x) = a.downcast_ref::<Preset>() { format!("{} {} {} {:?}", *x.low, *x.high, *x.flag, *x.word) } else { String::new() };
    let t = format!("{}:{:?}({f})", b.name_as_type().trim_start_matches("classes::"), b.name());
    std::mem::forget(b);
    format!("{}{t}[{}]", if s.is_owner { "*" } else { "" }, s.children().iter().map(show).collect::<Vec<_>>().join(", "))
}
fn bare(name: &str, kids: &str) -> String { format!("Bare:{:?}()[{kids}]", name) }
fn preset(name: &str, low: i64, high: u64, flag: bool, word: &str, kids: &str) -> String { format!("Preset:{:?}({low} {high} {flag} {:?})[{kids}]", name, word) }
fn all(name: &str, h: &Held, kids: &str) -> String { format!("All:{:?}({:?})[{kids}]", name, h) }
fn spots(s: &NodeScene, out: &mut Vec<usize>) { let b = unsafe { s.get_node() }; out.push(&*b as *const dyn Node as *const u8 as usize); std::mem::forget(b); for k in s.children() { spots(k, out); } }
pub fn c25(c: &mut Ctx) {
    for i in 0..c.n(2000, 20000) { if c.expired() { break; } let mut r = c.rng("scenes", i); let t = odd_text(&mut r); let p = r.next() as u8;
        c.case("scenes", i, || format!("text {:?}, number {p}", t), || {
            eq!("scene! {{ Bare }}", show(&one()), "*".to_string() + &bare("Bare", ""));
            eq!("a named scene", show(&named()), "*".to_string() + &bare("top", ""));
            let line = row(t.clone(), p);
            let want = "*".to_string() + &bare("row", &[all("a", &made(&t, p), ""), bare("Bare", ""), preset("c", -7, 1 << 40, false, "", "")].join(", "));
            eq!("a row", show(&line), want);
            let link = match r.below(3) { 0 => one(), 1 => line, _ => { let mut s = named(); s.append(row(t.clone(), p)); s.append(one()); s } };
            let before = show(&link); let inner = before[1..].replace("once: Some(7), spare: Some(-3)", "once: None, spare: None");
            let n = nest(&link);
            let root = Held { plain: Some(4), count: 11, ..made("root", 3) };
            let kids = [bare("x", &[preset("Preset", -8, 9, false, "", ""), inner.clone(), bare("Bare", &bare("deep", ""))].join(", ")), inner.clone(), preset("y", -7, 1 << 40, false, "w", ""), preset("z", -7, 1 << 40, true, "", &bare("zz", "")), all("All", &made("last", 1), &inner)].join(", ");
            eq!("a nested scene", show(&n), "*".to_string() + &all("root", &root, &kids));
            let kids = [inner.clone(), all("s", &made("s", p), &inner), "Private:\"Private\"()[]".to_string()].join(", ");
            eq!("a scene of variables called scene and node", show(&shadowed(&link, p)), "*".to_string() + &preset("Preset", -7, p as u64 + 1, false, "", &kids));
            eq!("the linked scene", show(&link), before);
            let mut at = vec![]; spots(&n, &mut at); spots(&link, &mut at); let m = at.len(); at.sort(); at.dedup(); eq!("the number of different nodes", at.len(), m);
            Ok(true)
        });
    }
    for i in 0..c.n(400, 4000) { if c.expired() { break; } let mut r = c.rng("more", i); let (name, scene, want) = SCENES[i as usize % SCENES.len()];
        let (p, s, o) = (if r.coin() { r.below(10) as u8 } else { r.next() as u8 }, odd_text(&mut r), if r.coin() { Some(r.next() as i8) } else { None });
        c.case("more", i, || format!("{name}: {p} {:?} {:?}", s, o), || {
            let link = match r.below(3) { 0 => one(), 1 => (SCENES[r.below(SCENES.len())].1)(p, &s, o, &one()), _ => (SCENES[0].1)(p, "", None, &named()) };
            let before = tell(&link);
            eq!("the scene", tell(&scene(p, &s, o, &link)), want(p, &s, o, &tell(&link.clone())));
            eq!("the linked scene", tell(&link), before);
            Ok(true)
        });
    }
    for i in 0..c.n(4000, 40000) { if c.expired() { break; } let mut r = c.rng("connect", i);
        let steps: Vec<(usize, usize, usize, u8)> = (0..2 + r.below(14)).map(|_| (r.below(9), r.below(4), r.below(4), r.next() as u8)).collect();
        c.case("connect", i, || format!("(what, from, to, value) {:?}", steps), || {
            calls();
            let mut s = NodeScene::new({ let mut e = Ear::new(); e.set_name("e0"); e });
            for k in 1..4 { s.append(NodeScene::new({ let mut e = Ear::new(); e.set_name(&format!("e{k}")); e })); }
            let mut t = Grove::new(s, LoggerVerbosity::OnlyPanics);
            let rids: Vec<RID> = (0..4).map(|k| t.get_node_rid(NodePath::from_str(&if k == 0 { "/e0".to_string() } else { format!("/e0/e{k}") }), None).unwrap()).collect();
            let raw = t.as_dyn_raw_mut();
            // The listeners of each node's signal, in order: who hears and whether once.
            let mut ears: Vec<Vec<(usize, bool)>> = vec![vec![]; 4];
            for &(what, from, to, v) in &steps {
                let tp = unsafe { Tp::<Ear>::new(raw, rids[from], rids[from]) }.to_option().unwrap();
                let target = unsafe { Tp::<Ear>::new(raw, rids[from], rids[to]) }.to_option().unwrap();
                let mut me = tp;
                match what {
                    0 | 1 => { me.listen(target); ears[from].push((to, false)); }
                    2 | 3 => { me.listen_once(target); ears[from].push((to, true)); }
                    _ => {
                        me.on_word.emit(v);
                        let mut want: Vec<String> = ears[from].iter().map(|(k, once)| format!("e{k} hears {v}{}", if *once { " once" } else { "" })).collect(); want.sort();
                        ears[from].retain(|x| !x.1);
                        let mut got = calls(); got.sort();
                        eq!("what is heard", got, want);
                    }
                }
                if what < 4 && !calls().is_empty() { return err("connecting called a listener"); }
            }
            Ok(steps.iter().any(|s| s.0 >= 4))
        });
    }
}
