use crate::world::*;
use crate::{Ctx, Res, Rng};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use node_tree::prelude::*;
use node_tree::traits::instanceable::Instanceable;

fn err<T>(m: impl Into<String>) -> Result<T, String> { Err(m.into()) }

class! {
    pub declare NC;
    pub export let s: String = "x".to_string();
    pub export let f: f64 = 0.5;
    pub export let b: bool = true;
    pub export let c: char = 'q';
    pub export let o: Option<u32> = Some(3);
    pub export let m: BTreeMap<String, Vec<i16>> = BTreeMap::new();
    pub export let t: (u8, String) = (1, "y".to_string());
    pub let hidden: u8 = 7;
}

class! {
    pub declare ND;
    pub export let metadata: u8 = 3;
}

// Field names near the names that the saved form uses itself.
class! {
    pub declare NE;
    pub export let metadata_size: u8 = 3;
    pub export let metadata2: String = "m".to_string();
    pub export let metadat: i8 = -1;
    pub export let the_metadata: u8 = 4;
    pub export let Metadata: u16 = 5;
    pub export let type_name: String = "t".to_string();
    pub export let is_owner: bool = false;
    pub export let parent: u32 = 9;
    pub export let children: Vec<u8> = vec![];
    pub export let name: String = "n".to_string();
    pub export let _x: u8 = 1;
    pub let metadata_: u8 = 7;
}

/// A scene as it can be observed.
#[derive(Clone, Debug, PartialEq)]
struct Rd { ty: String, name: String, owner: bool, fields: String, kids: Vec<Rd> }
fn fields_of(n: &dyn Node, exported_only: bool) -> String {
    let a = n.as_any_ref();
    if let Some(x) = a.downcast_ref::<NA>() { format!("{} {:?}{}", *x.uid, *x.text, if exported_only { String::new() } else { format!(" {}", *x.scratch) }) }
    else if let Some(x) = a.downcast_ref::<NB>() { format!("{} {} {:?}{}", *x.uid, *x.num, *x.list, if exported_only { String::new() } else { format!(" {}", *x.count) }) }
    else if let Some(x) = a.downcast_ref::<NC>() { format!("{:?} {:?} {} {:?} {:?} {:?} {:?}{}", *x.s, x.f.to_bits(), *x.b, *x.c, *x.o, *x.m, *x.t, if exported_only { String::new() } else { format!(" {}", *x.hidden) }) }
    else if let Some(x) = a.downcast_ref::<NE>() { format!("{} {} {} {} {} {} {} {} {:?} {} {}{}", *x.metadata_size, *x.metadata2, *x.metadat, *x.the_metadata, *x.Metadata, *x.type_name, *x.is_owner, *x.parent, *x.children, *x.name, *x._x, if exported_only { String::new() } else { format!(" {}", *x.metadata_) }) }
    else { "?".into() }
}
fn read(s: &NodeScene, exported_only: bool) -> Rd {
    let b = unsafe { s.get_node() };
    let r = (b.name_as_type(), b.name().to_string(), fields_of(&*b, exported_only));
    std::mem::forget(b);
    Rd { ty: r.0, name: r.1, owner: s.is_owner, fields: r.2, kids: s.children().iter().map(|k| read(k, exported_only)).collect() }
}
fn of_sp(sp: &Sp) -> Rd {
    let n = node(sp);
    Rd { ty: n.name_as_type(), name: sp.name.clone(), owner: sp.owner, fields: fields_of(&*n, false), kids: sp.kids.iter().map(of_sp).collect() }
}
fn with_node<R>(s: &NodeScene, f: impl FnOnce(&mut dyn Node) -> R) -> R {
    let mut b = unsafe { s.get_node() };
    let r = f(&mut *b);
    std::mem::forget(b); r
}
fn same(what: &str, got: &Rd, want: &Rd) -> Result<(), String> { if got == want { Ok(()) } else { err(format!("{what}: {:?} instead of {:?}", got, want)) } }

const WILD: &[&str] = &["a", "b_1", "a_b_c", "_", "1", "x_", "with space", "é日", "q\"uote", "dot.ted", "br[ack]et", "line\nbreak", "#hash", "", "a=b", "back\\slash", "metadata"];

/// Shapes with all attribute choices for small sizes.
fn small(max: usize, names: &[&str]) -> Vec<Sp> {
    let mut v = vec![];
    for n in 1..=max { for sh in shapes(n) { for at in 0..4usize.pow(n as u32) {
        v.push(of_shape(&sh, &mut |i| { let a = at / 4usize.pow(i as u32) % 4; ((a & 1) as u8, names[i % names.len()].to_string(), a & 2 != 0) }));
    } } }
    v
}

// ---------------------------------------------------------------- C15
fn round_trip(s: &NodeScene, nodes: usize) -> Result<NodeScene, String> {
    let before = read(s, true);
    let text = s.save_to_str()?;
    same("saving changed the scene", &read(s, true), &before)?;
    let doc: toml_edit::DocumentMut = text.parse().map_err(|e| format!("saved text is no TOML: {e}"))?;
    if doc.iter().count() != nodes { return err(format!("{} keys for {} nodes in {:?}", doc.iter().count(), nodes, text)); }
    let l = NodeScene::load_from_str(&text).map_err(|e| format!("loading fails: {e} for {:?}", text))?;
    same("loaded scene", &read(&l, true), &before)?;
    let text2 = l.save_to_str()?;
    let l2 = NodeScene::load_from_str(&text2).map_err(|e| format!("loading again fails: {e}"))?;
    same("scene loaded twice", &read(&l2, true), &before)?;
    Ok(l)
}
fn rand_str(r: &mut Rng) -> String { let p = ['a', 'Z', '0', '_', ' ', '"', '\\', '\n', '\t', '\'', '#', '=', '.', '[', ']', 'é', '日', '😀', '\u{1}', '\r', '\u{7f}']; (0..r.below(6)).map(|_| *r.pick(&p)).collect() }
fn randomize(s: &NodeScene, r: &mut Rng) {
    with_node(s, |n| {
        let a = n.as_any_mut();
        if let Some(x) = a.downcast_mut::<NA>() { *x.text = rand_str(r); *x.uid = r.next() >> r.below(60); *x.scratch = r.next() as i32; }
        else if let Some(x) = a.downcast_mut::<NB>() { *x.num = r.next() as i8; *x.list = (0..r.below(5)).map(|_| r.next() as u8).collect(); *x.uid = r.next() >> 32; }
        else if let Some(x) = a.downcast_mut::<NC>() {
            *x.s = rand_str(r); *x.f = *r.pick(&[0.0, -0.0, 1.5, 1e300, -1e-300, f64::INFINITY, f64::MIN_POSITIVE, 123456789.125]); *x.b = r.coin(); *x.c = *r.pick(&['a', '"', '\\', 'é', '😀', '\n', '\u{0}']);
            *x.o = if r.coin() { None } else { Some(r.next() as u32) };
            *x.m = (0..r.below(3)).map(|_| (rand_str(r), (0..r.below(3)).map(|_| r.next() as i16).collect())).collect();
            *x.t = (r.next() as u8, rand_str(r));
        }
        else if let Some(x) = a.downcast_mut::<NE>() {
            *x.metadata_size = r.next() as u8; *x.metadata2 = rand_str(r); *x.metadat = r.next() as i8; *x.the_metadata = r.next() as u8; *x.Metadata = r.next() as u16; *x.type_name = rand_str(r);
            *x.is_owner = r.coin(); *x.parent = r.next() as u32; *x.children = (0..r.below(4)).map(|_| r.next() as u8).collect(); *x.name = rand_str(r); *x._x = r.next() as u8;
        }
    });
    for k in s.children() { randomize(k, r); }
}
pub fn wild_scene(r: &mut Rng, n: usize) -> NodeScene {
    fn build(i: usize, par: &[usize], r: &mut Rng) -> NodeScene {
        let mut b: Box<dyn Node> = match r.below(4) { 0 => Box::new(NA::new(i as u64)), 1 => Box::new(NB::new(i as u64)), 2 => Box::new(NE::new()), _ => Box::new(NC::new()) };
        let name = if r.coin() { r.pick(WILD).to_string() } else { rand_str(r) };
        unsafe { b.set_name_unchecked(&name) };
        let mut s = NodeScene::new_dyn(b); s.is_owner = r.coin();
        for j in (0..par.len()).filter(|&j| par[j] == i) { let k = build(j, par, r); if r.coin() { s.append(k) } else { s.append_as_owner(k) } }
        s
    }
    let mut par = vec![usize::MAX]; for i in 1..n { par.push(if r.one_in(3) { i - 1 } else { r.below(i) }); }
    let s = build(0, &par, r); randomize(&s, r); s
}
fn count(s: &NodeScene) -> usize { 1 + s.children().iter().map(count).sum::<usize>() }

pub fn c15(c: &mut Ctx) {
    for (i, sp) in small(4, &["r", "a_b", "c", "d_1"]).into_iter().enumerate() { if c.expired() { break; }
        c.case("small", i as u64, || sp.show(), || {
            reset();
            let l = round_trip(&scene(&sp), sp.size())?;
            let w = World::of(l, &sp, false)?; w.check_links()?;
            Ok(sp.size() > 1)
        });
    }
    for (i, n) in WILD.iter().enumerate() { c.case("name", i as u64, || format!("{:?}", n), || {
        let sp = Sp { ty: 0, uid: 1, name: "r".into(), owner: true, kids: vec![Sp { ty: 1, uid: 2, name: n.to_string(), owner: false, kids: vec![] }, Sp { ty: 1, uid: 3, name: n.to_string(), owner: true, kids: vec![] }] };
        round_trip(&scene(&sp), 3)?;
        let sp = Sp { ty: 0, uid: 1, name: n.to_string(), owner: true, kids: vec![] };
        round_trip(&scene(&sp), 1)?;
        Ok(true)
    }); }
    for i in 0..c.n(1500, 40000) { if c.expired() { break; } let mut r = c.rng("random", i); let big = r.one_in(10); let n = 1 + r.below(if big { 40 } else { 8 });
        c.case("random", i, || format!("random scene of {n} nodes"), || { let s = wild_scene(&mut r, n); crate::note(&format!("{:?}", read(&s, true))); round_trip(&s, count(&s))?; Ok(n > 1) });
    }
    // Large scenes: more nodes than a byte counts, in a row and in a chain.
    fn chain(u: u64, deep: usize) -> Sp { Sp { ty: (u % 2) as u8, uid: u, name: format!("k{u}x"), owner: u % 3 == 0, kids: if deep == 0 { vec![] } else { vec![chain(u + 1000, deep - 1)] } } }
    for (i, (wide, deep)) in [(300usize, 2usize), (70, 4), (2, 40)].into_iter().enumerate() { c.case("large", i as u64, || format!("{wide} children, the last two with chains of {deep} below"), || {
        let mut root = chain(1, 0); for k in 0..wide { root.kids.push(chain(2 + k as u64, if k + 2 >= wide { deep } else { 0 })); }
        round_trip(&scene(&root), root.size())?; Ok(true) }); }
    // A scene that was composed of a loaded scene and a new one.
    for i in 0..c.n(300, 5000) { if c.expired() { break; } let mut r = c.rng("composed", i); let (n, m) = (1 + r.below(5), 1 + r.below(5));
        c.case("composed", i, || format!("{n} loaded + {m} new nodes"), || {
            let a = wild_scene(&mut r, n); let la = round_trip(&a, count(&a))?;
            let mut b = wild_scene(&mut r, m); if r.coin() { b.append(la) } else { b.append_as_owner(la) }
            round_trip(&b, n + m)?; let cl = b.clone(); round_trip(&cl, n + m)?; Ok(true) });
    }
    // Through files, in a directory of their own.
    struct Scratch(std::path::PathBuf);
    impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    for i in 0..c.n(60, 600) { if c.expired() { break; } let mut r = c.rng("file", i); let n = 1 + r.below(6); let name = ["s", "a b", "x.y", "scene.scn", "日", ".hidden"][i as usize % 6];
        c.case("file", i, || format!("random scene of {n} nodes in a file named {name:?}"), || {
            let dir = Scratch(std::env::temp_dir().join(format!("node_tree_replay_{}_{i}", std::process::id())));
            std::fs::create_dir_all(&dir.0).map_err(|e| e.to_string())?;
            let file = dir.0.join(format!("{name}.scn"));
            if NodeScene::load(&file).is_ok() { return err("a file that does not exist was loaded"); }
            for k in [n + 4, n] { // The second one is shorter and replaces the first one.
                let s = wild_scene(&mut r, k); let before = read(&s, true); let text = s.save_to_str()?;
                s.save(&dir.0, name).map_err(|e| format!("saving fails: {e}"))?;
                same("saving changed the scene", &read(&s, true), &before)?;
                let t = std::fs::read_to_string(&file).map_err(|e| format!("the file cannot be read: {e}"))?; if t.len() != text.len() { return err("the file does not hold the saved text"); }
                let l = NodeScene::load(&file).map_err(|e| format!("loading fails: {e}"))?;
                same("scene loaded from a file", &read(&l, true), &before)?;
            }
            if std::fs::read_dir(&dir.0).map_err(|e| e.to_string())?.count() != 1 { return err("more than one file"); }
            for bad in ["s.toml", "s", "s.scn.bak", "s.SCN", "scn"] { let f = dir.0.join(bad); std::fs::copy(&file, &f).map_err(|e| e.to_string())?; if NodeScene::load(&f).is_ok() { return err(format!("a file named {bad} was loaded")); } }
            let f = dir.0.join("bytes.scn"); std::fs::write(&f, [b'a', 0xff, 0xfe]).map_err(|e| e.to_string())?; if NodeScene::load(&f).is_ok() { return err("a file that is no text was loaded"); }
            std::fs::write(&f, "a = ").map_err(|e| e.to_string())?; if NodeScene::load(&f).is_ok() { return err("a malformed file was loaded"); }
            if wild_scene(&mut r, 1).save(&dir.0.join("missing"), name).is_ok() { return err("saved into a directory that does not exist"); }
            Ok(true) });
    }
    c.case("field", 0, || "a node type with an exported field named metadata".into(), || { let s = NodeScene::new(ND::new()); let t = s.save_to_str()?; NodeScene::load_from_str(&t)?; Ok(true) });
    // Malformed text.
    let good = scene(&Sp { ty: 0, uid: 1, name: "r".into(), owner: true, kids: vec![Sp { ty: 1, uid: 2, name: "k".into(), owner: false, kids: vec![] }] }).save_to_str().unwrap();
    let edits: Vec<(&str, Box<dyn Fn(&str) -> String>)> = vec![
        ("empty", Box::new(|_| String::new())),
        ("no TOML", Box::new(|g| g.to_string() + "\n[[")),
        ("unclosed string", Box::new(|g| g.replace("\"t1\"", "\"t1"))),
        ("unknown type", Box::new(|g| g.replace("::NB", "::Nope"))),
        ("unknown root type", Box::new(|g| g.replace("::NA", "::Nope"))),
        ("no metadata", Box::new(|g| g.lines().filter(|l| !l.contains("::NB")).collect::<Vec<_>>().join("\n"))),
        ("metadata no table", Box::new(|g| g.lines().map(|l| if l.contains("::NB") { "metadata = 1" } else { l }).collect::<Vec<_>>().join("\n"))),
        ("no type name", Box::new(|g| g.replace("type_name", "kind"))),
        ("type name no string", Box::new(|g| g.lines().map(|l| if l.contains("::NB") { "metadata = { type_name = 1, is_owner = false, parent = 0 }" } else { l }).collect::<Vec<_>>().join("\n"))),
        ("no ownership", Box::new(|g| g.replace("is_owner", "is_own"))),
        ("ownership no boolean", Box::new(|g| g.replace("is_owner = false", "is_owner = 0"))),
        ("no parent", Box::new(|g| g.replace(", parent = 0", ""))),
        ("parent no number", Box::new(|g| g.replace("parent = 0", "parent = \"0\""))),
        ("missing parent", Box::new(|g| g.replace("parent = 0", "parent = 7"))),
        ("negative parent", Box::new(|g| g.replace("parent = 0", "parent = -1"))),
        ("missing field", Box::new(|g| g.lines().filter(|l| !l.starts_with("num")).collect::<Vec<_>>().join("\n"))),
        ("field of another type", Box::new(|g| g.lines().map(|l| if l.starts_with("num") { "num = \"x\"" } else { l }).collect::<Vec<_>>().join("\n"))),
        ("field out of range", Box::new(|g| g.lines().map(|l| if l.starts_with("num") { "num = 300" } else { l }).collect::<Vec<_>>().join("\n"))),
        ("list element out of range", Box::new(|g| g.lines().map(|l| if l.starts_with("list") { "list = [1, 256]" } else { l }).collect::<Vec<_>>().join("\n"))),
        ("field is a table", Box::new(|g| g.to_string() + "\n[k_1.num2]\nx = 1\n")),
        ("key without id", Box::new(|g| g.replace("[k_1]", "[k]"))),
        ("key with bad id", Box::new(|g| g.replace("[k_1]", "[k_x]"))),
        ("key with negative id", Box::new(|g| g.replace("[k_1]", "[\"k_-1\"]"))),
        ("node no table", Box::new(|g| format!("z_5 = 1\n{g}"))),
    ];
    for (i, (name, f)) in edits.iter().enumerate() { let t = f(&good);
        c.case("malformed", i as u64, || format!("{name}: {:?}", t), || { if t == good { return err("the edit changed nothing"); } if NodeScene::load_from_str(&t).is_ok() { return err("malformed text was loaded"); } Ok(true) });
    }
    for i in 0..c.n(3000, 60000) { if c.expired() { break; } let mut r = c.rng("mutated", i); let n = 1 + r.below(4);
        c.case("mutated", i, || format!("mutated text of a scene of {n} nodes"), || {
            let s = wild_scene(&mut r, n);
            let t = s.save_to_str()?; let mut ch: Vec<char> = t.chars().collect();
            for _ in 0..1 + r.below(3) { let p = r.below(ch.len()); match r.below(4) { 0 => { ch.remove(p); } 1 => ch.insert(p, *r.pick(&['0', '-', '"', '=', '[', ']', '_', '9', '{', '\n', '.'])), 2 => { let q = r.below(ch.len()); ch.swap(p, q); } _ => { let q = (p + r.below(40)).min(ch.len()); ch.drain(p..q); } } if ch.is_empty() { break; } }
            let t: String = ch.into_iter().collect(); crate::note(&format!("{:?}", t));
            let _ = NodeScene::load_from_str(&t); Ok(true) });
    }
}

// ---------------------------------------------------------------- C16
#[derive(Clone, Debug, PartialEq)]
struct Visit { parent: Option<u64>, uid: u64, owner: bool, loaded: bool }
fn visits(s: NodeScene) -> Vec<Visit> {
    let mut v = vec![];
    s.iterate(|p, n, o| unsafe { v.push(Visit { parent: p.map(|p| uid(&*p)), uid: uid(&*n), owner: o, loaded: (*n).has_just_loaded() }) });
    v
}
fn expected(sp: &Sp) -> Vec<Visit> {
    fn go(sp: &Sp, p: Option<u64>, out: &mut Vec<Visit>) { out.push(Visit { parent: p, uid: sp.uid, owner: sp.owner, loaded: false }); for k in &sp.kids { go(k, Some(sp.uid), out); } }
    let mut v = vec![]; go(sp, None, &mut v); v
}
/// Scenes with many children below one node.
fn wide() -> Vec<Sp> {
    let leaves = |n: usize| (0..n).map(|i| Sp { ty: 0, uid: 10 + i as u64, name: format!("l{i}"), owner: false, kids: vec![] }).collect::<Vec<_>>();
    let node = |uid: u64, kids: Vec<Sp>| Sp { ty: 0, uid, name: "x".into(), owner: uid == 1, kids };
    [255usize, 256, 257, 258, 512].iter().flat_map(|&n| [node(1, leaves(n)), node(1, vec![node(2, leaves(n))])]).collect()
}
pub fn c16(c: &mut Ctx) {
    fn one(sp: &Sp, r: &mut Rng) -> Res {
        reset();
        let s = scene(sp);
        same("scene", &read(&s, false), &of_sp(sp))?;
        // A clone equals the original and shares nothing with it.
        let cl = s.clone();
        same("clone", &read(&cl, false), &of_sp(sp))?;
        let mut ptrs = vec![]; fn coll(s: &NodeScene, out: &mut Vec<usize>) { with_node(s, |n| out.push(n as *const dyn Node as *const u8 as usize)); for k in s.children() { coll(k, out); } }
        coll(&s, &mut ptrs); coll(&cl, &mut ptrs); let n = ptrs.len(); ptrs.sort(); ptrs.dedup();
        if ptrs.len() != n { return err("the clone shares a node with the original"); }
        let keep = read(&s, false);
        let mut edited = cl.clone(); randomize(&edited, r); edited.append(scene(&Sp { ty: 0, uid: 9999, name: "z".into(), owner: true, kids: vec![] })); edited.is_owner = !edited.is_owner;
        same("original after its clone was changed", &read(&s, false), &keep)?;
        same("clone after its clone was changed", &read(&cl, false), &keep)?;
        // Appending sets only the flag of the appended root.
        for own in [false, true] {
            let mut host = scene(&Sp { ty: 1, uid: 5000, name: "host".into(), owner: r.coin(), kids: vec![] });
            let first = scene(&Sp { ty: 1, uid: 5001, name: "first".into(), owner: true, kids: vec![] });
            host.append(first);
            let mut want = read(&host, false); let mut k = keep.clone(); k.owner = own; want.kids.push(k);
            if own { host.append_as_owner(s.clone()) } else { host.append(s.clone()) }
            same(if own { "append_as_owner" } else { "append" }, &read(&host, false), &want)?;
            let v = visits(host);
            let tail: Vec<Visit> = { let mut e = expected(sp); e[0].owner = own; e[0].parent = Some(5000); e };
            if v.len() != 2 + tail.len() || v[2..] != tail[..] || v[0].parent.is_some() || v[1].owner { return err(format!("instancing the host visits {:?}", v)); }
        }
        // Instancing.
        let v = visits(cl);
        if v != expected(sp) { return err(format!("instancing visits {:?} instead of {:?}", v, expected(sp))); }
        // A loaded scene is instanced in the same way.
        let text = s.save_to_str()?;
        for how in 0..2 {
            let l = NodeScene::load_from_str(&text)?; let l = if how == 0 { l } else { l.clone() };
            let mut e = expected(sp); for x in &mut e { x.loaded = true; }
            let v = visits(l);
            if v != e { return err(format!("instancing the loaded scene visits {:?} instead of {:?}", v, e)); }
        }
        // Adding to a tree.
        let w = World::of(s, sp, false)?; w.check_links()?;
        for i in w.alive() {
            let kids: Vec<u64> = w.node_ref(i)?.children().iter().map(|k| uid(k.get())).collect();
            let e: Vec<u64> = sp.list().iter().find(|x| x.uid == w.m[i].uid).unwrap().kids.iter().map(|k| k.uid).collect();
            if kids != e { return err(format!("children of {} are {:?} instead of {:?}", w.m[i].uid, kids, e)); }
        }
        Ok(sp.size() > 1)
    }
    for (i, sp) in small(4, &["r", "a", "b", "c"]).into_iter().enumerate() { if c.expired() { break; } let mut r = c.rng("small", i as u64); c.case("small", i as u64, || sp.show(), || one(&sp, &mut r)); }
    for i in 0..c.n(800, 20000) { if c.expired() { break; } let mut r = c.rng("random", i); let n = 2 + r.below(20); let mut u = 1;
        let sp = random_sp(&mut r, n, WILD, &mut u); c.case("random", i, || sp.show(), || one(&sp, &mut r)); }
    for (i, sp) in wide().into_iter().enumerate() { let mut r = c.rng("wide", i as u64); c.case("wide", i as u64, || format!("a root with {} children, the first with {}", sp.kids.len(), sp.kids[0].kids.len()), || one(&sp, &mut r)); }
    for i in 0..c.n(50, 1000) { c.case("single", i, || format!("single node {i}"), || {
        let mut v = vec![]; NA::new(i).iterate(|p, n, _| unsafe { v.push((p.is_none(), uid(&*n))); });
        if v != vec![(true, i)] { return err(format!("a node instances as {:?}", v)); } Ok(true) }); }
}

// ---------------------------------------------------------------- C17
fn ready_events(ev: &[Ev], sp: &Sp, loaded: bool, parents_total: Option<usize>) -> Result<(), String> {
    let mut at = HashMap::new();
    for (i, e) in ev.iter().enumerate() { match e {
        Ev::Ready(u, n) => {
            if at.insert(*u, i).is_some() { return err(format!("node {u} was readied twice")); }
            if let Some(t) = parents_total { if *n != t { return err(format!("node {u} was readied when {n} of {t} nodes were attached")); } }
            let before = i > 0 && ev[i - 1] == Ev::Loaded(*u);
            if before != loaded { return err(format!("node {u}: loaded directly before ready is {before}")); }
        }
        Ev::Loaded(u) => { if !loaded || !matches!(ev.get(i + 1), Some(Ev::Ready(v, _)) if v == u) { return err(format!("stray loaded call of node {u}")); } }
        e => return err(format!("unexpected call {:?}", e)),
    } }
    let l = sp.list();
    if at.len() != l.len() { return err(format!("{} of {} nodes were readied", at.len(), l.len())); }
    for s in l { let me = *at.get(&s.uid).ok_or_else(|| format!("node {} was not readied", s.uid))?;
        if parents_total.is_some() { for d in s.list() { if d.uid != s.uid && at[&d.uid] > me { return err(format!("node {} was readied before its descendant {}", s.uid, d.uid)); } } } }
    Ok(())
}
pub fn c17(c: &mut Ctx) {
    fn one(sp: &Sp, extra: &Sp, r: &mut Rng) -> Res {
        for loaded in [false, true] {
            reset(); S.with(|s| s.borrow_mut().count = true);
            let mk = |sp: &Sp| -> Result<NodeScene, String> { let s = scene(sp); if loaded { let l = NodeScene::load_from_str(&s.save_to_str()?)?; Ok(if sp.uid % 2 == 0 { l.clone() } else { l }) } else { Ok(s) } };
            let s = mk(sp)?; events();
            let mut w = World::of(s, sp, false)?;
            ready_events(&events(), sp, loaded, Some(sp.size())).map_err(|e| format!("build (loaded: {loaded}): {e}"))?;
            for _ in 0..2 { w.tree.process(); }
            if events().iter().any(|e| !matches!(e, Ev::Process(..))) { return err("ready or loaded called again in a frame"); }
            let al = w.alive(); let p = *r.pick(&al);
            let s2 = mk(extra)?; events();
            w.node(p)?.add_child(s2); 
            ready_events(&events(), extra, loaded, None).map_err(|e| format!("added scene (loaded: {loaded}): {e}"))?;
            fn marked(w: &World) -> Result<(), String> { let t: &dyn NodeTree = &*w.tree; for r in t.root().top_down(true) { if t.get_node(r).map(|n| n.has_just_loaded()).unwrap_or(false) { return err(format!("the node with id {r} still counts as just loaded after it was readied")); } } Ok(()) }
            marked(&w)?;
            w.node(p)?.add_child(NA::new(777));
            let ev = events(); if !matches!(ev[..], [Ev::Ready(777, _)]) { return err(format!("added node: {:?}", ev)); }
            w.tree.process();
            if events().iter().any(|e| !matches!(e, Ev::Process(..))) { return err("ready or loaded called again in a frame"); }
        }
        // A loaded branch in a new scene and the other way around.
        for inner_loaded in [false, true] {
            reset();
            let ld = |s: NodeScene| -> Result<NodeScene, String> { NodeScene::load_from_str(&s.save_to_str()?) };
            let (a, b) = (scene(sp), scene(extra));
            let (mut outer, inner) = if inner_loaded { (a, ld(b)?) } else { (ld(a)?, b) };
            if r.coin() { outer.append(inner) } else { outer.append_as_owner(inner) }
            events();
            let _t = node_tree::trees::TreeSimple::new(outer, LoggerVerbosity::OnlyPanics);
            let ev = events();
            let mut both = sp.clone(); both.kids.push(extra.clone());
            for x in both.list() {
                let is_loaded = extra.list().iter().any(|e| e.uid == x.uid) == inner_loaded;
                let nr = ev.iter().filter(|e| matches!(e, Ev::Ready(u, _) if *u == x.uid)).count();
                let nl = ev.iter().filter(|e| **e == Ev::Loaded(x.uid)).count();
                if nr != 1 || nl != is_loaded as usize { return err(format!("mixed scene: node {} has {} ready and {} loaded calls", x.uid, nr, nl)); }
                if is_loaded { let i = ev.iter().position(|e| *e == Ev::Loaded(x.uid)).unwrap(); if !matches!(ev[i + 1], Ev::Ready(u, _) if u == x.uid) { return err(format!("mixed scene: node {} not readied directly after loaded", x.uid)); } }
            }
        }
        Ok(sp.size() > 1)
    }
    let ex = |i: usize| { let sh = shapes(1 + i % 3); let s = &sh[i % sh.len()]; let mut e = of_shape(s, &mut |k| ((k % 2) as u8, format!("x{k}"), k % 2 == 1)); fn re(s: &mut Sp) { s.uid += 400; for k in &mut s.kids { re(k); } } re(&mut e); e };
    for (i, sp) in small(4, &["r", "a", "b", "c"]).into_iter().enumerate() { if c.expired() { break; } let e = ex(i); let mut r = c.rng("small", i as u64); c.case("small", i as u64, || format!("{} + {}", sp.show(), e.show()), || one(&sp, &e, &mut r)); }
    for i in 0..c.n(500, 15000) { if c.expired() { break; } let mut r = c.rng("random", i); let mut u = 1; let (n, m) = (2 + r.below(20), 1 + r.below(8));
        let (sp, e) = (random_sp(&mut r, n, NAMES, &mut u), random_sp(&mut r, m, NAMES, &mut u));
        c.case("random", i, || format!("{} + {}", sp.show(), e.show()), || one(&sp, &e, &mut r)); }
    // Nodes freed while the tree is being readied: the others still get exactly one call.
    for i in 0..c.n(600, 10000) { if c.expired() { break; } let mut r = c.rng("removal", i); let mut u = 1; let n = 3 + r.below(8);
        let sp = random_sp(&mut r, n, NAMES, &mut u); let by = 1 + r.below(n) as u64; let victim = 1 + r.below(n - 1) as u64;
        c.case("removal", i, || format!("{}: ready of {by} frees id {victim}", sp.show()), || {
            // Ids are given out in preorder.
            let list: Vec<Sp> = sp.list().into_iter().cloned().collect();
            let v = &list[victim as usize];
            reset(); S.with(|s| { s.borrow_mut().acts.insert((by, Hk::Ready), vec![Act::Free(victim)]); });
            if v.list().iter().any(|d| d.uid == by) { return Ok(false); } // It would free itself while it runs.
            let t = node_tree::trees::TreeSimple::new(scene(&sp), LoggerVerbosity::OnlyPanics);
            if t.get_node(victim).is_some() { return err("the freed node is known"); }
            let ev = events();
            let rank = |u: u64| ev.iter().position(|e| matches!(e, Ev::Ready(x, _) if *x == u));
            let gone: Vec<u64> = v.list().iter().map(|d| d.uid).collect();
            let removed_at = rank(by).ok_or("the freeing node was not readied")?;
            for x in &list {
                let k = ev.iter().filter(|e| matches!(e, Ev::Ready(u, _) if *u == x.uid)).count();
                if gone.contains(&x.uid) { if k > 1 || rank(x.uid).map(|p| p > removed_at).unwrap_or(false) { return err(format!("node {} was readied after it was freed", x.uid)); } }
                else if k != 1 { return err(format!("node {} was readied {k} times", x.uid)); }
            }
            Ok(true) });
    }
}

// ---------------------------------------------------------------- C19
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); } }
fn fed(s: &NodeScene) -> Vec<u8> { let mut r = Rec::default(); s.hash(&mut r); r.0 }
fn key(sp: &Sp) -> String { format!("{}{}[{}]", if sp.owner { "*" } else { "" }, sp.ty, sp.kids.iter().map(key).collect::<String>()) }
pub fn c19(c: &mut Ctx) {
    let mut seen: HashMap<Vec<u8>, (String, u64, String)> = HashMap::new();
    let mut bykey: HashMap<String, (Vec<u8>, u64)> = HashMap::new();
    let mut one = |sp: &Sp, r: &mut Rng| -> Res {
        let s = scene(sp); randomize(&s, r);
        let before = read(&s, false);
        let (d, hsh) = (fed(&s), s.structural_hash());
        same("hashing changed the scene", &read(&s, false), &before)?;
        if fed(&s) != d || s.structural_hash() != hsh { return err("hashing twice differs"); }
        let k = key(sp);
        if let Some((k2, h2, show)) = seen.get(&d) { if *k2 != k { return err(format!("feeds the hasher the same data as {show}")); } if *h2 != hsh { return err(format!("hash differs from that of {show}")); } }
        if let Some((d2, h2)) = bykey.get(&k) { if *d2 != d || *h2 != hsh { return err("another scene with the same types, ownership and shape hashes differently"); } }
        let cl = s.clone(); if cl.structural_hash() != hsh || fed(&cl) != d { return err("a clone hashes differently"); }
        let l = NodeScene::load_from_str(&s.save_to_str()?)?; if l.structural_hash() != hsh { return err("the scene hashes differently after saving and loading"); }
        seen.insert(d.clone(), (k.clone(), hsh, sp.show())); bykey.insert(k, (d, hsh));
        Ok(sp.size() > 1)
    };
    let mut idx = 0;
    for (names, max) in [(&["r", "a", "b", "c"][..], 4), (&["", "z9", "a", "q", "é"][..], 3)] { for sp in small(max, names) { if c.expired() { break; }
        let i = idx; idx += 1; let mut r = c.rng("small", i); c.case("small", i, || sp.show(), || one(&sp, &mut r)); } }
    for (i, sp) in wide().into_iter().enumerate() { let mut r = c.rng("wide", i as u64); c.case("wide", i as u64, || format!("a root with {} children, the first with {}", sp.kids.len(), sp.kids[0].kids.len()), || one(&sp, &mut r)); }
    for i in 0..c.n(600, 20000) { if c.expired() { break; } let mut r = c.rng("random", i); let n = 3 + r.below(12); let mut u = 1;
        let sp = random_sp(&mut r, n, NAMES, &mut u);
        // The scene, itself with other names, and one small change of it.
        let mut renamed = sp.clone(); renamed.name = "other".into();
        let mut ch = sp.clone(); { let k = r.below(n); fn edit(s: &mut Sp, k: &mut isize, how: usize) { if *k == 0 { match how { 0 => s.ty ^= 1, 1 => s.owner = !s.owner, 2 => s.kids.reverse(), _ => { s.kids.pop(); } } } *k -= 1; for x in &mut s.kids { edit(x, k, how); } } edit(&mut ch, &mut (k as isize), r.below(4)); }
        for (j, x) in [sp, renamed, ch].into_iter().enumerate() { c.case("random", i * 3 + j as u64, || x.show(), || one(&x, &mut r)); }
    }
}

// ---------------------------------------------------------------- C20
pub fn c20(c: &mut Ctx) {
    fn mirror(w: &World, i: usize, top: bool) -> Result<Rd, String> {
        let n = w.node_ref(i)?;
        let mut kids = vec![];
        for k in n.children() { let j = w.m.iter().position(|m| m.alive && m.rid == k.rid()).ok_or("unknown child")?; kids.push(mirror(w, j, false)?); }
        Ok(Rd { ty: n.name_as_type(), name: n.name().to_string(), owner: top || w.m[i].owner == i, fields: fields_of(n, false), kids })
    }
    fn check_all(w: &mut World, r: &mut Rng) -> Result<(), String> {
        for i in w.alive() {
            { let n = w.node(i)?; let a = n.as_any_mut(); if let Some(x) = a.downcast_mut::<NA>() { *x.text = rand_str(r); } else if let Some(x) = a.downcast_mut::<NB>() { *x.num = r.next() as i8; *x.count = r.next() as u16; } }
        }
        events();
        for i in w.alive() {
            let before = w.snaps()?;
            let want = mirror(w, i, true)?;
            let s = w.node_ref(i)?.save_as_branch();
            if !events().is_empty() { return err("saving a branch called hooks"); }
            same(&format!("branch of node {}", w.m[i].uid), &read(&s, false), &want)?;
            randomize(&s, r);
            if w.snaps()? != before || mirror(w, i, true)? != want { return err(format!("saving the branch of node {} changed the tree", w.m[i].uid)); }
            w.check_unknown()?;
        }
        Ok(())
    }
    for (i, sp) in small(4, &["r", "a", "b", "c"]).into_iter().enumerate() { if c.expired() { break; } let mut r = c.rng("small", i as u64);
        c.case("small", i as u64, || sp.show(), || { reset(); let mut w = World::new(&sp)?; check_all(&mut w, &mut r)?; Ok(sp.size() > 1) }); }
    for i in 0..c.n(500, 12000) { if c.expired() { break; } let mut r = c.rng("random", i); let n = 1 + r.below(8); let mut u = 1; let sp = random_sp(&mut r, n, NAMES, &mut u);
        c.case("random", i, || format!("{} then random operations", sp.show()), || {
            reset(); let mut w = World::new(&sp)?; let mut next = 2000;
            for _ in 0..1 + r.below(10) { let op = history(&mut r, &w, NAMES, &mut next, true); crate::note(&format!("{}; ", op.show())); w.apply(&op)?; }
            check_all(&mut w, &mut r)?; 
            // The saved branch instantiates again.
            let al = w.alive(); let a = *r.pick(&al); let s = w.node_ref(a)?.save_as_branch(); let nodes = count(&s); let want = read(&s, false);
            let t = node_tree::trees::TreeSimple::new(s, LoggerVerbosity::OnlyPanics); let got = read(&t.root().save_as_branch(), false);
            same("instantiated branch", &got, &want)?;
            Ok(nodes > 1) }); }
}
