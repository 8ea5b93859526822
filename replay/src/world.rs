//! Real trees driven next to a plain model of them.
use std::cell::RefCell;
use std::collections::HashMap;
use node_tree::prelude::*;
use node_tree::structs::node_tree_base::NodeIdentity;
use node_tree::trees::TreeSimple;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Hk { Loaded, Ready, Process, Terminal }
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Loaded(u64), Ready(u64, usize), Process(u64, f32), Terminal(u64, TerminationReason) }
#[derive(Clone, Debug)]
pub enum Act { Free(RID), Queue, Terminate }
#[derive(Default)]
pub struct Script { pub events: Vec<Ev>, pub done: Vec<(usize, Act)>, pub modes: HashMap<u64, ProcessMode>, pub acts: HashMap<(u64, Hk), Vec<Act>>, pub count: bool }
thread_local! { pub static S: RefCell<Script> = RefCell::new(Script::default()); }
pub fn reset() { S.with(|s| *s.borrow_mut() = Script::default()); }
pub fn events() -> Vec<Ev> { S.with(|s| std::mem::take(&mut s.borrow_mut().events)) }
pub fn mode(uid: u64) -> ProcessMode { S.with(|s| s.borrow().modes.get(&uid).copied().unwrap_or(ProcessMode::Inherit)) }
fn hook(node: &mut dyn Node, uid: u64, hk: Hk, delta: f32, reason: Option<TerminationReason>) {
    let count = if hk == Hk::Ready && S.with(|s| s.borrow().count) { node.tree().map(|t| t.root().top_down(true).len()).unwrap_or(0) } else { 0 };
    let acts = S.with(|s| { let mut s = s.borrow_mut();
        s.events.push(match hk { Hk::Loaded => Ev::Loaded(uid), Hk::Ready => Ev::Ready(uid, count), Hk::Process => Ev::Process(uid, delta), Hk::Terminal => Ev::Terminal(uid, reason.unwrap()) });
        s.acts.get(&(uid, hk)).cloned().unwrap_or_default() });
    if acts.is_empty() { return; }
    let tree: *mut dyn NodeTree = node.tree_mut().unwrap() as *mut dyn NodeTree;
    for a in acts {
        S.with(|s| { let mut s = s.borrow_mut(); let n = s.events.len(); s.done.push((n, a.clone())); });
        let tree = unsafe { &mut *tree };
        match a {
            Act::Free(rid) => if let Some(n) = tree.get_node_mut(rid) { n.free() },
            Act::Queue => tree.queue_termination(),
            Act::Terminate => tree.terminate(),
        }
    }
}
pub trait Tr { fn tr(&self) -> u64; }

class! {
    pub declare NA extends Tr;
    pub export let uid: u64;
    pub export let text: String;
    pub let scratch: i32 = 5;
    pub signal ping(x: u8);
    hk _init(u: u64) { let uid: u64 = u; let text: String = format!("t{}", u); }
    hk loaded(&mut self) { let u = *self.uid; hook(self, u, Hk::Loaded, 0.0, None); }
    hk ready(&mut self) { let u = *self.uid; hook(self, u, Hk::Ready, 0.0, None); }
    hk process(&mut self, delta: f32) { let u = *self.uid; hook(self, u, Hk::Process, delta, None); }
    hk terminal(&mut self, reason: TerminationReason) { let u = *self.uid; hook(self, u, Hk::Terminal, 0.0, Some(reason)); }
    hk process_mode(&self) -> ProcessMode { mode(*self.uid) }
}
impl Tr for NA { fn tr(&self) -> u64 { *self.uid } }
class! {
    pub declare NB;
    pub export let uid: u64;
    pub export let num: i8;
    pub export let list: Vec<u8>;
    pub unique let once: u8 = 1;
    pub default let count: u16;
    hk _init(u: u64) { let uid: u64 = u; let num: i8 = (u % 200) as u8 as i8; let list: Vec<u8> = vec![u as u8; (u % 3) as usize]; }
    hk loaded(&mut self) { let u = *self.uid; hook(self, u, Hk::Loaded, 0.0, None); }
    hk ready(&mut self) { let u = *self.uid; hook(self, u, Hk::Ready, 0.0, None); }
    hk process(&mut self, delta: f32) { let u = *self.uid; hook(self, u, Hk::Process, delta, None); }
    hk terminal(&mut self, reason: TerminationReason) { let u = *self.uid; hook(self, u, Hk::Terminal, 0.0, Some(reason)); }
    hk process_mode(&self) -> ProcessMode { mode(*self.uid) }
}

/// A node of a scene, as data.
#[derive(Clone, Debug, PartialEq)]
pub struct Sp { pub ty: u8, pub uid: u64, pub name: String, pub owner: bool, pub kids: Vec<Sp> }
impl Sp {
    pub fn show(&self) -> String {
        let k = if self.kids.is_empty() { String::new() } else { format!("[{}]", self.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(",")) };
        format!("{}{}{}:{:?}{}", if self.owner { "*" } else { "" }, if self.ty == 0 { "NA" } else { "NB" }, self.uid, self.name, k)
    }
    pub fn size(&self) -> usize { 1 + self.kids.iter().map(|k| k.size()).sum::<usize>() }
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a Sp>) { out.push(self); for k in &self.kids { k.walk(out); } }
    pub fn list(&self) -> Vec<&Sp> { let mut v = vec![]; self.walk(&mut v); v }
}
pub fn node(sp: &Sp) -> Box<dyn Node> {
    let mut b: Box<dyn Node> = if sp.ty == 0 { Box::new(NA::new(sp.uid)) } else { Box::new(NB::new(sp.uid)) };
    unsafe { b.set_name_unchecked(&sp.name) };
    b
}
pub fn scene(sp: &Sp) -> NodeScene {
    let mut s = NodeScene::new_dyn(node(sp));
    s.is_owner = sp.owner;
    for k in &sp.kids { if k.owner { s.append_as_owner(scene(k)) } else { s.append(scene(k)) } }
    s
}
pub fn uid(n: &dyn Node) -> u64 {
    let a = n.as_any_ref();
    if let Some(x) = a.downcast_ref::<NA>() { *x.uid } else if let Some(x) = a.downcast_ref::<NB>() { *x.uid } else { u64::MAX }
}
pub fn ty(n: &dyn Node) -> u8 { if n.as_any_ref().is::<NA>() { 0 } else if n.as_any_ref().is::<NB>() { 1 } else { 9 } }

/// All ordered trees of n nodes, as parent lists in preorder.
pub fn shapes(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n { out.push(cur.clone()); return; }
        let mut p = cur.len() - 1;
        loop { cur.push(p); go(cur, n, out); cur.pop(); if p == 0 { break; } p = cur[p]; }
    }
    let mut out = vec![]; let mut cur = vec![usize::MAX]; go(&mut cur, n, &mut out); out
}
/// The scene of a shape, with node attributes chosen by `f(preorder index)`.
pub fn of_shape(sh: &[usize], f: &mut impl FnMut(usize) -> (u8, String, bool)) -> Sp {
    fn go(i: usize, sh: &[usize], f: &mut impl FnMut(usize) -> (u8, String, bool)) -> Sp {
        let (ty, name, owner) = f(i);
        let kids = (1..sh.len()).filter(|&j| sh[j] == i).map(|j| go(j, sh, f)).collect();
        Sp { ty, uid: 100 + i as u64, name, owner, kids }
    }
    go(0, sh, f)
}
pub fn random_sp(r: &mut crate::Rng, n: usize, names: &[&str], uid: &mut u64) -> Sp {
    // mostly small and bushy; sometimes larger: wide, deep, or one long row with one deep member
    let n = if n > 2 && r.one_in(12) { n * 5 } else { n };
    let style = r.below(8);
    let mut sh = vec![usize::MAX];
    for i in 1..n { sh.push(match style { 0 => 0, 1 => i - 1, 2 => if i + 1 == n { r.below(i) } else { 0 }, 3 => if r.one_in(4) { r.below(i) } else { i - 1 }, _ => r.below(i) }); }
    let base = *uid; *uid += n as u64;
    let names = pool(r, names);
    let mut s = of_shape(&sh, &mut |_| (r.below(2) as u8, r.pick(names).to_string(), r.coin()));
    fn re(s: &mut Sp, base: u64) { s.uid = base + (s.uid - 100); for k in &mut s.kids { re(k, base); } }
    re(&mut s, base); s
}

#[derive(Clone, Debug)]
pub struct MN { pub uid: u64, pub ty: u8, pub name: String, pub parent: Option<usize>, pub kids: Vec<usize>, pub owner: usize, pub depth: usize, pub rid: RID, pub alive: bool, pub single: Option<String> }
pub struct World { pub tree: Box<TreeSimple>, pub m: Vec<MN>, pub next_uid: u64 }
#[derive(Clone, Debug)]
pub enum Op { AddScene(usize, Sp), AddNode(usize, Sp), Remove(usize, String), Free(usize), Rename(usize, String), Single(usize, String), Frame }
impl Op { pub fn show(&self) -> String { match self { Op::AddScene(p, s) => format!("add_scene({},{})", p, s.show()), Op::AddNode(p, s) => format!("add_node({},{})", p, s.show()), x => format!("{:?}", x) } } }

#[derive(Clone, Debug, PartialEq)]
pub struct Snap { pub rid: RID, pub uid: u64, pub ty: u8, pub name: String, pub parent: Option<RID>, pub kids: Vec<RID>, pub owner: RID, pub depth: usize, pub ident: String }

impl World {
    pub fn new(sp: &Sp) -> Result<World, String> { World::of(scene(sp), sp, false) }
    pub fn of(s: NodeScene, sp: &Sp, plain_root: bool) -> Result<World, String> {
        let _ = plain_root;
        let tree = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
        let mut w = World { tree, m: vec![], next_uid: 1000 };
        w.graft(None, sp, Some(0))?;
        Ok(w)
    }
    /// Adds the nodes of `sp` to the model and finds their ids in the real tree.
    fn graft(&mut self, parent: Option<usize>, sp: &Sp, rid: Option<RID>) -> Result<usize, String> {
        let i = self.m.len();
        let rid = match rid { Some(r) => r, None => {
            let p = self.m[parent.unwrap()].rid;
            let c: Vec<RID> = self.tree.get_node(p).ok_or("parent lost")?.children().iter().filter(|c| uid(c.get()) == sp.uid).map(|c| c.rid()).collect();
            if c.len() != 1 { return Err(format!("node {} is listed {} times by its parent", sp.uid, c.len())); }
            c[0] } };
        let name = self.tree.get_node(rid).ok_or_else(|| format!("node {} unknown to the tree", sp.uid))?.name().to_string();
        let (owner, depth) = match parent { None => (i, 0), Some(p) => (if sp.owner { i } else { self.m[p].owner }, self.m[p].depth + 1) };
        self.m.push(MN { uid: sp.uid, ty: sp.ty, name, parent, kids: vec![], owner, depth, rid, alive: true, single: None });
        if let Some(p) = parent { self.m[p].kids.push(i); }
        for k in &sp.kids { self.graft(Some(i), k, None)?; }
        Ok(i)
    }
    pub fn alive(&self) -> Vec<usize> { (0..self.m.len()).filter(|&i| self.m[i].alive).collect() }
    pub fn branch(&self, i: usize) -> Vec<usize> { let mut v = vec![i]; let mut k = 0; while k < v.len() { let n = v[k]; v.extend(self.m[n].kids.iter()); k += 1; } v }
    pub fn node(&mut self, i: usize) -> Result<&mut dyn Node, String> { let r = self.m[i].rid; let u = self.m[i].uid; self.tree.get_node_mut(r).ok_or(format!("node {} unknown to the tree", u)) }
    pub fn node_ref(&self, i: usize) -> Result<&dyn Node, String> { self.tree.get_node(self.m[i].rid).ok_or(format!("node {} unknown to the tree", self.m[i].uid)) }
    pub fn detach(&mut self, i: usize) {
        if let Some(p) = self.m[i].parent { self.m[p].kids.retain(|&k| k != i); }
        for b in self.branch(i) { self.m[b].alive = false; self.m[b].single = None; }
    }
    /// Applies an operation to the real tree and to the model. Returns the operation's result, if it has one.
    pub fn apply(&mut self, op: &Op) -> Result<Option<bool>, String> {
        match op {
            Op::AddScene(p, sp) => { self.node(*p)?.add_child(scene(sp)); self.graft(Some(*p), sp, None)?; Ok(None) }
            Op::AddNode(p, sp) => {
                let mut one = sp.clone(); one.kids.clear(); one.owner = false;
                let n = self.node(*p)?;
                if sp.ty == 0 { let mut x = NA::new(sp.uid); unsafe { x.set_name_unchecked(&sp.name) }; n.add_child(x) } else { let mut x = NB::new(sp.uid); unsafe { x.set_name_unchecked(&sp.name) }; n.add_child(x) }
                self.graft(Some(*p), &one, None)?; Ok(None)
            }
            Op::Remove(p, name) => {
                let hit = self.m[*p].kids.iter().copied().find(|&k| self.m[k].name == *name);
                let r = self.node(*p)?.remove_child(name);
                if let Some(k) = hit { self.detach(k); }
                Ok(Some(r))
            }
            Op::Free(i) => { self.node(*i)?.free(); self.detach(*i); Ok(None) }
            Op::Rename(i, name) => { let n = self.node(*i)?; n.set_name(name); let got = n.name().to_string(); self.m[*i].name = got; Ok(None) }
            Op::Single(i, name) => {
                let taken = self.m.iter().any(|n| n.alive && n.single.as_ref() == Some(name));
                let r = self.node(*i)?.register_as_singleton(name.clone());
                if !taken { self.m[*i].single = Some(name.clone()); }
                Ok(Some(r))
            }
            Op::Frame => { self.tree.process(); Ok(None) }
        }
    }
    pub fn max_rid(&self) -> RID { self.m.iter().map(|n| n.rid).max().unwrap_or(0) }
    pub fn snap(&self, i: usize) -> Result<Snap, String> {
        let n = self.node_ref(i)?;
        Ok(Snap { rid: n.rid(), uid: uid(n), ty: ty(n), name: n.name().to_string(), parent: n.parent_dyn().to_option().map(|p| p.rid()),
            kids: n.children().iter().map(|c| c.rid()).collect(), owner: n.owner_dyn().rid(), depth: n.depth(),
            ident: format!("{:?}", self.tree.get_node_identity(self.m[i].rid)) })
    }
    pub fn snaps(&self) -> Result<Vec<Snap>, String> { self.alive().into_iter().map(|i| self.snap(i)).collect() }
    /// The links of every node agree with the model, and no other id is known.
    pub fn check_links(&self) -> Result<(), String> {
        for i in self.alive() {
            let (n, m) = (self.node_ref(i)?, &self.m[i]);
            if uid(n) != m.uid { return Err(format!("id {} denotes node {} instead of {}", m.rid, uid(n), m.uid)); }
            if n.rid() != m.rid { return Err(format!("node {} reports id {} but is known as {}", m.uid, n.rid(), m.rid)); }
            if n.depth() != m.depth { return Err(format!("node {} has depth {} instead of {}", m.uid, n.depth(), m.depth)); }
            let p = n.parent_dyn().to_option().map(|p| p.rid());
            if p != m.parent.map(|p| self.m[p].rid) { return Err(format!("node {} has parent {:?}", m.uid, p)); }
            if n.is_root() != m.parent.is_none() { return Err(format!("node {} is_root is {}", m.uid, n.is_root())); }
            let mut k: Vec<RID> = n.children().iter().map(|c| c.rid()).collect(); k.sort();
            let mut e: Vec<RID> = m.kids.iter().map(|&k| self.m[k].rid).collect(); e.sort();
            if k != e || n.num_children() != e.len() || n.childless() != e.is_empty() { return Err(format!("node {} lists children {:?} instead of {:?}", m.uid, k, e)); }
            let o = n.owner_dyn().rid();
            if o != self.m[m.owner].rid { return Err(format!("node {} has owner {} instead of {}", m.uid, o, self.m[m.owner].rid)); }
            if n.is_owner() != (m.owner == i) { return Err(format!("node {} is_owner is {}", m.uid, n.is_owner())); }
        }
        self.check_unknown()
    }
    pub fn check_unknown(&self) -> Result<(), String> {
        for rid in 0..self.max_rid() + 4 {
            if !self.m.iter().any(|n| n.alive && n.rid == rid) && self.tree.get_node(rid).is_some() { return Err(format!("id {} of no live node is known to the tree", rid)); }
        }
        Ok(())
    }
    pub fn check_names(&self) -> Result<(), String> {
        for i in self.alive() {
            let mut n: Vec<&str> = vec![];
            for &k in &self.m[i].kids { n.push(self.node_ref(k)?.name()); }
            let l = n.len(); n.sort(); n.dedup();
            if n.len() != l { return Err(format!("two children of node {} have the same name", self.m[i].uid)); }
        }
        Ok(())
    }
    pub fn check_singles(&self, names: &[&str]) -> Result<(), String> {
        for n in names {
            let e = self.m.iter().find(|m| m.alive && m.single.as_deref() == Some(n)).map(|m| m.rid);
            let (a, b) = (self.tree.get_node_rid(*n, None), self.tree.get_node_rid(n.to_string(), Some(0)));
            if a != e || b != e { return Err(format!("lookup of singleton {:?} yields {:?}/{:?} instead of {:?}", n, a, b, e)); }
        }
        for m in &self.m {
            let other_alive = self.m.iter().any(|o| o.alive && o.rid == m.rid);
            let ok = match (self.tree.get_node_identity(m.rid), m.alive, &m.single) {
                (Some(NodeIdentity::UniqueName(n)), true, Some(s)) => n == *s,
                (Some(NodeIdentity::NodePath), true, None) => true,
                (None, false, _) => true,
                (Some(_), false, _) => other_alive,
                _ => false };
            if !ok { return Err(format!("identity of node {} is {:?}", m.uid, self.tree.get_node_identity(m.rid))); }
        }
        Ok(())
    }
    pub fn show(&self) -> String { self.alive().iter().map(|&i| format!("{}<{:?}", self.m[i].uid, self.m[i].parent.map(|p| self.m[p].uid))).collect::<Vec<_>>().join(" ") }
}

pub const NAMES: &[&str] = &["a", "b", "a1", "c", "é"];
/// Names that are nearly equal: by case, by a space, by a prefix, by a number, by length in bytes.
const POOLS: [&[&str]; 6] = [NAMES, NAMES, &["a", "A", "aa", "á", "Á"], &["Node", "node", "Node1", "Nod", "NODE1"], &["a", "a ", " a", "a\t", "ab"], &["x9", "x09", "x10", "X9", "x"]];
/// The names to draw from: `NAMES` stands for one of the pools.
fn pool<'a>(r: &mut crate::Rng, names: &'a [&'a str]) -> &'a [&'a str] { if std::ptr::eq(names, NAMES) { POOLS[r.below(POOLS.len())] } else { names } }
/// Texts that are nearly, but not, s: another letter case, spaces, digits, an accent, a part of it.
pub fn near(s: &str) -> Vec<String> {
    let swap: String = s.chars().map(|c| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() }).collect();
    let mut v = vec![swap, format!("{s} "), format!(" {s}"), format!("{s}1"), format!("{s}0"), format!("0{s}"), format!("1{s}"), format!("{s}{s}"), format!("{s}\u{301}"), format!("{s}_"), format!("{s}\t"), s.trim().to_string(), s.trim_end_matches(char::is_numeric).to_string(), s.chars().skip(1).collect(), s.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect(), s.chars().rev().collect()];
    v.retain(|x| x != s); v.sort(); v.dedup(); v
}
pub fn plain_name(i: usize) -> String { ["r", "a", "b", "c", "d", "e", "f", "g"][i % 8].to_string() }
/// Node names for small shapes: every name usable as a path segment.
pub fn history(r: &mut crate::Rng, w: &World, names: &[&str], next: &mut u64, frames: bool) -> Op {
    let al = w.alive();
    let i = *r.pick(&al);
    loop { match r.below(if frames { 8 } else { 7 }) {
        0 | 1 => { let n = 1 + r.below(4); return Op::AddScene(i, random_sp(r, n, names, next)); }
        2 => { return Op::AddNode(i, random_sp(r, 1, names, next)); }
        3 => { if w.m[i].kids.is_empty() || r.one_in(6) { return Op::Remove(i, "nobody".into()); } let k = *r.pick(&w.m[i].kids); let name = w.m[k].name.clone(); if r.one_in(5) { let v = near(&name); return Op::Remove(i, r.pick(&v).clone()); } return Op::Remove(i, name); }
        4 => { if i != 0 && al.len() > 2 { return Op::Free(i); } }
        5 => { let names = pool(r, names); return Op::Rename(i, r.pick(names).to_string()); }
        6 => { return Op::Single(i, r.pick(&["s", "t", "S", "s1"]).to_string()); }
        _ => return Op::Frame,
    } }
}

/// Text with white space, line breaks, quotes, format marks, capitals, digits and letters of several bytes.
pub fn odd_text(r: &mut crate::Rng) -> String {
    const P: [&str; 20] = [" ", "a", "B", "\t", "\n", "é", "💧", "7", "0", "\"", "\\", "{}", "/", ".", "|", "'", "\u{1b}[31m", "ß", "\r", "long text of several words"];
    let n = match r.below(12) { 0 => 0, 1 => 40 + r.below(60), 2 => 9, _ => 1 + r.below(5) };
    (0..n).map(|_| *r.pick(&P)).collect()
}
