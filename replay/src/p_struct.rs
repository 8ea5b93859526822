use crate::{Ctx, Res, Rng};
use crate::world::*;
use node_tree::prelude::*;
use node_tree::utils::functions::ensure_unique_name;

fn err<T>(m: impl Into<String>) -> Result<T, String> { Err(m.into()) }
/// Small shapes with varied types and ownership.
fn small(max: usize, variants: u64, f: &mut impl FnMut(u64, Sp)) {
    let mut idx = 0;
    for n in 1..=max { for sh in shapes(n) { for v in 0..variants {
        let mut r = Rng(v.wrapping_mul(77) + n as u64);
        let sp = of_shape(&sh, &mut |i| (if v == 0 { 0 } else { r.below(2) as u8 }, plain_name(i), if v == 0 { false } else { r.coin() }));
        f(idx, sp); idx += 1;
    } } }
}
/// Scenes with many nodes: one wide row below the root or below a child, or one long chain.
fn large(k: usize, next: &mut u64) -> Sp {
    let n = [65, 33, 129, 66, 17, 64, 257, 100][k % 8];
    let mut one = |kids| { *next += 1; let u = *next - 1; Sp { ty: (u % 2) as u8, uid: u, name: format!("n{u}"), owner: u % 3 == 0, kids } };
    let mut kids: Vec<Sp> = (0..n).map(|i| { let k = if i + 2 >= n || i == n / 2 { vec![one(vec![])] } else { vec![] }; one(k) }).collect();
    match k % 3 { 0 => one(kids), 1 => { let mut v = vec![one(vec![]), one(kids)]; v.push(one(vec![])); one(v) } _ => { kids.truncate(n / 4 + 2); let mut s = one(kids); for _ in 0..n.min(70) { s = one(vec![s]); } s } }
}
fn run_history(c: &mut Ctx, g: &str, idx: u64, len: usize, frames: bool, check: impl Fn(&World) -> Result<(), String>, step: impl Fn(&mut World, &Op) -> Result<(), String>) {
    if c.skip(g, idx) { return; }
    let r = c.rng(g, idx);
    // The description needs the history, which depends on the tree: run the generator on a first pass.
    let text = std::cell::RefCell::new(String::new());
    let seed = r.0;
    c.case(g, idx, || format!("history seed {:#x} of {} operations", seed, len), || {
        reset();
        let mut r = Rng(seed); let mut next = 1000;
        let n = 1 + r.below(6);
        let sp = if idx % 60 == 59 { large((idx / 60) as usize, &mut next) } else { random_sp(&mut r, n, NAMES, &mut next) };
        *text.borrow_mut() = sp.show();
        crate::note(&text.borrow());
        let body = || -> Res {
            let mut r = r; let mut w = World::new(&sp)?;
            check(&w)?;
            for _ in 0..len {
                let op = history(&mut r, &w, NAMES, &mut next, frames);
                let t = format!("{}; {}", text.borrow(), op.show()); *text.borrow_mut() = t;
                crate::note(&format!("; {}", op.show()));
                step(&mut w, &op)?;
                check(&w)?;
            }
            Ok(len > 0)
        };
        let mut body = body; let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body()));
        match res { Ok(Ok(x)) => Ok(x), Ok(Err(e)) => Err(format!("{} [history: {}]", e, text.borrow())), Err(_) => Err(format!("panicked [history: {}]", text.borrow())) }
    });
}

pub fn c02(c: &mut Ctx) {
    small(5, 3, &mut |i, sp| c.case("shape", i, || sp.show(), || { reset(); let w = World::new(&sp)?; w.check_links()?; Ok(sp.size() > 1) }));
    // one structural operation at every node of every small shape, then an addition
    let mut idx = 0;
    small(4, 2, &mut |_, sp| { let n = sp.size(); for i in 0..n { for k in 0..5 {
        let j = idx; idx += 1;
        c.case("shape-op", j, || format!("{} op {} at node {}", sp.show(), k, i), || {
            reset();
            let mut w = World::new(&sp)?;
            let add = Sp { ty: 1, uid: 900, name: "a".into(), owner: j % 2 == 0, kids: vec![Sp { ty: 0, uid: 901, name: "a".into(), owner: j % 3 == 0, kids: vec![] }, Sp { ty: 0, uid: 902, name: "a".into(), owner: false, kids: vec![] }] };
            match k {
                0 => { w.apply(&Op::AddScene(i, add.clone()))?; }
                1 => { w.apply(&Op::AddNode(i, add.clone()))?; }
                2 => { if i == 0 { return Ok(false); } let p = w.m[i].parent.unwrap(); let nm = w.m[i].name.clone(); w.apply(&Op::Remove(p, nm))?; }
                3 => { if i == 0 { return Ok(false); } w.apply(&Op::Free(i))?; }
                _ => { w.apply(&Op::Rename(i, "a".into()))?; }
            }
            w.check_links()?;
            let mut add2 = add; add2.uid = 910; for (x, k) in add2.kids.iter_mut().enumerate() { k.uid = 911 + x as u64; }
            w.apply(&Op::AddScene(0, add2))?;
            w.check_links()?;
            let last = *w.alive().last().unwrap();
            if last != 0 { w.apply(&Op::Free(last))?; w.check_links()?; }
            Ok(true)
        });
    } } });
    for i in 0..c.n(3000, 60000) { if c.expired() { break; } run_history(c, "history", i, 14, true, |w| w.check_links(), |w, op| { w.apply(op)?; Ok(()) }); }
}

/// What a unique name for `want` among `taken` has to look like.
fn unique_ok(want: &str, taken: &[String], got: &str) -> Result<(), String> {
    if taken.iter().any(|t| t == got) { return err(format!("{:?} among {:?} became {:?}, which is taken", want, taken, got)); }
    if !taken.iter().any(|t| t == want) { if got != want { return err(format!("free name {:?} among {:?} became {:?}", want, taken, got)); } return Ok(()); }
    let stem = want.trim_end_matches(|c: char| c.is_ascii_digit());
    match got.strip_prefix(stem) { Some(n) if !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()) => Ok(()), _ => err(format!("{:?} among {:?} became {:?}: not its stem and a number", want, taken, got)) }
}
pub fn c03(c: &mut Ctx) {
    let words: Vec<String> = { let al = ["", "a", "1", "9", "é", "0"]; let mut v: Vec<String> = vec![];
        for x in al { for y in al { for z in al { v.push(format!("{x}{y}{z}")); } } }
        v.extend(["18446744073709551615", "18446744073709551616", "99999999999999999999999", "a18446744073709551615", "a٣", "٣", "a007", "Node", "Node1", "1a", "a b", "\u{0}", "💧2"].map(String::from));
        v.sort(); v.dedup(); v };
    let mut idx = 0;
    for w in &words {
        let stem = w.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
        let sets: Vec<Vec<String>> = vec![vec![], vec![w.clone()], vec!["a".into(), w.clone()], vec![w.clone(), format!("{stem}1"), format!("{stem}2")], vec![stem.clone(), format!("{w}1"), format!("{stem}0")],
            vec![w.clone(), format!("{stem}2"), format!("{stem}10"), format!("{stem}3")], (0..12).map(|i| format!("{stem}{i}")).chain([w.clone()]).collect(), vec![w.clone(), w.clone()]];
        for s in sets {
            let i = idx; idx += 1;
            c.case("unique", i, || format!("{:?} among {:?}", w, s), || { let got = ensure_unique_name(w, &s); unique_ok(w, &s, &got)?; Ok(s.contains(w)) });
        }
    }
    for i in 0..c.n(4000, 200000) {
        let mut r = c.rng("unique-random", i);
        let al = ["a", "b", "1", "2", "9", "0", "é", "_"];
        let mut word = |r: &mut Rng| { let n = r.below(4); (0..n).map(|_| *r.pick(&al)).collect::<String>() };
        let w = word(&mut r); let n = r.below(8); let mut s: Vec<String> = (0..n).map(|_| word(&mut r)).collect(); if r.coin() { s.push(w.clone()); }
        c.case("unique-random", i, || format!("{:?} among {:?}", w, s), || { let got = ensure_unique_name(&w, &s); unique_ok(&w, &s, &got)?; Ok(s.contains(&w)) });
    }
    for i in 0..c.n(2500, 40000) { if c.expired() { break; } run_history(c, "history", i, 12, false, |w| w.check_names(), |w, op| {
        match op {
            Op::AddNode(p, sp) | Op::AddScene(p, sp) => {
                let taken: Vec<String> = w.m[*p].kids.iter().map(|&k| w.m[k].name.clone()).collect();
                w.apply(op)?;
                let k = *w.m[*p].kids.last().unwrap();
                let got = w.m[k].name.clone();
                unique_ok(&sp.name, &taken, &got)
            }
            Op::Rename(x, name) => {
                let taken: Vec<String> = match w.m[*x].parent { None => vec![], Some(p) => w.m[p].kids.iter().filter(|&&k| k != *x).map(|&k| w.m[k].name.clone()).collect() };
                let before: Vec<(usize, String)> = w.alive().into_iter().filter(|y| y != x).map(|y| (y, w.m[y].name.clone())).collect();
                w.apply(op)?;
                for (y, n) in before { if w.node_ref(y)?.name() != n { return err("renaming changed another node's name"); } }
                let got = w.m[*x].name.clone();
                unique_ok(name, &taken, &got)
            }
            _ => w.apply(op).map(|_| ()),
        }
    }); }
}

fn walk_path(w: &World, from: usize, segs: &[&str]) -> Option<usize> {
    let mut at = from;
    for s in segs { match *s {
        "." => (), ".." => at = w.m[at].parent?,
        n => at = w.m[at].kids.iter().copied().find(|&k| w.m[k].name == n)?,
    } }
    Some(at)
}
fn lookups(w: &World, from: usize, text: &str, expect: Option<usize>) -> Result<(), String> {
    let n = w.node_ref(from)?;
    let p = NodePath::from_str(text);
    let e = expect.map(|i| w.m[i].rid);
    let a = n.get_node_dyn(p.clone()).to_option().map(|t| t.rid());
    let b = w.tree.get_node_rid(p.clone(), Some(w.m[from].rid));
    if a != e || b != e { return err(format!("{:?} from node {} yields {:?}/{:?} instead of {:?}", text, w.m[from].uid, a, b, e)); }
    if !p.is_absolute() { let r = n.get_node_raw(p.clone()); if r != e { return err(format!("get_node_raw {:?} from node {} yields {:?} instead of {:?}", text, w.m[from].uid, r, e)); } }
    let ta = n.get_node::<NA>(p.clone()).to_option().map(|t| t.rid());
    let tb = n.get_node::<NB>(p).to_option().map(|t| t.rid());
    let ty = expect.map(|i| w.m[i].ty);
    if ta != (if ty == Some(0) { e } else { None }) || tb != (if ty == Some(1) { e } else { None }) { return err(format!("typed lookup of {:?} from node {} yields {:?}/{:?} instead of {:?}", text, w.m[from].uid, ta, tb, e)); }
    Ok(())
}
pub fn c04(c: &mut Ctx) {
    let mut idx = 0;
    let segs = [".", "..", "a", "b", "c", "x"];
    let mut paths: Vec<Vec<&str>> = vec![vec![]];
    for a in segs { paths.push(vec![a]); for b in segs { paths.push(vec![a, b]); for d in segs { paths.push(vec![a, b, d]); } } }
    small(5, 2, &mut |_, sp| for from in 0..sp.size() {
        let i = idx; idx += 1;
        c.case("all-paths", i, || format!("{} from node {}: every path of at most 3 segments over {:?}", sp.show(), 100 + from, segs), || {
            reset();
            let w = World::new(&sp)?;
            for p in &paths {
                lookups(&w, from, &p.join("/"), walk_path(&w, from, p))?;
                let root = w.m[0].name.clone();
                lookups(&w, from, &format!("/{}/{}", root, p.join("/")), walk_path(&w, 0, p))?;
                let e = match p.first() { Some(f) if **f == *root => walk_path(&w, 0, &p[1..]), _ => None };
                lookups(&w, from, &format!("/{}", p.join("/")), e)?;
            }
            // names that are nearly those of the tree
            if from < 2 { let root = w.m[0].name.clone();
                for r in near(&root).iter().filter(|r| !r.is_empty() && !r.contains('/')) { for t in ["", "/a", "/a/b"] { lookups(&w, from, &format!("/{r}{t}"), None)?; } }
                for k in w.m[from].kids.clone() { for r in near(&w.m[k].name).iter().filter(|r| !r.is_empty() && !r.contains('/')) {
                    lookups(&w, from, r, walk_path(&w, from, &[r]))?; lookups(&w, from, &format!("./{r}/.."), walk_path(&w, from, &[".", r, ".."]))?; } } }
            for to in 0..sp.size() {
                let abs = w.node_ref(to)?.get_absolute_path();
                if !abs.is_absolute() { return err("an absolute path is not absolute"); }
                let got = w.node_ref(from)?.get_node_dyn(abs.clone()).to_option().map(|t| t.rid());
                if got != Some(w.m[to].rid) { return err(format!("absolute path {:?} of node {} leads to {:?}", abs, w.m[to].uid, got)); }
            }
            Ok(sp.size() > 1)
        });
    });
    for i in 0..c.n(800, 20000) { if c.expired() { break; } run_history(c, "history", i, 8, false, |w| {
        let al = w.alive();
        for &to in &al {
            let abs = w.node_ref(to)?.get_absolute_path();
            for &from in [0, *al.last().unwrap()].iter() {
                let got = w.node_ref(from)?.get_node_dyn(abs.clone()).to_option().map(|t| t.rid());
                if got != Some(w.m[to].rid) { return err(format!("absolute path {:?} of node {} leads to {:?}", abs, w.m[to].uid, got)); }
            }
            for p in [vec![".."], vec!["..", "a"], vec!["a", "b"], vec!["é", ".", ".."], vec!["a", "..", "a"]] { lookups(w, to, &p.join("/"), walk_path(w, to, &p))?; }
        }
        Ok(())
    }, |w, op| w.apply(op).map(|_| ())); }
}

/// Checks one removal against C06.
fn removal(w: &mut World, op: &Op) -> Result<(), String> {
    let (target, reason) = match op {
        Op::Free(i) => (Some(*i), TerminationReason::Freed),
        Op::Remove(p, name) => (w.m[*p].kids.iter().copied().find(|&k| w.m[k].name == *name), TerminationReason::RemovedAsChild),
        _ => { w.apply(op)?; return Ok(()); }
    };
    let branch = target.map(|t| w.branch(t)).unwrap_or_default();
    let keep: Vec<usize> = w.alive().into_iter().filter(|i| !branch.contains(i)).collect();
    let parent = target.and_then(|t| w.m[t].parent);
    let before: Vec<Snap> = keep.iter().map(|&i| w.snap(i)).collect::<Result<_, _>>()?;
    let names: Vec<(String, usize)> = w.m.iter().enumerate().filter(|(_, m)| m.alive).filter_map(|(i, m)| m.single.clone().map(|s| (s, i))).collect();
    let trid = target.map(|t| w.m[t].rid);
    events();
    let res = w.apply(op)?;
    if let Op::Remove(..) = op { if res != Some(target.is_some()) { return err(format!("remove_child reported {:?}", res)); } }
    let ev = events();
    for &b in &branch {
        let u = w.m[b].uid;
        let n: Vec<&Ev> = ev.iter().filter(|e| matches!(e, Ev::Terminal(x, _) if *x == u)).collect();
        if n.len() != 1 { return err(format!("removed node {} got {} termination calls", u, n.len())); }
        if *n[0] != Ev::Terminal(u, reason) { return err(format!("removed node {} got {:?}", u, n[0])); }
        if w.tree.get_node(w.m[b].rid).is_some() { return err(format!("removed node {} is still known", u)); }
        if w.tree.get_node_identity(w.m[b].rid).is_some() { return err(format!("removed node {} still has an identity", u)); }
    }
    if ev.len() != branch.len() { return err(format!("other hooks were called: {:?}", ev)); }
    for (s, i) in names {
        let got = w.tree.get_node_rid(s.as_str(), None);
        let e = if branch.contains(&i) { None } else { Some(w.m[i].rid) };
        if got != e { return err(format!("singleton {:?} resolves to {:?} instead of {:?}", s, got, e)); }
    }
    for (x, &i) in keep.iter().enumerate() {
        let mut e = before[x].clone();
        if Some(i) == parent { e.kids.retain(|k| Some(*k) != trid); }
        let got = w.snap(i)?;
        if got != e { return err(format!("surviving node changed from {:?} to {:?}", e, got)); }
    }
    if target != Some(0) { w.check_unknown()?; if w.tree.verif_status() == TreeStatus::Terminated { return err("removing a node terminated the tree"); } }
    else if w.tree.verif_status() != TreeStatus::Terminated { return err("freeing the root does not end the tree"); }
    Ok(())
}
pub fn c06(c: &mut Ctx) {
    let mut idx = 0;
    small(5, 2, &mut |_, sp| for t in 0..sp.size() { for how in 0..3 {
        let i = idx; idx += 1;
        if how == 1 && t == 0 { continue; }
        c.case("shape", i, || format!("{} {} node {}", sp.show(), ["free", "remove", "remove a name no child has at"][how], 100 + t), || {
            reset();
            let mut w = World::new(&sp)?;
            for s in 0..sp.size() { if (s + t) % 2 == 0 { w.apply(&Op::Single(s, format!("s{s}")))?; } }
            let op = match how { 0 => Op::Free(t), 1 => Op::Remove(w.m[t].parent.unwrap(), w.m[t].name.clone()), _ => Op::Remove(t, "nobody".into()) };
            removal(&mut w, &op)?;
            if how == 0 && t == 0 { return Ok(true); }
            // remove something else afterwards
            let last = *w.alive().last().unwrap();
            if last != 0 { removal(&mut w, &Op::Free(last))?; }
            Ok(true)
        });
    } });
    for i in 0..c.n(3000, 60000) { if c.expired() { break; } run_history(c, "history", i, 14, false, |_| Ok(()), removal); }
}

const MODES: [ProcessMode; 4] = [ProcessMode::Inherit, ProcessMode::Always, ProcessMode::Pausable, ProcessMode::Inverse];
fn effective(w: &World, i: usize) -> ProcessMode {
    match mode(w.m[i].uid) { ProcessMode::Inherit => match w.m[i].parent { None => ProcessMode::Pausable, Some(p) => effective(w, p) }, m => m }
}
fn enabled(w: &World, i: usize, paused: bool) -> bool {
    match effective(w, i) { ProcessMode::Always => true, ProcessMode::Pausable => !paused, ProcessMode::Inverse => paused, ProcessMode::Inherit => false }
}
/// Checks the process calls of one frame; `dead_at`: (event count, node) for nodes that die in the frame.
fn frame_ok(w: &World, ev: &[Ev], paused: bool, died: &[(usize, usize)], lo: f64, hi: f64) -> Result<(), String> {
    let all: Vec<usize> = w.alive();
    let dead = |i: usize, at: usize| died.iter().any(|&(t, d)| t <= at && w.branch(d).contains(&i));
    let mut seen: Vec<usize> = vec![]; let mut delta: Option<f32> = None;
    for (at, e) in ev.iter().enumerate() { if let Ev::Process(u, d) = e {
        let i = *all.iter().find(|&&i| w.m[i].uid == *u).ok_or("an unknown node was processed")?;
        if seen.contains(&i) { return err(format!("node {} was processed twice", u)); }
        if !enabled(w, i, paused) { return err(format!("disabled node {} was processed", u)); }
        if dead(i, at) { return err(format!("removed node {} was processed", u)); }
        if let Some(x) = delta { if x != *d { return err("different deltas in one frame"); } }
        delta = Some(*d);
        if (*d as f64) < lo - 1e-3 || (*d as f64) > hi + 1e-3 { return err(format!("delta {} is not within [{}, {}]", d, lo, hi)); }
        if let Some(p) = w.m[i].parent {
            if enabled(w, p, paused) && !seen.contains(&p) { return err(format!("node {} was processed before its parent", u)); }
            for &s in w.m[p].kids.iter().take_while(|&&s| s != i) { if enabled(w, s, paused) && !seen.contains(&s) && !dead(s, at) { return err(format!("node {} was processed before its earlier sibling", u)); } }
        }
        seen.push(i);
    } }
    for i in all { if enabled(w, i, paused) && !seen.contains(&i) && !dead(i, usize::MAX - 1) { return err(format!("enabled node {} was not processed", w.m[i].uid)); } }
    Ok(())
}
fn frame(w: &mut World, paused: bool, kill: Option<(usize, usize)>, last: &mut (std::time::Instant, std::time::Instant)) -> Result<(), String> {
    w.tree.verif_set_status(TreeStatus::Process(if paused { TreeProcess::Paused } else { TreeProcess::Running }));
    if let Some((by, of)) = kill { S.with(|s| { s.borrow_mut().acts.insert((w.m[by].uid, Hk::Process), vec![Act::Free(w.m[of].rid)]); }); }
    events(); S.with(|s| s.borrow_mut().done.clear());
    let start = std::time::Instant::now();
    let st = w.tree.process();
    let end = std::time::Instant::now();
    let ev = events();
    let done = S.with(|s| { let mut s = s.borrow_mut(); s.acts.clear(); std::mem::take(&mut s.done) });
    let died: Vec<(usize, usize)> = done.iter().filter_map(|(n, a)| if let Act::Free(r) = a { w.alive().into_iter().find(|&i| w.m[i].rid == *r).map(|i| (*n, i)) } else { None }).collect();
    frame_ok(w, &ev, paused, &died, (start - last.1).as_secs_f64(), (end - last.0).as_secs_f64())?;
    *last = (start, end);
    let root_died = died.iter().any(|&(_, i)| i == 0);
    for (_, i) in died { w.detach(i); }
    if !root_died && st != TreeStatus::Process(if paused { TreeProcess::Paused } else { TreeProcess::Running }) { return err(format!("a frame changed the status to {:?}", st)); }
    Ok(())
}
pub fn c07(c: &mut Ctx) {
    let mut idx = 0;
    // every mode assignment on every shape of up to 4 nodes
    for n in 1..=4 { for sh in shapes(n) { for a in 0..4usize.pow(n as u32) { for paused in [false, true] {
        let i = idx; idx += 1;
        if c.skip("modes", i) { continue; }
        let modes: Vec<ProcessMode> = (0..n).map(|k| MODES[a / 4usize.pow(k as u32) % 4]).collect();
        c.case("modes", i, || format!("shape {:?} modes {:?} paused {}", &sh[1..], modes, paused), || {
            reset();
            let t0 = std::time::Instant::now();
            let mut w = World::new(&of_shape(&sh, &mut |i| (0, plain_name(i), false)))?;
            let mut last = (t0, std::time::Instant::now());
            for k in 0..n { S.with(|s| s.borrow_mut().modes.insert(w.m[k].uid, modes[k])); }
            frame(&mut w, paused, None, &mut last)?;
            frame(&mut w, !paused, None, &mut last)?;
            Ok(modes.iter().any(|m| *m != ProcessMode::Inherit))
        });
    } } } }
    // every node frees every node
    let mut idx = 0;
    small(5, 1, &mut |_, sp| for by in 0..sp.size() { for of in 0..sp.size() {
        if of == 0 { continue; }
        let i = idx; idx += 1;
        c.case("free-in-frame", i, || format!("{}: node {} frees node {} in its process call", sp.show(), 100 + by, 100 + of), || {
            reset();
            let t0 = std::time::Instant::now();
            let mut w = World::new(&sp)?;
            let mut last = (t0, std::time::Instant::now());
            frame(&mut w, false, Some((by, of)), &mut last)?;
            frame(&mut w, false, None, &mut last)?;
            Ok(true)
        });
    } });
    for i in 0..c.n(1500, 40000) { if c.expired() { break; }
        let mut r = c.rng("random", i);
        let n = 2 + r.below(8);
        let mut u = 100; let sp = random_sp(&mut r, n, NAMES, &mut u);
        let modes: Vec<ProcessMode> = (0..n).map(|_| *r.pick(&MODES)).collect();
        let plan: Vec<(bool, Option<(usize, usize)>)> = (0..4).map(|_| (r.coin(), if r.coin() { Some((r.below(n), 1 + r.below(n - 1))) } else { None })).collect();
        c.case("random", i, || format!("{} modes {:?} frames (paused, (frees by, of)) {:?}", sp.show(), modes, plan), || {
            reset();
            let t0 = std::time::Instant::now();
            let mut w = World::new(&sp)?;
            let mut last = (t0, std::time::Instant::now());
            for k in 0..n { S.with(|s| s.borrow_mut().modes.insert(w.m[k].uid, modes[k])); }
            for (p, kill) in plan.clone() {
                let kill = kill.filter(|(a, b)| w.m[*a].alive && w.m[*b].alive);
                if i % 50 == 0 { std::thread::sleep(std::time::Duration::from_millis(3)); }
                frame(&mut w, p, kill, &mut last)?;
            }
            Ok(true)
        });
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum L { Frame, Queue, Term, QueueIn(usize), TermIn(usize), QueueAtExit(usize) }
pub fn c08(c: &mut Ctx) {
    fn run(sp: &Sp, paused: bool, seq: &[L]) -> Res {
        reset();
        let mut w = World::new(sp)?;
        let proc = if paused { TreeProcess::Paused } else { TreeProcess::Running };
        w.tree.verif_set_status(TreeStatus::Process(proc));
        let all: Vec<u64> = w.m.iter().map(|m| m.uid).collect();
        if paused { for u in &all { S.with(|s| s.borrow_mut().modes.insert(*u, ProcessMode::Always)); } }
        let mut st = TreeStatus::Process(proc); events();
        for (k, &l) in seq.iter().enumerate() {
            S.with(|s| { let mut s = s.borrow_mut(); s.acts.clear(); s.done.clear(); });
            match l {
                L::Queue => { w.tree.queue_termination(); if let TreeStatus::Process(p) = st { st = TreeStatus::QueuedTermination(p); } }
                L::Term => { w.tree.terminate(); st = TreeStatus::Terminated; }
                _ => {
                    match l { L::QueueIn(i) => { S.with(|s| s.borrow_mut().acts.insert((all[i % all.len()], Hk::Process), vec![Act::Queue])); }
                              L::TermIn(i) => { S.with(|s| s.borrow_mut().acts.insert((all[i % all.len()], Hk::Process), vec![Act::Terminate])); }
                              L::QueueAtExit(i) => { S.with(|s| s.borrow_mut().acts.insert((all[i % all.len()], Hk::Terminal), vec![Act::Queue])); } _ => () }
                    let got = w.tree.process();
                    let ev = events();
                    let done = S.with(|s| s.borrow().done.clone());
                    let (mut p, mut t) = (vec![], vec![]);
                    for e in &ev { match e { Ev::Process(u, _) => p.push(*u), Ev::Terminal(u, r) => { if *r != TerminationReason::TreeExit { return Err(format!("step {k}: {:?}", e)); } t.push(*u) }, e => return Err(format!("step {k}: {:?}", e)) } }
                    p.sort(); t.sort(); let mut a = all.clone(); a.sort();
                    let was = st;
                    match st {
                        TreeStatus::Terminated => if !ev.is_empty() { return Err(format!("step {k}: a terminated tree called {:?}", ev)); },
                        TreeStatus::Terminating => { if !p.is_empty() { return Err(format!("step {k}: process calls in the terminating frame")); } if t != a { return Err(format!("step {k}: termination calls {:?} instead of {:?}", t, a)); } st = TreeStatus::Terminated; }
                        _ => {
                            if !t.is_empty() { return Err(format!("step {k}: termination calls in state {:?}", was)); }
                            if let Some((at, _)) = done.iter().find(|(_, a)| matches!(a, Act::Terminate)) { if ev.len() > *at { return Err(format!("step {k}: hooks were called after the tree was terminated")); } st = TreeStatus::Terminated; }
                            else {
                                if p != a { return Err(format!("step {k}: process calls {:?} instead of {:?}", p, a)); }
                                if matches!(st, TreeStatus::QueuedTermination(_)) || !done.is_empty() { st = TreeStatus::Terminating; }
                            }
                        }
                    }
                    if got != st { return Err(format!("step {k}: process returned {:?} instead of {:?}", got, st)); }
                }
            }
            if w.tree.verif_status() != st { return Err(format!("step {k}: status {:?} instead of {:?}", w.tree.verif_status(), st)); }
            if st.is_active() == st.has_terminated() || st.has_terminated() != (st == TreeStatus::Terminated) { return Err("is_active and has_terminated disagree with the status".into()); }
            if !events().is_empty() { return Err(format!("step {k}: a request called hooks")); }
        }
        Ok(seq.iter().any(|l| *l != L::Frame))
    }
    let steps = [L::Frame, L::Queue, L::Term, L::QueueIn(0), L::QueueIn(2), L::TermIn(0), L::TermIn(1), L::QueueAtExit(1)];
    let sps: Vec<Sp> = [vec![9], vec![9, 0, 1], vec![9, 0, 0, 1]].iter().map(|s| of_shape(s, &mut |i| (0, plain_name(i), false))).collect();
    let mut idx = 0;
    for sp in &sps { for paused in [false, true] { for len in 1..=4usize { for a in 0..8usize.pow(len as u32) {
        let i = idx; idx += 1;
        if c.skip("sequences", i) { continue; }
        let seq: Vec<L> = (0..len).map(|k| steps[a / 8usize.pow(k as u32) % 8]).collect();
        c.case("sequences", i, || format!("{} paused {} {:?}", sp.show(), paused, seq), || run(sp, paused, &seq));
    } } } }
    for i in 0..c.n(3000, 60000) { if c.expired() { break; }
        let mut r = c.rng("random", i);
        let n = 1 + r.below(7); let mut u = 100; let sp = random_sp(&mut r, n, NAMES, &mut u);
        let len = 3 + r.below(7); let paused = r.coin();
        let seq: Vec<L> = (0..len).map(|_| match r.below(12) { 0 => L::Queue, 1 => L::Term, 2 => L::QueueIn(r.below(n)), 3 => L::TermIn(r.below(n)), 4 => L::QueueAtExit(r.below(n)), _ => L::Frame }).collect();
        c.case("random", i, || format!("{} paused {} {:?}", sp.show(), paused, seq), || run(&sp, paused, &seq));
    }
}

pub fn c09(c: &mut Ctx) {
    let names = ["s", "t", "", "a", "/r", "S", "s ", "T1", "s1", "s01", "/s", "ss"];
    fn step(w: &mut World, r: &mut Rng, names: &[&str], text: &mut String) -> Result<(), String> {
        let al = w.alive(); let i = *r.pick(&al); let name = r.pick(names).to_string();
        match r.below(10) {
            0..=5 => {
                let taken = w.m.iter().any(|n| n.alive && n.single.as_deref() == Some(&name));
                let got = if r.coin() { *text += &format!("; node.register({},{:?})", w.m[i].uid, name); Some(w.node(i)?.register_as_singleton(name.clone())) } else { *text += &format!("; tree.register({},{:?})", w.m[i].uid, name); w.tree.register_as_singleton(w.m[i].rid, name.clone()) };
                if got != Some(!taken) { return Err(format!("registering {:?} yields {:?}", name, got)); }
                if !taken { w.m[i].single = Some(name); }
            }
            6 => { let dead = w.m.iter().find(|m| !m.alive && !w.m.iter().any(|o| o.alive && o.rid == m.rid)).map(|m| m.rid).unwrap_or(w.max_rid() + 7); *text += &format!("; tree.register(id {dead},{:?})", name); if w.tree.register_as_singleton(dead, name.clone()).is_some() { return Err("an unknown id was registered".into()); } }
            7 => { if i != 0 { *text += &format!("; free({})", w.m[i].uid); w.apply(&Op::Free(i))?; } }
            8 => { if let Some(&k) = w.m[i].kids.first() { *text += &format!("; remove({})", w.m[k].uid); let n = w.m[k].name.clone(); w.apply(&Op::Remove(i, n))?; } }
            _ => { let mut u = w.next_uid; let sp = random_sp(r, 1, NAMES, &mut u); w.next_uid = u; *text += &format!("; add({},{})", w.m[i].uid, sp.show()); w.apply(&Op::AddScene(i, sp))?; }
        }
        w.check_singles(names)
    }
    for i in 0..c.n(8000, 150000) { if c.expired() { break; }
        let seed = c.rng("history", i).0;
        c.case("history", i, || format!("history seed {:#x}", seed), || {
            reset();
            let mut r = Rng(seed); let n = 1 + r.below(5); let mut u = 100; let sp = random_sp(&mut r, n, NAMES, &mut u);
            let mut text = sp.show();
            let mut w = World::new(&sp)?;
            let len = 3 + r.below(12);
            for _ in 0..len { if let Err(e) = step(&mut w, &mut r, &names, &mut text) { return Err(format!("{e} [history: {text}]")); } }
            Ok(true)
        });
    }
}

pub fn c11(c: &mut Ctx) {
    fn panics(f: impl FnOnce()) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
    fn typed<T: Node>(tree: *mut dyn NodeTree, owner: RID, rid: RID, expect: Option<(u8, u64)>, want: u8) -> Result<(), String> {
        let e: Result<u64, TPError> = match expect { None => Err(TPError::IsNull), Some((t, u)) if t == want => Ok(u), _ => Err(TPError::WrongType) };
        let got = unsafe { Tp::<T>::new(tree, owner, rid) }.to_result();
        match (&got, &e) { (Ok(p), Ok(u)) => { if uid(p.get()) != *u || p.rid() != rid { return err(format!("Tp to id {rid} yields another node")); } } (Err(a), Err(b)) if a == b => (), _ => return err(format!("Tp::new for id {rid} is {:?}, expected {:?}", got.map(|_| ()), e)) }
        Ok(())
    }
    fn held<T: Node + Clone>(p: &mut Tp<T>, e: Result<u64, TPError>) -> Result<(), String> {
        if p.is_valid() != e.is_ok() || p.is_null() == e.is_ok() { return err(format!("is_valid {} is_null {} but dereferencing would be {:?}", p.is_valid(), p.is_null(), e)); }
        let r = p.try_get().to_result().map(|n| uid(n)); if r != e { return err(format!("try_get {:?} instead of {:?}", r, e)); }
        let r = p.try_get_mut().to_result().map(|n| uid(n)); if r != e { return err(format!("try_get_mut {:?} instead of {:?}", r, e)); }
        let d = p.clone().try_to_dyn().to_result().map(|n| uid(n.get())); let ed = match e { Err(TPError::WrongType) => None, x => Some(x) };
        if let Some(x) = ed { if d != x { return err(format!("try_to_dyn {:?} instead of {:?}", d, x)); } }
        if e.is_err() && (!panics(|| { p.get(); }) || !panics(|| { p.clone().get_mut(); })) { return err("dereferencing an invalid pointer does not panic"); }
        if let Ok(u) = e { if uid(p.get()) != u || uid(p.get_mut()) != u || uid(p.clone().to_dyn().get()) != u || uid(&**p) != u { return err("dereferencing yields another node"); } }
        Ok(())
    }
    fn held_dyn(p: &mut TpDyn, expect: Option<(u8, u64)>) -> Result<(), String> {
        let e = expect.map(|x| x.1).ok_or(TPError::IsNull);
        if p.is_valid() != e.is_ok() || p.is_null() == e.is_ok() { return err(format!("TpDyn: is_valid {} is_null {} but dereferencing would be {:?}", p.is_valid(), p.is_null(), e)); }
        let r = p.try_get().to_result().map(|n| uid(n)); if r != e { return err(format!("TpDyn::try_get {:?} instead of {:?}", r, e)); }
        let r = p.try_get_mut().to_result().map(|n| uid(n)); if r != e { return err(format!("TpDyn::try_get_mut {:?} instead of {:?}", r, e)); }
        let ty = expect.map(|x| x.0);
        if p.is::<NA>() != (ty == Some(0)) || p.is::<NB>() != (ty == Some(1)) { return err(format!("TpDyn::is disagrees with the node's type {:?}", ty)); }
        let f = |t: u8| match expect { None => Err(TPError::IsNull), Some((x, u)) if x == t => Ok(u), _ => Err(TPError::WrongType) };
        let a = p.to::<NA>().to_result().map(|n| uid(n.get())); if a != f(0) { return err(format!("TpDyn::to::<NA> {:?} instead of {:?}", a, f(0))); }
        let b = p.to::<NB>().to_result().map(|n| uid(n.get())); if b != f(1) { return err(format!("TpDyn::to::<NB> {:?} instead of {:?}", b, f(1))); }
        let ct = match expect { None => Err(TPError::AttemptedDynCastOnNull), Some((0, u)) => Ok(u), _ => Err(TPError::DynCastFailed) };
        let x = p.cast::<dyn Tr>().to_result().map(|n| n.tr()); if x != ct { return err(format!("TpDyn::cast {:?} instead of {:?}", x, ct)); }
        if p.is_of::<dyn Tr>() != ct.is_ok() { return err(format!("TpDyn::is_of is {} but cast would be {:?}", p.is_of::<dyn Tr>(), ct)); }
        if p.is_of::<dyn std::fmt::Write>() || p.cast::<dyn std::fmt::Write>().is_ok() { return err("TpDyn::is_of / cast of a trait that the type does not extend"); }
        let x = p.cast_mut::<dyn Tr>().to_result().map(|n| n.tr()); if x != ct { return err(format!("TpDyn::cast_mut {:?} instead of {:?}", x, ct)); }
        if e.is_err() && (!panics(|| { p.get(); }) || !panics(|| { p.clone().get_mut(); })) { return err("dereferencing an invalid TpDyn does not panic"); }
        if let Ok(u) = e { if uid(p.get()) != u || uid(p.get_mut()) != u || uid(&**p) != u { return err("TpDyn yields another node"); } }
        Ok(())
    }
    fn node_err(r: Result<u64, NodeError>, e: Result<u64, NodeError>, what: &str) -> Result<(), String> { if r != e { return err(format!("{what} is {:?} instead of {:?}", r, e)); } Ok(()) }
    fn all(w: &mut World) -> Result<(), String> {
        let t = w.tree.as_dyn_raw_mut();
        let find = |w: &World, rid: RID| w.m.iter().find(|m| m.alive && m.rid == rid).map(|m| (m.ty, m.uid));
        for rid in (0..w.max_rid() + 3).chain([u64::MAX]) {
            let e = find(w, rid);
            typed::<NA>(t, 0, rid, e, 0)?; typed::<NB>(t, 0, rid, e, 1)?;
            let d = unsafe { TpDyn::new(t, 0, rid) }.to_result();
            match (&d, e) { (Ok(p), Some((_, u))) if uid(p.get()) == u => (), (Err(TPError::IsNull), None) => (), _ => return err(format!("TpDyn::new for id {rid}")) }
        }
        for i in w.alive() {
            let n = w.node_ref(i)?; let m = &w.m[i];
            let conv = |k: Option<usize>, t: u8| -> Result<u64, NodeError> { match k { Some(k) if w.m[k].ty == t => Ok(w.m[k].uid), Some(_) => Err(NodeError::TPError(TPError::WrongType)), None => Err(NodeError::NoParent) } };
            node_err(n.parent::<NA>().to_result().map(|p| uid(p.get())), conv(m.parent, 0), "parent::<NA>")?;
            node_err(n.parent::<NB>().to_result().map(|p| uid(p.get())), conv(m.parent, 1), "parent::<NB>")?;
            node_err(n.parent_dyn().to_result().map(|p| uid(p.get())), m.parent.map(|k| w.m[k].uid).ok_or(NodeError::NoParent), "parent_dyn")?;
            node_err(n.owner::<NA>().to_result().map(|p| uid(p.get())), conv(Some(m.owner), 0), "owner::<NA>")?;
            node_err(n.owner::<NB>().to_result().map(|p| uid(p.get())), conv(Some(m.owner), 1), "owner::<NB>")?;
            if uid(n.owner_dyn().get()) != w.m[m.owner].uid { return err("owner_dyn"); }
            if uid(n.this_dyn().get()) != m.uid { return err("this_dyn"); }
            if m.ty == 0 { if uid(n.this::<NA>().get()) != m.uid { return err("this"); } } else if uid(n.this::<NB>().get()) != m.uid { return err("this"); }
            let kids: Vec<u64> = n.children().iter().map(|k| uid(k.get())).collect();
            for k in 0..kids.len() + 2 {
                let oor = NodeError::IndexOutOfRange { index: k, children_count: kids.len() };
                let kid = kids.get(k).map(|u| w.m.iter().position(|m| m.alive && m.uid == *u).unwrap());
                let e = |t: u8| match kid { None => Err(oor.clone()), k => conv(k, t) };
                node_err(n.get_child::<NA>(k).to_result().map(|p| uid(p.get())), e(0), "get_child::<NA>")?;
                node_err(n.get_child::<NB>(k).to_result().map(|p| uid(p.get())), e(1), "get_child::<NB>")?;
                node_err(n.get_child_dyn(k).to_result().map(|p| uid(p.get())), kid.map(|k| w.m[k].uid).ok_or(oor.clone()), "get_child_dyn")?;
            }
            if !n.get_node_dyn(NodePath::from_str("no/body")).is_err() || !n.get_node::<NA>("nobody").is_err() { return err("lookup of nothing succeeded"); }
        }
        Ok(())
    }
    let mut idx = 0;
    small(4, 4, &mut |_, sp| for kill in 0..sp.size() { for reuse in 0..3 {
        let i = idx; idx += 1;
        c.case("shape", i, || format!("{} then remove node {} then {}", sp.show(), 100 + kill, ["nothing", "add an NA", "add an NB"][reuse]), || {
            reset();
            let mut w = World::new(&sp)?;
            all(&mut w)?;
            if kill == 0 { return Ok(true); }
            let t = w.tree.as_dyn_raw_mut();
            let victim = (w.m[kill].rid, w.m[kill].ty);
            let mut d: Vec<(RID, TpDyn)> = w.alive().iter().map(|&i| (w.m[i].rid, unsafe { TpDyn::new(t, w.m[i].rid, w.m[i].rid) }.to_option().unwrap())).collect();
            let mut a: Vec<(RID, Tp<NA>)> = w.alive().iter().filter(|&&i| w.m[i].ty == 0).map(|&i| (w.m[i].rid, unsafe { Tp::new(t, 0, w.m[i].rid) }.to_option().unwrap())).collect();
            let mut b: Vec<(RID, Tp<NB>)> = w.alive().iter().filter(|&&i| w.m[i].ty == 1).map(|&i| (w.m[i].rid, unsafe { Tp::new(t, w.m[i].rid, w.m[i].rid) }.to_option().unwrap())).collect();
            w.apply(&Op::Free(kill))?;
            if reuse > 0 { w.apply(&Op::AddScene(0, Sp { ty: reuse as u8 - 1, uid: 700, name: "n".into(), owner: false, kids: vec![] }))?; }
            let find = |rid: RID| w.m.iter().find(|m| m.alive && m.rid == rid).map(|m| (m.ty, m.uid));
            for (r, p) in &mut d { held_dyn(p, find(*r))?; }
            let f = |rid: RID, t: u8| match find(rid) { None => Err(TPError::IsNull), Some((x, u)) if x == t => Ok(u), _ => Err(TPError::WrongType) };
            for (r, p) in &mut a { held(p, f(*r, 0))?; }
            for (r, p) in &mut b { held(p, f(*r, 1))?; }
            let _ = victim;
            all(&mut w)?;
            Ok(true)
        });
    } });
    for i in 0..c.n(1000, 20000) { if c.expired() { break; } run_history(c, "history", i, 10, false, |_| Ok(()), |w, op| { w.apply(op)?; all(w) }); }
}

pub fn c21(c: &mut Ctx) {
    fn all(w: &World) -> Result<(), String> {
        for i in w.alive() {
            let n = w.node_ref(i)?;
            // level by level, siblings in the order in which their parent lists them
            let mut e = vec![n.rid()]; let mut k = 0;
            while k < e.len() { let x = w.tree.get_node(e[k]).ok_or("lost node")?; e.extend(x.children().iter().map(|c| c.rid())); k += 1; }
            let mut m: Vec<RID> = w.branch(i).iter().map(|&b| w.m[b].rid).collect(); let mut s = e.clone(); m.sort(); s.sort();
            if m != s { return Err("the branch is not the expected one".into()); }
            let t = n.top_down(true); if t != e { return Err(format!("top_down(true) of {} is {:?} instead of {:?}", w.m[i].uid, t, e)); }
            let f = n.top_down(false); if f != e[1..] { return Err(format!("top_down(false) of {} is {:?} instead of {:?}", w.m[i].uid, f, &e[1..])); }
        }
        Ok(())
    }
    small(7, 1, &mut |i, sp| c.case("shape", i, || sp.show(), || { reset(); let w = World::new(&sp)?; all(&w)?; Ok(sp.size() > 2) }));
    for i in 0..c.n(1500, 40000) { if c.expired() { break; } run_history(c, "history", i, 10, false, all, |w, op| w.apply(op).map(|_| ())); }
    // wide layers, of which few members have children
    for i in 0..c.n(60, 600) { if c.expired() { break; } let mut r = c.rng("wide", i); let wide = 2 + r.below(24); let mut u = 1;
        let mut sp = random_sp(&mut r, 1, NAMES, &mut u); for k in 0..wide { let n = if r.one_in(wide) || k == (i as usize) % wide { 2 + r.below(2) } else { 1 }; let kid = random_sp(&mut r, n, NAMES, &mut u); sp.kids.push(kid); }
        c.case("wide", i, || sp.show(), || { reset(); let w = World::new(&sp)?; all(&w)?; Ok(true) }); }
    for i in 0..24 { let mut u = 1; let sp = large(i as usize, &mut u); c.case("large", i, || sp.show(), || { reset(); let w = World::new(&sp)?; all(&w)?; Ok(true) }); }
}

pub fn c22(c: &mut Ctx) {
    fn panics(f: impl FnOnce()) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
    fn queries(w: &World) -> Result<(), String> {
        w.check_links()?;
        for i in w.alive() {
            let (n, m) = (w.node_ref(i)?, &w.m[i]);
            let u = m.uid;
            if !n.in_tree() || n.is_stray() || n.tree().is_none() { return err(format!("node {u} does not know its tree")); }
            if n.this_dyn().rid() != m.rid { return err(format!("this_dyn of node {u}")); }
            if n.name() != m.name { return err(format!("node {u} is called {:?} instead of {:?}", n.name(), m.name)); }
            if n.parent_dyn().to_option().map(|p| uid(p.get())) != m.parent.map(|p| w.m[p].uid) { return err(format!("parent of node {u}")); }
            let kids: Vec<RID> = n.children().iter().map(|k| k.rid()).collect();
            for k in 0..kids.len() + 2 {
                let g = n.get_child_dyn(k).to_option().map(|x| x.rid());
                if g != kids.get(k).copied() { return err(format!("child {k} of node {u} is {:?} instead of {:?}", g, kids.get(k))); }
            }
            if !std::ptr::eq(w.tree.get_node(m.rid).unwrap().base(), n.base()) || w.tree.get_node_raw(m.rid).map(|p| p as *const u8) != Some(n as *const dyn Node as *const u8) { return err(format!("lookups of node {u} disagree")); }
        }
        if uid(w.tree.root()) != w.m[0].uid { return err("root is another node"); }
        Ok(())
    }
    fn lists(w: &mut World, r: &mut Rng) -> Result<(), String> {
        let top = w.max_rid() + 4;
        let len = r.below(6);
        let rids: Vec<RID> = (0..len).map(|_| if r.one_in(9) { u64::MAX } else { r.below(top as usize) as u64 }).collect();
        let mut d = rids.clone(); d.sort(); d.dedup(); let twice = d.len() != rids.len();
        let want: Vec<Option<u64>> = rids.iter().map(|&x| w.m.iter().find(|m| m.alive && m.rid == x).map(|m| m.uid)).collect();
        let valid: Vec<u64> = want.iter().filter_map(|x| *x).collect();
        let a: Vec<Option<u64>> = w.tree.get_nodes(&rids).into_iter().map(|n| n.map(uid)).collect();
        if a != want { return err(format!("get_nodes({:?}) is {:?} instead of {:?}", rids, a, want)); }
        let a: Vec<u64> = w.tree.get_all_valid_nodes(&rids).into_iter().map(uid).collect();
        if a != valid { return err(format!("get_all_valid_nodes({:?}) is {:?} instead of {:?}", rids, a, valid)); }
        if twice {
            if !panics(|| { w.tree.get_nodes_mut(&rids); }) { return err(format!("get_nodes_mut({:?}) accepts repeated ids", rids)); }
            if !panics(|| { w.tree.get_all_valid_nodes_mut(&rids); }) { return err(format!("get_all_valid_nodes_mut({:?}) accepts repeated ids", rids)); }
        } else {
            let a: Vec<Option<u64>> = w.tree.get_nodes_mut(&rids).into_iter().map(|n| n.map(|n| uid(n))).collect();
            if a != want { return err(format!("get_nodes_mut({:?}) is {:?} instead of {:?}", rids, a, want)); }
            let a: Vec<u64> = w.tree.get_all_valid_nodes_mut(&rids).into_iter().map(|n| uid(n)).collect();
            if a != valid { return err(format!("get_all_valid_nodes_mut({:?}) is {:?} instead of {:?}", rids, a, valid)); }
        }
        for &x in &rids { let e = w.m.iter().find(|m| m.alive && m.rid == x).map(|m| m.uid);
            if w.tree.get_node_mut(x).map(|n| uid(n)) != e || w.tree.get_node(x).map(uid) != e || w.tree.get_node_raw(x).is_some() != e.is_some() || w.tree.get_node_mut_raw(x).is_some() != e.is_some() { return err(format!("get_node of id {x} is not {:?}", e)); } }
        let u = w.m[0].uid; if uid(w.tree.root_mut()) != u { return err("root_mut is another node"); }
        Ok(())
    }
    const NEEDS: [&str; 24] = ["children", "num_children", "childless", "parent", "parent_dyn", "owner", "owner_dyn", "this", "this_dyn", "get_child", "get_child_dyn", "get_node", "get_node_dyn", "get_node_raw", "get_absolute_path", "top_down(true)", "top_down(false)", "free", "remove_child", "post", "add_child", "save_as_branch", "register_as_singleton", "add_child_from_ptr"];
    fn call(n: &mut NA, k: usize) { match k {
        0 => { n.children(); } 1 => { n.num_children(); } 2 => { n.childless(); } 3 => { n.parent::<NA>(); } 4 => { n.parent_dyn(); } 5 => { n.owner::<NA>(); } 6 => { n.owner_dyn(); }
        7 => { n.this::<NA>(); } 8 => { n.this_dyn(); } 9 => { n.get_child::<NA>(0); } 10 => { n.get_child_dyn(0); } 11 => { n.get_node::<NA>(NodePath::from_str("a")); } 12 => { n.get_node_dyn(NodePath::from_str("a")); }
        13 => { n.get_node_raw(NodePath::from_str("a")); } 14 => { n.get_absolute_path(); } 15 => { n.top_down(true); } 16 => { n.top_down(false); } 17 => n.free(), 18 => { n.remove_child("a"); }
        19 => n.post(Log::Info("x")), 20 => n.add_child(NA::new(5)), 21 => { n.save_as_branch(); } 22 => { n.register_as_singleton("s".into()); }
        _ => { let p: *mut dyn Node = Box::into_raw(Box::new(NA::new(6)) as Box<dyn Node>); unsafe { n.add_child_from_ptr(p, false, false); } }
    } }
    // A node that was never added, and one that came out of a scene.
    for from in 0..2u64 { for (k, what) in NEEDS.iter().enumerate() {
        c.case("outside", from * 100 + k as u64, || format!("{what} of a node outside a tree ({})", ["new", "cloned from a node of a tree"][from as usize]), || {
            reset();
            let sp = of_shape(&[usize::MAX, 0], &mut |i| (0, plain_name(i), false));
            let w = World::new(&sp)?;
            let mut n = if from == 0 { NA::new(1) } else { w.node_ref(1)?.as_any_ref().downcast_ref::<NA>().unwrap().clone() };
            let name = n.name().to_string();
            if n.in_tree() || !n.is_stray() || n.is_root() || n.is_owner() || n.tree().is_some() || n.tree_mut().is_some() || n.has_just_loaded() { return err("a node outside a tree reports otherwise"); }
            if !panics(|| call(&mut n, k)) { return err(format!("{what} returns")); }
            if n.in_tree() || !n.is_stray() || n.is_root() || n.is_owner() || n.name() != name { return err(format!("{what} changed the node")); }
            queries(&w)?;
            Ok(true)
        });
    } }
    small(5, 3, &mut |i, sp| c.case("shape", i, || sp.show(), || { reset(); let mut w = World::new(&sp)?; queries(&w)?; let mut r = Rng(i); for _ in 0..12 { lists(&mut w, &mut r)?; } Ok(sp.size() > 1) }));
    for i in 0..c.n(2500, 50000) { if c.expired() { break; } let mut lr = c.rng("lists", i); let lr = std::cell::RefCell::new(&mut lr); run_history(c, "history", i, 10, false, queries, |w, op| { w.apply(op)?; lists(w, &mut lr.borrow_mut()) }); }
}
