use crate::{Ctx, Res, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use node_tree::prelude::*;
use node_tree::structs::rid::RIDHolder;
use node_tree::traits::element::Element;
use toml_edit::{self as toml, Value};

fn err<T>(m: impl Into<String>) -> Result<T, String> { Err(m.into()) }

// ---------------------------------------------------------------- C01
#[derive(Clone, Copy, Debug)]
enum R { Push, Take(u8), Modify(u8), Look }
pub fn c01(c: &mut Ctx) {
    fn run(start: Option<usize>, ops: &[R]) -> Res {
        let mut h: RIDHolder<String> = match start { None => RIDHolder::new(), Some(n) => RIDHolder::from_vec((0..n).map(|i| format!("v{i}")).collect()) };
        let mut m: BTreeMap<u64, String> = (0..start.unwrap_or(0)).map(|i| (i as u64, format!("v{i}"))).collect();
        let mut ever: BTreeSet<u64> = m.keys().copied().collect();
        let check = |h: &mut RIDHolder<String>, m: &BTreeMap<u64, String>, ever: &BTreeSet<u64>| -> Result<(), String> {
            if h.len() != m.len() || h.is_empty() != m.is_empty() { return err(format!("len {} / is_empty {} with {} items", h.len(), h.is_empty(), m.len())); }
            let top = ever.iter().next_back().copied().unwrap_or(0);
            for r in (0..top + 3).chain([u64::MAX, 1 << 40]) {
                if h.retrieve(r) != m.get(&r) { return err(format!("retrieve({r}) is {:?} instead of {:?}", h.retrieve(r), m.get(&r))); }
                if h.modify(r).map(|x| x.clone()) != m.get(&r).cloned() { return err(format!("modify({r}) disagrees")); }
            }
            let mut a: Vec<(u64, String)> = h.iter_enumerated().map(|(k, v)| (*k, v.clone())).collect(); a.sort();
            let b: Vec<(u64, String)> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
            if a != b { return err(format!("iteration yields {:?} instead of {:?}", a, b)); }
            let mut a: Vec<String> = h.iter().cloned().collect(); a.sort(); let mut b: Vec<String> = m.values().cloned().collect(); b.sort();
            if a != b { return err("iter() disagrees"); }
            if h.iter_mut().count() != b.len() || h.iter_mut_enumerated().count() != b.len() { return err("iter_mut() disagrees"); }
            Ok(())
        };
        check(&mut h, &m, &ever)?;
        for (k, op) in ops.iter().enumerate() {
            let ids: Vec<u64> = ever.iter().copied().chain([ever.iter().next_back().map(|x| x + 1).unwrap_or(0)]).collect();
            match *op {
                R::Push => { let r = h.push(format!("p{k}")); if m.contains_key(&r) { return err(format!("step {k}: push returned the live id {r}")); } m.insert(r, format!("p{k}")); ever.insert(r); }
                R::Take(i) => { let r = ids[i as usize % ids.len()]; let got = h.take(r); let e = m.remove(&r); if got != e { return err(format!("step {k}: take({r}) is {:?} instead of {:?}", got, e)); } }
                R::Modify(i) => { let r = ids[i as usize % ids.len()]; if let Some(x) = h.modify(r) { *x = format!("m{k}"); if !m.contains_key(&r) { return err("modify of a missing id"); } m.insert(r, format!("m{k}")); } else if m.contains_key(&r) { return err("modify of a live id failed"); } }
                R::Look => (),
            }
            check(&mut h, &m, &ever).map_err(|e| format!("step {k}: {e}"))?;
        }
        Ok(!ops.is_empty())
    }
    let al = [R::Push, R::Take(0), R::Take(1), R::Take(2), R::Modify(1), R::Take(3)];
    let mut idx = 0;
    for start in [None, Some(0), Some(1), Some(2), Some(5)] { for len in 0..=5usize { for a in 0..6usize.pow(len as u32) {
        let i = idx; idx += 1;
        if c.skip("exhaustive", i) { continue; }
        let ops: Vec<R> = (0..len).map(|k| al[a / 6usize.pow(k as u32) % 6]).collect();
        c.case("exhaustive", i, || format!("start {:?} {:?}", start, ops), || run(start, &ops));
    } } }
    for i in 0..c.n(3000, 80000) { if c.expired() { break; }
        let mut r = c.rng("random", i);
        let start = match r.below(3) { 0 => None, _ => Some(r.below(9)) };
        let len = 5 + r.below(40);
        let ops: Vec<R> = (0..len).map(|_| match r.below(5) { 0 | 1 => R::Push, 2 | 3 => R::Take(r.below(250) as u8), _ => R::Modify(r.below(250) as u8) }).collect();
        c.case("random", i, || format!("start {:?} {:?}", start, ops), || run(start, &ops));
    }
}

// ---------------------------------------------------------------- C05
fn segs_of(text: &str) -> Vec<String> { text.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() }
fn drain(mut p: NodePath) -> Vec<String> { let mut v = vec![]; while let Some(s) = p.pop_front_as_string() { v.push(s); if v.len() > 10_000 { break; } } v }
fn path_case(text: &str) -> Res {
    let p = NodePath::from_str(text);
    let e = segs_of(text);
    if drain(p.clone()) != e { return err(format!("{:?} parses to {:?}", text, drain(p))); }
    if p.is_absolute() != text.starts_with('/') { return err(format!("{:?} is_absolute is {}", text, p.is_absolute())); }
    let printed = p.clone().to_string();
    let back = NodePath::from_str(&printed);
    if back != p { return err(format!("{:?} prints as {:?}, which parses to {:?}", text, printed, back)); }
    // built segment by segment
    let mut b = if p.is_absolute() { NodePath::new_abs() } else { NodePath::new() };
    for s in &e { b.add_node(s); }
    if b != p || b.is_absolute() != p.is_absolute() { return err(format!("adding the segments of {:?} one by one builds {:?}", text, b)); }
    let again = NodePath::from_str(&b.clone().to_string());
    if again != b { return err(format!("the built path {:?} prints as {:?}", b, b.clone().to_string())); }
    Ok(!e.is_empty())
}
pub fn c05(c: &mut Ctx) {
    let al = ["a", "b", ".", "/", "é"];
    let mut idx = 0;
    for len in 0..=c.n(6, 8) as usize { for a in 0..5usize.pow(len as u32) {
        let i = idx; idx += 1;
        if c.skip("exhaustive", i) { continue; }
        let s: String = (0..len).map(|k| al[a / 5usize.pow(k as u32) % 5]).collect();
        c.case("exhaustive", i, || format!("{:?}", s), || path_case(&s));
    } }
    // "." and ".." are told from names: only visible through their meaning in a tree
    let mut i = 0;
    for (name, walks) in [(".", "this"), ("..", "parent"), ("...", "name"), (". ", "name"), (".a", "name"), ("a.", "name"), ("..a", "name")] {
        let k = i; i += 1;
        c.case("meaning", k, || format!("segment {:?} is a {}", name, walks), || {
            use crate::world::*;
            reset();
            let mut sp = of_shape(&[9, 0, 1], &mut |i| (0, super::world::plain_name(i), false));
            sp.kids[0].kids[0].name = "leaf".into();
            if walks == "name" { sp.kids[0].kids[0].name = name.into(); }
            let w = World::new(&sp)?;
            let got = w.node_ref(1)?.get_node_dyn(NodePath::from_str(name)).to_option().map(|t| t.rid());
            let e = match walks { "this" => w.m[1].rid, "parent" => w.m[0].rid, _ => w.m[2].rid };
            if got != Some(e) { return err(format!("{:?} resolves to {:?} instead of {}", name, got, e)); }
            let mut p = NodePath::new(); p.add_node(name);
            let got = w.node_ref(1)?.get_node_dyn(p).to_option().map(|t| t.rid());
            if got != Some(e) { return err(format!("added segment {:?} resolves to {:?} instead of {}", name, got, e)); }
            Ok(true)
        });
    }
    for i in 0..c.n(20000, 400000) { if c.expired() { break; }
        let mut r = c.rng("random", i);
        let al = ["/", "/", ".", "..", "a", "Node", "é", " ", "\\", "💧", "1", "//", "\n", "~"];
        let n = r.below(12); let s: String = (0..n).map(|_| *r.pick(&al)).collect();
        c.case("random", i, || format!("{:?}", s), || path_case(&s));
    }
}

// ---------------------------------------------------------------- C13
pub fn c13(c: &mut Ctx) {
    macro_rules! nullable { ($g:literal, $F:ident, $clone_void:expr) => {
        for i in 0..c.n(4000, 60000) { if c.expired() { break; }
            let seed = c.rng($g, i).0;
            c.case($g, i, || format!("{} history seed {:#x}", stringify!($F), seed), || {
                let mut r = Rng(seed); let mut t = String::new();
                let mut f: $F<String> = match r.below(4) { 0 => $F::void(), 1 => "x".to_string().into(), 2 => { use node_tree::traits::element::AsElement; "x".to_string().wrap() }, _ => $F::new("x".into()) };
                let mut m: Option<String> = None;
                if f.is_reachable() { m = Some("x".into()); }
                let n = 1 + r.below(10);
                for k in 0..n {
                    let v = format!("w{k}");
                    match r.below(7) {
                        0 => { t += " write"; let old = f.write_valid(v.clone()); if old != m { return err(format!("{t}: write_valid returned {:?} instead of {:?}", old, m)); } m = Some(v); }
                        1 => { t += " take"; let got = f.take(); if got != m { return err(format!("{t}: take returned {:?} instead of {:?}", got, m)); } m = None; }
                        2 => { t += " deref-write"; if m.is_some() { *f = v.clone(); m = Some(v); } }
                        3 => { t += " push"; if let Some(x) = &mut m { f.push('!'); x.push('!'); } }
                        4 => { t += " clone"; let g = f.clone(); let e = if $clone_void { None } else { m.clone() }; if g.is_void() != e.is_none() { return err(format!("{t}: clone is void: {}", g.is_void())); } if let Some(e) = e { if *g != e { return err(format!("{t}: clone holds {:?}", *g)); } } }
                        5 => { t += " force_take"; if let Some(x) = m.take() { let old = std::mem::replace(&mut f, $F::void()); let got = old.force_take(); if got != x { return err(format!("{t}: force_take returned {:?}", got)); } } }
                        _ => { t += " operator"; if let Some(x) = &mut m { let mut s: $F<i32> = $F::new(3); s += 4; if *s != 7 { return err("+="); } x.push('?'); f.push('?'); } }
                    }
                    if f.is_void() != m.is_none() || f.is_reachable() == m.is_none() { return err(format!("{t}: is_void {} is_reachable {}", f.is_void(), f.is_reachable())); }
                    if let Some(x) = &m { if *f != *x || f.as_inner() as &String != x { return err(format!("{t}: holds {:?} instead of {:?}", *f, x)); } }
                }
                Ok(true)
            });
        }
        c.case($g, 10_000_000, || format!("a void {} cannot be used", stringify!($F)), || {
            let f: $F<String> = $F::void();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.len())); if r.is_ok() { return err("dereferencing a void wrapper yields a value"); }
            let f: $F<String> = $F::void();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.force_take())); if r.is_ok() { return err("taking from a void wrapper by force yields a value"); }
            Ok(true)
        });
    } }
    nullable!("field", Field, false);
    nullable!("unique", UniqueField, true);
    macro_rules! plain { ($g:literal, $F:ident) => {
        for i in 0..200 { c.case($g, i, || format!("{} value {}", stringify!($F), i), || {
            let mut f: $F<i64> = if i % 2 == 0 { $F::new(i as i64) } else { (i as i64).into() };
            if *f != i as i64 || *(f.as_inner() as &i64) != i as i64 { return err("new"); }
            let g = f.clone(); *f = 77; if *f != 77 || *g != i as i64 { return err("write or clone"); }
            let v: $F<i64> = Voidable::void(); if *v != 0 { return err("void is not the default"); }
            if ($F::new(1i64) == $F::new(2i64)) || ($F::new(5i64) != $F::new(5i64)) || !($F::new(1i64) < $F::new(2i64)) { return err("comparison"); }
            Ok(true)
        }); }
    } }
    plain!("exportable", ExportableField);
    plain!("default", DefaultField);
    macro_rules! ops { ($g:literal, $F:ident) => {{
        let vals: Vec<i64> = vec![1, 2, 3, 5, 7, 12, 100, 6, 13, -4, -9];
        let mut idx = 0;
        for &x in &vals { for &y in &vals {
            let i = idx; idx += 1;
            c.case($g, i, || format!("{} {} op= {}", stringify!($F), x, y), || {
                macro_rules! one { ($op:tt, $x:expr, $y:expr) => {{
                    let mut e = $x; e $op $y;
                    let mut a = $F::new($x); a $op $y; if *a != e { return err(format!("{} {} {} gives {}, not {}", $x, stringify!($op), $y, *a, e)); }
                    let mut b = $F::new($x); b $op $F::new($y); if *b != e { return err(format!("{} {} wrapper {} gives {}, not {}", $x, stringify!($op), $y, *b, e)); }
                }} }
                one!(+=, x, y); one!(-=, x, y); one!(*=, x, y); one!(/=, x, y); one!(%=, x, y); one!(|=, x, y); one!(^=, x, y); one!(&=, x, y);
                let (ux, uy) = (x as i64, (y.unsigned_abs() % 20) as i64); one!(<<=, ux, uy); one!(>>=, ux * 1000, uy);
                Ok(true)
            });
        } }
        // every width, so that an operator does the same whatever the contained type
        let mut idx = 1_000_000;
        macro_rules! width { ($T:ident) => { for (x, y) in [(16, 2), (100, 3), (7, 7), (1, 1), (96, 5)] { let i = idx; idx += 1;
            c.case($g, i, || format!("{}<{}> {} op= {}", stringify!($F), stringify!($T), x, y), || {
                macro_rules! one { ($op:tt, $y:expr) => {{ let (x, y): ($T, $T) = (x, $y);
                    let mut e = x; e $op y;
                    let mut a = $F::new(x); a $op y; if *a != e { return err(format!("{} {} {} gives {}, not {}", x, stringify!($op), y, *a, e)); }
                    let mut b = $F::new(x); b $op $F::new(y); if *b != e { return err(format!("{} {} wrapper {} gives {}, not {}", x, stringify!($op), y, *b, e)); }
                }} }
                one!(-=, y); one!(/=, y); one!(%=, y); one!(|=, y); one!(^=, y); one!(&=, y); one!(<<=, y); one!(>>=, y); one!(+=, 1); one!(*=, 1);
                Ok(true)
            });
        } } }
        width!(u8); width!(i8); width!(u16); width!(i16); width!(u32); width!(i32); width!(u64); width!(i64);
    }} }
    ops!("ops-field", Field); ops!("ops-exportable", ExportableField); ops!("ops-unique", UniqueField); ops!("ops-default", DefaultField);
}

// ---------------------------------------------------------------- C14
fn kinds() -> Vec<(&'static str, Value)> {
    let mut it = toml::InlineTable::new(); it.insert("zz", 1i64.into());
    let mut it2 = toml::InlineTable::new(); it2.insert("value", "q".into());
    vec![("int", 3i64.into()), ("int", (-1i64).into()), ("int", i64::MAX.into()), ("int", i64::MIN.into()), ("int", 256i64.into()), ("float", 1.5f64.into()), ("float", (-1.0f64).into()), ("float", f64::NAN.into()), ("float", f64::INFINITY.into()), ("float", 1e300.into()),
        ("bool", true.into()), ("str", "x".into()), ("str", "".into()), ("str", "hello".into()), ("str", "é".into()), ("str", "1.2.3.4".into()),
        ("arr", Value::Array(toml::Array::new())), ("arr", Value::Array([1i64].into_iter().collect())), ("arr", Value::Array([1i64, 300].into_iter().collect())), ("arr", Value::Array([1.0f64, 2.0].into_iter().collect())), ("arr", Value::Array(["a", "b", "c"].into_iter().collect())),
        ("arr", Value::Array([1i64, 2, 3].into_iter().collect())), ("arr", Value::Array([1i64, 2, 3, 4].into_iter().collect())), ("arr", Value::Array([true, false].into_iter().collect())),
        ("table", toml::InlineTable::new().into()), ("table", it.into()), ("table", it2.into()),
        ("date", Value::Datetime(toml::Formatted::new("1979-05-27T07:32:00Z".parse().unwrap())))]
}
/// Round trip of one value, through the value and through text.
fn rt<T: Exportable + Debug>(v: &T, same: impl Fn(&T, &T) -> bool) -> Result<(), String> {
    let val = v.to_value();
    match T::from_value(val.clone()) { Some(b) if same(v, &b) => (), b => return err(format!("{} {:?} encodes to {} and decodes to {:?}", std::any::type_name::<T>(), v, val, b)) }
    let mut d = toml::DocumentMut::new(); d["k"] = toml::Item::Value(val);
    let text = d.to_string();
    let d2: toml::DocumentMut = text.parse().map_err(|e| format!("{:?} is written as {:?}: {}", v, text, e))?;
    match T::from_value(d2["k"].as_value().unwrap().clone()) { Some(b) if same(v, &b) => Ok(()), b => err(format!("{} {:?} is written as {:?} and read as {:?}", std::any::type_name::<T>(), v, text, b)) }
}
pub fn c14(c: &mut Ctx) {
    // name, values, kinds of value that may decode
    macro_rules! ty { ($name:literal, $T:ty, $vals:expr, $kinds:expr) => { ty!($name, $T, $vals, $kinds, |a: &$T, b: &$T| a == b) };
        ($name:literal, $T:ty, $vals:expr, $kinds:expr, $same:expr) => {{
            let vals: Vec<$T> = $vals;
            for (i, v) in vals.iter().enumerate() { c.case(concat!("value ", $name), i as u64, || { let mut s = format!("{} {:?}", $name, v); if s.len() > 400 { s = s.chars().take(400).collect(); } s }, || { rt(v, $same)?; Ok(true) }); }
            let allowed: &[&str] = &$kinds;
            for (i, (k, v)) in kinds().into_iter().enumerate() { c.case(concat!("decode ", $name), i as u64, || format!("{} from {}", $name, v), || {
                let got = <$T>::from_value(v.clone());
                if !allowed.contains(&k) && got.is_some() { return err(format!("{} decodes to {:?}", v, got)); }
                Ok(true)
            }); }
        }} }
    macro_rules! int { ($name:literal, $T:ty) => {{
        ty!($name, $T, vec![0, 1, <$T>::MAX, <$T>::MIN, <$T>::MAX - 1, <$T>::MAX / 2, 7], ["int"]);
        let mut i = 0;
        for base in [<$T>::MIN as i128, <$T>::MAX as i128, 0, 1 << 8, 1 << 16, 1 << 32, -(1 << 31), 1 << 31, i64::MAX as i128, i64::MIN as i128, 1 << 15, -(1 << 15), 1 << 7, -(1 << 7)] { for d in -2..=2i128 {
            let x = base + d; if x < i64::MIN as i128 || x > i64::MAX as i128 { continue; } let x = x as i64;
            c.case(concat!("range ", $name), i, || format!("{} from the integer {}", $name, x), || {
                let got = <$T>::from_value(x.into());
                let e = if $name == "u64" { Some(x as $T) } else { <$T>::try_from(x).ok() };
                if got != e { return err(format!("{} decodes to {:?} instead of {:?}", x, got, e)); }
                Ok(true)
            }); i += 1;
        } }
    }} }
    int!("u8", u8); int!("u16", u16); int!("u32", u32); int!("u64", u64); int!("i8", i8); int!("i16", i16); int!("i32", i32); int!("i64", i64);
    ty!("bool", bool, vec![true, false], ["bool"]);
    let fl = [0.0f64, -0.0, 1.0, -1.5, 1e-300, 1e300, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1, 1.0 / 3.0];
    ty!("f64", f64, fl.to_vec(), ["float"], |a: &f64, b: &f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()));
    ty!("f32", f32, fl.iter().map(|x| *x as f32).chain([f32::MAX, f32::MIN_POSITIVE, 1e-45]).collect(), ["float"], |a: &f32, b: &f32| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()));
    ty!("char", char, vec!['a', 'é', '💧', '\u{0}', '"', '\\', '\n', '\u{10FFFF}', '0', '\u{301}', '\t', '\r', '\''], ["str"]);
    for (i, s) in ["", "ab", "éa", "aé", "éé"].iter().enumerate() { c.case("not a char", i as u64, || format!("{:?}", s), || { if let Some(x) = char::from_value((*s).into()) { return err(format!("{:?} decodes to the char {:?}", s, x)); } Ok(true) }); }
    let strs: Vec<String> = ["", "a", "é", "a\"b", "a\\b", "a\nb", "a\r\nb", "💧", "\u{0}", "'''", "\"\"\"", " lead", "\t", "0", "true", "a.b", "#"].map(String::from).to_vec();
    ty!("String", String, strs.clone(), ["str"]);
    ty!("NodePath", NodePath, ["", "a", "/", "/a", "a/b", "../a", "./.", "/a/../b", "..", ".", "é/b c"].map(NodePath::from_str).to_vec(), ["str"]);
    ty!("PathBuf", std::path::PathBuf, ["", "a", "/a/b", "a b/é", "..", "C:\\x"].map(|s| s.into()).to_vec(), ["str"]);
    ty!("Ipv4Addr", std::net::Ipv4Addr, ["0.0.0.0", "255.255.255.255", "127.0.0.1"].map(|s| s.parse().unwrap()).to_vec(), ["str"]);
    ty!("Ipv6Addr", std::net::Ipv6Addr, ["::", "::1", "ffff:ffff::1", "::ffff:1.2.3.4"].map(|s| s.parse().unwrap()).to_vec(), ["str"]);
    ty!("IpAddr", std::net::IpAddr, ["::", "::1", "1.2.3.4"].map(|s| s.parse().unwrap()).to_vec(), ["str"]);
    use std::time::Duration;
    ty!("Duration", Duration, vec![Duration::ZERO, Duration::from_millis(1), Duration::from_secs(1), Duration::new(5, 999_999_999), Duration::from_nanos(1), Duration::new(100_000, 123_456_789), Duration::from_secs(1 << 40), Duration::new(1 << 40, 1)], ["float"]);
    ty!("Datetime", toml::Datetime, ["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27T00:32:00.999999-07:00"].map(|s| s.parse().unwrap()).to_vec(), ["date"]);
    ty!("Option<u8>", Option<u8>, vec![None, Some(0), Some(255)], ["table"]);
    ty!("Option<Option<u8>>", Option<Option<u8>>, vec![None, Some(None), Some(Some(1))], ["table"]);
    ty!("Vec<u8>", Vec<u8>, vec![vec![], vec![1], vec![1, 2, 3], (0..=255).collect()], ["arr"]);
    ty!("Vec<String>", Vec<String>, vec![vec![], strs.clone()], ["arr"]);
    ty!("Vec<Vec<i32>>", Vec<Vec<i32>>, vec![vec![], vec![vec![]], vec![vec![-1], vec![2, 3]]], ["arr"]);
    ty!("Vec<Option<char>>", Vec<Option<char>>, vec![vec![None, Some('é')]], ["arr"]);
    ty!("HashSet<u8>", HashSet<u8>, vec![HashSet::new(), [1, 2, 3].into()], ["arr"]);
    ty!("BTreeSet<String>", BTreeSet<String>, vec![BTreeSet::new(), strs.iter().cloned().collect()], ["arr"]);
    ty!("HashMap<char,u8>", HashMap<char, u8>, vec![HashMap::new(), [('a', 1), ('é', 2), ('"', 3), ('.', 4), (' ', 5)].into()], ["table"]);
    ty!("HashMap<String,i64>", HashMap<String, i64>, vec![HashMap::new(), strs.iter().cloned().enumerate().map(|(i, s)| (s, i as i64)).collect()], ["table"]);
    ty!("BTreeMap<char,bool>", BTreeMap<char, bool>, vec![BTreeMap::new(), [('a', true), ('é', false), ('💧', true)].into()], ["table"]);
    ty!("BTreeMap<String,Vec<u8>>", BTreeMap<String, Vec<u8>>, vec![BTreeMap::new(), [("a".to_string(), vec![1]), ("".to_string(), vec![])].into()], ["table"]);
    for (i, key) in ["", "ab", "éa"].iter().enumerate() { c.case("not a char key", i as u64, || format!("{:?}", key), || { let mut t = toml::InlineTable::new(); t.insert(*key, 1i64.into()); let v: Value = t.into();
        if HashMap::<char, u8>::from_value(v.clone()).is_some() || BTreeMap::<char, u8>::from_value(v).is_some() { return err(format!("the key {:?} decodes to a char", key)); } Ok(true) }); }
    ty!("Box<u8>", Box<u8>, vec![Box::new(3)], ["int"]);
    ty!("Rc<String>", std::rc::Rc<String>, vec![std::rc::Rc::new("x".into())], ["str"]);
    ty!("Arc<char>", std::sync::Arc<char>, vec![std::sync::Arc::new('é')], ["str"]);
    ty!("Mutex<i8>", std::sync::Mutex<i8>, vec![std::sync::Mutex::new(-3)], ["int"], |a: &std::sync::Mutex<i8>, b: &std::sync::Mutex<i8>| *a.lock().unwrap() == *b.lock().unwrap());
    ty!("ExportableField<u8>", ExportableField<u8>, vec![ExportableField::new(9)], ["int"]);
    ty!("[u8;0]", [u8; 0], vec![[]], ["arr"]); ty!("[u8;3]", [u8; 3], vec![[1, 2, 3], [0, 255, 0]], ["arr"]); ty!("[String;2]", [String; 2], vec![["a".into(), "é".into()]], ["arr"]);
    ty!("[Vec<u8>;1]", [Vec<u8>; 1], vec![[vec![1, 2]]], ["arr"]);
    ty!("(u8,)", (u8,), vec![(1,)], ["arr"]); ty!("(u8,String)", (u8, String), vec![(1, "a".into())], ["arr"]); ty!("(u8,i8,bool)", (u8, i8, bool), vec![(1, -1, true)], ["arr"]);
    ty!("4", (u8, u8, u8, u8), vec![(1, 2, 3, 4)], ["arr"]); ty!("5", (u8, u8, u8, u8, u8), vec![(1, 2, 3, 4, 5)], ["arr"]); ty!("6", (u8, u8, u8, u8, u8, u8), vec![(1, 2, 3, 4, 5, 6)], ["arr"]);
    ty!("7", (u8, u8, u8, u8, u8, u8, u8), vec![(1, 2, 3, 4, 5, 6, 7)], ["arr"]); ty!("8", (u8, u8, u8, u8, u8, u8, u8, u8), vec![(1, 2, 3, 4, 5, 6, 7, 8)], ["arr"]);
    ty!("9", (u8, u8, u8, u8, u8, u8, u8, u8, u8), vec![(1, 2, 3, 4, 5, 6, 7, 8, 9)], ["arr"]); ty!("10", (u8, u8, u8, u8, u8, u8, u8, u8, u8, i64), vec![(1, 2, 3, 4, 5, 6, 7, 8, 9, -10)], ["arr"]);
    // wrong lengths
    for n in 0..12usize { c.case("length", n as u64, || format!("an array of {} ones", n), || {
        let v = || -> Value { Value::Array((0..n).map(|_| 1i64).collect()) };
        macro_rules! l { ($T:ty, $k:expr) => { if <$T>::from_value(v()).is_some() != (n == $k) { return err(format!("{} decodes from {} elements: {}", stringify!($T), n, <$T>::from_value(v()).is_some())); } } }
        l!([u8; 0], 0); l!([u8; 3], 3); l!((u8,), 1); l!((u8, u8), 2); l!((u8, u8, u8), 3); l!((u8, u8, u8, u8), 4); l!((u8, u8, u8, u8, u8), 5); l!((u8, u8, u8, u8, u8, u8), 6); l!((u8, u8, u8, u8, u8, u8, u8), 7);
        l!((u8, u8, u8, u8, u8, u8, u8, u8), 8); l!((u8, u8, u8, u8, u8, u8, u8, u8, u8), 9); l!((u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), 10);
        Ok(true) }); }
    glam_types(c);
    // an element of another kind, at every place of a container
    let tab = |k: &str, v: Value| -> Value { let mut t = toml::InlineTable::new(); t.insert(k, v); t.into() };
    for (i, bad) in [Value::from("x"), Value::from(300i64), Value::from(-1i64), Value::from(1.5f64), Value::from(true), Value::Array(toml::Array::new()), toml::InlineTable::new().into()].into_iter().enumerate() {
        let b = || bad.clone();
        c.case("element", i as u64, || format!("containers of u8 with the element {}", bad), || {
            macro_rules! no { ($T:ty, $v:expr) => { { let v: Value = $v; if let Some(x) = <$T>::from_value(v.clone()) { return err(format!("{} decodes {} to {:?}", stringify!($T), v, x)); } } } }
            macro_rules! arr { ($($x:expr),*) => { Value::Array([$(Value::from($x)),*].into_iter().collect()) } }
            no!(Option<u8>, tab("value", b())); no!(Option<Option<u8>>, tab("value", tab("value", b()))); no!(Vec<Option<u8>>, arr![tab("value", b())]);
            for at in 0..10usize {
                let v = |n: usize| -> Value { Value::Array((0..n).map(|k| if k == at { b() } else { Value::from(1i64) }).collect()) };
                if at < 1 { no!((u8,), v(1)); no!([u8; 1], v(1)); } if at < 2 { no!((u8, u8), v(2)); }
                if at < 3 { no!(Vec<u8>, v(3)); no!(HashSet<u8>, v(3)); no!(BTreeSet<u8>, v(3)); no!([u8; 3], v(3)); no!((u8, u8, u8), v(3)); no!(Box<Vec<u8>>, v(3)); }
                if at < 4 { no!((u8, u8, u8, u8), v(4)); } if at < 5 { no!((u8, u8, u8, u8, u8), v(5)); } if at < 6 { no!((u8, u8, u8, u8, u8, u8), v(6)); } if at < 7 { no!((u8, u8, u8, u8, u8, u8, u8), v(7)); }
                if at < 8 { no!((u8, u8, u8, u8, u8, u8, u8, u8), v(8)); } if at < 9 { no!((u8, u8, u8, u8, u8, u8, u8, u8, u8), v(9)); } no!((u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), v(10));
            }
            for (k, v) in [("a", b()), ("é", b())] { let mut t = toml::InlineTable::new(); t.insert("q", 1i64.into()); t.insert(k, v); t.insert("z", 2i64.into()); let t: Value = t.into();
                no!(HashMap<char, u8>, t.clone()); no!(BTreeMap<char, u8>, t.clone()); no!(HashMap<String, u8>, t.clone()); no!(BTreeMap<String, u8>, t.clone()); }
            Ok(true) });
    }
    // text of any kind never makes decoding panic
    for i in 0..c.n(3000, 100000) { if c.expired() { break; }
        let mut r = c.rng("random", i);
        fn val(r: &mut Rng, d: usize) -> Value { match r.below(if d == 0 { 5 } else { 7 }) {
            0 => (r.next() as i64 >> r.below(64)).into(), 1 => f64::from_bits(r.next()).into(), 2 => r.coin().into(),
            3 | 4 => { let n = r.below(4); (0..n).map(|_| *r.pick(&['a', 'é', '1', '.', '/', ':', '💧', '"'])).collect::<String>().into() }
            5 => { let n = r.below(4); Value::Array((0..n).map(|_| val(r, d - 1)).collect()) }
            _ => { let n = r.below(3); let mut t = toml::InlineTable::new(); for _ in 0..n { t.insert(*r.pick(&["a", "value", "é", "zz", ""]), val(r, d - 1)); } t.into() } } }
        let v = val(&mut r, 2);
        c.case("random", i, || format!("{}", v), || {
            macro_rules! again { ($($T:ty),*) => { $( if let Some(x) = <$T>::from_value(v.clone()) { let y = x.to_value(); if y.type_name() != v.type_name() { return err(format!("{} decodes as {} to a value that encodes to {}", v, stringify!($T), y)); } match <$T>::from_value(y.clone()) { None => return err(format!("{} decodes as {} but its encoding {} does not", v, stringify!($T), y)), Some(_) => () } } )* } }
            again!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, char, String, NodePath, std::path::PathBuf, std::net::IpAddr, std::net::Ipv4Addr, Duration, Option<u8>, Option<String>, Vec<i32>, Vec<f64>, Vec<Vec<char>>, HashMap<char, i64>, HashMap<String, String>, BTreeMap<char, f64>, BTreeMap<String, bool>, HashSet<i64>, BTreeSet<char>, [i64; 2], [String; 1], (i64, f64), (u8,), (String, String, String));
            Ok(true)
        });
    }
}
fn glam_types(c: &mut Ctx) {
    use glam::*;
    macro_rules! g { ($($T:ident : [$($v:expr),*];)*) => { $( {
        for (i, v) in [$($v),*].into_iter().enumerate() { c.case(concat!("glam ", stringify!($T)), i as u64, || format!("{:?}", v), || { rt::<$T>(&v, |a, b| a == b)?; Ok(true) }); }
        for (i, (k, v)) in kinds().into_iter().enumerate() { c.case(concat!("glam decode ", stringify!($T)), i as u64, || format!("{} from {}", stringify!($T), v), || { let got = <$T>::from_value(v.clone()); if k != "arr" && got.is_some() { return err(format!("{} decodes to {:?}", v, got)); } Ok(true) }); }
    } )* } }
    g! { BVec2: [BVec2::new(true, false)]; BVec3: [BVec3::new(true, false, false), BVec3::new(false, true, false), BVec3::new(false, false, true)]; BVec4: [BVec4::new(true, false, false, false), BVec4::new(false, true, false, true)];
        U8Vec2: [U8Vec2::new(1, 255)]; U8Vec3: [U8Vec3::new(1, 2, 255)]; U8Vec4: [U8Vec4::new(1, 2, 3, 255)];
        U16Vec2: [U16Vec2::new(1, u16::MAX)]; U16Vec3: [U16Vec3::new(1, 2, u16::MAX)]; U16Vec4: [U16Vec4::new(1, 2, 3, u16::MAX)];
        UVec2: [UVec2::new(1, u32::MAX)]; UVec3: [UVec3::new(1, 2, u32::MAX)]; UVec4: [UVec4::new(1, 2, 3, u32::MAX)];
        U64Vec2: [U64Vec2::new(1, u64::MAX)]; U64Vec3: [U64Vec3::new(1, 2, u64::MAX)]; U64Vec4: [U64Vec4::new(1, 2, 3, u64::MAX)];
        I8Vec2: [I8Vec2::new(1, i8::MIN)]; I8Vec3: [I8Vec3::new(1, 2, i8::MIN)]; I8Vec4: [I8Vec4::new(1, 2, 3, i8::MIN)];
        I16Vec2: [I16Vec2::new(1, i16::MIN)]; I16Vec3: [I16Vec3::new(1, 2, i16::MIN)]; I16Vec4: [I16Vec4::new(1, 2, 3, i16::MIN)];
        IVec2: [IVec2::new(1, i32::MIN)]; IVec3: [IVec3::new(1, 2, i32::MIN)]; IVec4: [IVec4::new(1, 2, 3, i32::MIN)];
        I64Vec2: [I64Vec2::new(1, i64::MIN)]; I64Vec3: [I64Vec3::new(1, 2, i64::MIN)]; I64Vec4: [I64Vec4::new(1, 2, 3, i64::MIN)];
        Vec2: [Vec2::new(1.5, -2.25)]; Vec3: [Vec3::new(1.5, -2.25, 3.0)]; Vec3A: [Vec3A::new(1.5, -2.25, 3.0)]; Vec4: [Vec4::new(1.5, -2.25, 3.0, 0.1)];
        DVec2: [DVec2::new(1.5, -2.25)]; DVec3: [DVec3::new(1.5, -2.25, 3.0)]; DVec4: [DVec4::new(1.5, -2.25, 3.0, 0.1)];
        Quat: [Quat::from_xyzw(1.0, 2.0, 3.0, 4.0)]; DQuat: [DQuat::from_xyzw(1.0, 2.0, 3.0, 4.0)];
        Mat2: [Mat2::from_cols_array(&[1.0, 2.0, 3.0, 4.0])]; Mat3: [Mat3::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0])]; Mat3A: [Mat3A::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0])];
        Mat4: [Mat4::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0, 13.0, 14.0, 15.0, 16.0])];
        DMat2: [DMat2::from_cols_array(&[1.0, 2.0, 3.0, 4.0])]; DMat3: [DMat3::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0])];
        DMat4: [DMat4::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0, 13.0, 14.0, 15.0, 16.0])];
        Affine2: [Affine2::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0])]; Affine3A: [Affine3A::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0])];
        DAffine2: [DAffine2::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0])]; DAffine3: [DAffine3::from_cols_array(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0])];
    }
    for (i, x) in [-1i64, 256, 1 << 16, 1 << 32, -(1 << 40)].into_iter().enumerate() { c.case("glam range", i as u64, || format!("{x}"), || {
        let v = |n: usize| -> Value { Value::Array((0..n).map(|_| x).collect()) };
        macro_rules! l { ($T:ident, $p:ty, $n:expr) => { if $T::from_value(v($n)).is_some() != <$p>::try_from(x).is_ok() { return err(format!("{} from {}", stringify!($T), x)); } } }
        l!(U8Vec2, u8, 2); l!(U8Vec3, u8, 3); l!(U8Vec4, u8, 4); l!(U16Vec2, u16, 2); l!(U16Vec3, u16, 3); l!(U16Vec4, u16, 4); l!(UVec2, u32, 2); l!(UVec3, u32, 3); l!(UVec4, u32, 4);
        l!(I8Vec2, i8, 2); l!(I8Vec3, i8, 3); l!(I8Vec4, i8, 4); l!(I16Vec2, i16, 2); l!(I16Vec3, i16, 3); l!(I16Vec4, i16, 4); l!(IVec2, i32, 2); l!(IVec3, i32, 3); l!(IVec4, i32, 4);
        Ok(true) }); }
}
