use crate::{Ctx, Res, Rng};
use crate::world::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use node_tree::prelude::*;
use node_tree::structs::{node_tree_base::NodeIdentity, node_base::NodeStatus};
use node_tree::structs::logger::{Logger, SystemCall};
use node_tree::trees::TreeSimple;

fn err<T>(m: impl Into<String>) -> Result<T, String> { Err(m.into()) }

// ---------------------------------------------------------------- C10
#[derive(Clone, Copy, Debug)]
enum G { Connect(u8), Once(u8), Emit(u8), Disconnect(u8, u8), Clone }
fn signals(ops: &[G]) -> Res {
    let log: Rc<RefCell<Vec<(usize, i32)>>> = Rc::default();
    let mut sigs: Vec<Signal<i32>> = vec![Signal::new()];
    let mut model: Vec<BTreeMap<u64, (usize, bool)>> = vec![BTreeMap::new()];
    let mut issued: Vec<u64> = vec![]; let mut handlers = 0;
    for (k, op) in ops.iter().enumerate() {
        match *op {
            G::Connect(s) | G::Once(s) => {
                let s = s as usize % sigs.len(); let id = handlers; handlers += 1; let l = log.clone();
                let f = move |x: &i32| l.borrow_mut().push((id, *x));
                let once = matches!(op, G::Once(_));
                let rid = unsafe { if once { sigs[s].connect_once(f) } else { sigs[s].connect(f) } };
                if model[s].contains_key(&rid) { return err(format!("step {k}: connection {rid} is already in use")); }
                model[s].insert(rid, (id, once)); issued.push(rid);
            }
            G::Emit(s) => {
                let s = s as usize % sigs.len(); log.borrow_mut().clear();
                let v = k as i32 * 3 + 1;
                match k % 3 { 0 => sigs[s].emit(v), 1 => sigs[s].emit(Field::new(v)), _ => sigs[s].emit(ExportableField::new(v)) }
                let mut got = log.borrow().clone(); got.sort();
                let mut e: Vec<(usize, i32)> = model[s].values().map(|(i, _)| (*i, v)).collect(); e.sort();
                if got != e { return err(format!("step {k}: emission called {:?} instead of {:?}", got, e)); }
                model[s].retain(|_, (_, once)| !*once);
            }
            G::Disconnect(s, i) => {
                let s = s as usize % sigs.len();
                let rid = if issued.is_empty() { i as u64 } else { issued.get(i as usize % (issued.len() + 1)).copied().unwrap_or(999) };
                let got = sigs[s].disconnect(rid); let e = model[s].remove(&rid).is_some();
                if got != e { return err(format!("step {k}: disconnect({rid}) reported {got}")); }
            }
            G::Clone => { if sigs.len() < 4 { let c = sigs[k % sigs.len()].clone(); sigs.push(c); model.push(BTreeMap::new()); } }
        }
    }
    // what is connected at the end
    for s in 0..sigs.len() {
        log.borrow_mut().clear(); sigs[s].emit(-7);
        let mut got = log.borrow().clone(); got.sort();
        let mut e: Vec<(usize, i32)> = model[s].values().map(|(i, _)| (*i, -7)).collect(); e.sort();
        if got != e { return err(format!("at the end: emission of signal {s} called {:?} instead of {:?}", got, e)); }
        model[s].retain(|_, (_, once)| !*once);
        log.borrow_mut().clear(); sigs[s].emit(-8);
        if log.borrow().len() != model[s].len() { return err("at the end: second emission"); }
    }
    Ok(handlers > 0)
}
pub fn c10(c: &mut Ctx) {
    let al = [G::Connect(0), G::Once(0), G::Emit(0), G::Disconnect(0, 0), G::Disconnect(0, 1), G::Clone, G::Emit(1)];
    let mut idx = 0;
    for len in 1..=5usize { for a in 0..7usize.pow(len as u32) {
        let i = idx; idx += 1;
        if c.skip("exhaustive", i) { continue; }
        let ops: Vec<G> = (0..len).map(|k| al[a / 7usize.pow(k as u32) % 7]).collect();
        c.case("exhaustive", i, || format!("{:?}", ops), || signals(&ops));
    } }
    for i in 0..c.n(4000, 100000) { if c.expired() { break; }
        let mut r = c.rng("random", i);
        let n = 4 + r.below(30);
        let ops: Vec<G> = (0..n).map(|_| match r.below(9) { 0..=2 => G::Connect(r.below(4) as u8), 3 | 4 => G::Once(r.below(4) as u8), 5 | 6 => G::Emit(r.below(4) as u8), 7 => G::Disconnect(r.below(4) as u8, r.below(200) as u8), _ => G::Clone }).collect();
        c.case("random", i, || format!("{:?}", ops), || signals(&ops));
    }
}

// ---------------------------------------------------------------- C12
pub fn c12(c: &mut Ctx) {
    // The tree a result reports to is observed through Debug, which prints the owner and the tree pointer.
    fn meta(s: String) -> String { let mut out = String::new(); for key in ["tree: ", "owner: "] { if let Some(i) = s.find(key) { let e = s[i..].find(|c| c == ',' || c == ' ' && false || c == '}').map(|x| i + x).unwrap_or(s.len()); out += &s[i..e]; out.push(';'); } } out }
    let mut ta = TreeSimple::new(NA::new(1), LoggerVerbosity::OnlyPanics);
    let mut tb = TreeSimple::new(NA::new(2), LoggerVerbosity::OnlyPanics);
    let (pa, pb): (*mut dyn NodeTree, *mut dyn NodeTree) = (ta.as_dyn_raw_mut(), tb.as_dyn_raw_mut());
    let o = |x: Option<i32>| -> TreeOption<'static, i32> { unsafe { TreeOption::new(pa, 11, x) } };
    let o2 = |x: Option<i32>| -> TreeOption<'static, i32> { unsafe { TreeOption::new(pb, 22, x) } };
    let r = |x: Result<i32, i64>| -> TreeResult<'static, i32, i64> { unsafe { TreeResult::new(pa, 11, x) } };
    let r2 = |x: Result<i32, i64>| -> TreeResult<'static, i32, i64> { unsafe { TreeResult::new(pb, 22, x) } };
    let home = meta(format!("{:?}", o(None)));
    let vals: Vec<Option<i32>> = vec![None, Some(0), Some(1), Some(-5), Some(7)];
    let calls: RefCell<Vec<i64>> = RefCell::default();
    let called = |x: i64| calls.borrow_mut().push(x);
    let taken = || std::mem::take(&mut *calls.borrow_mut());
    let mut idx = 0;
    macro_rules! same { ($what:literal, $got:expr, $want:expr) => {{ taken(); let g = $got; let gc = taken(); let w = $want; let wc = taken(); if g != w { return err(format!("{}: {:?} instead of {:?}", $what, g, w)); } if gc != wc { return err(format!("{}: closures called with {:?} instead of {:?}", $what, gc, wc)); } }} }
    macro_rules! kept { ($what:literal, $x:expr) => {{ let m = meta(format!("{:?}", $x)); if m != home { return err(format!("{} reports to {} instead of {}", $what, m, home)); } }} }
    for a in &vals { for b in &vals { for p in [false, true] {
        let (a, b) = (*a, *b); let i = idx; idx += 1;
        c.case("option", i, || format!("{:?} with {:?}, predicate {}", a, b, p), || {
            let f = |x: i32| { called(x as i64); x * 3 + 1 };
            let fb = |x: i32| { called(x as i64); b.map(|y| x * 10 + y) };
            same!("to_option", o(a).to_option(), a);
            same!("is_some", o(a).is_some(), a.is_some()); same!("is_none", o(a).is_none(), a.is_none());
            same!("is_some_and", o(a).is_some_and(|x| { called(*x as i64); p }), a.as_ref().is_some_and(|x| { called(*x as i64); p }));
            same!("as_ref", o(a).as_ref().to_option().copied(), a.as_ref().copied()); kept!("as_ref", o(a).as_ref());
            let mut m = o(a); let mut n = a; if let Some(x) = m.as_mut().to_option() { *x += 1 } if let Some(x) = n.as_mut() { *x += 1 } same!("as_mut", m.to_option(), n); kept!("as_mut", o(a).as_mut());
            same!("as_slice", o(a).as_slice().to_vec(), a.as_slice().to_vec());
            let mut m = o(a); let mut n = a; m.as_mut_slice().iter_mut().for_each(|x| *x = 9); n.as_mut_slice().iter_mut().for_each(|x| *x = 9); same!("as_mut_slice", m.to_option(), n);
            if let Some(x) = a { same!("unwrap", o(a).unwrap(), x); same!("expect", o(a).expect("m"), x); same!("unwrap_unchecked", unsafe { o(a).unwrap_unchecked() }, x); }
            same!("unwrap_or", o(a).unwrap_or(42), a.unwrap_or(42));
            same!("unwrap_or_else", o(a).unwrap_or_else(|| { called(-1); 42 }), a.unwrap_or_else(|| { called(-1); 42 }));
            same!("unwrap_or_default", o(a).unwrap_or_default(), a.unwrap_or_default());
            same!("map", o(a).map(f).to_option(), a.map(f)); kept!("map", o(a).map(|x| x));
            same!("inspect", o(a).inspect(|x| called(*x as i64 * 7)).to_option(), a.inspect(|x| called(*x as i64 * 7))); kept!("inspect", o(a).inspect(|_| ()));
            same!("map_or", o(a).map_or(5, f), a.map_or(5, f));
            same!("map_or_else", o(a).map_or_else(|| { called(-2); 8 }, f), a.map_or_else(|| { called(-2); 8 }, f));
            same!("ok_or", o(a).ok_or(3u8).to_result(), a.ok_or(3u8)); kept!("ok_or", o(a).ok_or(3u8));
            same!("ok_or_else", o(a).ok_or_else(|| { called(-3); 3u8 }).to_result(), a.ok_or_else(|| { called(-3); 3u8 })); kept!("ok_or_else", o(a).ok_or_else(|| 3u8));
            let bx = |x: Option<i32>| unsafe { TreeOption::new(pa, 11, x.map(Box::new)) };
            same!("as_deref", bx(a).as_deref().to_option().copied(), a.map(Box::new).as_deref().copied()); kept!("as_deref", bx(a).as_deref());
            let mut m = bx(a); let mut n = a.map(Box::new); if let Some(x) = m.as_deref_mut().to_option() { *x += 5 } if let Some(x) = n.as_deref_mut() { *x += 5 } same!("as_deref_mut", m.to_option(), n); kept!("as_deref_mut", bx(a).as_deref_mut());
            same!("iter", o(a).iter().copied().collect::<Vec<_>>(), a.iter().copied().collect::<Vec<_>>());
            let mut m = o(a); let mut n = a; m.iter_mut().for_each(|x| *x -= 3); n.iter_mut().for_each(|x| *x -= 3); same!("iter_mut", m.to_option(), n);
            same!("and", o(a).and(o2(b)).to_option(), a.and(b)); kept!("and", o(a).and(o2(b)));
            same!("and_then", o(a).and_then(|x| o2(fb(x))).to_option(), a.and_then(fb)); kept!("and_then", o(a).and_then(|_| o2(b)));
            same!("filter", o(a).filter(|x| { called(*x as i64); p }).to_option(), a.filter(|x| { called(*x as i64); p })); kept!("filter", o(a).filter(|_| p));
            same!("or", o(a).or(o2(b)).to_option(), a.or(b)); kept!("or", o(a).or(o2(b)));
            same!("or_else", o(a).or_else(|| { called(-4); o2(b) }).to_option(), a.or_else(|| { called(-4); b })); kept!("or_else", o(a).or_else(|| o2(b)));
            same!("xor", o(a).xor(o2(b)).to_option(), a.xor(b)); kept!("xor", o(a).xor(o2(b)));
            let mut m = o(a); let mut n = a; same!("insert", { let x = m.insert(4); *x += 1; *x }, { let x = n.insert(4); *x += 1; *x }); kept!("insert", m); same!("insert (after)", m.to_option(), n);
            let mut m = o(a); let mut n = a; same!("get_or_insert", { let x = m.get_or_insert(4); *x += 1; *x }, { let x = n.get_or_insert(4); *x += 1; *x }); kept!("get_or_insert", m); same!("get_or_insert (after)", m.to_option(), n);
            let mut m = o(a); let mut n = a; same!("get_or_insert_default", { let x = m.get_or_insert_default(); *x += 1; *x }, { let x = n.get_or_insert_with(i32::default); *x += 1; *x }); same!("get_or_insert_default (after)", m.to_option(), n);
            let mut m = o(a); let mut n = a; same!("get_or_insert_with", { let x = m.get_or_insert_with(|| { called(-5); 6 }); *x += 1; *x }, { let x = n.get_or_insert_with(|| { called(-5); 6 }); *x += 1; *x }); same!("get_or_insert_with (after)", m.to_option(), n);
            let mut m = o(a); let mut n = a; same!("take", m.take().to_option(), n.take()); kept!("take", o(a).take()); kept!("take (self)", m); same!("take (after)", m.to_option(), n);
            let q = |x: &mut i32| { called(*x as i64); *x += 100; p };
            let mut m = o(a); let mut n = a; same!("take_if", m.take_if(q).to_option(), n.take_if(q)); kept!("take_if", o(a).take_if(|_| p)); same!("take_if (after)", m.to_option(), n);
            let mut m = o(a); let mut n = a; same!("replace", m.replace(8), n.replace(8)); same!("replace (after)", m.to_option(), n);
            same!("zip", o(a).zip(o2(b)).to_option(), a.zip(b)); kept!("zip", o(a).zip(o2(b)));
            let pair = |x: Option<i32>| unsafe { TreeOption::new(pa, 11, x.map(|x| (x, b))) };
            { let (u, v) = pair(a).unzip(); kept!("unzip.0", u); kept!("unzip.1", v); same!("unzip", (u.to_option(), v.to_option()), a.map(|x| (x, b)).unzip()); }
            let mut st = 5; let mut st2 = 6;
            same!("copied", o(a).as_ref().copied().to_option(), a); kept!("copied", o(a).as_ref().copied()); same!("cloned", o(a).as_ref().cloned().to_option(), a); kept!("cloned", o(a).as_ref().cloned());
            same!("copied mut", unsafe { TreeOption::new(pa, 11, a.map(|x| { st = x; &mut st })) }.copied().to_option(), a); same!("cloned mut", unsafe { TreeOption::new(pa, 11, a.map(|x| { st2 = x; &mut st2 })) }.cloned().to_option(), a);
            let inner: Option<Result<i32, i64>> = a.map(|x| if p { Ok(x) } else { Err(x as i64) });
            let tr = || unsafe { TreeOption::new(pa, 11, inner.map(|x| r2(x))) };
            same!("transpose", tr().transpose().to_result().map(|x| x.to_option()), inner.transpose()); kept!("transpose", tr().transpose()); if let Ok(x) = tr().transpose().to_result() { kept!("transpose (inner)", x); }
            let nest: Option<Option<i32>> = a.map(|x| if p { Some(x) } else { b });
            same!("flatten", unsafe { TreeOption::new(pa, 11, nest.map(|x| o2(x))) }.flatten().to_option(), nest.flatten()); kept!("flatten", unsafe { TreeOption::new(pa, 11, nest.map(|x| o2(x))) }.flatten());
            kept!("transfer_owner", o(a).transfer_owner(o2(b))); same!("transfer_owner", o(a).transfer_owner(o2(b)).to_option(), b);
            Ok(true)
        });
    } } }
    let rv: Vec<Result<i32, i64>> = vec![Ok(0), Ok(3), Ok(-4), Err(0), Err(9)];
    let mut idx = 0;
    for a in &rv { for b in &rv { for p in [false, true] {
        let (a, b) = (*a, *b); let i = idx; idx += 1;
        c.case("result", i, || format!("{:?} with {:?}, predicate {}", a, b, p), || {
            let f = |x: i32| { called(x as i64); x * 3 + 1 };
            let g = |e: i64| { called(1000 + e); e * 2 + 1 };
            same!("to_result", r(a).to_result(), a); same!("to_option", r(a).to_option(), a.ok());
            same!("is_ok", r(a).is_ok(), a.is_ok()); same!("is_err", r(a).is_err(), a.is_err());
            same!("is_ok_and", r(a).is_ok_and(|x| { called(*x as i64); p }), a.is_ok_and(|x| { called(x as i64); p }));
            same!("is_err_and", r(a).is_err_and(|x| { called(*x); p }), a.is_err_and(|x| { called(x); p }));
            same!("ok", r(a).ok().to_option(), a.ok()); kept!("ok", r(a).ok()); same!("err", r(a).err().to_option(), a.err()); kept!("err", r(a).err());
            same!("as_ref", r(a).as_ref().to_result().map(|x| *x).map_err(|x| *x), a); kept!("as_ref", r(a).as_ref());
            let mut m = r(a); let mut n = a; match m.as_mut().to_result() { Ok(x) => *x += 1, Err(e) => *e -= 1 } match n.as_mut() { Ok(x) => *x += 1, Err(e) => *e -= 1 } same!("as_mut", m.clone().to_result(), n); kept!("as_mut", m.as_mut());
            same!("map", r(a).map(f).to_result(), a.map(f)); kept!("map", r(a).map(|x| x));
            same!("map_or", r(a).map_or(5, f), a.map_or(5, f)); same!("map_or_else", r(a).map_or_else(|e| g(e) as i32, f), a.map_or_else(|e| g(e) as i32, f));
            same!("map_err", r(a).map_err(g).to_result(), a.map_err(g)); kept!("map_err", r(a).map_err(|x| x));
            same!("inspect", r(a).inspect(|x| called(*x as i64)).to_result(), a.inspect(|x| called(*x as i64))); kept!("inspect", r(a).inspect(|_| ()));
            same!("inspect_err", r(a).inspect_err(|x| called(*x)).to_result(), a.inspect_err(|x| called(*x))); kept!("inspect_err", r(a).inspect_err(|_| ()));
            let bx = unsafe { TreeResult::new(pa, 11, a.map(Box::new)) };
            same!("as_deref", bx.as_deref().to_result().map(|x| *x).map_err(|e| *e), a); kept!("as_deref", bx.as_deref());
            let mut bm = unsafe { TreeResult::new(pa, 11, a.map(Box::new)) }; same!("as_deref_mut", bm.as_deref_mut().to_result().map(|x| { *x += 1; *x }).map_err(|e| *e), a.map(|x| x + 1));
            same!("iter", r(a).iter().copied().collect::<Vec<_>>(), a.iter().copied().collect::<Vec<_>>());
            let mut m = r(a); let mut n = a; m.iter_mut().for_each(|x| *x -= 3); n.iter_mut().for_each(|x| *x -= 3); same!("iter_mut", m.to_result(), n);
            if let Ok(x) = a { same!("unwrap", r(a).unwrap(), x); same!("expect", r(a).expect("m"), x); same!("unwrap_unchecked", unsafe { r(a).unwrap_unchecked() }, x); }
            if let Err(x) = a { same!("unwrap_err", r(a).unwrap_err(), x); same!("expect_err", r(a).expect_err("m"), x); same!("unwrap_err_unchecked", unsafe { r(a).unwrap_err_unchecked() }, x); }
            same!("unwrap_or_default", r(a).unwrap_or_default(), a.unwrap_or_default()); same!("unwrap_or", r(a).unwrap_or(42), a.unwrap_or(42));
            same!("unwrap_or_else", r(a).unwrap_or_else(|e| g(*e) as i32), a.unwrap_or_else(|e| g(e) as i32));
            same!("and", r(a).and(r2(b)).to_result(), a.and(b)); kept!("and", r(a).and(r2(b)));
            same!("and_then", r(a).and_then(|x| { called(x as i64); r2(b) }).to_result(), a.and_then(|x| { called(x as i64); b })); kept!("and_then", r(a).and_then(|_| r2(b)));
            same!("or", r(a).or(r2(b)).to_result(), a.or(b)); kept!("or", r(a).or(r2(b)));
            same!("or_else", r(a).or_else::<(), _>(|e| { called(*e); r2(b) }).to_result(), a.or_else(|e| { called(e); b })); kept!("or_else", r(a).or_else::<(), _>(|_| r2(b)));
            kept!("transfer_owner", r(a).transfer_owner(r2(b))); same!("transfer_owner", r(a).transfer_owner(r2(b)).to_result(), b);
            let mut st = 5; let mut st2 = 6;
            let cp = a; let rr = || unsafe { TreeResult::new(pa, 11, cp.as_ref().map_err(|e| *e)) };
            same!("copied", rr().copied().to_result(), a); kept!("copied", rr().copied()); same!("cloned", rr().cloned().to_result(), a); kept!("cloned", rr().cloned());
            same!("copied mut", unsafe { TreeResult::new(pa, 11, a.map(|x| { st = x; &mut st })) }.copied().to_result(), a); same!("cloned mut", unsafe { TreeResult::new(pa, 11, a.map(|x| { st2 = x; &mut st2 })) }.cloned().to_result(), a);
            let inner: Result<Option<i32>, i64> = a.map(|x| if p { Some(x) } else { None });
            let tr = || unsafe { TreeResult::new(pa, 11, inner.map(|x| o2(x))) };
            same!("transpose", tr().transpose().to_option().map(|x| x.to_result()), inner.transpose()); kept!("transpose", tr().transpose()); if let Some(x) = tr().transpose().to_option() { kept!("transpose (inner)", x); }
            let nest: Result<Result<i32, i64>, i64> = a.map(|x| if p { Ok(x) } else { b });
            same!("flatten", unsafe { TreeResult::new(pa, 11, nest.map(|x| r2(x))) }.flatten().to_result(), nest.and_then(|x| x)); kept!("flatten", unsafe { TreeResult::new(pa, 11, nest.map(|x| r2(x))) }.flatten());
            Ok(true)
        });
    } } }
    // failing operations report to the owner: the message is in its tree's log, and its tree ends
    let mut i = 0;
    macro_rules! fails { ($what:literal, $e:expr) => {{ let k = i; i += 1; c.case("failure", k, || $what.to_string(), || {
        let mut t1 = TreeSimple::new(NA::new(1), LoggerVerbosity::All); let mut t2 = TreeSimple::new(NA::new(2), LoggerVerbosity::All);
        let (p1, p2): (*mut dyn NodeTree, *mut dyn NodeTree) = (t1.as_dyn_raw_mut(), t2.as_dyn_raw_mut());
        let f: fn(*mut dyn NodeTree, *mut dyn NodeTree) = $e;
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p1, p2))).is_ok() { return err("it did not panic"); }
        if t1.verif_status() != TreeStatus::Terminated || t2.verif_status() == TreeStatus::Terminated { return err("the failure was not reported to the tree of the value"); }
        if !t1.get_log().contains("MSG") && !t1.get_log().contains("unwrap") { return err("the failure was not logged"); }
        Ok(true) }); }} }
    fails!("TreeOption::unwrap on None", |a, _| { unsafe { TreeOption::<i32>::new(a, 0, None) }.unwrap(); });
    fails!("TreeOption::expect on None", |a, _| { unsafe { TreeOption::<i32>::new(a, 0, None) }.expect("MSG"); });
    fails!("TreeResult::unwrap on Err", |a, _| { unsafe { TreeResult::<i32, i32>::new(a, 0, Err(1)) }.unwrap(); });
    fails!("TreeResult::expect on Err", |a, _| { unsafe { TreeResult::<i32, i32>::new(a, 0, Err(1)) }.expect("MSG"); });
    fails!("TreeResult::unwrap_err on Ok", |a, _| { unsafe { TreeResult::<i32, i32>::new(a, 0, Ok(1)) }.unwrap_err(); });
    fails!("TreeResult::expect_err on Ok", |a, _| { unsafe { TreeResult::<i32, i32>::new(a, 0, Ok(1)) }.expect_err("MSG"); });
    // also when the owner is gone by then
    macro_rules! gone { ($what:literal, $e:expr) => {{ let k = i; i += 1; c.case("failure", k, || format!("{} after its owner was removed", $what), || {
        let mut t1 = TreeSimple::new(NA::new(1), LoggerVerbosity::All); let p1: *mut dyn NodeTree = t1.as_dyn_raw_mut();
        let f: fn(*mut dyn NodeTree) = $e;
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p1))).is_ok() { return err("it did not panic"); }
        Ok(true) }); }} }
    gone!("TreeOption::unwrap on None", |a| { unsafe { TreeOption::<i32>::new(a, 5, None) }.unwrap(); });
    gone!("TreeOption::expect on None", |a| { unsafe { TreeOption::<i32>::new(a, 5, None) }.expect("MSG"); });
    gone!("TreeResult::unwrap on Err", |a| { unsafe { TreeResult::<i32, i32>::new(a, 5, Err(1)) }.unwrap(); });
    gone!("TreeResult::unwrap_err on Ok", |a| { unsafe { TreeResult::<i32, i32>::new(a, 5, Ok(1)) }.unwrap_err(); });
    fails!("and/or chains keep the owner", |a, b| { let x: TreeOption<i32> = unsafe { TreeOption::new(a, 0, Some(1)) }.and(unsafe { TreeOption::new(b, 0, None) }); x.unwrap(); });
    fails!("and_then keeps the owner of an option", |a, b| { let x: TreeOption<i32> = unsafe { TreeOption::new(a, 0, Some(1)) }.and_then(|_| unsafe { TreeOption::new(b, 0, None) }); x.unwrap(); });
    fails!("and_then keeps the owner of a result", |a, b| { let x: TreeResult<i32, i32> = unsafe { TreeResult::new(a, 0, Ok(1)) }.and_then(|_: i32| unsafe { TreeResult::new(b, 0, Err(2)) }); x.unwrap(); });
    fails!("or_else keeps the owner of a result", |a, b| { let x: TreeResult<i32, i32> = unsafe { TreeResult::new(a, 0, Err(1)) }.or_else::<(), _>(|_| unsafe { TreeResult::new(b, 0, Err(2)) }); x.unwrap(); });
}

// ---------------------------------------------------------------- C18
const LV: [&str; 4] = ["DEBUG", "INFO", "WARN", "PANIC!"];
fn log_of<'a>(l: usize, m: &'a str) -> Log<'a> { match l { 0 => Log::Debug(m), 1 => Log::Info(m), 2 => Log::Warn(m), _ => Log::Panic(m) } }
fn verb(v: usize) -> LoggerVerbosity { match v { 0 => LoggerVerbosity::All, 1 => LoggerVerbosity::NoDebug, 2 => LoggerVerbosity::OnlyIssues, _ => LoggerVerbosity::OnlyPanics } }
fn appended(before: &str, after: &str, admitted: bool, l: usize, text: &str, caller: &str) -> Result<(), String> {
    let Some(new) = after.strip_prefix(before) else { return err("earlier messages changed") };
    if !admitted { if !new.is_empty() { return err(format!("a message that is not admitted was logged: {:?}", new)); } return Ok(()); }
    let end = format!(" UTC> | {} | {} | {}\n", caller, LV[l], text);
    let line_at = new.find(&end);
    match line_at { Some(i) if !new[..i].contains('\n') => (), _ => return err(format!("the log does not continue with a {} line {:?}: {:?}", LV[l], text, new)) }
    if l < 3 && new.len() != line_at.unwrap() + end.len() { return err(format!("more than one entry was appended: {:?}", new)); }
    if l == 3 && new.matches(&end).count() != 1 { return err("the panic was logged more than once"); }
    Ok(())
}
pub fn c18(c: &mut Ctx) {
    fn run(sp: &Sp, v: usize, seq: &[(usize, usize, String, u8)]) -> Res {
        reset();
        let tree = TreeSimple::new(scene(sp), verb(v));
        let log0 = tree.get_log().to_string();
        // building the tree posts one debug line per node and one of the logger itself
        if (v == 0) == log0.is_empty() { return err(format!("log after construction: {:?}", log0)); }
        let mut w = World { tree, m: vec![], next_uid: 0 };
        let rids: Vec<RID> = w.tree.root().top_down(true);
        let mut dead = false;
        for (k, (node, l, text, how)) in seq.iter().enumerate() {
            let rid = rids[node % rids.len()];
            let admitted = match v { 0 => true, 1 => *l > 0, 2 => *l >= 2, _ => *l == 3 };
            if *how == 2 { let n = format!("s{k}"); w.tree.register_as_singleton(rid, n); }
            let before = w.tree.get_log().to_string();
            let caller = match w.tree.get_node_identity(rid) { Some(NodeIdentity::UniqueName(n)) => n, _ => format!("[{}]", w.tree.get_node(rid).unwrap().get_absolute_path().to_string()) };
            match how { 0 => w.tree.post(rid, log_of(*l, text)), 1 => w.tree.get_node(rid).unwrap().post(log_of(*l, text)), _ => w.tree.post(rid, log_of(*l, text)) }
            appended(&before, w.tree.get_log(), admitted, *l, text, &caller).map_err(|e| format!("message {k}: {e}"))?;
            if *l == 3 { dead = true; }
            if (w.tree.verif_status() == TreeStatus::Terminated) != dead { return err(format!("message {k}: the status is {:?}", w.tree.verif_status())); }
        }
        Ok(true)
    }
    let sps: Vec<Sp> = [vec![9], vec![9, 0, 1, 0]].iter().map(|s| of_shape(s, &mut |i| (0, plain_name(i), false))).collect();
    let texts = ["hello", "", "a | INFO | b", "é💧", "x\ny", "{}", " lead", "trail \n", "ÄB"];
    let mut idx = 0;
    for sp in &sps { for v in 0..4 { for l1 in 0..4 { for l2 in 0..4 { for t in &texts { for how in 0..3u8 {
        let i = idx; idx += 1;
        let seq = vec![(0, l1, t.to_string(), how), (2, l2, format!("{t}!"), 0), (1, (l1 + l2) % 4, "third".to_string(), how)];
        c.case("posts", i, || format!("{} verbosity {} {:?}", sp.show(), v, seq), || run(sp, v, &seq));
    } } } } } }
    let mut idx = 0;
    for v in 0..4 { for l in 0..4 { for t in &texts { let i = idx; idx += 1; c.case("logger", i, || format!("Logger verbosity {} level {} {:?}", v, LV[l], t), || {
        let mut g = Logger::new(verb(v));
        let admitted = match v { 0 => true, 1 => l > 0, 2 => l >= 2, _ => l == 3 };
        for (sys, caller) in [(SystemCall::Named("n".into()), "n"), (SystemCall::NodePath("/a".into()), "[/a]")] {
            let before = g.to_str().to_string(); g.post_manual(sys, log_of(l, t));
            appended(&before, g.to_str(), admitted, l, t, caller)?;
        }
        let x = log_of(l, t);
        if x.get_lv() != LV[l] || x.get_msg() != *t || x.is_debug() != (l == 0) || x.is_problematic() != (l >= 2) || x.is_panic() != (l == 3) { return err("queries of the message disagree with its level"); }
        Ok(true)
    }); } } }
    for i in 0..c.n(1500, 30000) { if c.expired() { break; }
        let mut r: Rng = c.rng("random", i);
        let n = 1 + r.below(5); let mut u = 100; let sp = random_sp(&mut r, n, NAMES, &mut u);
        let v = r.below(4); let k = 1 + r.below(12);
        let seq: Vec<(usize, usize, String, u8)> = (0..k).map(|j| (r.below(9), if r.one_in(5) { 3 } else { r.below(3) }, if r.coin() { format!("m{j}") } else { odd_text(&mut r) }, r.below(3) as u8)).collect();
        c.case("random", i, || format!("{} verbosity {} {:?}", sp.show(), v, seq), || run(&sp, v, &seq));
    }
}

// ---------------------------------------------------------------- C23
type Marks = std::collections::HashMap<RID, (bool, String)>;
/// The report of a panic, from the links and names of the tree and what was posted in this frame.
fn expected_report(t: &TreeSimple, at: RID, marks: &Marks, up: usize, down: usize) -> String {
    let (mut warns, mut panics) = (vec![], vec![]);
    fn shown(t: &TreeSimple, r: RID, marks: &Marks, warns: &mut Vec<String>, panics: &mut Vec<String>) -> String {
        let name = t.get_node(r).unwrap().name().to_string();
        match marks.get(&r) {
            None => name,
            Some((false, m)) => { warns.push(format!("{name} - {m}")); format!("\u{1b}[33m{name}\u{1b}[0m") }
            Some((true, m)) => { panics.push(format!("{name} - {m}")); format!("\u{1b}[31m{name}\u{1b}[0m") }
        }
    }
    fn below(t: &TreeSimple, r: RID, marks: &Marks, indent: &str, left: usize, out: &mut String, warns: &mut Vec<String>, panics: &mut Vec<String>) {
        let kids: Vec<RID> = t.get_node(r).unwrap().children().iter().map(|k| k.rid()).collect();
        for (i, k) in kids.iter().enumerate() {
            let last = i + 1 == kids.len();
            let name = shown(t, *k, marks, warns, panics);
            out.push_str(&format!("{}{}{}\n", indent, if last { "└── " } else { "├── " }, if left == 0 { "...".to_string() } else { name }));
            if left > 0 { below(t, *k, marks, &format!("{}{}", indent, if last { "    " } else { "│   " }), left - 1, out, warns, panics); }
        }
    }
    let mut top = at;
    for _ in 0..up { match t.get_node(top).unwrap().parent_dyn().to_option() { Some(p) => top = p.rid(), None => break } }
    let mut out = format!("[REPORT START]\n{}\n", shown(t, top, marks, &mut warns, &mut panics));
    below(t, top, marks, "", up + down + 1, &mut out, &mut warns, &mut panics);
    let list = |v: &[String], c: u32| if v.is_empty() { "\nNone".to_string() } else { v.iter().map(|x| format!("\n\u{1b}[{c}m{x}\u{1b}[0m")).collect() };
    out + "\n[Same-Frame Warnings]" + &list(&warns, 33) + "\n\n[Same-Frame Panics]" + &list(&panics, 31) + "\n\n[REPORT END]"
}
pub fn c23(c: &mut Ctx) {
    // (what, node): 0 debug, 1 info, 2 warn, 3 panic, 4 frame, 5 warn by the tree, 6 panic by the tree, 7 add a child, 8 free, 9 rename
    fn run(sp: &Sp, v: usize, seq: &[(u8, usize, String)]) -> Res {
        reset();
        let mut tree = TreeSimple::new(scene(sp), verb(v));
        let mut marks = Marks::new(); let mut dead = false; let mut reported = false;
        for (k, (what, at, text)) in seq.iter().enumerate() {
            let rids: Vec<RID> = tree.root().top_down(true);
            let rid = rids[at % rids.len()];
            let before = tree.get_log().to_string();
            let fail = |m: String| err(format!("step {k}: {m}"));
            match what {
                0..=3 => { let l = *what as usize; if l == 2 { marks.insert(rid, (false, text.clone())); } if l == 3 { marks.insert(rid, (true, text.clone())); }
                    tree.get_node(rid).unwrap().post(log_of(l, text)); }
                4 => { tree.process(); if !dead { marks.clear(); } }
                5 => tree.post(rid, Log::Warn(text)),
                6 => tree.post(rid, Log::Panic(text)),
                7 => tree.get_node_mut(rid).unwrap().add_child(NA::new(500 + k as u64)),
                8 => { if rid != 0 { let gone = tree.get_node(rid).unwrap().top_down(true); tree.get_node_mut(rid).unwrap().free(); for g in gone { marks.remove(&g); } } }
                _ => tree.get_node_mut(rid).unwrap().set_name(text),
            }
            if matches!(what, 3 | 6) {
                dead = true; reported = true;
                let new = &tree.get_log()[before.len()..];
                let Some(time) = new.strip_prefix('<').and_then(|s| s.split_once(" UTC> | ")).map(|x| x.0.to_string()) else { return fail(format!("no line of the panic: {:?}", new)) };
                let line = format!(" | PANIC! | {}\n", text);
                let Some(p) = new.find(&line) else { return fail(format!("no line of the panic: {:?}", new)) };
                let want = format!("\nUnfortunately the program has crashed. Please contact the development team with the following crash report as well as the attachment of the log posted during the time of the crash.\n\n{}\nTime of Crash: {}\nExit Code: 1\n\nGoodbye World! (Program Exited)", expected_report(&tree, rid, &marks, 6, 6), time);
                if new[p + line.len()..] != want { return fail(format!("the report is {:?} instead of {:?}", &new[p + line.len()..], want)); }
            }
            for r in tree.root().top_down(true) {
                let s = tree.get_node(r).unwrap().status();
                let ok = match (&s, marks.get(&r)) { (NodeStatus::Normal, None) => true, (NodeStatus::JustWarned(a), Some((false, b))) => a == b, (NodeStatus::JustPanicked(a), Some((true, b))) => a == b, _ => false };
                if !ok { return fail(format!("node {r} has status {:?} instead of {:?}", s, marks.get(&r))); }
            }
        }
        Ok(reported)
    }
    // a long chain with side branches: what is above and below the limits
    let mut idx = 0;
    for len in [1usize, 2, 5, 8, 13, 14, 15, 22] { for at in 0..len { for side in 0..2usize {
        let i = idx; idx += 1;
        let mut sh = vec![usize::MAX]; let mut spine = vec![0];
        for j in 1..len { let p = *spine.last().unwrap(); if side == 1 && j % 2 == 0 { sh.push(p); } sh.push(p); spine.push(sh.len() - 1); if side == 1 && j % 3 == 0 { sh.push(p); } }
        let sp = of_shape(&sh, &mut |i| (0, format!("n{i}"), false));
        c.case("chain", i, || format!("{} nodes in a chain{}, panic at level {}", len, if side == 1 { " with side branches" } else { "" }, at), || {
            reset();
            let t = TreeSimple::new(scene(&sp), verb(3)); let all = t.root().top_down(true);
            let pos = all.iter().position(|&r| r as usize == *spine.get(at).unwrap()).unwrap_or(at);
            drop(t);
            run(&sp, 3, &[(2, pos, "w1".into()), (2, 0, "w0".into()), (2, all.len() - 1, "deep".into()), (3, pos, "p".into()), (6, 0, "again".into()), (6, all.len() - 1, "last".into())])
        });
    } } }
    let mut idx = 0;
    for v in 0..4 { for a in 0..7u8 { for b in 0..7u8 { for t in ["m", "", "x\ny", "{}", "é💧"] {
        let i = idx; idx += 1; let sp = of_shape(&[usize::MAX, 0, 1, 0], &mut |i| (0, plain_name(i), false));
        let seq = vec![(a, 1, t.to_string()), (b, 2, format!("{t}{t}")), (3, 3, t.to_string()), (b, 2, "z".into()), (6, 0, t.to_string())];
        c.case("pairs", i, || format!("{} verbosity {} {:?}", sp.show(), v, seq), || run(&sp, v, &seq));
    } } } }
    for i in 0..c.n(2500, 40000) { if c.expired() { break; }
        let mut r: Rng = c.rng("random", i);
        let n = 1 + r.below(14); let deep = r.one_in(2); let mut sh = vec![usize::MAX];
        for j in 1..n { let p = if deep { j - 1 - r.below(2.min(j)) } else { r.below(j) }; sh.push(p.min(j - 1)); }
        let sp = of_shape(&sh, &mut |i| (0, plain_name(i), false));
        let v = r.below(4); let k = 1 + r.below(14);
        let seq: Vec<(u8, usize, String)> = (0..k).map(|j| (match r.below(13) { 0 => 3, 1 => 6, 2..=4 => 2, 5 => 5, 6 | 7 => 4, 8 => 7, 9 => 8, 10 => 9, 11 => 0, _ => 1 }, r.below(20), if r.coin() { format!("m{j}") } else { odd_text(&mut r).replace('/', "") + "x" })).collect();
        let seq: Vec<(u8, usize, String)> = seq.into_iter().chain([(3, r.below(20), "end".to_string())]).collect();
        c.case("random", i, || format!("{} verbosity {} {:?}", sp.show(), v, seq), || run(&sp, v, &seq));
    }
}
