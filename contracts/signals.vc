//@ include prelude.vc
//@ include ridfns.vc
// Signals. The mutex is held from lock to the end of each function, so that nothing else can change the
// connections in between: `&self` is `&mut self` here.
pub struct Mutex<A> { pub v: A }
impl<A> Mutex<A> {
    pub fn new(v: A) -> (ret: Self) ensures ret.v == v, { Mutex { v } }
    /// No handler panicked.
    #[verifier::external_body]
    pub fn lock(&mut self) -> (ret: Result<&mut A, ()>) ensures ret is Ok, *ret.unwrap() == old(self).v, final(self).v == *final(ret.unwrap()), { unimplemented!() }
}
pub struct Arc {}
impl Arc { pub fn new<A>(m: Mutex<A>) -> (ret: Mutex<A>) ensures ret == m, { m } }
/// A closure that was given to connect.
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Handler<A> { p: Vec<A> }
/// The address of a boxed closure.
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct HookPtr<A> { p: usize, t: std::marker::PhantomData<A> }
impl<A> Clone for HookPtr<A> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<A> Copy for HookPtr<A> {}
/// Where the box of a closure goes.
pub uninterp spec fn spot<A>(f: Handler<A>) -> HookPtr<A>;
#[verifier::external_body]
pub fn into_raw<A>(f: Box<Handler<A>>) -> (ret: HookPtr<A>) ensures ret == spot(*f), { unimplemented!() }
pub fn transmute<A>(f: Box<Handler<A>>) -> (ret: Box<Handler<A>>) ensures ret == f, { f }
/// The calls that handlers got, with the value each was given.
pub struct Calls<A> { pub log: Ghost<Seq<(HookPtr<A>, A)>> }
impl<A> Calls<A> {
    #[verifier::external_body]
    pub fn invoke(&mut self, f: HookPtr<A>, v: &A) ensures final(self).log@ == old(self).log@.push((f, *v)), { unimplemented!() }
}
/// Every entry of a map once, in any order.
#[verifier::external_body]
pub fn map_entries<'a, A>(m: &'a HashMap<RID, A>) -> (ret: Vec<(&'a RID, &'a A)>)
    ensures
        forall|i: int| 0 <= i < ret@.len() ==> m@.contains_key(*(#[trigger] ret@[i]).0) && *ret@[i].1 == m@[*ret@[i].0],
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> *(#[trigger] ret@[i]).0 != *(#[trigger] ret@[j]).0,
        forall|r: RID| #[trigger] m@.contains_key(r) ==> exists|i: int| 0 <= i < ret@.len() && *(#[trigger] ret@[i]).0 == r,
{ m.iter().collect() }
impl<T> RIDHolder<T> {
//@ fn structs/rid.rs RIDHolder::iter_enumerated | mcall=iter=>&:map_entries subst=Iter<RID,T>=>Vec<(&RID,&T)>
    ensures
        forall|i: int| 0 <= i < ret@.len() ==> self.data@.contains_key(*(#[trigger] ret@[i]).0) && *ret@[i].1 == self.data@[*ret@[i].0],
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> *(#[trigger] ret@[i]).0 != *(#[trigger] ret@[j]).0,
        forall|r: RID| #[trigger] self.data@.contains_key(r) ==> exists|i: int| 0 <= i < ret@.len() && *(#[trigger] ret@[i]).0 == r,
//@ end
}
//@ subst *mut dyn FnMut(&T) => HookPtr<T>
//@ subst Box<dyn FnMut(&T)+'a> => Box<Handler<T>>
//@ subst Box<dyn FnMut(&T)> => Box<Handler<T>>
//@ subst impl FnMut(&T)+'a => Handler<T>
//@ subst MutexGuard<EventHandler<T>> => &mut EventHandler<T>
//@ subst MutableArc<EventHandler<T>> => Mutex<EventHandler<T>>
//@ subst Box::into_raw => into_raw
//@ subst mem::transmute => transmute
//@ type structs/signals.rs ConnectionType copy
//@ type structs/signals.rs EventHandler
//@ type structs/signals.rs Signal
pub trait Element<A> {
    spec fn inner(&self) -> A;
    fn as_inner(&self) -> (ret: &A) ensures *ret == self.inner();
}
impl<T> Element<T> for T {
    open spec fn inner(&self) -> T { *self }
//@ fn traits/element.rs <Element<T> for T>::as_inner | priv
//@ end
}
pub type Conns<A> = Map<RID, (HookPtr<A>, ConnectionType)>;
impl<T> Signal<T> {
    pub open spec fn conns(&self) -> Conns<T> { self.hooks.v.data@ }
    pub open spec fn wf(&self) -> bool { self.hooks.v.wf() }
//@ fn structs/signals.rs Signal::new
    ensures ret.wf(), ret.conns() == Map::<RID, (HookPtr<T>, ConnectionType)>::empty(),
//@ end
//@ fn structs/signals.rs Signal::connect | selfmut
    requires old(self).wf(), old(self).hooks.v.highest < u64::MAX,
    ensures final(self).wf(), !old(self).conns().contains_key(ret), final(self).conns() == old(self).conns().insert(ret, (spot(callback), ConnectionType::UntilDisconnected)),
//@ end
//@ fn structs/signals.rs Signal::connect_once | selfmut
    requires old(self).wf(), old(self).hooks.v.highest < u64::MAX,
    ensures final(self).wf(), !old(self).conns().contains_key(ret), final(self).conns() == old(self).conns().insert(ret, (spot(callback), ConnectionType::Once)),
//@ end
//@ fn structs/signals.rs Signal::disconnect | selfmut
    requires old(self).wf(),
    ensures final(self).wf(), ret == old(self).conns().contains_key(rid), final(self).conns() == old(self).conns().remove(rid),
//@ end
//@ fn structs/signals.rs Signal::emit | selfmut callptr=calls:&mut~Calls<T>
    requires old(self).wf(),
    ensures
        final(self).wf(),
        // Every handler is called once with the value, and nothing else is.
        exists|order: Seq<RID>| #![auto] order.no_duplicates() && (forall|r: RID| order.contains(r) <==> old(self).conns().contains_key(r)) && final(calls).log@ == old(calls).log@ + called(old(self).conns(), order, parameters.inner()),
        // One-shot connections are gone, the others stay.
        forall|r: RID| #[trigger] final(self).conns().contains_key(r) <==> old(self).conns().contains_key(r) && old(self).conns()[r].1 is UntilDisconnected,
        forall|r: RID| #[trigger] final(self).conns().contains_key(r) ==> final(self).conns()[r] == old(self).conns()[r],
//@ hint entry
    let ghost (c0, v, l0) = (self.conns(), parameters.inner(), calls.log@);
    let ghost mut order = Seq::<RID>::empty();
//@ loop 0
    invariant AUTO
        hooks.wf(), hooks.data@ == c0, *parameters == v,
        forall|i: int| 0 <= i < s0@.len() ==> c0.contains_key(*(#[trigger] s0@[i]).0) && *s0@[i].1 == c0[*s0@[i].0],
        forall|i: int, j: int| 0 <= i < j < s0@.len() ==> *(#[trigger] s0@[i]).0 != *(#[trigger] s0@[j]).0,
        order.len() == k0, forall|i: int| 0 <= i < k0 ==> #[trigger] order[i] == *s0@[i].0,
        calls.log@ == l0 + called(c0, order, v),
        forall|i: int| 0 <= i < removed_signals@.len() ==> c0.contains_key(#[trigger] removed_signals@[i]) && c0[removed_signals@[i]].1 is Once,
        forall|i: int| 0 <= i < k0 && c0[*(#[trigger] s0@[i]).0].1 is Once ==> removed_signals@.contains(*s0@[i].0),
//@ hint beforeloop 0
    proof { assert(l0 + called(c0, order, v) =~= l0); }
//@ hint loopstart 0
    let ghost rs = removed_signals@;
//@ hint loopend 0
    proof {
        let id = *s0@[k0 - 1].0; let q = order; order = q.push(id);
        assert(order.drop_last() =~= q); assert(order.last() == id);
        assert(calls.log@ =~= l0 + called(c0, order, v));
        if removed_signals@.len() > rs.len() { assert(removed_signals@[rs.len() as int] == id); assert(removed_signals@.drop_last() =~= rs); assert forall|i: int| 0 <= i < k0 && c0[*(#[trigger] s0@[i]).0].1 is Once implies removed_signals@.contains(*s0@[i].0) by { if i < k0 - 1 { let j = choose|j: int| 0 <= j < rs.len() && rs[j] == *s0@[i].0; assert(removed_signals@[j] == *s0@[i].0); } } }
    }
//@ hint afterloop 0
    proof {
        assert(order.no_duplicates());
        assert forall|r: RID| order.contains(r) <==> c0.contains_key(r) by {
            if c0.contains_key(r) { let i = choose|i: int| 0 <= i < s0@.len() && *(#[trigger] s0@[i]).0 == r; assert(order[i] == r); }
            if order.contains(r) { let i = choose|i: int| 0 <= i < order.len() && order[i] == r; assert(order[i] == *s0@[i].0); }
        }
        assert forall|r: RID| #[trigger] c0.contains_key(r) && c0[r].1 is Once implies removed_signals@.contains(r) by { let i = choose|i: int| 0 <= i < s0@.len() && *(#[trigger] s0@[i]).0 == r; }
    }
//@ loop 1
    invariant AUTO
        hooks.wf(),
        forall|r: RID| #[trigger] hooks.data@.contains_key(r) ==> c0.contains_key(r) && hooks.data@[r] == c0[r],
        forall|r: RID| #[trigger] c0.contains_key(r) && !hooks.data@.contains_key(r) ==> c0[r].1 is Once,
        forall|i: int| 0 <= i < s1@.len() ==> c0.contains_key(#[trigger] s1@[i]) && c0[s1@[i]].1 is Once,
        forall|i: int| SEEN1(i) ==> !hooks.data@.contains_key(#[trigger] s1@[i]),
        forall|r: RID| #[trigger] c0.contains_key(r) && c0[r].1 is Once ==> s1@.contains(r),
        order.no_duplicates(), forall|r: RID| order.contains(r) <==> c0.contains_key(r),
        calls.log@ == l0 + called(c0, order, v),
//@ hint loopend 1
    proof { assert forall|i: int| SEEN1(i) implies !hooks.data@.contains_key(#[trigger] s1@[i]) by {} }
//@ hint afterloop 1
    proof {
        assert forall|r: RID| #[trigger] hooks.data@.contains_key(r) implies !(c0[r].1 is Once) by { if c0[r].1 is Once { assert(s1@.contains(r)); let i = choose|i: int| 0 <= i < s1@.len() && s1@[i] == r; assert(!hooks.data@.contains_key(s1@[i])); } }
    }
//@ end
//@ fn structs/signals.rs <Clone for Signal>::clone
    ensures ret.wf(), ret.conns() == Map::<RID, (HookPtr<T>, ConnectionType)>::empty(),
//@ end
//@ fn structs/signals.rs <Default for Signal>::default
    ensures ret.wf(), ret.conns() == Map::<RID, (HookPtr<T>, ConnectionType)>::empty(),
//@ end
//@ fn structs/signals.rs <Voidable for Signal>::void
    ensures ret.wf(), ret.conns() == Map::<RID, (HookPtr<T>, ConnectionType)>::empty(),
//@ end
}
/// The calls of the handlers of a list of connections.
pub open spec fn called<A>(c: Conns<A>, order: Seq<RID>, v: A) -> Seq<(HookPtr<A>, A)>
    decreases order.len()
{ if order.len() == 0 { seq![] } else { called(c, order.drop_last(), v).push((c[order.last()].0, v)) } }
} // verus!
fn main() {}
