impl NodePtr {
//@ fn structs/node_base.rs NodeBase::top_down_tail | h=ref mcall=to_owned=>&:rids_clone mcall=clone=>&:rids_clone panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.mem@.contains_key(self), h.mem@[self].tree is Some ==> (layer@.len() > 0 && layer_ok(h.links(), layer@, h.nd(layer@[0]).depth as int)),
    ensures
        h.inside(self), // [C22]
        final(iter)@ == old(iter)@ + levels(h.links(), layer@, h.nd(layer@[0]).depth as int), // [C21]
    decreases MAXD - h.nd(layer@[0]).depth,
//@ hint entry
    let ghost m = h.links();
    proof { if h.inside(self) {
        assert forall|i: int| 0 <= i < layer@.len() implies h.known(#[trigger] layer@[i]) by { assert(m.contains_key(layer@[i])); }
        lemma_filter_all(layer@, |r: RID| h.known(r));
        lemma_next(m, layer@, h.nd(layer@[0]).depth as int);
        assert(iter@ + Seq::<RID>::empty() =~= iter@);
    } }
//@ loop 0 out=Vec<RID>
    invariant AUTO
        h.inv(), m == h.links(), s0@ == layer@.map_values(|r: RID| h.ptr(r)),
        forall|i: int| 0 <= i < layer@.len() ==> h.known(#[trigger] layer@[i]),
        o0@ == next(m, layer@.take(k0 as int)),
//@ hint loopstart 0
    proof {
        let r = layer@[k0 as int];
        assert(s0@[k0 as int] == h.ptr(r)); assert(h.known(r));
        assert(layer@.take(k0 + 1).drop_last() =~= layer@.take(k0 as int));
        assert(layer@.take(k0 + 1).last() == r);
        assert(m[r].kids == h.nd(r).children@);
    }
//@ hint afterloop 0
    proof { assert(layer@.take(layer@.len() as int) =~= layer@); }
//@ hint before top_down_tail 0
    proof {
        assert(layer_ok(m, new_layer@, h.nd(layer@[0]).depth + 1));
        assert(m.contains_key(new_layer@[0]) && h.known(new_layer@[0]));
        assert(m[new_layer@[0]].depth == h.nd(new_layer@[0]).depth);
    }
//@ hint exit
    proof { assert(iter@ =~= old(iter)@ + levels(m, layer@, h.nd(layer@[0]).depth as int)); }
//@ end
//@ fn structs/node_base.rs NodeBase::top_down | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self),
    ensures
        h.inside(self), // [C22]
        ret@ == (if contains_self { seq![h.id(self)] } else { seq![] }) + below(h.links(), h.id(self)), // [C21]
        ret@.no_duplicates(), // [C21]
        forall|x: RID| #[trigger] ret@.contains(x) <==> h.known(x) && anc(h.links(), h.id(self), x) && (contains_self || x != h.id(self)), // [C21]
//@ hint entry
    proof { if h.inside(self) {
        let (m, r) = (h.links(), h.id(self));
        assert(m.contains_key(r)); assert(down_ok(m, r)); assert(h.nd(r) == h.mem@[self]);
        lemma_below(m, r); lemma_up_to(m, r, m[0].depth);
    } }
//@ hint exit
    proof {
        assert(contains_self ==> iter@ =~= seq![h.id(self)] + below(h.links(), h.id(self)));
        assert(!contains_self ==> iter@ =~= below(h.links(), h.id(self)));
    }
//@ end
}
