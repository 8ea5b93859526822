// Posting to the log.
//@ mode tree
//@ hfns draw_tree
//@ hmethods get_node_identity
//@ cell logger post logger_post
impl TreePtr {
    pub fn get_node_identity(self, rid: RID, h: &NodeTreeBase) -> (ret: Option<NodeIdentity>) ensures ret.is_some() == h.identity@.contains_key(rid), ret.is_some() ==> same_identity(ret.unwrap(), h.identity@[rid]), { h.get_node_identity(rid) }
    pub fn post(self, calling: RID, log: Log, h: &mut NodeTreeBase)
        requires old(h).inv(), old(h).known(calling),
        ensures posted(old(h), final(h), calling, log), crashed(old(h), final(h), calling, log), final(h).status == (if log is Panic { TreeStatus::Terminated } else { old(h).status }),
    { h.post(calling, log) }
}
pub open spec fn logs(t: Seq<char>, s: SystemCall, log: Log, tail: Seq<char>) -> Seq<char> { line(t, caller_text(s), log) + tail }
/// How a node is called in the log: by its singleton name or by its path.
pub open spec fn called(h: &NodeTreeBase, r: RID, s: SystemCall) -> bool {
    match h.identity@[r] {
        NodeIdentity::UniqueName(n) => s matches SystemCall::Named(x) && x@ == n@,
        NodeIdentity::NodePath => s matches SystemCall::NodePath(x) && x@ == printed(parsed("/"@ + path_text(h, r, ""@)), true),
    }
}
/// A post went into the log: nothing but the log (and the status) differs.
pub open spec fn posted(a: &NodeTreeBase, b: &NodeTreeBase, calling: RID, log: Log) -> bool {
    &&& a.same(b) && a.events@ == b.events@ && a.last_frame == b.last_frame && a.stats@ == b.stats@
    &&& a.logger.verbosity_lv == b.logger.verbosity_lv && a.logger.crash_header == b.logger.crash_header && a.logger.crash_footer == b.logger.crash_footer
    &&& !admits(a.logger.verbosity_lv, log) ==> b.logger == a.logger
    &&& admits(a.logger.verbosity_lv, log) ==> exists|t: Seq<char>, s: SystemCall, tail: Seq<char>| b.logger.log@ == a.logger.log@ + #[trigger] logs(t, s, log, tail) && called(a, calling, s) && (!(log is Panic) ==> tail.len() == 0)
}
/// What follows the line of a panic.
pub open spec fn crash(a: &NodeTreeBase, calling: RID, t: Seq<char>) -> Seq<char> {
    "\n"@ + a.logger.crash_header@ + "\n\n"@ + report(a, calling, 6, 6) + "\nTime of Crash: "@ + t + "\nExit Code: "@ + displayed(&1i32) + "\n\n"@ + a.logger.crash_footer@
}
/// A panic leaves the report in the log.
pub open spec fn crashed(a: &NodeTreeBase, b: &NodeTreeBase, calling: RID, log: Log) -> bool {
    log is Panic ==> exists|t: Seq<char>, s: SystemCall| b.logger.log@ == a.logger.log@ + #[trigger] logs(t, s, log, crash(a, calling, t))
}
/// The node whose post it is remembers warnings and panics.
pub open spec fn marked(a: &NodeTreeBase, p: NodePtr, log: Log) -> NodeTreeBase {
    match log { Log::Warn(m) => NodeTreeBase { stats: Ghost(a.stats@.insert(p, Stat::Warned(m@))), ..*a }, Log::Panic(m) => NodeTreeBase { stats: Ghost(a.stats@.insert(p, Stat::Panicked(m@))), ..*a }, _ => *a }
}
impl NodeTreeBase {
//@ fn structs/logger.rs Logger::post | mode=tree self=logger as=logger_post strplus realfmt
    requires old(self).inv(), old(self).known(calling),
    ensures
        posted(old(self), final(self), calling, log), final(self).status == old(self).status, // [C18]
        crashed(old(self), final(self), calling, log), // [C23]
        ret == (log is Panic), // [C18]
//@ hint after post_manual 0
    let ghost mid = self.logger.log@; let ghost tm = time@;
    proof { assert(old(self).same(self)); lemma_same(old(self), self); if log is Panic { lemma_report(old(self), self, calling, 6, 6); } assert(called(old(self), calling, system)); if admits(old(self).logger.verbosity_lv, log) { assert(mid =~= old(self).logger.log@ + logs(tm, system, log, Seq::empty())); } }
//@ hint exit
    proof {
        if log is Panic {
            let tail = crash(old(self), calling, tm);
            assert(self.logger.log@ =~= mid + tail); // [C23]
            let rest = self.logger.log@.skip(mid.len() as int); assert(self.logger.log@ =~= old(self).logger.log@ + logs(tm, system, log, rest));
            assert(rest =~= tail); // [C23]
        }
    }
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::set_default_header_on_panic
    ensures old(self).same(final(self)), final(self).status == old(self).status, final(self).events@ == old(self).events@, final(self).logger.log == old(self).logger.log, final(self).logger.verbosity_lv == old(self).logger.verbosity_lv, // [C18]
        final(self).logger.crash_header@ == msg@, final(self).logger.crash_footer == old(self).logger.crash_footer, // [C23]
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::set_default_footer_on_panic
    ensures old(self).same(final(self)), final(self).status == old(self).status, final(self).events@ == old(self).events@, final(self).logger.log == old(self).logger.log, final(self).logger.verbosity_lv == old(self).logger.verbosity_lv, // [C18]
        final(self).logger.crash_footer@ == msg@, final(self).logger.crash_header == old(self).logger.crash_header, // [C23]
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_log
    ensures ret@ == self.logger.log@, // [C18]
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::post
    requires old(self).inv(), old(self).known(calling),
    ensures
        posted(old(self), final(self), calling, log), // [C18]
        crashed(old(self), final(self), calling, log), // [C23]
        final(self).status == (if log is Panic { TreeStatus::Terminated } else { old(self).status }), // [C18,C08]
//@ end
}
//@ mode node
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::post | h=mut mcall=to_string=>&:to_text panics=old(h).mem.view()[self].tree.is_none()
    requires old(h).inv(), old(h).held(self),
    ensures
        old(h).inside(self), // [C22]
        posted(&marked(old(h), self, log), final(h), old(h).id(self), log), final(h).status == (if log is Panic { TreeStatus::Terminated } else { old(h).status }), // [C18]
        crashed(&marked(old(h), self, log), final(h), old(h).id(self), log), // [C23]
//@ hint before post 0
    proof { assert(h.stats@ == marked(old(h), self, log).stats@); assert(*h == marked(old(h), self, log)); assert(old(h).same(h)); lemma_same(old(h), h); }
//@ end
}

/// What an operation on a pointer, an option or a result leaves behind when it fails: a panic with this
/// text in the log, posted by the owner if there is one. It does not return.
pub open spec fn failed(a: &NodeTreeBase, b: &NodeTreeBase, owner: RID, t: Seq<char>) -> bool {
    if a.known(owner) {
        &&& b.status is Terminated
        &&& exists|log: Log| log is Panic && msg(log) =~= t && #[trigger] posted(&marked(a, a.ptr(owner), log), b, owner, log)
    } else { *a == *b }
}
pub open spec fn failure<E>(m: &str, e: &E) -> Seq<char> { m@ + ": "@ + debug_text(e) }
//@ mode ptr
//@ hmethods post:mut
impl<T: Node> Tp<T> {
//@ fn structs/tree_pointer.rs Tp::fail | h=mut realfmt as=fail_body panics=failed(old(h),h,self.owner,debug_text(&err))
    requires old(h).inv(),
    ensures false, // [C11,C18]
//@ end
}
impl TpDyn {
//@ fn structs/tree_pointer.rs TpDyn::fail | h=mut realfmt as=fail_body panics=failed(old(h),h,self.owner,displayed(&err))
    requires old(h).inv(),
    ensures false, // [C11,C18]
//@ end
}
impl<T> TreeOption<T> {
//@ fn structs/tree_option.rs TreeOption::fail | h=mut realfmt as=fail_body panics=failed(old(h),h,self.owner,msg.view())
    requires old(h).inv(),
    ensures false, // [C12,C18]
//@ end
}
impl<T, E> TreeResult<T, E> {
//@ fn structs/tree_result.rs TreeResult::fail | h=mut realfmt as=fail_body panics=failed(old(h),h,self.owner,failure(msg,&error)) subst=&dynfmt::Debug=>&E
    requires old(h).inv(),
    ensures false, // [C12,C18]
//@ end
}
