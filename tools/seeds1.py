import json, subprocess, sys
C='node_tree_core/src/'
HEAD='''use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }
pub fn take() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
class! {
    pub declare N;
    pub let mode: u8;
    pub export let tag: String;
    hk _init(t: &str, m: u8) { let tag: String = t.to_string(); let mode: u8 = m; }
    hk loaded(&mut self) { log(format!("loaded {}", self.name())); }
    hk ready(&mut self) { log(format!("ready {}", self.name())); }
    hk process(&mut self, _delta: f32) { log(format!("process {}", self.name())); }
    hk terminal(&mut self, reason: TerminationReason) { log(format!("terminal {} {:?}", self.name(), reason)); if self.name() == "queuer" { self.tree_mut().unwrap().queue_termination(); } }
    hk process_mode(&self) -> ProcessMode { match *self.mode { 1 => ProcessMode::Always, 2 => ProcessMode::Pausable, 3 => ProcessMode::Inverse, _ => ProcessMode::Inherit } }
}
pub fn n(name: &str, mode: u8) -> NodeScene { let mut x = N::new(name, mode); x.set_name(name); NodeScene::new(x) }
'''
S={}
S['B01']=dict(property='C01',changes=[dict(file=C+'structs/rid.rs',old='''        match self.data.remove(&rid) {
            None       => None,
            Some(item) => {
                self.vacant.push(rid);
                Some(item)
            }
        }''',new='''        if rid < self.highest {
            self.vacant.push(rid);
        }
        self.data.remove(&rid)''')],needs='an id that was given out before is removed a second time, then two insertions follow',breaks='a live id is issued again: the second insertion overwrites the first',demo='''use node_tree::structs::rid::RIDHolder;
fn main() { let mut h: RIDHolder<u8> = RIDHolder::new(); let a = h.push(1); h.push(2); assert_eq!(h.take(a), Some(1)); assert_eq!(h.take(a), None);
 let x = h.push(3); let y = h.push(4); assert_ne!(x, y); assert_eq!(h.retrieve(x), Some(&3)); assert_eq!(h.len(), 3); }''')
S['B02']=dict(property='C03',changes=[dict(file=C+'structs/node_base.rs',old='&self.children().iter().map(|c| c.name().to_string()).collect::<Vec<_>>();',new='&self.children().iter().filter(|c| c.is_owner() == owner_is_self).map(|c| c.name().to_string()).collect::<Vec<_>>();')],needs='a scene owner and a plain child of the same name are added under one parent',breaks='siblings with equal names',demo=HEAD+'''fn main() { let mut s = n("root", 0); s.append(n("a", 0)); s.append_as_owner(n("a", 0)); let t = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
 let names: Vec<String> = t.root().children().iter().map(|c| c.name().to_string()).collect(); assert_eq!(names, ["a", "a1"]); }''')
S['B03']=dict(property='C05',changes=[dict(file=C+'structs/node_path.rs',old='''            "."   => Self::This,
            ".."  => Self::Parent,
            i @ _ => Self::Node(i.into())''',new='''            "."   => Self::This,
            i if i.len() > 1 && i.chars().all(|c| c == '.') => Self::Parent,
            i @ _ => Self::Node(i.into())''')],needs='a path with a segment of three or more dots',breaks="'...' is taken for the parent segment",demo='''use node_tree::prelude::*;
fn main() { let p = NodePath::from_str("/a/.../b"); let mut q = p.clone(); q.pop_front_as_string(); assert_eq!(q.pop_front_as_string().as_deref(), Some("...")); assert_eq!(NodePath::from_str("/a/.../b").to_string(), "/a/.../b"); }''')
S['B04']=dict(property='C09',changes=[dict(file=C+'structs/node_tree_base.rs',old='''        if let Some(singleton_name) = singleton_name {
            self.singletons.remove(&singleton_name);
        }

        // TODO''',new='''        if let Some(singleton_name) = singleton_name {
            self.singletons.remove(&singleton_name);
        } else {
            self.identity.remove(&rid);
        }

        // TODO'''),dict(file=C+'structs/node_tree_base.rs',old='''        self.identity.remove(&rid);
        node.map(|ptr|''',new='''        node.map(|ptr|''')],needs='a singleton is removed and another node registers under its name',breaks='the name of a removed singleton stays taken',demo=HEAD+'''fn main() { let mut s = n("root", 0); s.append(n("a", 0)); s.append(n("b", 0)); let mut t = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
 let (a, b) = (t.root().children()[0].rid(), t.root().children()[1].rid());
 assert_eq!(t.register_as_singleton(a, "one".into()), Some(true)); assert_eq!(t.register_as_singleton(b, "one".into()), Some(false));
 t.root_mut().remove_child("a"); assert_eq!(t.get_node_rid("one", None), None); assert_eq!(t.register_as_singleton(b, "one".into()), Some(true)); assert_eq!(t.get_node_rid("one", None), Some(b)); }''')
S['B05']=dict(property='C07',changes=[dict(file=C+'structs/node_tree_base.rs',old='self.process_tail(child_node, delta, process_mode);',new='self.process_tail(child_node, delta, if process_mode == ProcessMode::Inverse { inherited_process_mode } else { process_mode });')],needs='an inverse node with a child that inherits its mode',breaks='the child of an inverse node is processed while the tree runs',demo=HEAD+'''fn main() { let mut s = n("root", 0); let mut i = n("inv", 3); i.append(n("kid", 0)); s.append(i); s.append(n("plain", 0)); let mut t = TreeSimple::new(s, LoggerVerbosity::OnlyPanics); take(); t.process();
 assert_eq!(take(), ["process root", "process plain"]); }''')
S['B06']=dict(property='C08',changes=[dict(file=C+'structs/node_tree_base.rs',old='''            TreeStatus::Process(process) => self.status = TreeStatus::QueuedTermination(process),
            _                            => ()''',new='''            TreeStatus::Process(process) => self.status = TreeStatus::QueuedTermination(process),
            TreeStatus::Terminated       => (),
            _                            => self.status = TreeStatus::QueuedTermination(TreeProcess::Running)''')],needs='termination is queued again by the terminal hook of a node during the last frame',breaks='the tree goes back to processing after its nodes were terminated',demo=HEAD+'''fn main() { let mut s = n("root", 0); s.append(n("queuer", 0)); s.append(n("z", 0)); let mut t = TreeSimple::new(s, LoggerVerbosity::OnlyPanics); t.queue_termination(); t.process(); take(); t.process();
 let l = take(); assert_eq!(l, ["terminal root TreeExit", "terminal queuer TreeExit", "terminal z TreeExit"]); assert!(t.process().has_terminated()); assert!(take().is_empty()); }''')
S['B07']=dict(property='C10',changes=[dict(file=C+'structs/signals.rs',old='''impl <T> Clone for Signal<T> {
    fn clone(&self) -> Self {
        Self::new()
    }''',new='''impl <T> Clone for Signal<T> {
    fn clone(&self) -> Self {
        Signal { hooks: Arc::clone(&self.hooks) }
    }''')],needs='a signal is cloned and the clone is emitted or changed',breaks='a clone shares the connections of the original',demo='''use node_tree::prelude::*;
use std::cell::Cell;
fn main() { let s: Signal<u8> = Signal::new(); let c = Cell::new(0u32); unsafe { s.connect(|_| c.set(c.get() + 1)); } let t = s.clone(); t.emit(1); assert_eq!(c.get(), 0); s.emit(2); assert_eq!(c.get(), 1); }''')
S['B08']=dict(property='C16',changes=[dict(file=C+'structs/node_scene.rs',old='''            children:  cloned_children,
            from_disk: self.from_disk,
            is_owner:  self.is_owner,''',new='''            children:  cloned_children,
            from_disk: self.from_disk,
            is_owner:  self.is_owner || !self.children.is_empty(),''')],needs='a scene with a plain child that has children itself is cloned',breaks='the clone has another ownership flag',demo=HEAD+'''fn main() { let mut s = n("root", 0); let mut a = n("a", 0); a.append(n("b", 0)); s.append(a); let c = s.clone(); assert!(!s.children()[0].is_owner); assert!(!c.children()[0].is_owner); assert!(!c.children()[0].children()[0].is_owner); }''')
S['B09']=dict(property='C19',changes=[dict(file=C+'structs/node_scene.rs',old='''self.children.len().hash(state);''',new='''self.children.is_empty().hash(state);''')],needs='two scenes of the same nodes in pre-order with another nesting',breaks='scenes of another shape have the same hash',demo=HEAD+'''fn main() { let mut s = n("root", 0); let mut a = n("a", 0); a.append(n("b", 0)); s.append(a); let mut t = n("root", 0); t.append(n("a", 0)); t.append(n("b", 0)); let mut u = n("root", 0); let mut v = n("a", 0); v.append(n("b", 0)); v.append(n("c", 0)); u.append(v); let mut x = n("root", 0); let mut y = n("a", 0); y.append(n("b", 0)); x.append(y); x.append(n("c", 0)); assert_ne!(u.structural_hash(), x.structural_hash()); assert_ne!(s.structural_hash(), t.structural_hash()); }''')
S['B10']=dict(property='C18',changes=[dict(file=C+'structs/logger.rs',old='''            LoggerVerbosity::OnlyPanics => if !log.is_panic()       { return false; }
        }
        
        let node_tree:''',new='''            LoggerVerbosity::OnlyPanics => if !log.is_panic()       { return log.is_problematic(); }
        }
        
        let node_tree:''')],needs='a warning is posted under the verbosity that only admits panics',breaks='a warning terminates the tree',demo=HEAD+'''fn main() { let mut t = TreeSimple::new(n("root", 0), LoggerVerbosity::OnlyPanics); t.post(0, Log::Warn("w")); assert!(t.process().is_active()); t.post(0, Log::Panic("p")); assert!(!t.process().is_active()); }''')
S['B11']=dict(property='C20',changes=[dict(file=C+'structs/node_base.rs',old='''            if child.is_owner() {
                scene.append_as_owner''',new='''            if child.is_owner() && self.is_owner() {
                scene.append_as_owner''')],needs='a branch that holds a scene owner below a plain child is saved',breaks='the owner is saved as a plain child',demo=HEAD+'''fn main() { let mut s = n("root", 0); let mut a = n("a", 0); a.append_as_owner(n("b", 0)); a.append(n("c", 0)); s.append(a); let mut t = TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
 let k = t.root().children()[0].rid(); let raw = t.root().top_down(true); assert_eq!(raw.len(), 4);
 let sc = t.get_node(k).unwrap().save_as_branch(); assert!(sc.children()[0].is_owner); assert!(!sc.children()[1].is_owner); let _ = &mut t; }''')
S['B12']=dict(property='C21',changes=[dict(file=C+'structs/node_base.rs',old="""        if new_layer.is_empty() {
            return;""",new="""        if new_layer.len() * 8 < layer.len() || new_layer.is_empty() {
            return;""")],needs='a layer of nine or more nodes with a single child among them',breaks='the nodes below a wide layer are not listed',demo=HEAD+"""fn main() { let mut s = n("x", 0); for i in 0..12 { let mut p = n(&format!("n{i}"), 0); if i == 7 { p.append(n("deep", 0)); } s.append(p); } let t = TreeSimple::new(s, LoggerVerbosity::OnlyPanics); assert_eq!(t.root().top_down(true).len(), 14); }""")
for k in (sys.argv[1:] or S):
    p=subprocess.run(['python3','/verif/tools/seed.py',k],input=json.dumps(S[k]),text=True,capture_output=True); print(p.stdout+p.stderr,flush=True)
