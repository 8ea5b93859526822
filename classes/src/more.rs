// Written by tools/mkclasses.py from tools/decl.py.
class! {
    pub declare CameraNode;
    pub let y: Vec<u8>;
    pub default let node: String;
    pub export default let hk: Vec<u8>;
    default let count_of: bool;
    default let tag_1: bool;
    let wrap: u8;
    let is_ghost: i8;
    pub export default let ba: u8;
    hk _init(y: Vec<u8>, wrap: u8, is_ghost: i8) {}
    hk ready(&mut self) { called("CameraNode ready".to_string()); }
    hk terminal(&mut self, _reason: TerminationReason) { called("CameraNode terminal".to_string()); }
}
fn held_CameraNode(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<CameraNode>()?; Some(vec![x.y.look(), x.node.look(), x.hk.look(), x.count_of.look(), x.tag_1.look(), x.wrap.look(), x.is_ghost.look(), x.ba.look()]) }
fn make_CameraNode(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(CameraNode::new([v.clone(), vec![0]].concat(), (p as u8).wrapping_mul(5).wrapping_add(1), (p as i8).wrapping_mul(5).wrapping_add(2))), vec![{ let z: Vec<u8> = [v.clone(), vec![0]].concat(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = (p as u8).wrapping_mul(5).wrapping_add(1); format!("{z:?}") }, { let z: i8 = (p as i8).wrapping_mul(5).wrapping_add(2); format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }]) }
class! {
    pub declare SubTree;
    pub unique let parent: i32 = -2147483647;
    pub default let root: String;
    pub export default let wrap: u16;
    pub export default let camelCase: String;
    pub default let count_of: bool;
    export default let new: String;
    export let tree: i64;
    pub export default let __deep: String;
    hk _init(tree: i64) {}
    hk ready(&mut self) { called("SubTree ready".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Inverse }
}
fn held_SubTree(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<SubTree>()?; Some(vec![x.parent.look(), x.root.look(), x.wrap.look(), x.camelCase.look(), x.count_of.look(), x.new.look(), x.tree.look(), x.__deep.look()]) }
fn make_SubTree(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(SubTree::new((p as i64).wrapping_mul(5).wrapping_add(0))), vec![{ let z: i32 = -2147483647; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i64 = (p as i64).wrapping_mul(5).wrapping_add(0); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }]) }
class! {
    pub declare PlayerNode;
    unique let kind: bool;
    hk _init(kind: bool) {}
    hk loaded(&mut self) { called("PlayerNode loaded".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Inverse }
}
fn held_PlayerNode(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<PlayerNode>()?; Some(vec![x.kind.look()]) }
fn make_PlayerNode(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(PlayerNode::new((p as usize + 0) % 3 == 0)), vec![{ let z: bool = (p as usize + 0) % 3 == 0; format!("{z:?}") }]) }
class! {
    declare Node3D;
    pub unique let tag_1: bool = false;
    pub export default let take: String;
    pub unique let root: u8;
    export let children: bool;
    pub let owner: bool;
    default let x10: i8;
    pub export default let parent: u32;
    pub export default let mode: bool;
    let rid: Option<i8>;
    pub export let _low: bool = true;
    unique let a: i64 = -1;
    export default let on_x: Vec<u8>;
    pub default let wrap: u16;
    pub default let ty: u64;
    pub let unique: u16;
    pub default let declare: i8;
    unique let signal: Option<i8>;
    pub export let owned_state: u32 = 3696680071;
    pub let kind: bool;
    pub default let name: String;
    hk _init(kind: bool, unique: u16, signal: Option<i8>, children: bool, rid: Option<i8>, root: u8, owner: bool) {}
    hk loaded(&mut self) { called("Node3D loaded".to_string()); }
    hk terminal(&mut self, _reason: TerminationReason) { called("Node3D terminal".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Inherit }
}
fn held_Node3D(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<Node3D>()?; Some(vec![x.tag_1.look(), x.take.look(), x.root.look(), x.children.look(), x.owner.look(), x.x10.look(), x.parent.look(), x.mode.look(), x.rid.look(), x._low.look(), x.a.look(), x.on_x.look(), x.wrap.look(), x.ty.look(), x.unique.look(), x.declare.look(), x.signal.look(), x.owned_state.look(), x.kind.look(), x.name.look()]) }
fn make_Node3D(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(Node3D::new((p as usize + 0) % 3 == 0, (p as u16).wrapping_mul(5).wrapping_add(1), o.map(|x| x.wrapping_add(2)), (p as usize + 3) % 3 == 0, o.map(|x| x.wrapping_add(4)), (p as u8).wrapping_mul(5).wrapping_add(5), (p as usize + 6) % 3 == 0)), vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = (p as u8).wrapping_mul(5).wrapping_add(5); format!("{z:?}") }, { let z: bool = (p as usize + 3) % 3 == 0; format!("{z:?}") }, { let z: bool = (p as usize + 6) % 3 == 0; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(4)); format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = (p as u16).wrapping_mul(5).wrapping_add(1); format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(2)); format!("{z:?}") }, { let z: u32 = 3696680071; format!("{z:?}") }, { let z: bool = (p as usize + 0) % 3 == 0; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }]) }
class! {
    pub declare SCREAM;
    signal aa(a0: Vec<u8>);
    default let unique: u8;
    pub export default let tp_: Option<i8>;
    let camelCase: bool;
    default let _init: u64;
    pub default let children: u32;
    pub let a: Option<i8>;
    let x10: i64 = -4611686018427387904;
    export let wrap: u32 = 0;
    pub export let x1: bool = false;
    export default let r_type: u16;
    pub default let is_ghost: String;
    hk _init(camelCase: bool, a: Option<i8>) {}
    hk loaded(&mut self) { called("SCREAM loaded".to_string()); }
    hk terminal(&mut self, _reason: TerminationReason) { called("SCREAM terminal".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Inherit }
}
fn held_SCREAM(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<SCREAM>()?; Some(vec![x.aa.look(), x.unique.look(), x.tp_.look(), x.camelCase.look(), x._init.look(), x.children.look(), x.a.look(), x.x10.look(), x.wrap.look(), x.x1.look(), x.r_type.look(), x.is_ghost.look()]) }
fn make_SCREAM(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(SCREAM::new((p as usize + 0) % 3 == 0, o.map(|x| x.wrapping_add(1)))), vec![String::from("signal"), { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: bool = (p as usize + 0) % 3 == 0; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(1)); format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }]) }
class! {
    pub declare X;
    signal r_type(a0: u8);
    pub signal rid();
    pub let _init: u16;
    pub let tag_11: i64 = 5;
    let field: Option<i8>;
    unique let new: u16;
    pub export let a_: Vec<u8>;
    let x_1: i8;
    pub let count_of: i8 = 127;
    export default let parent: u8;
    pub let args: Option<i8>;
    default let tag_2: Vec<u8>;
    hk _init(field: Option<i8>, _init: u16, x_1: i8, a_: Vec<u8>, args: Option<i8>, new: u16) {}
    hk loaded(&mut self) { called("X loaded".to_string()); }
    hk terminal(&mut self, _reason: TerminationReason) { called("X terminal".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Always }
}
fn held_X(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<X>()?; Some(vec![x.r_type.look(), x.rid.look(), x._init.look(), x.tag_11.look(), x.field.look(), x.new.look(), x.a_.look(), x.x_1.look(), x.count_of.look(), x.parent.look(), x.args.look(), x.tag_2.look()]) }
fn make_X(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(X::new(o.map(|x| x.wrapping_add(0)), (p as u16).wrapping_mul(5).wrapping_add(1), (p as i8).wrapping_mul(5).wrapping_add(2), [v.clone(), vec![3]].concat(), o.map(|x| x.wrapping_add(4)), (p as u16).wrapping_mul(5).wrapping_add(5))), vec![String::from("signal"), String::from("signal"), { let z: u16 = (p as u16).wrapping_mul(5).wrapping_add(1); format!("{z:?}") }, { let z: i64 = 5; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(0)); format!("{z:?}") }, { let z: u16 = (p as u16).wrapping_mul(5).wrapping_add(5); format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![3]].concat(); format!("{z:?}") }, { let z: i8 = (p as i8).wrapping_mul(5).wrapping_add(2); format!("{z:?}") }, { let z: i8 = 127; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(4)); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }]) }
class! {
    pub declare Under_Score;
    pub signal mode(a0: u8);
    pub default let this: u8;
    pub default let y: i32;
    pub let ty: String;
    pub default let value: u16;
    hk _init(ty: String) {}
    hk ready(&mut self) { called("Under_Score ready".to_string()); }
    hk terminal(&mut self, _reason: TerminationReason) { called("Under_Score terminal".to_string()); }
}
fn held_Under_Score(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<Under_Score>()?; Some(vec![x.mode.look(), x.this.look(), x.y.look(), x.ty.look(), x.value.look()]) }
fn make_Under_Score(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(Under_Score::new(format!("{s}0"))), vec![String::from("signal"), { let z: u8 = 0u8; format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: String = format!("{s}0"); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }]) }
class! {
    declare _Low;
    pub signal data(a0: u8, a1: u8, a2: u8, a3: u8, a4: u8);
    pub signal a_(a0: u8);
    pub signal default(a0: u8, a1: bool);
    pub export let mode: u32;
    default let args: u16;
    pub let x: String;
    export let bases: i32;
    pub unique let x1: i32 = 0;
    pub let init: bool = true;
    pub unique let __deep: String;
    pub let tag_2: i64;
    export let camelCase: u64;
    export let r_type: i32;
    export let tp_: i32 = -2147483647;
    unique let _init: Vec<u8>;
    pub export let children: u64 = 0;
    pub export let name: String;
    pub unique let on_x: i64;
    pub unique let tag_1: u32 = 2;
    pub unique let root: u16;
    unique let rid: Vec<u8>;
    pub export let tag_11: Vec<u8>;
    default let class: String;
    pub unique let count_of: Option<i8>;
    hk _init(root: u16, __deep: String, tag_11: Vec<u8>, mode: u32, _init: Vec<u8>, on_x: i64, tag_2: i64, camelCase: u64, r_type: i32, count_of: Option<i8>, rid: Vec<u8>, x: String, name: String, bases: i32) {}
    hk ready(&mut self) { called("_Low ready".to_string()); }
    hk process(&mut self, _delta: f32) { called("_Low process".to_string()); }
}
fn held__Low(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<_Low>()?; Some(vec![x.data.look(), x.a_.look(), x.default.look(), x.mode.look(), x.args.look(), x.x.look(), x.bases.look(), x.x1.look(), x.init.look(), x.__deep.look(), x.tag_2.look(), x.camelCase.look(), x.r_type.look(), x.tp_.look(), x._init.look(), x.children.look(), x.name.look(), x.on_x.look(), x.tag_1.look(), x.root.look(), x.rid.look(), x.tag_11.look(), x.class.look(), x.count_of.look()]) }
fn make__Low(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(_Low::new((p as u16).wrapping_mul(5).wrapping_add(0), format!("{s}1"), [v.clone(), vec![2]].concat(), (p as u32).wrapping_mul(5).wrapping_add(3), [v.clone(), vec![4]].concat(), (p as i64).wrapping_mul(5).wrapping_add(5), (p as i64).wrapping_mul(5).wrapping_add(6), (p as u64).wrapping_mul(5).wrapping_add(7), (p as i32).wrapping_mul(5).wrapping_add(8), o.map(|x| x.wrapping_add(9)), [v.clone(), vec![10]].concat(), format!("{s}11"), format!("{s}12"), (p as i32).wrapping_mul(5).wrapping_add(13))), vec![String::from("signal"), String::from("signal"), String::from("signal"), { let z: u32 = (p as u32).wrapping_mul(5).wrapping_add(3); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = format!("{s}11"); format!("{z:?}") }, { let z: i32 = (p as i32).wrapping_mul(5).wrapping_add(13); format!("{z:?}") }, { let z: i32 = 0; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: String = format!("{s}1"); format!("{z:?}") }, { let z: i64 = (p as i64).wrapping_mul(5).wrapping_add(6); format!("{z:?}") }, { let z: u64 = (p as u64).wrapping_mul(5).wrapping_add(7); format!("{z:?}") }, { let z: i32 = (p as i32).wrapping_mul(5).wrapping_add(8); format!("{z:?}") }, { let z: i32 = -2147483647; format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![4]].concat(); format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: String = format!("{s}12"); format!("{z:?}") }, { let z: i64 = (p as i64).wrapping_mul(5).wrapping_add(5); format!("{z:?}") }, { let z: u32 = 2; format!("{z:?}") }, { let z: u16 = (p as u16).wrapping_mul(5).wrapping_add(0); format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![10]].concat(); format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![2]].concat(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(9)); format!("{z:?}") }]) }
class! {
    pub declare AVeryLongClassNameThatGoesOnAndOnForever;
    pub default let signal: i8;
    pub unique let bases: u16 = 65372;
    pub default let ba: u64;
    pub export let node: Option<i8>;
    export default let tag_11: Vec<u8>;
    pub export let tag_1: u16 = 65535;
    pub export let is_ghost: Option<i8>;
    pub let mode: u32 = 0;
    pub export let a_: u32 = 4294967295;
    pub export default let aa: Vec<u8>;
    export default let depth: u64;
    pub let name: bool;
    hk _init(is_ghost: Option<i8>, node: Option<i8>, name: bool) {}
    hk process(&mut self, _delta: f32) { called("AVeryLongClassNameThatGoesOnAndOnForever process".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Inverse }
}
fn held_AVeryLongClassNameThatGoesOnAndOnForever(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<AVeryLongClassNameThatGoesOnAndOnForever>()?; Some(vec![x.signal.look(), x.bases.look(), x.ba.look(), x.node.look(), x.tag_11.look(), x.tag_1.look(), x.is_ghost.look(), x.mode.look(), x.a_.look(), x.aa.look(), x.depth.look(), x.name.look()]) }
fn make_AVeryLongClassNameThatGoesOnAndOnForever(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(AVeryLongClassNameThatGoesOnAndOnForever::new(o.map(|x| x.wrapping_add(0)), o.map(|x| x.wrapping_add(1)), (p as usize + 2) % 3 == 0)), vec![{ let z: i8 = 0i8; format!("{z:?}") }, { let z: u16 = 65372; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(1)); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 65535; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(0)); format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: u32 = 4294967295; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: bool = (p as usize + 2) % 3 == 0; format!("{z:?}") }]) }
class! {
    pub declare Base;
    pub signal scene(a0: u8, a1: u8, a2: u8, a3: u8, a4: u8);
    pub signal value(a0: u8);
    pub export default let status: u32;
    unique let ba: i8 = -127;
    pub export default let tp_: bool;
    pub export let data: u8 = 1;
    pub export let signal: i32 = -1248872451;
    export let count_of: Vec<u8>;
    pub unique let process_mode: i32 = 826497231;
    pub export let mode: u64;
    let args: Vec<u8>;
    unique let field: u32;
    let init: Vec<u8>;
    pub export default let declare: String;
    pub unique let x_1: Vec<u8>;
    pub default let owner: u32;
    let map: u8 = 1;
    default let wrap: String;
    pub let tag_2: bool;
    export let b: i32 = 2147483647;
    hk _init(tag_2: bool, mode: u64, init: Vec<u8>, count_of: Vec<u8>, x_1: Vec<u8>, args: Vec<u8>, field: u32) {}
    hk terminal(&mut self, _reason: TerminationReason) { called("Base terminal".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Inverse }
}
fn held_Base(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<Base>()?; Some(vec![x.scene.look(), x.value.look(), x.status.look(), x.ba.look(), x.tp_.look(), x.data.look(), x.signal.look(), x.count_of.look(), x.process_mode.look(), x.mode.look(), x.args.look(), x.field.look(), x.init.look(), x.declare.look(), x.x_1.look(), x.owner.look(), x.map.look(), x.wrap.look(), x.tag_2.look(), x.b.look()]) }
fn make_Base(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(Base::new((p as usize + 0) % 3 == 0, (p as u64).wrapping_mul(5).wrapping_add(1), [v.clone(), vec![2]].concat(), [v.clone(), vec![3]].concat(), [v.clone(), vec![4]].concat(), [v.clone(), vec![5]].concat(), (p as u32).wrapping_mul(5).wrapping_add(6))), vec![String::from("signal"), String::from("signal"), { let z: u32 = 0u32; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![3]].concat(); format!("{z:?}") }, { let z: i32 = 826497231; format!("{z:?}") }, { let z: u64 = (p as u64).wrapping_mul(5).wrapping_add(1); format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![5]].concat(); format!("{z:?}") }, { let z: u32 = (p as u32).wrapping_mul(5).wrapping_add(6); format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![2]].concat(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![4]].concat(); format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = (p as usize + 0) % 3 == 0; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }]) }
class! {
    pub declare Scene;
    pub export let map: String;
    hk _init(map: String) {}
    hk terminal(&mut self, _reason: TerminationReason) { called("Scene terminal".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Pausable }
}
fn held_Scene(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<Scene>()?; Some(vec![x.map.look()]) }
fn make_Scene(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(Scene::new(format!("{s}0"))), vec![{ let z: String = format!("{s}0"); format!("{z:?}") }]) }
class! {
    declare Nodes;
    pub default let class: String;
    let process_mode: String;
    hk _init(process_mode: String) {}
    hk loaded(&mut self) { called("Nodes loaded".to_string()); }
    hk terminal(&mut self, _reason: TerminationReason) { called("Nodes terminal".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Pausable }
}
fn held_Nodes(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<Nodes>()?; Some(vec![x.class.look(), x.process_mode.look()]) }
fn make_Nodes(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(Nodes::new(format!("{s}0"))), vec![{ let z: String = String::new(); format!("{z:?}") }, { let z: String = format!("{s}0"); format!("{z:?}") }]) }
class! {
    pub declare TreeTop;
    pub signal x10(a0: u8);
    pub signal count_of(a0: String);
    pub export let void: u32 = 0;
    let init: u32;
    let this_name_is_longer_than_any_other_name_in_this_file: Option<i8>;
    pub let a_: i64;
    export default let tag_2: String;
    pub default let on_x: i32;
    default let ty: u16;
    export default let _init: Option<i8>;
    pub unique let camelCase: i64 = -1;
    pub export default let r_type: u8;
    pub default let mode: i8;
    pub export let bases: u8 = 0;
    unique let args: i64 = 1;
    unique let new: bool = true;
    pub default let b: i64;
    pub unique let data: i64 = 3513673736841092178;
    export default let a: u16;
    pub let rid: u64 = 9;
    hk _init(this_name_is_longer_than_any_other_name_in_this_file: Option<i8>, a_: i64, init: u32) {}
    hk process_mode(&self) -> ProcessMode { ProcessMode::Always }
}
fn held_TreeTop(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<TreeTop>()?; Some(vec![x.x10.look(), x.count_of.look(), x.void.look(), x.init.look(), x.this_name_is_longer_than_any_other_name_in_this_file.look(), x.a_.look(), x.tag_2.look(), x.on_x.look(), x.ty.look(), x._init.look(), x.camelCase.look(), x.r_type.look(), x.mode.look(), x.bases.look(), x.args.look(), x.new.look(), x.b.look(), x.data.look(), x.a.look(), x.rid.look()]) }
fn make_TreeTop(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(TreeTop::new(o.map(|x| x.wrapping_add(0)), (p as i64).wrapping_mul(5).wrapping_add(1), (p as u32).wrapping_mul(5).wrapping_add(2))), vec![String::from("signal"), String::from("signal"), { let z: u32 = 0; format!("{z:?}") }, { let z: u32 = (p as u32).wrapping_mul(5).wrapping_add(2); format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(0)); format!("{z:?}") }, { let z: i64 = (p as i64).wrapping_mul(5).wrapping_add(1); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i64 = 1; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = 0i64; format!("{z:?}") }, { let z: i64 = 3513673736841092178; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 9; format!("{z:?}") }]) }
class! {
    pub declare Signals;
    pub let wrap: String;
    export default let field: Vec<u8>;
    pub let name: i64;
    default let tp_: bool;
    pub default let ab: bool;
    default let unique: u8;
    let kind: i32 = -1;
    pub let map: String;
    pub export let init: u8;
    unique let status: u16;
    pub default let void: u16;
    pub unique let declare: i32;
    pub export let process_mode: bool = false;
    unique let ba: u64 = 0;
    pub export default let rid: u64;
    pub default let parent: u32;
    pub export default let a: u64;
    let index: Vec<u8>;
    export default let this: Vec<u8>;
    export default let state: bool;
    hk _init(map: String, declare: i32, index: Vec<u8>, name: i64, init: u8, wrap: String, status: u16) {}
    hk ready(&mut self) { called("Signals ready".to_string()); }
    hk process(&mut self, _delta: f32) { called("Signals process".to_string()); }
    hk terminal(&mut self, _reason: TerminationReason) { called("Signals terminal".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Pausable }
}
fn held_Signals(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<Signals>()?; Some(vec![x.wrap.look(), x.field.look(), x.name.look(), x.tp_.look(), x.ab.look(), x.unique.look(), x.kind.look(), x.map.look(), x.init.look(), x.status.look(), x.void.look(), x.declare.look(), x.process_mode.look(), x.ba.look(), x.rid.look(), x.parent.look(), x.a.look(), x.index.look(), x.this.look(), x.state.look()]) }
fn make_Signals(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(Signals::new(format!("{s}0"), (p as i32).wrapping_mul(5).wrapping_add(1), [v.clone(), vec![2]].concat(), (p as i64).wrapping_mul(5).wrapping_add(3), (p as u8).wrapping_mul(5).wrapping_add(4), format!("{s}5"), (p as u16).wrapping_mul(5).wrapping_add(6))), vec![{ let z: String = format!("{s}5"); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: i64 = (p as i64).wrapping_mul(5).wrapping_add(3); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: i32 = -1; format!("{z:?}") }, { let z: String = format!("{s}0"); format!("{z:?}") }, { let z: u8 = (p as u8).wrapping_mul(5).wrapping_add(4); format!("{z:?}") }, { let z: u16 = (p as u16).wrapping_mul(5).wrapping_add(6); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: i32 = (p as i32).wrapping_mul(5).wrapping_add(1); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: Vec<u8> = [v.clone(), vec![2]].concat(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }]) }
class! {
    pub declare Field1;
    pub signal scene(a0: Vec<u8>);
    pub signal owned_state(a0: String);
    pub unique let declare: bool = true;
    pub let rid: Option<i8>;
    pub let kind: i8 = 9;
    pub let ab: String;
    pub let name: String;
    pub unique let on_name: String;
    pub default let a: String;
    pub let x_1: bool;
    default let camelCase: i32;
    pub let value: String;
    export default let take: bool;
    let mode: u64 = 0;
    pub export default let _init: Option<i8>;
    pub default let base_: u32;
    pub let export: u64 = 9223372036854775807;
    unique let data: Option<i8>;
    pub let args: bool = false;
    pub let is_ghost: u32;
    pub default let map: String;
    pub let unique: bool;
    pub let hk: Option<i8>;
    pub export let status: u32 = 0;
    hk _init(hk: Option<i8>, on_name: String, rid: Option<i8>, unique: bool, name: String, x_1: bool, value: String, data: Option<i8>, is_ghost: u32, ab: String) {}
    hk loaded(&mut self) { called("Field1 loaded".to_string()); }
    hk process(&mut self, _delta: f32) { called("Field1 process".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Always }
}
fn held_Field1(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<Field1>()?; Some(vec![x.scene.look(), x.owned_state.look(), x.declare.look(), x.rid.look(), x.kind.look(), x.ab.look(), x.name.look(), x.on_name.look(), x.a.look(), x.x_1.look(), x.camelCase.look(), x.value.look(), x.take.look(), x.mode.look(), x._init.look(), x.base_.look(), x.export.look(), x.data.look(), x.args.look(), x.is_ghost.look(), x.map.look(), x.unique.look(), x.hk.look(), x.status.look()]) }
fn make_Field1(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(Field1::new(o.map(|x| x.wrapping_add(0)), format!("{s}1"), o.map(|x| x.wrapping_add(2)), (p as usize + 3) % 3 == 0, format!("{s}4"), (p as usize + 5) % 3 == 0, format!("{s}6"), o.map(|x| x.wrapping_add(7)), (p as u32).wrapping_mul(5).wrapping_add(8), format!("{s}9"))), vec![String::from("signal"), String::from("signal"), { let z: bool = true; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(2)); format!("{z:?}") }, { let z: i8 = 9; format!("{z:?}") }, { let z: String = format!("{s}9"); format!("{z:?}") }, { let z: String = format!("{s}4"); format!("{z:?}") }, { let z: String = format!("{s}1"); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = (p as usize + 5) % 3 == 0; format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: String = format!("{s}6"); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u64 = 9223372036854775807; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(7)); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u32 = (p as u32).wrapping_mul(5).wrapping_add(8); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = (p as usize + 3) % 3 == 0; format!("{z:?}") }, { let z: Option<i8> = o.map(|x| x.wrapping_add(0)); format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }]) }
class! {
    declare Kindly;
    export default let field: Vec<u8>;
    let _low: u16 = 0;
    hk terminal(&mut self, _reason: TerminationReason) { called("Kindly terminal".to_string()); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Pausable }
}
fn held_Kindly(x: &dyn Node) -> Option<Vec<String>> { let x = x.as_any_ref().downcast_ref::<Kindly>()?; Some(vec![x.field.look(), x._low.look()]) }
fn make_Kindly(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) { (Box::new(Kindly::new()), vec![{ let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }]) }
pub const SAMPLES: [Sample; 16] = [
    Sample { name: "CameraNode", fields: &["y", "node", "hk", "count_of", "tag_1", "wrap", "is_ghost", "ba"], kinds: "fdxddffx", zeros: &["[]", "\"\"", "[]", "false", "false", "0", "0", "0"], mode: ProcessMode::Inherit, hooks: &["ready", "terminal"], make: make_CameraNode, held: held_CameraNode },
    Sample { name: "SubTree", fields: &["parent", "root", "wrap", "camelCase", "count_of", "new", "tree", "__deep"], kinds: "udxxdxex", zeros: &["0", "\"\"", "0", "\"\"", "false", "\"\"", "0", "\"\""], mode: ProcessMode::Inverse, hooks: &["ready"], make: make_SubTree, held: held_SubTree },
    Sample { name: "PlayerNode", fields: &["kind"], kinds: "u", zeros: &["false"], mode: ProcessMode::Inverse, hooks: &["loaded"], make: make_PlayerNode, held: held_PlayerNode },
    Sample { name: "Node3D", fields: &["tag_1", "take", "root", "children", "owner", "x10", "parent", "mode", "rid", "_low", "a", "on_x", "wrap", "ty", "unique", "declare", "signal", "owned_state", "kind", "name"], kinds: "uxuefdxxfeuxddfduefd", zeros: &["false", "\"\"", "0", "false", "false", "0", "0", "false", "None", "false", "0", "[]", "0", "0", "0", "0", "None", "0", "false", "\"\""], mode: ProcessMode::Inherit, hooks: &["loaded", "terminal"], make: make_Node3D, held: held_Node3D },
    Sample { name: "SCREAM", fields: &["aa", "unique", "tp_", "camelCase", "_init", "children", "a", "x10", "wrap", "x1", "r_type", "is_ghost"], kinds: "sdxfddffeexd", zeros: &["signal", "0", "None", "false", "0", "0", "None", "0", "0", "false", "0", "\"\""], mode: ProcessMode::Inherit, hooks: &["loaded", "terminal"], make: make_SCREAM, held: held_SCREAM },
    Sample { name: "X", fields: &["r_type", "rid", "_init", "tag_11", "field", "new", "a_", "x_1", "count_of", "parent", "args", "tag_2"], kinds: "ssfffueffxfd", zeros: &["signal", "signal", "0", "0", "None", "0", "[]", "0", "0", "0", "None", "[]"], mode: ProcessMode::Always, hooks: &["loaded", "terminal"], make: make_X, held: held_X },
    Sample { name: "Under_Score", fields: &["mode", "this", "y", "ty", "value"], kinds: "sddfd", zeros: &["signal", "0", "0", "\"\"", "0"], mode: ProcessMode::Inherit, hooks: &["ready", "terminal"], make: make_Under_Score, held: held_Under_Score },
    Sample { name: "_Low", fields: &["data", "a_", "default", "mode", "args", "x", "bases", "x1", "init", "__deep", "tag_2", "camelCase", "r_type", "tp_", "_init", "children", "name", "on_x", "tag_1", "root", "rid", "tag_11", "class", "count_of"], kinds: "sssedfeufufeeeueeuuuuedu", zeros: &["signal", "signal", "signal", "0", "0", "\"\"", "0", "0", "false", "\"\"", "0", "0", "0", "0", "[]", "0", "\"\"", "0", "0", "0", "[]", "[]", "\"\"", "None"], mode: ProcessMode::Inherit, hooks: &["ready", "process"], make: make__Low, held: held__Low },
    Sample { name: "AVeryLongClassNameThatGoesOnAndOnForever", fields: &["signal", "bases", "ba", "node", "tag_11", "tag_1", "is_ghost", "mode", "a_", "aa", "depth", "name"], kinds: "dudexeefexxf", zeros: &["0", "0", "0", "None", "[]", "0", "None", "0", "0", "[]", "0", "false"], mode: ProcessMode::Inverse, hooks: &["process"], make: make_AVeryLongClassNameThatGoesOnAndOnForever, held: held_AVeryLongClassNameThatGoesOnAndOnForever },
    Sample { name: "Base", fields: &["scene", "value", "status", "ba", "tp_", "data", "signal", "count_of", "process_mode", "mode", "args", "field", "init", "declare", "x_1", "owner", "map", "wrap", "tag_2", "b"], kinds: "ssxuxeeeuefufxudfdfe", zeros: &["signal", "signal", "0", "0", "false", "0", "0", "[]", "0", "0", "[]", "0", "[]", "\"\"", "[]", "0", "0", "\"\"", "false", "0"], mode: ProcessMode::Inverse, hooks: &["terminal"], make: make_Base, held: held_Base },
    Sample { name: "Scene", fields: &["map"], kinds: "e", zeros: &["\"\""], mode: ProcessMode::Pausable, hooks: &["terminal"], make: make_Scene, held: held_Scene },
    Sample { name: "Nodes", fields: &["class", "process_mode"], kinds: "df", zeros: &["\"\"", "\"\""], mode: ProcessMode::Pausable, hooks: &["loaded", "terminal"], make: make_Nodes, held: held_Nodes },
    Sample { name: "TreeTop", fields: &["x10", "count_of", "void", "init", "this_name_is_longer_than_any_other_name_in_this_file", "a_", "tag_2", "on_x", "ty", "_init", "camelCase", "r_type", "mode", "bases", "args", "new", "b", "data", "a", "rid"], kinds: "ssefffxddxuxdeuuduxf", zeros: &["signal", "signal", "0", "0", "None", "0", "\"\"", "0", "0", "None", "0", "0", "0", "0", "0", "false", "0", "0", "0", "0"], mode: ProcessMode::Always, hooks: &[], make: make_TreeTop, held: held_TreeTop },
    Sample { name: "Signals", fields: &["wrap", "field", "name", "tp_", "ab", "unique", "kind", "map", "init", "status", "void", "declare", "process_mode", "ba", "rid", "parent", "a", "index", "this", "state"], kinds: "fxfdddffeudueuxdxfxx", zeros: &["\"\"", "[]", "0", "false", "false", "0", "0", "\"\"", "0", "0", "0", "0", "false", "0", "0", "0", "0", "[]", "[]", "false"], mode: ProcessMode::Pausable, hooks: &["ready", "process", "terminal"], make: make_Signals, held: held_Signals },
    Sample { name: "Field1", fields: &["scene", "owned_state", "declare", "rid", "kind", "ab", "name", "on_name", "a", "x_1", "camelCase", "value", "take", "mode", "_init", "base_", "export", "data", "args", "is_ghost", "map", "unique", "hk", "status"], kinds: "ssuffffudfdfxfxdfuffdffe", zeros: &["signal", "signal", "false", "None", "0", "\"\"", "\"\"", "\"\"", "\"\"", "false", "0", "\"\"", "false", "0", "None", "0", "0", "None", "false", "0", "\"\"", "false", "None", "0"], mode: ProcessMode::Always, hooks: &["loaded", "process"], make: make_Field1, held: held_Field1 },
    Sample { name: "Kindly", fields: &["field", "_low"], kinds: "xf", zeros: &["[]", "0"], mode: ProcessMode::Pausable, hooks: &["terminal"], make: make_Kindly, held: held_Kindly },
];
#[allow(unused_variables)]
pub fn s0(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        Signals(s.to_string(), 2147483647, Vec::new(), -1509827042803370991, 3, s.to_string(), 1): "_" { init: if p == 7 { p } else { 0 }, parent: 1, process_mode: !(p == 3), map: s.to_string(), ab: true, }
    }
}
#[allow(unused_variables)]
fn want_s0(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("Signals", "_", vec![{ let z: String = s.to_string(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: i64 = -1509827042803370991; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: i32 = -1; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u8 = if p == 7 { p } else { 0 }; format!("{z:?}") }, { let z: u16 = 1; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 1; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }], vec![]) }
#[allow(unused_variables)]
pub fn s1(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        Kindly: " pad "
    }
}
#[allow(unused_variables)]
fn want_s1(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("Kindly", " pad ", vec![{ let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }], vec![]) }
#[allow(unused_variables)]
pub fn s2(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        Scene(s.to_string()) [
            Base(p > 100, 249024313598286716, Vec::new(), Vec::new(), Vec::new(), Vec::new(), 4294967295): "A name with spaces" { owner: 1, x_1: Vec::new(), declare: s.to_string(), owner: 0 },
            Node3D(!(p == 3), 65535, o, true, o, p, p > 100) { _low: false, wrap: 1, mode: !(p == 3), _low: !(p == 3), [
                    PlayerNode(!(p == 3)) [
                            $link,
                            Node3D(true, 0, o, true, o, if p == 7 { p } else { 0 }, false) { root: 0, owned_state: 1334769381, name: s.to_string(), kind: !(p == 3) }
                        ],
                    Field1(o, s.to_string(), o, false, s.to_string(), p > 100, s.to_string(), o, 1140222333, s.to_string()): "a/b" { hk: o, declare: false, kind: 1, is_ghost: 4294967295, ab: s.to_string(), [
                            SubTree(-4611686018427387904): " pad " { parent: -1, root: s.to_string(), wrap: 0, parent: 483299375 },
                        ] }
                ] },
            PlayerNode(true),
        ]
    }
}
#[allow(unused_variables)]
fn want_s2(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("Scene", "Scene", vec![{ let z: String = s.to_string(); format!("{z:?}") }], vec![told("Base", "A name with spaces", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0u32; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i32 = 826497231; format!("{z:?}") }, { let z: u64 = 249024313598286716; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 4294967295; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }], vec![]), told("Node3D", "Node3D", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = p; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 1; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 65535; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 3696680071; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }], vec![told("PlayerNode", "PlayerNode", vec![{ let z: bool = !(p == 3); format!("{z:?}") }], vec![inner.to_string(), told("Node3D", "Node3D", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 1334769381; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![])]), told("Field1", "a/b", vec![String::from("signal"), String::from("signal"), { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i8 = 1; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u64 = 9223372036854775807; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u32 = 4294967295; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }], vec![told("SubTree", " pad ", vec![{ let z: i32 = 483299375; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }], vec![])])]), told("PlayerNode", "PlayerNode", vec![{ let z: bool = true; format!("{z:?}") }], vec![])]) }
#[allow(unused_variables)]
pub fn s3(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        TreeTop(o, -2085820261207421192, 0): "Node2" { rid: 0, data: -1, bases: 0, [
            SCREAM(false, o) { is_ghost: s.to_string(), tp_: o, x1: true, },
            $link,
            PlayerNode(p > 100): "Bare",
        ] }
    }
}
#[allow(unused_variables)]
fn want_s3(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("TreeTop", "Node2", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -2085820261207421192; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i64 = 1; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = 0i64; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }], vec![told("SCREAM", "SCREAM", vec![String::from("signal"), { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), inner.to_string(), told("PlayerNode", "Bare", vec![{ let z: bool = p > 100; format!("{z:?}") }], vec![])]) }
#[allow(unused_variables)]
pub fn s4(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        Node3D(true, 29511, o, p > 100, o, 1, false) { mode: false, name: s.to_string(), owned_state: 4294967295, }
    }
}
#[allow(unused_variables)]
fn want_s4(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("Node3D", "Node3D", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 29511; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 4294967295; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]) }
#[allow(unused_variables)]
pub fn s5(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        SCREAM(p > 100, o): " pad " { is_ghost: s.to_string(), is_ghost: s.to_string(), [
            $link,
            Base(false, 9223372036854775807, Vec::new(), Vec::new(), Vec::new(), Vec::new(), 1) { data: 0, owner: 0, process_mode: -2147483647, [
                    Nodes(s.to_string()): "",
                ] }
        ] }
    }
}
#[allow(unused_variables)]
fn want_s5(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("SCREAM", " pad ", vec![String::from("signal"), { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![inner.to_string(), told("Base", "Base", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0u32; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i32 = -2147483647; format!("{z:?}") }, { let z: u64 = 9223372036854775807; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 1; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }], vec![told("Nodes", "", vec![{ let z: String = String::new(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![])])]) }
#[allow(unused_variables)]
pub fn s6(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        SubTree(-4611686018427387904) { root: s.to_string(), wrap: 65535, parent: -1, [
            X(o, 1, 127, Vec::new(), o, 0): "x1" { _init: 0, tag_11: 1, [
                    _Low(0, s.to_string(), Vec::new(), 1, Vec::new(), 1, -1, 4, 2147483647, o, Vec::new(), s.to_string(), s.to_string(), 2147483647): "Bare" { tag_11: Vec::new(), x: s.to_string(), tag_2: -1, count_of: o, root: 0, on_x: 4611686018427387904 },
                ] },
            PlayerNode(p > 100): "007" [
                    CameraNode(Vec::new(), 0, 0): ".." { hk: Vec::new(), ba: p, node: s.to_string(), y: Vec::new(), hk: Vec::new(), },
                    $link
                ],
            $link,
            Kindly [
                    Node3D(!(p == 3), 0, o, p > 100, o, if p > 3 { 1 } else { 2 }, true): "name" { take: s.to_string(), unique: 46068, wrap: 0, declare: 1, parent: 0, tag_1: false, _low: !(p == 3), kind: true },
                    $link
                ],
            Kindly,
        ] }
    }
}
#[allow(unused_variables)]
fn want_s6(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("SubTree", "SubTree", vec![{ let z: i32 = -1; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u16 = 65535; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }], vec![told("X", "x1", vec![String::from("signal"), String::from("signal"), { let z: u16 = 0; format!("{z:?}") }, { let z: i64 = 1; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i8 = 127; format!("{z:?}") }, { let z: i8 = 127; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }], vec![told("_Low", "Bare", vec![String::from("signal"), String::from("signal"), String::from("signal"), { let z: u32 = 1; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }, { let z: i32 = 0; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: u64 = 4; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }, { let z: i32 = -2147483647; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i64 = 4611686018427387904; format!("{z:?}") }, { let z: u32 = 2; format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }], vec![])]), told("PlayerNode", "007", vec![{ let z: bool = p > 100; format!("{z:?}") }], vec![told("CameraNode", "..", vec![{ let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i8 = 0; format!("{z:?}") }, { let z: u8 = p; format!("{z:?}") }], vec![]), inner.to_string()]), inner.to_string(), told("Kindly", "Kindly", vec![{ let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }], vec![told("Node3D", "name", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u8 = if p > 3 { 1 } else { 2 }; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 46068; format!("{z:?}") }, { let z: i8 = 1; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 3696680071; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }], vec![]), inner.to_string()]), told("Kindly", "Kindly", vec![{ let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }], vec![])]) }
#[allow(unused_variables)]
pub fn s7(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        Node3D(!(p == 3), 16122, o, true, o, if p == 7 { p } else { 0 }, true): "a/b" { name: s.to_string(), unique: 65318, kind: true, wrap: 1, declare: 104, mode: p > 100, [
            SCREAM(false, o) { is_ghost: s.to_string(), },
            SCREAM(true, o): "Node2" { x1: true, children: 9, [
                    $link,
                    $link
                ] }
        ] }
    }
}
#[allow(unused_variables)]
fn want_s7(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("Node3D", "a/b", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = if p == 7 { p } else { 0 }; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 1; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 65318; format!("{z:?}") }, { let z: i8 = 104; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 3696680071; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![told("SCREAM", "SCREAM", vec![String::from("signal"), { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), told("SCREAM", "Node2", vec![String::from("signal"), { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 9; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }], vec![inner.to_string(), inner.to_string()])]) }
#[allow(unused_variables)]
pub fn chain(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        PlayerNode(p > 100): "tab\t" [
            Field1(o, s.to_string(), o, false, s.to_string(), true, s.to_string(), o, 1, s.to_string()): "q\"q" { _init: o, a: s.to_string(), kind: 9, hk: o, base_: 2, name: s.to_string(), [
                    Signals(s.to_string(), 1, Vec::new(), -1, if p == 7 { p } else { 0 }, s.to_string(), 6) { a: 0, declare: 2147483647, wrap: s.to_string(), process_mode: !(p == 3), parent: 1, name: -4611686018427387904, ab: true, [
                            Field1(o, s.to_string(), o, true, s.to_string(), true, s.to_string(), o, 4294967295, s.to_string()): "9" { is_ghost: 1456118332, a: s.to_string(), on_name: s.to_string(), status: 249633204, ab: s.to_string(), name: s.to_string(), is_ghost: 9, [
                                    CameraNode(Vec::new(), 0, 1): "q\"q" { y: Vec::new(), y: Vec::new(), [
                                            Scene(s.to_string()): "9" { map: s.to_string(), [
                                                    TreeTop(o, -4611686018427387904, 4294967295): "A name with spaces" { camelCase: 4, r_type: if p > 3 { 1 } else { 2 }, rid: 0, b: 9, camelCase: 6, [
                                                            AVeryLongClassNameThatGoesOnAndOnForever(o, o, true) { name: true, ba: 1, name: false, [
                                                                    CameraNode(Vec::new(), if p > 3 { 1 } else { 2 }, -1): "tab\t" { node: s.to_string(), node: s.to_string(), [
                                                                            Scene(s.to_string()): "007" { map: s.to_string(), map: s.to_string(), [
                                                                                    X(o, 1, -1, Vec::new(), o, 54753) [
                                                                                            Kindly: "a/b" [
                                                                                                    _Low(65535, s.to_string(), Vec::new(), 3719458222, Vec::new(), 3, -4611686018427387904, 1, -2147483647, o, Vec::new(), s.to_string(), s.to_string(), 1) { root: 0, on_x: 4611686018427387904, x1: -2147483647, x: s.to_string(), name: s.to_string(), mode: 0, tag_11: Vec::new(), },
                                                                                                ],
                                                                                        ],
                                                                                ] },
                                                                        ] },
                                                                ] },
                                                        ] },
                                                ] },
                                        ] },
                                ] },
                        ] },
                ] },
        ]
    }
}
#[allow(unused_variables)]
fn want_chain(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("PlayerNode", "tab\t", vec![{ let z: bool = p > 100; format!("{z:?}") }], vec![told("Field1", "q\"q", vec![String::from("signal"), String::from("signal"), { let z: bool = true; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i8 = 9; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 2; format!("{z:?}") }, { let z: u64 = 9223372036854775807; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u32 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }], vec![told("Signals", "Signals", vec![{ let z: String = s.to_string(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: i32 = -1; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u8 = if p == 7 { p } else { 0 }; format!("{z:?}") }, { let z: u16 = 6; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 1; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }], vec![told("Field1", "9", vec![String::from("signal"), String::from("signal"), { let z: bool = true; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i8 = 9; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u64 = 9223372036854775807; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u32 = 9; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 249633204; format!("{z:?}") }], vec![told("CameraNode", "q\"q", vec![{ let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i8 = 1; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }], vec![told("Scene", "9", vec![{ let z: String = s.to_string(); format!("{z:?}") }], vec![told("TreeTop", "A name with spaces", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0; format!("{z:?}") }, { let z: u32 = 4294967295; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: i64 = 6; format!("{z:?}") }, { let z: u8 = if p > 3 { 1 } else { 2 }; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i64 = 1; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = 9; format!("{z:?}") }, { let z: i64 = 3513673736841092178; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }], vec![told("AVeryLongClassNameThatGoesOnAndOnForever", "AVeryLongClassNameThatGoesOnAndOnForever", vec![{ let z: i8 = 0i8; format!("{z:?}") }, { let z: u16 = 65372; format!("{z:?}") }, { let z: u64 = 1; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 65535; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: u32 = 4294967295; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }], vec![told("CameraNode", "tab\t", vec![{ let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = if p > 3 { 1 } else { 2 }; format!("{z:?}") }, { let z: i8 = -1; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }], vec![told("Scene", "007", vec![{ let z: String = s.to_string(); format!("{z:?}") }], vec![told("X", "X", vec![String::from("signal"), String::from("signal"), { let z: u16 = 1; format!("{z:?}") }, { let z: i64 = 5; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u16 = 54753; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i8 = -1; format!("{z:?}") }, { let z: i8 = 127; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }], vec![told("Kindly", "a/b", vec![{ let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }], vec![told("_Low", "_Low", vec![String::from("signal"), String::from("signal"), String::from("signal"), { let z: u32 = 0; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i32 = 1; format!("{z:?}") }, { let z: i32 = -2147483647; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u64 = 1; format!("{z:?}") }, { let z: i32 = -2147483647; format!("{z:?}") }, { let z: i32 = -2147483647; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i64 = 4611686018427387904; format!("{z:?}") }, { let z: u32 = 2; format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }], vec![])])])])])])])])])])])])]) }
#[allow(unused_variables)]
pub fn wide(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {
    scene! {
        Nodes(s.to_string()): "x1" { class: s.to_string(), class: s.to_string(), [
            Scene(s.to_string()): "q\"q",
            $link,
            Under_Score(s.to_string()) { this: p, value: 0 },
            SubTree(5): "a/b" { root: s.to_string(), camelCase: s.to_string(), __deep: s.to_string(), root: s.to_string() },
            Node3D(false, 65535, o, !(p == 3), o, if p == 7 { p } else { 0 }, true) { owned_state: 9, },
            Base(!(p == 3), 9223372036854775807, Vec::new(), Vec::new(), Vec::new(), Vec::new(), 5) { process_mode: 2147483647, },
            SubTree(-1) { root: s.to_string(), camelCase: s.to_string() },
            $link,
            Base(false, 9223372036854775807, Vec::new(), Vec::new(), Vec::new(), Vec::new(), 2183162804): "A name with spaces" { status: 1625747149, declare: s.to_string(), x_1: Vec::new(), },
            Under_Score(s.to_string()): "_" { ty: s.to_string(), },
            Node3D(p > 100, 0, o, !(p == 3), o, 1, true): " pad " { owner: !(p == 3), wrap: 1, declare: 106, name: s.to_string(), mode: true, _low: p > 100 },
            Nodes(s.to_string()): "q\"q",
            $link,
            TreeTop(o, 1, 1): "_" { a_: -2244639972906533606, on_x: 5 },
            Node3D(!(p == 3), 8, o, p > 100, o, if p > 3 { 1 } else { 2 }, !(p == 3)): "007" { mode: !(p == 3), declare: 127 },
            AVeryLongClassNameThatGoesOnAndOnForever(o, o, true): "_" { bases: 0, a_: 3501023201, is_ghost: o, mode: 1463538017 },
            X(o, 1, -1, Vec::new(), o, 65535): "_" { a_: Vec::new(), count_of: 127 },
            Base(!(p == 3), 1, Vec::new(), Vec::new(), Vec::new(), Vec::new(), 1): "007" { owner: 0, tp_: false, x_1: Vec::new(), tag_2: true },
            Base(false, 0, Vec::new(), Vec::new(), Vec::new(), Vec::new(), 0) { process_mode: -1, declare: s.to_string(), process_mode: 5, },
            $link,
            Base(false, 0, Vec::new(), Vec::new(), Vec::new(), Vec::new(), 1665403737): "name" { tp_: false, mode: 1, tp_: p > 100, },
            CameraNode(Vec::new(), 0, 127): ".." { ba: if p > 3 { 1 } else { 2 }, },
            $link,
            SCREAM(!(p == 3), o): "a name of forty characters and a few more x" { is_ghost: s.to_string(), children: 3455322656, x1: p > 100, },
            $link,
            Nodes(s.to_string()): ".." { class: s.to_string(), },
            Base(!(p == 3), 0, Vec::new(), Vec::new(), Vec::new(), Vec::new(), 1) { x_1: Vec::new(), mode: 3 },
            Signals(s.to_string(), 5, Vec::new(), 1, 0, s.to_string(), 1): "q\"q" { parent: 0, a: 0, map: s.to_string(), init: p, rid: 1, },
            PlayerNode(p > 100): "tab\t",
            Node3D(p > 100, 0, o, p > 100, o, if p > 3 { 1 } else { 2 }, p > 100): "q\"q" { _low: false, name: s.to_string(), owner: true, },
            $link,
            TreeTop(o, -2412004082193732763, 0): "x1" { on_x: -296082555, data: 1 },
            _Low(65535, s.to_string(), Vec::new(), 0, Vec::new(), 7, -4611686018427387904, 6, -1, o, Vec::new(), s.to_string(), s.to_string(), 2147483647): "" { children: 0, on_x: -4611686018427387904, tag_11: Vec::new(), x1: 1, init: !(p == 3), },
            Kindly: "A name with spaces",
            Scene(s.to_string()): "a",
            $link,
            Kindly: "/",
            SubTree(-1): "q\"q" { root: s.to_string(), __deep: s.to_string(), camelCase: s.to_string(), },
            $link,
            Kindly
        ] }
    }
}
#[allow(unused_variables)]
fn want_wide(p: u8, s: &str, o: Option<i8>, inner: &str) -> String { told("Nodes", "x1", vec![{ let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![told("Scene", "q\"q", vec![{ let z: String = s.to_string(); format!("{z:?}") }], vec![]), inner.to_string(), told("Under_Score", "Under_Score", vec![String::from("signal"), { let z: u8 = p; format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }], vec![]), told("SubTree", "a/b", vec![{ let z: i32 = -2147483647; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i64 = 5; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), told("Node3D", "Node3D", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = if p == 7 { p } else { 0 }; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 65535; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 9; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }], vec![]), told("Base", "Base", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0u32; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }, { let z: u64 = 9223372036854775807; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 5; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }], vec![]), told("SubTree", "SubTree", vec![{ let z: i32 = -2147483647; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }], vec![]), inner.to_string(), told("Base", "A name with spaces", vec![String::from("signal"), String::from("signal"), { let z: u32 = 1625747149; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i32 = 826497231; format!("{z:?}") }, { let z: u64 = 9223372036854775807; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 2183162804; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }], vec![]), told("Under_Score", "_", vec![String::from("signal"), { let z: u8 = 0u8; format!("{z:?}") }, { let z: i32 = 0i32; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }], vec![]), told("Node3D", " pad ", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 1; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: i8 = 106; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 3696680071; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), told("Nodes", "q\"q", vec![{ let z: String = String::new(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), inner.to_string(), told("TreeTop", "_", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0; format!("{z:?}") }, { let z: u32 = 1; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -2244639972906533606; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i32 = 5; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i64 = 1; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = 0i64; format!("{z:?}") }, { let z: i64 = 3513673736841092178; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 9; format!("{z:?}") }], vec![]), told("Node3D", "007", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = if p > 3 { 1 } else { 2 }; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 8; format!("{z:?}") }, { let z: i8 = 127; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 3696680071; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }], vec![]), told("AVeryLongClassNameThatGoesOnAndOnForever", "_", vec![{ let z: i8 = 0i8; format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 65535; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 1463538017; format!("{z:?}") }, { let z: u32 = 3501023201; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }], vec![]), told("X", "_", vec![String::from("signal"), String::from("signal"), { let z: u16 = 1; format!("{z:?}") }, { let z: i64 = 5; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u16 = 65535; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i8 = -1; format!("{z:?}") }, { let z: i8 = 127; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }], vec![]), told("Base", "007", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0u32; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i32 = 826497231; format!("{z:?}") }, { let z: u64 = 1; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 1; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }], vec![]), told("Base", "Base", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0u32; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i32 = 5; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }], vec![]), inner.to_string(), told("Base", "name", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0u32; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i32 = 826497231; format!("{z:?}") }, { let z: u64 = 1; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 1665403737; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }], vec![]), told("CameraNode", "..", vec![{ let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i8 = 127; format!("{z:?}") }, { let z: u8 = if p > 3 { 1 } else { 2 }; format!("{z:?}") }], vec![]), inner.to_string(), told("SCREAM", "a name of forty characters and a few more x", vec![String::from("signal"), { let z: u8 = 0u8; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u32 = 3455322656; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), inner.to_string(), told("Nodes", "..", vec![{ let z: String = s.to_string(); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), told("Base", "Base", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0u32; format!("{z:?}") }, { let z: i8 = -127; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: i32 = -1248872451; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: i32 = 826497231; format!("{z:?}") }, { let z: u64 = 3; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 1; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: u8 = 1; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }], vec![]), told("Signals", "q\"q", vec![{ let z: String = s.to_string(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: i64 = 1; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: i32 = -1; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u8 = p; format!("{z:?}") }, { let z: u16 = 1; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: i32 = 5; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: u64 = 1; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }], vec![]), told("PlayerNode", "tab\t", vec![{ let z: bool = p > 100; format!("{z:?}") }], vec![]), told("Node3D", "q\"q", vec![{ let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: u8 = if p > 3 { 1 } else { 2 }; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u32 = 0u32; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 0u64; format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: u32 = 3696680071; format!("{z:?}") }, { let z: bool = p > 100; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), inner.to_string(), told("TreeTop", "x1", vec![String::from("signal"), String::from("signal"), { let z: u32 = 0; format!("{z:?}") }, { let z: u32 = 0; format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }, { let z: i64 = -2412004082193732763; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i32 = -296082555; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: Option<i8> = None::<i8>; format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: u8 = 0u8; format!("{z:?}") }, { let z: i8 = 0i8; format!("{z:?}") }, { let z: u8 = 0; format!("{z:?}") }, { let z: i64 = 1; format!("{z:?}") }, { let z: bool = true; format!("{z:?}") }, { let z: i64 = 0i64; format!("{z:?}") }, { let z: i64 = 1; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: u64 = 9; format!("{z:?}") }], vec![]), told("_Low", "", vec![String::from("signal"), String::from("signal"), String::from("signal"), { let z: u32 = 0; format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i32 = 2147483647; format!("{z:?}") }, { let z: i32 = 1; format!("{z:?}") }, { let z: bool = !(p == 3); format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u64 = 6; format!("{z:?}") }, { let z: i32 = -1; format!("{z:?}") }, { let z: i32 = -2147483647; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: u64 = 0; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: i64 = -4611686018427387904; format!("{z:?}") }, { let z: u32 = 2; format!("{z:?}") }, { let z: u16 = 65535; format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: Vec<u8> = Vec::new(); format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: Option<i8> = o; format!("{z:?}") }], vec![]), told("Kindly", "A name with spaces", vec![{ let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }], vec![]), told("Scene", "a", vec![{ let z: String = s.to_string(); format!("{z:?}") }], vec![]), inner.to_string(), told("Kindly", "/", vec![{ let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }], vec![]), told("SubTree", "q\"q", vec![{ let z: i32 = -2147483647; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: u16 = 0u16; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }, { let z: bool = false; format!("{z:?}") }, { let z: String = String::new(); format!("{z:?}") }, { let z: i64 = -1; format!("{z:?}") }, { let z: String = s.to_string(); format!("{z:?}") }], vec![]), inner.to_string(), told("Kindly", "Kindly", vec![{ let z: Vec<u8> = Vec::<u8>::new(); format!("{z:?}") }, { let z: u16 = 0; format!("{z:?}") }], vec![])]) }
pub const SCENES: [(&str, fn(u8, &str, Option<i8>, &NodeScene) -> NodeScene, fn(u8, &str, Option<i8>, &str) -> String); 10] = [("s0", s0, want_s0), ("s1", s1, want_s1), ("s2", s2, want_s2), ("s3", s3, want_s3), ("s4", s4, want_s4), ("s5", s5, want_s5), ("s6", s6, want_s6), ("s7", s7, want_s7), ("chain", chain, want_chain), ("wide", wide, want_wide)];
