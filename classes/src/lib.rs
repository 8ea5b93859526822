//! Sample declarations. They are compiled into the bounded search, and their expansion is what the
//! proof about classes is made from. Every declaration form that the documentation lists is here.
use node_tree::prelude::*;
use std::cell::RefCell;

thread_local! { static CALLS: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }
/// What the bodies of the sample hooks and listeners were called with.
pub fn called(s: String) { CALLS.with(|c| c.borrow_mut().push(s)); }
pub fn calls() -> Vec<String> { CALLS.with(|c| std::mem::take(&mut *c.borrow_mut())) }

pub trait Loud { fn loud(&self) -> u8; }
pub trait Tall { fn tall(&self) -> u8; }
pub trait Odd { fn odd(&self) -> u8; }

class! {
    /// Every kind of member.
    pub declare All extends Loud, Tall;

    /// Signals of no, one and several values.
    pub signal on_tick();
    signal on_text(text: String);
    pub signal on_hit(by: u8, with: u16, at: i32);

    pub const K: u8 = 4;
    const HIDDEN: u16 = 40;

    pub let plain: u8;
    let preset: i32 = 5;
    pub export let tag: String;
    pub export let count: u32 = 9;
    export default let level: u8;
    pub default let score: u16;
    pub default let list: Vec<u8>;
    export default let maybe: Option<i8>;
    pub unique let once: u64;
    unique let spare: i8 = -3;

    hk _init(tag_: String, plain_: u8) {
        let tag: String = tag_;
        let plain: u8 = plain_;
        let once: u64 = 7;
    }
    hk loaded(&mut self) { called(format!("{} loaded", self.name())); }
    hk ready(&mut self) { called(format!("{} ready", self.name())); }
    hk process(&mut self, delta: f32) { called(format!("{} process {}", self.name(), delta >= 0.0)); }
    hk terminal(&mut self, reason: TerminationReason) { called(format!("{} terminal {:?}", self.name(), reason)); }
    hk process_mode(&self) -> ProcessMode { ProcessMode::Always }

    /// A function.
    pub fn doubled(&self) -> u16 { *self.plain as u16 * 2 }
    pub fn set_level(&mut self, to: u8) { *self.level = to; }
    pub fn get_maybe(&self) -> Option<i8> { *self.maybe }
    pub fn set_maybe(&mut self, to: Option<i8>) { *self.maybe = to; }
    pub fn get_level(&self) -> u8 { *self.level }
    pub fn get_preset(&self) -> &Field<i32> { &self.preset }
    pub fn get_spare(&self) -> &UniqueField<i8> { &self.spare }
    pub fn text(&self) -> &Signal<String> { &self.on_text }
    pub fn set_preset(&mut self, to: i32) { *self.preset = to; }
    pub fn hidden() -> u16 { Self::HIDDEN }
}
impl Loud for All { fn loud(&self) -> u8 { 1 } }
impl Tall for All { fn tall(&self) -> u8 { *self.plain } }
impl Odd for All { fn odd(&self) -> u8 { 0 } }

class! { pub declare Bare; }

class! {
    pub declare Preset;
    pub export let low: i64 = -7;
    pub let high: u64 = 1 << 40;
    pub default let flag: bool;
    pub export default let word: String;
    hk ready(&mut self) { *self.high += 1; called(format!("{} high {}", self.name(), *self.high)); }
}

class! {
    declare Private extends Odd;
    export let a: u8;
    let b: u8;
    hk _init(a: u8, b: u8) {}
}
impl Odd for Private { fn odd(&self) -> u8 { *self.a } }
pub fn private(a: u8, b: u8) -> Box<dyn Node> { Box::new(Private::new(a, b)) }
pub fn private_fields(n: &dyn Node) -> Option<(u8, Field<u8>)> { n.as_any_ref().downcast_ref::<Private>().map(|x| (*x.a, x.b.clone())) }

class! {
    /// Connects to signals of other nodes.
    pub declare Ear;
    pub signal on_word(word: u8);
    pub fn hears(&self, word: &u8) { called(format!("{} hears {}", self.name(), word)); }
    pub fn hears_once(&self, word: &u8) { called(format!("{} hears {} once", self.name(), word)); }
    pub fn listen(&mut self, to: Tp<Ear>) { connect! { on_word -> to.hears }; }
    pub fn listen_once(&mut self, to: Tp<Ear>) { connect! { on_word ~> to.hears_once }; }
}

/// A tree of one's own.
#[derive(Debug, Tree)]
pub struct Grove { base: Option<NodeTreeBase>, pub extra: u8 }
impl Grove {
    pub fn new<I: Instanceable>(scene: I, verbosity: LoggerVerbosity) -> Box<Self> {
        let mut tree = Box::new(Grove { base: None, extra: 3 });
        initialize_base(&mut tree, scene, verbosity);
        tree
    }
}

// What `scene!` builds.
pub fn one() -> NodeScene { scene! { Bare } }
pub fn named() -> NodeScene { scene! { Bare: "top" } }
pub fn row(t: String, p: u8) -> NodeScene { scene! { Bare: "row" [ All(t, p): "a", Bare, Preset: "c", ] } }
pub fn nest(link: &NodeScene) -> NodeScene {
    scene! {
        All("root".to_string(), 3): "root" {
            plain: 4,
            count: 10 + 1,
            [
                Bare: "x" [ Preset { low: -8, high: 9 }, $link, Bare [ Bare: "deep" ] ],
                $link,
                Preset: "y" { word: "w".to_string() },
                Preset: "z" { flag: true, [ Bare: "zz" ] },
                All("last".to_string(), 1) { [ $link ] }
            ]
        }
    }
}
/// Variables with names that the macro could use itself.
pub fn shadowed(scene: &NodeScene, node: u8) -> NodeScene {
    scene! { Preset { high: node as u64 + 1, [ $scene, All("s".to_string(), node): "s" [ $scene ], Private(node, node) ] } }
}

/// What a field holds, as text.
pub trait Look { fn look(&self) -> String; }
impl<T: std::fmt::Debug> Look for Field<T> { fn look(&self) -> String { match self { Field::Valid(x) => format!("{x:?}"), Field::Void => "void".to_string() } } }
impl<T: std::fmt::Debug> Look for UniqueField<T> { fn look(&self) -> String { match self { UniqueField::Valid(x) => format!("{x:?}"), UniqueField::Void => "void".to_string() } } }
impl<T: std::fmt::Debug + Exportable> Look for ExportableField<T> { fn look(&self) -> String { format!("{:?}", **self) } }
impl<T: std::fmt::Debug + Default> Look for DefaultField<T> { fn look(&self) -> String { format!("{:?}", **self) } }
impl<T: 'static> Look for Signal<T> { fn look(&self) -> String { "signal".to_string() } }
/// A declaration of more.rs, and what is expected of it.
pub struct Sample { pub name: &'static str, pub fields: &'static [&'static str], pub kinds: &'static str, pub zeros: &'static [&'static str], pub mode: ProcessMode, pub hooks: &'static [&'static str], pub make: fn(u8, &str, &Vec<u8>, Option<i8>) -> (Box<dyn Node>, Vec<String>), pub held: fn(&dyn Node) -> Option<Vec<String>> }
/// A node of a scene as text.
pub fn told(class: &str, name: &str, held: Vec<String>, kids: Vec<String>) -> String { format!("{class} {name:?} ({}) [{}]", held.join(", "), kids.join(", ")) }
pub fn tell(s: &NodeScene) -> String {
    let b = unsafe { s.get_node() };
    let held = SAMPLES.iter().find_map(|x| (x.held)(&*b)).unwrap_or_default();
    let out = told(b.name_as_type().trim_start_matches("classes::"), b.name(), held, s.children().iter().map(tell).collect());
    std::mem::forget(b); out
}
include!("more.rs");
