// The table of classes that can be loaded.
/// Encoded values by field name.
#[verifier::external_body] pub struct SFieldMap { p: usize }
/// A node of any class in a box.
#[verifier::external_body] pub struct NodeBox { p: usize }
/// What a class registers: arbitrary code.
#[verifier::external_body] pub struct Deserializer { p: usize }
pub uninterp spec fn gives(d: Deserializer, s: SFieldMap, r: Result<NodeBox, String>) -> bool;
impl Deserializer { #[verifier::external_body] pub fn invoke(&self, s: SFieldMap) -> (ret: Result<NodeBox, String>) ensures gives(*self, s, ret), { unimplemented!() } }
/// The concurrent map of the code, used by one thread at a time (the contract of register_deserializer).
#[verifier::external_body] pub struct DashMap { p: usize }
impl DashMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Deserializer>;
    #[verifier::external_body] pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, Deserializer>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Box<str>, v: Box<Deserializer>) -> (ret: Option<Box<Deserializer>>) ensures final(self)@ == old(self)@.insert(k@, *v), { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (ret: Option<&Box<Deserializer>>) ensures ret is Some == self@.contains_key(k@), ret matches Some(d) ==> **d == self@[k@], { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (ret: bool) ensures ret == self@.contains_key(k@), { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (ret: Option<(Box<str>, Box<Deserializer>)>) ensures final(self)@ == old(self)@.remove(k@), { unimplemented!() }
}
pub struct Arc {}
impl Arc { pub fn new<A>(a: A) -> (ret: A) ensures ret == a, { a } }
pub struct Registry { pub registry: DashMap }
/// The classes that were registered so far.
pub open spec fn classes(t: Option<Registry>) -> Map<Seq<char>, Deserializer> { match t { Some(r) => r.registry@, None => Map::empty() } }
//@ fn services/node_registry.rs register_deserializer | callptr=table:&mut~Option<Registry> path=NODE_REGISTRY=>(*table) subst=implFn(SFieldMap)->Result<Box<dynNode>,String>+'static=>Deserializer
    ensures classes(*final(table)) == classes(*old(table)).insert(name@, deserializer), // [C15,C24]
//@ end
//@ fn services/node_registry.rs deserialize | callptr=table:&Option<Registry> path=NODE_REGISTRY=>(*table) subst=Box<dynNode>=>NodeBox mcall=to_string=>&:to_text
    ensures
        classes(*table).contains_key(name@) ==> gives(classes(*table)[name@], owned_state, ret), // [C15,C24]
        !classes(*table).contains_key(name@) ==> ret is Err, // [C15,C24]
//@ end
