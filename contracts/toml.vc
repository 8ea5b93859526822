// What the encoders use of toml_edit, glam and the standard library: assumed contracts of dependencies.
use std::borrow::ToOwned;
use std::collections::{BTreeMap, BTreeSet};

pub mod toml {
use vstd::prelude::*;
use super::{Text, FromText};
pub struct Formatted<A> { pub value: A }
impl<A> Formatted<A> {
    pub fn new(value: A) -> (ret: Self) ensures ret.value == value, { Formatted { value } }
    pub fn into_value(self) -> (ret: A) ensures ret == self.value, { self.value }
    pub fn value(&self) -> (ret: &A) ensures *ret == self.value, { &self.value }
}
pub struct Array { pub items: Vec<Value> }
/// Keys with their values.
#[verifier::external_body]
pub struct InlineTable { p: usize }
#[verifier::external_body]
pub struct Datetime { p: usize }
impl Clone for Datetime { #[verifier::external_body] fn clone(&self) -> (ret: Self) ensures ret == *self, { unimplemented!() } }
pub enum Value { String(Formatted<String>), Integer(Formatted<i64>), Float(Formatted<f64>), Boolean(Formatted<bool>), Datetime(Formatted<Datetime>), Array(Array), InlineTable(InlineTable) }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (ret: Self) ensures ret == *self, { unimplemented!() } }
impl Value {
    pub fn as_bool(&self) -> (ret: Option<bool>) ensures ret == (match *self { Value::Boolean(x) => Some(x.value), _ => None }), { match self { Value::Boolean(x) => Some(x.value), _ => None } }
    pub fn as_integer(&self) -> (ret: Option<i64>) ensures ret == (match *self { Value::Integer(x) => Some(x.value), _ => None }), { match self { Value::Integer(x) => Some(x.value), _ => None } }
    pub fn as_float(&self) -> (ret: Option<f64>) ensures ret == (match *self { Value::Float(x) => Some(x.value), _ => None }), { match self { Value::Float(x) => Some(x.value), _ => None } }
    pub fn as_str(&self) -> (ret: Option<&str>) ensures match *self { Value::String(x) => ret is Some && ret->0@ == x.value@, _ => ret is None }, { match self { Value::String(x) => Some(x.value.as_str()), _ => None } }
    pub fn as_array(&self) -> (ret: Option<&Array>) ensures match *self { Value::Array(x) => ret == Some(&x), _ => ret is None }, { match self { Value::Array(x) => Some(x), _ => None } }
    pub fn as_inline_table(&self) -> (ret: Option<&InlineTable>) ensures match *self { Value::InlineTable(x) => ret == Some(&x), _ => ret is None }, { match self { Value::InlineTable(x) => Some(x), _ => None } }
    #[verifier::external_body]
    pub fn as_inline_table_mut(&mut self) -> (ret: Option<&mut InlineTable>)
        ensures match *old(self) { Value::InlineTable(x) => ret matches Some(r) && *r == x && *final(self) == Value::InlineTable(*final(r)), _ => ret is None && *final(self) == *old(self) },
    { match self { Value::InlineTable(x) => Some(x), _ => None } }
    pub fn is_integer(&self) -> (ret: bool) ensures ret == (*self is Integer), { match self { Value::Integer(_) => true, _ => false } }
    pub fn is_float(&self) -> (ret: bool) ensures ret == (*self is Float), { match self { Value::Float(_) => true, _ => false } }
    pub fn is_str(&self) -> (ret: bool) ensures ret == (*self is String), { match self { Value::String(_) => true, _ => false } }
    pub fn is_bool(&self) -> (ret: bool) ensures ret == (*self is Boolean), { match self { Value::Boolean(_) => true, _ => false } }
    pub fn is_array(&self) -> (ret: bool) ensures ret == (*self is Array), { match self { Value::Array(_) => true, _ => false } }
    pub fn is_inline_table(&self) -> (ret: bool) ensures ret == (*self is InlineTable), { match self { Value::InlineTable(_) => true, _ => false } }
    pub fn is_datetime(&self) -> (ret: bool) ensures ret == (*self is Datetime), { match self { Value::Datetime(_) => true, _ => false } }
}
/// What converts to a value.
pub trait ToToml: Sized { spec fn val(self) -> Value; fn conv(self) -> (ret: Value) ensures ret == self.val(); }
impl ToToml for bool { open spec fn val(self) -> Value { Value::Boolean(Formatted { value: self }) } fn conv(self) -> (ret: Value) { Value::Boolean(Formatted { value: self }) } }
impl ToToml for i64 { open spec fn val(self) -> Value { Value::Integer(Formatted { value: self }) } fn conv(self) -> (ret: Value) { Value::Integer(Formatted { value: self }) } }
impl ToToml for f64 { open spec fn val(self) -> Value { Value::Float(Formatted { value: self }) } fn conv(self) -> (ret: Value) { Value::Float(Formatted { value: self }) } }
impl ToToml for String { open spec fn val(self) -> Value { Value::String(Formatted { value: self }) } fn conv(self) -> (ret: Value) { Value::String(Formatted { value: self }) } }
impl ToToml for Array { open spec fn val(self) -> Value { Value::Array(self) } fn conv(self) -> (ret: Value) { Value::Array(self) } }
impl ToToml for InlineTable { open spec fn val(self) -> Value { Value::InlineTable(self) } fn conv(self) -> (ret: Value) { Value::InlineTable(self) } }
impl ToToml for Value { open spec fn val(self) -> Value { self } fn conv(self) -> (ret: Value) { self } }
pub trait Items: Sized { spec fn vals(&self) -> Seq<Value>; }
impl<V: ToToml> Items for Vec<V> { open spec fn vals(&self) -> Seq<Value> { Seq::new(self@.len(), |i: int| self@[i].val()) } }
impl<V: ToToml, const N: usize> Items for [V; N] { open spec fn vals(&self) -> Seq<Value> { Seq::new(self@.len(), |i: int| self@[i].val()) } }
impl Array {
    pub fn new() -> (ret: Self) ensures ret.items@.len() == 0, { Array { items: Vec::new() } }
    #[verifier::external_body]
    pub fn from_iter<L: Items>(l: L) -> (ret: Self) ensures ret.items@ == l.vals(), { unimplemented!() }
    pub fn push(&mut self, v: Value) ensures final(self).items@ == old(self).items@.push(v), { self.items.push(v); }
    pub fn len(&self) -> (ret: usize) ensures ret == self.items@.len(), { self.items.len() }
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self.items@.len() == 0), { self.items.len() == 0 }
    pub fn get(&self, i: usize) -> (ret: Option<&Value>) ensures match ret { Some(v) => i < self.items@.len() && *v == self.items@[i as int], None => i >= self.items@.len() }, { if i < self.items.len() { Some(&self.items[i]) } else { None } }
}
pub open spec fn table_of(s: Seq<(String, Value)>) -> Map<Seq<char>, Value> decreases s.len() { if s.len() == 0 { Map::empty() } else { table_of(s.drop_last()).insert(s.last().0@, s.last().1) } }
impl InlineTable {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, Value>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter(l: Vec<(String, Value)>) -> (ret: Self) ensures ret@ == table_of(l@), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<K: Text>(&mut self, k: K, v: Value) -> (ret: Option<Value>)
        ensures final(self)@ == old(self)@.insert(k.text(), v), ret == (if old(self)@.contains_key(k.text()) { Some(old(self)@[k.text()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (ret: Option<Value>)
        ensures final(self)@ == old(self)@.remove(k@), ret == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (ret: Option<&Value>)
        ensures match ret { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (ret: bool) ensures ret == self@.contains_key(k@), { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (ret: usize) ensures ret == self@.dom().len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (forall|k: Seq<char>| !self@.contains_key(k)), { unimplemented!() }
}
// Documents.
#[verifier::external_body]
pub struct Table { p: usize }
#[verifier::external_body]
pub struct Tables { p: usize }
pub enum Item { None, Value(Value), Table(Table), ArrayOfTables(Tables) }
impl Table {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Item>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, Item>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (ret: Option<&Item>) ensures match ret { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }, { unimplemented!() }
}
impl Item {
    pub fn as_table(&self) -> (ret: Option<&Table>) ensures match *self { Item::Table(x) => ret == Some(&x), _ => ret is None }, { match self { Item::Table(x) => Some(x), _ => None } }
    pub fn as_value(&self) -> (ret: Option<&Value>) ensures match *self { Item::Value(x) => ret == Some(&x), _ => ret is None }, { match self { Item::Value(x) => Some(x), _ => None } }
    pub fn as_inline_table(&self) -> (ret: Option<&InlineTable>) ensures match *self { Item::Value(Value::InlineTable(x)) => ret == Some(&x), _ => ret is None }, { match self { Item::Value(Value::InlineTable(x)) => Some(x), _ => None } }
}
/// Keys with their items, in order.
#[verifier::external_body]
pub struct DocumentMut { p: usize }
impl DocumentMut {
    pub uninterp spec fn view(&self) -> Seq<(Seq<char>, Item)>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@.len() == 0, { unimplemented!() }
    /// document[k] = v
    #[verifier::external_body]
    pub fn put1<K: Text>(&mut self, k: K, v: Item) ensures final(self)@ == set_at(old(self)@, k.text(), v), { unimplemented!() }
    /// document[k][l] = v where document[k] is a table
    #[verifier::external_body]
    pub fn put2<K: Text, L: Text>(&mut self, k: K, l: L, v: Item)
        requires at(old(self)@, k.text()) >= 0, old(self)@[at(old(self)@, k.text())].1 is Table,
        ensures final(self)@ == set_at(old(self)@, k.text(), Item::Table(table(old(self)@[at(old(self)@, k.text())].1->Table_0@.insert(l.text(), v)))),
    { unimplemented!() }
    /// document[k][l][m] = v where document[k] is a table and document[k][l] an inline one
    #[verifier::external_body]
    pub fn put3<K: Text, L: Text, M: Text>(&mut self, k: K, l: L, m: M, v: Item)
        requires v is Value, at(old(self)@, k.text()) >= 0, inner(old(self)@[at(old(self)@, k.text())].1, l.text()) is Some,
        ensures final(self)@ == set_at(old(self)@, k.text(), Item::Table(table(old(self)@[at(old(self)@, k.text())].1->Table_0@.insert(l.text(),
            Item::Value(Value::InlineTable(inline(inner(old(self)@[at(old(self)@, k.text())].1, l.text())->0.insert(m.text(), v->Value_0)))))))),
    { unimplemented!() }
    /// Printing, also after a comment.
    #[verifier::external_body]
    pub fn to_string(&self) -> (ret: String) ensures forall|c: Seq<char>| #[trigger] comment(c) ==> <DocumentMut as FromText>::parsed(c + ret@) == Some(*self), { unimplemented!() }
}
/// Where a key is, or -1.
pub open spec fn at(d: Seq<(Seq<char>, Item)>, k: Seq<char>) -> int decreases d.len() { if d.len() == 0 { -1 } else if d.last().0 == k { d.len() - 1 } else { at(d.drop_last(), k) } }
pub open spec fn set_at(d: Seq<(Seq<char>, Item)>, k: Seq<char>, v: Item) -> Seq<(Seq<char>, Item)> { if at(d, k) >= 0 { d.update(at(d, k), (k, v)) } else { d.push((k, v)) } }
pub proof fn lemma_at(d: Seq<(Seq<char>, Item)>, k: Seq<char>)
    ensures -1 <= at(d, k) < d.len(), at(d, k) >= 0 ==> d[at(d, k)].0 == k, at(d, k) < 0 ==> forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).0 != k,
    decreases d.len(),
{ if d.len() > 0 { lemma_at(d.drop_last(), k); if at(d, k) < 0 { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != k by { if i < d.len() - 1 { assert(d.drop_last()[i] == d[i]); } } } } }
/// The table with these entries. Tables with the same entries are not told apart.
pub uninterp spec fn table(m: Map<Seq<char>, Item>) -> Table;
pub uninterp spec fn inline(m: Map<Seq<char>, Value>) -> InlineTable;
pub broadcast axiom fn axiom_table(m: Map<Seq<char>, Item>) ensures (#[trigger] table(m))@ == m;
pub broadcast axiom fn axiom_inline(m: Map<Seq<char>, Value>) ensures (#[trigger] inline(m))@ == m;
/// Every line starts with a # or is empty, the last one is ended.
pub open spec fn comment(c: Seq<char>) -> bool { c.len() > 0 && c.last() == '\n' && forall|i: int| 0 <= i < c.len() && (i == 0 || c[i - 1] == '\n') ==> #[trigger] c[i] == '#' || c[i] == '\n' }
/// The inline table at a key of a table.
pub open spec fn inner(x: Item, l: Seq<char>) -> Option<Map<Seq<char>, Value>> { match x { Item::Table(t) => if t@.contains_key(l) { match t@[l] { Item::Value(Value::InlineTable(u)) => Some(u@), _ => None } } else { None }, _ => None } }
pub trait ToItem: Sized { spec fn item(self) -> Item; fn conv_item(self) -> (ret: Item) ensures ret == self.item(); }
impl ToItem for InlineTable { open spec fn item(self) -> Item { Item::Value(Value::InlineTable(self)) } fn conv_item(self) -> (ret: Item) { Item::Value(Value::InlineTable(self)) } }
impl ToItem for String { open spec fn item(self) -> Item { Item::Value(Value::String(Formatted { value: self })) } fn conv_item(self) -> (ret: Item) { Item::Value(Value::String(Formatted { value: self })) } }
impl ToItem for bool { open spec fn item(self) -> Item { Item::Value(Value::Boolean(Formatted { value: self })) } fn conv_item(self) -> (ret: Item) { Item::Value(Value::Boolean(Formatted { value: self })) } }
impl ToItem for i64 { open spec fn item(self) -> Item { Item::Value(Value::Integer(Formatted { value: self })) } fn conv_item(self) -> (ret: Item) { Item::Value(Value::Integer(Formatted { value: self })) } }
}
pub use toml::{Array, InlineTable, Value, Formatted, ToToml, Items};
pub fn to_toml<A: ToToml>(a: A) -> (ret: Value) ensures ret == a.val(), { a.conv() }

pub fn to_item<A: toml::ToItem>(a: A) -> (ret: toml::Item) ensures ret == a.item(), { a.conv_item() }
/// str::parse
pub struct ParseError {}
pub trait FromText: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; fn from_text(s: &str) -> (ret: Result<Self, ParseError>) ensures match ret { Ok(x) => Self::parsed(s@) == Some(x), Err(_) => Self::parsed(s@) is None }; }
pub uninterp spec fn parsed_doc(s: Seq<char>) -> Option<toml::DocumentMut>;
pub uninterp spec fn parsed_u64(s: Seq<char>) -> Option<u64>;
impl FromText for toml::DocumentMut { open spec fn parsed(s: Seq<char>) -> Option<Self> { parsed_doc(s) } #[verifier::external_body] fn from_text(s: &str) -> (ret: Result<Self, ParseError>) { unimplemented!() } }
impl FromText for u64 { open spec fn parsed(s: Seq<char>) -> Option<Self> { parsed_u64(s) } #[verifier::external_body] fn from_text(s: &str) -> (ret: Result<Self, ParseError>) { unimplemented!() } }
pub fn parse_text<T: FromText>(s: &str) -> (ret: Result<T, ParseError>) ensures match ret { Ok(x) => T::parsed(s@) == Some(x), Err(_) => T::parsed(s@) is None }, { T::from_text(s) }
#[verifier::external_body]
pub fn str_rsplit_once<'a>(s: &'a str, c: char) -> (ret: Option<(&'a str, &'a str)>)
    ensures match ret { Some((a, b)) => s@ == a@ + seq![c] + b@ && !b@.contains(c), None => !s@.contains(c) },
{ s.rsplit_once(c) }
/// Option<Option<T>>::flatten
pub fn opt_flatten<T>(x: Option<Option<T>>) -> (ret: Option<T>) ensures ret == (match x { Some(y) => y, None => None }), { match x { Some(y) => y, None => None } }
pub fn opt_as_mut<T>(x: &mut Option<T>) -> (ret: Option<&mut T>)
    ensures match *old(x) { Some(v) => ret matches Some(r) && *r == v && *final(x) == Some(*final(r)), None => ret is None && *final(x) == *old(x) },
{ match x { Some(y) => Some(y), None => None } }
#[verifier::external_body]
pub fn list_document(d: &toml::DocumentMut) -> (ret: Vec<(&str, &toml::Item)>)
    ensures
        ret@.len() == d@.len(), forall|i: int| 0 <= i < d@.len() ==> (#[trigger] ret@[i]).0@ == d@[i].0 && *ret@[i].1 == d@[i].1,
        forall|i: int, j: int| 0 <= i < j < d@.len() ==> (#[trigger] d@[i]).0 != (#[trigger] d@[j]).0,
{ unimplemented!() }
/// A table's entries in some order.
#[verifier::external_body]
pub fn list_items(t: &toml::Table) -> (ret: Vec<(&str, &toml::Item)>)
    ensures
        forall|i: int| 0 <= i < ret@.len() ==> t@.contains_key((#[trigger] ret@[i]).0@) && *ret@[i].1 == t@[ret@[i].0@],
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> (#[trigger] ret@[i]).0@ != (#[trigger] ret@[j]).0@,
        forall|k: Seq<char>| #[trigger] t@.contains_key(k) ==> exists|i: int| 0 <= i < ret@.len() && (#[trigger] ret@[i]).0@ == k,
{ unimplemented!() }
/// A table's entries in some order.
pub open spec fn entries_of<V>(l: Seq<(String, V)>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0@) && m[l[i].0@] == l[i].1
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0@ != (#[trigger] l[j]).0@
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == k
}
#[verifier::external_body]
pub fn list_table(t: InlineTable) -> (ret: Vec<(String, Value)>) ensures entries_of(ret@, t@), { unimplemented!() }
pub trait Owned: Sized { type E; spec fn listing(self) -> Seq<Self::E>; fn list(self) -> (ret: Vec<Self::E>) ensures ret@ == self.listing(); }
impl Owned for Array { type E = Value; open spec fn listing(self) -> Seq<Value> { self.items@ } fn list(self) -> (ret: Vec<Value>) { self.items } }
impl<T> Owned for Vec<T> { type E = T; open spec fn listing(self) -> Seq<T> { self@ } fn list(self) -> (ret: Vec<T>) { self } }
pub fn listed_into_iter<L: Owned>(l: L) -> (ret: Vec<L::E>) ensures ret@ == l.listing(), { l.list() }
#[verifier::external_body]
pub fn listed_chars<A: Text + ?Sized>(a: &A) -> (ret: Vec<char>) ensures ret@ == a.text(), { unimplemented!() }

// Printing, conversions, machine arithmetic.
pub mod ax_toml {
use vstd::prelude::*;
use std::fmt::Display;
use super::displayed;
pub broadcast axiom fn axiom_to_string<T: Display + ?Sized>(t: &T, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<T>(t, r) ==> r@ == displayed::<T>(t);
pub broadcast axiom fn axiom_display_char(a: &char) ensures #[trigger] displayed::<char>(a) == seq![*a];
// Widening a float is exact, narrowing gives it back. NaNs stay NaNs, with any payload.
pub uninterp spec fn widen(x: f32) -> f64;
pub uninterp spec fn narrow(x: f64) -> f32;
pub uninterp spec fn nan32(x: f32) -> bool;
pub uninterp spec fn nan64(x: f64) -> bool;
pub broadcast axiom fn axiom_widen(x: f32, y: f64) ensures #[trigger] vstd::float::float_cast_spec::<f32, f64>(x, y) ==> nan64(y) == nan32(x) && (!nan32(x) ==> y == widen(x) && narrow(y) == x);
pub broadcast axiom fn axiom_narrow(x: f64, y: f32) ensures #[trigger] vstd::float::float_cast_spec::<f64, f32>(x, y) ==> nan32(y) == nan64(x) && (!nan64(x) ==> y == narrow(x));
/// A 64-bit integer survives the way through i64.
pub broadcast proof fn lemma_wrap(x: u64) ensures (#[trigger] (x as i64)) as u64 == x { assert((x as i64) as u64 == x) by(bit_vector); }
pub broadcast group group_toml { axiom_to_string, axiom_display_char, axiom_widen, axiom_narrow, lemma_wrap, super::toml::axiom_table, super::toml::axiom_inline }
}
pub use ax_toml::*;
pub assume_specification<T: Clone> [<T as ToOwned>::to_owned] (x: &T) -> (ret: T) ensures call_ensures(T::clone, (x,), ret);
#[verifier::external_body]
pub fn arr_map<A, B, const N: usize, F: Fn(A) -> B>(a: [A; N], f: F) -> (ret: [B; N])
    requires forall|x: A| f.requires((x,)),
    ensures forall|i: int| 0 <= i < N ==> f.ensures((a@[i],), #[trigger] ret@[i]),
{ a.map(f) }
#[verifier::external_body]
pub fn arr_of<T, const N: usize>(v: Vec<T>) -> (ret: Result<[T; N], Vec<T>>) ensures match ret { Ok(a) => a@ == v@, Err(w) => w == v && v@.len() != N }, { v.try_into() }
pub fn list_vec<T>(v: &Vec<T>) -> (ret: &Vec<T>) ensures ret == v, { v }
#[verifier::external_body]
pub fn list_arr<T, const N: usize>(v: &[T; N]) -> (ret: Vec<&T>) ensures ret@.len() == N, forall|i: int| 0 <= i < N ==> *(#[trigger] ret@[i]) == v@[i], { v.iter().collect() }

pub mod path {
use vstd::prelude::*;
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
impl PathBuf {
    /// The text of a path that is valid Unicode.
    pub uninterp spec fn unicode(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (ret: Option<&str>) ensures match ret { Some(s) => self.unicode() == Some(s@), None => self.unicode() is None }, { self.p.to_str() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (ret: Result<PathBuf, ()>) ensures ret matches Ok(p) && p.unicode() == Some(s@), { unimplemented!() }
}
}
pub mod net {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Ipv4Addr { p: std::net::Ipv4Addr }
impl Ipv4Addr {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn parse(s: Seq<char>) -> Option<Ipv4Addr>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (ret: String) ensures ret@ == self.text(), Ipv4Addr::parse(ret@) == Some(*self), { self.p.to_string() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (ret: Result<Ipv4Addr, ()>) ensures match ret { Ok(a) => Ipv4Addr::parse(s@) == Some(a), Err(_) => Ipv4Addr::parse(s@) is None }, { unimplemented!() }
}
#[verifier::external_body]
pub struct Ipv6Addr { p: std::net::Ipv6Addr }
impl Ipv6Addr {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn parse(s: Seq<char>) -> Option<Ipv6Addr>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (ret: String) ensures ret@ == self.text(), Ipv6Addr::parse(ret@) == Some(*self), { self.p.to_string() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (ret: Result<Ipv6Addr, ()>) ensures match ret { Ok(a) => Ipv6Addr::parse(s@) == Some(a), Err(_) => Ipv6Addr::parse(s@) is None }, { unimplemented!() }
}
#[verifier::external_body]
pub struct IpAddr { p: std::net::IpAddr }
impl IpAddr {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn parse(s: Seq<char>) -> Option<IpAddr>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (ret: String) ensures ret@ == self.text(), IpAddr::parse(ret@) == Some(*self), { self.p.to_string() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (ret: Result<IpAddr, ()>) ensures match ret { Ok(a) => IpAddr::parse(s@) == Some(a), Err(_) => IpAddr::parse(s@) is None }, { unimplemented!() }
}
}
pub mod time {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Duration { p: std::time::Duration }
impl Duration {
    pub uninterp spec fn secs(&self) -> f64;
    pub uninterp spec fn of(s: f64) -> Option<Duration>;
    #[verifier::external_body]
    pub fn as_secs_f64(&self) -> (ret: f64) ensures ret == self.secs(), { self.p.as_secs_f64() }
    #[verifier::external_body]
    pub fn try_from_secs_f64(s: f64) -> (ret: Result<Duration, ()>) ensures match ret { Ok(d) => Duration::of(s) == Some(d), Err(_) => Duration::of(s) is None }, { unimplemented!() }
    /// Panics on negative, infinite and too large numbers.
    #[verifier::external_body]
    pub fn from_secs_f64(s: f64) -> (ret: Duration) requires Duration::of(s) is Some, ensures Duration::of(s) == Some(ret), { unimplemented!() }
}
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { p: std::sync::Mutex<T> }
impl<T> Mutex<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn new(x: T) -> (ret: Self) ensures ret@ == x, { unimplemented!() }
    /// Not poisoned.
    #[verifier::external_body]
    pub fn lock(&self) -> (ret: Option<&T>) ensures ret == Some(&self@), { unimplemented!() }
}
/// x.deref() of the pointers of the standard library.
pub trait Pointee { type Of; spec fn target(&self) -> Self::Of; fn get(&self) -> (ret: &Self::Of) ensures *ret == self.target(); }
impl<T> Pointee for Box<T> { type Of = T; open spec fn target(&self) -> T { **self } fn get(&self) -> (ret: &T) { &**self } }
impl<T> Pointee for std::rc::Rc<T> { type Of = T; open spec fn target(&self) -> T { **self } fn get(&self) -> (ret: &T) { &**self } }
impl<T> Pointee for std::sync::Arc<T> { type Of = T; open spec fn target(&self) -> T { **self } fn get(&self) -> (ret: &T) { &**self } }
pub fn point<P: Pointee>(p: &P) -> (ret: &P::Of) ensures *ret == p.target(), { p.get() }
