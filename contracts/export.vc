// Written by tools/mkexport.py.
//@ include prelude.vc
//@ include pathfns.vc
//@ include toml.vc
//@ broadcast ax_toml::group_toml
use std::ops::Deref;
use toml as toml_edit;
/// Encoding and decoding: what a value is (m), what an encoded value means (dec), which values there are (fits).
pub trait Exportable: Sized {
    type M;
    spec fn m(&self) -> Self::M;
    spec fn dec(v: Value) -> Option<Self::M>;
    spec fn fits(&self) -> bool;
    fn to_value(&self) -> (ret: Value)
        requires self.fits(),
        ensures Self::dec(ret) == Some(self.m()); // [C14]
    fn from_value(value: Value) -> (ret: Option<Self>)
        ensures
            ret is Some == Self::dec(value) is Some, // [C14]
            ret matches Some(x) ==> Self::dec(value) == Some(x.m()); // [C14]
}
/// [C14] The round trip on the code itself.
pub fn decode_encoded<T: Exportable>(x: &T) -> (ret: Option<T>)
    requires x.fits(),
    ensures ret matches Some(y) && y.m() == x.m(),
{ T::from_value(x.to_value()) }
pub open spec fn all_dec<T: Exportable>(s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> T::dec(#[trigger] s[i]) is Some }
pub open spec fn seq_dec<T: Exportable>(s: Seq<Value>) -> Seq<T::M> { Seq::new(s.len(), |i: int| T::dec(s[i])->0) }
pub open spec fn m_of<T: Exportable>() -> spec_fn(T) -> T::M { |x: T| x.m() }

pub mod ex1 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
//@ optmap on
impl Exportable for bool {
    type M = bool;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Boolean(x) => Some(x.value), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for bool>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for bool>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for u8 {
    type M = u8;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Integer(x) => if 0 <= x.value <= 255 { Some(x.value as u8) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for u8>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for u8>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for u16 {
    type M = u16;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Integer(x) => if 0 <= x.value <= 65535 { Some(x.value as u16) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for u16>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for u16>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for u32 {
    type M = u32;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Integer(x) => if 0 <= x.value <= 0xffff_ffff { Some(x.value as u32) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for u32>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for u32>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for i8 {
    type M = i8;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Integer(x) => if -128 <= x.value <= 127 { Some(x.value as i8) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for i8>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for i8>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for i16 {
    type M = i16;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Integer(x) => if -32768 <= x.value <= 32767 { Some(x.value as i16) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for i16>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for i16>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for i32 {
    type M = i32;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Integer(x) => if -0x8000_0000 <= x.value <= 0x7fff_ffff { Some(x.value as i32) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for i32>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for i32>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for u64 {
    type M = u64;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Integer(x) => Some(x.value as u64), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for u64>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for u64>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for i64 {
    type M = i64;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Integer(x) => Some(x.value), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for i64>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for i64>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
/// A float up to the payload of NaNs.
pub open spec fn num32(x: f32) -> Option<f32> { if nan32(x) { None } else { Some(x) } }
pub open spec fn narrowed(x: f64) -> Option<f32> { if nan64(x) { None } else { Some(narrow(x)) } }
//@ listed on
//@ optmap on
impl Exportable for f32 {
    type M = Option<f32>;
    open spec fn m(&self) -> Self::M { num32(*self) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Float(x) => Some(narrowed(x.value)), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for f32>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for f32>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for f64 {
    type M = f64;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Float(x) => Some(x.value), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for f64>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for f64>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for char {
    type M = char;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::String(x) => if x.value@.len() == 1 { Some(x.value@[0]) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for char>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for char>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for String {
    type M = Seq<char>;
    open spec fn m(&self) -> Self::M { self@ }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::String(x) => Some(x.value@), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for String>::to_value | priv mcall=into=>to_toml
//@ end
//@ fn traits/exportable.rs <Exportable for String>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
impl Clone for NodePath { #[verifier::external_body] fn clone(&self) -> (ret: Self) ensures ret.segs() == self.segs(), ret.abs == self.abs, { unimplemented!() } }
//@ listed on
//@ optmap on
impl Exportable for NodePath {
    type M = (Seq<SegView>, bool);
    open spec fn m(&self) -> Self::M { (self.segs(), self.abs) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::String(x) => Some((parsed(x.value@), absolute(x.value@))), _ => None } }
    open spec fn fits(&self) -> bool { forall|i: int| 0 <= i < self.segs().len() ==> plain_seg(#[trigger] self.segs()[i]) }
//@ fn traits/exportable.rs <Exportable for NodePath>::to_value | priv
//@ hint entry
    proof { theorem_round_trip(self.segs(), self.abs); }
//@ end
//@ fn traits/exportable.rs <Exportable for NodePath>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for path::PathBuf {
    type M = Seq<char>;
    open spec fn m(&self) -> Self::M { self.unicode()->0 }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::String(x) => Some(x.value@), _ => None } }
    open spec fn fits(&self) -> bool { self.unicode() is Some }
//@ fn traits/exportable.rs <Exportable for path::PathBuf>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for path::PathBuf>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for net::Ipv4Addr {
    type M = net::Ipv4Addr;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::String(x) => net::Ipv4Addr::parse(x.value@), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for net::Ipv4Addr>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for net::Ipv4Addr>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for net::Ipv6Addr {
    type M = net::Ipv6Addr;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::String(x) => net::Ipv6Addr::parse(x.value@), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for net::Ipv6Addr>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for net::Ipv6Addr>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for net::IpAddr {
    type M = net::IpAddr;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::String(x) => net::IpAddr::parse(x.value@), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for net::IpAddr>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for net::IpAddr>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for time::Duration {
    type M = time::Duration;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Float(x) => time::Duration::of(x.value), _ => None } }
    open spec fn fits(&self) -> bool { time::Duration::of(self.secs()) == Some(*self) }
//@ fn traits/exportable.rs <Exportable for time::Duration>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for time::Duration>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for toml::Datetime {
    type M = toml::Datetime;
    open spec fn m(&self) -> Self::M { *self }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Datetime(x) => Some(x.value), _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/exportable.rs <Exportable for toml::Datetime>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for toml::Datetime>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
}
pub mod ex2 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
//@ optmap on
impl<T: Exportable> Exportable for Option<T> {
    type M = Option<T::M>;
    open spec fn m(&self) -> Self::M { match self { Some(x) => Some(x.m()), None => None } }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if x@.contains_key("value"@) { match T::dec(x@["value"@]) { Some(m) => Some(Some(m)), None => None } } else { Some(None) }, _ => None } }
    open spec fn fits(&self) -> bool { *self matches Some(x) ==> x.fits() }
//@ fn traits/exportable.rs <Exportable for Option<T>>::to_value | priv mcall=into=>to_toml
//@ hint entry
    proof { reveal_with_fuel(toml::table_of, 3); }
//@ end
//@ fn traits/exportable.rs <Exportable for Option<T>>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<T: Exportable> Exportable for Vec<T> {
    type M = Seq<T::M>;
    open spec fn m(&self) -> Self::M { self@.map_values(m_of()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if all_dec::<T>(x.items@) { Some(seq_dec::<T>(x.items@)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fits() }
//@ fn traits/exportable.rs <Exportable for Vec<T>>::to_value | priv mcall=into=>to_toml
//@ loop 0 src=list_vec elem=ref
    invariant AUTO
        o0@.len() == k0, forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] o0@[i]) == Some(s0@[i].m()),
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).fits(),
//@ hint afterloop 0
    proof { assert(seq_dec::<T>(o0@) =~= self@.map_values(m_of())); assert(Seq::new(o0@.len(), |i: int| o0@[i].val()) =~= o0@); }
//@ end
//@ fn traits/exportable.rs <Exportable for Vec<T>>::from_value | priv
//@ loop 0 src=listed_into_iter owned out=Option<Vec<T>>
    invariant AUTO
        ok0 ==> o0@.len() == k0 && forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) == Some(o0@[i].m()),
        ok0 ==> forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) is Some,
        !ok0 ==> exists|i: int| 0 <= i < k0 && T::dec(#[trigger] g0[i]) is None,
//@ hint afterloop 0
    proof { if ok0 { assert(seq_dec::<T>(g0) =~= o0@.map_values(m_of())); } }
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<const N: usize, T: Exportable> Exportable for [T; N] {
    type M = Seq<T::M>;
    open spec fn m(&self) -> Self::M { self@.map_values(m_of()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == N && all_dec::<T>(x.items@) { Some(seq_dec::<T>(x.items@)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fits() }
//@ fn traits/exportable.rs <Exportable for [T;N]>::to_value | priv
//@ loop 0 src=list_arr elem=s0[i0] out=Array
    invariant AUTO
        o0.items@.len() == k0, forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] o0.items@[i]) == Some(s0@[i].m()),
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).fits(),
//@ hint afterloop 0
    proof { assert(seq_dec::<T>(o0.items@) =~= self@.map_values(m_of())); }
//@ end
//@ fn traits/exportable.rs <Exportable for [T;N]>::from_value | priv mcall=try_into=>arr_of
//@ loop 0 src=listed_into_iter owned out=Option<Vec<T>>
    invariant AUTO
        ok0 ==> o0@.len() == k0 && forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) == Some(o0@[i].m()),
        ok0 ==> forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) is Some,
        !ok0 ==> exists|i: int| 0 <= i < k0 && T::dec(#[trigger] g0[i]) is None,
//@ hint afterloop 0
    proof { if ok0 { assert(seq_dec::<T>(g0) =~= o0@.map_values(m_of())); } }
//@ end
}
//@ listed off
//@ optmap off
proof fn lemma_set_push<T: Exportable>(o: Set<T>, x: T, s: Seq<T::M>)
    requires o.map(m_of::<T>()) == s.to_set(),
    ensures o.insert(x).map(m_of::<T>()) == s.push(x.m()).to_set(),
{
    let f = m_of::<T>(); let (a, b) = (o.insert(x).map(f), s.push(x.m()).to_set());
    assert forall|y: T::M| a.contains(y) implies b.contains(y) by { let z = choose|z: T| o.insert(x).contains(z) && y == f(z); if z == x { assert(s.push(x.m())[s.len() as int] == y); } else { assert(o.map(f).contains(y)); assert(s.to_set().contains(y)); let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x.m())[i] == y); } }
    assert forall|y: T::M| b.contains(y) implies a.contains(y) by { let i = choose|i: int| 0 <= i < s.push(x.m()).len() && s.push(x.m())[i] == y; if i == s.len() { assert(o.insert(x).contains(x) && f(x) == y); } else { assert(s[i] == y); assert(s.to_set().contains(y)); assert(o.map(f).contains(y)); let z = choose|z: T| o.contains(z) && y == f(z); assert(o.insert(x).contains(z)); } }
    assert(a =~= b);
}
pub proof fn lemma_set_all<T: Exportable>(l: Seq<&T>, o: Set<T>, s: Seq<T::M>)
    requires l.len() == s.len(), forall|i: int| 0 <= i < l.len() ==> o.contains(*#[trigger] l[i]) && s[i] == l[i].m(), forall|x: T| #[trigger] o.contains(x) ==> exists|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == x,
    ensures s.to_set() == o.map(m_of::<T>()),
{
    let f = m_of::<T>(); let (a, b) = (s.to_set(), o.map(f));
    assert forall|y: T::M| a.contains(y) implies b.contains(y) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(o.contains(*l[i])); assert(f(*l[i]) == y); }
    assert forall|y: T::M| b.contains(y) implies a.contains(y) by { let z = choose|z: T| o.contains(z) && y == f(z); let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == z; assert(s[i] == y); }
    assert(a =~= b);
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct HashSetOf<T> { p: std::collections::HashSet<T> }
impl<T> HashSetOf<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Set::<T>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (ret: bool) ensures final(self)@ == old(self)@.insert(x), ret == !old(self)@.contains(x), { unimplemented!() }
}
#[verifier::external_body]
pub fn list_HashSetOf<T>(s: &HashSetOf<T>) -> (ret: Vec<&T>) ensures forall|i: int| 0 <= i < ret@.len() ==> s@.contains(*#[trigger] ret@[i]), forall|x: T| #[trigger] s@.contains(x) ==> exists|i: int| 0 <= i < ret@.len() && *(#[trigger] ret@[i]) == x, forall|i: int, j: int| 0 <= i < j < ret@.len() ==> *(#[trigger] ret@[i]) != *(#[trigger] ret@[j]), { unimplemented!() }
//@ subst HashSet<T> => HashSetOf<T>
//@ listed on
//@ optmap on
impl<T: Exportable + std::hash::Hash + std::cmp::Eq> Exportable for HashSetOf<T> {
    type M = Set<T::M>;
    open spec fn m(&self) -> Self::M { self@.map(m_of()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if all_dec::<T>(x.items@) { Some(seq_dec::<T>(x.items@).to_set()) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { forall|x: T| #[trigger] self@.contains(x) ==> x.fits() }
//@ fn traits/exportable.rs <Exportable for HashSet<T>>::to_value | priv
//@ loop 0 src=list_HashSetOf elem=s0[i0] 
    invariant AUTO
        o0@.len() == k0, forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] o0@[i]) == Some(s0@[i].m()),
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).fits(),
//@ hint afterloop 0
    proof { lemma_set_all(s0@, self@, seq_dec::<T>(o0@)); assert(Seq::new(o0@.len(), |i: int| o0@[i].val()) =~= o0@); }
//@ end
//@ fn traits/exportable.rs <Exportable for HashSet<T>>::from_value | priv
//@ loop 0 src=listed_into_iter owned out=Option<HashSetOf<T>>
    invariant AUTO
        ok0 ==> o0@.map(m_of::<T>()) == seq_dec::<T>(g0.take(k0 as int)).to_set(),
        ok0 ==> forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) is Some,
        !ok0 ==> exists|i: int| 0 <= i < k0 && T::dec(#[trigger] g0[i]) is None,
//@ hint beforeloop 0
    proof { assert(o0@.map(m_of::<T>()) =~= Set::empty()); assert(seq_dec::<T>(g0.take(0)).to_set() =~= Set::empty()); }
//@ hint loopstart 0
    let ghost before = o0@;
//@ hint loopend 0
    proof { if ok0 { let x = choose|x: T| o0@ == before.insert(x) && T::dec(g0[k0 - 1]) == Some(x.m()); lemma_set_push(before, x, seq_dec::<T>(g0.take(k0 - 1))); assert(seq_dec::<T>(g0.take(k0 as int)) =~= seq_dec::<T>(g0.take(k0 - 1)).push(x.m())); } }
//@ hint afterloop 0
    proof { assert(g0.take(g0.len() as int) =~= g0); }
//@ end
}
//@ listed off
//@ optmap off
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct BTreeSetOf<T> { p: std::collections::HashSet<T> }
impl<T> BTreeSetOf<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Set::<T>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (ret: bool) ensures final(self)@ == old(self)@.insert(x), ret == !old(self)@.contains(x), { unimplemented!() }
}
#[verifier::external_body]
pub fn list_BTreeSetOf<T>(s: &BTreeSetOf<T>) -> (ret: Vec<&T>) ensures forall|i: int| 0 <= i < ret@.len() ==> s@.contains(*#[trigger] ret@[i]), forall|x: T| #[trigger] s@.contains(x) ==> exists|i: int| 0 <= i < ret@.len() && *(#[trigger] ret@[i]) == x, forall|i: int, j: int| 0 <= i < j < ret@.len() ==> *(#[trigger] ret@[i]) != *(#[trigger] ret@[j]), { unimplemented!() }
//@ subst BTreeSet<T> => BTreeSetOf<T>
//@ listed on
//@ optmap on
impl<T: Exportable + std::cmp::Ord> Exportable for BTreeSetOf<T> {
    type M = Set<T::M>;
    open spec fn m(&self) -> Self::M { self@.map(m_of()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if all_dec::<T>(x.items@) { Some(seq_dec::<T>(x.items@).to_set()) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { forall|x: T| #[trigger] self@.contains(x) ==> x.fits() }
//@ fn traits/exportable.rs <Exportable for BTreeSet<T>>::to_value | priv
//@ loop 0 src=list_BTreeSetOf elem=s0[i0] 
    invariant AUTO
        o0@.len() == k0, forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] o0@[i]) == Some(s0@[i].m()),
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).fits(),
//@ hint afterloop 0
    proof { lemma_set_all(s0@, self@, seq_dec::<T>(o0@)); assert(Seq::new(o0@.len(), |i: int| o0@[i].val()) =~= o0@); }
//@ end
//@ fn traits/exportable.rs <Exportable for BTreeSet<T>>::from_value | priv
//@ loop 0 src=listed_into_iter owned out=Option<BTreeSetOf<T>>
    invariant AUTO
        ok0 ==> o0@.map(m_of::<T>()) == seq_dec::<T>(g0.take(k0 as int)).to_set(),
        ok0 ==> forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) is Some,
        !ok0 ==> exists|i: int| 0 <= i < k0 && T::dec(#[trigger] g0[i]) is None,
//@ hint beforeloop 0
    proof { assert(o0@.map(m_of::<T>()) =~= Set::empty()); assert(seq_dec::<T>(g0.take(0)).to_set() =~= Set::empty()); }
//@ hint loopstart 0
    let ghost before = o0@;
//@ hint loopend 0
    proof { if ok0 { let x = choose|x: T| o0@ == before.insert(x) && T::dec(g0[k0 - 1]) == Some(x.m()); lemma_set_push(before, x, seq_dec::<T>(g0.take(k0 - 1))); assert(seq_dec::<T>(g0.take(k0 as int)) =~= seq_dec::<T>(g0.take(k0 - 1)).push(x.m())); } }
//@ hint afterloop 0
    proof { assert(g0.take(g0.len() as int) =~= g0); }
//@ end
}
//@ listed off
//@ optmap off
}
pub mod ex3 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
pub open spec fn table_in(v: Value) -> Map<Seq<char>, Value> { match v { Value::InlineTable(x) => x@, _ => Map::empty() } }
pub open spec fn char_keys<V>(m: Map<Seq<char>, V>) -> Set<char> { m.dom().map(|k: Seq<char>| k[0]) }
pub proof fn lemma_char_keys<V>(m: Map<Seq<char>, V>)
    requires forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> k.len() == 1,
    ensures forall|c: char| #[trigger] char_keys(m).contains(c) <==> m.contains_key(seq![c]),
{
    assert forall|c: char| #[trigger] char_keys(m).contains(c) <==> m.contains_key(seq![c]) by {
        if m.contains_key(seq![c]) { assert(m.dom().contains(seq![c]) && seq![c][0] == c); }
        if char_keys(m).contains(c) { let k = choose|k: Seq<char>| m.dom().contains(k) && c == k[0]; assert(m.contains_key(k)); assert(k =~= seq![c]); }
    }
}
#[verifier::external_body] #[verifier::reject_recursive_types(V)]
pub struct HashMapOfC<V> { p: std::collections::HashMap<char, V> }
impl<V> HashMapOfC<V> {
    pub uninterp spec fn view(&self) -> Map<char, V>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<char, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: char, x: V) -> (ret: Option<V>) ensures final(self)@ == old(self)@.insert(k, x), { unimplemented!() }
}
#[verifier::external_body]
pub fn list_HashMapOfC<V>(s: &HashMapOfC<V>) -> (ret: Vec<(&char, &V)>)
    ensures
        forall|i: int| 0 <= i < ret@.len() ==> s@.contains_key(*(#[trigger] ret@[i]).0) && s@[*ret@[i].0] == *ret@[i].1,
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> *(#[trigger] ret@[i]).0 != *(#[trigger] ret@[j]).0,
        forall|k: char| #[trigger] s@.contains_key(k) ==> exists|i: int| 0 <= i < ret@.len() && *(#[trigger] ret@[i]).0 == k,
{ unimplemented!() }
//@ subst HashMap<char,V> => HashMapOfC<V>
//@ listed on
//@ optmap on
impl<V: Exportable> Exportable for HashMapOfC<V> {
    type M = Map<char, V::M>;
    open spec fn m(&self) -> Self::M { self@.map_values(m_of()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if forall|k: Seq<char>| #[trigger] x@.contains_key(k) ==> V::dec(x@[k]) is Some && k.len() == 1 { Some(Map::new(char_keys(x@), |k: char| V::dec(x@[seq![k]])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { forall|k: char| #[trigger] self@.contains_key(k) ==> self@[k].fits() }
//@ fn traits/exportable.rs <Exportable for HashMap<char,V>>::to_value | priv mcall=into=>to_toml
//@ loop 0 src=list_HashMapOfC elem=s0[i0] out=InlineTable
    invariant AUTO
        forall|i: int| 0 <= i < k0 ==> o0@.contains_key(seq![*(#[trigger] s0@[i]).0]) && V::dec(o0@[seq![*s0@[i].0]]) == Some(s0@[i].1.m()),
        forall|k: Seq<char>| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && seq![*(#[trigger] s0@[i]).0] == k,
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).1.fits(),
        forall|i: int, j: int| 0 <= i < j < s0@.len() ==> *(#[trigger] s0@[i]).0 != *(#[trigger] s0@[j]).0,
//@ hint loopend 0
    proof { assert forall|i: int| 0 <= i < k0 - 1 implies seq![*(#[trigger] s0@[i]).0] != seq![*s0@[k0 - 1].0] by { assert(*s0@[i].0 != *s0@[k0 - 1].0); assert(seq![*s0@[i].0][0] == *s0@[i].0); assert(seq![*s0@[k0 - 1].0][0] == *s0@[k0 - 1].0); } }
//@ hint afterloop 0
    proof { lemma_char_keys(o0@); let want = self@.map_values(m_of()); let got = Map::new(char_keys(o0@), |k: char| V::dec(o0@[seq![k]])->0);
        assert forall|k: char| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by { let i = choose|i: int| 0 <= i < s0@.len() && *(#[trigger] s0@[i]).0 == k; }
        assert forall|k: char| got.contains_key(k) implies want.contains_key(k) by { let i = choose|i: int| 0 <= i < s0@.len() && seq![*(#[trigger] s0@[i]).0] == seq![k]; assert(seq![*s0@[i].0][0] == seq![k][0]); }
        assert(want =~= got); }
//@ end
//@ fn traits/exportable.rs <Exportable for HashMap<char,V>>::from_value | priv
//@ loop 0 src=list_table owned out=Option<HashMapOfC<V>>
    invariant AUTO
        ok0 ==> forall|i: int| 0 <= i < k0 ==> (#[trigger] g0[i]).0@.len() == 1 && o0@.contains_key(g0[i].0@[0]) && V::dec(g0[i].1) == Some(o0@[g0[i].0@[0]].m()),
        ok0 ==> forall|k: char| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && (#[trigger] g0[i]).0@ == seq![k],
        !ok0 ==> exists|i: int| 0 <= i < k0 && ((#[trigger] g0[i]).0@.len() != 1 || V::dec(g0[i].1) is None),
        entries_of(g0, table0),
//@ hint entry
    let ghost table0 = table_in(value);
//@ hint loopend 0
    proof { if ok0 { assert(g0[k0 - 1].0@ =~= seq![g0[k0 - 1].0@[0]]); assert forall|i: int| 0 <= i < k0 - 1 implies (#[trigger] g0[i]).0@[0] != g0[k0 - 1].0@[0] by { assert(g0[i].0@ =~= seq![g0[i].0@[0]]); } } }
//@ hint afterloop 0
    proof { if ok0 { lemma_char_keys(table0); let want = o0@.map_values(m_of()); let got = Map::new(char_keys(table0), |k: char| V::dec(table0[seq![k]])->0);
        assert forall|k: char| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by { let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == seq![k]; assert(seq![k][0] == k); }
        assert forall|k: char| got.contains_key(k) implies want.contains_key(k) by { let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == seq![k]; }
        assert(want =~= got); } }
//@ end
}
//@ listed off
//@ optmap off
#[verifier::external_body] #[verifier::reject_recursive_types(V)]
pub struct HashMapOfS<V> { p: std::collections::HashMap<String, V> }
impl<V> HashMapOfS<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, x: V) -> (ret: Option<V>) ensures final(self)@ == old(self)@.insert(k@, x), { unimplemented!() }
}
#[verifier::external_body]
pub fn list_HashMapOfS<V>(s: &HashMapOfS<V>) -> (ret: Vec<(&String, &V)>)
    ensures
        forall|i: int| 0 <= i < ret@.len() ==> s@.contains_key((#[trigger] ret@[i]).0@) && s@[ret@[i].0@] == *ret@[i].1,
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> (#[trigger] ret@[i]).0@ != (#[trigger] ret@[j]).0@,
        forall|k: Seq<char>| #[trigger] s@.contains_key(k) ==> exists|i: int| 0 <= i < ret@.len() && (#[trigger] ret@[i]).0@ == k,
{ unimplemented!() }
//@ subst HashMap<String,V> => HashMapOfS<V>
//@ listed on
//@ optmap on
impl<V: Exportable> Exportable for HashMapOfS<V> {
    type M = Map<Seq<char>, V::M>;
    open spec fn m(&self) -> Self::M { self@.map_values(m_of()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if forall|k: Seq<char>| #[trigger] x@.contains_key(k) ==> V::dec(x@[k]) is Some { Some(Map::new(x@.dom(), |k: Seq<char>| V::dec(x@[k])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> self@[k].fits() }
//@ fn traits/exportable.rs <Exportable for HashMap<String,V>>::to_value | priv mcall=into=>to_toml
//@ loop 0 src=list_HashMapOfS elem=s0[i0] out=InlineTable
    invariant AUTO
        forall|i: int| 0 <= i < k0 ==> o0@.contains_key((#[trigger] s0@[i]).0@) && V::dec(o0@[s0@[i].0@]) == Some(s0@[i].1.m()),
        forall|k: Seq<char>| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && (#[trigger] s0@[i]).0@ == k,
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).1.fits(),
        forall|i: int, j: int| 0 <= i < j < s0@.len() ==> (#[trigger] s0@[i]).0@ != (#[trigger] s0@[j]).0@,
//@ hint afterloop 0
    proof {  let want = self@.map_values(m_of()); let got = Map::new(o0@.dom(), |k: Seq<char>| V::dec(o0@[k])->0);
        assert forall|k: Seq<char>| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by { let i = choose|i: int| 0 <= i < s0@.len() && (#[trigger] s0@[i]).0@ == k; }
        assert forall|k: Seq<char>| got.contains_key(k) implies want.contains_key(k) by { let i = choose|i: int| 0 <= i < s0@.len() && (#[trigger] s0@[i]).0@ == k;  }
        assert(want =~= got); }
//@ end
//@ fn traits/exportable.rs <Exportable for HashMap<String,V>>::from_value | priv
//@ loop 0 src=list_table owned out=Option<HashMapOfS<V>>
    invariant AUTO
        ok0 ==> forall|i: int| 0 <= i < k0 ==> o0@.contains_key((#[trigger] g0[i]).0@) && V::dec(g0[i].1) == Some(o0@[g0[i].0@].m()),
        ok0 ==> forall|k: Seq<char>| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && (#[trigger] g0[i]).0@ == k,
        !ok0 ==> exists|i: int| 0 <= i < k0 && (V::dec((#[trigger] g0[i]).1) is None),
        entries_of(g0, table0),
//@ hint entry
    let ghost table0 = table_in(value);
//@ hint afterloop 0
    proof { if ok0 {  let want = o0@.map_values(m_of()); let got = Map::new(table0.dom(), |k: Seq<char>| V::dec(table0[k])->0);
        assert forall|k: Seq<char>| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by { let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == k;  }
        assert forall|k: Seq<char>| got.contains_key(k) implies want.contains_key(k) by { let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == k; }
        assert(want =~= got); } }
//@ end
}
//@ listed off
//@ optmap off
#[verifier::external_body] #[verifier::reject_recursive_types(V)]
pub struct BTreeMapOfC<V> { p: std::collections::HashMap<char, V> }
impl<V> BTreeMapOfC<V> {
    pub uninterp spec fn view(&self) -> Map<char, V>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<char, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: char, x: V) -> (ret: Option<V>) ensures final(self)@ == old(self)@.insert(k, x), { unimplemented!() }
}
#[verifier::external_body]
pub fn list_BTreeMapOfC<V>(s: &BTreeMapOfC<V>) -> (ret: Vec<(&char, &V)>)
    ensures
        forall|i: int| 0 <= i < ret@.len() ==> s@.contains_key(*(#[trigger] ret@[i]).0) && s@[*ret@[i].0] == *ret@[i].1,
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> *(#[trigger] ret@[i]).0 != *(#[trigger] ret@[j]).0,
        forall|k: char| #[trigger] s@.contains_key(k) ==> exists|i: int| 0 <= i < ret@.len() && *(#[trigger] ret@[i]).0 == k,
{ unimplemented!() }
//@ subst BTreeMap<char,V> => BTreeMapOfC<V>
//@ listed on
//@ optmap on
impl<V: Exportable> Exportable for BTreeMapOfC<V> {
    type M = Map<char, V::M>;
    open spec fn m(&self) -> Self::M { self@.map_values(m_of()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if forall|k: Seq<char>| #[trigger] x@.contains_key(k) ==> V::dec(x@[k]) is Some && k.len() == 1 { Some(Map::new(char_keys(x@), |k: char| V::dec(x@[seq![k]])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { forall|k: char| #[trigger] self@.contains_key(k) ==> self@[k].fits() }
//@ fn traits/exportable.rs <Exportable for BTreeMap<char,V>>::to_value | priv mcall=into=>to_toml
//@ loop 0 src=list_BTreeMapOfC elem=s0[i0] out=InlineTable
    invariant AUTO
        forall|i: int| 0 <= i < k0 ==> o0@.contains_key(seq![*(#[trigger] s0@[i]).0]) && V::dec(o0@[seq![*s0@[i].0]]) == Some(s0@[i].1.m()),
        forall|k: Seq<char>| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && seq![*(#[trigger] s0@[i]).0] == k,
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).1.fits(),
        forall|i: int, j: int| 0 <= i < j < s0@.len() ==> *(#[trigger] s0@[i]).0 != *(#[trigger] s0@[j]).0,
//@ hint loopend 0
    proof { assert forall|i: int| 0 <= i < k0 - 1 implies seq![*(#[trigger] s0@[i]).0] != seq![*s0@[k0 - 1].0] by { assert(*s0@[i].0 != *s0@[k0 - 1].0); assert(seq![*s0@[i].0][0] == *s0@[i].0); assert(seq![*s0@[k0 - 1].0][0] == *s0@[k0 - 1].0); } }
//@ hint afterloop 0
    proof { lemma_char_keys(o0@); let want = self@.map_values(m_of()); let got = Map::new(char_keys(o0@), |k: char| V::dec(o0@[seq![k]])->0);
        assert forall|k: char| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by { let i = choose|i: int| 0 <= i < s0@.len() && *(#[trigger] s0@[i]).0 == k; }
        assert forall|k: char| got.contains_key(k) implies want.contains_key(k) by { let i = choose|i: int| 0 <= i < s0@.len() && seq![*(#[trigger] s0@[i]).0] == seq![k]; assert(seq![*s0@[i].0][0] == seq![k][0]); }
        assert(want =~= got); }
//@ end
//@ fn traits/exportable.rs <Exportable for BTreeMap<char,V>>::from_value | priv
//@ loop 0 src=list_table owned out=Option<BTreeMapOfC<V>>
    invariant AUTO
        ok0 ==> forall|i: int| 0 <= i < k0 ==> (#[trigger] g0[i]).0@.len() == 1 && o0@.contains_key(g0[i].0@[0]) && V::dec(g0[i].1) == Some(o0@[g0[i].0@[0]].m()),
        ok0 ==> forall|k: char| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && (#[trigger] g0[i]).0@ == seq![k],
        !ok0 ==> exists|i: int| 0 <= i < k0 && ((#[trigger] g0[i]).0@.len() != 1 || V::dec(g0[i].1) is None),
        entries_of(g0, table0),
//@ hint entry
    let ghost table0 = table_in(value);
//@ hint loopend 0
    proof { if ok0 { assert(g0[k0 - 1].0@ =~= seq![g0[k0 - 1].0@[0]]); assert forall|i: int| 0 <= i < k0 - 1 implies (#[trigger] g0[i]).0@[0] != g0[k0 - 1].0@[0] by { assert(g0[i].0@ =~= seq![g0[i].0@[0]]); } } }
//@ hint afterloop 0
    proof { if ok0 { lemma_char_keys(table0); let want = o0@.map_values(m_of()); let got = Map::new(char_keys(table0), |k: char| V::dec(table0[seq![k]])->0);
        assert forall|k: char| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by { let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == seq![k]; assert(seq![k][0] == k); }
        assert forall|k: char| got.contains_key(k) implies want.contains_key(k) by { let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == seq![k]; }
        assert(want =~= got); } }
//@ end
}
//@ listed off
//@ optmap off
#[verifier::external_body] #[verifier::reject_recursive_types(V)]
pub struct BTreeMapOfS<V> { p: std::collections::HashMap<String, V> }
impl<V> BTreeMapOfS<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, x: V) -> (ret: Option<V>) ensures final(self)@ == old(self)@.insert(k@, x), { unimplemented!() }
}
#[verifier::external_body]
pub fn list_BTreeMapOfS<V>(s: &BTreeMapOfS<V>) -> (ret: Vec<(&String, &V)>)
    ensures
        forall|i: int| 0 <= i < ret@.len() ==> s@.contains_key((#[trigger] ret@[i]).0@) && s@[ret@[i].0@] == *ret@[i].1,
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> (#[trigger] ret@[i]).0@ != (#[trigger] ret@[j]).0@,
        forall|k: Seq<char>| #[trigger] s@.contains_key(k) ==> exists|i: int| 0 <= i < ret@.len() && (#[trigger] ret@[i]).0@ == k,
{ unimplemented!() }
//@ subst BTreeMap<String,V> => BTreeMapOfS<V>
//@ listed on
//@ optmap on
impl<V: Exportable> Exportable for BTreeMapOfS<V> {
    type M = Map<Seq<char>, V::M>;
    open spec fn m(&self) -> Self::M { self@.map_values(m_of()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if forall|k: Seq<char>| #[trigger] x@.contains_key(k) ==> V::dec(x@[k]) is Some { Some(Map::new(x@.dom(), |k: Seq<char>| V::dec(x@[k])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> self@[k].fits() }
//@ fn traits/exportable.rs <Exportable for BTreeMap<String,V>>::to_value | priv mcall=into=>to_toml
//@ loop 0 src=list_BTreeMapOfS elem=s0[i0] out=InlineTable
    invariant AUTO
        forall|i: int| 0 <= i < k0 ==> o0@.contains_key((#[trigger] s0@[i]).0@) && V::dec(o0@[s0@[i].0@]) == Some(s0@[i].1.m()),
        forall|k: Seq<char>| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && (#[trigger] s0@[i]).0@ == k,
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).1.fits(),
        forall|i: int, j: int| 0 <= i < j < s0@.len() ==> (#[trigger] s0@[i]).0@ != (#[trigger] s0@[j]).0@,
//@ hint afterloop 0
    proof {  let want = self@.map_values(m_of()); let got = Map::new(o0@.dom(), |k: Seq<char>| V::dec(o0@[k])->0);
        assert forall|k: Seq<char>| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by { let i = choose|i: int| 0 <= i < s0@.len() && (#[trigger] s0@[i]).0@ == k; }
        assert forall|k: Seq<char>| got.contains_key(k) implies want.contains_key(k) by { let i = choose|i: int| 0 <= i < s0@.len() && (#[trigger] s0@[i]).0@ == k;  }
        assert(want =~= got); }
//@ end
//@ fn traits/exportable.rs <Exportable for BTreeMap<String,V>>::from_value | priv
//@ loop 0 src=list_table owned out=Option<BTreeMapOfS<V>>
    invariant AUTO
        ok0 ==> forall|i: int| 0 <= i < k0 ==> o0@.contains_key((#[trigger] g0[i]).0@) && V::dec(g0[i].1) == Some(o0@[g0[i].0@].m()),
        ok0 ==> forall|k: Seq<char>| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && (#[trigger] g0[i]).0@ == k,
        !ok0 ==> exists|i: int| 0 <= i < k0 && (V::dec((#[trigger] g0[i]).1) is None),
        entries_of(g0, table0),
//@ hint entry
    let ghost table0 = table_in(value);
//@ hint afterloop 0
    proof { if ok0 {  let want = o0@.map_values(m_of()); let got = Map::new(table0.dom(), |k: Seq<char>| V::dec(table0[k])->0);
        assert forall|k: Seq<char>| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by { let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == k;  }
        assert forall|k: Seq<char>| got.contains_key(k) implies want.contains_key(k) by { let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == k; }
        assert(want =~= got); } }
//@ end
}
//@ listed off
//@ optmap off
}
pub mod ex4 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
//@ optmap on
impl<T: Exportable> Exportable for Box<T> {
    type M = T::M;
    open spec fn m(&self) -> Self::M { (**self).m() }
    open spec fn dec(v: Value) -> Option<Self::M> { T::dec(v) }
    open spec fn fits(&self) -> bool { (**self).fits() }
//@ fn traits/exportable.rs <Exportable for Box<T>>::to_value | priv mcall=deref=>point
//@ end
//@ fn traits/exportable.rs <Exportable for Box<T>>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<T: Exportable> Exportable for std::rc::Rc<T> {
    type M = T::M;
    open spec fn m(&self) -> Self::M { (**self).m() }
    open spec fn dec(v: Value) -> Option<Self::M> { T::dec(v) }
    open spec fn fits(&self) -> bool { (**self).fits() }
//@ fn traits/exportable.rs <Exportable for std::rc::Rc<T>>::to_value | priv mcall=deref=>point
//@ end
//@ fn traits/exportable.rs <Exportable for std::rc::Rc<T>>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<T: Exportable> Exportable for std::sync::Arc<T> {
    type M = T::M;
    open spec fn m(&self) -> Self::M { (**self).m() }
    open spec fn dec(v: Value) -> Option<Self::M> { T::dec(v) }
    open spec fn fits(&self) -> bool { (**self).fits() }
//@ fn traits/exportable.rs <Exportable for std::sync::Arc<T>>::to_value | priv mcall=deref=>point
//@ end
//@ fn traits/exportable.rs <Exportable for std::sync::Arc<T>>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ subst std::sync::Mutex<T> => Mutex<T>
//@ subst std::sync::Mutex => Mutex
//@ listed on
//@ optmap on
impl<T: Exportable> Exportable for Mutex<T> {
    type M = T::M;
    open spec fn m(&self) -> Self::M { self@.m() }
    open spec fn dec(v: Value) -> Option<Self::M> { T::dec(v) }
    open spec fn fits(&self) -> bool { self@.fits() }
//@ fn traits/exportable.rs <Exportable for std::sync::Mutex<T>>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for std::sync::Mutex<T>>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
}
pub mod ex5 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
//@ optmap on
impl<A: Exportable> Exportable for (A,) {
    type M = (A::M,);
    open spec fn m(&self) -> Self::M { (self.0.m(),) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 1 && A::dec(x.items@[0]) is Some { Some((A::dec(x.items@[0])->0,)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() }
//@ fn traits/exportable.rs <Exportable for (A,)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable> Exportable for (A, B) {
    type M = (A::M, B::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable, C: Exportable> Exportable for (A, B, C) {
    type M = (A::M, B::M, C::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m(), self.2.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some && C::dec(x.items@[2]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0, C::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B,C)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B,C)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable, C: Exportable, D: Exportable> Exportable for (A, B, C, D) {
    type M = (A::M, B::M, C::M, D::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m(), self.2.m(), self.3.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some && C::dec(x.items@[2]) is Some && D::dec(x.items@[3]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0, C::dec(x.items@[2])->0, D::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B,C,D)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B,C,D)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable, C: Exportable, D: Exportable, E: Exportable> Exportable for (A, B, C, D, E) {
    type M = (A::M, B::M, C::M, D::M, E::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 5 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some && C::dec(x.items@[2]) is Some && D::dec(x.items@[3]) is Some && E::dec(x.items@[4]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0, C::dec(x.items@[2])->0, D::dec(x.items@[3])->0, E::dec(x.items@[4])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable, C: Exportable, D: Exportable, E: Exportable, F: Exportable> Exportable for (A, B, C, D, E, F) {
    type M = (A::M, B::M, C::M, D::M, E::M, F::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 6 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some && C::dec(x.items@[2]) is Some && D::dec(x.items@[3]) is Some && E::dec(x.items@[4]) is Some && F::dec(x.items@[5]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0, C::dec(x.items@[2])->0, D::dec(x.items@[3])->0, E::dec(x.items@[4])->0, F::dec(x.items@[5])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable, C: Exportable, D: Exportable, E: Exportable, F: Exportable, G: Exportable> Exportable for (A, B, C, D, E, F, G) {
    type M = (A::M, B::M, C::M, D::M, E::M, F::M, G::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 7 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some && C::dec(x.items@[2]) is Some && D::dec(x.items@[3]) is Some && E::dec(x.items@[4]) is Some && F::dec(x.items@[5]) is Some && G::dec(x.items@[6]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0, C::dec(x.items@[2])->0, D::dec(x.items@[3])->0, E::dec(x.items@[4])->0, F::dec(x.items@[5])->0, G::dec(x.items@[6])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() && self.6.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F,G)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F,G)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable, C: Exportable, D: Exportable, E: Exportable, F: Exportable, G: Exportable, H: Exportable> Exportable for (A, B, C, D, E, F, G, H) {
    type M = (A::M, B::M, C::M, D::M, E::M, F::M, G::M, H::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(), self.7.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 8 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some && C::dec(x.items@[2]) is Some && D::dec(x.items@[3]) is Some && E::dec(x.items@[4]) is Some && F::dec(x.items@[5]) is Some && G::dec(x.items@[6]) is Some && H::dec(x.items@[7]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0, C::dec(x.items@[2])->0, D::dec(x.items@[3])->0, E::dec(x.items@[4])->0, F::dec(x.items@[5])->0, G::dec(x.items@[6])->0, H::dec(x.items@[7])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() && self.6.fits() && self.7.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F,G,H)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F,G,H)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable, C: Exportable, D: Exportable, E: Exportable, F: Exportable, G: Exportable, H: Exportable, I: Exportable> Exportable for (A, B, C, D, E, F, G, H, I) {
    type M = (A::M, B::M, C::M, D::M, E::M, F::M, G::M, H::M, I::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(), self.7.m(), self.8.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 9 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some && C::dec(x.items@[2]) is Some && D::dec(x.items@[3]) is Some && E::dec(x.items@[4]) is Some && F::dec(x.items@[5]) is Some && G::dec(x.items@[6]) is Some && H::dec(x.items@[7]) is Some && I::dec(x.items@[8]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0, C::dec(x.items@[2])->0, D::dec(x.items@[3])->0, E::dec(x.items@[4])->0, F::dec(x.items@[5])->0, G::dec(x.items@[6])->0, H::dec(x.items@[7])->0, I::dec(x.items@[8])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() && self.6.fits() && self.7.fits() && self.8.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F,G,H,I)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F,G,H,I)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl<A: Exportable, B: Exportable, C: Exportable, D: Exportable, E: Exportable, F: Exportable, G: Exportable, H: Exportable, I: Exportable, J: Exportable> Exportable for (A, B, C, D, E, F, G, H, I, J) {
    type M = (A::M, B::M, C::M, D::M, E::M, F::M, G::M, H::M, I::M, J::M);
    open spec fn m(&self) -> Self::M { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(), self.7.m(), self.8.m(), self.9.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 10 && A::dec(x.items@[0]) is Some && B::dec(x.items@[1]) is Some && C::dec(x.items@[2]) is Some && D::dec(x.items@[3]) is Some && E::dec(x.items@[4]) is Some && F::dec(x.items@[5]) is Some && G::dec(x.items@[6]) is Some && H::dec(x.items@[7]) is Some && I::dec(x.items@[8]) is Some && J::dec(x.items@[9]) is Some { Some((A::dec(x.items@[0])->0, B::dec(x.items@[1])->0, C::dec(x.items@[2])->0, D::dec(x.items@[3])->0, E::dec(x.items@[4])->0, F::dec(x.items@[5])->0, G::dec(x.items@[6])->0, H::dec(x.items@[7])->0, I::dec(x.items@[8])->0, J::dec(x.items@[9])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() && self.6.fits() && self.7.fits() && self.8.fits() && self.9.fits() }
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F,G,H,I,J)>::to_value | priv
//@ end
//@ fn traits/exportable.rs <Exportable for (A,B,C,D,E,F,G,H,I,J)>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
}
pub mod g_bool {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct BVec2 { pub x: bool, pub y: bool }
pub fn bvec2(x: bool, y: bool) -> (ret: BVec2) ensures ret.x == x, ret.y == y, { BVec2 { x, y } }
impl BVec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [bool; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct BVec3 { pub x: bool, pub y: bool, pub z: bool }
pub fn bvec3(x: bool, y: bool, z: bool) -> (ret: BVec3) ensures ret.x == x, ret.y == y, ret.z == z, { BVec3 { x, y, z } }
impl BVec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [bool; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct BVec4 { pub x: bool, pub y: bool, pub z: bool, pub w: bool }
pub fn bvec4(x: bool, y: bool, z: bool, w: bool) -> (ret: BVec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { BVec4 { x, y, z, w } }
impl BVec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [bool; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_u8 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct U8Vec2 { pub x: u8, pub y: u8 }
pub fn u8vec2(x: u8, y: u8) -> (ret: U8Vec2) ensures ret.x == x, ret.y == y, { U8Vec2 { x, y } }
impl U8Vec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u8; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct U8Vec3 { pub x: u8, pub y: u8, pub z: u8 }
pub fn u8vec3(x: u8, y: u8, z: u8) -> (ret: U8Vec3) ensures ret.x == x, ret.y == y, ret.z == z, { U8Vec3 { x, y, z } }
impl U8Vec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u8; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct U8Vec4 { pub x: u8, pub y: u8, pub z: u8, pub w: u8 }
pub fn u8vec4(x: u8, y: u8, z: u8, w: u8) -> (ret: U8Vec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { U8Vec4 { x, y, z, w } }
impl U8Vec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u8; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_u16 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct U16Vec2 { pub x: u16, pub y: u16 }
pub fn u16vec2(x: u16, y: u16) -> (ret: U16Vec2) ensures ret.x == x, ret.y == y, { U16Vec2 { x, y } }
impl U16Vec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u16; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct U16Vec3 { pub x: u16, pub y: u16, pub z: u16 }
pub fn u16vec3(x: u16, y: u16, z: u16) -> (ret: U16Vec3) ensures ret.x == x, ret.y == y, ret.z == z, { U16Vec3 { x, y, z } }
impl U16Vec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u16; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct U16Vec4 { pub x: u16, pub y: u16, pub z: u16, pub w: u16 }
pub fn u16vec4(x: u16, y: u16, z: u16, w: u16) -> (ret: U16Vec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { U16Vec4 { x, y, z, w } }
impl U16Vec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u16; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_u32 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct UVec2 { pub x: u32, pub y: u32 }
pub fn uvec2(x: u32, y: u32) -> (ret: UVec2) ensures ret.x == x, ret.y == y, { UVec2 { x, y } }
impl UVec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u32; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct UVec3 { pub x: u32, pub y: u32, pub z: u32 }
pub fn uvec3(x: u32, y: u32, z: u32) -> (ret: UVec3) ensures ret.x == x, ret.y == y, ret.z == z, { UVec3 { x, y, z } }
impl UVec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u32; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct UVec4 { pub x: u32, pub y: u32, pub z: u32, pub w: u32 }
pub fn uvec4(x: u32, y: u32, z: u32, w: u32) -> (ret: UVec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { UVec4 { x, y, z, w } }
impl UVec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u32; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_u64 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct U64Vec2 { pub x: u64, pub y: u64 }
pub fn u64vec2(x: u64, y: u64) -> (ret: U64Vec2) ensures ret.x == x, ret.y == y, { U64Vec2 { x, y } }
impl U64Vec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u64; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct U64Vec3 { pub x: u64, pub y: u64, pub z: u64 }
pub fn u64vec3(x: u64, y: u64, z: u64) -> (ret: U64Vec3) ensures ret.x == x, ret.y == y, ret.z == z, { U64Vec3 { x, y, z } }
impl U64Vec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u64; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct U64Vec4 { pub x: u64, pub y: u64, pub z: u64, pub w: u64 }
pub fn u64vec4(x: u64, y: u64, z: u64, w: u64) -> (ret: U64Vec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { U64Vec4 { x, y, z, w } }
impl U64Vec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [u64; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_i8 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct I8Vec2 { pub x: i8, pub y: i8 }
pub fn i8vec2(x: i8, y: i8) -> (ret: I8Vec2) ensures ret.x == x, ret.y == y, { I8Vec2 { x, y } }
impl I8Vec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i8; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct I8Vec3 { pub x: i8, pub y: i8, pub z: i8 }
pub fn i8vec3(x: i8, y: i8, z: i8) -> (ret: I8Vec3) ensures ret.x == x, ret.y == y, ret.z == z, { I8Vec3 { x, y, z } }
impl I8Vec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i8; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct I8Vec4 { pub x: i8, pub y: i8, pub z: i8, pub w: i8 }
pub fn i8vec4(x: i8, y: i8, z: i8, w: i8) -> (ret: I8Vec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { I8Vec4 { x, y, z, w } }
impl I8Vec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i8; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_i16 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct I16Vec2 { pub x: i16, pub y: i16 }
pub fn i16vec2(x: i16, y: i16) -> (ret: I16Vec2) ensures ret.x == x, ret.y == y, { I16Vec2 { x, y } }
impl I16Vec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i16; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct I16Vec3 { pub x: i16, pub y: i16, pub z: i16 }
pub fn i16vec3(x: i16, y: i16, z: i16) -> (ret: I16Vec3) ensures ret.x == x, ret.y == y, ret.z == z, { I16Vec3 { x, y, z } }
impl I16Vec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i16; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct I16Vec4 { pub x: i16, pub y: i16, pub z: i16, pub w: i16 }
pub fn i16vec4(x: i16, y: i16, z: i16, w: i16) -> (ret: I16Vec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { I16Vec4 { x, y, z, w } }
impl I16Vec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i16; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_i32 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct IVec2 { pub x: i32, pub y: i32 }
pub fn ivec2(x: i32, y: i32) -> (ret: IVec2) ensures ret.x == x, ret.y == y, { IVec2 { x, y } }
impl IVec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i32; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct IVec3 { pub x: i32, pub y: i32, pub z: i32 }
pub fn ivec3(x: i32, y: i32, z: i32) -> (ret: IVec3) ensures ret.x == x, ret.y == y, ret.z == z, { IVec3 { x, y, z } }
impl IVec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i32; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct IVec4 { pub x: i32, pub y: i32, pub z: i32, pub w: i32 }
pub fn ivec4(x: i32, y: i32, z: i32, w: i32) -> (ret: IVec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { IVec4 { x, y, z, w } }
impl IVec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i32; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_i64 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct I64Vec2 { pub x: i64, pub y: i64 }
pub fn i64vec2(x: i64, y: i64) -> (ret: I64Vec2) ensures ret.x == x, ret.y == y, { I64Vec2 { x, y } }
impl I64Vec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i64; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct I64Vec3 { pub x: i64, pub y: i64, pub z: i64 }
pub fn i64vec3(x: i64, y: i64, z: i64) -> (ret: I64Vec3) ensures ret.x == x, ret.y == y, ret.z == z, { I64Vec3 { x, y, z } }
impl I64Vec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i64; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct I64Vec4 { pub x: i64, pub y: i64, pub z: i64, pub w: i64 }
pub fn i64vec4(x: i64, y: i64, z: i64, w: i64) -> (ret: I64Vec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { I64Vec4 { x, y, z, w } }
impl I64Vec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [i64; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
}
pub mod g_f32 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct Vec2 { pub x: f32, pub y: f32 }
pub fn vec2(x: f32, y: f32) -> (ret: Vec2) ensures ret.x == x, ret.y == y, { Vec2 { x, y } }
impl Vec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f32; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct Vec3 { pub x: f32, pub y: f32, pub z: f32 }
pub fn vec3(x: f32, y: f32, z: f32) -> (ret: Vec3) ensures ret.x == x, ret.y == y, ret.z == z, { Vec3 { x, y, z } }
impl Vec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f32; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct Vec3A { pub x: f32, pub y: f32, pub z: f32 }
pub fn vec3a(x: f32, y: f32, z: f32) -> (ret: Vec3A) ensures ret.x == x, ret.y == y, ret.z == z, { Vec3A { x, y, z } }
impl Vec3A { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f32; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct Vec4 { pub x: f32, pub y: f32, pub z: f32, pub w: f32 }
pub fn vec4(x: f32, y: f32, z: f32, w: f32) -> (ret: Vec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { Vec4 { x, y, z, w } }
impl Vec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f32; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
#[derive(Clone, Copy)]
pub struct Quat { pub x: f32, pub y: f32, pub z: f32, pub w: f32 }
pub fn quat(x: f32, y: f32, z: f32, w: f32) -> (ret: Quat) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { Quat { x, y, z, w } }
impl Quat { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f32; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
#[derive(Clone, Copy)]
pub struct Mat2 { pub x_axis: Vec2, pub y_axis: Vec2 }
pub fn mat2(x_axis: Vec2, y_axis: Vec2) -> (ret: Mat2) ensures ret.x_axis == x_axis, ret.y_axis == y_axis, { Mat2 { x_axis, y_axis } }
#[derive(Clone, Copy)]
pub struct Mat3 { pub x_axis: Vec3, pub y_axis: Vec3, pub z_axis: Vec3 }
pub fn mat3(x_axis: Vec3, y_axis: Vec3, z_axis: Vec3) -> (ret: Mat3) ensures ret.x_axis == x_axis, ret.y_axis == y_axis, ret.z_axis == z_axis, { Mat3 { x_axis, y_axis, z_axis } }
#[derive(Clone, Copy)]
pub struct Mat3A { pub x_axis: Vec3A, pub y_axis: Vec3A, pub z_axis: Vec3A }
pub fn mat3a(x_axis: Vec3A, y_axis: Vec3A, z_axis: Vec3A) -> (ret: Mat3A) ensures ret.x_axis == x_axis, ret.y_axis == y_axis, ret.z_axis == z_axis, { Mat3A { x_axis, y_axis, z_axis } }
#[derive(Clone, Copy)]
pub struct Mat4 { pub x_axis: Vec4, pub y_axis: Vec4, pub z_axis: Vec4, pub w_axis: Vec4 }
pub fn mat4(x_axis: Vec4, y_axis: Vec4, z_axis: Vec4, w_axis: Vec4) -> (ret: Mat4) ensures ret.x_axis == x_axis, ret.y_axis == y_axis, ret.z_axis == z_axis, ret.w_axis == w_axis, { Mat4 { x_axis, y_axis, z_axis, w_axis } }
impl Mat3A { pub fn to_mat3(self) -> (ret: Mat3) ensures ret.m3() == self.m3(), { Mat3 { x_axis: self.x_axis.to_vec3(), y_axis: self.y_axis.to_vec3(), z_axis: self.z_axis.to_vec3() } }
    pub open spec fn m3(self) -> (Vec3, Vec3, Vec3) { (self.x_axis.v3(), self.y_axis.v3(), self.z_axis.v3()) } }
impl Mat3 { pub open spec fn m3(self) -> (Vec3, Vec3, Vec3) { (self.x_axis, self.y_axis, self.z_axis) } }
impl Vec3A { pub fn to_vec3(self) -> (ret: Vec3) ensures ret == self.v3(), { Vec3 { x: self.x, y: self.y, z: self.z } }
    pub open spec fn v3(self) -> Vec3 { Vec3 { x: self.x, y: self.y, z: self.z } } }
pub trait Widen: Sized { type O; spec fn wide(self) -> Self::O; fn widened(self) -> (ret: Self::O) ensures ret == self.wide(); }
impl Widen for Mat3A { type O = Mat3; open spec fn wide(self) -> Mat3 { Mat3 { x_axis: self.x_axis.v3(), y_axis: self.y_axis.v3(), z_axis: self.z_axis.v3() } } fn widened(self) -> (ret: Mat3) { Mat3 { x_axis: self.x_axis.to_vec3(), y_axis: self.y_axis.to_vec3(), z_axis: self.z_axis.to_vec3() } } }
impl Widen for Vec3A { type O = Vec3; open spec fn wide(self) -> Vec3 { self.v3() } fn widened(self) -> (ret: Vec3) { self.to_vec3() } }
#[derive(Clone, Copy)]
pub struct Affine2 { pub matrix2: Mat2, pub translation: Vec2 }
impl Affine2 { pub fn from_mat2_translation(m: Mat2, t: Vec2) -> (ret: Affine2) ensures ret.matrix2 == m, ret.translation == t, { Affine2 { matrix2: m, translation: t } } }
#[derive(Clone, Copy)]
pub struct Affine3A { pub matrix3: Mat3A, pub translation: Vec3A }
impl Affine3A { pub fn from_mat3_translation(m: Mat3, t: Vec3) -> (ret: Affine3A) ensures ret.matrix3.m3() == m.m3(), ret.translation.v3() == t, { Affine3A { matrix3: Mat3A { x_axis: Vec3A { x: m.x_axis.x, y: m.x_axis.y, z: m.x_axis.z }, y_axis: Vec3A { x: m.y_axis.x, y: m.y_axis.y, z: m.y_axis.z }, z_axis: Vec3A { x: m.z_axis.x, y: m.z_axis.y, z: m.z_axis.z } }, translation: Vec3A { x: t.x, y: t.y, z: t.z } } } }
}
pub mod g_f64 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct DVec2 { pub x: f64, pub y: f64 }
pub fn dvec2(x: f64, y: f64) -> (ret: DVec2) ensures ret.x == x, ret.y == y, { DVec2 { x, y } }
impl DVec2 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f64; 2]) ensures ret@.len() == 2, ret@[0] == self.x, ret@[1] == self.y, { [self.x, self.y] } }
#[derive(Clone, Copy)]
pub struct DVec3 { pub x: f64, pub y: f64, pub z: f64 }
pub fn dvec3(x: f64, y: f64, z: f64) -> (ret: DVec3) ensures ret.x == x, ret.y == y, ret.z == z, { DVec3 { x, y, z } }
impl DVec3 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f64; 3]) ensures ret@.len() == 3, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, { [self.x, self.y, self.z] } }
#[derive(Clone, Copy)]
pub struct DVec4 { pub x: f64, pub y: f64, pub z: f64, pub w: f64 }
pub fn dvec4(x: f64, y: f64, z: f64, w: f64) -> (ret: DVec4) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { DVec4 { x, y, z, w } }
impl DVec4 { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f64; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
#[derive(Clone, Copy)]
pub struct DQuat { pub x: f64, pub y: f64, pub z: f64, pub w: f64 }
pub fn dquat(x: f64, y: f64, z: f64, w: f64) -> (ret: DQuat) ensures ret.x == x, ret.y == y, ret.z == z, ret.w == w, { DQuat { x, y, z, w } }
impl DQuat { #[verifier::external_body] pub fn to_array(&self) -> (ret: [f64; 4]) ensures ret@.len() == 4, ret@[0] == self.x, ret@[1] == self.y, ret@[2] == self.z, ret@[3] == self.w, { [self.x, self.y, self.z, self.w] } }
#[derive(Clone, Copy)]
pub struct DMat2 { pub x_axis: DVec2, pub y_axis: DVec2 }
pub fn dmat2(x_axis: DVec2, y_axis: DVec2) -> (ret: DMat2) ensures ret.x_axis == x_axis, ret.y_axis == y_axis, { DMat2 { x_axis, y_axis } }
#[derive(Clone, Copy)]
pub struct DMat3 { pub x_axis: DVec3, pub y_axis: DVec3, pub z_axis: DVec3 }
pub fn dmat3(x_axis: DVec3, y_axis: DVec3, z_axis: DVec3) -> (ret: DMat3) ensures ret.x_axis == x_axis, ret.y_axis == y_axis, ret.z_axis == z_axis, { DMat3 { x_axis, y_axis, z_axis } }
#[derive(Clone, Copy)]
pub struct DMat4 { pub x_axis: DVec4, pub y_axis: DVec4, pub z_axis: DVec4, pub w_axis: DVec4 }
pub fn dmat4(x_axis: DVec4, y_axis: DVec4, z_axis: DVec4, w_axis: DVec4) -> (ret: DMat4) ensures ret.x_axis == x_axis, ret.y_axis == y_axis, ret.z_axis == z_axis, ret.w_axis == w_axis, { DMat4 { x_axis, y_axis, z_axis, w_axis } }
#[derive(Clone, Copy)]
pub struct DAffine2 { pub matrix2: DMat2, pub translation: DVec2 }
impl DAffine2 { pub fn from_mat2_translation(m: DMat2, t: DVec2) -> (ret: DAffine2) ensures ret.matrix2 == m, ret.translation == t, { DAffine2 { matrix2: m, translation: t } } }
#[derive(Clone, Copy)]
pub struct DAffine3 { pub matrix3: DMat3, pub translation: DVec3 }
impl DAffine3 { pub fn from_mat3_translation(m: DMat3, t: DVec3) -> (ret: DAffine3) ensures ret.matrix3 == m, ret.translation == t, { DAffine3 { matrix3: m, translation: t } } }
}
pub proof fn typed64(x: f64) -> (r: f64) ensures r == x { x }
pub proof fn typed32(x: f32) -> (r: f32) ensures r == x { x }
pub fn widen_into<A: g_f32::Widen>(a: A) -> (ret: A::O) ensures ret == a.wide(), { a.widened() }

pub mod eg_bool { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_bool::BVec2 {
    type M = (<bool as Exportable>::M, <bool as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && bool::dec(x.items@[0]) is Some && bool::dec(x.items@[1]) is Some { Some((bool::dec(x.items@[0])->0, bool::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_bool::BVec2>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_bool::BVec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_bool::BVec3 {
    type M = (<bool as Exportable>::M, <bool as Exportable>::M, <bool as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && bool::dec(x.items@[0]) is Some && bool::dec(x.items@[1]) is Some && bool::dec(x.items@[2]) is Some { Some((bool::dec(x.items@[0])->0, bool::dec(x.items@[1])->0, bool::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_bool::BVec3>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_bool::BVec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_bool::BVec4 {
    type M = (<bool as Exportable>::M, <bool as Exportable>::M, <bool as Exportable>::M, <bool as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && bool::dec(x.items@[0]) is Some && bool::dec(x.items@[1]) is Some && bool::dec(x.items@[2]) is Some && bool::dec(x.items@[3]) is Some { Some((bool::dec(x.items@[0])->0, bool::dec(x.items@[1])->0, bool::dec(x.items@[2])->0, bool::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_bool::BVec4>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_bool::BVec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_u8 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_u8::U8Vec2 {
    type M = (<u8 as Exportable>::M, <u8 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && u8::dec(x.items@[0]) is Some && u8::dec(x.items@[1]) is Some { Some((u8::dec(x.items@[0])->0, u8::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u8::U8Vec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u8 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u8::U8Vec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_u8::U8Vec3 {
    type M = (<u8 as Exportable>::M, <u8 as Exportable>::M, <u8 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && u8::dec(x.items@[0]) is Some && u8::dec(x.items@[1]) is Some && u8::dec(x.items@[2]) is Some { Some((u8::dec(x.items@[0])->0, u8::dec(x.items@[1])->0, u8::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u8::U8Vec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u8 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u8::U8Vec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_u8::U8Vec4 {
    type M = (<u8 as Exportable>::M, <u8 as Exportable>::M, <u8 as Exportable>::M, <u8 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && u8::dec(x.items@[0]) is Some && u8::dec(x.items@[1]) is Some && u8::dec(x.items@[2]) is Some && u8::dec(x.items@[3]) is Some { Some((u8::dec(x.items@[0])->0, u8::dec(x.items@[1])->0, u8::dec(x.items@[2])->0, u8::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u8::U8Vec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u8 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u8::U8Vec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_u16 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_u16::U16Vec2 {
    type M = (<u16 as Exportable>::M, <u16 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && u16::dec(x.items@[0]) is Some && u16::dec(x.items@[1]) is Some { Some((u16::dec(x.items@[0])->0, u16::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u16::U16Vec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u16 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u16::U16Vec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_u16::U16Vec3 {
    type M = (<u16 as Exportable>::M, <u16 as Exportable>::M, <u16 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && u16::dec(x.items@[0]) is Some && u16::dec(x.items@[1]) is Some && u16::dec(x.items@[2]) is Some { Some((u16::dec(x.items@[0])->0, u16::dec(x.items@[1])->0, u16::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u16::U16Vec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u16 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u16::U16Vec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_u16::U16Vec4 {
    type M = (<u16 as Exportable>::M, <u16 as Exportable>::M, <u16 as Exportable>::M, <u16 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && u16::dec(x.items@[0]) is Some && u16::dec(x.items@[1]) is Some && u16::dec(x.items@[2]) is Some && u16::dec(x.items@[3]) is Some { Some((u16::dec(x.items@[0])->0, u16::dec(x.items@[1])->0, u16::dec(x.items@[2])->0, u16::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u16::U16Vec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u16 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u16::U16Vec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_u32 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_u32::UVec2 {
    type M = (<u32 as Exportable>::M, <u32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && u32::dec(x.items@[0]) is Some && u32::dec(x.items@[1]) is Some { Some((u32::dec(x.items@[0])->0, u32::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u32::UVec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u32 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u32::UVec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_u32::UVec3 {
    type M = (<u32 as Exportable>::M, <u32 as Exportable>::M, <u32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && u32::dec(x.items@[0]) is Some && u32::dec(x.items@[1]) is Some && u32::dec(x.items@[2]) is Some { Some((u32::dec(x.items@[0])->0, u32::dec(x.items@[1])->0, u32::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u32::UVec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u32 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u32::UVec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_u32::UVec4 {
    type M = (<u32 as Exportable>::M, <u32 as Exportable>::M, <u32 as Exportable>::M, <u32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && u32::dec(x.items@[0]) is Some && u32::dec(x.items@[1]) is Some && u32::dec(x.items@[2]) is Some && u32::dec(x.items@[3]) is Some { Some((u32::dec(x.items@[0])->0, u32::dec(x.items@[1])->0, u32::dec(x.items@[2])->0, u32::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u32::UVec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u32 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u32::UVec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_u64 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_u64::U64Vec2 {
    type M = (<u64 as Exportable>::M, <u64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && u64::dec(x.items@[0]) is Some && u64::dec(x.items@[1]) is Some { Some((u64::dec(x.items@[0])->0, u64::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u64::U64Vec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u64 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u64::U64Vec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_u64::U64Vec3 {
    type M = (<u64 as Exportable>::M, <u64 as Exportable>::M, <u64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && u64::dec(x.items@[0]) is Some && u64::dec(x.items@[1]) is Some && u64::dec(x.items@[2]) is Some { Some((u64::dec(x.items@[0])->0, u64::dec(x.items@[1])->0, u64::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u64::U64Vec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u64 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u64::U64Vec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_u64::U64Vec4 {
    type M = (<u64 as Exportable>::M, <u64 as Exportable>::M, <u64 as Exportable>::M, <u64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && u64::dec(x.items@[0]) is Some && u64::dec(x.items@[1]) is Some && u64::dec(x.items@[2]) is Some && u64::dec(x.items@[3]) is Some { Some((u64::dec(x.items@[0])->0, u64::dec(x.items@[1])->0, u64::dec(x.items@[2])->0, u64::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_u64::U64Vec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: u64 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_u64::U64Vec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_i8 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_i8::I8Vec2 {
    type M = (<i8 as Exportable>::M, <i8 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && i8::dec(x.items@[0]) is Some && i8::dec(x.items@[1]) is Some { Some((i8::dec(x.items@[0])->0, i8::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i8::I8Vec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i8 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i8::I8Vec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_i8::I8Vec3 {
    type M = (<i8 as Exportable>::M, <i8 as Exportable>::M, <i8 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && i8::dec(x.items@[0]) is Some && i8::dec(x.items@[1]) is Some && i8::dec(x.items@[2]) is Some { Some((i8::dec(x.items@[0])->0, i8::dec(x.items@[1])->0, i8::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i8::I8Vec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i8 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i8::I8Vec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_i8::I8Vec4 {
    type M = (<i8 as Exportable>::M, <i8 as Exportable>::M, <i8 as Exportable>::M, <i8 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && i8::dec(x.items@[0]) is Some && i8::dec(x.items@[1]) is Some && i8::dec(x.items@[2]) is Some && i8::dec(x.items@[3]) is Some { Some((i8::dec(x.items@[0])->0, i8::dec(x.items@[1])->0, i8::dec(x.items@[2])->0, i8::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i8::I8Vec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i8 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i8::I8Vec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_i16 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_i16::I16Vec2 {
    type M = (<i16 as Exportable>::M, <i16 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && i16::dec(x.items@[0]) is Some && i16::dec(x.items@[1]) is Some { Some((i16::dec(x.items@[0])->0, i16::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i16::I16Vec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i16 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i16::I16Vec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_i16::I16Vec3 {
    type M = (<i16 as Exportable>::M, <i16 as Exportable>::M, <i16 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && i16::dec(x.items@[0]) is Some && i16::dec(x.items@[1]) is Some && i16::dec(x.items@[2]) is Some { Some((i16::dec(x.items@[0])->0, i16::dec(x.items@[1])->0, i16::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i16::I16Vec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i16 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i16::I16Vec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_i16::I16Vec4 {
    type M = (<i16 as Exportable>::M, <i16 as Exportable>::M, <i16 as Exportable>::M, <i16 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && i16::dec(x.items@[0]) is Some && i16::dec(x.items@[1]) is Some && i16::dec(x.items@[2]) is Some && i16::dec(x.items@[3]) is Some { Some((i16::dec(x.items@[0])->0, i16::dec(x.items@[1])->0, i16::dec(x.items@[2])->0, i16::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i16::I16Vec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i16 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i16::I16Vec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_i32 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_i32::IVec2 {
    type M = (<i32 as Exportable>::M, <i32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && i32::dec(x.items@[0]) is Some && i32::dec(x.items@[1]) is Some { Some((i32::dec(x.items@[0])->0, i32::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i32::IVec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i32 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i32::IVec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_i32::IVec3 {
    type M = (<i32 as Exportable>::M, <i32 as Exportable>::M, <i32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && i32::dec(x.items@[0]) is Some && i32::dec(x.items@[1]) is Some && i32::dec(x.items@[2]) is Some { Some((i32::dec(x.items@[0])->0, i32::dec(x.items@[1])->0, i32::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i32::IVec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i32 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i32::IVec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_i32::IVec4 {
    type M = (<i32 as Exportable>::M, <i32 as Exportable>::M, <i32 as Exportable>::M, <i32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && i32::dec(x.items@[0]) is Some && i32::dec(x.items@[1]) is Some && i32::dec(x.items@[2]) is Some && i32::dec(x.items@[3]) is Some { Some((i32::dec(x.items@[0])->0, i32::dec(x.items@[1])->0, i32::dec(x.items@[2])->0, i32::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i32::IVec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i32 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i32::IVec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_i64 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_i64::I64Vec2 {
    type M = (<i64 as Exportable>::M, <i64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && i64::dec(x.items@[0]) is Some && i64::dec(x.items@[1]) is Some { Some((i64::dec(x.items@[0])->0, i64::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i64::I64Vec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i64 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i64::I64Vec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_i64::I64Vec3 {
    type M = (<i64 as Exportable>::M, <i64 as Exportable>::M, <i64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && i64::dec(x.items@[0]) is Some && i64::dec(x.items@[1]) is Some && i64::dec(x.items@[2]) is Some { Some((i64::dec(x.items@[0])->0, i64::dec(x.items@[1])->0, i64::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i64::I64Vec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i64 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i64::I64Vec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_i64::I64Vec4 {
    type M = (<i64 as Exportable>::M, <i64 as Exportable>::M, <i64 as Exportable>::M, <i64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && i64::dec(x.items@[0]) is Some && i64::dec(x.items@[1]) is Some && i64::dec(x.items@[2]) is Some && i64::dec(x.items@[3]) is Some { Some((i64::dec(x.items@[0])->0, i64::dec(x.items@[1])->0, i64::dec(x.items@[2])->0, i64::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_i64::I64Vec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: i64 -> r: i64
    ensures r == x as i64
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_i64::I64Vec4>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_f32 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_f32::Vec2 {
    type M = (<f32 as Exportable>::M, <f32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && f32::dec(x.items@[0]) is Some && f32::dec(x.items@[1]) is Some { Some((f32::dec(x.items@[0])->0, f32::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Vec2>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: f32 -> r: f64
    ensures vstd::float::float_cast_spec::<f32, f64>(x, r)
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Vec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_f32::Vec3 {
    type M = (<f32 as Exportable>::M, <f32 as Exportable>::M, <f32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && f32::dec(x.items@[0]) is Some && f32::dec(x.items@[1]) is Some && f32::dec(x.items@[2]) is Some { Some((f32::dec(x.items@[0])->0, f32::dec(x.items@[1])->0, f32::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Vec3>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: f32 -> r: f64
    ensures vstd::float::float_cast_spec::<f32, f64>(x, r)
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Vec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_f32::Vec3A {
    type M = (<f32 as Exportable>::M, <f32 as Exportable>::M, <f32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && f32::dec(x.items@[0]) is Some && f32::dec(x.items@[1]) is Some && f32::dec(x.items@[2]) is Some { Some((f32::dec(x.items@[0])->0, f32::dec(x.items@[1])->0, f32::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Vec3A>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: f32 -> r: f64
    ensures vstd::float::float_cast_spec::<f32, f64>(x, r)
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Vec3A>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_f32::Vec4 {
    type M = (<f32 as Exportable>::M, <f32 as Exportable>::M, <f32 as Exportable>::M, <f32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && f32::dec(x.items@[0]) is Some && f32::dec(x.items@[1]) is Some && f32::dec(x.items@[2]) is Some && f32::dec(x.items@[3]) is Some { Some((f32::dec(x.items@[0])->0, f32::dec(x.items@[1])->0, f32::dec(x.items@[2])->0, f32::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Vec4>::to_value | priv mcall=map=>arr_map
//@ closure 0 x: f32 -> r: f64
    ensures vstd::float::float_cast_spec::<f32, f64>(x, r)
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Vec4>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_f32::Quat {
    type M = (<f32 as Exportable>::M, <f32 as Exportable>::M, <f32 as Exportable>::M, <f32 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && f32::dec(x.items@[0]) is Some && f32::dec(x.items@[1]) is Some && f32::dec(x.items@[2]) is Some && f32::dec(x.items@[3]) is Some { Some((f32::dec(x.items@[0])->0, f32::dec(x.items@[1])->0, f32::dec(x.items@[2])->0, f32::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Quat>::to_value | priv
//@ hint entry
    proof { typed32(self.x); typed32(self.y); typed32(self.z); typed32(self.w); }
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Quat>::from_value | priv
//@ end
}
//@ listed off
}
pub mod eg_f64 { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
impl Exportable for g_f64::DVec2 {
    type M = (<f64 as Exportable>::M, <f64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && f64::dec(x.items@[0]) is Some && f64::dec(x.items@[1]) is Some { Some((f64::dec(x.items@[0])->0, f64::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DVec2>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DVec2>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_f64::DVec3 {
    type M = (<f64 as Exportable>::M, <f64 as Exportable>::M, <f64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && f64::dec(x.items@[0]) is Some && f64::dec(x.items@[1]) is Some && f64::dec(x.items@[2]) is Some { Some((f64::dec(x.items@[0])->0, f64::dec(x.items@[1])->0, f64::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DVec3>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DVec3>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_f64::DVec4 {
    type M = (<f64 as Exportable>::M, <f64 as Exportable>::M, <f64 as Exportable>::M, <f64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && f64::dec(x.items@[0]) is Some && f64::dec(x.items@[1]) is Some && f64::dec(x.items@[2]) is Some && f64::dec(x.items@[3]) is Some { Some((f64::dec(x.items@[0])->0, f64::dec(x.items@[1])->0, f64::dec(x.items@[2])->0, f64::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DVec4>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DVec4>::from_value | priv
//@ end
}
//@ listed off
//@ listed on
impl Exportable for g_f64::DQuat {
    type M = (<f64 as Exportable>::M, <f64 as Exportable>::M, <f64 as Exportable>::M, <f64 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x.m(), self.y.m(), self.z.m(), self.w.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && f64::dec(x.items@[0]) is Some && f64::dec(x.items@[1]) is Some && f64::dec(x.items@[2]) is Some && f64::dec(x.items@[3]) is Some { Some((f64::dec(x.items@[0])->0, f64::dec(x.items@[1])->0, f64::dec(x.items@[2])->0, f64::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DQuat>::to_value | priv
//@ hint entry
    proof { typed64(self.x); typed64(self.y); typed64(self.z); typed64(self.w); }
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DQuat>::from_value | priv
//@ end
}
//@ listed off
}
pub mod e_mats { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ listed on
//@ optmap on
impl Exportable for g_f32::Mat2 {
    type M = (<g_f32::Vec2 as Exportable>::M, <g_f32::Vec2 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x_axis.m(), self.y_axis.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && g_f32::Vec2::dec(x.items@[0]) is Some && g_f32::Vec2::dec(x.items@[1]) is Some { Some((g_f32::Vec2::dec(x.items@[0])->0, g_f32::Vec2::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Mat2>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Mat2>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f32::Mat3 {
    type M = (<g_f32::Vec3 as Exportable>::M, <g_f32::Vec3 as Exportable>::M, <g_f32::Vec3 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x_axis.m(), self.y_axis.m(), self.z_axis.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && g_f32::Vec3::dec(x.items@[0]) is Some && g_f32::Vec3::dec(x.items@[1]) is Some && g_f32::Vec3::dec(x.items@[2]) is Some { Some((g_f32::Vec3::dec(x.items@[0])->0, g_f32::Vec3::dec(x.items@[1])->0, g_f32::Vec3::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Mat3>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Mat3>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f32::Mat3A {
    type M = (<g_f32::Vec3A as Exportable>::M, <g_f32::Vec3A as Exportable>::M, <g_f32::Vec3A as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x_axis.m(), self.y_axis.m(), self.z_axis.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && g_f32::Vec3A::dec(x.items@[0]) is Some && g_f32::Vec3A::dec(x.items@[1]) is Some && g_f32::Vec3A::dec(x.items@[2]) is Some { Some((g_f32::Vec3A::dec(x.items@[0])->0, g_f32::Vec3A::dec(x.items@[1])->0, g_f32::Vec3A::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Mat3A>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Mat3A>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f32::Mat4 {
    type M = (<g_f32::Vec4 as Exportable>::M, <g_f32::Vec4 as Exportable>::M, <g_f32::Vec4 as Exportable>::M, <g_f32::Vec4 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x_axis.m(), self.y_axis.m(), self.z_axis.m(), self.w_axis.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && g_f32::Vec4::dec(x.items@[0]) is Some && g_f32::Vec4::dec(x.items@[1]) is Some && g_f32::Vec4::dec(x.items@[2]) is Some && g_f32::Vec4::dec(x.items@[3]) is Some { Some((g_f32::Vec4::dec(x.items@[0])->0, g_f32::Vec4::dec(x.items@[1])->0, g_f32::Vec4::dec(x.items@[2])->0, g_f32::Vec4::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Mat4>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Mat4>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f64::DMat2 {
    type M = (<g_f64::DVec2 as Exportable>::M, <g_f64::DVec2 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x_axis.m(), self.y_axis.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 2 && g_f64::DVec2::dec(x.items@[0]) is Some && g_f64::DVec2::dec(x.items@[1]) is Some { Some((g_f64::DVec2::dec(x.items@[0])->0, g_f64::DVec2::dec(x.items@[1])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DMat2>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DMat2>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f64::DMat3 {
    type M = (<g_f64::DVec3 as Exportable>::M, <g_f64::DVec3 as Exportable>::M, <g_f64::DVec3 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x_axis.m(), self.y_axis.m(), self.z_axis.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 3 && g_f64::DVec3::dec(x.items@[0]) is Some && g_f64::DVec3::dec(x.items@[1]) is Some && g_f64::DVec3::dec(x.items@[2]) is Some { Some((g_f64::DVec3::dec(x.items@[0])->0, g_f64::DVec3::dec(x.items@[1])->0, g_f64::DVec3::dec(x.items@[2])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DMat3>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DMat3>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f64::DMat4 {
    type M = (<g_f64::DVec4 as Exportable>::M, <g_f64::DVec4 as Exportable>::M, <g_f64::DVec4 as Exportable>::M, <g_f64::DVec4 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.x_axis.m(), self.y_axis.m(), self.z_axis.m(), self.w_axis.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::Array(x) => if x.items@.len() == 4 && g_f64::DVec4::dec(x.items@[0]) is Some && g_f64::DVec4::dec(x.items@[1]) is Some && g_f64::DVec4::dec(x.items@[2]) is Some && g_f64::DVec4::dec(x.items@[3]) is Some { Some((g_f64::DVec4::dec(x.items@[0])->0, g_f64::DVec4::dec(x.items@[1])->0, g_f64::DVec4::dec(x.items@[2])->0, g_f64::DVec4::dec(x.items@[3])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DMat4>::to_value | priv
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DMat4>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f32::Affine2 {
    type M = (<g_f32::Mat2 as Exportable>::M, <g_f32::Vec2 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.matrix2.m(), self.translation.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if x@.contains_key("matrix2"@) && x@.contains_key("translation"@) && g_f32::Mat2::dec(x@["matrix2"@]) is Some && g_f32::Vec2::dec(x@["translation"@]) is Some { Some((g_f32::Mat2::dec(x@["matrix2"@])->0, g_f32::Vec2::dec(x@["translation"@])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Affine2>::to_value | priv mcall=into=>to_toml
//@ hint entry
    proof { reveal_strlit("matrix2"); reveal_strlit("translation"); assert("matrix2"@.len() != "translation"@.len()); }
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Affine2>::from_value | priv mcall=into=>widen_into
//@ hint entry
    proof { reveal_strlit("matrix2"); reveal_strlit("translation"); assert("matrix2"@.len() != "translation"@.len()); }
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f32::Affine3A {
    type M = (<g_f32::Mat3A as Exportable>::M, <g_f32::Vec3A as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.matrix3.m(), self.translation.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if x@.contains_key("matrix3"@) && x@.contains_key("translation"@) && g_f32::Mat3A::dec(x@["matrix3"@]) is Some && g_f32::Vec3A::dec(x@["translation"@]) is Some { Some((g_f32::Mat3A::dec(x@["matrix3"@])->0, g_f32::Vec3A::dec(x@["translation"@])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Affine3A>::to_value | priv mcall=into=>to_toml
//@ hint entry
    proof { reveal_strlit("matrix3"); reveal_strlit("translation"); assert("matrix3"@.len() != "translation"@.len()); }
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f32::Affine3A>::from_value | priv mcall=into=>widen_into
//@ hint entry
    proof { reveal_strlit("matrix3"); reveal_strlit("translation"); assert("matrix3"@.len() != "translation"@.len()); }
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f64::DAffine2 {
    type M = (<g_f64::DMat2 as Exportable>::M, <g_f64::DVec2 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.matrix2.m(), self.translation.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if x@.contains_key("matrix2"@) && x@.contains_key("translation"@) && g_f64::DMat2::dec(x@["matrix2"@]) is Some && g_f64::DVec2::dec(x@["translation"@]) is Some { Some((g_f64::DMat2::dec(x@["matrix2"@])->0, g_f64::DVec2::dec(x@["translation"@])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DAffine2>::to_value | priv mcall=into=>to_toml
//@ hint entry
    proof { reveal_strlit("matrix2"); reveal_strlit("translation"); assert("matrix2"@.len() != "translation"@.len()); }
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DAffine2>::from_value | priv mcall=into=>widen_into
//@ hint entry
    proof { reveal_strlit("matrix2"); reveal_strlit("translation"); assert("matrix2"@.len() != "translation"@.len()); }
//@ end
}
//@ listed off
//@ optmap off
//@ listed on
//@ optmap on
impl Exportable for g_f64::DAffine3 {
    type M = (<g_f64::DMat3 as Exportable>::M, <g_f64::DVec3 as Exportable>::M);
    open spec fn m(&self) -> Self::M { (self.matrix3.m(), self.translation.m()) }
    open spec fn dec(v: Value) -> Option<Self::M> { match v { Value::InlineTable(x) => if x@.contains_key("matrix3"@) && x@.contains_key("translation"@) && g_f64::DMat3::dec(x@["matrix3"@]) is Some && g_f64::DVec3::dec(x@["translation"@]) is Some { Some((g_f64::DMat3::dec(x@["matrix3"@])->0, g_f64::DVec3::dec(x@["translation"@])->0)) } else { None }, _ => None } }
    open spec fn fits(&self) -> bool { true }
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DAffine3>::to_value | priv mcall=into=>to_toml
//@ hint entry
    proof { reveal_strlit("matrix3"); reveal_strlit("translation"); assert("matrix3"@.len() != "translation"@.len()); }
//@ end
//@ fn traits/glam_exportables.rs <Exportable for g_f64::DAffine3>::from_value | priv mcall=into=>widen_into
//@ hint entry
    proof { reveal_strlit("matrix3"); reveal_strlit("translation"); assert("matrix3"@.len() != "translation"@.len()); }
//@ end
}
//@ listed off
//@ optmap off
}
//@ type structs/node_field.rs ExportableField
impl<T: Exportable> ExportableField<T> {
//@ fn structs/node_field.rs ExportableField::new
    ensures ret.0 == item,
//@ end
}
//@ listed on
//@ optmap on
impl<T: Exportable> Exportable for ExportableField<T> {
    type M = T::M;
    open spec fn m(&self) -> Self::M { self.0.m() }
    open spec fn dec(v: Value) -> Option<Self::M> { T::dec(v) }
    open spec fn fits(&self) -> bool { self.0.fits() }
//@ fn structs/node_field.rs <Exportable for ExportableField<T>>::to_value | priv
//@ end
//@ fn structs/node_field.rs <Exportable for ExportableField<T>>::from_value | priv
//@ end
}
//@ listed off
//@ optmap off
} // verus!
fn main() {}
