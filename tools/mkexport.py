"""Writes contracts/export.vc: the encoders and decoders of exportable values, one contract for all of
them (trait Exportable), one model type and one decoding function per exportable type."""
out = []
def w(s): out.append(s)
EX, GL = 'traits/exportable.rs', 'traits/glam_exportables.rs'
w('''//@ include prelude.vc
//@ include pathfns.vc
//@ include toml.vc
//@ broadcast ax_toml::group_toml
use std::ops::Deref;
use toml as toml_edit;
/// Encoding and decoding: what a value is (m), what an encoded value means (dec), which values there are (fits).
pub trait Exportable: Sized {
    type M;
    spec fn m(&self) -> Self::M;
    spec fn dec(v: Value) -> Option<Self::M>;
    spec fn fits(&self) -> bool;
    fn to_value(&self) -> (ret: Value)
        requires self.fits(),
        ensures Self::dec(ret) == Some(self.m()); // [C14]
    fn from_value(value: Value) -> (ret: Option<Self>)
        ensures
            ret is Some == Self::dec(value) is Some, // [C14]
            ret matches Some(x) ==> Self::dec(value) == Some(x.m()); // [C14]
}
/// [C14] The round trip on the code itself.
pub fn decode_encoded<T: Exportable>(x: &T) -> (ret: Option<T>)
    requires x.fits(),
    ensures ret matches Some(y) && y.m() == x.m(),
{ T::from_value(x.to_value()) }
pub open spec fn all_dec<T: Exportable>(s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> T::dec(#[trigger] s[i]) is Some }
pub open spec fn seq_dec<T: Exportable>(s: Seq<Value>) -> Seq<T::M> { Seq::new(s.len(), |i: int| T::dec(s[i])->0) }
pub open spec fn m_of<T: Exportable>() -> spec_fn(T) -> T::M { |x: T| x.m() }
''')
def imp(gen, ty, M, m, dec, fits, f, key, enc='', encopt='', decb='', decopt='', where='', pre='', on='listed optmap'):
    for x in on.split(): w(f'//@ {x} on')
    w(f'{pre}impl{gen} Exportable for {ty} {where}{{')
    w(f'    type M = {M};')
    w(f'    open spec fn m(&self) -> Self::M {{ {m} }}')
    w(f'    open spec fn dec(v: Value) -> Option<Self::M> {{ {dec} }}')
    w(f'    open spec fn fits(&self) -> bool {{ {fits} }}')
    for n, b, o in (('to_value', enc, encopt), ('from_value', decb, decopt)):
        w(f'//@ fn {f} <Exportable for {key or ty}>::{n} | priv {o}'.rstrip())
        if b: w(b.rstrip())
        w('//@ end')
    w('}')
    for x in on.split(): w(f'//@ {x} off')
def kind(k, e, M='x.value'): return f'match v {{ Value::{k}(x) => {e}, _ => None }}'

INTO = 'mcall=into=>to_toml'
nmod = [0]
def module():
    if nmod[0]: w('}')
    nmod[0] += 1
    w(f'pub mod ex{nmod[0]} {{ use super::*; broadcast use {{vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml}};')
module()
w('//@ subst *mut dyn Never => Never')
imp('', 'bool', 'bool', '*self', kind('Boolean', 'Some(x.value)'), 'true', EX, '', encopt=INTO)
INT = {'u8': '0 <= x.value <= 255', 'u16': '0 <= x.value <= 65535', 'u32': '0 <= x.value <= 0xffff_ffff', 'i8': '-128 <= x.value <= 127', 'i16': '-32768 <= x.value <= 32767', 'i32': '-0x8000_0000 <= x.value <= 0x7fff_ffff'}
for t, r in INT.items(): imp('', t, t, '*self', kind('Integer', f'if {r} {{ Some(x.value as {t}) }} else {{ None }}'), 'true', EX, '', encopt=INTO)
imp('', 'u64', 'u64', '*self', kind('Integer', 'Some(x.value as u64)'), 'true', EX, '', encopt=INTO)
imp('', 'i64', 'i64', '*self', kind('Integer', 'Some(x.value)'), 'true', EX, '', encopt=INTO)
w('/// A float up to the payload of NaNs.')
w('pub open spec fn num32(x: f32) -> Option<f32> { if nan32(x) { None } else { Some(x) } }')
w('pub open spec fn narrowed(x: f64) -> Option<f32> { if nan64(x) { None } else { Some(narrow(x)) } }')
imp('', 'f32', 'Option<f32>', 'num32(*self)', kind('Float', 'Some(narrowed(x.value))'), 'true', EX, '', encopt=INTO)
imp('', 'f64', 'f64', '*self', kind('Float', 'Some(x.value)'), 'true', EX, '', encopt=INTO)
imp('', 'char', 'char', '*self', kind('String', 'if x.value@.len() == 1 { Some(x.value@[0]) } else { None }'), 'true', EX, '', encopt=INTO)
imp('', 'String', 'Seq<char>', 'self@', kind('String', 'Some(x.value@)'), 'true', EX, '', encopt=INTO)
w('''impl Clone for NodePath { #[verifier::external_body] fn clone(&self) -> (ret: Self) ensures ret.segs() == self.segs(), ret.abs == self.abs, { unimplemented!() } }''')
imp('', 'NodePath', '(Seq<SegView>, bool)', '(self.segs(), self.abs)', kind('String', 'Some((parsed(x.value@), absolute(x.value@)))'), 'forall|i: int| 0 <= i < self.segs().len() ==> plain_seg(#[trigger] self.segs()[i])', EX, '', enc='//@ hint entry\n    proof { theorem_round_trip(self.segs(), self.abs); }')
imp('', 'path::PathBuf', 'Seq<char>', 'self.unicode()->0', kind('String', 'Some(x.value@)'), 'self.unicode() is Some', EX, '')
for t in ('Ipv4Addr', 'Ipv6Addr', 'IpAddr'): imp('', f'net::{t}', f'net::{t}', '*self', kind('String', f'net::{t}::parse(x.value@)'), 'true', EX, '')
imp('', 'time::Duration', 'time::Duration', '*self', kind('Float', 'time::Duration::of(x.value)'), 'time::Duration::of(self.secs()) == Some(*self)', EX, '')
imp('', 'toml::Datetime', 'toml::Datetime', '*self', kind('Datetime', 'Some(x.value)'), 'true', EX, '')

# Options
module()
imp('<T: Exportable>', 'Option<T>', 'Option<T::M>', 'match self { Some(x) => Some(x.m()), None => None }',
    kind('InlineTable', 'if x@.contains_key("value"@) { match T::dec(x@["value"@]) { Some(m) => Some(Some(m)), None => None } } else { Some(None) }'),
    '*self matches Some(x) ==> x.fits()', EX, '', encopt=INTO, enc='//@ hint before to_toml 0\n' if False else '//@ hint entry\n    proof { reveal_with_fuel(toml::table_of, 3); }')

# Lists
REF = 'forall|i: int| 0 <= i < {n} ==> T::dec(#[trigger] o0@[i]) == Some({e}.m()),'
AFTER = '''//@ hint afterloop 0
    proof { %s }
'''
def enc_list(src, elem, opt='', body=''):
    e = 's0@[i]' 
    return f'''//@ loop 0 src={src} elem=s0[i0] {opt}
    invariant AUTO
        OUT.len() == k0, forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] OUT[i]) == Some(s0@[i].m()),
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).fits(),
'''.replace('OUT', 'o0.items@' if 'Array' in opt else 'o0@') + body
DECL = '''//@ loop 0 src=listed_into_iter owned out=Option<%s>
    invariant AUTO
        %s
        ok0 ==> forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) is Some,
        !ok0 ==> exists|i: int| 0 <= i < k0 && T::dec(#[trigger] g0[i]) is None,
'''
imp('<T: Exportable>', 'Vec<T>', 'Seq<T::M>', 'self@.map_values(m_of())', kind('Array', 'if all_dec::<T>(x.items@) { Some(seq_dec::<T>(x.items@)) } else { None }'),
    'forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fits()', EX, '', encopt=INTO,
    enc='//@ loop 0 src=list_vec elem=ref\n' + enc_list('', '').split('\n', 1)[1] + AFTER % 'assert(seq_dec::<T>(o0@) =~= self@.map_values(m_of())); assert(Seq::new(o0@.len(), |i: int| o0@[i].val()) =~= o0@);',
    decb=DECL % ('Vec<T>', 'ok0 ==> o0@.len() == k0 && forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) == Some(o0@[i].m()),') + AFTER % 'if ok0 { assert(seq_dec::<T>(g0) =~= o0@.map_values(m_of())); }')
imp('<const N: usize, T: Exportable>', '[T; N]', 'Seq<T::M>', 'self@.map_values(m_of())', kind('Array', 'if x.items@.len() == N && all_dec::<T>(x.items@) { Some(seq_dec::<T>(x.items@)) } else { None }'),
    'forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fits()', EX, '[T;N]',
    enc=enc_list('list_arr', '', 'out=Array') + AFTER % 'assert(seq_dec::<T>(o0.items@) =~= self@.map_values(m_of()));',
    decopt='mcall=try_into=>arr_of',
    decb=DECL % ('Vec<T>', 'ok0 ==> o0@.len() == k0 && forall|i: int| 0 <= i < k0 ==> T::dec(#[trigger] g0[i]) == Some(o0@[i].m()),') + AFTER % 'if ok0 { assert(seq_dec::<T>(g0) =~= o0@.map_values(m_of())); }')

# Sets and maps: the standard collections as mathematical ones (Eq, Hash and Ord of the keys being lawful).
w('''proof fn lemma_set_push<T: Exportable>(o: Set<T>, x: T, s: Seq<T::M>)
    requires o.map(m_of::<T>()) == s.to_set(),
    ensures o.insert(x).map(m_of::<T>()) == s.push(x.m()).to_set(),
{
    let f = m_of::<T>(); let (a, b) = (o.insert(x).map(f), s.push(x.m()).to_set());
    assert forall|y: T::M| a.contains(y) implies b.contains(y) by { let z = choose|z: T| o.insert(x).contains(z) && y == f(z); if z == x { assert(s.push(x.m())[s.len() as int] == y); } else { assert(o.map(f).contains(y)); assert(s.to_set().contains(y)); let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x.m())[i] == y); } }
    assert forall|y: T::M| b.contains(y) implies a.contains(y) by { let i = choose|i: int| 0 <= i < s.push(x.m()).len() && s.push(x.m())[i] == y; if i == s.len() { assert(o.insert(x).contains(x) && f(x) == y); } else { assert(s[i] == y); assert(s.to_set().contains(y)); assert(o.map(f).contains(y)); let z = choose|z: T| o.contains(z) && y == f(z); assert(o.insert(x).contains(z)); } }
    assert(a =~= b);
}
pub proof fn lemma_set_all<T: Exportable>(l: Seq<&T>, o: Set<T>, s: Seq<T::M>)
    requires l.len() == s.len(), forall|i: int| 0 <= i < l.len() ==> o.contains(*#[trigger] l[i]) && s[i] == l[i].m(), forall|x: T| #[trigger] o.contains(x) ==> exists|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == x,
    ensures s.to_set() == o.map(m_of::<T>()),
{
    let f = m_of::<T>(); let (a, b) = (s.to_set(), o.map(f));
    assert forall|y: T::M| a.contains(y) implies b.contains(y) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(o.contains(*l[i])); assert(f(*l[i]) == y); }
    assert forall|y: T::M| b.contains(y) implies a.contains(y) by { let z = choose|z: T| o.contains(z) && y == f(z); let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == z; assert(s[i] == y); }
    assert(a =~= b);
}''')
for std, name, bound in (('HashSet', 'HashSetOf', 'std::hash::Hash + std::cmp::Eq'), ('BTreeSet', 'BTreeSetOf', 'std::cmp::Ord')):
    w(f'''#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct {name}<T> {{ p: std::collections::HashSet<T> }}
impl<T> {name}<T> {{
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Set::<T>::empty(), {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (ret: bool) ensures final(self)@ == old(self)@.insert(x), ret == !old(self)@.contains(x), {{ unimplemented!() }}
}}
#[verifier::external_body]
pub fn list_{name}<T>(s: &{name}<T>) -> (ret: Vec<&T>) ensures forall|i: int| 0 <= i < ret@.len() ==> s@.contains(*#[trigger] ret@[i]), forall|x: T| #[trigger] s@.contains(x) ==> exists|i: int| 0 <= i < ret@.len() && *(#[trigger] ret@[i]) == x, forall|i: int, j: int| 0 <= i < j < ret@.len() ==> *(#[trigger] ret@[i]) != *(#[trigger] ret@[j]), {{ unimplemented!() }}
//@ subst {std}<T> => {name}<T>''')
    imp(f'<T: Exportable + {bound}>', f'{name}<T>', 'Set<T::M>', 'self@.map(m_of())', kind('Array', 'if all_dec::<T>(x.items@) { Some(seq_dec::<T>(x.items@).to_set()) } else { None }'),
        'forall|x: T| #[trigger] self@.contains(x) ==> x.fits()', EX, f'{std}<T>',
        enc=enc_list(f'list_{name}', '') + AFTER % 'lemma_set_all(s0@, self@, seq_dec::<T>(o0@)); assert(Seq::new(o0@.len(), |i: int| o0@[i].val()) =~= o0@);',
        decb=DECL % (f'{name}<T>', 'ok0 ==> o0@.map(m_of::<T>()) == seq_dec::<T>(g0.take(k0 as int)).to_set(),')
        + '//@ hint beforeloop 0\n    proof { assert(o0@.map(m_of::<T>()) =~= Set::empty()); assert(seq_dec::<T>(g0.take(0)).to_set() =~= Set::empty()); }\n'
        + '//@ hint loopstart 0\n    let ghost before = o0@;\n'
        + '//@ hint loopend 0\n    proof { if ok0 { let x = choose|x: T| o0@ == before.insert(x) && T::dec(g0[k0 - 1]) == Some(x.m()); lemma_set_push(before, x, seq_dec::<T>(g0.take(k0 - 1))); assert(seq_dec::<T>(g0.take(k0 as int)) =~= seq_dec::<T>(g0.take(k0 - 1)).push(x.m())); } }\n'
        + AFTER % 'assert(g0.take(g0.len() as int) =~= g0);')
module()
w('''pub open spec fn table_in(v: Value) -> Map<Seq<char>, Value> { match v { Value::InlineTable(x) => x@, _ => Map::empty() } }
pub open spec fn char_keys<V>(m: Map<Seq<char>, V>) -> Set<char> { m.dom().map(|k: Seq<char>| k[0]) }
pub proof fn lemma_char_keys<V>(m: Map<Seq<char>, V>)
    requires forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> k.len() == 1,
    ensures forall|c: char| #[trigger] char_keys(m).contains(c) <==> m.contains_key(seq![c]),
{
    assert forall|c: char| #[trigger] char_keys(m).contains(c) <==> m.contains_key(seq![c]) by {
        if m.contains_key(seq![c]) { assert(m.dom().contains(seq![c]) && seq![c][0] == c); }
        if char_keys(m).contains(c) { let k = choose|k: Seq<char>| m.dom().contains(k) && c == k[0]; assert(m.contains_key(k)); assert(k =~= seq![c]); }
    }
}''')
for std, name, ck in (('HashMap', 'HashMapOf', 'std::hash::Hash + std::cmp::Eq'), ('BTreeMap', 'BTreeMapOf', 'std::cmp::Ord')):
    for K, k in (('char', 'C'), ('String', 'S')):
        n = name + k; KV = 'char' if K == 'char' else 'Seq<char>'; kv = (lambda e: f'*{e}') if K == 'char' else (lambda e: f'{e}@')
        own = (lambda e: e) if K == 'char' else (lambda e: f'{e}@')
        w(f'''#[verifier::external_body] #[verifier::reject_recursive_types(V)]
pub struct {n}<V> {{ p: std::collections::HashMap<{K}, V> }}
impl<V> {n}<V> {{
    pub uninterp spec fn view(&self) -> Map<{KV}, V>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<{KV}, V>::empty(), {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn insert(&mut self, k: {K}, x: V) -> (ret: Option<V>) ensures final(self)@ == old(self)@.insert({own('k')}, x), {{ unimplemented!() }}
}}
#[verifier::external_body]
pub fn list_{n}<V>(s: &{n}<V>) -> (ret: Vec<(&{K}, &V)>)
    ensures
        forall|i: int| 0 <= i < ret@.len() ==> s@.contains_key({kv('(#[trigger] ret@[i]).0')}) && s@[{kv('ret@[i].0')}] == *ret@[i].1,
        forall|i: int, j: int| 0 <= i < j < ret@.len() ==> {kv('(#[trigger] ret@[i]).0')} != {kv('(#[trigger] ret@[j]).0')},
        forall|k: {KV}| #[trigger] s@.contains_key(k) ==> exists|i: int| 0 <= i < ret@.len() && {kv('(#[trigger] ret@[i]).0')} == k,
{{ unimplemented!() }}
//@ subst {std}<{K},V> => {n}<V>''')
        dm = (lambda m: f'char_keys({m})') if K == 'char' else (lambda m: f'{m}.dom()')
        lem = (lambda m: f'lemma_char_keys({m});') if K == 'char' else (lambda m: '')
        key = 'seq![k]' if K == 'char' else 'k'
        dom = 'forall|k: Seq<char>| #[trigger] x@.contains_key(k) ==> V::dec(x@[k]) is Some' + (' && k.len() == 1' if K == 'char' else '')
        tk = f'seq![{kv("s0@[i].0")}]' if K == 'char' else kv('s0@[i].0')
        le_hint = '''//@ hint loopend 0
    proof { assert forall|i: int| 0 <= i < k0 - 1 implies seq![*(#[trigger] s0@[i]).0] != seq![*s0@[k0 - 1].0] by { assert(*s0@[i].0 != *s0@[k0 - 1].0); assert(seq![*s0@[i].0][0] == *s0@[i].0); assert(seq![*s0@[k0 - 1].0][0] == *s0@[k0 - 1].0); } }
'''
        ld_hint = '''//@ hint loopend 0
    proof { if ok0 { assert(g0[k0 - 1].0@ =~= seq![g0[k0 - 1].0@[0]]); assert forall|i: int| 0 <= i < k0 - 1 implies (#[trigger] g0[i]).0@[0] != g0[k0 - 1].0@[0] by { assert(g0[i].0@ =~= seq![g0[i].0@[0]]); } } }
'''
        imp('<V: Exportable>', f'{n}<V>', f'Map<{KV}, V::M>', f'self@.map_values(m_of())',
            kind('InlineTable', f'if {dom} {{ Some(Map::new({dm('x@')}, |k: {KV}| V::dec(x@[{key}])->0)) }} else {{ None }}'),
            f'forall|k: {KV}| #[trigger] self@.contains_key(k) ==> self@[k].fits()', EX, f'{std}<{K},V>', encopt=INTO,
            enc=f'''//@ loop 0 src=list_{n} elem=s0[i0] out=InlineTable
    invariant AUTO
        forall|i: int| 0 <= i < k0 ==> o0@.contains_key({tk.replace('s0@[i]', '(#[trigger] s0@[i])')}) && V::dec(o0@[{tk}]) == Some(s0@[i].1.m()),
        forall|k: Seq<char>| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && {tk.replace('s0@[i]', '(#[trigger] s0@[i])')} == k,
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).1.fits(),
        forall|i: int, j: int| 0 <= i < j < s0@.len() ==> {kv('(#[trigger] s0@[i]).0')} != {kv('(#[trigger] s0@[j]).0')},
{le_hint if K == 'char' else ''}//@ hint afterloop 0
    proof {{ {lem('o0@')} let want = self@.map_values(m_of()); let got = Map::new({dm('o0@')}, |k: {KV}| V::dec(o0@[{key}])->0);
        assert forall|k: {KV}| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by {{ let i = choose|i: int| 0 <= i < s0@.len() && {kv('(#[trigger] s0@[i]).0')} == k; }}
        assert forall|k: {KV}| got.contains_key(k) implies want.contains_key(k) by {{ let i = choose|i: int| 0 <= i < s0@.len() && {tk.replace('s0@[i]', '(#[trigger] s0@[i])')} == {key}; {'assert(seq![' + kv('s0@[i].0') + '][0] == seq![k][0]);' if K == 'char' else ''} }}
        assert(want =~= got); }}
''',
            decb=f'''//@ loop 0 src=list_table owned out=Option<{n}<V>>
    invariant AUTO
        ok0 ==> forall|i: int| 0 <= i < k0 ==> {'(#[trigger] g0[i]).0@.len() == 1 && ' if K == 'char' else ''}o0@.contains_key({'g0[i].0@[0]' if K == 'char' else '(#[trigger] g0[i]).0@'}) && V::dec(g0[i].1) == Some(o0@[{'g0[i].0@[0]' if K == 'char' else 'g0[i].0@'}].m()),
        ok0 ==> forall|k: {KV}| #[trigger] o0@.contains_key(k) ==> exists|i: int| 0 <= i < k0 && (#[trigger] g0[i]).0@ == {key},
        !ok0 ==> exists|i: int| 0 <= i < k0 && ({'(#[trigger] g0[i]).0@.len() != 1 || V::dec(g0[i].1) is None' if K == 'char' else 'V::dec((#[trigger] g0[i]).1) is None'}),
        entries_of(g0, table0),
//@ hint entry
    let ghost table0 = table_in(value);
{ld_hint if K == 'char' else ''}//@ hint afterloop 0
    proof {{ if ok0 {{ {lem('table0')} let want = o0@.map_values(m_of()); let got = Map::new({dm('table0')}, |k: {KV}| V::dec(table0[{key}])->0);
        assert forall|k: {KV}| want.contains_key(k) implies got.contains_key(k) && got[k] == want[k] by {{ let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == {key}; {'assert(seq![k][0] == k);' if K == 'char' else ''} }}
        assert forall|k: {KV}| got.contains_key(k) implies want.contains_key(k) by {{ let i = choose|i: int| 0 <= i < g0.len() && (#[trigger] g0[i]).0@ == {key}; }}
        assert(want =~= got); }} }}
''')

# Pointers
module()
for ty, key in (('Box<T>', 'Box<T>'), ('std::rc::Rc<T>', 'std::rc::Rc<T>'), ('std::sync::Arc<T>', 'std::sync::Arc<T>')):
    imp('<T: Exportable>', ty, 'T::M', '(**self).m()', 'T::dec(v)', '(**self).fits()', EX, key, encopt='mcall=deref=>point')
w('//@ subst std::sync::Mutex<T> => Mutex<T>\n//@ subst std::sync::Mutex => Mutex')
imp('<T: Exportable>', 'Mutex<T>', 'T::M', 'self@.m()', 'T::dec(v)', 'self@.fits()', EX, 'std::sync::Mutex<T>')

# Tuples
module()
L = 'ABCDEFGHIJ'
for n in range(1, 11):
    p = L[:n]; g = ', '.join(f'{c}: Exportable' for c in p); ty = '(' + ', '.join(p) + (',)' if n == 1 else ')')
    M = '(' + ', '.join(f'{c}::M' for c in p) + (',)' if n == 1 else ')')
    m = '(' + ', '.join(f'self.{i}.m()' for i in range(n)) + (',)' if n == 1 else ')')
    cond = ' && '.join([f'x.items@.len() == {n}'] + [f'{c}::dec(x.items@[{i}]) is Some' for i, c in enumerate(p)])
    val = '(' + ', '.join(f'{c}::dec(x.items@[{i}])->0' for i, c in enumerate(p)) + (',)' if n == 1 else ')')
    imp(f'<{g}>', ty, M, m, kind('Array', f'if {cond} {{ Some({val}) }} else {{ None }}'), ' && '.join(f'self.{i}.fits()' for i in range(n)), EX, ty.replace(' ', ''))

# glam
w('}')
AX = ['x', 'y', 'z', 'w']
mods = {}
def vec(mod, name, n, t, ctor, fields=True, arr=True):
    fs = AX[:n]
    s = f'#[derive(Clone, Copy)]\npub struct {name} {{ ' + ', '.join(f'pub {f}: {t}' for f in fs) + ' }\n'
    s += f'pub fn {ctor}(' + ', '.join(f'{f}: {t}' for f in fs) + f') -> (ret: {name}) ensures ' + ', '.join(f'ret.{f} == {f}' for f in fs) + f', {{ {name} {{ {", ".join(fs)} }} }}\n'
    arr = f'ret@.len() == {n}, ' + ', '.join(f'ret@[{i}] == self.{f}' for i, f in enumerate(fs))
    s += f'impl {name} {{ #[verifier::external_body] pub fn to_array(&self) -> (ret: [{t}; {n}]) ensures {arr}, {{ [{", ".join("self." + f for f in fs)}] }} }}\n'
    mods.setdefault(mod, []).append(s)
def mat(mod, name, col, n, ctor):
    fs = [a + '_axis' for a in AX[:n]]
    s = f'#[derive(Clone, Copy)]\npub struct {name} {{ ' + ', '.join(f'pub {f}: {col}' for f in fs) + ' }\n'
    s += f'pub fn {ctor}(' + ', '.join(f'{f}: {col}' for f in fs) + f') -> (ret: {name}) ensures ' + ', '.join(f'ret.{f} == {f}' for f in fs) + f', {{ {name} {{ {", ".join(fs)} }} }}\n'
    mods.setdefault(mod, []).append(s)
INTS = [('u8', 'U8Vec', 'u8vec'), ('u16', 'U16Vec', 'u16vec'), ('u32', 'UVec', 'uvec'), ('u64', 'U64Vec', 'u64vec'), ('i8', 'I8Vec', 'i8vec'), ('i16', 'I16Vec', 'i16vec'), ('i32', 'IVec', 'ivec'), ('i64', 'I64Vec', 'i64vec')]
VECS = [('g_bool', f'BVec{n}', n, 'bool', f'bvec{n}') for n in (2, 3, 4)]
for t, N, c in INTS: VECS += [('g_' + t, f'{N}{n}', n, t, f'{c}{n}') for n in (2, 3, 4)]
VECS += [('g_f32', 'Vec2', 2, 'f32', 'vec2'), ('g_f32', 'Vec3', 3, 'f32', 'vec3'), ('g_f32', 'Vec3A', 3, 'f32', 'vec3a'), ('g_f32', 'Vec4', 4, 'f32', 'vec4'), ('g_f32', 'Quat', 4, 'f32', 'quat')]
VECS += [('g_f64', f'DVec{n}', n, 'f64', f'dvec{n}') for n in (2, 3, 4)] + [('g_f64', 'DQuat', 4, 'f64', 'dquat')]
MATS = [('g_f32', 'Mat2', 'Vec2', 2, 'mat2'), ('g_f32', 'Mat3', 'Vec3', 3, 'mat3'), ('g_f32', 'Mat3A', 'Vec3A', 3, 'mat3a'), ('g_f32', 'Mat4', 'Vec4', 4, 'mat4'), ('g_f64', 'DMat2', 'DVec2', 2, 'dmat2'), ('g_f64', 'DMat3', 'DVec3', 3, 'dmat3'), ('g_f64', 'DMat4', 'DVec4', 4, 'dmat4')]
AFF = [('g_f32', 'Affine2', 'matrix2', 'Mat2', 'Vec2', 'Mat2', 'Vec2'), ('g_f32', 'Affine3A', 'matrix3', 'Mat3A', 'Vec3A', 'Mat3', 'Vec3'), ('g_f64', 'DAffine2', 'matrix2', 'DMat2', 'DVec2', 'DMat2', 'DVec2'), ('g_f64', 'DAffine3', 'matrix3', 'DMat3', 'DVec3', 'DMat3', 'DVec3')]
for v in VECS: vec(*v)
for v in MATS: mat(*v)
mods['g_f32'].append('''impl Mat3A { pub fn to_mat3(self) -> (ret: Mat3) ensures ret.m3() == self.m3(), { Mat3 { x_axis: self.x_axis.to_vec3(), y_axis: self.y_axis.to_vec3(), z_axis: self.z_axis.to_vec3() } }
    pub open spec fn m3(self) -> (Vec3, Vec3, Vec3) { (self.x_axis.v3(), self.y_axis.v3(), self.z_axis.v3()) } }
impl Mat3 { pub open spec fn m3(self) -> (Vec3, Vec3, Vec3) { (self.x_axis, self.y_axis, self.z_axis) } }
impl Vec3A { pub fn to_vec3(self) -> (ret: Vec3) ensures ret == self.v3(), { Vec3 { x: self.x, y: self.y, z: self.z } }
    pub open spec fn v3(self) -> Vec3 { Vec3 { x: self.x, y: self.y, z: self.z } } }
pub trait Widen: Sized { type O; spec fn wide(self) -> Self::O; fn widened(self) -> (ret: Self::O) ensures ret == self.wide(); }
impl Widen for Mat3A { type O = Mat3; open spec fn wide(self) -> Mat3 { Mat3 { x_axis: self.x_axis.v3(), y_axis: self.y_axis.v3(), z_axis: self.z_axis.v3() } } fn widened(self) -> (ret: Mat3) { Mat3 { x_axis: self.x_axis.to_vec3(), y_axis: self.y_axis.to_vec3(), z_axis: self.z_axis.to_vec3() } } }
impl Widen for Vec3A { type O = Vec3; open spec fn wide(self) -> Vec3 { self.v3() } fn widened(self) -> (ret: Vec3) { self.to_vec3() } }
''')
for mod, name, mf, M, V, AM, AV in AFF:
    ctor = 'from_mat2_translation' if mf == 'matrix2' else 'from_mat3_translation'
    if name == 'Affine3A':
        c = f'''pub fn {ctor}(m: Mat3, t: Vec3) -> (ret: {name}) ensures ret.{mf}.m3() == m.m3(), ret.translation.v3() == t, {{ {name} {{ {mf}: Mat3A {{ x_axis: Vec3A {{ x: m.x_axis.x, y: m.x_axis.y, z: m.x_axis.z }}, y_axis: Vec3A {{ x: m.y_axis.x, y: m.y_axis.y, z: m.y_axis.z }}, z_axis: Vec3A {{ x: m.z_axis.x, y: m.z_axis.y, z: m.z_axis.z }} }}, translation: Vec3A {{ x: t.x, y: t.y, z: t.z }} }} }}'''
    else: c = f'pub fn {ctor}(m: {AM}, t: {AV}) -> (ret: {name}) ensures ret.{mf} == m, ret.translation == t, {{ {name} {{ {mf}: m, translation: t }} }}'
    mods[mod].append(f'#[derive(Clone, Copy)]\npub struct {name} {{ pub {mf}: {M}, pub translation: {V} }}\nimpl {name} {{ {c} }}\n')
for m, ss in mods.items():
    w(f'pub mod {m} {{\nuse vstd::prelude::*;'); out.extend(s.rstrip() for s in ss); w('}')
w('pub proof fn typed64(x: f64) -> (r: f64) ensures r == x { x }\npub proof fn typed32(x: f32) -> (r: f32) ensures r == x { x }')
w('pub fn widen_into<A: g_f32::Widen>(a: A) -> (ret: A::O) ensures ret == a.wide(), { a.widened() }')
last = ''
for mod, name, n, t, c in VECS:
    if mod != last: w('}' if last else ''); w(f'pub mod e{mod} {{ use super::*; broadcast use {{vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml}};'); last = mod
    fs = AX[:n]; q = f'{mod}::{name}'
    cond = ' && '.join([f'x.items@.len() == {n}'] + [f'{t}::dec(x.items@[{i}]) is Some' for i in range(n)])
    wide = {'f32': 'f64', 'f64': None, 'bool': None}.get(t, 'i64')
    clos = ''
    eo = ''
    if name not in ('Quat', 'DQuat') and wide:
        eo = 'mcall=map=>arr_map'
        clos = f'//@ closure 0 x: {t} -> r: {wide}\n    ensures ' + (f'vstd::float::float_cast_spec::<f32, f64>(x, r)' if t == 'f32' else f'r == x as i64') 
    if name in ('Quat', 'DQuat'): clos = '//@ hint entry\n    proof { ' + ' '.join(f'typed{t[1:]}(self.{f});' for f in fs) + ' }'
    imp('', q, '(' + ', '.join([f'<{t} as Exportable>::M'] * n) + ')', '(' + ', '.join(f'self.{f}.m()' for f in fs) + ')',
        kind('Array', f'if {cond} {{ Some((' + ', '.join(f'{t}::dec(x.items@[{i}])->0' for i in range(n)) + ')) } else { None }'), 'true', GL, q, enc=clos, encopt=eo, on='listed')
w('}\npub mod e_mats { use super::*; broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};')
for mod, name, col, n, c in MATS:
    fs = [a + '_axis' for a in AX[:n]]; q = f'{mod}::{name}'; C = f'{mod}::{col}'
    cond = ' && '.join([f'x.items@.len() == {n}'] + [f'{C}::dec(x.items@[{i}]) is Some' for i in range(n)])
    imp('', q, '(' + ', '.join([f'<{C} as Exportable>::M'] * n) + ')', '(' + ', '.join(f'self.{f}.m()' for f in fs) + ')',
        kind('Array', f'if {cond} {{ Some((' + ', '.join(f'{C}::dec(x.items@[{i}])->0' for i in range(n)) + ')) } else { None }'), 'true', GL, q)
for mod, name, mf, M, V, AM, AV in AFF:
    q = f'{mod}::{name}'; A, B = f'{mod}::{M}', f'{mod}::{V}'
    cond = f'x@.contains_key("{mf}"@) && x@.contains_key("translation"@) && {A}::dec(x@["{mf}"@]) is Some && {B}::dec(x@["translation"@]) is Some'
    imp('', q, f'(<{A} as Exportable>::M, <{B} as Exportable>::M)', f'(self.{mf}.m(), self.translation.m())', kind('InlineTable', f'if {cond} {{ Some(({A}::dec(x@["{mf}"@])->0, {B}::dec(x@["translation"@])->0)) }} else {{ None }}'), 'true', GL, q,
        encopt=INTO, enc=f'//@ hint entry\n    proof {{ reveal_strlit("{mf}"); reveal_strlit("translation"); assert("{mf}"@.len() != "translation"@.len()); }}', decopt='mcall=into=>widen_into', decb=f'//@ hint entry\n    proof {{ reveal_strlit("{mf}"); reveal_strlit("translation"); assert("{mf}"@.len() != "translation"@.len()); }}')
# The field wrapper that is exported.
w('}')
w('//@ type structs/node_field.rs ExportableField')
w('''impl<T: Exportable> ExportableField<T> {
//@ fn structs/node_field.rs ExportableField::new
    ensures ret.0 == item,
//@ end
}''')
imp('<T: Exportable>', 'ExportableField<T>', 'T::M', 'self.0.m()', 'T::dec(v)', 'self.0.fits()', 'structs/node_field.rs', 'ExportableField<T>')
w('} // verus!\nfn main() {}')
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = '\n'.join(out).replace('//@ subst *mut dyn Never => Never\n', '')
open(os.path.join(V, 'contracts', 'export.vc'), 'w').write('// Written by tools/mkexport.py.\n' + text + '\n')
