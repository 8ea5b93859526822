#!/usr/bin/env python3
"""Writes contracts/fields.vc: the four field wrappers have the same operations."""
OPS = [('AddAssign','add'),('SubAssign','sub'),('MulAssign','mul'),('DivAssign','div'),('RemAssign','rem'),('BitOrAssign','or','bitor'),('BitXorAssign','xor','bitxor'),('BitAndAssign','and','bitand'),('ShlAssign','shl'),('ShrAssign','shr')]
F = 'structs/node_field.rs'
o = '''//@ include prelude.vc
//@ subst Self::Target => T
//@ subst Self :: Target => T
use std::ops;
/// Only bounds the wrapped types here.
pub trait Exportable: Sized {}

// The compound operators of the wrapped types, each a function of its operands.
'''
for op in OPS:
    o += f'pub uninterp spec fn {op[1]}_of<T>(x: T, y: T) -> T;\n#[verifier::external_body]\npub fn op_{op[1]}<T: ops::{op[0]}>(x: &mut T, y: T) ensures *final(x) == {op[1]}_of(*old(x), y), {{ ops::{op[0]}::{op[2] if len(op) > 2 else op[1]}_assign(x, y) }}\n'
o += f'//@ type {F} Field\n//@ type {F} UniqueField\n//@ type {F} ExportableField\n//@ type {F} DefaultField\n'
def fn(key, spec, opts=''):
    global o
    o += f"//@ fn {F} {key}{' | ' + opts if opts else ''}\n" + ''.join('    ' + s + '\n' for s in spec) + '//@ end\n'
for W in ('Field', 'UniqueField'):
    V = f'{W}::Valid'
    o += f'''impl<T> {W}<T> {{
    pub open spec fn val(&self) -> T {{ self->Valid_0 }}
'''
    fn(f'{W}::new', [f'ensures ret == {V}(item),'])
    fn(f'{W}::write_valid', ['ensures', f'    *final(self) == {V}(item),', f'    ret == (match *old(self) {{ {V}(x) => Some(x), _ => None }}),'])
    fn(f'{W}::is_reachable', [f'ensures ret == (*self is Valid),'])
    fn(f'{W}::is_void', [f'ensures ret == (*self is Void),'])
    fn(f'{W}::take', ['ensures', f'    *final(self) == {W}::<T>::Void,', f'    ret == (match *old(self) {{ {V}(x) => Some(x), _ => None }}),'])
    fn(f'{W}::force_take', ['requires self is Valid,', 'ensures ret == self.val(),'])
    fn(f'<From<T> for {W}<T>>::from', [f'ensures ret == {V}(item),'])
    if W == 'UniqueField': fn(f'<Clone for {W}<T>>::clone', [f'ensures ret is Void,'])
    fn(f'<Deref for {W}<T>>::deref', ['requires *self is Valid,', 'ensures *ret == self.val(),'])
    fn(f'<DerefMut for {W}<T>>::deref_mut', ['requires *old(self) is Valid,', f'ensures *ret == old(self).val(), *final(self) == {V}(*final(ret)),'])
    fn(f'<Voidable for {W}<T>>::void', [f'ensures ret is Void,'])
    o += '}\n'
    if W == 'Field':
        o += f'impl<T: Clone> Field<T> {{\n'
        fn(f'<Clone for {W}<T>>::clone', ['ensures match *self { Field::Valid(x) => ret matches Field::Valid(y) && cloned(x, y), Field::Void => ret is Void },'])
        o += '}\n'
for W, B in (('ExportableField', 'Exportable'), ('DefaultField', 'Default')):
    o += f'impl<T: {B}> {W}<T> {{\n    pub open spec fn val(&self) -> T {{ self.0 }}\n'
    fn(f'{W}::new', ['ensures ret.0 == item,'])
    fn(f'<From<T> for {W}<T>>::from', ['ensures ret.0 == item,'])
    fn(f'<Deref for {W}<T>>::deref', ['ensures *ret == self.0,'])
    fn(f'<DerefMut for {W}<T>>::deref_mut', ['ensures *ret == old(self).0, final(self).0 == *final(ret),'])
    o += '}\n'
    o += f'impl<T: {B}{" + Default" if B != "Default" else ""}> {W}<T> {{\n    /// Derived in the code.\n    #[verifier::external_body]\n    pub fn default() -> (ret: Self) ensures T::default.ensures((), ret.0), {{ {W}(T::default()) }}\n'
    fn(f'<Voidable for {W}<T>>::void', ['ensures T::default.ensures((), ret.0),'])
    o += '}\n'
for W in ('Field', 'UniqueField', 'ExportableField', 'DefaultField'):
    nullable = W in ('Field', 'UniqueField')
    for op in OPS:
        m = (op[2] if len(op) > 2 else op[1]) + '_assign'
        bound = f'ops::{op[0]}' + {'ExportableField': ' + Exportable', 'DefaultField': ' + Default'}.get(W, '')
        o += f'impl<T: {bound}> {W}<T> {{\n'
        req = ['requires *old(self) is Valid, rhs is Valid,'] if nullable else []
        res = (lambda y: f'*final(self) == {W}::Valid({op[1]}_of(old(self).val(), {y}))') if nullable else (lambda y: f'final(self).0 == {op[1]}_of(old(self).0, {y})')
        fn(f'<{op[0]} for {W}<T>>::{m}', req + [f"ensures {res('rhs.val()')},"], f'ops as={m}_self')
        fn(f'<{op[0]}<T> for {W}<T>>::{m}', [r.replace(', rhs is Valid', '') for r in req] + [f"ensures {res('rhs')},"], 'ops')
        o += '}\n'
o += '''/// Reading after writing, taking after taking: the wrappers behave as a cell.
pub fn cell_laws(x: u64, y: u64) {
    let mut f = Field::new(x);
    let w = f.write_valid(y);
    assert(w == Some(x));
    let r = *f.deref();
    assert(r == y);
    let t = f.take();
    assert(t == Some(y));
    let v = f.is_void();
    assert(v);
    let t = f.take();
    assert(t == None::<u64>);
}
} // verus!
fn main() {}
'''
open(__file__.replace('tools/mkfields.py', 'contracts/fields.vc'), 'w').write(o)
