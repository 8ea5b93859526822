//@ include prelude.vc
//@ subst Self::Target => T
//@ subst Self :: Target => T
use std::ops;
/// Only bounds the wrapped types here.
pub trait Exportable: Sized {}

// The compound operators of the wrapped types, each a function of its operands.
pub uninterp spec fn add_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_add<T: ops::AddAssign>(x: &mut T, y: T) ensures *final(x) == add_of(*old(x), y), { ops::AddAssign::add_assign(x, y) }
pub uninterp spec fn sub_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_sub<T: ops::SubAssign>(x: &mut T, y: T) ensures *final(x) == sub_of(*old(x), y), { ops::SubAssign::sub_assign(x, y) }
pub uninterp spec fn mul_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_mul<T: ops::MulAssign>(x: &mut T, y: T) ensures *final(x) == mul_of(*old(x), y), { ops::MulAssign::mul_assign(x, y) }
pub uninterp spec fn div_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_div<T: ops::DivAssign>(x: &mut T, y: T) ensures *final(x) == div_of(*old(x), y), { ops::DivAssign::div_assign(x, y) }
pub uninterp spec fn rem_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_rem<T: ops::RemAssign>(x: &mut T, y: T) ensures *final(x) == rem_of(*old(x), y), { ops::RemAssign::rem_assign(x, y) }
pub uninterp spec fn or_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_or<T: ops::BitOrAssign>(x: &mut T, y: T) ensures *final(x) == or_of(*old(x), y), { ops::BitOrAssign::bitor_assign(x, y) }
pub uninterp spec fn xor_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_xor<T: ops::BitXorAssign>(x: &mut T, y: T) ensures *final(x) == xor_of(*old(x), y), { ops::BitXorAssign::bitxor_assign(x, y) }
pub uninterp spec fn and_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_and<T: ops::BitAndAssign>(x: &mut T, y: T) ensures *final(x) == and_of(*old(x), y), { ops::BitAndAssign::bitand_assign(x, y) }
pub uninterp spec fn shl_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_shl<T: ops::ShlAssign>(x: &mut T, y: T) ensures *final(x) == shl_of(*old(x), y), { ops::ShlAssign::shl_assign(x, y) }
pub uninterp spec fn shr_of<T>(x: T, y: T) -> T;
#[verifier::external_body]
pub fn op_shr<T: ops::ShrAssign>(x: &mut T, y: T) ensures *final(x) == shr_of(*old(x), y), { ops::ShrAssign::shr_assign(x, y) }
//@ type structs/node_field.rs Field
//@ type structs/node_field.rs UniqueField
//@ type structs/node_field.rs ExportableField
//@ type structs/node_field.rs DefaultField
impl<T> Field<T> {
    pub open spec fn val(&self) -> T { self->Valid_0 }
//@ fn structs/node_field.rs Field::new
    ensures ret == Field::Valid(item),
//@ end
//@ fn structs/node_field.rs Field::write_valid
    ensures
        *final(self) == Field::Valid(item),
        ret == (match *old(self) { Field::Valid(x) => Some(x), _ => None }),
//@ end
//@ fn structs/node_field.rs Field::is_reachable
    ensures ret == (*self is Valid),
//@ end
//@ fn structs/node_field.rs Field::is_void
    ensures ret == (*self is Void),
//@ end
//@ fn structs/node_field.rs Field::take
    ensures
        *final(self) == Field::<T>::Void,
        ret == (match *old(self) { Field::Valid(x) => Some(x), _ => None }),
//@ end
//@ fn structs/node_field.rs Field::force_take
    requires self is Valid,
    ensures ret == self.val(),
//@ end
//@ fn structs/node_field.rs <From<T> for Field<T>>::from
    ensures ret == Field::Valid(item),
//@ end
//@ fn structs/node_field.rs <Deref for Field<T>>::deref
    requires *self is Valid,
    ensures *ret == self.val(),
//@ end
//@ fn structs/node_field.rs <DerefMut for Field<T>>::deref_mut
    requires *old(self) is Valid,
    ensures *ret == old(self).val(), *final(self) == Field::Valid(*final(ret)),
//@ end
//@ fn structs/node_field.rs <Voidable for Field<T>>::void
    ensures ret is Void,
//@ end
}
impl<T: Clone> Field<T> {
//@ fn structs/node_field.rs <Clone for Field<T>>::clone
    ensures match *self { Field::Valid(x) => ret matches Field::Valid(y) && cloned(x, y), Field::Void => ret is Void },
//@ end
}
impl<T> UniqueField<T> {
    pub open spec fn val(&self) -> T { self->Valid_0 }
//@ fn structs/node_field.rs UniqueField::new
    ensures ret == UniqueField::Valid(item),
//@ end
//@ fn structs/node_field.rs UniqueField::write_valid
    ensures
        *final(self) == UniqueField::Valid(item),
        ret == (match *old(self) { UniqueField::Valid(x) => Some(x), _ => None }),
//@ end
//@ fn structs/node_field.rs UniqueField::is_reachable
    ensures ret == (*self is Valid),
//@ end
//@ fn structs/node_field.rs UniqueField::is_void
    ensures ret == (*self is Void),
//@ end
//@ fn structs/node_field.rs UniqueField::take
    ensures
        *final(self) == UniqueField::<T>::Void,
        ret == (match *old(self) { UniqueField::Valid(x) => Some(x), _ => None }),
//@ end
//@ fn structs/node_field.rs UniqueField::force_take
    requires self is Valid,
    ensures ret == self.val(),
//@ end
//@ fn structs/node_field.rs <From<T> for UniqueField<T>>::from
    ensures ret == UniqueField::Valid(item),
//@ end
//@ fn structs/node_field.rs <Clone for UniqueField<T>>::clone
    ensures ret is Void,
//@ end
//@ fn structs/node_field.rs <Deref for UniqueField<T>>::deref
    requires *self is Valid,
    ensures *ret == self.val(),
//@ end
//@ fn structs/node_field.rs <DerefMut for UniqueField<T>>::deref_mut
    requires *old(self) is Valid,
    ensures *ret == old(self).val(), *final(self) == UniqueField::Valid(*final(ret)),
//@ end
//@ fn structs/node_field.rs <Voidable for UniqueField<T>>::void
    ensures ret is Void,
//@ end
}
impl<T: Exportable> ExportableField<T> {
    pub open spec fn val(&self) -> T { self.0 }
//@ fn structs/node_field.rs ExportableField::new
    ensures ret.0 == item,
//@ end
//@ fn structs/node_field.rs <From<T> for ExportableField<T>>::from
    ensures ret.0 == item,
//@ end
//@ fn structs/node_field.rs <Deref for ExportableField<T>>::deref
    ensures *ret == self.0,
//@ end
//@ fn structs/node_field.rs <DerefMut for ExportableField<T>>::deref_mut
    ensures *ret == old(self).0, final(self).0 == *final(ret),
//@ end
}
impl<T: Exportable + Default> ExportableField<T> {
    /// Derived in the code.
    #[verifier::external_body]
    pub fn default() -> (ret: Self) ensures T::default.ensures((), ret.0), { ExportableField(T::default()) }
//@ fn structs/node_field.rs <Voidable for ExportableField<T>>::void
    ensures T::default.ensures((), ret.0),
//@ end
}
impl<T: Default> DefaultField<T> {
    pub open spec fn val(&self) -> T { self.0 }
//@ fn structs/node_field.rs DefaultField::new
    ensures ret.0 == item,
//@ end
//@ fn structs/node_field.rs <From<T> for DefaultField<T>>::from
    ensures ret.0 == item,
//@ end
//@ fn structs/node_field.rs <Deref for DefaultField<T>>::deref
    ensures *ret == self.0,
//@ end
//@ fn structs/node_field.rs <DerefMut for DefaultField<T>>::deref_mut
    ensures *ret == old(self).0, final(self).0 == *final(ret),
//@ end
}
impl<T: Default> DefaultField<T> {
    /// Derived in the code.
    #[verifier::external_body]
    pub fn default() -> (ret: Self) ensures T::default.ensures((), ret.0), { DefaultField(T::default()) }
//@ fn structs/node_field.rs <Voidable for DefaultField<T>>::void
    ensures T::default.ensures((), ret.0),
//@ end
}
impl<T: ops::AddAssign> Field<T> {
//@ fn structs/node_field.rs <AddAssign for Field<T>>::add_assign | ops as=add_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(add_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <AddAssign<T> for Field<T>>::add_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(add_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::SubAssign> Field<T> {
//@ fn structs/node_field.rs <SubAssign for Field<T>>::sub_assign | ops as=sub_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(sub_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <SubAssign<T> for Field<T>>::sub_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(sub_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::MulAssign> Field<T> {
//@ fn structs/node_field.rs <MulAssign for Field<T>>::mul_assign | ops as=mul_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(mul_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <MulAssign<T> for Field<T>>::mul_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(mul_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::DivAssign> Field<T> {
//@ fn structs/node_field.rs <DivAssign for Field<T>>::div_assign | ops as=div_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(div_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <DivAssign<T> for Field<T>>::div_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(div_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::RemAssign> Field<T> {
//@ fn structs/node_field.rs <RemAssign for Field<T>>::rem_assign | ops as=rem_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(rem_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <RemAssign<T> for Field<T>>::rem_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(rem_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::BitOrAssign> Field<T> {
//@ fn structs/node_field.rs <BitOrAssign for Field<T>>::bitor_assign | ops as=bitor_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(or_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <BitOrAssign<T> for Field<T>>::bitor_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(or_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::BitXorAssign> Field<T> {
//@ fn structs/node_field.rs <BitXorAssign for Field<T>>::bitxor_assign | ops as=bitxor_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(xor_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <BitXorAssign<T> for Field<T>>::bitxor_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(xor_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::BitAndAssign> Field<T> {
//@ fn structs/node_field.rs <BitAndAssign for Field<T>>::bitand_assign | ops as=bitand_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(and_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <BitAndAssign<T> for Field<T>>::bitand_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(and_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::ShlAssign> Field<T> {
//@ fn structs/node_field.rs <ShlAssign for Field<T>>::shl_assign | ops as=shl_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(shl_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <ShlAssign<T> for Field<T>>::shl_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(shl_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::ShrAssign> Field<T> {
//@ fn structs/node_field.rs <ShrAssign for Field<T>>::shr_assign | ops as=shr_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == Field::Valid(shr_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <ShrAssign<T> for Field<T>>::shr_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == Field::Valid(shr_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::AddAssign> UniqueField<T> {
//@ fn structs/node_field.rs <AddAssign for UniqueField<T>>::add_assign | ops as=add_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(add_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <AddAssign<T> for UniqueField<T>>::add_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(add_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::SubAssign> UniqueField<T> {
//@ fn structs/node_field.rs <SubAssign for UniqueField<T>>::sub_assign | ops as=sub_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(sub_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <SubAssign<T> for UniqueField<T>>::sub_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(sub_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::MulAssign> UniqueField<T> {
//@ fn structs/node_field.rs <MulAssign for UniqueField<T>>::mul_assign | ops as=mul_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(mul_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <MulAssign<T> for UniqueField<T>>::mul_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(mul_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::DivAssign> UniqueField<T> {
//@ fn structs/node_field.rs <DivAssign for UniqueField<T>>::div_assign | ops as=div_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(div_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <DivAssign<T> for UniqueField<T>>::div_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(div_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::RemAssign> UniqueField<T> {
//@ fn structs/node_field.rs <RemAssign for UniqueField<T>>::rem_assign | ops as=rem_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(rem_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <RemAssign<T> for UniqueField<T>>::rem_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(rem_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::BitOrAssign> UniqueField<T> {
//@ fn structs/node_field.rs <BitOrAssign for UniqueField<T>>::bitor_assign | ops as=bitor_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(or_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <BitOrAssign<T> for UniqueField<T>>::bitor_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(or_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::BitXorAssign> UniqueField<T> {
//@ fn structs/node_field.rs <BitXorAssign for UniqueField<T>>::bitxor_assign | ops as=bitxor_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(xor_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <BitXorAssign<T> for UniqueField<T>>::bitxor_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(xor_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::BitAndAssign> UniqueField<T> {
//@ fn structs/node_field.rs <BitAndAssign for UniqueField<T>>::bitand_assign | ops as=bitand_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(and_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <BitAndAssign<T> for UniqueField<T>>::bitand_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(and_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::ShlAssign> UniqueField<T> {
//@ fn structs/node_field.rs <ShlAssign for UniqueField<T>>::shl_assign | ops as=shl_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(shl_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <ShlAssign<T> for UniqueField<T>>::shl_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(shl_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::ShrAssign> UniqueField<T> {
//@ fn structs/node_field.rs <ShrAssign for UniqueField<T>>::shr_assign | ops as=shr_assign_self
    requires *old(self) is Valid, rhs is Valid,
    ensures *final(self) == UniqueField::Valid(shr_of(old(self).val(), rhs.val())),
//@ end
//@ fn structs/node_field.rs <ShrAssign<T> for UniqueField<T>>::shr_assign | ops
    requires *old(self) is Valid,
    ensures *final(self) == UniqueField::Valid(shr_of(old(self).val(), rhs)),
//@ end
}
impl<T: ops::AddAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <AddAssign for ExportableField<T>>::add_assign | ops as=add_assign_self
    ensures final(self).0 == add_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <AddAssign<T> for ExportableField<T>>::add_assign | ops
    ensures final(self).0 == add_of(old(self).0, rhs),
//@ end
}
impl<T: ops::SubAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <SubAssign for ExportableField<T>>::sub_assign | ops as=sub_assign_self
    ensures final(self).0 == sub_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <SubAssign<T> for ExportableField<T>>::sub_assign | ops
    ensures final(self).0 == sub_of(old(self).0, rhs),
//@ end
}
impl<T: ops::MulAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <MulAssign for ExportableField<T>>::mul_assign | ops as=mul_assign_self
    ensures final(self).0 == mul_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <MulAssign<T> for ExportableField<T>>::mul_assign | ops
    ensures final(self).0 == mul_of(old(self).0, rhs),
//@ end
}
impl<T: ops::DivAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <DivAssign for ExportableField<T>>::div_assign | ops as=div_assign_self
    ensures final(self).0 == div_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <DivAssign<T> for ExportableField<T>>::div_assign | ops
    ensures final(self).0 == div_of(old(self).0, rhs),
//@ end
}
impl<T: ops::RemAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <RemAssign for ExportableField<T>>::rem_assign | ops as=rem_assign_self
    ensures final(self).0 == rem_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <RemAssign<T> for ExportableField<T>>::rem_assign | ops
    ensures final(self).0 == rem_of(old(self).0, rhs),
//@ end
}
impl<T: ops::BitOrAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <BitOrAssign for ExportableField<T>>::bitor_assign | ops as=bitor_assign_self
    ensures final(self).0 == or_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <BitOrAssign<T> for ExportableField<T>>::bitor_assign | ops
    ensures final(self).0 == or_of(old(self).0, rhs),
//@ end
}
impl<T: ops::BitXorAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <BitXorAssign for ExportableField<T>>::bitxor_assign | ops as=bitxor_assign_self
    ensures final(self).0 == xor_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <BitXorAssign<T> for ExportableField<T>>::bitxor_assign | ops
    ensures final(self).0 == xor_of(old(self).0, rhs),
//@ end
}
impl<T: ops::BitAndAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <BitAndAssign for ExportableField<T>>::bitand_assign | ops as=bitand_assign_self
    ensures final(self).0 == and_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <BitAndAssign<T> for ExportableField<T>>::bitand_assign | ops
    ensures final(self).0 == and_of(old(self).0, rhs),
//@ end
}
impl<T: ops::ShlAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <ShlAssign for ExportableField<T>>::shl_assign | ops as=shl_assign_self
    ensures final(self).0 == shl_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <ShlAssign<T> for ExportableField<T>>::shl_assign | ops
    ensures final(self).0 == shl_of(old(self).0, rhs),
//@ end
}
impl<T: ops::ShrAssign + Exportable> ExportableField<T> {
//@ fn structs/node_field.rs <ShrAssign for ExportableField<T>>::shr_assign | ops as=shr_assign_self
    ensures final(self).0 == shr_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <ShrAssign<T> for ExportableField<T>>::shr_assign | ops
    ensures final(self).0 == shr_of(old(self).0, rhs),
//@ end
}
impl<T: ops::AddAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <AddAssign for DefaultField<T>>::add_assign | ops as=add_assign_self
    ensures final(self).0 == add_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <AddAssign<T> for DefaultField<T>>::add_assign | ops
    ensures final(self).0 == add_of(old(self).0, rhs),
//@ end
}
impl<T: ops::SubAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <SubAssign for DefaultField<T>>::sub_assign | ops as=sub_assign_self
    ensures final(self).0 == sub_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <SubAssign<T> for DefaultField<T>>::sub_assign | ops
    ensures final(self).0 == sub_of(old(self).0, rhs),
//@ end
}
impl<T: ops::MulAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <MulAssign for DefaultField<T>>::mul_assign | ops as=mul_assign_self
    ensures final(self).0 == mul_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <MulAssign<T> for DefaultField<T>>::mul_assign | ops
    ensures final(self).0 == mul_of(old(self).0, rhs),
//@ end
}
impl<T: ops::DivAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <DivAssign for DefaultField<T>>::div_assign | ops as=div_assign_self
    ensures final(self).0 == div_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <DivAssign<T> for DefaultField<T>>::div_assign | ops
    ensures final(self).0 == div_of(old(self).0, rhs),
//@ end
}
impl<T: ops::RemAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <RemAssign for DefaultField<T>>::rem_assign | ops as=rem_assign_self
    ensures final(self).0 == rem_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <RemAssign<T> for DefaultField<T>>::rem_assign | ops
    ensures final(self).0 == rem_of(old(self).0, rhs),
//@ end
}
impl<T: ops::BitOrAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <BitOrAssign for DefaultField<T>>::bitor_assign | ops as=bitor_assign_self
    ensures final(self).0 == or_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <BitOrAssign<T> for DefaultField<T>>::bitor_assign | ops
    ensures final(self).0 == or_of(old(self).0, rhs),
//@ end
}
impl<T: ops::BitXorAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <BitXorAssign for DefaultField<T>>::bitxor_assign | ops as=bitxor_assign_self
    ensures final(self).0 == xor_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <BitXorAssign<T> for DefaultField<T>>::bitxor_assign | ops
    ensures final(self).0 == xor_of(old(self).0, rhs),
//@ end
}
impl<T: ops::BitAndAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <BitAndAssign for DefaultField<T>>::bitand_assign | ops as=bitand_assign_self
    ensures final(self).0 == and_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <BitAndAssign<T> for DefaultField<T>>::bitand_assign | ops
    ensures final(self).0 == and_of(old(self).0, rhs),
//@ end
}
impl<T: ops::ShlAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <ShlAssign for DefaultField<T>>::shl_assign | ops as=shl_assign_self
    ensures final(self).0 == shl_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <ShlAssign<T> for DefaultField<T>>::shl_assign | ops
    ensures final(self).0 == shl_of(old(self).0, rhs),
//@ end
}
impl<T: ops::ShrAssign + Default> DefaultField<T> {
//@ fn structs/node_field.rs <ShrAssign for DefaultField<T>>::shr_assign | ops as=shr_assign_self
    ensures final(self).0 == shr_of(old(self).0, rhs.val()),
//@ end
//@ fn structs/node_field.rs <ShrAssign<T> for DefaultField<T>>::shr_assign | ops
    ensures final(self).0 == shr_of(old(self).0, rhs),
//@ end
}
/// Reading after writing, taking after taking: the wrappers behave as a cell.
pub fn cell_laws(x: u64, y: u64) {
    let mut f = Field::new(x);
    let w = f.write_valid(y);
    assert(w == Some(x));
    let r = *f.deref();
    assert(r == y);
    let t = f.take();
    assert(t == Some(y));
    let v = f.is_void();
    assert(v);
    let t = f.take();
    assert(t == None::<u64>);
}
} // verus!
fn main() {}
