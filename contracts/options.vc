//@ include prelude.vc
//@ unchecked keep
//@ subst *mut dyn NodeTree => TreePtr
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

/// The pointer to the tree is only carried around here.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TreePtr { p: usize }
pub type RID = u64;

// What the standard library's options and results do.
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (ret: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), ret), None => ret == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (ret: U)
    requires match o { Some(x) => f.requires((x,)), None => d.requires(()) },
    ensures match o { Some(x) => f.ensures((x,), ret), None => d.ensures((), ret) };
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (ret: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), ret), None => !ret };
pub assume_specification<T, E, U, F: FnOnce(T) -> U> [Result::<T, E>::map_or] (o: Result<T, E>, d: U, f: F) -> (ret: U)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(x) => f.ensures((x,), ret), Err(_) => ret == d };
pub assume_specification<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U> [Result::<T, E>::map_or_else] (o: Result<T, E>, d: D, f: F) -> (ret: U)
    requires match o { Ok(x) => f.requires((x,)), Err(e) => d.requires((e,)) },
    ensures match o { Ok(x) => f.ensures((x,), ret), Err(e) => d.ensures((e,), ret) };
pub assume_specification<T, E> [Result::<T, E>::as_mut] (o: &mut Result<T, E>) -> (ret: Result<&mut T, &mut E>)
    ensures
        *old(o) matches Ok(x) ==> ret matches Ok(r) && *r == x && *final(o) == Ok::<T, E>(*final(r)),
        *old(o) matches Err(x) ==> ret matches Err(r) && *r == x && *final(o) == Err::<T, E>(*final(r));
pub assume_specification<T: Default, E> [Result::<T, E>::unwrap_or_default] (o: Result<T, E>) -> (ret: T)
    ensures match o { Ok(x) => ret == x, Err(_) => T::default.ensures((), ret) };
pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (ret: bool)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(x) => f.ensures((x,), ret), Err(_) => !ret };
pub assume_specification<T, E, F: FnOnce(E) -> bool> [Result::<T, E>::is_err_and] (o: Result<T, E>, f: F) -> (ret: bool)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures match o { Err(x) => f.ensures((x,), ret), Ok(_) => !ret };
pub uninterp spec fn deref_opt<'a, T: Deref>(o: &'a Option<T>) -> Option<&'a T::Target>;
pub assume_specification<T: Deref> [Option::<T>::as_deref] (o: &Option<T>) -> (ret: Option<&T::Target>)
    ensures ret == deref_opt(o);

pub uninterp spec fn deref_mut_opt<T: DerefMut>(old: Option<T>, new: Option<T>, r: Option<&mut T::Target>) -> bool;
pub assume_specification<T: DerefMut> [Option::<T>::as_deref_mut] (o: &mut Option<T>) -> (ret: Option<&mut T::Target>)
    ensures deref_mut_opt(*old(o), *final(o), ret);
//@ type structs/tree_option.rs TreeOption
//@ type structs/tree_result.rs TreeResult

impl<'a, T> TreeOption<'a, T> {
    /// The result reports its errors where this option does.
    pub open spec fn at(&self, tree: TreePtr, owner: RID) -> bool { self.tree == tree && self.owner == owner }
    #[verifier::external_body]
    fn fail(&self, msg: &str) -> !
        requires self.object is None,
        ensures false,
    { panic!() }
//@ fn structs/tree_option.rs TreeOption::new
    ensures ret.at(tree, owner), ret.object == object,
//@ end
//@ fn structs/tree_option.rs TreeOption::to_option
    ensures ret == self.object,
//@ end
//@ fn structs/tree_option.rs TreeOption::is_some
    ensures ret == (self.object is Some),
//@ end
//@ fn structs/tree_option.rs TreeOption::is_none
    ensures ret == (self.object is None),
//@ end
//@ fn structs/tree_option.rs TreeOption::is_some_and
    requires self.object matches Some(x) ==> f.requires((&x,)),
    ensures match self.object { Some(x) => f.ensures((&x,), ret), None => !ret },
//@ end
//@ fn structs/tree_option.rs TreeOption::as_ref
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => ret.object == Some(&x), None => ret.object is None },
//@ end
//@ fn structs/tree_option.rs TreeOption::as_mut
    ensures ret.at(old(self).tree, old(self).owner), final(self).at(old(self).tree, old(self).owner),
    old(self).object matches Some(x) ==> ret.object matches Some(r) && *r == x && final(self).object == Some(*final(r)),
    old(self).object is None ==> ret.object is None && final(self).object is None,
//@ end
//@ fn structs/tree_option.rs TreeOption::as_slice
    ensures ret@ == (match self.object { Some(x) => seq![x], None => seq![] }),
//@ end
//@ fn structs/tree_option.rs TreeOption::expect
    ensures self.object == Some(ret),
//@ end
//@ fn structs/tree_option.rs TreeOption::unwrap
    ensures self.object == Some(ret),
//@ end
//@ fn structs/tree_option.rs TreeOption::unwrap_or
    ensures ret == (match self.object { Some(x) => x, None => default }),
//@ end
//@ fn structs/tree_option.rs TreeOption::unwrap_or_else
    requires self.object is None ==> f.requires(()),
    ensures match self.object { Some(x) => ret == x, None => f.ensures((), ret) },
//@ end
//@ fn structs/tree_option.rs TreeOption::unwrap_or_default
    ensures match self.object { Some(x) => ret == x, None => T::default.ensures((), ret) },
//@ end
//@ fn structs/tree_option.rs TreeOption::unwrap_unchecked
    requires self.object is Some,
    ensures self.object == Some(ret),
//@ end
//@ fn structs/tree_option.rs TreeOption::map
    requires self.object matches Some(x) ==> f.requires((x,)),
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => ret.object matches Some(y) && f.ensures((x,), y), None => ret.object is None },
//@ end
//@ fn structs/tree_option.rs TreeOption::inspect
    requires self.object matches Some(x) ==> f.requires((&x,)),
    ensures ret == self, self.object matches Some(x) ==> f.ensures((&x,), ()),
//@ end
//@ fn structs/tree_option.rs TreeOption::map_or
    requires self.object matches Some(x) ==> f.requires((x,)),
    ensures match self.object { Some(x) => f.ensures((x,), ret), None => ret == default },
//@ end
//@ fn structs/tree_option.rs TreeOption::map_or_else
    requires match self.object { Some(x) => f.requires((x,)), None => default.requires(()) },
    ensures match self.object { Some(x) => f.ensures((x,), ret), None => default.ensures((), ret) },
//@ end
//@ fn structs/tree_option.rs TreeOption::ok_or
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Some(x) => Ok(x), None => Err(err) }),
//@ end
//@ fn structs/tree_option.rs TreeOption::ok_or_else
    requires self.object is None ==> err.requires(()),
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => ret.object == Ok::<T, E>(x), None => ret.object matches Err(e) && err.ensures((), e) },
//@ end
//@ fn structs/tree_option.rs TreeOption::as_deref
    ensures ret.at(self.tree, self.owner),
    ret.object == deref_opt(&self.object),
//@ end
//@ fn structs/tree_option.rs TreeOption::and
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Some(_) => optb.object, None => None }),
//@ end
//@ fn structs/tree_option.rs TreeOption::and_then
    requires self.object matches Some(x) ==> f.requires((x,)),
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => exists|r: TreeOption<'b, U>| f.ensures((x,), r) && ret.object == r.object, None => ret.object is None },
//@ end
//@ fn structs/tree_option.rs TreeOption::filter
    requires self.object matches Some(x) ==> predicate.requires((&x,)),
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => (ret.object == self.object && predicate.ensures((&x,), true)) || (ret.object is None && predicate.ensures((&x,), false)), None => ret.object is None },
//@ end
//@ fn structs/tree_option.rs TreeOption::or
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Some(x) => Some(x), None => optb.object }),
//@ end
//@ fn structs/tree_option.rs TreeOption::or_else
    requires self.object is None ==> f.requires(()),
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => ret.object == Some(x), None => exists|r: TreeOption<'b, T>| f.ensures((), r) && ret.object == r.object },
//@ end
//@ fn structs/tree_option.rs TreeOption::xor
    ensures ret.at(self.tree, self.owner),
    ret.object == (match (self.object, optb.object) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None }),
//@ end
//@ fn structs/tree_option.rs TreeOption::insert
    ensures *ret == value, final(self).object == Some(*final(ret)), final(self).at(old(self).tree, old(self).owner),
//@ end
//@ fn structs/tree_option.rs TreeOption::get_or_insert
    ensures *ret == (match old(self).object { Some(x) => x, None => value }), final(self).object == Some(*final(ret)), final(self).at(old(self).tree, old(self).owner),
//@ end
//@ fn structs/tree_option.rs TreeOption::get_or_insert_default
    ensures match old(self).object { Some(x) => *ret == x, None => T::default.ensures((), *ret) }, final(self).object == Some(*final(ret)), final(self).at(old(self).tree, old(self).owner),
//@ end
//@ fn structs/tree_option.rs TreeOption::get_or_insert_with
    requires old(self).object is None ==> f.requires(()),
    ensures match old(self).object { Some(x) => *ret == x, None => f.ensures((), *ret) }, final(self).object == Some(*final(ret)), final(self).at(old(self).tree, old(self).owner),
//@ end
//@ fn structs/tree_option.rs TreeOption::take
    ensures ret.at(old(self).tree, old(self).owner), final(self).at(old(self).tree, old(self).owner),
    ret.object == old(self).object, final(self).object is None,
//@ end
//@ fn structs/tree_option.rs TreeOption::take_if
    requires old(self).object matches Some(x) ==> forall|r: &mut T| *r == x ==> predicate.requires((r,)),
    ensures ret.at(old(self).tree, old(self).owner), final(self).at(old(self).tree, old(self).owner),
    old(self).object is None ==> ret.object is None && final(self).object is None,
    old(self).object matches Some(x) ==> exists|r: &mut T, b: bool| *r == x && #[trigger] predicate.ensures((r,), b) && (if b { ret.object == Some(*final(r)) && final(self).object is None } else { ret.object is None && final(self).object == Some(*final(r)) }),
//@ end
//@ fn structs/tree_option.rs TreeOption::replace
    ensures ret == old(self).object, final(self).object == Some(value), final(self).at(old(self).tree, old(self).owner),
//@ end
//@ fn structs/tree_option.rs TreeOption::zip
    ensures ret.at(self.tree, self.owner),
    ret.object == (match (self.object, other.object) { (Some(a), Some(b)) => Some((a, b)), _ => None }),
//@ end
//@ fn structs/tree_option.rs TreeOption::transfer_owner
    ensures ret.at(self.tree, self.owner),
    ret.object == other.object,
//@ end
//@ fn structs/tree_option.rs TreeOption::as_another
    ensures ret.at(self.tree, self.owner),
    ret.object == object,
//@ end
//@ fn structs/tree_option.rs TreeOption::as_none
    ensures ret.at(self.tree, self.owner),
    ret.object is None,
//@ end
}
impl<'a, T, U> TreeOption<'a, (T, U)> {
//@ fn structs/tree_option.rs TreeOption::unzip
    ensures ret.0.at(self.tree, self.owner), ret.1.at(self.tree, self.owner), ret.0.object == (match self.object { Some(p) => Some(p.0), None => None }), ret.1.object == (match self.object { Some(p) => Some(p.1), None => None }),
//@ end
}
impl<'a, T> TreeOption<'a, &T> {
//@ fn structs/tree_option.rs TreeOption<'a,&T>::copied
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => ret.object == Some(*x), None => ret.object is None },
//@ closure 0 x: &T -> r: T
    ensures r == *x,
//@ end
//@ fn structs/tree_option.rs TreeOption<'a,&T>::cloned | mcall=to_owned=>to_owned_ref
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => ret.object matches Some(y) && cloned(*x, y), None => ret.object is None },
//@ closure 0 x: &T -> r: T
    ensures cloned(*x, r),
//@ end
}
impl<'a, 'b, T, E> TreeOption<'a, TreeResult<'b, T, E>> {
//@ fn structs/tree_option.rs TreeOption::transpose
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(r) => match r.object { Ok(x) => ret.object matches Ok(y) && y.object == Some(x) && y.at(self.tree, self.owner), Err(e) => ret.object == Err::<TreeOption<'a, T>, E>(e) }, None => ret.object matches Ok(y) && y.object is None && y.at(self.tree, self.owner) },
//@ end
}
impl<'a, 'b, T> TreeOption<'a, TreeOption<'b, T>> {
//@ fn structs/tree_option.rs TreeOption::flatten
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Some(x) => x.object, None => None }),
//@ end
}
#[verifier::external_body]
pub fn to_owned_ref<T: Clone>(x: &T) -> (ret: T) ensures cloned(*x, ret), { x.clone() }

impl<'a, T, E> TreeResult<'a, T, E> {
    pub open spec fn at(&self, tree: TreePtr, owner: RID) -> bool { self.tree == tree && self.owner == owner }
//@ fn structs/tree_result.rs TreeResult::new
    ensures ret.at(tree, owner), ret.object == object,
//@ end
//@ fn structs/tree_result.rs TreeResult::to_result
    ensures ret == self.object,
//@ end
//@ fn structs/tree_result.rs TreeResult::to_option
    ensures ret == (match self.object { Ok(x) => Some(x), Err(_) => None }),
//@ end
//@ fn structs/tree_result.rs TreeResult::is_ok
    ensures ret == (self.object is Ok),
//@ end
//@ fn structs/tree_result.rs TreeResult::is_err
    ensures ret == (self.object is Err),
//@ end
//@ fn structs/tree_result.rs TreeResult::is_ok_and
    requires self.object matches Ok(x) ==> f.requires((&x,)),
    ensures match self.object { Ok(x) => f.ensures((&x,), ret), Err(_) => !ret },
//@ end
//@ fn structs/tree_result.rs TreeResult::is_err_and
    requires self.object matches Err(x) ==> f.requires((&x,)),
    ensures match self.object { Err(x) => f.ensures((&x,), ret), Ok(_) => !ret },
//@ end
//@ fn structs/tree_result.rs TreeResult::ok
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Ok(x) => Some(x), Err(_) => None }),
//@ end
//@ fn structs/tree_result.rs TreeResult::err
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Err(x) => Some(x), Ok(_) => None }),
//@ end
//@ fn structs/tree_result.rs TreeResult::as_ref
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => ret.object matches Ok(y) && *y == x, Err(x) => ret.object matches Err(y) && *y == x },
//@ end
//@ fn structs/tree_result.rs TreeResult::as_mut
    ensures ret.at(old(self).tree, old(self).owner), final(self).at(old(self).tree, old(self).owner),
    old(self).object matches Ok(x) ==> ret.object matches Ok(r) && *r == x && final(self).object == Ok::<T, E>(*final(r)),
    old(self).object matches Err(x) ==> ret.object matches Err(r) && *r == x && final(self).object == Err::<T, E>(*final(r)),
//@ end
//@ fn structs/tree_result.rs TreeResult::map
    requires self.object matches Ok(x) ==> op.requires((x,)),
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => ret.object matches Ok(y) && op.ensures((x,), y), Err(e) => ret.object == Err::<U, E>(e) },
//@ end
//@ fn structs/tree_result.rs TreeResult::map_or
    requires self.object matches Ok(x) ==> f.requires((x,)),
    ensures match self.object { Ok(x) => f.ensures((x,), ret), Err(_) => ret == default },
//@ end
//@ fn structs/tree_result.rs TreeResult::map_or_else
    requires match self.object { Ok(x) => f.requires((x,)), Err(e) => default.requires((e,)) },
    ensures match self.object { Ok(x) => f.ensures((x,), ret), Err(e) => default.ensures((e,), ret) },
//@ end
//@ fn structs/tree_result.rs TreeResult::map_err
    requires self.object matches Err(x) ==> op.requires((x,)),
    ensures ret.at(self.tree, self.owner),
    match self.object { Err(x) => ret.object matches Err(y) && op.ensures((x,), y), Ok(e) => ret.object == Ok::<T, F>(e) },
//@ end
//@ fn structs/tree_result.rs TreeResult::inspect
    requires self.object matches Ok(x) ==> f.requires((&x,)),
    ensures ret == self, self.object matches Ok(x) ==> f.ensures((&x,), ()),
//@ end
//@ fn structs/tree_result.rs TreeResult::inspect_err
    requires self.object matches Err(x) ==> f.requires((&x,)),
    ensures ret == self, self.object matches Err(x) ==> f.ensures((&x,), ()),
//@ end
//@ fn structs/tree_result.rs TreeResult::unwrap_or_default
    ensures match self.object { Ok(x) => ret == x, Err(_) => T::default.ensures((), ret) },
//@ end
//@ fn structs/tree_result.rs TreeResult::expect | mcall=fail=>&:fail_ok
    ensures self.object == Ok::<T, E>(ret),
//@ end
//@ fn structs/tree_result.rs TreeResult::unwrap | mcall=fail=>&:fail_ok
    ensures self.object == Ok::<T, E>(ret),
//@ end
//@ fn structs/tree_result.rs TreeResult::expect_err | mcall=fail=>&:fail_err
    ensures self.object == Err::<T, E>(ret),
//@ end
//@ fn structs/tree_result.rs TreeResult::unwrap_err | mcall=fail=>&:fail_err
    ensures self.object == Err::<T, E>(ret),
//@ end
//@ fn structs/tree_result.rs TreeResult::and
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Ok(_) => res.object, Err(e) => Err(e) }),
//@ end
//@ fn structs/tree_result.rs TreeResult::and_then
    requires self.object matches Ok(x) ==> op.requires((x,)),
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => exists|r: TreeResult<'a, U, E>| op.ensures((x,), r) && ret.object == r.object, Err(e) => ret.object == Err::<U, E>(e) },
//@ end
//@ fn structs/tree_result.rs TreeResult::or
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Ok(x) => Ok(x), Err(_) => res.object }),
//@ end
//@ fn structs/tree_result.rs TreeResult::or_else
    requires self.object matches Err(x) ==> op.requires((&x,)),
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => ret.object == Ok::<T, E>(x), Err(e) => exists|r: TreeResult<'b, T, E>| op.ensures((&e,), r) && ret.object == r.object },
//@ end
//@ fn structs/tree_result.rs TreeResult::unwrap_or
    ensures ret == (match self.object { Ok(x) => x, Err(_) => default }),
//@ end
//@ fn structs/tree_result.rs TreeResult::unwrap_or_else
    requires self.object matches Err(x) ==> op.requires((&x,)),
    ensures match self.object { Ok(x) => ret == x, Err(e) => op.ensures((&e,), ret) },
//@ end
//@ fn structs/tree_result.rs TreeResult::unwrap_unchecked
    requires self.object is Ok,
    ensures self.object == Ok::<T, E>(ret),
//@ end
//@ fn structs/tree_result.rs TreeResult::unwrap_err_unchecked
    requires self.object is Err,
    ensures self.object == Err::<T, E>(ret),
//@ end
//@ fn structs/tree_result.rs TreeResult::transfer_owner
    ensures ret.at(self.tree, self.owner),
    ret.object == other.object,
//@ end
}
impl<'a, T, E> TreeResult<'a, &T, E> {
//@ fn structs/tree_result.rs TreeResult<'a,&T,E>::copied
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => ret.object == Ok::<T, E>(*x), Err(e) => ret.object == Err::<T, E>(e) },
//@ closure 0 x: &T -> r: T
    ensures r == *x,
//@ end
//@ fn structs/tree_result.rs TreeResult<'a,&T,E>::cloned | mcall=clone=>to_owned_ref
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => ret.object matches Ok(y) && cloned(*x, y), Err(e) => ret.object == Err::<T, E>(e) },
//@ closure 0 t: &T -> r: T
    ensures cloned(*t, r),
//@ end
}
impl<'a, 'b, T, E> TreeResult<'a, TreeOption<'b, T>, E> {
//@ fn structs/tree_result.rs TreeResult::transpose
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(i) => match i.object { Some(x) => ret.object matches Some(y) && y.object == Ok::<T, E>(x) && y.at(self.tree, self.owner), None => ret.object is None }, Err(e) => ret.object matches Some(y) && y.object == Err::<T, E>(e) && y.at(self.tree, self.owner) },
//@ end
}
impl<'a, 'b, T, E> TreeResult<'a, TreeResult<'b, T, E>, E> {
//@ fn structs/tree_result.rs TreeResult::flatten
    ensures ret.at(self.tree, self.owner),
    ret.object == (match self.object { Ok(i) => i.object, Err(e) => Err(e) }),
//@ end
}
impl<'a, T> TreeOption<'a, &mut T> {
//@ fn structs/tree_option.rs TreeOption<'a,&mutT>::copied
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => ret.object == Some(*x), None => ret.object is None },
//@ closure 0 x: &mut T -> r: T
    ensures r == *old(x), *final(x) == *old(x),
//@ end
//@ fn structs/tree_option.rs TreeOption<'a,&mutT>::cloned | mcall=to_owned=>to_owned_ref
    ensures ret.at(self.tree, self.owner),
    match self.object { Some(x) => ret.object matches Some(y) && cloned(*x, y), None => ret.object is None },
//@ closure 0 x: &mut T -> r: T
    ensures cloned(*old(x), r), *final(x) == *old(x),
//@ end
}
impl<'a, T, E> TreeResult<'a, &mut T, E> {
//@ fn structs/tree_result.rs TreeResult<'a,&mutT,E>::copied
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => ret.object == Ok::<T, E>(*x), Err(e) => ret.object == Err::<T, E>(e) },
//@ closure 0 x: &mut T -> r: T
    ensures r == *old(x), *final(x) == *old(x),
//@ end
//@ fn structs/tree_result.rs TreeResult<'a,&mutT,E>::cloned | mcall=clone=>to_owned_ref
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => ret.object matches Ok(y) && cloned(*x, y), Err(e) => ret.object == Err::<T, E>(e) },
//@ closure 0 t: &mut T -> r: T
    ensures cloned(*old(t), r), *final(t) == *old(t),
//@ end
}
impl<'a, T> TreeOption<'a, T> {
//@ fn structs/tree_option.rs TreeOption::as_mut_slice
    ensures
    old(self).object matches Some(x) ==> ret@ == seq![x] && final(ret)@.len() == 1 && final(self).object == Some(final(ret)@[0]),
    old(self).object is None ==> ret@.len() == 0 && final(self).object is None,
    final(self).at(old(self).tree, old(self).owner),
//@ end
//@ fn structs/tree_option.rs TreeOption::as_deref_mut
    ensures
    ret.at(old(self).tree, old(self).owner), final(self).at(old(self).tree, old(self).owner),
    deref_mut_opt(old(self).object, final(self).object, ret.object),
//@ end
}
impl<'a, T, E> TreeResult<'a, T, E> {
//@ fn structs/tree_result.rs TreeResult::as_deref
    ensures ret.at(self.tree, self.owner),
    match self.object { Ok(x) => ret.object matches Ok(y) && T::deref.ensures((&x,), y), Err(e) => ret.object matches Err(y) && *y == e },
//@ closure 0 t: &'a T -> r: &'a T::Target
    ensures T::deref.ensures((t,), r),
//@ end
//@ fn structs/tree_result.rs TreeResult::as_deref_mut
    ensures ret.at(old(self).tree, old(self).owner),
    match old(self).object { Ok(x) => ret.object is Ok, Err(e) => ret.object matches Err(y) && *y == e },
//@ closure 0 t: &'a mut T -> r: &'a mut T::Target
    ensures true,
//@ end
}
/// The error exits of results: they do not return, and are only taken for the other variant.
#[verifier::external_body]
pub fn fail_ok<T, E>(r: &TreeResult<T, E>, msg: &str, error: &E) -> !
    requires r.object is Err,
    ensures false,
{ panic!() }
#[verifier::external_body]
pub fn fail_err<T, E>(r: &TreeResult<T, E>, msg: &str, value: &T) -> !
    requires r.object is Ok,
    ensures false,
{ panic!() }
} // verus!
fn main() {}
