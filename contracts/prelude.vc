// Shared prelude: what the verified text uses from the standard library and from the lowering.
#![allow(mismatched_lifetime_syntaxes, unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet, VecDeque};
verus! {
global size_of usize == 8;
broadcast use {vstd::group_vstd_default, vstd::std_specs::hash::group_hash_axioms/*BROADCAST*/};

/// A panic: must be proved unreachable.
#[verifier::external_body]
pub fn unreached<A>() -> (ret: A)
    requires false,
{ panic!() }

/// A panic that a contract allows for: nothing comes after it.
#[verifier::external_body]
pub fn panics_if<A>(c: Ghost<bool>) -> (ret: A)
    requires c@,
    ensures false,
{ panic!() }

#[verifier::external_body]
pub fn mem_replace<A>(d: &mut A, s: A) -> (ret: A)
    ensures ret == *old(d), *final(d) == s,
{ std::mem::replace(d, s) }

#[verifier::external_body]
pub fn map_get_mut<'a, V>(m: &'a mut HashMap<u64, V>, k: &u64) -> (ret: Option<&'a mut V>)
    ensures
        ret.is_some() == old(m)@.contains_key(*k),
        ret.is_none() ==> *final(m) == *old(m),
        ret.is_some() ==> *ret.unwrap() == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(ret.unwrap())),
{ m.get_mut(k) }

// Functions of std that the code may come to use, as they are documented.
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U> [Option::<T>::zip::<U>] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T> [Option::<Option<T>>::flatten] (a: Option<Option<T>>) -> (r: Option<T>) ensures r == (match a { Some(x) => x, None => None });
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T> [bool::then_some] (a: bool, b: T) -> (r: Option<T>) ensures r == (if a { Some(b) } else { None });
pub assume_specification<T> [std::mem::drop] (a: T);
pub assume_specification<T> [std::mem::forget] (a: T);
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@.len() == 0;
pub assume_specification<T> [<[T]>::swap] (a: &mut [T], i: usize, j: usize) requires i < old(a)@.len(), j < old(a)@.len(), ensures final(a)@ == old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int]);
pub assume_specification<T> [<[T]>::reverse] (a: &mut [T]) ensures final(a)@ == old(a)@.reverse();
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, b: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => b });
pub assume_specification<T: Clone> [<[T]>::to_vec] (a: &[T]) -> (r: Vec<T>) ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> cloned(#[trigger] a@[i], r@[i]);

/// Only used by the vacuity probes.
pub uninterp spec fn probe_here(k: int) -> bool;
