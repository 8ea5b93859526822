//@ broadcast ax_display::group_display
// Text: what the verified functions use of str and String, as sequences of characters.
use std::fmt::{Display, Debug};
pub mod ax_display {
use vstd::prelude::*;
pub uninterp spec fn displayed<A: ?Sized>(a: &A) -> Seq<char>;
pub broadcast axiom fn axiom_display_string(a: &String) ensures #[trigger] displayed::<String>(a) == a@;
pub broadcast axiom fn axiom_display_str(a: &str) ensures #[trigger] displayed::<str>(a) == a@;
pub broadcast axiom fn axiom_display_ref(a: &&str) ensures #[trigger] displayed::<&str>(a) == (*a)@;
pub broadcast axiom fn axiom_display_refstring(a: &&String) ensures #[trigger] displayed::<&String>(a) == (*a)@;
pub broadcast group group_display { axiom_display_string, axiom_display_str, axiom_display_ref, axiom_display_refstring }
}
pub use ax_display::displayed;
/// The decimal digits of a number. Printing numbers is injective.
pub open spec fn dec(n: usize) -> Seq<char> { displayed::<usize>(&n) }
pub axiom fn axiom_dec_injective(a: usize, b: usize) requires dec(a) == dec(b) ensures a == b;

#[verifier::external_body]
pub fn fmt_lit(s: String, l: &str) -> (ret: String) ensures ret@ == s@ + l@, { let mut s = s; s.push_str(l); s }
#[verifier::external_body]
pub fn fmt_display<A: Display + ?Sized>(s: String, a: &A) -> (ret: String) ensures ret@ == s@ + displayed(a), { format!("{}{}", s, a) }

/// What {:?} prints.
pub uninterp spec fn debug_text<A: ?Sized>(a: &A) -> Seq<char>;
#[verifier::external_body]
pub fn fmt_debug<A: ?Sized>(s: String, a: &A) -> (ret: String) ensures ret@ == s@ + debug_text(a), { unimplemented!() }

/// Equality of two texts of any string types.
pub trait Text { spec fn text(&self) -> Seq<char>; fn as_text(&self) -> (ret: &str) ensures ret@ == self.text(); }
impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } fn as_text(&self) -> (ret: &str) { self } }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } fn as_text(&self) -> (ret: &str) { self.as_str() } }
impl<T: Text + ?Sized> Text for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } fn as_text(&self) -> (ret: &str) { (**self).as_text() } }
#[verifier::external_body]
pub fn str_eq<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (ret: bool) ensures ret == (a.text() == b.text()), { a.as_text() == b.as_text() }

#[verifier::external_body]
pub fn to_text<A: Text + ?Sized>(a: &A) -> (ret: String) ensures ret@ == a.text(), { a.as_text().to_string() }

/// The length in bytes of a text, additive over its characters.
pub uninterp spec fn bytes(s: Seq<char>) -> nat;
#[verifier::external_body]
pub fn str_len(s: &str) -> (ret: usize) ensures ret == bytes(s@), { s.len() }
/// s[n..] for a character boundary n.
#[verifier::external_body]
pub fn slice_from(s: &str, n: usize) -> (ret: &str)
    requires exists|k: int| 0 <= k <= s@.len() && bytes(#[trigger] s@.take(k)) == n,
    ensures exists|k: int| 0 <= k <= s@.len() && bytes(#[trigger] s@.take(k)) == n && ret@ == s@.skip(k),
{ &s[n..] }
#[verifier::external_body]
pub fn str_trim_end_matches<'a, F: Fn(char) -> bool>(s: &'a str, f: F) -> (ret: &'a str)
    requires forall|c: char| f.requires((c,)),
    ensures
        ret@.len() <= s@.len(), ret@ == s@.take(ret@.len() as int),
        forall|i: int| ret@.len() <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), true),
        ret@.len() > 0 ==> f.ensures((ret@.last(),), false),
{ s.trim_end_matches(f) }
#[verifier::external_body]
pub fn str_parse_usize(s: &str) -> (ret: Option<usize>) { s.parse().ok() }
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub assume_specification [char::is_ascii_digit] (c: &char) -> (ret: bool) ensures ret == digit(*c);
// Functions that the code does not use. They change text in ways nothing is assumed of: a changed
// function that calls one is decided, and fails, instead of being out of reach.
pub assume_specification<'a> [<String as From<&'a str>>::from] (s: &str) -> (r: String) ensures r@ == s@;
pub assume_specification<'a> [<String as From<&'a String>>::from] (s: &String) -> (r: String) ensures r@ == s@;
pub assume_specification [<String as From<Box<str>>>::from] (s: Box<str>) -> (r: String) ensures r@ == s@;
pub assume_specification<'a> [<Box<str> as From<&'a str>>::from] (s: &str) -> (r: Box<str>) ensures r@ == s@;
pub assume_specification [<String as From<char>>::from] (c: char) -> (r: String) ensures r@ == seq![c];
pub mod other_text {
use vstd::prelude::*;
pub uninterp spec fn made(how: int, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn eq_but_case(a: Seq<char>, b: Seq<char>) -> bool;
pub assume_specification<'a> [str::trim] (s: &'a str) -> (ret: &'a str) ensures ret@ == made(0, s@);
pub assume_specification<'a> [str::trim_start] (s: &'a str) -> (ret: &'a str) ensures ret@ == made(1, s@);
pub assume_specification<'a> [str::trim_end] (s: &'a str) -> (ret: &'a str) ensures ret@ == made(2, s@);
pub assume_specification [str::to_lowercase] (s: &str) -> (ret: String) ensures ret@ == made(3, s@);
pub assume_specification [str::to_uppercase] (s: &str) -> (ret: String) ensures ret@ == made(4, s@);
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (ret: String) ensures ret@ == made(5, s@);
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (ret: String) ensures ret@ == made(6, s@);
pub assume_specification [str::repeat] (s: &str, n: usize) -> (ret: String) ensures n == 1 ==> ret@ == s@, n == 0 ==> ret@.len() == 0;
pub assume_specification [str::eq_ignore_ascii_case] (a: &str, b: &str) -> (ret: bool) ensures ret == eq_but_case(a@, b@), a@ == b@ ==> ret;
}
