//@ include strings.vc

/// A name without its trailing digits.
pub open spec fn spec_stem(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && digit(s.last()) { spec_stem(s.drop_last()) } else { s } }
pub open spec fn taken(names: Seq<String>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == s }

proof fn lemma_stem(s: Seq<char>, p: Seq<char>)
    requires
        p.len() <= s.len(), p == s.take(p.len() as int),
        forall|i: int| p.len() <= i < s.len() ==> digit(#[trigger] s[i]),
        p.len() > 0 ==> !digit(p.last()),
    ensures spec_stem(s) == p,
    decreases s.len(),
{
    if s.len() > p.len() {
        assert(s.drop_last().take(p.len() as int) =~= p);
        lemma_stem(s.drop_last(), p);
    } else { assert(s =~= p); }
}
/// The candidates tried by k steps from a number: distinct as long as k does not pass all numbers.
pub open spec fn number_at(from: usize, j: int) -> usize { ((from + j) % (usize::MAX + 1)) as usize }
pub open spec fn cand(st: Seq<char>, from: usize, j: int) -> Seq<char> { st + dec(number_at(from, j)) }
proof fn lemma_cands(names: Seq<String>, st: Seq<char>, from: usize, k: int)
    requires
        0 <= k <= usize::MAX + 1,
        forall|j: int| 1 <= j <= k ==> taken(names, #[trigger] cand(st, from, j)),
    ensures k <= names.len(),
{
    let views = names.map_values(|s: String| s@);
    let cands = Seq::new(k as nat, |j: int| cand(st, from, j + 1));
    assert forall|a: int, b: int| 0 <= a < k && 0 <= b < k && cands[a] == cands[b] implies a == b by {
        let (x, y) = (number_at(from, a + 1), number_at(from, b + 1));
        assert(dec(x) =~= (st + dec(x)).skip(st.len() as int));
        assert(dec(y) =~= (st + dec(y)).skip(st.len() as int));
        axiom_dec_injective(x, y);
        assert(a == b) by (nonlinear_arith)
            requires 0 <= a < k, 0 <= b < k, k <= usize::MAX + 1, 0 <= from <= usize::MAX, (from + (a + 1)) % (usize::MAX + 1) == (from + (b + 1)) % (usize::MAX + 1);
    }
    assert(cands.no_duplicates());
    assert(cands.to_set().subset_of(views.to_set())) by {
        assert forall|x: Seq<char>| cands.to_set().contains(x) implies #[trigger] views.to_set().contains(x) by {
            let j = choose|j: int| 0 <= j < k && cands[j] == x;
            assert(taken(names, cand(st, from, j + 1)));
            let i = choose|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == x;
            assert(views[i] == x);
        }
    }
    cands.unique_seq_to_set();
    views.lemma_cardinality_of_set();
    vstd::set_lib::lemma_len_subset(cands.to_set(), views.to_set());
}

//@ fn utils/functions.rs ensure_unique_name | mcall=trim_end_matches=>str_trim_end_matches mcall=len=>str_len mcall=parse=>str_parse_usize strplus
    ensures
        !taken(relative_to@, ret@),
        !taken(relative_to@, name@) ==> ret@ == name@,
        taken(relative_to@, name@) ==> exists|n: usize| ret@ == spec_stem(name@) + #[trigger] dec(n),
//@ loop 0
    invariant AUTO
        s0@ == relative_to@,
        HIT0 ==> taken(relative_to@, name@),
        !HIT0 ==> forall|i: int| 0 <= i < k0 ==> (#[trigger] relative_to@[i])@ != name@,
//@ closure 0 c: char -> r: bool
    ensures r == digit(c),
//@ hint before parse 0
    proof {
        lemma_stem(name@, stem@);
        assert(bytes(name@.take(stem@.len() as int)) == bytes(stem@));
    }
//@ hint beforeloop 1
    let ghost from = number;
    let ghost mut k: int = 0;
//@ loop 1
    invariant
        taken(relative_to@, name@), stem@ == spec_stem(name@),
        0 <= k <= relative_to@.len() <= usize::MAX, number == number_at(from, k),
        forall|j: int| 1 <= j <= k ==> taken(relative_to@, #[trigger] cand(stem@, from, j)),
    decreases relative_to@.len() - k,
//@ hint before format 0
    proof { k = k + 1; }
//@ hint after format 0
    proof { assert(number == number_at(from, k)); assert(candidate@ =~= stem@ + dec(number)); }
//@ hint loopend 1
    proof {
        assert(taken(relative_to@, cand(stem@, from, k)));
        lemma_cands(relative_to@, stem@, from, k);
    }
//@ loop 2
    invariant AUTO
        s2@ == relative_to@,
        HIT2 ==> taken(relative_to@, candidate@),
        !HIT2 ==> forall|i: int| 0 <= i < k2 ==> (#[trigger] relative_to@[i])@ != candidate@,
//@ end
