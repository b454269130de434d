// Lexicographic order on byte strings and sorting.
use vstd::relations::*;
use vstd::seq_lib::*;
broadcast use crate::lib_base::group_base;

pub open spec fn lt_from(a: Seq<u8>, b: Seq<u8>, k: int) -> bool
    decreases b.len() - k
{
    if k < 0 || k >= b.len() { false } else if k >= a.len() { true } else if a[k] < b[k] { true } else if a[k] > b[k] { false }
    else { lt_from(a, b, k + 1) }
}
pub closed spec fn bytes_lt(a: Seq<u8>, b: Seq<u8>) -> bool { lt_from(a, b, 0) }
pub open spec fn bytes_le(a: Seq<u8>, b: Seq<u8>) -> bool { !bytes_lt(b, a) }
pub closed spec fn sort_bytes(s: Seq<Seq<u8>>) -> Seq<Seq<u8>> { s.sort_by(|a: Seq<u8>, b: Seq<u8>| bytes_le(a, b)) }

pub proof fn lt_asym(a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k
    ensures !(lt_from(a, b, k) && lt_from(b, a, k))
    decreases b.len() - k
{ if k < b.len() && k < a.len() && a[k] == b[k] { lt_asym(a, b, k + 1); } }
pub proof fn lt_total(a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), a.subrange(0, k) == b.subrange(0, k), !lt_from(a, b, k), !lt_from(b, a, k)
    ensures a == b
    decreases b.len() - k
{
    if k < b.len() && k < a.len() {
        assert(a[k] == b[k]);
        assert(a.subrange(0, k + 1) =~= a.subrange(0, k) + seq![a[k]]);
        assert(b.subrange(0, k + 1) =~= b.subrange(0, k) + seq![b[k]]);
        lt_total(a, b, k + 1);
    } else {
        assert(a.subrange(0, k) =~= a); assert(b.subrange(0, k) =~= b);
    }
}
pub proof fn lt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, k: int)
    requires 0 <= k, !lt_from(b, a, k), !lt_from(c, b, k)
    ensures !lt_from(c, a, k)
    decreases a.len() - k
{
    if k < a.len() && k < b.len() && k < c.len() {
        if a[k] == b[k] && b[k] == c[k] { lt_trans(a, b, c, k + 1); }
    }
}
pub proof fn order_total()
    ensures total_ordering(|a: Seq<u8>, b: Seq<u8>| bytes_le(a, b))
{
    let le = |a: Seq<u8>, b: Seq<u8>| bytes_le(a, b);
    assert forall|x: Seq<u8>| #[trigger] le(x, x) by { lt_asym(x, x, 0); }
    assert forall|x: Seq<u8>, y: Seq<u8>| #[trigger] le(x, y) && #[trigger] le(y, x) implies x == y by {
        assert(x.subrange(0, 0) =~= y.subrange(0, 0)); lt_total(x, y, 0);
    }
    assert forall|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| #[trigger] le(x, y) && #[trigger] le(y, z) implies le(x, z) by { lt_trans(x, y, z, 0); }
    assert forall|x: Seq<u8>, y: Seq<u8>| #[trigger] le(x, y) || #[trigger] le(y, x) by { lt_asym(x, y, 0); }
}
pub open spec fn ascending(s: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !bytes_lt(#[trigger] s[j], #[trigger] s[i]) }
// C23: sorting yields an ascending permutation
pub proof fn sort_is_sorted(s: Seq<Seq<u8>>)
    ensures ascending(sort_bytes(s)), sort_bytes(s).to_multiset() == s.to_multiset(), sort_bytes(s).len() == s.len()
{
    let le = |a: Seq<u8>, b: Seq<u8>| bytes_le(a, b);
    order_total();
    s.lemma_sort_by_ensures(le);
    let r = sort_bytes(s);
    assert(r == s.sort_by(le));
    assert(sorted_by(r, le));
    s.to_multiset_ensures(); r.to_multiset_ensures();
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !bytes_lt(#[trigger] r[j], #[trigger] r[i]) by { assert(le(r[i], r[j])); }
}
pub broadcast proof fn sort_len(s: Seq<Seq<u8>>)
    ensures (#[trigger] sort_bytes(s)).len() == s.len()
{ sort_is_sorted(s); }
// C20: the result does not depend on the order of the arguments, and sorting twice changes nothing
pub proof fn sort_order_free(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires a.to_multiset() == b.to_multiset()
    ensures sort_bytes(a) == sort_bytes(b)
{
    let le = |a: Seq<u8>, b: Seq<u8>| bytes_le(a, b);
    order_total();
    a.lemma_sort_by_ensures(le); b.lemma_sort_by_ensures(le);
    lemma_sorted_unique(sort_bytes(a), sort_bytes(b), le);
}
pub broadcast proof fn sort_idem(s: Seq<Seq<u8>>)
    ensures #[trigger] sort_bytes(sort_bytes(s)) == sort_bytes(s)
{ sort_is_sorted(s); sort_order_free(sort_bytes(s), s); }
// a list that is an ascending permutation is the sorted list
pub proof fn sorted_is(a: Seq<Seq<u8>>, s: Seq<Seq<u8>>)
    requires ascending(a), a.to_multiset() == s.to_multiset()
    ensures a == sort_bytes(s)
{
    let le = |a: Seq<u8>, b: Seq<u8>| bytes_le(a, b);
    order_total();
    sort_is_sorted(s); sort_order_free(a, s);
    assert(sorted_by(a, le)) by {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] le(a[i], a[j]) by { assert(!bytes_lt(a[j], a[i])); }
    }
    a.lemma_sort_by_ensures(le);
    lemma_sorted_unique(a, sort_bytes(a), le);
}
