// Multisig redeem scripts.
broadcast use crate::lib_base::group_base;

// a byte that holds the length, then the key
pub open spec fn key_push(k: Seq<u8>) -> Seq<u8> { seq![(k.len() as int % 256) as u8] + k }
#[verifier::opaque]
pub open spec fn key_pushes(v: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { key_pushes(v, n - 1) + key_push(v[n - 1]) } }
pub open spec fn small_int_op(n: int) -> u8 { ((0x50 + n % 256) % 256) as u8 }
// OP_m, the keys in ascending order, OP_n, OP_CHECKMULTISIG
#[verifier::opaque]
pub open spec fn redeem(m: int, keys: Seq<Seq<u8>>) -> Seq<u8> {
    seq![small_int_op(m)] + (key_pushes(sort_bytes(keys), keys.len() as int) + seq![small_int_op(keys.len() as int), 0xaeu8])
}
pub open spec fn redeem_of(rs: Script_RedeemScript) -> Seq<u8> { redeem(rs.SignaturesRequired as int, rs.PublicKeys) }
// the script as it grows
#[verifier::opaque]
pub open spec fn st_redeem(rs: Script_RedeemScript, i: int) -> Seq<u8> { seq![small_int_op(rs.SignaturesRequired as int)] + key_pushes(sort_bytes(rs.PublicKeys), i) }
pub proof fn redeem_ends(rs: Script_RedeemScript)
    ensures st_redeem(rs, 0) == seq![small_int_op(rs.SignaturesRequired as int)],
        redeem_of(rs) == st_redeem(rs, rs.PublicKeys.len() as int) + seq![small_int_op(rs.PublicKeys.len() as int), 0xaeu8],
        sort_bytes(rs.PublicKeys).len() == rs.PublicKeys.len(), same_keys(sort_bytes(rs.PublicKeys), rs.PublicKeys)
{ reveal(st_redeem); reveal(key_pushes); reveal(redeem); sort_is_sorted(rs.PublicKeys); }
pub proof fn redeem_step(rs: Script_RedeemScript, i: int)
    ensures 0 <= i < rs.PublicKeys.len() ==> st_redeem(rs, i + 1) == st_redeem(rs, i) + key_push(sort_bytes(rs.PublicKeys)[i])
{ reveal(st_redeem); reveal(key_pushes); }
pub proof fn key_pushes_len(rs: Script_RedeemScript, i: int)
    ensures key_pushes(sort_bytes(rs.PublicKeys), 0).len() == 0,
        0 <= i <= rs.PublicKeys.len() ==> key_pushes(sort_bytes(rs.PublicKeys), i).len() <= redeem_of(rs).len() - 3,
        0 <= i < rs.PublicKeys.len() ==> key_pushes(sort_bytes(rs.PublicKeys), i + 1).len() == key_pushes(sort_bytes(rs.PublicKeys), i).len() + 1 + sort_bytes(rs.PublicKeys)[i].len()
            && key_pushes(sort_bytes(rs.PublicKeys), i + 1).len() <= redeem_of(rs).len() - 3
{
    reveal(redeem); reveal(key_pushes);
    if 0 <= i <= rs.PublicKeys.len() { key_pushes_mono(sort_bytes(rs.PublicKeys), i, rs.PublicKeys.len() as int); }
    if 0 <= i < rs.PublicKeys.len() { key_pushes_mono(sort_bytes(rs.PublicKeys), i + 1, rs.PublicKeys.len() as int); }
}
pub proof fn key_pushes_mono(v: Seq<Seq<u8>>, i: int, n: int)
    requires 0 <= i <= n
    ensures key_pushes(v, i).len() <= key_pushes(v, n).len()
    decreases n - i
{ reveal(key_pushes); if i < n { key_pushes_mono(v, i, n - 1); } }
// the same keys, perhaps in another order
pub closed spec fn same_keys(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { a.to_multiset() == b.to_multiset() }
pub broadcast proof fn same_keys_len(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires #[trigger] same_keys(a, b)
    ensures a.len() == b.len()
{ a.to_multiset_ensures(); b.to_multiset_ensures(); }
pub broadcast proof fn same_keys_refl(a: Seq<Seq<u8>>)
    ensures #[trigger] same_keys(a, a)
{ }
// C20: the script depends on the set of keys only
pub proof fn redeem_order_free(m: int, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires same_keys(a, b)
    ensures redeem(m, a) == redeem(m, b)
{ reveal(redeem); same_keys_len(a, b); sort_order_free(a, b); }
// C20: with 1 to 16 keys of 1 to 75 bytes: OP_m, direct pushes in ascending order, OP_n, OP_CHECKMULTISIG
pub proof fn redeem_canonical(m: int, keys: Seq<Seq<u8>>)
    requires 2 <= m <= 16, 1 <= keys.len() <= 16, forall|i: int| 0 <= i < keys.len() ==> 1 <= (#[trigger] keys[i]).len() <= 75
    ensures
        redeem(m, keys) == seq![(0x50 + m) as u8] + (enc_parts(sort_bytes(keys), keys.len() as int) + seq![(0x50 + keys.len()) as u8, 0xaeu8]),
        ascending(sort_bytes(keys)), same_keys(sort_bytes(keys), keys)
{
    reveal(redeem);
    sort_is_sorted(keys);
    let s = sort_bytes(keys);
    keys.to_multiset_ensures(); s.to_multiset_ensures();
    assert forall|i: int| 0 <= i < s.len() implies 1 <= (#[trigger] s[i]).len() <= 75 by {
        assert(s.to_multiset().count(s[i]) > 0);
        assert(keys.to_multiset().count(s[i]) > 0);
        assert(keys.contains(s[i]));
    }
    pushes_direct(s, s.len() as int);
}
pub proof fn pushes_direct(s: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).len() <= 75
    ensures key_pushes(s, n) == enc_parts(s, n)
    decreases n
{ reveal(key_pushes); if n > 0 { pushes_direct(s, n - 1); assert(1 <= s[n - 1].len() <= 75); } }
pub open spec fn p2sh_out(h: Seq<u8>) -> Seq<u8> { seq![0xa9u8, 0x14u8] + (h + seq![0x87u8]) }
