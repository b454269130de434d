// Electrum multisig redeem scripts.
broadcast use crate::lib_base::group_base;

// extended keys: opaque
pub uninterp spec fn hd_parse_err(s: Seq<u8>) -> bool;
pub uninterp spec fn hd_parse(s: Seq<u8>) -> int;
pub uninterp spec fn hd_child_err(k: int, i: int) -> bool;
pub uninterp spec fn hd_child(k: int, i: int) -> int;
pub uninterp spec fn hd_pub_err(k: int) -> bool;
pub uninterp spec fn hd_pub(k: int) -> int;
// two levels below an extended key
pub open spec fn hd_two_ok(s: Seq<u8>, a: int, b: int) -> bool {
    !hd_parse_err(s) && !hd_child_err(hd_parse(s), a) && !hd_child_err(hd_child(hd_parse(s), a), b) && !hd_pub_err(hd_child(hd_child(hd_parse(s), a), b))
}
pub open spec fn hd_two(s: Seq<u8>, a: int, b: int) -> Seq<u8> { pk_ser(hd_pub(hd_child(hd_child(hd_parse(s), a), b))) }

// a part: 0xff, extended key without checksum, two 16-bit path items
pub open spec fn el_a(p: Seq<u8>) -> int { vle16(p.subrange(79, 81)) }
pub open spec fn el_b(p: Seq<u8>) -> int { vle16(p.subrange(81, 83)) }
pub open spec fn el_xpub(p: Seq<u8>) -> Seq<u8> { b58check(p.subrange(1, 79)) }
#[verifier::opaque]
pub open spec fn el_part_ok(p: Seq<u8>) -> bool { p.len() == 83 && p[0] == 0xff && hd_two_ok(el_xpub(p), el_a(p), el_b(p)) }
#[verifier::opaque]
pub open spec fn el_key(p: Seq<u8>) -> Seq<u8> { hd_two(el_xpub(p), el_a(p), el_b(p)) }
#[verifier::opaque]
pub open spec fn el_all(ps: Seq<Seq<u8>>, n: int) -> bool decreases n { if n <= 0 { true } else { el_all(ps, n - 1) && el_part_ok(ps[n]) } }
#[verifier::opaque]
pub open spec fn el_keys(ps: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { Seq::empty() } else { el_keys(ps, n - 1) + seq![el_key(ps[n])] } }
pub open spec fn op_count(c: u8) -> int { (c as int - 0x50) % 256 }
pub open spec fn el_shape(ps: Seq<Seq<u8>>) -> bool {
    ps.len() >= 3 && all_nonempty(ps, ps.len() as int) && 2 <= op_count(ps[0][0]) <= 15 && ps[ps.len() - 1][0] == 0xae
    && el_all(ps, ps.len() - 3) && op_count(ps[ps.len() - 2][0]) == ps.len() - 3
}
pub open spec fn el_ok(s: Seq<u8>) -> bool { hex_ok(s) && decode_parts(hex_raw(s)).is_some() && el_shape(decode_parts(hex_raw(s)).unwrap()) }
pub open spec fn el_rs(ps: Seq<Seq<u8>>) -> Script_RedeemScript {
    Script_RedeemScript { SignaturesRequired: op_count(ps[0][0]) as i64, PublicKeys: el_keys(ps, ps.len() - 3), Signatures: Seq::empty() }
}
pub open spec fn el_of(s: Seq<u8>) -> Seq<Seq<u8>> { decode_parts(hex_raw(s)).unwrap() }
pub proof fn el_step(ps: Seq<Seq<u8>>, i: int)
    ensures
        el_all(ps, 0), el_keys(ps, 0) == Seq::<Seq<u8>>::empty(),
        i >= 0 ==> el_keys(ps, i + 1) == el_keys(ps, i) + seq![el_key(ps[i + 1])],
        i >= 0 ==> el_all(ps, i + 1) == (el_all(ps, i) && el_part_ok(ps[i + 1])),
        (0 <= i < ps.len() - 3 && el_all(ps, ps.len() - 3)) ==> el_part_ok(ps[i + 1]),
{
    reveal(el_all); reveal(el_keys);
    if 0 <= i < ps.len() - 3 && el_all(ps, ps.len() - 3) { el_all_at(ps, i + 1, ps.len() - 3); }
}
pub proof fn el_all_at(ps: Seq<Seq<u8>>, i: int, n: int)
    requires 1 <= i <= n, el_all(ps, n)
    ensures el_part_ok(ps[i])
    decreases n
{ reveal(el_all); if i < n { el_all_at(ps, i, n - 1); } }
pub proof fn el_keys_len(ps: Seq<Seq<u8>>, n: int)
    ensures n >= 0 ==> el_keys(ps, n).len() == n
    decreases n
{ reveal(el_keys); if n > 0 { el_keys_len(ps, n - 1); } }
pub proof fn all_nonempty_le(p: Seq<Seq<u8>>, k: int, n: int)
    ensures (k <= n && all_nonempty(p, n)) ==> all_nonempty(p, k)
    decreases n
{ if n > 0 && k < n { all_nonempty_le(p, k, n - 1); } }
// C28: success means a threshold of 2 to 15 and as many keys as the script declares
pub proof fn el_meaning(s: Seq<u8>)
    requires el_ok(s)
    ensures 2 <= el_rs(el_of(s)).SignaturesRequired <= 15, el_rs(el_of(s)).PublicKeys.len() == el_of(s).len() - 3,
        el_of(s)[0][0] == 0x50 + el_rs(el_of(s)).SignaturesRequired,
        el_of(s)[el_of(s).len() - 2][0] == (0x50 + el_rs(el_of(s)).PublicKeys.len()) % 256,
{ el_keys_len(el_of(s), el_of(s).len() - 3); }
pub proof fn el_ends(p: Seq<Seq<u8>>)
    ensures (p.len() >= 3 && all_nonempty(p, p.len() as int)) ==> p[0].len() > 0 && p[p.len() - 1].len() > 0 && p[p.len() - 2].len() > 0
{ all_nonempty_at(p, p.len() as int, 0); all_nonempty_at(p, p.len() as int, p.len() - 1); all_nonempty_at(p, p.len() as int, p.len() - 2); }
// path items as bytes
#[verifier::opaque]
pub open spec fn path_bytes(s: Seq<u16>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { path_bytes(s.drop_last()) + le16(s.last() as int) } }
pub proof fn path_step(s: Seq<u16>, d: Seq<u8>)
    ensures
        path_bytes(Seq::<u16>::empty()) == Seq::<u8>::empty(),
        d.len() >= 2 ==> path_bytes(s + seq![(d[0] as int + 256 * d[1] as int) as u16]) + d.subrange(2, d.len() as int) == path_bytes(s) + d,
        path_bytes(s).len() == 2 * s.len(),
        s.len() == 2 ==> path_bytes(s) == le16(s[0] as int) + le16(s[1] as int) && vle16(path_bytes(s).subrange(0, 2)) == s[0] && vle16(path_bytes(s).subrange(2, 4)) == s[1],
    decreases s.len()
{
    reveal(path_bytes);
    if s.len() > 0 { path_step(s.drop_last(), d); }
    if d.len() >= 2 {
        let x = (d[0] as int + 256 * d[1] as int) as u16; let t = s + seq![x];
        assert(t.drop_last() =~= s);
        assert(t.last() == x);
        assert(x % 256 == d[0] as int && x as int / 256 == d[1] as int);
        assert(le16(x as int) =~= d.subrange(0, 2));
        assert(d.subrange(0, 2) + d.subrange(2, d.len() as int) =~= d);
    }
    if s.len() == 2 {
        let t = s.drop_last();
        assert(t.drop_last() =~= Seq::<u16>::empty());
        assert(path_bytes(t.drop_last()) == Seq::<u8>::empty());
        assert(path_bytes(t) =~= le16(s[0] as int));
        assert(path_bytes(s) =~= le16(s[0] as int) + le16(s[1] as int));
        assert(path_bytes(s).subrange(0, 2) =~= le16(s[0] as int));
        assert(path_bytes(s).subrange(2, 4) =~= le16(s[1] as int));
    }
}
