// Scripts: pushes, decoding into parts, templates.
broadcast use crate::lib_base::group_base;

pub open spec fn push_prefix(n: int) -> Seq<u8> {
    if n <= 75 { seq![n as u8] }
    else if n <= 0xff { seq![0x4cu8, n as u8] }
    else if n <= 0xffff { seq![0x4du8] + le16(n) }
    else { seq![0x4eu8] + le32(n) }
}
pub open spec fn enc_part(d: Seq<u8>) -> Seq<u8> { push_prefix(d.len() as int) + d }
pub open spec fn enc_parts(ps: Seq<Seq<u8>>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { enc_parts(ps, n - 1) + enc_part(ps[n - 1]) }
}
pub open spec fn parts_small(ps: Seq<Seq<u8>>, n: int) -> bool
    decreases n
{
    if n <= 0 { true } else { parts_small(ps, n - 1) && ps[n - 1].len() <= 0xffff_ffff }
}
// a part too large at some position makes the whole list too large
pub proof fn parts_small_upto(ps: Seq<Seq<u8>>, k: int, n: int)
    ensures (0 <= k < n && ps[k].len() > 0xffff_ffff) ==> !parts_small(ps, n)
    decreases n
{
    if 0 <= k < n && ps[k].len() > 0xffff_ffff && k < n - 1 { parts_small_upto(ps, k, n - 1); }
}

// sizes, for code that makes room first
pub proof fn enc_parts_mono(ps: Seq<Seq<u8>>, i: int, n: int)
    requires 0 <= i <= n
    ensures enc_parts(ps, i).len() <= enc_parts(ps, n).len()
    decreases n - i
{ if i < n { enc_parts_mono(ps, i, n - 1); } }
pub proof fn enc_parts_len(ps: Seq<Seq<u8>>, i: int)
    ensures
        enc_parts(ps, 0).len() == 0,
        0 <= i <= ps.len() ==> enc_parts(ps, i).len() <= enc_parts(ps, ps.len() as int).len(),
        0 <= i < ps.len() ==> enc_parts(ps, i).len() + 1 + ps[i].len() <= enc_parts(ps, i + 1).len() <= enc_parts(ps, ps.len() as int).len(),
{
    if 0 <= i <= ps.len() { enc_parts_mono(ps, i, ps.len() as int); }
    if 0 <= i < ps.len() { enc_parts_mono(ps, i + 1, ps.len() as int); assert(push_prefix(ps[i].len() as int).len() >= 1); }
}

pub proof fn enc_single(d: Seq<u8>)
    ensures enc_parts(seq![d], 1) == enc_part(d), parts_small(seq![d], 1) == (d.len() <= 0xffff_ffff)
{
    assert(enc_parts(seq![d], 0) =~= Seq::empty());
    assert(seq![d][0] == d);
    assert(enc_parts(seq![d], 1) =~= enc_part(d));
    assert(parts_small(seq![d], 0));
}

pub proof fn enc_two(a: Seq<u8>, b: Seq<u8>)
    ensures enc_parts(seq![a, b], 2) == enc_part(a) + enc_part(b), parts_small(seq![a, b], 2) == (a.len() <= 0xffff_ffff && b.len() <= 0xffff_ffff)
{
    let p = seq![a, b];
    assert(p[0] == a && p[1] == b);
    assert(enc_parts(p, 0) =~= Seq::empty());
    assert(enc_parts(p, 1) =~= enc_part(a));
    assert(parts_small(p, 0)); assert(parts_small(p, 1) == (a.len() <= 0xffff_ffff));
}

// ---- decoding

// the size of the push (or opcode) that starts the script; -1 when its data is cut short
pub open spec fn dp_hdr(s: Seq<u8>) -> int {
    if s[0] == 0x4c { 2 } else if s[0] == 0x4d { 3 } else if s[0] == 0x4e { 5 } else if 1 <= s[0] <= 75 { 1 } else { 0 }
}
pub open spec fn dp_len(s: Seq<u8>) -> int {
    if s[0] == 0x4c { s[1] as int } else if s[0] == 0x4d { s[1] as int + 256 * s[2] as int }
    else if s[0] == 0x4e { s[1] as int + 256 * s[2] as int + 65536 * s[3] as int + 16777216 * s[4] as int }
    else if 1 <= s[0] <= 75 { s[0] as int } else { 1 }
}
pub open spec fn dp_ok(s: Seq<u8>) -> bool { s.len() >= 1 && dp_hdr(s) <= s.len() && dp_hdr(s) + dp_len(s) <= s.len() }
pub open spec fn dcat(a: Seq<Seq<u8>>, b: Option<Seq<Seq<u8>>>) -> Option<Seq<Seq<u8>>> {
    if b.is_some() { Some(a + b.unwrap()) } else { None }
}
pub open spec fn dp_part(s: Seq<u8>) -> Seq<u8> { if dp_hdr(s) == 0 { seq![s[0]] } else { s.subrange(dp_hdr(s), dp_hdr(s) + dp_len(s)) } }
pub open spec fn dp_rest(s: Seq<u8>) -> Seq<u8> { s.subrange(dp_hdr(s) + dp_len(s), s.len() as int) }
pub open spec fn decode_parts(s: Seq<u8>) -> Option<Seq<Seq<u8>>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if !dp_ok(s) { None }
    else if dp_hdr(s) + dp_len(s) <= 0 { None }
    else { dcat(seq![dp_part(s)], decode_parts(dp_rest(s))) }
}
pub proof fn dp_step(s: Seq<u8>)
    ensures s.len() == 0 ==> decode_parts(s) == Some(Seq::<Seq<u8>>::empty()),
        s.len() > 0 && !dp_ok(s) ==> decode_parts(s).is_none(),
        s.len() > 0 && dp_ok(s) ==> decode_parts(s) == dcat(seq![dp_part(s)], decode_parts(dp_rest(s))),
        dcat(Seq::<Seq<u8>>::empty(), decode_parts(s)) == decode_parts(s),
{ }
// the parts cover the whole script
pub open spec fn part_sizes(ps: Seq<Seq<u8>>, n: int) -> int decreases n { if n <= 0 { 0 } else { part_sizes(ps, n - 1) + ps[n - 1].len() } }

pub proof fn enc_part_decodes(p: Seq<u8>, t: Seq<u8>)
    requires 0 < p.len() <= 0xffff_ffff
    ensures decode_parts(enc_part(p) + t) == dcat(seq![p], decode_parts(t))
{
    let s = enc_part(p) + t; let n = p.len() as int;
    if n > 0xffff { le32_inv(n); assert(s.subrange(1, 5) =~= le32(n)); assert(s[1] == le32(n)[0] && s[2] == le32(n)[1] && s[3] == le32(n)[2] && s[4] == le32(n)[3]); }
    assert(dp_hdr(s) == push_prefix(n).len());
    assert(dp_len(s) == n);
    assert(dp_part(s) =~= p);
    assert(dp_rest(s) =~= t);
    dp_step(s);
}
pub proof fn enc_parts_decode(ps: Seq<Seq<u8>>, n: int, t: Seq<u8>)
    requires 0 <= n <= ps.len(), forall|i: int| 0 <= i < n ==> 0 < (#[trigger] ps[i]).len() <= 0xffff_ffff
    ensures decode_parts(enc_parts(ps, n) + t) == dcat(ps.subrange(0, n), decode_parts(t))
    decreases n
{
    if n == 0 {
        assert(ps.subrange(0, 0) =~= Seq::<Seq<u8>>::empty());
        assert(enc_parts(ps, 0) + t =~= t);
        dp_step(t);
    } else {
        let p = ps[n - 1];
        enc_parts_decode(ps, n - 1, enc_part(p) + t);
        enc_part_decodes(p, t);
        assert(enc_parts(ps, n) + t =~= enc_parts(ps, n - 1) + (enc_part(p) + t));
        assert(ps.subrange(0, n) =~= ps.subrange(0, n - 1) + seq![p]);
        if decode_parts(t).is_some() {
            assert(ps.subrange(0, n - 1) + (seq![p] + decode_parts(t).unwrap()) =~= ps.subrange(0, n) + decode_parts(t).unwrap());
        }
    }
}
// C09: decoding the encoding of non-empty parts gives the parts back
pub proof fn parts_roundtrip(ps: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < ps.len() ==> 0 < (#[trigger] ps[i]).len() <= 0xffff_ffff
    ensures decode_parts(enc_parts(ps, ps.len() as int)) == Some(ps)
{
    enc_parts_decode(ps, ps.len() as int, Seq::empty());
    assert(enc_parts(ps, ps.len() as int) + Seq::<u8>::empty() =~= enc_parts(ps, ps.len() as int));
    assert(ps.subrange(0, ps.len() as int) + Seq::<Seq<u8>>::empty() =~= ps);
}

// ---- templates

pub open spec fn p2pkh_script(h: Seq<u8>) -> Seq<u8> { seq![0x76u8, 0xa9u8, 0x14u8] + h + seq![0x88u8, 0xacu8] }
pub open spec fn is_p2pkh(s: Seq<u8>) -> bool {
    s.len() == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 0x14 && s[23] == 0x88 && s[24] == 0xac
}
pub open spec fn is_p2sh(s: Seq<u8>) -> bool { s.len() == 23 && s[0] == 0xa9 && s[1] == 0x14 && s[22] == 0x87 }
pub open spec fn is_data(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 0x6a || s.len() > 1 && s[0] == 0 && s[1] == 0x6a }
pub open spec fn is_pubkey_part(k: Seq<u8>) -> bool {
    k.len() == 33 && (k[0] == 2 || k[0] == 3) || k.len() == 65 && (k[0] == 4 || k[0] == 6 || k[0] == 7)
}
pub open spec fn is_p2pk(s: Seq<u8>) -> bool {
    decode_parts(s).is_some() && {
        let p = decode_parts(s).unwrap();
        p.len() == 2 && is_pubkey_part(p[0]) && p[1].len() > 0 && p[1][0] == 0xac
    }
}
pub open spec fn small_int(c: u8) -> bool { c == 0 || 0x51 <= c <= 0x60 }
pub open spec fn all_nonempty(p: Seq<Seq<u8>>, n: int) -> bool decreases n { if n <= 0 { true } else { all_nonempty(p, n - 1) && p[n - 1].len() > 0 } }
pub open spec fn is_multisig(s: Seq<u8>) -> bool {
    decode_parts(s).is_some() && {
        let p = decode_parts(s).unwrap();
        p.len() >= 3 && all_nonempty(p, p.len() as int) && small_int(p[0][0]) && small_int(p[p.len() - 2][0]) && p[p.len() - 1][0] == 0xae
    }
}
pub proof fn all_nonempty_at(p: Seq<Seq<u8>>, n: int, k: int)
    ensures (all_nonempty(p, n) && 0 <= k < n) ==> p[k].len() > 0
    decreases n
{ if n > 0 && k < n - 1 { all_nonempty_at(p, n - 1, k); } }
// C12: the canonical script is classified as P2PKH and gives the hash back
pub proof fn p2pkh_classified(h: Seq<u8>)
    requires h.len() == 20
    ensures is_p2pkh(p2pkh_script(h)), p2pkh_script(h).subrange(3, 23) == h
{ assert(p2pkh_script(h).subrange(3, 23) =~= h); }
pub proof fn p2pkh_only(s: Seq<u8>)
    requires is_p2pkh(s)
    ensures s == p2pkh_script(s.subrange(3, 23))
{ assert(s =~= p2pkh_script(s.subrange(3, 23))); }
