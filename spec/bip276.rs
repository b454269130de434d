// BIP276 text form.
broadcast use crate::lib_base::group_base;

//@literal bip276_lead bitcoin-script:
#[verifier::opaque]
pub open spec fn bip276_lead() -> Seq<u8> { seq![98u8, 105u8, 116u8, 99u8, 111u8, 105u8, 110u8, 45u8, 115u8, 99u8, 114u8, 105u8, 112u8, 116u8, 58u8] }
pub open spec fn has_prefix(s: Seq<u8>, p: Seq<u8>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
// the printf forms %.2x and %02x on byte values
pub uninterp spec fn fmt_other(flag: int, n: int) -> Seq<u8>;
pub open spec fn fmt_x2(flag: int, n: int) -> Seq<u8> { if 0 <= n <= 255 { seq![hexd(n / 16), hexd(n % 16)] } else { fmt_other(flag, n) } }
pub open spec fn bip276_payload(prefix: Seq<u8>, net: int, ver: int, data: Seq<u8>) -> Seq<u8> {
    prefix + seq![58u8] + fmt_x2(0, net) + fmt_x2(0, ver) + hex_enc(data)
}
pub open spec fn bip276_ck(prefix: Seq<u8>, net: int, ver: int, data: Seq<u8>) -> Seq<u8> {
    hex_enc(sha256d(bip276_payload(prefix, net, ver, data)).subrange(0, 4))
}
pub open spec fn bip276_text(prefix: Seq<u8>, net: int, ver: int, data: Seq<u8>) -> Seq<u8> {
    bip276_payload(prefix, net, ver, data) + bip276_ck(prefix, net, ver, data)
}
// position of the last colon before position n, -1 when there is none
pub open spec fn last_colon(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { -1 } else if s[n - 1] == 58 { n - 1 } else { last_colon(s, n - 1) } }
pub open spec fn no_newline(s: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] s[i] != 10 }
// what the regular expression ^(.+?):(hh)(hh)(h*)(hhhhhhhh)$ matches
pub open spec fn bip276_shape(t: Seq<u8>) -> Option<Seq<Seq<u8>>> {
    let p = last_colon(t, t.len() as int); let n = t.len() as int;
    if p >= 1 && n - p - 1 >= 12 && no_newline(t, p) && hex_digits(t.subrange(p + 1, n)) {
        Some(seq![t, t.subrange(0, p), t.subrange(p + 1, p + 3), t.subrange(p + 3, p + 5), t.subrange(p + 5, n - 8), t.subrange(n - 8, n)])
    } else { None }
}
pub open spec fn bip276_prefix(t: Seq<u8>) -> Seq<u8> { bip276_shape(t).unwrap()[1] }
pub open spec fn hex2(s: Seq<u8>) -> int { 16 * hexv(s[0]) + hexv(s[1]) }
pub open spec fn bip276_net(t: Seq<u8>) -> int { hex2(bip276_shape(t).unwrap()[2]) }
pub open spec fn bip276_ver(t: Seq<u8>) -> int { hex2(bip276_shape(t).unwrap()[3]) }
pub open spec fn bip276_data(t: Seq<u8>) -> Seq<u8> { hex_raw(bip276_shape(t).unwrap()[4]) }
pub open spec fn bip276_ok(t: Seq<u8>) -> bool {
    bip276_shape(t).is_some() && hex_ok(bip276_shape(t).unwrap()[4])
    && bip276_shape(t).unwrap()[5] == bip276_ck(bip276_prefix(t), bip276_net(t), bip276_ver(t), bip276_data(t))
}
pub proof fn bip276_groups(t: Seq<u8>)
    ensures bip276_shape(t).is_some() ==> ({
        let g = bip276_shape(t).unwrap();
        g.len() == 6 && g[2].len() == 2 && g[3].len() == 2 && hex_digits(g[2]) && hex_digits(g[3]) && g[5].len() == 8
        && 0 <= hex2(g[2]) <= 255 && 0 <= hex2(g[3]) <= 255
    })
{
    if bip276_shape(t).is_some() {
        let p = last_colon(t, t.len() as int); let n = t.len() as int; let h = t.subrange(p + 1, n);
        let g = bip276_shape(t).unwrap();
        assert(g[2] =~= h.subrange(0, 2)); assert(g[3] =~= h.subrange(2, 4));
        assert(g[2][0] == h[0] && g[2][1] == h[1] && g[3][0] == h[2] && g[3][1] == h[3]);
    }
}
pub proof fn last_colon_at(s: Seq<u8>, p: int, n: int)
    requires 0 <= p < n <= s.len(), s[p] == 58, forall|i: int| p < i < n ==> s[i] != 58
    ensures last_colon(s, n) == p
    decreases n
{ if n - 1 > p { last_colon_at(s, p, n - 1); } }
// a text p ':' h whose tail h is hex digits, cut at the fixed offsets
pub proof fn bip276_cut(p: Seq<u8>, n2: Seq<u8>, v2: Seq<u8>, d: Seq<u8>, c: Seq<u8>)
    requires p.len() >= 1, no_newline(p, p.len() as int), n2.len() == 2, v2.len() == 2, c.len() == 8,
        hex_digits(n2), hex_digits(v2), hex_digits(d), hex_digits(c)
    ensures bip276_shape(p + seq![58u8] + n2 + v2 + d + c) == Some(seq![p + seq![58u8] + n2 + v2 + d + c, p, n2, v2, d, c])
{
    let t = p + seq![58u8] + n2 + v2 + d + c; let q = p.len() as int; let n = t.len() as int;
    let h = n2 + v2 + d + c;
    assert(t =~= p + seq![58u8] + h);
    assert forall|i: int| 0 <= i < h.len() implies hexv(#[trigger] h[i]) >= 0 by {
        if i < 2 { assert(h[i] == n2[i]); } else if i < 4 { assert(h[i] == v2[i - 2]); } else if i < 4 + d.len() { assert(h[i] == d[i - 4]); } else { assert(h[i] == c[i - 4 - d.len()]); }
    }
    assert forall|i: int| q < i < n implies t[i] != 58 by { assert(t[i] == h[i - q - 1]); assert(hexv(h[i - q - 1]) >= 0); }
    assert(t[q] == 58);
    last_colon_at(t, q, n);
    assert(t.subrange(q + 1, n) =~= h);
    assert(no_newline(t, q)) by { assert forall|i: int| 0 <= i < q implies #[trigger] t[i] != 10 by { assert(t[i] == p[i]); } }
    assert(t.subrange(0, q) =~= p);
    assert(t.subrange(q + 1, q + 3) =~= n2);
    assert(t.subrange(q + 3, q + 5) =~= v2);
    assert(t.subrange(q + 5, n - 8) =~= d);
    assert(t.subrange(n - 8, n) =~= c);
}
pub proof fn fmt_x2_hex(n: int)
    requires 0 <= n <= 255
    ensures fmt_x2(0, n).len() == 2, hex_digits(fmt_x2(0, n)), hex2(fmt_x2(0, n)) == n
{
    hexd_hexv(n / 16); hexd_hexv(n % 16);
    let f = fmt_x2(0, n);
    assert forall|i: int| 0 <= i < f.len() implies hexv(#[trigger] f[i]) >= 0 by { if i == 0 { } else { } }
}
pub proof fn bip276_ck_hex(prefix: Seq<u8>, net: int, ver: int, data: Seq<u8>)
    ensures bip276_ck(prefix, net, ver, data).len() == 8, hex_ok(bip276_ck(prefix, net, ver, data))
{ }
// C15: decoding inverts encoding
pub proof fn bip276_roundtrip(prefix: Seq<u8>, net: int, ver: int, data: Seq<u8>)
    requires prefix.len() >= 1, no_newline(prefix, prefix.len() as int), 1 <= net <= 255, 1 <= ver <= 255
    ensures ({
        let t = bip276_text(prefix, net, ver, data);
        bip276_ok(t) && bip276_prefix(t) == prefix && bip276_net(t) == net && bip276_ver(t) == ver && bip276_data(t) == data
    })
{
    hide(bip276_shape); hide(fmt_x2); hide(hex2); hide(bip276_ck);
    let d = hex_enc(data); let c = bip276_ck(prefix, net, ver, data);
    bip276_ck_hex(prefix, net, ver, data);
    fmt_x2_hex(net); fmt_x2_hex(ver);
    assert(hex_ok(d) && hex_ok(c));
    assert(c.len() == 8);
    bip276_cut(prefix, fmt_x2(0, net), fmt_x2(0, ver), d, c);
}
