// Hexadecimal text.

pub open spec fn hexd(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
pub open spec fn hexv(c: u8) -> int {
    if 48 <= c <= 57 { c as int - 48 } else if 97 <= c <= 102 { c as int - 87 } else if 65 <= c <= 70 { c as int - 55 } else { -1 }
}
pub closed spec fn hex_enc(s: Seq<u8>) -> Seq<u8> {
    Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { hexd(s[i / 2] as int / 16) } else { hexd(s[i / 2] as int % 16) })
}
pub open spec fn hex_digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> hexv(#[trigger] s[i]) >= 0 }
pub open spec fn hex_lower(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> (48 <= #[trigger] s[i] <= 57 || 97 <= s[i] <= 102) }
pub closed spec fn hex_raw(s: Seq<u8>) -> Seq<u8> {
    Seq::new(s.len() / 2, |i: int| (16 * hexv(s[2 * i]) + hexv(s[2 * i + 1])) as u8)
}
pub open spec fn hex_ok(s: Seq<u8>) -> bool { s.len() % 2 == 0 && hex_digits(s) }
// what hex.DecodeString returns besides an error
pub uninterp spec fn hex_partial(s: Seq<u8>) -> Seq<u8>;
pub open spec fn hex_any(s: Seq<u8>) -> Seq<u8> { if hex_ok(s) { hex_raw(s) } else { hex_partial(s) } }
pub open spec fn hex_dec(s: Seq<u8>) -> Option<Seq<u8>> { if hex_ok(s) { Some(hex_raw(s)) } else { None } }

pub broadcast proof fn hex_enc_len(s: Seq<u8>) ensures (#[trigger] hex_enc(s)).len() == 2 * s.len() {}
pub broadcast proof fn hex_raw_len(s: Seq<u8>) ensures (#[trigger] hex_raw(s)).len() == s.len() / 2 {}
pub proof fn hexd_hexv(n: int) requires 0 <= n < 16 ensures hexv(hexd(n)) == n {}
pub broadcast proof fn hex_enc_ok(s: Seq<u8>)
    ensures hex_ok(#[trigger] hex_enc(s)), hex_lower(hex_enc(s))
{
    let h = hex_enc(s);
    assert forall|i: int| 0 <= i < h.len() implies hexv(#[trigger] h[i]) >= 0 && (48 <= h[i] <= 57 || 97 <= h[i] <= 102) by {
        hexd_hexv(s[i / 2] as int / 16); hexd_hexv(s[i / 2] as int % 16);
    }
}
pub broadcast proof fn hex_dec_enc(s: Seq<u8>)
    ensures hex_raw(#[trigger] hex_enc(s)) == s
{
    let h = hex_enc(s);
    assert forall|i: int| 0 <= i < s.len() implies hex_raw(h)[i] == s[i] by {
        assert((2 * i) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) / 2 == i && (2 * i + 1) % 2 == 1);
        hexd_hexv(s[i] as int / 16); hexd_hexv(s[i] as int % 16);
        assert(h[2 * i] == hexd(s[i] as int / 16));
        assert(h[2 * i + 1] == hexd(s[i] as int % 16));
    }
    assert(hex_raw(h) =~= s);
}
pub proof fn hex_enc_dec(s: Seq<u8>)
    requires hex_ok(s), hex_lower(s)
    ensures hex_enc(hex_raw(s)) == s
{
    let r = hex_raw(s);
    assert forall|i: int| 0 <= i < s.len() implies hex_enc(r)[i] == s[i] by {
        let k = i / 2;
        assert(2 * k < s.len() && 2 * k + 1 < s.len());
        assert(r[k] == (16 * hexv(s[2 * k]) + hexv(s[2 * k + 1])) as u8);
        assert(r[k] as int / 16 == hexv(s[2 * k]) && r[k] as int % 16 == hexv(s[2 * k + 1]));
        if i % 2 == 0 { assert(i == 2 * k); } else { assert(i == 2 * k + 1); }
    }
    assert(hex_enc(r) =~= s);
}
// decoding a prefix or a suffix at an even position
pub proof fn hex_raw_sub(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), a % 2 == 0, b % 2 == 0, hex_digits(s)
    ensures hex_raw(s.subrange(a, b)) == hex_raw(s).subrange(a / 2, b / 2)
{
    let l = hex_raw(s.subrange(a, b)); let r = hex_raw(s).subrange(a / 2, b / 2);
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        assert(s.subrange(a, b)[2 * i] == s[a + 2 * i]);
        assert(s.subrange(a, b)[2 * i + 1] == s[a + 2 * i + 1]);
        assert(2 * (a / 2 + i) == a + 2 * i);
    }
    assert(l =~= r);
}
pub proof fn hex_enc_cat(a: Seq<u8>, b: Seq<u8>)
    ensures hex_enc(a + b) == hex_enc(a) + hex_enc(b)
{
    let l = hex_enc(a + b); let r = hex_enc(a) + hex_enc(b);
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        if i < 2 * a.len() { assert((a + b)[i / 2] == a[i / 2]); }
        else { let j = i - 2 * a.len(); assert(j % 2 == i % 2 && j / 2 == i / 2 - a.len()); assert((a + b)[i / 2] == b[j / 2]); }
    }
    assert(l =~= r);
}

// byte pairs of a hex string in opposite order, padded on the left to even length
pub open spec fn hexpad(s: Seq<u8>) -> Seq<u8> { if s.len() % 2 != 0 { seq![48u8] + s } else { s } }
pub closed spec fn rev2(t: Seq<u8>) -> Seq<u8> { Seq::new(t.len(), |i: int| t[t.len() - 2 - 2 * (i / 2) + i % 2]) }
pub broadcast proof fn rev2_len(t: Seq<u8>) ensures (#[trigger] rev2(t)).len() == t.len() {}
pub proof fn rev2_step(t: Seq<u8>, j: int)
    ensures (t.len() % 2 == 0 && j % 2 == 0 && 0 <= j && j + 2 <= t.len()) ==>
        rev2(t).subrange(0, j + 2) == rev2(t).subrange(0, j) + t.subrange(t.len() - j - 2, t.len() - j)
{
    if t.len() % 2 == 0 && j % 2 == 0 && 0 <= j && j + 2 <= t.len() {
        let l = rev2(t).subrange(0, j + 2); let r = rev2(t).subrange(0, j) + t.subrange(t.len() - j - 2, t.len() - j);
        assert(j / 2 * 2 == j && (j + 1) / 2 == j / 2 && (j + 1) % 2 == 1);
        assert(l[j] == r[j] && l[j + 1] == r[j + 1]);
        assert(l =~= r);
    }
}
// reversing the pairs of a hex string reverses the bytes it denotes
pub proof fn rev2_front(t: Seq<u8>, j: int)
    ensures t.len() % 2 == 0 && 0 <= j && j + 2 <= t.len() && j % 2 == 0 ==>
        rev2(t).subrange(t.len() - j - 2, t.len() as int) == t.subrange(j, j + 2) + rev2(t).subrange(t.len() - j, t.len() as int)
{
    if t.len() % 2 == 0 && 0 <= j && j + 2 <= t.len() && j % 2 == 0 {
        assert(rev2(t).subrange(t.len() - j - 2, t.len() as int) =~= t.subrange(j, j + 2) + rev2(t).subrange(t.len() - j, t.len() as int));
    }
}
pub proof fn rev2_hex(s: Seq<u8>)
    requires hex_ok(s)
    ensures hex_ok(rev2(s)), hex_raw(rev2(s)) == rev(hex_raw(s))
{
    let r = rev2(s);
    assert forall|i: int| 0 <= i < r.len() implies hexv(#[trigger] r[i]) >= 0 by {
        assert(r[i] == s[s.len() - 2 - 2 * (i / 2) + i % 2]);
    }
    assert forall|i: int| 0 <= i < s.len() / 2 implies hex_raw(r)[i] == rev(hex_raw(s))[i] by {
        assert((2 * i) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) / 2 == i && (2 * i + 1) % 2 == 1);
        assert(r[2 * i] == s[s.len() - 2 - 2 * i]);
        assert(r[2 * i + 1] == s[s.len() - 1 - 2 * i]);
        assert(2 * (s.len() / 2 - 1 - i) == s.len() - 2 - 2 * i);
    }
    assert(hex_raw(r) =~= rev(hex_raw(s)));
}
pub proof fn hex_enc_zeros(n: int)
    requires n >= 0
    ensures hex_enc(zeros(n)).len() == 2 * n, forall|i: int| 0 <= i < 2 * n ==> #[trigger] hex_enc(zeros(n))[i] == 0x30u8
{ }
pub proof fn hex_raw_8(s: Seq<u8>)
    requires s.len() == 8
    ensures hex_raw(s) == seq![(16 * hexv(s[0]) + hexv(s[1])) as u8, (16 * hexv(s[2]) + hexv(s[3])) as u8, (16 * hexv(s[4]) + hexv(s[5])) as u8, (16 * hexv(s[6]) + hexv(s[7])) as u8]
{
    assert(hex_raw(s) =~= seq![(16 * hexv(s[0]) + hexv(s[1])) as u8, (16 * hexv(s[2]) + hexv(s[3])) as u8, (16 * hexv(s[4]) + hexv(s[5])) as u8, (16 * hexv(s[6]) + hexv(s[7])) as u8]);
}
