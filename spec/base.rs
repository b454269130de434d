// Sequences of bytes, integers in little and big endian order, variable length integers.

pub struct Flt { pub x: int }

pub broadcast proof fn concat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }

pub broadcast proof fn concat_empty_l(a: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + a) == a
{ assert(Seq::<u8>::empty() + a =~= a); }

pub broadcast proof fn concat_empty_r(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a
{ assert(a + Seq::<u8>::empty() =~= a); }

pub broadcast proof fn sub_full(a: Seq<u8>, n: int)
    requires n == a.len()
    ensures #[trigger] a.subrange(0, n) == a
{ assert(a.subrange(0, n) =~= a); }

pub broadcast proof fn sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }

pub broadcast proof fn cat_sub_l(a: Seq<u8>, b: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= a.len()
    ensures #[trigger] (a + b).subrange(i, j) == a.subrange(i, j)
{ assert((a + b).subrange(i, j) =~= a.subrange(i, j)); }
pub broadcast proof fn cat_sub_r(a: Seq<u8>, b: Seq<u8>, i: int, j: int)
    requires a.len() <= i <= j <= a.len() + b.len()
    ensures #[trigger] (a + b).subrange(i, j) == b.subrange(i - a.len(), j - a.len())
{ assert((a + b).subrange(i, j) =~= b.subrange(i - a.len(), j - a.len())); }

pub broadcast proof fn pconcat_assoc(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, c: Seq<Seq<u8>>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn pconcat_empty_l(a: Seq<Seq<u8>>)
    ensures #[trigger] (Seq::<Seq<u8>>::empty() + a) == a
{ assert(Seq::<Seq<u8>>::empty() + a =~= a); }
pub broadcast proof fn pconcat_empty_r(a: Seq<Seq<u8>>)
    ensures #[trigger] (a + Seq::<Seq<u8>>::empty()) == a
{ assert(a + Seq::<Seq<u8>>::empty() =~= a); }

pub broadcast proof fn psub_full(a: Seq<Seq<u8>>, n: int)
    requires n == a.len()
    ensures #[trigger] a.subrange(0, n) == a
{ assert(a.subrange(0, n) =~= a); }

pub broadcast group group_base {
    psub_full,
    concat_assoc, concat_empty_l, concat_empty_r, sub_full, sub_sub, cat_sub_l, cat_sub_r, pconcat_assoc, pconcat_empty_l, pconcat_empty_r,
    crate::lib_base_hash::sha256_len, crate::lib_base_hash::ripemd160_len, crate::lib_base_idx::dig58_def, crate::lib_base_idx::dig58_range, crate::lib_base_idx::b58_enc_ext, crate::lib_base_hash::sha256_ext, crate::lib_base_hash::ripemd160_ext,
    crate::lib_base_hex::hex_enc_len, crate::lib_base_hex::hex_raw_len, crate::lib_base_hex::hex_enc_ok, crate::lib_base_hex::hex_dec_enc, crate::lib_base_hex::rev2_len,
}

// division rounding towards zero
pub open spec fn tdiv(x: int, y: int) -> int { if x >= 0 { x / y } else { -((-x) / y) } }
pub open spec fn tmod(x: int, y: int) -> int { if x >= 0 { x % y } else { -((-x) % y) } }

// shifts
pub open spec fn shr(x: int, n: int) -> int decreases n { if n <= 0 { x } else { shr(x, n - 1) / 2 } }
pub open spec fn shl(x: int, n: int) -> int decreases n { if n <= 0 { x } else { 2 * shl(x, n - 1) } }

pub open spec fn zeros(n: int) -> Seq<u8> { Seq::<u8>::new(n as nat, |zz: int| 0u8) }

pub open spec fn le16(x: int) -> Seq<u8> { seq![(x % 256) as u8, ((x / 256) % 256) as u8] }
pub open spec fn le32(x: int) -> Seq<u8> {
    seq![(x % 256) as u8, ((x / 256) % 256) as u8, ((x / 65536) % 256) as u8, ((x / 16777216) % 256) as u8]
}
pub open spec fn le64(x: int) -> Seq<u8> {
    seq![(x % 256) as u8, ((x / 256) % 256) as u8, ((x / 65536) % 256) as u8, ((x / 16777216) % 256) as u8,
        ((x / 4294967296) % 256) as u8, ((x / 1099511627776) % 256) as u8, ((x / 281474976710656) % 256) as u8, ((x / 72057594037927936) % 256) as u8]
}
// four little endian bytes, widened to l bytes
pub open spec fn le32w(x: int, l: int) -> Seq<u8> { if l == 4 { le32(x) } else { le32(x) + zeros(l - 4) } }
pub open spec fn vle16(s: Seq<u8>) -> int { s[0] as int + 256 * s[1] as int }
pub open spec fn vle32(s: Seq<u8>) -> int { s[0] as int + 256 * s[1] as int + 65536 * s[2] as int + 16777216 * s[3] as int }
pub open spec fn vle64(s: Seq<u8>) -> int {
    s[0] as int + 256 * s[1] as int + 65536 * s[2] as int + 16777216 * s[3] as int
    + 4294967296 * s[4] as int + 1099511627776 * s[5] as int + 281474976710656 * s[6] as int + 72057594037927936 * s[7] as int
}
pub open spec fn vbe32(s: Seq<u8>) -> int { s[3] as int + 256 * s[2] as int + 65536 * s[1] as int + 16777216 * s[0] as int }

pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub proof fn rev_rev(s: Seq<u8>) ensures rev(rev(s)) == s, rev(s).len() == s.len() { assert(rev(rev(s)) =~= s); }

// partial reversal: ends swapped inwards (b), filled from the front (f), filled from the back (k)
pub open spec fn rev_b(h: Seq<u8>, a: Seq<u8>, i: int) -> bool {
    h.len() == a.len() && forall|k: int| #![trigger h[k]] 0 <= k < a.len() ==> h[k] == (if k < i || k >= a.len() - i { a[a.len() - 1 - k] } else { a[k] })
}
pub open spec fn rev_f(h: Seq<u8>, a: Seq<u8>, i: int) -> bool {
    h.len() == a.len() && forall|k: int| #![trigger h[k]] 0 <= k < i ==> h[k] == a[a.len() - 1 - k]
}
pub open spec fn rev_k(h: Seq<u8>, a: Seq<u8>, i: int) -> bool {
    h.len() == a.len() && forall|k: int| #![trigger h[k]] i <= k < a.len() ==> h[k] == a[a.len() - 1 - k]
}

// ---- variable length integers (CompactSize)

pub open spec fn varint(n: int) -> Seq<u8> {
    if n < 0xfd { seq![n as u8] }
    else if n < 0x10000 { seq![0xfdu8] + le16(n) }
    else if n < 0x100000000 { seq![0xfeu8] + le32(n) }
    else { seq![0xffu8] + le64(n) }
}
pub open spec fn varint_size(s: Seq<u8>) -> int {
    if s.len() == 0 { 0 }
    else if s[0] == 0xff { if s.len() < 9 { 0 } else { 9 } }
    else if s[0] == 0xfe { if s.len() < 5 { 0 } else { 5 } }
    else if s[0] == 0xfd { if s.len() < 3 { 0 } else { 3 } }
    else { 1 }
}
pub open spec fn varint_val(s: Seq<u8>) -> int {
    if varint_size(s) == 0 { 0 }
    else if s[0] == 0xff { vle64(s.subrange(1, 9)) }
    else if s[0] == 0xfe { vle32(s.subrange(1, 5)) }
    else if s[0] == 0xfd { vle16(s.subrange(1, 3)) }
    else { s[0] as int }
}
// C01: decoding inverts encoding whatever follows
pub proof fn varint_roundtrip(n: int, t: Seq<u8>)
    requires 0 <= n <= 0xffff_ffff_ffff_ffff
    ensures varint_val(varint(n) + t) == n, varint_size(varint(n) + t) == varint(n).len(),
        varint(n).len() == (if n < 0xfd { 1int } else if n < 0x10000 { 3int } else if n < 0x100000000 { 5int } else { 9int })
{
    let s = varint(n) + t;
    if n >= 0x100000000 { assert(s.subrange(1, 9) =~= le64(n)); le64_inv(n); }
    else if n >= 0x10000 { assert(s.subrange(1, 5) =~= le32(n)); le32_inv(n); }
    else if n >= 0xfd { assert(s.subrange(1, 3) =~= le16(n)); }
}
pub proof fn le32_inv(n: int)
    requires 0 <= n <= 0xffff_ffff
    ensures vle32(le32(n)) == n, le32(n).len() == 4
{
    let q1 = n / 256; let q2 = n / 65536; let q3 = n / 16777216;
    vstd::arithmetic::div_mod::lemma_div_denominator(n, 256, 256);
    vstd::arithmetic::div_mod::lemma_div_denominator(n, 65536, 256);
    assert(q2 == q1 / 256 && q3 == q2 / 256);
    assert(n == 256 * q1 + n % 256);
    assert(q1 == 256 * q2 + q1 % 256);
    assert(q2 == 256 * q3 + q2 % 256);
    assert(0 <= q3 < 256);
    let s = le32(n);
    assert(s[0] as int == n % 256 && s[1] as int == q1 % 256 && s[2] as int == q2 % 256 && s[3] as int == q3);
}
#[verifier::rlimit(40)]
pub proof fn le64_split(n: int)
    requires 0 <= n <= 0xffff_ffff_ffff_ffff
    ensures le64(n) == le32(n % 4294967296) + le32(n / 4294967296)
{
    let hi = n / 4294967296; let lo = n % 4294967296;
    assert(n == 4294967296 * hi + lo);
    vstd::arithmetic::div_mod::lemma_div_denominator(n, 4294967296, 256);
    vstd::arithmetic::div_mod::lemma_div_denominator(n, 4294967296, 65536);
    vstd::arithmetic::div_mod::lemma_div_denominator(n, 4294967296, 16777216);
    assert(n / 256 == 16777216 * hi + lo / 256);
    assert(n / 65536 == 65536 * hi + lo / 65536);
    assert(n / 16777216 == 256 * hi + lo / 16777216);
    assert(lo % 256 == n % 256);
    assert((lo / 256) % 256 == (n / 256) % 256);
    assert((lo / 65536) % 256 == (n / 65536) % 256);
    assert((lo / 16777216) % 256 == (n / 16777216) % 256);
    assert(le64(n) =~= le32(lo) + le32(hi));
}
pub proof fn le64_inv(n: int)
    requires 0 <= n <= 0xffff_ffff_ffff_ffff
    ensures vle64(le64(n)) == n, le64(n).len() == 8
{
    let hi = n / 4294967296; let lo = n % 4294967296;
    le64_split(n); le32_inv(hi); le32_inv(lo);
    let s = le64(n);
    assert(forall|k: int| 0 <= k < 4 ==> s[k] == le32(lo)[k] && s[k + 4] == le32(hi)[k]);
    assert(s[4] == le32(hi)[0] && s[5] == le32(hi)[1] && s[6] == le32(hi)[2] && s[7] == le32(hi)[3]);
    assert(vle64(s) == vle32(le32(lo)) + 4294967296 * vle32(le32(hi)));
}
