// Compact difficulty bits.
broadcast use crate::lib_base::group_base;

pub open spec fn pow256(n: int) -> int decreases n { if n <= 0 { 1 } else { 256 * pow256(n - 1) } }
pub open spec fn bits_ok(s: Seq<u8>) -> bool { s.len() == 8 && hex_ok(s) }
// mantissa * 256^(exponent - 3), rounded towards zero, negated when the sign bit is set
pub open spec fn target_mag(c: int) -> int {
    let m = c % 0x80_0000; let e = c / 0x100_0000;
    if e <= 3 { m / pow256(3 - e) } else { m * pow256(e - 3) }
}
#[verifier::opaque]
pub open spec fn target(c: int) -> int { if (c / 0x80_0000) % 2 == 1 { -target_mag(c) } else { target_mag(c) } }
pub open spec fn bits_target(s: Seq<u8>) -> int { target(vbe32(hex_raw(s))) }

// big endian, k bytes
pub open spec fn be_n(x: int, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { be_n(x / 256, k - 1) + seq![(x % 256) as u8] } }
// big endian, as many bytes as needed
pub open spec fn be_min(x: int) -> Seq<u8> decreases x { if x <= 0 { Seq::empty() } else { be_min(x / 256) + seq![(x % 256) as u8] } }
pub open spec fn be_val(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { 256 * be_val(s, n - 1) + s[n - 1] } }

pub proof fn pow256_pos(n: int) ensures pow256(n) >= 1 decreases n { if n > 0 { pow256_pos(n - 1); } }
pub proof fn shl8(x: int, k: int)
    requires k >= 0
    ensures shl(x, 8 * k) == x * pow256(k)
    decreases k
{
    if k > 0 {
        shl8(x, k - 1);
        let n = 8 * k;
        assert(shl(x, n) == 256 * shl(x, n - 8)) by {
            assert(shl(x, n) == 2 * shl(x, n - 1)); assert(shl(x, n - 1) == 2 * shl(x, n - 2)); assert(shl(x, n - 2) == 2 * shl(x, n - 3)); assert(shl(x, n - 3) == 2 * shl(x, n - 4));
            assert(shl(x, n - 4) == 2 * shl(x, n - 5)); assert(shl(x, n - 5) == 2 * shl(x, n - 6)); assert(shl(x, n - 6) == 2 * shl(x, n - 7)); assert(shl(x, n - 7) == 2 * shl(x, n - 8));
        }
        let p = pow256(k - 1);
        assert(256 * (x * p) == x * (256 * p)) by(nonlinear_arith);
    }
}
pub proof fn shr8(x: int, k: int)
    requires k >= 0, x >= 0
    ensures shr(x, 8 * k) == x / pow256(k)
    decreases k
{
    if k > 0 {
        shr8(x, k - 1);
        let n = 8 * k; let p = pow256(k - 1);
        pow256_pos(k - 1);
        assert(shr(x, n) == shr(x, n - 8) / 256) by {
            assert(shr(x, n) == shr(x, n - 1) / 2); assert(shr(x, n - 1) == shr(x, n - 2) / 2); assert(shr(x, n - 2) == shr(x, n - 3) / 2); assert(shr(x, n - 3) == shr(x, n - 4) / 2);
            assert(shr(x, n - 4) == shr(x, n - 5) / 2); assert(shr(x, n - 5) == shr(x, n - 6) / 2); assert(shr(x, n - 6) == shr(x, n - 7) / 2); assert(shr(x, n - 7) == shr(x, n - 8) / 2);
        }
        assert((x / p) / 256 == x / (p * 256)) by { vstd::arithmetic::div_mod::lemma_div_denominator(x, p, 256); }
        assert(p * 256 == 256 * p);
    }
}
pub proof fn target_shifts(c: int)
    requires 0 <= c <= 0xffff_ffff
    ensures ({
        let m = c % 0x80_0000; let e = c / 0x100_0000;
        let g = if e <= 3 { shr(m, 8 * (3 - e)) } else { shl(m, 8 * (e - 3)) };
        target(c) == (if (c / 0x80_0000) % 2 == 1 { -g } else { g }) && 0 <= g
        && (e <= 3 ==> g <= m)
    })
{
    reveal(target);
    let m = c % 0x80_0000; let e = c / 0x100_0000;
    if e <= 3 { shr8(m, 3 - e); pow256_pos(3 - e); vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(m, 1, pow256(3 - e)); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, pow256(3 - e)); }
    else { shl8(m, e - 3); pow256_pos(e - 3); let p = pow256(e - 3); assert(m * p >= 0) by(nonlinear_arith) requires m >= 0, p >= 1; }
}
// minimal and fixed width forms
pub proof fn be_step(x: int, k: int)
    requires x > 0, k > 0
    ensures be_min(x) == be_min(x / 256) + seq![(x % 256) as u8], be_n(x, k) == be_n(x / 256, k - 1) + seq![(x % 256) as u8], pow256(k) == 256 * pow256(k - 1)
{ }
pub proof fn be_zero(k: int)
    requires k >= 0
    ensures be_min(0) == Seq::<u8>::empty(), be_n(0, k) == zeros(k)
    decreases k
{ if k > 0 { be_zero(k - 1); assert(zeros(k) =~= zeros(k - 1) + seq![0u8]); } else { assert(zeros(0) =~= Seq::<u8>::empty()); } }
pub proof fn be_min_pos(x: int) requires x > 0 ensures be_min(x).len() >= 1 { }
pub proof fn zeros_cat(k: int, a: Seq<u8>, b: Seq<u8>, l: Seq<u8>)
    requires k >= 0, zeros(k) + a == b
    ensures zeros(k) + (a + l) == b + l
{ }
pub proof fn be_min_n(x: int, k: int)
    requires x >= 0, k >= 0
    ensures (be_min(x).len() <= k) == (x < pow256(k)), x < pow256(k) ==> zeros(k - be_min(x).len()) + be_min(x) == be_n(x, k)
    decreases k
{
    hide(be_min); hide(be_n); hide(pow256);
    pow256_pos(k);
    if x == 0 { be_zero(k); assert(zeros(k) + Seq::<u8>::empty() =~= zeros(k)); }
    else if k == 0 { be_min_pos(x); assert(pow256(0) == 1) by { reveal(pow256); } }
    else {
        be_step(x, k);
        be_min_n(x / 256, k - 1);
        let a = be_min(x / 256); let l = seq![(x % 256) as u8]; let p = pow256(k - 1);
        assert((x < 256 * p) == (x / 256 < p));
        if x < pow256(k) { zeros_cat(k - 1 - a.len(), a, be_n(x / 256, k - 1), l); assert(k - (a + l).len() == k - 1 - a.len()); }
    }
}
pub proof fn be_n_val(x: int, k: int)
    requires 0 <= x < pow256(k), k >= 0
    ensures be_n(x, k).len() == k, be_val(be_n(x, k), k) == x
    decreases k
{
    if k > 0 {
        be_n_val(x / 256, k - 1);
        be_val_prefix(be_n(x, k), be_n(x / 256, k - 1), k - 1);
    }
}
pub proof fn be_val_prefix(s: Seq<u8>, t: Seq<u8>, n: int)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures be_val(s, n) == be_val(t, n)
    decreases n
{ if n > 0 { be_val_prefix(s, t, n - 1); } }
// C19: the text is the number in 64 digits
pub proof fn target_text(c: int)
    requires 0 <= target(c) < pow256(32)
    ensures hex_enc(be_n(target(c), 32)).len() == 64, hex_raw(hex_enc(be_n(target(c), 32))) == be_n(target(c), 32), be_val(be_n(target(c), 32), 32) == target(c)
{ be_n_val(target(c), 32); hex_dec_enc(be_n(target(c), 32)); }
