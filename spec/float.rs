// Difficulty, hash rate and their display, with floating point read as real arithmetic.
broadcast use crate::lib_base::group_base;

pub open spec fn target_one() -> int { 0xFFFF * pow256(26) }
pub open spec fn diff_of(target: int) -> real { target_one() as real / (target as real) }
// expected number of hashes for one block at a target
pub open spec fn work_of(target: int) -> real { pow256(32) as real / (target as real) }
pub open spec fn main_bits() -> Seq<u8> { seq![49u8, 100u8, 48u8, 48u8, 102u8, 102u8, 102u8, 102u8] }
pub open spec fn reg_bits() -> Seq<u8> { seq![50u8, 48u8, 55u8, 102u8, 102u8, 102u8, 102u8, 102u8] }
#[verifier::opaque]
pub open spec fn main_work() -> real { work_of(bits_target(main_bits())) }
#[verifier::opaque]
pub open spec fn reg_work() -> real { work_of(bits_target(reg_bits())) }
pub open spec fn chain_work(coin: Seq<u8>) -> real { if coin.len() > 0 && coin[0] == 82 { reg_work() } else { main_work() } }

pub open spec fn ipow(x: int, n: int) -> int decreases n { if n <= 0 { 1 } else { x * ipow(x, n - 1) } }
pub open spec fn rpow(x: real, n: int) -> real decreases n { if n <= 0 { 1real } else { x * rpow(x, n - 1) } }
pub uninterp spec fn bf_val(f: int) -> real;
pub uninterp spec fn bf_of(x: real) -> int;
pub uninterp spec fn dec_int(n: int) -> Seq<u8>;
pub uninterp spec fn pf_val(s: Seq<u8>) -> Option<real>;
pub uninterp spec fn fmt_fix(digits: int, x: real) -> Seq<u8>;
#[verifier::external_body]
pub proof fn bf_val_of() ensures forall|x: real| #[trigger] bf_val(bf_of(x)) == x { }
// a decimal numeral of magnitude below 2^1000 denotes a finite float64
#[verifier::external_body]
pub proof fn pf_dec()
    ensures forall|n: int| (0 <= n < pow256(125)) ==> #[trigger] pf_val(dec_int(n)) == Some(n as real)
{ }

pub proof fn ipow2(k: int)
    requires k >= 0
    ensures ipow(2, 8 * k) == pow256(k)
    decreases k
{
    if k > 0 {
        ipow2(k - 1);
        let n = 8 * k;
        assert(ipow(2, n) == 2 * ipow(2, n - 1)); assert(ipow(2, n - 1) == 2 * ipow(2, n - 2)); assert(ipow(2, n - 2) == 2 * ipow(2, n - 3)); assert(ipow(2, n - 3) == 2 * ipow(2, n - 4));
        assert(ipow(2, n - 4) == 2 * ipow(2, n - 5)); assert(ipow(2, n - 5) == 2 * ipow(2, n - 6)); assert(ipow(2, n - 6) == 2 * ipow(2, n - 7)); assert(ipow(2, n - 7) == 2 * ipow(2, n - 8));
    }
}
pub proof fn rpow_int(x: int, n: int)
    ensures rpow(x as real, n) == ipow(x, n) as real
    decreases n
{
    if n > 0 { rpow_int(x, n - 1); let p = ipow(x, n - 1); assert((x * p) as real == (x as real) * (p as real)) by(nonlinear_arith); }
}
pub proof fn rpow_256() ensures rpow(2real, 256) == pow256(32) as real { rpow_int(2, 256); ipow2(32); }
pub proof fn target_one_lit() ensures 26959535291011309493156476344723991336010898738574164086137773096960real == target_one() as real
{ assert(0xFFFF * pow256(26) == 26959535291011309493156476344723991336010898738574164086137773096960) by(compute_only); }
pub proof fn rmul_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn rmul_div(a: real, b: real, c: real) ensures c != 0real ==> (a * b) / c == (a / c) * b && (a * b) / c == a * (b / c)
{ if c != 0real { assert((a * b) / c == (a / c) * b && (a * b) / c == a * (b / c)) by(nonlinear_arith) requires c != 0real; } }
pub proof fn pow256_mono(a: int, b: int)
    requires a <= b
    ensures pow256(a) <= pow256(b)
    decreases b - a
{ if a < b { pow256_pos(b - 1); pow256_mono(a, b - 1); } }

// the two reference targets are well formed
pub proof fn ref_bits()
    ensures bits_ok(main_bits()), bits_ok(reg_bits()), bits_target(main_bits()) > 0, bits_target(reg_bits()) > 0
{
    let m = main_bits(); let r = reg_bits();
    hex_raw_8(m); hex_raw_8(r);
    assert(vbe32(hex_raw(m)) == 0x1d00ffff);
    assert(vbe32(hex_raw(r)) == 0x207fffff);
    reveal(target);
    pow256_pos(26); pow256_pos(29);
    let p = pow256(26); let q = pow256(29);
    assert(0xffff * p > 0 && 0x7fffff * q > 0) by(nonlinear_arith) requires p >= 1, q >= 1;
}
pub proof fn work_defs() ensures main_work() == pow256(32) as real / (bits_target(main_bits()) as real), reg_work() == pow256(32) as real / (bits_target(reg_bits()) as real)
{ reveal(main_work); reveal(reg_work); }

// ladder of units
pub open spec fn human(v: real) -> Seq<u8> {
    if v >= 1000000000000000000000real { fmt_fix(2, v / 1000000000000000000000real) + seq![32u8, 90u8, 72u8, 47u8, 115u8] }
    else if v >= 1000000000000000000real { fmt_fix(2, v / 1000000000000000000real) + seq![32u8, 69u8, 72u8, 47u8, 115u8] }
    else if v >= 1000000000000000real { fmt_fix(2, v / 1000000000000000real) + seq![32u8, 80u8, 72u8, 47u8, 115u8] }
    else if v >= 1000000000000real { fmt_fix(2, v / 1000000000000real) + seq![32u8, 84u8, 72u8, 47u8, 115u8] }
    else if v >= 1000000000real { fmt_fix(2, v / 1000000000real) + seq![32u8, 71u8, 72u8, 47u8, 115u8] }
    else if v >= 1000000real { fmt_fix(2, v / 1000000real) + seq![32u8, 77u8, 72u8, 47u8, 115u8] }
    else if v >= 1000real { fmt_fix(2, v / 1000real) + seq![32u8, 107u8, 72u8, 47u8, 115u8] }
    else { fmt_fix(2, v) + seq![32u8, 72u8, 47u8, 115u8] }
}
pub proof fn target_exp(c: int)
    requires 0 <= c <= 0xffff_ffff
    ensures ({
        let m = c % 0x100_0000; let e = c / 0x100_0000;
        target(c) > 0 ==> (e >= 3 ==> m * ipow(2, 8 * (e - 3)) == target(c)) && (e <= 3 ==> shr(m, 8 * (3 - e)) == target(c)) && (e >= 3 ==> shl(m, 8 * (e - 3)) == target(c))
    })
{
    reveal(target);
    let m = c % 0x80_0000; let e = c / 0x100_0000;
    if target(c) > 0 {
        target_shifts(c);
        assert(m == c % 0x100_0000);
        if e <= 3 { shr8(m, 3 - e); if e == 3 { ipow2(0); } } else { ipow2(e - 3); shl8(m, e - 3); }
    }
}
