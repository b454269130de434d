// Texts of inputs and outputs for people.
broadcast use crate::lib_base::group_base;

// numbers as fmt and strconv print them, in base ten and sixteen
pub open spec fn digits(n: int, base: int) -> Seq<u8> decreases n via digits_shrink {
    if n < base || base < 2 { seq![hexd(n)] } else { digits(n / base, base).push(hexd(n % base)) }
}
#[via_fn]
proof fn digits_shrink(n: int, base: int) {
    if !(n < base || base < 2) { assert(0 <= n / base < n) by(nonlinear_arith) requires n >= base, base >= 2; }
}
#[verifier::opaque]
pub open spec fn fmt_d(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + digits(-n, 10) } else { digits(n, 10) } }
#[verifier::opaque]
pub open spec fn fmt_x(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + digits(-n, 16) } else { digits(n, 16) } }

pub open spec fn input_text(i: Input_Input) -> Seq<u8> {
    seq![112u8, 114u8, 101u8, 118u8, 84u8, 120u8, 72u8, 97u8, 115u8, 104u8, 58u8, 32u8, 32u8, 32u8] + i.PreviousTxID
        + seq![10u8, 112u8, 114u8, 101u8, 118u8, 79u8, 117u8, 116u8, 73u8, 110u8, 100u8, 101u8, 120u8, 58u8, 32u8] + fmt_d(i.PreviousTxOutIndex as int)
        + seq![10u8, 115u8, 99u8, 114u8, 105u8, 112u8, 116u8, 76u8, 101u8, 110u8, 58u8, 32u8, 32u8, 32u8, 32u8] + fmt_d(opt_script(i.UnlockingScript).len() as int)
        + seq![10u8, 115u8, 99u8, 114u8, 105u8, 112u8, 116u8, 58u8, 32u8, 32u8, 32u8, 32u8, 32u8, 32u8, 32u8] + hex_enc(opt_script(i.UnlockingScript))
        + seq![10u8, 115u8, 101u8, 113u8, 117u8, 101u8, 110u8, 99u8, 101u8, 58u8, 32u8, 32u8, 32u8, 32u8, 32u8] + fmt_x(i.SequenceNumber as int) + seq![10u8]
}
pub open spec fn output_text(o: Output_Output) -> Seq<u8> {
    seq![118u8, 97u8, 108u8, 117u8, 101u8, 58u8, 32u8, 32u8, 32u8, 32u8, 32u8] + fmt_d(o.Satoshis as int)
        + seq![10u8, 115u8, 99u8, 114u8, 105u8, 112u8, 116u8, 76u8, 101u8, 110u8, 58u8, 32u8] + fmt_d(opt_script(o.LockingScript).len() as int)
        + seq![10u8, 115u8, 99u8, 114u8, 105u8, 112u8, 116u8, 58u8, 32u8, 32u8, 32u8, 32u8] + hex_enc(opt_script(o.LockingScript)) + seq![10u8]
}

// the number can be read back from its digits
pub open spec fn digits_val(s: Seq<u8>, base: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { digits_val(s.drop_last(), base) * base + hexv(s.last()) }
}
pub proof fn digits_read_back(n: int, base: int)
    requires n >= 0, 2 <= base <= 16
    ensures digits_val(digits(n, base), base) == n, hex_lower(digits(n, base)), digits(n, base).len() >= 1
    decreases n
{
    hexd_hexv(n % base);
    if n >= base {
        assert(0 <= n / base < n) by(nonlinear_arith) requires n >= base, base >= 2;
        digits_read_back(n / base, base);
        assert(digits(n, base).drop_last() =~= digits(n / base, base));
        assert(n / base * base + n % base == n) by(nonlinear_arith) requires base >= 2;
    } else {
        hexd_hexv(n);
        assert(n % base == n) by(nonlinear_arith) requires 0 <= n < base;
        assert(digits(n, base).drop_last() =~= Seq::empty());
        assert(digits_val(Seq::empty(), base) == 0);
    }
}
