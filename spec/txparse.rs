// Transactions: parsing.
broadcast use crate::lib_base::group_base;

pub open spec fn from(b: Seq<u8>, k: int) -> Seq<u8> { b.subrange(k, b.len() as int) }
// a length-prefixed string at the start of b
pub open spec fn var_ok(b: Seq<u8>) -> bool { varint_size(b) > 0 && varint_val(b) <= b.len() - varint_size(b) }
pub open spec fn var_len(b: Seq<u8>) -> int { varint_size(b) + varint_val(b) }
pub open spec fn var_val(b: Seq<u8>) -> Seq<u8> { b.subrange(varint_size(b), var_len(b)) }

#[verifier::opaque]
pub open spec fn in_ok(b: Seq<u8>) -> bool {
    b.len() >= 36 && varint_size(from(b, 36)) > 0 && b.len() - 36 - varint_size(from(b, 36)) - 4 >= varint_val(from(b, 36))
}
#[verifier::opaque]
pub open spec fn in_size(b: Seq<u8>) -> int { 40 + var_len(from(b, 36)) }
#[verifier::opaque]
pub open spec fn in_val(b: Seq<u8>) -> Input_Input {
    Input_Input {
        PreviousTxID: hex_enc(rev(b.subrange(0, 32))),
        PreviousTxOutIndex: vle32(b.subrange(32, 36)) as u32,
        PreviousTxSatoshis: 0,
        PreviousTxScript: None,
        UnlockingScript: Some(var_val(from(b, 36))),
        SequenceNumber: vle32(b.subrange(in_size(b) - 4, in_size(b))) as u32,
    }
}
#[verifier::opaque]
pub open spec fn out_ok(b: Seq<u8>) -> bool {
    b.len() >= 8 && varint_size(from(b, 8)) > 0 && b.len() - 8 - varint_size(from(b, 8)) >= varint_val(from(b, 8))
}
#[verifier::opaque]
pub open spec fn out_size(b: Seq<u8>) -> int { 8 + var_len(from(b, 8)) }
#[verifier::opaque]
pub open spec fn out_val(b: Seq<u8>) -> Output_Output {
    Output_Output { Satoshis: vle64(b.subrange(0, 8)) as u64, LockingScript: Some(var_val(from(b, 8))) }
}
// where n inputs that start at position k end, -1 when they are not all there
#[verifier::opaque]
pub open spec fn ins_off(b: Seq<u8>, k: int, n: int) -> int decreases n
{
    if n <= 0 { k } else {
        let p = ins_off(b, k, n - 1);
        if p < 0 || p > b.len() || !in_ok(from(b, p)) { -1 } else { p + in_size(from(b, p)) }
    }
}
#[verifier::opaque]
pub open spec fn ins_val(b: Seq<u8>, k: int, n: int) -> Seq<Option<Input_Input>> decreases n
{ if n <= 0 { Seq::empty() } else { ins_val(b, k, n - 1) + seq![Some(in_val(from(b, ins_off(b, k, n - 1))))] } }
#[verifier::opaque]
pub open spec fn outs_off(b: Seq<u8>, k: int, n: int) -> int decreases n
{
    if n <= 0 { k } else {
        let p = outs_off(b, k, n - 1);
        if p < 0 || p > b.len() || !out_ok(from(b, p)) { -1 } else { p + out_size(from(b, p)) }
    }
}
#[verifier::opaque]
pub open spec fn outs_val(b: Seq<u8>, k: int, n: int) -> Seq<Option<Output_Output>> decreases n
{ if n <= 0 { Seq::empty() } else { outs_val(b, k, n - 1) + seq![Some(out_val(from(b, outs_off(b, k, n - 1))))] } }
pub proof fn ins_start(b: Seq<u8>, k: int)
    ensures ins_off(b, k, 0) == k, ins_val(b, k, 0) == Seq::<Option<Input_Input>>::empty()
{ reveal(ins_off); reveal(ins_val); }
pub proof fn outs_start(b: Seq<u8>, k: int)
    ensures outs_off(b, k, 0) == k, outs_val(b, k, 0) == Seq::<Option<Output_Output>>::empty()
{ reveal(outs_off); reveal(outs_val); }
pub proof fn ins_none(b: Seq<u8>, k: int, i: int, n: int)
    ensures (i <= n && ins_off(b, k, i) < 0) ==> ins_off(b, k, n) < 0
    decreases n - i
{ reveal(ins_off); if i < n { ins_none(b, k, i, n - 1); } }
pub proof fn outs_none(b: Seq<u8>, k: int, i: int, n: int)
    ensures (i <= n && outs_off(b, k, i) < 0) ==> outs_off(b, k, n) < 0
    decreases n - i
{ reveal(outs_off); if i < n { outs_none(b, k, i, n - 1); } }
// one input more
pub proof fn ins_step(b: Seq<u8>, k: int, i: int, n: int)
        ensures 0 <= i < n ==> ({
        let p = ins_off(b, k, i);
        (p < 0 || p > b.len() || !in_ok(from(b, p)) ==> ins_off(b, k, n) < 0)
        && (0 <= p <= b.len() && in_ok(from(b, p)) ==> ins_off(b, k, i + 1) == p + in_size(from(b, p)) && in_size(from(b, p)) >= 41 && p + in_size(from(b, p)) <= b.len())
        && ins_val(b, k, i + 1) == ins_val(b, k, i) + seq![Some(in_val(from(b, p)))]
    })
{
    reveal(ins_off); reveal(ins_val); reveal(in_ok); reveal(in_size);
    if 0 <= i < n { ins_none(b, k, i + 1, n); }
}
pub proof fn outs_step(b: Seq<u8>, k: int, i: int, n: int)
        ensures 0 <= i < n ==> ({
        let p = outs_off(b, k, i);
        (p < 0 || p > b.len() || !out_ok(from(b, p)) ==> outs_off(b, k, n) < 0)
        && (0 <= p <= b.len() && out_ok(from(b, p)) ==> outs_off(b, k, i + 1) == p + out_size(from(b, p)) && out_size(from(b, p)) >= 9 && p + out_size(from(b, p)) <= b.len())
        && outs_val(b, k, i + 1) == outs_val(b, k, i) + seq![Some(out_val(from(b, p)))]
    })
{
    reveal(outs_off); reveal(outs_val); reveal(out_ok); reveal(out_size);
    if 0 <= i < n { outs_none(b, k, i + 1, n); }
}

// positions in a transaction
pub open spec fn p_nin(b: Seq<u8>) -> int { varint_val(from(b, 4)) }
pub open spec fn p_ins(b: Seq<u8>) -> int { 4 + varint_size(from(b, 4)) }
pub open spec fn p_insend(b: Seq<u8>) -> int { ins_off(b, p_ins(b), p_nin(b)) }
pub open spec fn p_nout(b: Seq<u8>) -> int { varint_val(from(b, p_insend(b))) }
pub open spec fn p_outs(b: Seq<u8>) -> int { p_insend(b) + varint_size(from(b, p_insend(b))) }
pub open spec fn p_outsend(b: Seq<u8>) -> int { outs_off(b, p_outs(b), p_nout(b)) }
pub open spec fn tx_ok(b: Seq<u8>) -> bool {
    b.len() >= 10 && varint_size(from(b, 4)) > 0 && 0 <= p_insend(b) <= b.len()
    && varint_size(from(b, p_insend(b))) > 0 && 0 <= p_outsend(b) && p_outsend(b) + 4 == b.len()
}
pub open spec fn tx_val(b: Seq<u8>) -> Transaction_Transaction {
    Transaction_Transaction {
        Version: vle32(b.subrange(0, 4)) as u32,
        Inputs: ins_val(b, p_ins(b), p_nin(b)),
        Outputs: outs_val(b, p_outs(b), p_nout(b)),
        Locktime: vle32(b.subrange(p_outsend(b), b.len() as int)) as u32,
    }
}
