// The replay-protected signature hash.
broadcast use crate::lib_base::group_base;

#[verifier::opaque]
pub open spec fn outpoints(v: Seq<Option<Input_Input>>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { outpoints(v, n - 1) + outpoint(v[n - 1].unwrap()) } }
#[verifier::opaque]
pub open spec fn sequences(v: Seq<Option<Input_Input>>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { sequences(v, n - 1) + le32(v[n - 1].unwrap().SequenceNumber as int) } }
pub proof fn outpoints_step(v: Seq<Option<Input_Input>>, i: int)
    ensures outpoints(v, 0) == Seq::<u8>::empty(),
        i >= 0 ==> outpoints(v, i + 1) == outpoints(v, i) + (rev(hex_any(v[i].unwrap().PreviousTxID)) + le32(v[i].unwrap().PreviousTxOutIndex as int))
{ reveal(outpoints); }
pub proof fn sequences_step(v: Seq<Option<Input_Input>>, i: int)
    ensures sequences(v, 0) == Seq::<u8>::empty(),
        i >= 0 ==> sequences(v, i).len() == 4 * i,
        i >= 0 ==> sequences(v, i + 1) == sequences(v, i) + le32(v[i].unwrap().SequenceNumber as int)
    decreases i
{ reveal(sequences); if i > 0 { sequences_step(v, i - 1); } }
pub proof fn ser_outs_step(v: Seq<Option<Output_Output>>, i: int)
    ensures ser_outs(v, 0) == Seq::<u8>::empty(),
        i >= 0 ==> ser_outs(v, i + 1) == ser_outs(v, i) + ser_out(v[i].unwrap())
{ reveal(ser_outs); }

pub open spec fn flag_sel(f: int) -> int { f % 32 }
pub open spec fn flag_acp(f: int) -> bool { (f / 128) % 2 == 1 }
pub open spec fn prevouts_hash(t: Transaction_Transaction) -> Seq<u8> { sha256d(outpoints(t.Inputs, t.Inputs.len() as int)) }
pub open spec fn sequence_hash(t: Transaction_Transaction) -> Seq<u8> { sha256d(sequences(t.Inputs, t.Inputs.len() as int)) }
// hash of all outputs (n = -1) or of one
pub open spec fn outputs_hash(t: Transaction_Transaction, n: int) -> Seq<u8> { if n == -1 { sha256d(outs_all(t)) } else { sha256d(ser_out(t.Outputs[n].unwrap())) } }
pub open spec fn sh_prevouts(t: Transaction_Transaction, f: int) -> Seq<u8> { if flag_acp(f) { zeros(32) } else { prevouts_hash(t) } }
pub open spec fn sh_sequence(t: Transaction_Transaction, f: int) -> Seq<u8> {
    if flag_acp(f) || flag_sel(f) == 3 || flag_sel(f) == 2 { zeros(32) } else { sequence_hash(t) }
}
pub open spec fn sh_outputs(t: Transaction_Transaction, k: int, f: int) -> Seq<u8> {
    if flag_sel(f) != 3 && flag_sel(f) != 2 { outputs_hash(t, -1) }
    else if flag_sel(f) == 3 && k < t.Outputs.len() { outputs_hash(t, k) }
    else { zeros(32) }
}
#[verifier::opaque]
pub open spec fn preimage(t: Transaction_Transaction, k: int, f: int) -> Seq<u8> {
    let i = t.Inputs[k].unwrap(); let s = i.PreviousTxScript.unwrap();
    le32(t.Version as int) + (sh_prevouts(t, f) + (sh_sequence(t, f) + (rev(hex_any(i.PreviousTxID)) + (le32(i.PreviousTxOutIndex as int)
        + (varint(s.len() as int) + (s + (le64(i.PreviousTxSatoshis as int) + (le32(i.SequenceNumber as int)
        + (sh_outputs(t, k, f) + (le32(t.Locktime as int) + le32(f)))))))))))
}
pub open spec fn sighash(t: Transaction_Transaction, k: int, f: int) -> Seq<u8> { rev(sha256d(preimage(t, k, f))) }
pub open spec fn can_sign(t: Transaction_Transaction, k: int) -> bool {
    k < t.Inputs.len() && t.Inputs[k].is_some() && t.Inputs[k].unwrap().PreviousTxID.len() > 0 && t.Inputs[k].unwrap().PreviousTxScript.is_some()
}
// a buffer of fixed size filled from the left
pub open spec fn starts(b: Seq<u8>, e: Seq<u8>) -> bool { b.len() >= e.len() && (forall|j: int| 0 <= j < e.len() ==> #[trigger] b[j] == e[j]) }
pub proof fn starts_all(b: Seq<u8>, e: Seq<u8>) ensures starts(b, e) && b.len() == e.len() ==> b == e
{ if starts(b, e) && b.len() == e.len() { assert(b =~= e); } }
