// Outputs and the operations that append to a transaction.
//@literal coinbase_id 0000000000000000000000000000000000000000000000000000000000000000
broadcast use crate::lib_base::group_base;

pub open spec fn pay_out(h: Seq<u8>, v: u64) -> Output_Output { Output_Output { Satoshis: v, LockingScript: Some(p2pkh_script(h)) } }
pub open spec fn data_script(body: Seq<u8>) -> Seq<u8> { seq![0u8, 0x6au8] + body }
pub open spec fn data_out(body: Seq<u8>) -> Output_Output { Output_Output { Satoshis: 0, LockingScript: Some(data_script(body)) } }
#[verifier::opaque]
pub open spec fn puzzle_script(secret: Seq<u8>, h: Seq<u8>) -> Seq<u8> {
    seq![0xa9u8, 0x14u8] + (hash160(secret) + (seq![0x88u8, 0x76u8, 0xa9u8, 0x14u8] + (h + seq![0x88u8, 0xacu8])))
}
pub open spec fn puzzle_out(secret: Seq<u8>, h: Seq<u8>, v: u64) -> Output_Output { Output_Output { Satoshis: v, LockingScript: Some(puzzle_script(secret, h)) } }
// C24: a data output is classified as one
pub proof fn data_classified(body: Seq<u8>)
    ensures is_data(data_script(body))
{ let s = data_script(body); assert(s[0] == 0 && s[1] == 0x6a); }
// C12: a payment is classified as one and gives the hash back
pub proof fn pay_classified(h: Seq<u8>, v: u64)
    requires h.len() == 20
    ensures is_p2pkh(pay_out(h, v).LockingScript.unwrap()), pay_out(h, v).LockingScript.unwrap().subrange(3, 23) == h
{ crate::lib_script::p2pkh_classified(h); }
// C26
pub open spec fn sum_out(v: Seq<Option<Output_Output>>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { sum_out(v, n - 1) + v[n - 1].unwrap().Satoshis as int } }
pub open spec fn outs_nonnil(v: Seq<Option<Output_Output>>, n: int) -> bool decreases n
{ if n <= 0 { true } else { outs_nonnil(v, n - 1) && v[n - 1].is_some() } }
pub proof fn outs_nonnil_at(v: Seq<Option<Output_Output>>, i: int, n: int)
    ensures (0 <= i < n && outs_nonnil(v, n)) ==> v[i].is_some()
    decreases n
{ if 0 <= i < n - 1 { outs_nonnil_at(v, i, n - 1); } }
pub proof fn sum_out_nonneg(v: Seq<Option<Output_Output>>, n: int)
    ensures sum_out(v, n) >= 0
    decreases n
{ if n > 0 { sum_out_nonneg(v, n - 1); } }
pub proof fn sum_out_grows(v: Seq<Option<Output_Output>>, i: int, n: int)
    ensures 0 <= i <= n ==> 0 <= sum_out(v, i) <= sum_out(v, n)
    decreases n
{ if 0 <= i < n { sum_out_grows(v, i, n - 1); } else { sum_out_nonneg(v, i); } }
pub open spec fn add_in(t: Transaction_Transaction, i: Option<Input_Input>) -> Transaction_Transaction { Transaction_Transaction { Inputs: t.Inputs + seq![i], ..t } }
pub open spec fn add_out(t: Transaction_Transaction, o: Option<Output_Output>) -> Transaction_Transaction { Transaction_Transaction { Outputs: t.Outputs + seq![o], ..t } }
pub open spec fn utxo_in(id: Seq<u8>, vout: u32, script: Seq<u8>, sat: u64) -> Input_Input {
    Input_Input { PreviousTxID: id, PreviousTxOutIndex: vout, PreviousTxSatoshis: sat, PreviousTxScript: Some(script), UnlockingScript: None, SequenceNumber: 0xffff_ffffu32 }
}
// one unlocking script replaced
pub open spec fn with_unlock(t: Transaction_Transaction, k: int, s: Option<Seq<u8>>) -> Transaction_Transaction {
    Transaction_Transaction { Inputs: t.Inputs.update(k, Some(Input_Input { UnlockingScript: s, ..t.Inputs[k].unwrap() })), ..t }
}
// the id an input of a coinbase spends: 64 zero digits
#[verifier::opaque]
pub open spec fn coinbase_id() -> Seq<u8> { Seq::new(64, |i: int| 0x30u8) }
