// Coinbase transactions in two halves.
broadcast use crate::lib_base::group_base;

pub open spec fn cut_to(s: Seq<u8>, n: int) -> Seq<u8> { if s.len() <= n { s } else { s.subrange(0, n) } }
// what the script holds before the extra nonces: the height in three bytes and the text, at most 88 bytes
pub open spec fn cb_data(height: int, text: Seq<u8>) -> Seq<u8> { cut_to(seq![3u8] + (le32(height).subrange(0, 3) + text), 88) }
pub open spec fn ff4() -> Seq<u8> { seq![0xffu8, 0xffu8, 0xffu8, 0xffu8] }
pub open spec fn cb1(height: int, text: Seq<u8>) -> Seq<u8> {
    le32(1) + (seq![1u8] + (zeros(32) + (ff4() + (varint(cb_data(height, text).len() as int + 12) + cb_data(height, text)))))
}
// a zero-value output
pub open spec fn zout(s: Seq<u8>) -> Seq<u8> { zeros(8) + (varint(s.len() as int) + s) }
pub open spec fn cb_count(wc: Seq<u8>, miner: Seq<u8>) -> int { 1 + (if wc.len() > 0 { 1int } else { 0int }) + (if miner.len() > 0 { 1int } else { 0int }) }
#[verifier::opaque]
pub open spec fn cb_outs(value: int, wc: Seq<u8>, h: Seq<u8>, miner: Seq<u8>) -> Seq<u8> {
    varint(cb_count(wc, miner)) + (le64(value) + (varint(p2pkh_script(h).len() as int) + (p2pkh_script(h)
    + ((if wc.len() > 0 { zout(hex_raw(wc)) } else { Seq::empty() }) + (if miner.len() > 0 { zout(miner) } else { Seq::empty() })))))
}
pub open spec fn cb2(value: int, wc: Seq<u8>, h: Seq<u8>, miner: Seq<u8>) -> Seq<u8> { ff4() + (cb_outs(value, wc, h, miner) + zeros(4)) }

// ---- the transaction
pub open spec fn cb_tx(height: int, value: int, wc: Seq<u8>, text: Seq<u8>, h: Seq<u8>, miner: Seq<u8>, nonce: Seq<u8>) -> Transaction_Transaction {
    Transaction_Transaction {
        Version: 1,
        Inputs: seq![Some(Input_Input { PreviousTxID: coinbase_id(), PreviousTxOutIndex: 0xffff_ffffu32, PreviousTxSatoshis: 0, PreviousTxScript: None,
            UnlockingScript: Some(cb_data(height, text) + nonce), SequenceNumber: 0xffff_ffffu32 })],
        Outputs: seq![Some(pay_out(h, value as u64))] + (if wc.len() > 0 { seq![Some(plain_out(hex_raw(wc)))] } else { Seq::empty() })
            + (if miner.len() > 0 { seq![Some(plain_out(miner))] } else { Seq::empty() }),
        Locktime: 0,
    }
}
pub open spec fn plain_out(s: Seq<u8>) -> Output_Output { Output_Output { Satoshis: 0, LockingScript: Some(s) } }
pub proof fn zeros64_hex()
    ensures hex_any(coinbase_id()) == zeros(32), rev(zeros(32)) == zeros(32)
{
    reveal(coinbase_id);
    hex_enc_zeros(32);
    assert(hex_enc(zeros(32)) =~= coinbase_id());
    assert(rev(zeros(32)) =~= zeros(32));
}
pub proof fn le_consts()
    ensures le32(1) == seq![1u8, 0u8, 0u8, 0u8], le32(0) == zeros(4), le64(0) == zeros(8), le32(0xffff_ffff) == ff4()
{
    assert(le32(0) =~= zeros(4)); assert(le64(0) =~= zeros(8)); assert(le32(1) =~= seq![1u8, 0u8, 0u8, 0u8]);
    assert(le32(0xffff_ffff) =~= ff4());
}
// the height and the text in the script
pub proof fn cb_data_facts(height: int, text: Seq<u8>)
    requires 0 <= height < 0x100_0000
    ensures
        4 <= cb_data(height, text).len() <= 88,
        cb_data(height, text)[0] == 3,
        cb_data(height, text)[1] as int + 256 * cb_data(height, text)[2] as int + 65536 * cb_data(height, text)[3] as int == height,
        cb_data(height, text).subrange(4, cb_data(height, text).len() as int) == cut_to(text, 84),
{
    let d = cb_data(height, text);
    let b = le32(height).subrange(0, 3);
    assert(b[0] == (height % 256) as u8 && b[1] == ((height / 256) % 256) as u8 && b[2] == ((height / 65536) % 256) as u8);
    assert(d[1] == b[0] && d[2] == b[1] && d[3] == b[2]);
    assert(d.subrange(4, d.len() as int) =~= cut_to(text, 84));
    assert(height == height % 256 + 256 * ((height / 256) % 256) + 65536 * ((height / 65536) % 256));
}
// the outputs of the second half
pub proof fn cb_outs_are(height: int, value: int, wc: Seq<u8>, text: Seq<u8>, h: Seq<u8>, miner: Seq<u8>, nonce: Seq<u8>)
    requires 0 <= value <= 0xffff_ffff_ffff_ffff
    ensures ({ let t = cb_tx(height, value, wc, text, h, miner, nonce); cb_outs(value, wc, h, miner) == varint(t.Outputs.len() as int) + outs_all(t) })
{
    hide(p2pkh_script); hide(varint); hide(le64); hide(cb_data);
    reveal(cb_outs); le_consts();
    let t = cb_tx(height, value, wc, text, h, miner, nonce);
    let o = t.Outputs; let p = pay_out(h, value as u64);
    assert(o[0] == Some(p));
    reveal_with_fuel(ser_outs, 2);
    assert(ser_outs(o, 0) == Seq::<u8>::empty());
    ser_out_def(p);
    assert(ser_outs(o, 1) == ser_out(p));
    let w = plain_out(hex_raw(wc)); let m = plain_out(miner);
    ser_out_def(w); ser_out_def(m);
    assert(ser_out(w) == zout(hex_raw(wc)));
    assert(ser_out(m) == zout(miner));
    if wc.len() > 0 { assert(o[1] == Some(w)); assert(ser_outs(o, 2) == ser_outs(o, 1) + ser_out(w)); }
    if miner.len() > 0 {
        if wc.len() > 0 { assert(o[2] == Some(m)); assert(ser_outs(o, 3) == ser_outs(o, 2) + ser_out(m)); }
        else { assert(o[1] == Some(m)); assert(ser_outs(o, 2) == ser_outs(o, 1) + ser_out(m)); }
    }
    assert(o.len() == cb_count(wc, miner));
}
pub proof fn varint_one() ensures varint(1) == seq![1u8] { assert(varint(1) =~= seq![1u8]); }
// C17: the halves around twelve bytes of extra nonce are that transaction
pub proof fn halves_join(height: int, value: int, wc: Seq<u8>, text: Seq<u8>, h: Seq<u8>, miner: Seq<u8>, nonce: Seq<u8>)
    requires 0 <= height < 0x100_0000, 0 <= value <= 0xffff_ffff_ffff_ffff, h.len() == 20, nonce.len() == 12, hex_ok(wc)
    ensures
        cb1(height, text) + (nonce + cb2(value, wc, h, miner)) == ser_tx(cb_tx(height, value, wc, text, h, miner, nonce)),
        4 <= cb_data(height, text).len() <= 88,
        cb_data(height, text)[0] == 3,
        cb_data(height, text)[1] as int + 256 * cb_data(height, text)[2] as int + 65536 * cb_data(height, text)[3] as int == height,
        cb_data(height, text).subrange(4, cb_data(height, text).len() as int) == cut_to(text, 84),
{
    hide(varint); hide(cb_data); hide(le32); hide(le64); hide(p2pkh_script);
    cb_data_facts(height, text);
    cb_outs_are(height, value, wc, text, h, miner, nonce);
    varint_one();
    let d = cb_data(height, text);
    reveal(ser_tx); reveal_with_fuel(ser_ins, 2);
    zeros64_hex(); le_consts();
    let t = cb_tx(height, value, wc, text, h, miner, nonce);
    let i = t.Inputs[0].unwrap();
    ser_in_def(i, d + nonce);
    assert(ser_ins(t.Inputs, 1) == ser_in(i));
    assert(ser_in(i) == zeros(32) + (ff4() + (varint(d.len() as int + 12) + (d + (nonce + ff4())))));
    assert(ser_tx(t) == le32(1) + (seq![1u8] + (ser_in(i) + (cb_outs(value, wc, h, miner) + zeros(4)))));
}
