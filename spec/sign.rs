// Signing.
broadcast use crate::lib_base::group_base;

pub uninterp spec fn pub_of(k: int) -> int;
pub uninterp spec fn ecdsa_err(k: int, h: Seq<u8>) -> bool;
pub uninterp spec fn ecdsa_sig(k: int, h: Seq<u8>) -> int;
pub uninterp spec fn der(s: int) -> Seq<u8>;

// an unset flag means ALL|FORKID
pub open spec fn flag_of(is: Signature_InternalSigner) -> int { if is.SigHashFlag == 0 { 0x41 } else { is.SigHashFlag as int } }
pub open spec fn flagged(is: Signature_InternalSigner) -> Signature_InternalSigner { Signature_InternalSigner { SigHashFlag: flag_of(is) as u8, ..is } }
// two pushes: signature with flag, public key
#[verifier::opaque]
pub open spec fn unlocker(k: int, h: Seq<u8>, f: int) -> Seq<u8> { enc_part(der(ecdsa_sig(k, h)) + seq![f as u8]) + enc_part(pk_ser(pub_of(k))) }
pub open spec fn signed_in(t: Transaction_Transaction, k: int, is: Signature_InternalSigner) -> Transaction_Transaction {
    with_unlock(t, k, Some(unlocker(is.PrivateKey.unwrap(), rev(sighash(t, k, flag_of(is))), flag_of(is))))
}
pub open spec fn sign_fails(t: Transaction_Transaction, k: int, is: Signature_InternalSigner) -> bool {
    !can_sign(t, k) || ecdsa_err(is.PrivateKey.unwrap(), rev(sighash(t, k, flag_of(is))))
}
// ---- signing what pays to the key
pub open spec fn pays_to(i: Input_Input, is: Signature_InternalSigner) -> bool {
    i.PreviousTxScript.is_some() && is_p2pkh(i.PreviousTxScript.unwrap())
    && i.PreviousTxScript.unwrap().subrange(3, 23) == hash160(pk_ser(pub_of(is.PrivateKey.unwrap())))
}
// the inputs after the first n have been looked at: every signature is the one signing that input alone would give
#[verifier::opaque]
pub open spec fn auto_ins(t: Transaction_Transaction, n: int, is: Signature_InternalSigner) -> Seq<Option<Input_Input>> decreases n
{
    if n <= 0 { t.Inputs } else {
        let p = auto_ins(t, n - 1, is);
        if pays_to(t.Inputs[n - 1].unwrap(), is) { p.update(n - 1, signed_in(t, n - 1, is).Inputs[n - 1]) } else { p }
    }
}
#[verifier::opaque]
pub open spec fn auto_fails(t: Transaction_Transaction, n: int, is: Signature_InternalSigner) -> bool decreases n
{ if n <= 0 { false } else { auto_fails(t, n - 1, is) || pays_to(t.Inputs[n - 1].unwrap(), is) && sign_fails(t, n - 1, is) } }
pub proof fn auto_fails_later(t: Transaction_Transaction, i: int, n: int, is: Signature_InternalSigner)
    ensures (i <= n && auto_fails(t, i, is)) ==> auto_fails(t, n, is)
    decreases n - i
{ reveal(auto_fails); if i < n { auto_fails_later(t, i, n - 1, is); } }

pub open spec fn with_ins(t: Transaction_Transaction, v: Seq<Option<Input_Input>>) -> Transaction_Transaction { Transaction_Transaction { Inputs: v, ..t } }
pub open spec fn bare(i: Input_Input) -> Input_Input { Input_Input { UnlockingScript: None, ..i } }
// equal except for unlocking scripts
pub open spec fn sim_at(a: Option<Input_Input>, b: Option<Input_Input>) -> bool { a == b || a.is_some() && b.is_some() && bare(a.unwrap()) == bare(b.unwrap()) }
pub open spec fn sim(v: Seq<Option<Input_Input>>, w: Seq<Option<Input_Input>>) -> bool {
    v.len() == w.len() && forall|j: int| 0 <= j < v.len() ==> sim_at(v[j], #[trigger] w[j])
}
pub proof fn sim_outpoints(v: Seq<Option<Input_Input>>, w: Seq<Option<Input_Input>>, n: int)
    requires sim(v, w), n <= v.len()
    ensures outpoints(w, n) == outpoints(v, n), sequences(w, n) == sequences(v, n), ins_there(v, n) == ins_there(w, n)
    decreases n
{
    reveal(outpoints); reveal(sequences);
    if n > 0 {
        sim_outpoints(v, w, n - 1);
        assert(sim_at(v[n - 1], w[n - 1]));
        if v[n - 1].is_some() { let a = bare(v[n - 1].unwrap()); let b = bare(w[n - 1].unwrap()); assert(a.PreviousTxID == b.PreviousTxID && a.SequenceNumber == b.SequenceNumber && a.PreviousTxOutIndex == b.PreviousTxOutIndex); }
    }
}
// C08: unlocking scripts do not enter a signature hash
pub proof fn sim_sighash(t: Transaction_Transaction, w: Seq<Option<Input_Input>>, k: int, f: int)
    requires sim(t.Inputs, w), 0 <= k
    ensures can_sign(with_ins(t, w), k) == can_sign(t, k), can_sign(t, k) ==> sighash(with_ins(t, w), k, f) == sighash(t, k, f)
{
    if k < w.len() { assert(sim_at(t.Inputs[k], w[k])); }
    if k < w.len() && w[k].is_some() {
        let a = bare(t.Inputs[k].unwrap()); let b = bare(w[k].unwrap());
        assert(a == b);
        assert(a.PreviousTxID == b.PreviousTxID && a.PreviousTxScript == b.PreviousTxScript);
        if can_sign(t, k) {
            reveal(preimage);
            sim_outpoints(t.Inputs, w, w.len() as int);
            assert(a.PreviousTxSatoshis == b.PreviousTxSatoshis && a.SequenceNumber == b.SequenceNumber && a.PreviousTxOutIndex == b.PreviousTxOutIndex);
        }
    }
}
pub proof fn auto_sim(t: Transaction_Transaction, n: int, is: Signature_InternalSigner)
    requires 0 <= n <= t.Inputs.len(), ins_there(t.Inputs, t.Inputs.len() as int)
    ensures sim(t.Inputs, auto_ins(t, n, is)), forall|j: int| n <= j < t.Inputs.len() ==> #[trigger] auto_ins(t, n, is)[j] == t.Inputs[j]
    decreases n
{
    reveal(auto_ins);
    if n > 0 {
        auto_sim(t, n - 1, is);
        ins_there_at(t.Inputs, n - 1, t.Inputs.len() as int);
        let p = auto_ins(t, n - 1, is); let q = auto_ins(t, n, is);
        assert forall|j: int| 0 <= j < t.Inputs.len() implies sim_at(t.Inputs[j], #[trigger] q[j]) by { assert(sim_at(t.Inputs[j], p[j])); }
    }
}
// one input more
pub proof fn auto_step(t: Transaction_Transaction, i: int, is: Signature_InternalSigner)
    ensures (0 <= i < t.Inputs.len() && ins_there(t.Inputs, t.Inputs.len() as int)) ==> ({
        let v = auto_ins(t, i, is); let u = with_ins(t, v);
        v.len() == t.Inputs.len() && v.subrange(0, t.Inputs.len() as int) == v && t.Inputs[i].is_some() && v[i] == t.Inputs[i]
        && ins_there(v, v.len() as int)
        && sign_fails(u, i, is) == sign_fails(t, i, is)
        && (pays_to(t.Inputs[i].unwrap(), is) && sign_fails(t, i, is) ==> auto_fails(t, t.Inputs.len() as int, is))
        && auto_fails(t, i + 1, is) == (auto_fails(t, i, is) || pays_to(t.Inputs[i].unwrap(), is) && sign_fails(t, i, is))
        && auto_ins(t, i + 1, is) == (if pays_to(t.Inputs[i].unwrap(), is) && !sign_fails(t, i, is) { signed_in(u, i, is).Inputs } else if pays_to(t.Inputs[i].unwrap(), is) { auto_ins(t, i + 1, is) } else { v })
    })
{
    if 0 <= i < t.Inputs.len() && ins_there(t.Inputs, t.Inputs.len() as int) {
        reveal(auto_ins); reveal(auto_fails);
        auto_sim(t, i, is);
        let v = auto_ins(t, i, is);
        assert(v.subrange(0, t.Inputs.len() as int) =~= v);
        ins_there_at(t.Inputs, i, t.Inputs.len() as int);
        sim_outpoints(t.Inputs, v, v.len() as int);
        sim_sighash(t, v, i, flag_of(is));
        auto_fails_later(t, i + 1, t.Inputs.len() as int, is);
    }
}
pub proof fn auto_start(t: Transaction_Transaction, is: Signature_InternalSigner)
    ensures auto_ins(t, 0, is) == t.Inputs, !auto_fails(t, 0, is)
{ reveal(auto_ins); reveal(auto_fails); }
// the flag has been set once
pub proof fn flagged_same(t: Transaction_Transaction, k: int, is: Signature_InternalSigner)
    ensures flagged(flagged(is)) == flagged(is), flag_of(flagged(is)) == flag_of(is), sign_fails(t, k, flagged(is)) == sign_fails(t, k, is), signed_in(t, k, flagged(is)) == signed_in(t, k, is)
{ }
pub proof fn hex_enc_both(a: Seq<u8>, b: Seq<u8>)
    ensures (hex_enc(a) == hex_enc(b)) == (a == b), hex_enc(a).len() == 2 * a.len(), hex_enc(b).len() == 2 * b.len()
{ hex_enc_len(a); hex_enc_len(b); hex_dec_enc(a); hex_dec_enc(b); }
