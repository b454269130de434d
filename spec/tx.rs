// Transactions: wire format.
broadcast use crate::lib_base::group_base;

pub open spec fn var_bytes(s: Seq<u8>) -> Seq<u8> { varint(s.len() as int) + s }
pub open spec fn opt_script(o: Option<Seq<u8>>) -> Seq<u8> { if o.is_some() { o.unwrap() } else { Seq::empty() } }
pub open spec fn outpoint(i: Input_Input) -> Seq<u8> { rev(hex_any(i.PreviousTxID)) + le32(i.PreviousTxOutIndex as int) }
// an input with the given unlocking script
#[verifier::opaque]
pub open spec fn ser_in_with(i: Input_Input, s: Seq<u8>) -> Seq<u8> { outpoint(i) + var_bytes(s) + le32(i.SequenceNumber as int) }
pub open spec fn ser_in(i: Input_Input) -> Seq<u8> { ser_in_with(i, opt_script(i.UnlockingScript)) }
#[verifier::opaque]
pub open spec fn ser_out(o: Output_Output) -> Seq<u8> { le64(o.Satoshis as int) + var_bytes(o.LockingScript.unwrap()) }
#[verifier::opaque]
pub open spec fn ser_ins(v: Seq<Option<Input_Input>>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { ser_ins(v, n - 1) + ser_in(v[n - 1].unwrap()) } }
#[verifier::opaque]
pub open spec fn ser_outs(v: Seq<Option<Output_Output>>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { ser_outs(v, n - 1) + ser_out(v[n - 1].unwrap()) } }
pub open spec fn ins_all(t: Transaction_Transaction) -> Seq<u8> { ser_ins(t.Inputs, t.Inputs.len() as int) }
pub open spec fn outs_all(t: Transaction_Transaction) -> Seq<u8> { ser_outs(t.Outputs, t.Outputs.len() as int) }
#[verifier::opaque]
pub open spec fn ser_tx(t: Transaction_Transaction) -> Seq<u8> {
    le32(t.Version as int) + varint(t.Inputs.len() as int) + ins_all(t) + varint(t.Outputs.len() as int) + outs_all(t) + le32(t.Locktime as int)
}
// every input up to n is there
pub open spec fn ins_there(v: Seq<Option<Input_Input>>, n: int) -> bool decreases n
{ if n <= 0 { true } else { ins_there(v, n - 1) && v[n - 1].is_some() } }
pub proof fn ins_there_at(v: Seq<Option<Input_Input>>, i: int, n: int)
    ensures (0 <= i < n && ins_there(v, n)) ==> v[i].is_some()
    decreases n
{ if 0 <= i < n - 1 { ins_there_at(v, i, n - 1); } }
pub open spec fn out_there(o: Option<Output_Output>) -> bool { o.is_some() && o.unwrap().LockingScript.is_some() }
pub open spec fn outs_there(v: Seq<Option<Output_Output>>, n: int) -> bool decreases n
{ if n <= 0 { true } else { outs_there(v, n - 1) && out_there(v[n - 1]) } }
pub proof fn outs_there_at(v: Seq<Option<Output_Output>>, i: int, n: int)
    ensures (0 <= i < n && outs_there(v, n)) ==> out_there(v[i])
    decreases n
{ if 0 <= i < n - 1 { outs_there_at(v, i, n - 1); } }
pub open spec fn tx_there(t: Transaction_Transaction) -> bool {
    ins_there(t.Inputs, t.Inputs.len() as int) && outs_there(t.Outputs, t.Outputs.len() as int)
}
// the form with cleared inputs
pub open spec fn ser_in_cleared(v: Seq<Option<Input_Input>>, k: int, index: int, s: Seq<u8>) -> Seq<u8> {
    ser_in_with(v[k].unwrap(), if k == index { s } else { Seq::empty() })
}
#[verifier::opaque]
pub open spec fn ser_ins_cleared(v: Seq<Option<Input_Input>>, n: int, index: int, s: Seq<u8>) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { ser_ins_cleared(v, n - 1, index, s) + ser_in_cleared(v, n - 1, index, s) } }
#[verifier::opaque]
pub open spec fn ser_tx_cleared(t: Transaction_Transaction, index: int, s: Seq<u8>) -> Seq<u8> {
    le32(t.Version as int) + varint(t.Inputs.len() as int) + ser_ins_cleared(t.Inputs, t.Inputs.len() as int, index, s)
    + varint(t.Outputs.len() as int) + outs_all(t) + le32(t.Locktime as int)
}
pub proof fn ser_in_def(i: Input_Input, s: Seq<u8>)
    ensures ser_in_with(i, s) == rev(hex_any(i.PreviousTxID)) + (le32(i.PreviousTxOutIndex as int) + (varint(s.len() as int) + (s + le32(i.SequenceNumber as int))))
{ reveal(ser_in_with); }
pub proof fn ser_out_def(o: Output_Output)
    ensures ser_out(o) == le64(o.Satoshis as int) + (varint(o.LockingScript.unwrap().len() as int) + o.LockingScript.unwrap())
{ reveal(ser_out); }
// the serialisation as it grows
#[verifier::opaque]
pub open spec fn st_in(t: Transaction_Transaction, i: int) -> Seq<u8> { le32(t.Version as int) + varint(t.Inputs.len() as int) + ser_ins(t.Inputs, i) }
#[verifier::opaque]
pub open spec fn st_inc(t: Transaction_Transaction, i: int, index: int, s: Seq<u8>) -> Seq<u8> { le32(t.Version as int) + varint(t.Inputs.len() as int) + ser_ins_cleared(t.Inputs, i, index, s) }
#[verifier::opaque]
pub open spec fn st_out(t: Transaction_Transaction, i: int) -> Seq<u8> {
    st_in(t, t.Inputs.len() as int) + varint(t.Outputs.len() as int) + ser_outs(t.Outputs, i)
}
#[verifier::opaque]
pub open spec fn st_outc(t: Transaction_Transaction, i: int, index: int, s: Seq<u8>) -> Seq<u8> {
    st_inc(t, t.Inputs.len() as int, index, s) + varint(t.Outputs.len() as int) + ser_outs(t.Outputs, i)
}
pub proof fn tx_ends(t: Transaction_Transaction)
    ensures
        st_in(t, 0) == le32(t.Version as int) + varint(t.Inputs.len() as int),
        st_out(t, 0) == st_in(t, t.Inputs.len() as int) + varint(t.Outputs.len() as int),
        st_out(t, t.Outputs.len() as int) + le32(t.Locktime as int) == ser_tx(t),
{ reveal(st_in); reveal(st_out); reveal(ser_tx); reveal(ser_ins); reveal(ser_outs); }
pub proof fn txc_ends(t: Transaction_Transaction, index: int, s: Seq<u8>)
    ensures
        st_inc(t, 0, index, s) == le32(t.Version as int) + varint(t.Inputs.len() as int),
        st_outc(t, 0, index, s) == st_inc(t, t.Inputs.len() as int, index, s) + varint(t.Outputs.len() as int),
        st_outc(t, t.Outputs.len() as int, index, s) + le32(t.Locktime as int) == ser_tx_cleared(t, index, s),
{ reveal(st_inc); reveal(st_outc); reveal(ser_tx_cleared); reveal(ser_ins_cleared); reveal(ser_outs); }
pub proof fn tx_step(t: Transaction_Transaction, i: int)
    ensures
        0 <= i < t.Inputs.len() ==> st_in(t, i + 1) == st_in(t, i) + ser_in(t.Inputs[i].unwrap()),
        0 <= i < t.Outputs.len() ==> st_out(t, i + 1) == st_out(t, i) + ser_out(t.Outputs[i].unwrap()),
{ reveal(st_in); reveal(st_out); reveal(ser_ins); reveal(ser_outs); }
// the parts of an input with an empty script
pub proof fn cleared_parts(i: Input_Input, s: Seq<u8>)
    ensures ({
        let z = ser_in_with(i, Seq::empty());
        z.len() >= 9 && ser_in_with(i, s) == z.subrange(0, z.len() - 5) + (varint(s.len() as int) + (s + z.subrange(z.len() - 4, z.len() as int)))
    })
{
    reveal(ser_in_with);
    let z = ser_in_with(i, Seq::empty());
    assert(varint(0).len() == 1);
    assert(z.subrange(0, z.len() - 5) =~= outpoint(i));
    assert(z.subrange(z.len() - 4, z.len() as int) =~= le32(i.SequenceNumber as int));
}
pub proof fn txc_step(t: Transaction_Transaction, i: int, index: int, s: Seq<u8>)
    ensures
        0 <= i < t.Inputs.len() ==> st_inc(t, i + 1, index, s) == st_inc(t, i, index, s) + ser_in_cleared(t.Inputs, i, index, s),
        0 <= i < t.Outputs.len() ==> st_outc(t, i + 1, index, s) == st_outc(t, i, index, s) + ser_out(t.Outputs[i].unwrap()),
        0 <= i < t.Inputs.len() ==> ser_in_cleared(t.Inputs, i, index, s) == ser_in_with(t.Inputs[i].unwrap(), if i == index { s } else { Seq::empty() }),
{ reveal(st_inc); reveal(st_outc); reveal(ser_ins_cleared); reveal(ser_outs); 
  if 0 <= i < t.Inputs.len() { cleared_parts(t.Inputs[i].unwrap(), s); } }

// sizes, for code that makes room first
pub proof fn ins_mono(v: Seq<Option<Input_Input>>, i: int, n: int)
    requires 0 <= i <= n
    ensures ser_ins(v, i).len() + 9 * (n - i) <= ser_ins(v, n).len()
    decreases n - i
{ reveal(ser_ins); if i < n { in_size_min(v[n - 1].unwrap(), opt_script(v[n - 1].unwrap().UnlockingScript)); } if i < n { ins_mono(v, i, n - 1); } }
pub proof fn insc_mono(v: Seq<Option<Input_Input>>, i: int, n: int, index: int, s: Seq<u8>)
    requires 0 <= i <= n
    ensures ser_ins_cleared(v, i, index, s).len() + 9 * (n - i) <= ser_ins_cleared(v, n, index, s).len()
    decreases n - i
{ reveal(ser_ins_cleared); if i < n { in_size_min(v[n - 1].unwrap(), if n - 1 == index { s } else { Seq::empty() }); } if i < n { insc_mono(v, i, n - 1, index, s); } }
pub proof fn outs_mono(v: Seq<Option<Output_Output>>, i: int, n: int)
    requires 0 <= i <= n
    ensures ser_outs(v, i).len() + 9 * (n - i) <= ser_outs(v, n).len()
    decreases n - i
{ reveal(ser_outs); if i < n { out_size_min(v[n - 1].unwrap()); } if i < n { outs_mono(v, i, n - 1); } }
#[verifier::opaque]
pub open spec fn sz_ins(t: Transaction_Transaction, i: int) -> int { ser_ins(t.Inputs, i).len() as int }
#[verifier::opaque]
pub open spec fn sz_insc(t: Transaction_Transaction, i: int, index: int, s: Seq<u8>) -> int { ser_ins_cleared(t.Inputs, i, index, s).len() as int }
#[verifier::opaque]
pub open spec fn sz_outs(t: Transaction_Transaction, i: int) -> int { ser_outs(t.Outputs, i).len() as int }
// one more element
pub proof fn sz_in(t: Transaction_Transaction, i: int)
    ensures sz_ins(t, 0) == 0, 0 <= i <= t.Inputs.len() ==> 9 * i <= sz_ins(t, i) <= sz_ins(t, t.Inputs.len() as int),
        0 <= i < t.Inputs.len() ==> sz_ins(t, i) + 9 + opt_script(t.Inputs[i].unwrap().UnlockingScript).len() <= sz_ins(t, i + 1) <= sz_ins(t, t.Inputs.len() as int)
{
    reveal(ser_ins); reveal(sz_ins);
    let n = t.Inputs.len() as int;
    if 0 <= i <= n { ins_mono(t.Inputs, i, n); ins_mono(t.Inputs, 0, i); }
    if 0 <= i < n { ins_mono(t.Inputs, i + 1, n); in_size_min(t.Inputs[i].unwrap(), opt_script(t.Inputs[i].unwrap().UnlockingScript)); }
}
pub proof fn in_size_min(i: Input_Input, s: Seq<u8>)
    ensures ser_in_with(i, s).len() >= 9 + s.len()
{ reveal(ser_in_with); assert(varint(s.len() as int).len() >= 1); }
pub proof fn out_size_min(o: Output_Output)
    ensures ser_out(o).len() >= 9 + o.LockingScript.unwrap().len()
{ reveal(ser_out); assert(varint(o.LockingScript.unwrap().len() as int).len() >= 1); }
pub proof fn sz_inc(t: Transaction_Transaction, i: int, index: int, s: Seq<u8>)
    ensures sz_insc(t, 0, index, s) == 0, 0 <= i <= t.Inputs.len() ==> 9 * i <= sz_insc(t, i, index, s) <= sz_insc(t, t.Inputs.len() as int, index, s),
        0 <= i < t.Inputs.len() ==> sz_insc(t, i, index, s) + 9 + (if i == index { s.len() } else { 0 }) <= sz_insc(t, i + 1, index, s) <= sz_insc(t, t.Inputs.len() as int, index, s)
{
    reveal(ser_ins_cleared); reveal(sz_insc);
    let n = t.Inputs.len() as int;
    if 0 <= i <= n { insc_mono(t.Inputs, i, n, index, s); insc_mono(t.Inputs, 0, i, index, s); }
    if 0 <= i < n { insc_mono(t.Inputs, i + 1, n, index, s); in_size_min(t.Inputs[i].unwrap(), s); in_size_min(t.Inputs[i].unwrap(), Seq::empty()); }
}
pub proof fn sz_out(t: Transaction_Transaction, i: int)
    ensures sz_outs(t, 0) == 0, 0 <= i <= t.Outputs.len() ==> 9 * i <= sz_outs(t, i) <= sz_outs(t, t.Outputs.len() as int),
        0 <= i < t.Outputs.len() ==> sz_outs(t, i) + 9 + t.Outputs[i].unwrap().LockingScript.unwrap().len() <= sz_outs(t, i + 1) <= sz_outs(t, t.Outputs.len() as int)
{
    reveal(ser_outs); reveal(sz_outs);
    let n = t.Outputs.len() as int;
    if 0 <= i <= n { outs_mono(t.Outputs, i, n); outs_mono(t.Outputs, 0, i); }
    if 0 <= i < n { outs_mono(t.Outputs, i + 1, n); out_size_min(t.Outputs[i].unwrap()); }
}
pub proof fn sz_total(t: Transaction_Transaction, index: int, s: Seq<u8>)
    ensures sz_ins(t, t.Inputs.len() as int) + sz_outs(t, t.Outputs.len() as int) <= ser_tx(t).len(),
        sz_insc(t, t.Inputs.len() as int, index, s) + sz_outs(t, t.Outputs.len() as int) <= ser_tx_cleared(t, index, s).len(),
{ reveal(ser_tx); reveal(ser_tx_cleared); reveal(sz_ins); reveal(sz_insc); reveal(sz_outs); }
