// Transactions: parsing inverts serialising and the other way round.
broadcast use crate::lib_base::group_base;

pub proof fn le32_back(s: Seq<u8>) requires s.len() == 4 ensures le32(vle32(s)) == s, 0 <= vle32(s) <= 0xffff_ffff, le32(vle32(s) as u32 as int) == s
{
    let a = s[0] as int; let b = s[1] as int; let c = s[2] as int; let d = s[3] as int; let v = vle32(s);
    assert(v / 256 == b + 256 * c + 65536 * d);
    assert(v / 65536 == c + 256 * d);
    assert(v / 16777216 == d);
    assert(le32(v) =~= s);
}
pub proof fn le64_back(s: Seq<u8>) requires s.len() == 8 ensures le64(vle64(s)) == s, 0 <= vle64(s) <= 0xffff_ffff_ffff_ffff, le64(vle64(s) as u64 as int) == s
{
    let lo = s.subrange(0, 4); let hi = s.subrange(4, 8); let v = vle64(s);
    let a = vle32(lo); let b = vle32(hi);
    le32_back(lo); le32_back(hi);
    assert(v == a + 4294967296 * b);
    assert(v / 4294967296 == b && v % 4294967296 == a);
    le64_split(v);
    assert(lo + hi =~= s);
}

// what the wire does not carry is dropped, an absent unlocking script is an empty one
pub open spec fn norm_in(i: Input_Input) -> Input_Input {
    Input_Input { PreviousTxSatoshis: 0, PreviousTxScript: None, UnlockingScript: Some(opt_script(i.UnlockingScript)), ..i }
}
pub open spec fn norm_ins(v: Seq<Option<Input_Input>>, n: int) -> Seq<Option<Input_Input>> decreases n
{ if n <= 0 { Seq::empty() } else { norm_ins(v, n - 1) + seq![Some(norm_in(v[n - 1].unwrap()))] } }
pub open spec fn same_outs(v: Seq<Option<Output_Output>>, n: int) -> Seq<Option<Output_Output>> decreases n
{ if n <= 0 { Seq::empty() } else { same_outs(v, n - 1) + seq![v[n - 1]] } }
pub proof fn same_outs_all(v: Seq<Option<Output_Output>>, n: int) requires 0 <= n <= v.len() ensures same_outs(v, n) == v.subrange(0, n) decreases n
{ if n > 0 { same_outs_all(v, n - 1); assert(v.subrange(0, n) =~= v.subrange(0, n - 1) + seq![v[n - 1]]); } else { assert(v.subrange(0, 0) =~= Seq::<Option<Output_Output>>::empty()); } }
pub open spec fn small(s: Seq<u8>) -> bool { s.len() <= 0xffff_ffff_ffff_ffff }
pub open spec fn wf_in(i: Input_Input) -> bool {
    i.PreviousTxID.len() == 64 && hex_ok(i.PreviousTxID) && hex_lower(i.PreviousTxID) && small(opt_script(i.UnlockingScript))
}
pub open spec fn wf_out(o: Output_Output) -> bool { o.LockingScript.is_some() && small(o.LockingScript.unwrap()) }
pub open spec fn wf_ins(v: Seq<Option<Input_Input>>, n: int) -> bool decreases n
{ if n <= 0 { true } else { wf_ins(v, n - 1) && v[n - 1].is_some() && wf_in(v[n - 1].unwrap()) } }
pub open spec fn wf_outs(v: Seq<Option<Output_Output>>, n: int) -> bool decreases n
{ if n <= 0 { true } else { wf_outs(v, n - 1) && v[n - 1].is_some() && wf_out(v[n - 1].unwrap()) } }
pub open spec fn wf_tx(t: Transaction_Transaction) -> bool {
    wf_ins(t.Inputs, t.Inputs.len() as int) && wf_outs(t.Outputs, t.Outputs.len() as int)
    && t.Inputs.len() <= 0xffff_ffff_ffff_ffff && t.Outputs.len() <= 0xffff_ffff_ffff_ffff
}
pub open spec fn norm_tx(t: Transaction_Transaction) -> Transaction_Transaction { Transaction_Transaction { Inputs: norm_ins(t.Inputs, t.Inputs.len() as int), ..t } }

pub proof fn le32_vle(x: int, t: Seq<u8>) requires 0 <= x <= 0xffff_ffff ensures vle32((le32(x) + t).subrange(0, 4)) == x
{ assert((le32(x) + t).subrange(0, 4) =~= le32(x)); le32_inv(x); }

#[verifier::rlimit(60)]
pub proof fn in_inv(i: Input_Input, t: Seq<u8>)
    requires wf_in(i)
    ensures ({
        let b = ser_in(i) + t;
        in_ok(b) && in_size(b) == ser_in(i).len() && in_val(b) == norm_in(i)
    })
{
    reveal(in_ok); reveal(in_size); reveal(in_val);
    let s = opt_script(i.UnlockingScript);
    ser_in_def(i, s);
    let b = ser_in(i) + t;
    let h = rev(hex_any(i.PreviousTxID)); let x = le32(i.PreviousTxOutIndex as int); let q = le32(i.SequenceNumber as int); let v = varint(s.len() as int);
    assert(h.len() == 32);
    let rest = s + (q + t);
    varint_roundtrip(s.len() as int, rest);
    assert(from(b, 36) =~= v + rest);
    assert(b.subrange(0, 32) =~= h);
    rev_rev(hex_raw(i.PreviousTxID));
    hex_enc_dec(i.PreviousTxID);
    assert(b.subrange(32, 36) =~= x); le32_inv(i.PreviousTxOutIndex as int);
    assert(var_val(from(b, 36)) =~= s);
    assert(in_size(b) == 40 + v.len() + s.len());
    assert(b.subrange(in_size(b) - 4, in_size(b)) =~= q); le32_inv(i.SequenceNumber as int);
}
pub proof fn out_inv(o: Output_Output, t: Seq<u8>)
    requires wf_out(o)
    ensures ({
        let b = ser_out(o) + t;
        out_ok(b) && out_size(b) == ser_out(o).len() && out_val(b) == o
    })
{
    reveal(out_ok); reveal(out_size); reveal(out_val);
    let s = o.LockingScript.unwrap();
    ser_out_def(o);
    let b = ser_out(o) + t; let v = varint(s.len() as int); let rest = s + t;
    varint_roundtrip(s.len() as int, rest);
    assert(from(b, 8) =~= v + rest);
    assert(b.subrange(0, 8) =~= le64(o.Satoshis as int)); le64_inv(o.Satoshis as int);
    assert(var_val(from(b, 8)) =~= s);
}
pub open spec fn has_at(b: Seq<u8>, k: int, s: Seq<u8>) -> bool { 0 <= k && k + s.len() <= b.len() && b.subrange(k, k + s.len()) == s }
pub proof fn has_split(b: Seq<u8>, k: int, x: Seq<u8>, y: Seq<u8>)
    requires has_at(b, k, x + y)
    ensures has_at(b, k, x), has_at(b, k + x.len(), y), from(b, k) == x + from(b, k + x.len())
{
    let z = b.subrange(k, k + (x + y).len());
    assert(b.subrange(k, k + x.len()) =~= z.subrange(0, x.len() as int));
    assert(b.subrange(k + x.len(), k + x.len() + y.len()) =~= z.subrange(x.len() as int, (x + y).len() as int));
    assert(z.subrange(0, x.len() as int) =~= x); assert(z.subrange(x.len() as int, (x + y).len() as int) =~= y);
    assert(from(b, k) =~= b.subrange(k, k + x.len()) + from(b, k + x.len()));
}
pub proof fn has_from(b: Seq<u8>, k: int, x: Seq<u8>)
    requires has_at(b, k, x)
    ensures from(b, k) == x + from(b, k + x.len())
{ assert(from(b, k) =~= b.subrange(k, k + x.len()) + from(b, k + x.len())); }
pub proof fn ins_inv(b: Seq<u8>, k: int, v: Seq<Option<Input_Input>>, n: int)
    requires n >= 0, has_at(b, k, ser_ins(v, n)), wf_ins(v, n)
    ensures ins_off(b, k, n) == k + ser_ins(v, n).len(), ins_val(b, k, n) == norm_ins(v, n)
    decreases n
{
    reveal(ser_ins); reveal(ins_off); reveal(ins_val);
    if n > 0 {
        let i = v[n - 1].unwrap();
        has_split(b, k, ser_ins(v, n - 1), ser_in(i));
        ins_inv(b, k, v, n - 1);
        let p = k + ser_ins(v, n - 1).len();
        has_from(b, p, ser_in(i));
        in_inv(i, from(b, p + ser_in(i).len()));
    }
}
pub proof fn outs_inv(b: Seq<u8>, k: int, v: Seq<Option<Output_Output>>, n: int)
    requires n >= 0, has_at(b, k, ser_outs(v, n)), wf_outs(v, n)
    ensures outs_off(b, k, n) == k + ser_outs(v, n).len(), outs_val(b, k, n) == same_outs(v, n)
    decreases n
{
    reveal(ser_outs); reveal(outs_off); reveal(outs_val);
    if n > 0 {
        let o = v[n - 1].unwrap();
        has_split(b, k, ser_outs(v, n - 1), ser_out(o));
        outs_inv(b, k, v, n - 1);
        let p = k + ser_outs(v, n - 1).len();
        has_from(b, p, ser_out(o));
        out_inv(o, from(b, p + ser_out(o).len()));
    }
}
// C02: parsing what was serialised
#[verifier::rlimit(60)]
pub proof fn parse_inverts_ser(t: Transaction_Transaction)
    requires wf_tx(t)
    ensures tx_ok(ser_tx(t)), tx_val(ser_tx(t)) == norm_tx(t)
{
    reveal(ser_tx);
    let b = ser_tx(t);
    let ni = t.Inputs.len() as int; let no = t.Outputs.len() as int;
    let v = le32(t.Version as int); let ci = varint(ni); let si = ins_all(t); let co = varint(no); let so = outs_all(t); let l = le32(t.Locktime as int);
    assert(b == v + (ci + (si + (co + (so + l)))));
    assert(b.subrange(0, 4) =~= v); le32_inv(t.Version as int);
    assert(from(b, 4) =~= ci + (si + (co + (so + l)))); varint_roundtrip(ni, si + (co + (so + l)));
    let k1 = 4 + ci.len() as int;
    assert(b.subrange(k1, k1 + si.len()) =~= si);
    ins_inv(b, k1, t.Inputs, ni);
    let k2 = k1 + si.len() as int;
    assert(from(b, k2) =~= co + (so + l)); varint_roundtrip(no, so + l);
    let k3 = k2 + co.len() as int;
    assert(b.subrange(k3, k3 + so.len()) =~= so);
    outs_inv(b, k3, t.Outputs, no);
    same_outs_all(t.Outputs, no); assert(t.Outputs.subrange(0, no) =~= t.Outputs);
    assert(b.subrange(k3 + so.len(), b.len() as int) =~= l); le32_inv(t.Locktime as int);
    assert(tx_val(b).Inputs == norm_tx(t).Inputs);
}

// canonical prefixes
pub open spec fn canon(b: Seq<u8>) -> bool { b.subrange(0, varint_size(b)) == varint(varint_val(b)) }
pub open spec fn canon_ins(b: Seq<u8>, k: int, n: int) -> bool decreases n
{ if n <= 0 { true } else { canon_ins(b, k, n - 1) && canon(from(from(b, ins_off(b, k, n - 1)), 36)) } }
pub open spec fn canon_outs(b: Seq<u8>, k: int, n: int) -> bool decreases n
{ if n <= 0 { true } else { canon_outs(b, k, n - 1) && canon(from(from(b, outs_off(b, k, n - 1)), 8)) } }
pub open spec fn canon_tx(b: Seq<u8>) -> bool {
    canon(from(b, 4)) && canon_ins(b, p_ins(b), p_nin(b)) && canon(from(b, p_insend(b))) && canon_outs(b, p_outs(b), p_nout(b))
}
pub proof fn in_back(b: Seq<u8>)
    requires in_ok(b), canon(from(b, 36))
    ensures 41 <= in_size(b) <= b.len(), ser_in(in_val(b)) == b.subrange(0, in_size(b))
{
    reveal(in_ok); reveal(in_size); reveal(in_val);
    let i = in_val(b); let s = var_val(from(b, 36)); let n = in_size(b);
    ser_in_def(i, s);
    rev_rev(b.subrange(0, 32));
    le32_back(b.subrange(32, 36)); le32_back(b.subrange(n - 4, n));
    assert(s.len() == varint_val(from(b, 36)));
    assert(b.subrange(0, n) =~= b.subrange(0, 32) + (b.subrange(32, 36) + (from(b, 36).subrange(0, varint_size(from(b, 36))) + (s + b.subrange(n - 4, n)))));
}
pub proof fn out_back(b: Seq<u8>)
    requires out_ok(b), canon(from(b, 8))
    ensures 9 <= out_size(b) <= b.len(), ser_out(out_val(b)) == b.subrange(0, out_size(b))
{
    reveal(out_ok); reveal(out_size); reveal(out_val);
    let o = out_val(b); let s = var_val(from(b, 8)); let n = out_size(b);
    ser_out_def(o);
    le64_back(b.subrange(0, 8));
    assert(s.len() == varint_val(from(b, 8)));
    assert(b.subrange(0, n) =~= b.subrange(0, 8) + (from(b, 8).subrange(0, varint_size(from(b, 8))) + s));
}
pub proof fn ins_len(b: Seq<u8>, k: int, n: int)
    requires n >= 0 ensures ins_val(b, k, n).len() == n
    decreases n
{ reveal(ins_val); if n > 0 { ins_len(b, k, n - 1); } }
pub proof fn outs_len(b: Seq<u8>, k: int, n: int)
    requires n >= 0 ensures outs_val(b, k, n).len() == n
    decreases n
{ reveal(outs_val); if n > 0 { outs_len(b, k, n - 1); } }
pub proof fn ser_ins_ext(v: Seq<Option<Input_Input>>, w: Seq<Option<Input_Input>>, n: int)
    requires 0 <= n <= v.len() ensures ser_ins(v + w, n) == ser_ins(v, n)
    decreases n
{ reveal(ser_ins); if n > 0 { ser_ins_ext(v, w, n - 1); } }
pub proof fn ser_outs_ext(v: Seq<Option<Output_Output>>, w: Seq<Option<Output_Output>>, n: int)
    requires 0 <= n <= v.len() ensures ser_outs(v + w, n) == ser_outs(v, n)
    decreases n
{ reveal(ser_outs); if n > 0 { ser_outs_ext(v, w, n - 1); } }
pub proof fn ins_back(b: Seq<u8>, k: int, n: int)
    requires n >= 0, 0 <= k <= b.len(), ins_off(b, k, n) >= 0, canon_ins(b, k, n)
    ensures k <= ins_off(b, k, n) <= b.len(), ser_ins(ins_val(b, k, n), n) == b.subrange(k, ins_off(b, k, n))
    decreases n
{
    reveal(ins_off); reveal(ins_val); reveal(ser_ins);
    if n > 0 {
        ins_step(b, k, n - 1, n);
        ins_back(b, k, n - 1);
        let p = ins_off(b, k, n - 1); let c = from(b, p);
        in_back(c);
        let v = ins_val(b, k, n - 1); ins_len(b, k, n - 1);
        ser_ins_ext(v, seq![Some(in_val(c))], n - 1);
        assert(b.subrange(k, p + in_size(c)) =~= b.subrange(k, p) + c.subrange(0, in_size(c)));
    } else { assert(b.subrange(k, k) =~= Seq::<u8>::empty()); }
}
pub proof fn outs_back(b: Seq<u8>, k: int, n: int)
    requires n >= 0, 0 <= k <= b.len(), outs_off(b, k, n) >= 0, canon_outs(b, k, n)
    ensures k <= outs_off(b, k, n) <= b.len(), ser_outs(outs_val(b, k, n), n) == b.subrange(k, outs_off(b, k, n))
    decreases n
{
    reveal(outs_off); reveal(outs_val); reveal(ser_outs);
    if n > 0 {
        outs_step(b, k, n - 1, n);
        outs_back(b, k, n - 1);
        let p = outs_off(b, k, n - 1); let c = from(b, p);
        out_back(c);
        let v = outs_val(b, k, n - 1); outs_len(b, k, n - 1);
        ser_outs_ext(v, seq![Some(out_val(c))], n - 1);
        assert(b.subrange(k, p + out_size(c)) =~= b.subrange(k, p) + c.subrange(0, out_size(c)));
    } else { assert(b.subrange(k, k) =~= Seq::<u8>::empty()); }
}
pub proof fn cut(b: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= b.len()
    ensures from(b, i) == b.subrange(i, j) + from(b, j)
{ assert(from(b, i) =~= b.subrange(i, j) + from(b, j)); }
pub proof fn cut5(b: Seq<u8>, k1: int, k2: int, k3: int, k4: int, k5: int)
    requires 0 <= k1 <= k2 <= k3 <= k4 <= k5 <= b.len()
    ensures b == b.subrange(0, k1) + (b.subrange(k1, k2) + (b.subrange(k2, k3) + (b.subrange(k3, k4) + (b.subrange(k4, k5) + from(b, k5)))))
{ cut(b, 0, k1); cut(b, k1, k2); cut(b, k2, k3); cut(b, k3, k4); cut(b, k4, k5); assert(from(b, 0) =~= b); }
pub proof fn prefix_at(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), varint_size(from(b, k)) > 0, canon(from(b, k))
    ensures k + varint_size(from(b, k)) <= b.len(), b.subrange(k, k + varint_size(from(b, k))) == varint(varint_val(from(b, k))), varint_val(from(b, k)) >= 0
{ let c = from(b, k); assert(b.subrange(k, k + varint_size(c)) =~= c.subrange(0, varint_size(c))); }
pub proof fn ser_tx_six(t: Transaction_Transaction)
    ensures ser_tx(t) == le32(t.Version as int) + (varint(t.Inputs.len() as int) + (ins_all(t) + (varint(t.Outputs.len() as int) + (outs_all(t) + le32(t.Locktime as int)))))
{ reveal(ser_tx); }
// C03: serialising what was parsed gives the bytes back
pub proof fn ser_inverts_parse(b: Seq<u8>)
    requires tx_ok(b), canon_tx(b)
    ensures ser_tx(tx_val(b)) == b
{
    let t = tx_val(b); let e = p_outsend(b);
    prefix_at(b, 4);
    ins_back(b, p_ins(b), p_nin(b)); ins_len(b, p_ins(b), p_nin(b));
    prefix_at(b, p_insend(b));
    outs_back(b, p_outs(b), p_nout(b)); outs_len(b, p_outs(b), p_nout(b));
    le32_back(b.subrange(0, 4)); le32_back(b.subrange(e, b.len() as int));
    cut5(b, 4, p_ins(b), p_insend(b), p_outs(b), e);
    ser_tx_six(t);
}
