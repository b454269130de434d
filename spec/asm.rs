broadcast use crate::lib_base::group_base;
// The text form of scripts.

// the words between single spaces
pub open spec fn split_sp(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len()
{
    if s.len() == 0 { seq![Seq::<u8>::empty()] }
    else if s.last() == 32 { split_sp(s.drop_last()).push(Seq::empty()) }
    else { let w = split_sp(s.drop_last()); w.drop_last().push(w.last().push(s.last())) }
}
pub proof fn split_sp_len(s: Seq<u8>) ensures split_sp(s).len() > 0 decreases s.len() { if s.len() > 0 { split_sp_len(s.drop_last()); } }
pub proof fn split_word(a: Seq<u8>, w: Seq<u8>, n: nat)
    requires n <= w.len(), no_sp(w, n), a.len() > 0, a.last() == 32
    ensures split_sp(a + w.subrange(0, n as int)) == split_sp(a).drop_last().push(w.subrange(0, n as int))
    decreases n
{
    split_sp_len(a);
    if n == 0 {
        assert(a + w.subrange(0, 0) =~= a);
        assert(split_sp(a).last() == Seq::<u8>::empty());
        assert(w.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(split_sp(a).drop_last().push(w.subrange(0, 0)) =~= split_sp(a));
    } else {
        let s = a + w.subrange(0, n as int);
        let m = n - 1;
        split_word(a, w, m as nat);
        assert(s.drop_last() =~= a + w.subrange(0, m));
        assert(s.last() == w[m]);
        let v = split_sp(s.drop_last());
        assert(v.drop_last() =~= split_sp(a).drop_last());
        assert(v.last().push(s.last()) =~= w.subrange(0, n as int));
    }
}
pub proof fn split_sp_snoc(a: Seq<u8>, w: Seq<u8>)
    requires no_sp(w, w.len())
    ensures split_sp(a + seq![32u8] + w) == split_sp(a).push(w)
{
    let b = a + seq![32u8];
    assert(b.drop_last() =~= a);
    assert(b.last() == 32);
    split_word(b, w, w.len());
    assert(w.subrange(0, w.len() as int) =~= w);
    assert(split_sp(b).drop_last() =~= split_sp(a));
}
pub proof fn split_sp_one(w: Seq<u8>, n: nat)
    requires no_sp(w, n), n <= w.len()
    ensures split_sp(w.subrange(0, n as int)) == seq![w.subrange(0, n as int)]
    decreases n
{
    let s = w.subrange(0, n as int);
    if n == 0 { assert(s =~= Seq::<u8>::empty()); }
    else {
        split_sp_one(w, (n - 1) as nat);
        assert(s.drop_last() =~= w.subrange(0, n - 1));
        let v = split_sp(s.drop_last());
        assert(v.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(v.last().push(s.last()) =~= s);
        assert(Seq::<Seq<u8>>::empty().push(s) =~= seq![s]);
    }
}

// ---- rendering
pub open spec fn asm_word(p: Seq<u8>) -> Seq<u8> { if p.len() == 1 { op_name(p[0]) } else { hex_enc(p) } }
// every word with a space before it
#[verifier::opaque]
pub open spec fn asm_text(ps: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { asm_text(ps, n - 1) + (seq![32u8] + asm_word(ps[n - 1])) } }
#[verifier::opaque]
pub open spec fn asm_words(ps: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { Seq::empty() } else { asm_words(ps, n - 1) + seq![asm_word(ps[n - 1])] } }
#[verifier::opaque]
pub open spec fn asm_join(ps: Seq<Seq<u8>>) -> Seq<u8> { let t = asm_text(ps, ps.len() as int); if t.len() == 0 { t } else { t.subrange(1, t.len() as int) } }

pub proof fn asm_text_step(ps: Seq<Seq<u8>>, n: int)
    ensures asm_text(ps, 0) == Seq::<u8>::empty(), asm_words(ps, 0) == Seq::<Seq<u8>>::empty(),
        n >= 0 ==> asm_text(ps, n + 1) == asm_text(ps, n) + (seq![32u8] + asm_word(ps[n])),
        n >= 0 ==> asm_words(ps, n + 1) == asm_words(ps, n) + seq![asm_word(ps[n])]
{ reveal_with_fuel(asm_text, 2); reveal_with_fuel(asm_words, 2); }
// words with single spaces between them
#[verifier::opaque]
pub open spec fn join_words(ws: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else if n == 1 { ws[0] } else { join_words(ws, n - 1) + (seq![32u8] + ws[n - 1]) } }
pub proof fn asm_words_at(ps: Seq<Seq<u8>>, n: int, m: int)
    requires 0 <= n <= m
    ensures asm_words(ps, m).len() == m, asm_words(ps, n) == asm_words(ps, m).subrange(0, n), n < m ==> asm_words(ps, m)[n] == asm_word(ps[n])
    decreases m
{
    asm_text_step(ps, m - 1);
    if m > 0 { asm_words_at(ps, if n < m { n } else { m - 1 }, m - 1); }
    if n == m { assert(asm_words(ps, n) =~= asm_words(ps, m).subrange(0, n)); }
    else { assert(asm_words(ps, m).subrange(0, n) =~= asm_words(ps, m - 1).subrange(0, n)); }
}
pub proof fn join_text(ps: Seq<Seq<u8>>, n: int, m: int)
    requires 0 < n <= m
    ensures asm_text(ps, n) == seq![32u8] + join_words(asm_words(ps, m), n)
    decreases n
{
    let ws = asm_words(ps, m);
    reveal_with_fuel(join_words, 2);
    asm_text_step(ps, n - 1);
    asm_words_at(ps, n - 1, m);
    if n > 1 {
        join_text(ps, n - 1, m);
        assert(asm_text(ps, n) =~= seq![32u8] + join_words(ws, n));
    } else {
        asm_text_step(ps, 0);
        assert(asm_text(ps, n) =~= seq![32u8] + join_words(ws, n));
    }
}
pub proof fn asm_joins(ps: Seq<Seq<u8>>, n: int)
    ensures n == ps.len() ==> asm_words(ps, n).len() == n && join_words(asm_words(ps, n), n) == asm_join(ps)
{
    if n == ps.len() {
        asm_words_at(ps, n, n);
        reveal(asm_join);
        reveal_with_fuel(join_words, 1);
        asm_text_step(ps, 0);
        if n > 0 {
            join_text(ps, n, n);
            let t = asm_text(ps, n);
            assert(t.subrange(1, t.len() as int) =~= join_words(asm_words(ps, n), n));
        } else { assert(join_words(asm_words(ps, n), n) =~= Seq::<u8>::empty()); }
    }
}
pub proof fn hex_word(p: Seq<u8>)
    requires p.len() > 0
    ensures hex_enc(p).len() > 0, graphic(hex_enc(p)[0]), graphic(hex_enc(p).last()), no_sp(hex_enc(p), hex_enc(p).len()), hex_enc(p)[0] != 79
{
    hex_enc_ok(p);
    assert(hexv(hex_enc(p)[0]) >= 0);
    assert(hexv(hex_enc(p).last()) >= 0);
    hex_no_sp(hex_enc(p), hex_enc(p).len());
}
pub proof fn hex_no_sp(h: Seq<u8>, n: nat)
    requires n <= h.len(), hex_digits(h)
    ensures no_sp(h, n)
    decreases n
{ if n > 0 { hex_no_sp(h, (n - 1) as nat); assert(hexv(h[n - 1]) >= 0); } }
pub proof fn asm_word_ok(p: Seq<u8>)
    requires p.len() > 0
    ensures asm_word(p).len() > 0, graphic(asm_word(p)[0]), graphic(asm_word(p).last()), no_sp(asm_word(p), asm_word(p).len())
{ if p.len() == 1 { op_name_reads_back(p[0]); } else { hex_word(p); } }
pub proof fn asm_text_shape(ps: Seq<Seq<u8>>, n: int)
    requires all_nonempty(ps, n), n > 0
    ensures asm_text(ps, n).len() > 1, asm_text(ps, n)[0] == 32, graphic(asm_text(ps, n)[1]), graphic(asm_text(ps, n).last())
    decreases n
{
    asm_text_step(ps, n - 1);
    asm_word_ok(ps[n - 1]);
    let w = asm_word(ps[n - 1]);
    assert((seq![32u8] + w)[1] == w[0]);
    if n > 1 { asm_text_shape(ps, n - 1); }
    else { asm_text_step(ps, 0); }
    assert(asm_text(ps, n).last() == w.last());
}
pub proof fn asm_ends(ps: Seq<Seq<u8>>, n: int)
    ensures n == ps.len() && all_nonempty(ps, n) ==> {
        let t = asm_text(ps, n);
        (n == 0 ==> t.len() == 0) && (n > 0 ==> t.len() > 1 && t[0] == 32 && graphic(t[1]) && graphic(t.last()))
        && asm_join(ps) == (if n == 0 { t } else { t.subrange(1, t.len() as int) })
    }
{
    asm_text_step(ps, 0);
    reveal(asm_join);
    if n == ps.len() && all_nonempty(ps, n) && n > 0 { asm_text_shape(ps, n); }
}

// ---- reading
pub open spec fn asm_word_ok_to_read(w: Seq<u8>) -> bool { op_known(w) || hex_ok(w) && hex_raw(w).len() <= 0xffff_ffff }
pub open spec fn asm_word_bytes(w: Seq<u8>) -> Seq<u8> { if op_known(w) { seq![op_byte(w)] } else { enc_part(hex_raw(w)) } }
#[verifier::opaque]
pub open spec fn asm_readable(ws: Seq<Seq<u8>>, n: int) -> bool decreases n { if n <= 0 { true } else { asm_readable(ws, n - 1) && asm_word_ok_to_read(ws[n - 1]) } }
#[verifier::opaque]
pub open spec fn asm_bytes(ws: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { asm_bytes(ws, n - 1) + asm_word_bytes(ws[n - 1]) } }
pub proof fn asm_read_step(ws: Seq<Seq<u8>>, n: int)
    ensures asm_readable(ws, 0), asm_bytes(ws, 0) == Seq::<u8>::empty(),
        n >= 0 ==> asm_readable(ws, n + 1) == (asm_readable(ws, n) && asm_word_ok_to_read(ws[n])),
        n >= 0 ==> asm_bytes(ws, n + 1) == asm_bytes(ws, n) + asm_word_bytes(ws[n])
{ reveal_with_fuel(asm_readable, 2); reveal_with_fuel(asm_bytes, 2); }
pub proof fn asm_readable_upto(ws: Seq<Seq<u8>>, k: int, n: int)
    ensures asm_readable(ws, n) && 0 <= k < n ==> asm_word_ok_to_read(ws[k])
    decreases n
{ if n > 0 { asm_read_step(ws, n - 1); if k < n - 1 { asm_readable_upto(ws, k, n - 1); } } }

// ---- there and back
// a script of non-push opcodes and shortest pushes of two or more bytes
pub open spec fn asm_token(t: Seq<u8>) -> bool { t.len() == 1 && (t[0] == 0 || t[0] > 0x4e) || 2 <= t.len() <= 0xffff_ffff }
pub open spec fn token_bytes(t: Seq<u8>) -> Seq<u8> { if t.len() == 1 { t } else { enc_part(t) } }
pub open spec fn tokens_bytes(ts: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { tokens_bytes(ts, n - 1) + token_bytes(ts[n - 1]) } }
pub open spec fn asm_tokens(ts: Seq<Seq<u8>>, n: int) -> bool decreases n { if n <= 0 { true } else { asm_tokens(ts, n - 1) && asm_token(ts[n - 1]) } }

proof fn token_decodes(p: Seq<u8>, t: Seq<u8>)
    requires asm_token(p)
    ensures decode_parts(token_bytes(p) + t) == dcat(seq![p], decode_parts(t))
{
    if p.len() == 1 {
        let s = p + t;
        assert(s[0] == p[0]);
        assert(dp_part(s) =~= p);
        assert(dp_rest(s) =~= t);
        dp_step(s);
    } else { enc_part_decodes(p, t); }
}
proof fn tokens_decode(ts: Seq<Seq<u8>>, n: int, t: Seq<u8>)
    requires 0 <= n <= ts.len(), asm_tokens(ts, n)
    ensures decode_parts(tokens_bytes(ts, n) + t) == dcat(ts.subrange(0, n), decode_parts(t))
    decreases n
{
    if n == 0 {
        assert(ts.subrange(0, 0) =~= Seq::<Seq<u8>>::empty());
        assert(tokens_bytes(ts, 0) + t =~= t);
        dp_step(t);
    } else {
        let p = ts[n - 1];
        tokens_decode(ts, n - 1, token_bytes(p) + t);
        token_decodes(p, t);
        assert(tokens_bytes(ts, n) + t =~= tokens_bytes(ts, n - 1) + (token_bytes(p) + t));
        assert(ts.subrange(0, n) =~= ts.subrange(0, n - 1) + seq![p]);
        if decode_parts(t).is_some() {
            assert(ts.subrange(0, n - 1) + (seq![p] + decode_parts(t).unwrap()) =~= ts.subrange(0, n) + decode_parts(t).unwrap());
        }
    }
}
proof fn token_reads(t: Seq<u8>)
    requires asm_token(t)
    ensures asm_word_ok_to_read(asm_word(t)), asm_word_bytes(asm_word(t)) == token_bytes(t)
{
    if t.len() == 1 {
        op_name_reads_back(t[0]);
        assert(seq![op_byte(op_name(t[0]))] =~= t);
    } else {
        hex_word(t);
        op_known_O(hex_enc(t));
        hex_dec_enc(t);
    }
}
proof fn tokens_read(ts: Seq<Seq<u8>>, n: int, ws: Seq<Seq<u8>>)
    requires 0 <= n <= ts.len(), asm_tokens(ts, n), ws.len() >= n, ws.subrange(0, n) == asm_words(ts, n)
    ensures asm_readable(ws, n), asm_bytes(ws, n) == tokens_bytes(ts, n), all_nonempty(ws, n), all_nonempty(ts, n)
    decreases n
{
    if n == 0 { asm_read_step(ws, 0); }
    else {
        asm_text_step(ts, n - 1);
        asm_words_len(ts, n - 1);
        assert(ws.subrange(0, n - 1) =~= ws.subrange(0, n).subrange(0, n - 1));
        assert(asm_words(ts, n).subrange(0, n - 1) =~= asm_words(ts, n - 1));
        assert(ws.subrange(0, n)[n - 1] == ws[n - 1]);
        assert(ws[n - 1] == asm_word(ts[n - 1]));
        tokens_read(ts, n - 1, ws);
        asm_read_step(ws, n - 1);
        token_reads(ts[n - 1]);
        asm_word_ok(ts[n - 1]);
    }
}
proof fn asm_words_len(ps: Seq<Seq<u8>>, n: int)
    requires n >= 0
    ensures asm_words(ps, n).len() == n
    decreases n
{ if n == 0 { asm_text_step(ps, 0); } else { asm_text_step(ps, n - 1); asm_words_len(ps, n - 1); } }
proof fn text_splits(ps: Seq<Seq<u8>>, n: int)
    requires all_nonempty(ps, n), n > 0
    ensures split_sp(asm_text(ps, n).subrange(1, asm_text(ps, n).len() as int)) == asm_words(ps, n)
    decreases n
{
    let w = asm_word(ps[n - 1]); let t = asm_text(ps, n);
    asm_text_step(ps, n - 1);
    asm_word_ok(ps[n - 1]);
    if n == 1 {
        asm_text_step(ps, 0);
        assert(t.subrange(1, t.len() as int) =~= w);
        split_sp_one(w, w.len());
        assert(w.subrange(0, w.len() as int) =~= w);
        assert(asm_words(ps, 1) =~= seq![w]);
    } else {
        let u = asm_text(ps, n - 1);
        asm_text_shape(ps, n - 1);
        text_splits(ps, n - 1);
        let a = u.subrange(1, u.len() as int);
        assert(t.subrange(1, t.len() as int) =~= a + seq![32u8] + w);
        split_sp_snoc(a, w);
        assert(asm_words(ps, n) =~= split_sp(a).push(w));
    }
}
// C22: bytes -> text -> bytes
pub proof fn asm_roundtrip(ts: Seq<Seq<u8>>)
    requires ts.len() > 0, asm_tokens(ts, ts.len() as int)
    ensures ({
        let s = tokens_bytes(ts, ts.len() as int);
        let ps = decode_parts(s);
        let ws = split_sp(asm_join(ts));
        ps == Some(ts) && all_nonempty(ts, ts.len() as int) && all_nonempty(ws, ws.len() as int)
        && asm_readable(ws, ws.len() as int) && asm_bytes(ws, ws.len() as int) == s
    })
{
    let n = ts.len() as int; let s = tokens_bytes(ts, n);
    tokens_decode(ts, n, Seq::empty());
    assert(s + Seq::<u8>::empty() =~= s);
    assert(ts.subrange(0, n) + Seq::<Seq<u8>>::empty() =~= ts);
    dp_step(Seq::empty());
    asm_words_len(ts, n);
    let ws = asm_words(ts, n);
    assert(ws.subrange(0, n) =~= ws);
    tokens_read(ts, n, ws);
    asm_ends(ts, n);
    text_splits(ts, n);
}
