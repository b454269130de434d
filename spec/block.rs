// Block headers and Merkle trees.
broadcast use crate::lib_base::group_base;

pub open spec fn block_header(version: int, prev: Seq<u8>, root: Seq<u8>, time: Seq<u8>, bits: Seq<u8>, nonce: Seq<u8>) -> Seq<u8> {
    le32(version) + rev(prev) + root + time + bits + nonce
}
// C18: with fields of the right width the header has 80 bytes
pub proof fn header_len(version: int, prev: Seq<u8>, root: Seq<u8>, time: Seq<u8>, bits: Seq<u8>, nonce: Seq<u8>)
    requires prev.len() == 64, root.len() == 32, time.len() == 4, bits.len() == 4, nonce.len() == 4
    ensures block_header(version, hex_raw(prev), root, time, bits, nonce).len() == 80
{ }

// every string up to position n is hexadecimal
pub open spec fn all_hex(h: Seq<Seq<u8>>, n: int) -> bool decreases n { if n <= 0 { true } else { all_hex(h, n - 1) && hex_ok(h[n - 1]) } }
pub proof fn all_hex_upto(h: Seq<Seq<u8>>, k: int, n: int)
    ensures (0 <= k < n && !hex_ok(h[k])) ==> !all_hex(h, n), (0 <= k < n && all_hex(h, n)) ==> hex_ok(h[k])
    decreases n
{ if 0 <= k < n - 1 { all_hex_upto(h, k, n - 1); } }
// folding a hash with branches, each on the right
pub open spec fn fold_branches(h: Seq<u8>, br: Seq<Seq<u8>>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { h } else { sha256d(fold_branches(h, br, n - 1) + hex_raw(br[n - 1])) } }

// a Merkle proof: bit k of the index tells whether branch k is on the left
pub open spec fn fold_proof(h: Seq<u8>, idx: int, br: Seq<Seq<u8>>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { h } else {
        let x = fold_proof(h, idx, br, n - 1); let b = rev(hex_raw(br[n - 1]));
        if shr(idx, n - 1) % 2 == 1 { sha256d(b + x) } else { sha256d(x + b) }
    }
}

// ---- Merkle tree over hashes given as hexadecimal text

pub open spec fn revhex_all(t: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n
{ if n <= 0 { Seq::empty() } else { revhex_all(t, n - 1) + seq![rev2(hexpad(t[n - 1]))] } }
pub open spec fn mpair(h: Seq<Seq<u8>>, i: int) -> Seq<u8> {
    hex_enc(sha256d(hex_raw(h[i]) + hex_raw(if i + 1 < h.len() { h[i + 1] } else { h[i] })))
}
pub open spec fn mlevel(h: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n
{ if n <= 0 { Seq::empty() } else { mlevel(h, n - 1) + seq![mpair(h, 2 * (n - 1))] } }
pub proof fn mlevel_len(h: Seq<Seq<u8>>, n: int)
    requires n >= 0
    ensures mlevel(h, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] mlevel(h, n)[i] == mpair(h, 2 * i)
    decreases n
{
    if n > 0 {
        mlevel_len(h, n - 1);
        assert forall|i: int| 0 <= i < n implies #[trigger] mlevel(h, n)[i] == mpair(h, 2 * i) by {
            if i < n - 1 { assert(mlevel(h, n)[i] == mlevel(h, n - 1)[i]); }
        }
    }
}
pub open spec fn mnext(h: Seq<Seq<u8>>) -> Seq<Seq<u8>> { mlevel(h, (h.len() as int + 1) / 2) }
pub open spec fn mbranches(h: Seq<Seq<u8>>) -> Seq<Seq<u8>>
    decreases h.len()
    via mbranches_dec
{ if h.len() < 2 { Seq::empty() } else { seq![h[1]] + mbranches(mnext(h)) } }
#[via_fn]
proof fn mbranches_dec(h: Seq<Seq<u8>>) { mlevel_len(h, (h.len() as int + 1) / 2); }
pub proof fn mnext_ok(h: Seq<Seq<u8>>, n: int)
    requires n >= 0
    ensures all_hex(mlevel(h, n), n)
    decreases n
{
    mlevel_len(h, n);
    mall_hex(mlevel(h, n), n);
}
pub proof fn mall_hex(h: Seq<Seq<u8>>, n: int)
    requires forall|i: int| 0 <= i < n ==> hex_ok(#[trigger] h[i])
    ensures all_hex(h, n)
    decreases n
{ if n > 0 { mall_hex(h, n - 1); } }
pub proof fn mnext_all_hex(h: Seq<Seq<u8>>)
    ensures all_hex(mnext(h), mnext(h).len() as int), h.len() >= 2 ==> mnext(h).len() < h.len()
{
    let n = (h.len() as int + 1) / 2;
    mlevel_len(h, n); mnext_ok(h, n);
}
pub proof fn revhex_len(t: Seq<Seq<u8>>, n: int)
    requires n >= 0
    ensures revhex_all(t, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] revhex_all(t, n)[i] == rev2(hexpad(t[i]))
    decreases n
{
    if n > 0 {
        revhex_len(t, n - 1);
        assert forall|i: int| 0 <= i < n implies #[trigger] revhex_all(t, n)[i] == rev2(hexpad(t[i])) by {
            if i < n - 1 { assert(revhex_all(t, n)[i] == revhex_all(t, n - 1)[i]); }
        }
    }
}
pub proof fn revhex_ok(t: Seq<Seq<u8>>, n: int)
    ensures (n >= 0 && all_hex(t, n)) ==> all_hex(revhex_all(t, n), n)
{
    if n >= 0 && all_hex(t, n) {
        revhex_len(t, n);
        assert forall|i: int| 0 <= i < n implies hex_ok(#[trigger] revhex_all(t, n)[i]) by { all_hex_upto(t, i, n); rev2_hex(t[i]); }
        mall_hex(revhex_all(t, n), n);
    }
}

// The Merkle root of a list of raw hashes
pub open spec fn tpair(h: Seq<Seq<u8>>, i: int) -> Seq<u8> { sha256d(h[i] + (if i + 1 < h.len() { h[i + 1] } else { h[i] })) }
pub open spec fn tnext(h: Seq<Seq<u8>>) -> Seq<Seq<u8>> { Seq::new(((h.len() as int + 1) / 2) as nat, |i: int| tpair(h, 2 * i)) }
pub open spec fn merkle_root(h: Seq<Seq<u8>>) -> Seq<u8> decreases h.len()
{ if h.len() == 0 { Seq::empty() } else if h.len() == 1 { h[0] } else { merkle_root(tnext(h)) } }
pub open spec fn raws(h: Seq<Seq<u8>>) -> Seq<Seq<u8>> { Seq::new(h.len(), |i: int| hex_raw(h[i])) }

pub proof fn fold_cons(h: Seq<u8>, b: Seq<u8>, br: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= br.len()
    ensures fold_branches(h, seq![b] + br, n + 1) == fold_branches(sha256d(h + hex_raw(b)), br, n)
    decreases n
{
    let x = seq![b] + br;
    if n > 0 { fold_cons(h, b, br, n - 1); assert(x[n] == br[n - 1]); }
    else { assert(x[0] == b); assert(fold_branches(h, x, 0) == h); }
}
// C16: folding the first hash with the branches gives the Merkle root
pub proof fn branches_give_root(h: Seq<Seq<u8>>)
    requires h.len() >= 1
    ensures fold_branches(hex_raw(h[0]), mbranches(h), mbranches(h).len() as int) == merkle_root(raws(h))
    decreases h.len()
{
    if h.len() >= 2 {
        let n = (h.len() as int + 1) / 2; let m = mnext(h);
        mlevel_len(h, n);
        branches_give_root(m);
        let rest = mbranches(m);
        fold_cons(hex_raw(h[0]), h[1], rest, rest.len() as int);
        assert(mbranches(h).len() == rest.len() + 1);
        assert(raws(m) =~= tnext(raws(h))) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] raws(m)[i] == tnext(raws(h))[i] by {
                assert(m[i] == mpair(h, 2 * i));
                assert(raws(h)[2 * i] == hex_raw(h[2 * i]));
            }
        }
        assert(hex_raw(m[0]) == sha256d(hex_raw(h[0]) + hex_raw(h[1])));
    }
}
// C16, on transaction ids: the list of ids, their byte-reversed hashes, and what the code computes
pub proof fn ids_give_root(ids: Seq<Seq<u8>>)
    requires ids.len() >= 1, all_hex(ids, ids.len() as int)
    ensures ({
        let br = mbranches(revhex_all(ids, ids.len() as int));
        fold_branches(rev(hex_raw(ids[0])), br, br.len() as int) == merkle_root(Seq::new(ids.len(), |i: int| rev(hex_raw(ids[i]))))
    })
{
    let n = ids.len() as int; let h = revhex_all(ids, n);
    revhex_len(ids, n);
    branches_give_root(h);
    assert forall|i: int| 0 <= i < n implies hex_raw(#[trigger] h[i]) == rev(hex_raw(ids[i])) by { all_hex_upto(ids, i, n); rev2_hex(ids[i]); }
    assert(raws(h) =~= Seq::new(ids.len(), |i: int| rev(hex_raw(ids[i]))));
}
