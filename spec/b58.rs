// Base58, Base58Check and addresses.
broadcast use crate::lib_base::group_base;

pub open spec fn all58(s: Seq<u8>, n: int) -> bool decreases n { if n <= 0 { true } else { all58(s, n - 1) && dig58(s[n - 1]) >= 0 } }
pub open spec fn v58(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { 58 * v58(s, n - 1) + dig58(s[n - 1]) } }
pub open spec fn v256(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { 256 * v256(s, n - 1) + s[n - 1] as int } }
pub open spec fn p256(n: int) -> int decreases n { if n <= 0 { 1 } else { 256 * p256(n - 1) } }
// number of bytes equal to c from position k on, without a gap
pub open spec fn lead(s: Seq<u8>, c: u8, k: int) -> nat
    decreases s.len() - k
{ if k < 0 || k >= s.len() || s[k] != c { 0 } else { 1 + lead(s, c, k + 1) } }

pub open spec fn b58_of(b: Seq<u8>, s: Seq<u8>) -> bool {
    all58(s, s.len() as int) && v58(s, s.len() as int) == v256(b, b.len() as int) && lead(s, 49, 0) == lead(b, 0, 0)
}
pub axiom fn b58_enc_spec(b: Seq<u8>) ensures b58_of(b, b58_enc(b));
pub axiom fn b58_dec_spec(s: Seq<u8>)
    ensures all58(s, s.len() as int) ==> b58_of(b58_dec(s), s), !all58(s, s.len() as int) ==> b58_dec(s).len() == 0;

pub proof fn lead_range(s: Seq<u8>, c: u8, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= lead(s, c, k) <= s.len() - k
    decreases s.len() - k
{ if k < s.len() && s[k] == c { lead_range(s, c, k + 1); } }
pub proof fn lead_all(s: Seq<u8>, c: u8, k: int, i: int)
    requires 0 <= k <= s.len(), k <= i < k + lead(s, c, k)
    ensures i < s.len(), s[i] == c
    decreases s.len() - k
{ lead_range(s, c, k); if k < i { lead_all(s, c, k + 1, i); } }
pub proof fn lead_stop(s: Seq<u8>, c: u8, k: int)
    requires 0 <= k <= s.len()
    ensures k + lead(s, c, k) == s.len() || k + lead(s, c, k) < s.len() && s[k + lead(s, c, k)] != c
    decreases s.len() - k
{ if k < s.len() && s[k] == c { lead_stop(s, c, k + 1); } lead_range(s, c, k); }

pub proof fn v256_bounds(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len()
    ensures 0 <= v256(b, n) < p256(n), p256(n) >= 1
    decreases n
{ if n > 0 { v256_bounds(b, n - 1); } }
pub proof fn v256_zero(b: Seq<u8>, n: int, k: int)
    requires 0 <= n <= k, n <= b.len(), forall|i: int| 0 <= i < k && i < b.len() ==> b[i] == 0
    ensures v256(b, n) == 0
    decreases n
{ if n > 0 { v256_zero(b, n - 1, k); } }
pub proof fn v256_pos(b: Seq<u8>, n: int, k: int)
    requires 0 <= k < n <= b.len(), b[k] != 0
    ensures v256(b, n) >= 1
    decreases n
{ v256_bounds(b, n - 1); if k < n - 1 { v256_pos(b, n - 1, k); } }
pub proof fn v256_ext(b: Seq<u8>, c: Seq<u8>, n: int)
    requires 0 <= n <= b.len(), n <= c.len(), forall|i: int| 0 <= i < n ==> b[i] == c[i]
    ensures v256(b, n) == v256(c, n)
    decreases n
{ if n > 0 { v256_ext(b, c, n - 1); } }
// equal value and equal number of leading zeros: equal bytes
pub proof fn v256_unique(b: Seq<u8>, c: Seq<u8>, n: int, m: int, k: int)
    requires 0 <= k <= n <= b.len(), k <= m <= c.len(), v256(b, n) == v256(c, m),
        forall|i: int| 0 <= i < k ==> b[i] == 0, forall|i: int| 0 <= i < k ==> c[i] == 0,
        n > k ==> b[k] != 0, m > k ==> c[k] != 0
    ensures n == m, forall|i: int| 0 <= i < n ==> b[i] == c[i]
    decreases n
{
    if n == k { v256_zero(b, n, k); if m > k { v256_pos(c, m, k); } }
    else if m == k { v256_zero(c, m, k); v256_pos(b, n, k); }
    else { v256_unique(b, c, n - 1, m - 1, k); }
}
pub proof fn v256_unique_len(b: Seq<u8>, c: Seq<u8>, n: int)
    requires 0 <= n <= b.len(), n <= c.len(), v256(b, n) == v256(c, n)
    ensures forall|i: int| 0 <= i < n ==> b[i] == c[i]
    decreases n
{ if n > 0 { v256_unique_len(b, c, n - 1); } }
// C13: a string is the Base58 form of at most one byte string
pub proof fn b58_unique(b: Seq<u8>, c: Seq<u8>, s: Seq<u8>)
    requires b58_of(b, s), b58_of(c, s)
    ensures b == c
{
    let k = lead(s, 49, 0) as int;
    lead_range(b, 0, 0); lead_range(c, 0, 0); lead_stop(b, 0, 0); lead_stop(c, 0, 0);
    assert forall|i: int| 0 <= i < k implies b[i] == 0 by { lead_all(b, 0, 0, i); }
    assert forall|i: int| 0 <= i < k implies c[i] == 0 by { lead_all(c, 0, 0, i); }
    v256_unique(b, c, b.len() as int, c.len() as int, k);
    assert(b =~= c);
}
pub proof fn b58_dec_enc(b: Seq<u8>)
    ensures b58_dec(b58_enc(b)) == b
{ b58_enc_spec(b); b58_dec_spec(b58_enc(b)); b58_unique(b, b58_dec(b58_enc(b)), b58_enc(b)); }

// ---- Base58Check and addresses

pub open spec fn cksum(b: Seq<u8>) -> Seq<u8> { sha256d(b).subrange(0, 4) }
pub open spec fn b58check(b: Seq<u8>) -> Seq<u8> { b58_enc(b + cksum(b)) }
pub open spec fn net_byte(mainnet: bool) -> u8 { if mainnet { 0 } else { 0x6f } }
pub open spec fn addr_text(h: Seq<u8>, mainnet: bool) -> Seq<u8> { b58check(seq![net_byte(mainnet)] + h) }
pub open spec fn addr_bytes_ok(b: Seq<u8>) -> bool {
    b.len() == 25 && (b[0] == 0 || b[0] == 0x6f) && b.subrange(21, 25) == cksum(b.subrange(0, 21))
}
pub open spec fn addr_ok(s: Seq<u8>) -> bool { addr_bytes_ok(b58_dec(s)) }
pub open spec fn addr_hash(s: Seq<u8>) -> Seq<u8> { b58_dec(s).subrange(1, 21) }
// C13: the address of a hash parses, and gives the hash back
pub proof fn addr_roundtrip(h: Seq<u8>, mainnet: bool)
    requires h.len() == 20
    ensures addr_ok(addr_text(h, mainnet)), addr_hash(addr_text(h, mainnet)) == h
{
    let p = seq![net_byte(mainnet)] + h;
    let b = p + cksum(p);
    b58_dec_enc(b);
    assert(b.subrange(0, 21) =~= p);
    assert(b.subrange(21, 25) =~= cksum(p));
    assert(b.subrange(1, 21) =~= h);
}

// ---- the repository's own fixed-width decoder

pub open spec fn mul58(a: Seq<u8>, j: int, c: int) -> (Seq<u8>, int)
    decreases j + 1
{
    if j < 0 || j >= a.len() { (a, c) }
    else { let t = c + 58 * (a[j] as int); mul58(a.update(j, (t % 256) as u8), j - 1, t / 256) }
}
pub proof fn mul58_value(a: Seq<u8>, j: int, c: int)
    requires -1 <= j < a.len(), c >= 0
    ensures ({ let (b, r) = mul58(a, j, c);
        b.len() == a.len() && r >= 0 && v256(b, j + 1) + r * p256(j + 1) == 58 * v256(a, j + 1) + c
        && forall|k: int| j < k < a.len() ==> b[k] == a[k] })
    decreases j + 1
{
    if j >= 0 {
        let t = c + 58 * (a[j] as int); let m = (t % 256) as u8; let a2 = a.update(j, m);
        mul58_value(a2, j - 1, t / 256);
        let (b, r) = mul58(a, j, c);
        v256_ext(a, a2, j);
        assert(b[j] == m);
        assert(v256(b, j) + r * p256(j) == 58 * v256(a, j) + t / 256);
        assert(256 * (r * p256(j)) == r * p256(j + 1)) by (nonlinear_arith) requires p256(j + 1) == 256 * p256(j);
    }
}
pub open spec fn set58(a: Seq<u8>, s: Seq<u8>, n: int) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { Some(a) }
    else if set58(a, s, n - 1).is_none() || dig58(s[n - 1]) < 0 { None }
    else {
        let (b, r) = mul58(set58(a, s, n - 1).unwrap(), 24, dig58(s[n - 1]));
        if r > 0 { None } else { Some(b) }
    }
}
pub proof fn set58_none(a: Seq<u8>, s: Seq<u8>, k: int, n: int)
    ensures (k <= n && set58(a, s, k).is_none()) ==> set58(a, s, n).is_none()
    decreases n
{ if k < n && n > 0 { set58_none(a, s, k, n - 1); } }
pub proof fn v58_nonneg(s: Seq<u8>, n: int)
    ensures all58(s, n) ==> v58(s, n) >= 0
    decreases n
{ if n > 0 { v58_nonneg(s, n - 1); } }
pub proof fn set58_value(a: Seq<u8>, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), a.len() == 25, v256(a, 25) == 0
    ensures set58(a, s, n).is_some() <==> (all58(s, n) && v58(s, n) < p256(25)),
        set58(a, s, n).is_some() ==> (set58(a, s, n).unwrap().len() == 25 && v256(set58(a, s, n).unwrap(), 25) == v58(s, n))
    decreases n
{
    v256_bounds(a, 25);
    if n > 0 {
        set58_value(a, s, n - 1);
        v58_nonneg(s, n - 1);
        let d = dig58(s[n - 1]);
        if set58(a, s, n - 1).is_some() && d >= 0 {
            let x = set58(a, s, n - 1).unwrap();
            let (b, r) = mul58(x, 24, d);
            mul58_value(x, 24, d);
            v256_bounds(b, 25);
            assert(r > 0 ==> r * p256(25) >= p256(25)) by (nonlinear_arith) requires p256(25) >= 1;
            assert(r == 0 ==> r * p256(25) == 0);
        }
    }
}
// C14: the fixed-width decoder together with the comparison of leading characters decides exactly
// whether the string is an address
pub proof fn set58_addr(s: Seq<u8>)
    ensures ({
        let r = set58(zeros(25), s, s.len() as int);
        addr_ok(s) == (r.is_some() && lead(s, 49, 0) == lead(r.unwrap(), 0, 0) && addr_bytes_ok(r.unwrap()))
    }), set58(zeros(25), s, s.len() as int).is_some() ==> set58(zeros(25), s, s.len() as int).unwrap().len() == 25
{
    let n = s.len() as int;
    v256_zero(zeros(25), 25, 25);
    set58_value(zeros(25), s, n);
    b58_dec_spec(s);
    let r = set58(zeros(25), s, n);
    let d = b58_dec(s);
    if addr_ok(s) {
        v256_bounds(d, 25);
        assert(all58(s, n));
        assert(r.is_some());
        v256_unique_len(r.unwrap(), d, 25);
        assert(r.unwrap() =~= d);
    }
    if r.is_some() && lead(s, 49, 0) == lead(r.unwrap(), 0, 0) {
        b58_unique(r.unwrap(), d, s);
    }
}
