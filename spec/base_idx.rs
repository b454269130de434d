// Byte search and the Base58 alphabet.
//@literal alphabet58 123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz
#[verifier::opaque]
pub open spec fn alphabet58() -> Seq<u8> {
    seq![49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8, 65u8, 66u8, 67u8, 68u8, 69u8, 70u8, 71u8, 72u8, 74u8, 75u8, 76u8, 77u8, 78u8, 80u8, 81u8, 82u8, 83u8, 84u8, 85u8, 86u8, 87u8, 88u8, 89u8, 90u8, 97u8, 98u8, 99u8, 100u8, 101u8, 102u8, 103u8, 104u8, 105u8, 106u8, 107u8, 109u8, 110u8, 111u8, 112u8, 113u8, 114u8, 115u8, 116u8, 117u8, 118u8, 119u8, 120u8, 121u8, 122u8]
}
// first position of a byte at or after k, -1 when there is none
pub open spec fn index_byte_from(s: Seq<u8>, c: u8, k: int) -> int
    decreases s.len() - k
{ if k < 0 || k >= s.len() { -1 } else if s[k] == c { k } else { index_byte_from(s, c, k + 1) } }
pub open spec fn index_byte(s: Seq<u8>, c: u8) -> int { index_byte_from(s, c, 0) }
pub proof fn index_byte_range(s: Seq<u8>, c: u8, k: int)
    ensures -1 <= index_byte_from(s, c, k) < s.len()
    decreases s.len() - k
{ if !(k < 0 || k >= s.len()) && s[k] != c { index_byte_range(s, c, k + 1); } }

pub closed spec fn dig58(c: u8) -> int { index_byte(alphabet58(), c) }
pub broadcast proof fn dig58_def(s: Seq<u8>, c: u8)
    ensures s == alphabet58() ==> #[trigger] index_byte(s, c) == dig58(c)
{ }
pub broadcast proof fn dig58_range(c: u8) ensures -1 <= #[trigger] dig58(c) < 58 { reveal(alphabet58); assert(alphabet58().len() == 58); index_byte_range(alphabet58(), c, 0); }
pub proof fn dig58_one() ensures dig58(49) == 0
{ reveal(alphabet58); assert(alphabet58()[0] == 49u8); }

// the Base58 library of the dependency
pub uninterp spec fn b58_enc(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn b58_dec(s: Seq<u8>) -> Seq<u8>;
pub broadcast proof fn b58_enc_ext(a: Seq<u8>, b: Seq<u8>) ensures a =~= b ==> #[trigger] b58_enc(a) == #[trigger] b58_enc(b) { }
