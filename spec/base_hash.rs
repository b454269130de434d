// Hash functions, stream ciphers and text encodings implemented outside the repository.

pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ripemd160(s: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn sha256_len(s: Seq<u8>) ensures (#[trigger] sha256(s)).len() == 32;
pub broadcast axiom fn ripemd160_len(s: Seq<u8>) ensures (#[trigger] ripemd160(s)).len() == 20;
pub broadcast proof fn sha256_ext(a: Seq<u8>, b: Seq<u8>) ensures a =~= b ==> #[trigger] sha256(a) == #[trigger] sha256(b) { }
pub broadcast proof fn ripemd160_ext(a: Seq<u8>, b: Seq<u8>) ensures a =~= b ==> #[trigger] ripemd160(a) == #[trigger] ripemd160(b) { }
pub open spec fn sha256d(s: Seq<u8>) -> Seq<u8> { sha256(sha256(s)) }
pub open spec fn hash160(s: Seq<u8>) -> Seq<u8> { ripemd160(sha256(s)) }

// compressed serialisation of an elliptic curve public key
pub uninterp spec fn pk_ser(k: int) -> Seq<u8>;

// cipher feedback mode over an opaque block cipher
pub uninterp spec fn cfb_enc(block: int, iv: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn cfb_dec(block: int, iv: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn stream_enc(block: int, iv: Seq<u8>) -> int;
pub uninterp spec fn stream_dec(block: int, iv: Seq<u8>) -> int;
pub uninterp spec fn stream_used(s: int) -> bool;
pub axiom fn cfb_inverse(block: int, iv: Seq<u8>, data: Seq<u8>)
    ensures cfb_dec(block, iv, cfb_enc(block, iv, data)) == data, cfb_enc(block, iv, data).len() == data.len();

pub uninterp spec fn b64_enc(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn b64_dec(s: Seq<u8>) -> Option<Seq<u8>>;
pub axiom fn b64_inverse(s: Seq<u8>) ensures b64_dec(b64_enc(s)) == Some(s);

// what the system's random source delivered
pub uninterp spec fn from_rng(s: Seq<u8>) -> bool;
pub uninterp spec fn rng_failed() -> bool;

pub open spec fn is_encryption(block: int, text: Seq<u8>, r: Seq<u8>) -> bool {
    r.len() >= 16 && from_rng(r.subrange(0, 16))
    && r.subrange(16, r.len() as int) == cfb_enc(block, r.subrange(0, 16), b64_enc(text))
}
pub open spec fn decryption(block: int, c: Seq<u8>) -> Option<Seq<u8>> {
    if c.len() < 16 { None } else { b64_dec(cfb_dec(block, c.subrange(0, 16), c.subrange(16, c.len() as int))) }
}
// C21: decryption inverts encryption, whatever initialisation vector was drawn
pub proof fn decrypt_inverts(block: int, text: Seq<u8>, r: Seq<u8>)
    requires is_encryption(block, text, r)
    ensures decryption(block, r) == Some(text)
{
    b64_inverse(text);
    cfb_inverse(block, r.subrange(0, 16), b64_enc(text));
}
