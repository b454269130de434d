package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/bitcoinsv/bsvutil/base58"
	"github.com/bitcoinsv/bsvutil/hdkeychain"
	"golang.org/x/crypto/ripemd160"
)

// Bounded tests of what the contracts assume about code outside the repository (contracts marked
// "trusted", axioms of the specification library, intrinsics of govc).  Never counted as proof.

func init() {
	props["TRUST"] = prop{"arguments of trusted functions", trust}
}

func tHexV(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c) - '0'
	case 'a' <= c && c <= 'f':
		return int(c) - 'a' + 10
	case 'A' <= c && c <= 'F':
		return int(c) - 'A' + 10
	}
	return -1
}

// tDigits is the specification of numbers in text (digits of spec/show.rs).
func tDigits(n, base uint64) string {
	d := "0123456789abcdef"[n%base : n%base+1]
	if n < base {
		return d
	}
	return tDigits(n/base, base) + d
}

func tHexOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if tHexV(s[i]) < 0 {
			return false
		}
	}
	return len(s)%2 == 0
}

const t58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// b58_of: the characters denote the number, leading ones denote the leading zeros
func tB58Of(b []byte, s string) bool {
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(t58, s[i])
		if d < 0 {
			return false
		}
		v.Mul(v, big.NewInt(58)).Add(v, big.NewInt(int64(d)))
	}
	i, j := 0, 0
	for i < len(s) && s[i] == '1' {
		i++
	}
	for j < len(b) && b[j] == 0 {
		j++
	}
	return i == j && v.Cmp(new(big.Int).SetBytes(b)) == 0
}

func tGraphic(c byte) bool { return c > 32 && c < 127 }

var tBip = regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)

type tSort [][]byte

func (t tSort) Len() int           { return len(t) }
func (t tSort) Less(i, j int) bool { return bytes.Compare(t[i], t[j]) < 0 }
func (t tSort) Swap(i, j int)      { t[i], t[j] = t[j], t[i] }

func tBytesLT(a, b []byte) bool {
	for i := 0; ; i++ {
		switch {
		case i == len(b):
			return false
		case i == len(a):
			return true
		case a[i] != b[i]:
			return a[i] < b[i]
		}
	}
}

func tSplit(s string) []string {
	r := []string{""}
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			r = append(r, "")
		} else {
			r[len(r)-1] += s[i : i+1]
		}
	}
	return r
}

func trust(g *G) {
	g.nontrivial = true
	b := g.raw(g.size(200))
	g.in("bytes", b)
	// encoding/hex
	h := hex.EncodeToString(b)
	g.ok("hex length", len(h) == 2*len(b))
	for i := range b {
		g.ok("hex digits", h[2*i] == "0123456789abcdef"[b[i]/16] && h[2*i+1] == "0123456789abcdef"[b[i]%16])
	}
	s := h
	if g.one(2) {
		s = g.hexMangle(h)
	}
	g.in("text", s)
	d, err := hex.DecodeString(s)
	g.eq("hex decoding fails", err != nil, !tHexOK(s))
	if err == nil {
		for i := range d {
			g.ok("hex value", int(d[i]) == 16*tHexV(s[2*i])+tHexV(s[2*i+1]))
		}
		g.ok("hex bytes", len(d) == len(s)/2)
	}
	g.eq("EncodedLen", hex.EncodedLen(len(b)), 2*len(b))
	g.eq("DecodedLen", hex.DecodedLen(len(s)), len(s)/2)
	dst := g.raw(2*len(b) + g.r.Intn(3))
	rest := append([]byte{}, dst[2*len(b):]...)
	g.eq("Encode length", hex.Encode(dst, b), 2*len(b))
	g.eq("Encode", dst, append([]byte(h), rest...))
	dst = g.raw(len(s)/2 + g.r.Intn(3))
	rest = append([]byte{}, dst[len(s)/2:]...)
	dn, derr := hex.Decode(dst, []byte(s))
	g.eq("Decode fails", derr != nil, err != nil)
	if err == nil {
		g.eq("Decode length", dn, len(s)/2)
		g.eq("Decode", dst, append(append([]byte{}, d...), rest...))
	}
	// hashes
	h1 := sha256.Sum256(b)
	st := sha256.New()
	k := g.r.Intn(len(b) + 1)
	st.Write(b[:k])
	st.Write(b[k:])
	g.eq("sha256 stream", st.Sum([]byte{1, 2}), append([]byte{1, 2}, h1[:]...))
	st.Reset()
	st.Write(b)
	g.eq("sha256 after reset", st.Sum(nil), h1[:])
	rp := ripemd160.New()
	rp.Write(b[:k])
	rp.Sum(nil)
	rp.Write(b[k:])
	r1 := rp.Sum(nil)
	rp.Reset()
	rp.Write(b)
	g.eq("ripemd160 stream", rp.Sum(nil), r1)
	g.ok("ripemd160 length", len(r1) == 20)
	// base64, cipher feedback mode
	e := base64.StdEncoding.EncodeToString(b)
	x, err := base64.StdEncoding.DecodeString(e)
	g.ok("base64 inverse", err == nil && bytes.Equal(x, b))
	c, _ := aes.NewCipher(g.raw(16))
	iv := g.raw(16)
	ct := make([]byte, len(b))
	keep := append([]byte{}, b...)
	cipher.NewCFBEncrypter(c, iv).XORKeyStream(ct, b)
	pt := make([]byte, len(b))
	cipher.NewCFBDecrypter(c, iv).XORKeyStream(pt, ct)
	g.eq("CFB inverse", pt, b)
	g.eq("CFB source", b, keep)
	ip := append([]byte{}, ct...)
	cipher.NewCFBDecrypter(c, iv).XORKeyStream(ip, ip)
	g.eq("CFB in place", ip, b)
	// base58
	bs := base58.Encode(b)
	g.ok("base58 encoding", tB58Of(b, bs))
	if g.one(2) {
		bs = string(g.mutate([]byte(bs)))
	}
	all := true
	for i := 0; i < len(bs); i++ {
		all = all && strings.IndexByte(t58, bs[i]) >= 0
	}
	g.in("base58", bs)
	bd := base58.Decode(bs)
	if all {
		g.ok("base58 decoding", tB58Of(bd, bs))
	} else {
		g.ok("base58 decoding of other text is empty", len(bd) == 0)
	}
	v := g.byte()
	vb := append([]byte{v}, b...)
	y := sha256.Sum256(vb)
	y = sha256.Sum256(y[:])
	g.eq("base58check", base58.CheckEncode(b, v), base58.Encode(append(vb, y[:4]...)))
	// strings and bytes
	o := g.mutate(b)
	cmp := 0
	if tBytesLT(b, o) {
		cmp = -1
	} else if tBytesLT(o, b) {
		cmp = 1
	}
	g.eq("bytes.Compare", bytes.Compare(b, o), cmp)
	ix := -1
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == v {
			ix = i
		}
	}
	g.eq("bytes.IndexByte", bytes.IndexByte(b, v), ix)
	g.eq("strings.IndexByte", strings.IndexByte(string(b), v), ix)
	t := g.str()
	for n := g.r.Intn(4); n > 0; n-- {
		i := g.r.Intn(len(t) + 1)
		t = t[:i] + " " + t[i:]
	}
	g.in("words", t)
	g.eq("strings.Split", strings.Split(t, " "), tSplit(t))
	tr := strings.TrimSpace(t)
	if n := len(t); n > 0 && tGraphic(t[n-1]) {
		if tGraphic(t[0]) {
			g.eq("strings.TrimSpace", tr, t)
		} else if n > 1 && t[0] == ' ' && tGraphic(t[1]) {
			g.eq("strings.TrimSpace", tr, t[1:])
		}
	}
	g.eq("strings.TrimSpace of nothing", strings.TrimSpace(""), "")
	w := tSplit(t)
	j := ""
	for i, q := range w {
		if i > 0 {
			j += ":"
		}
		j += q
	}
	g.eq("strings.Join", strings.Join(w, ":"), j)
	if len(s) >= 2 && tHexV(s[0]) >= 0 && tHexV(s[1]) >= 0 {
		p, err := strconv.ParseUint(s[:2], 16, 8)
		g.ok("strconv.ParseUint", err == nil && int(p) == 16*tHexV(s[0])+tHexV(s[1]))
	}
	// formatting
	n := g.r.Intn(256)
	g.eq("%.2x", fmt.Sprintf("%.2x", n), string([]byte{"0123456789abcdef"[n/16], "0123456789abcdef"[n%16]}))
	g.eq("%02x", fmt.Sprintf("%02x", n), fmt.Sprintf("%.2x", n))
	g.eq("%x", fmt.Sprintf("%x", b), h)
	g.eq("%s", fmt.Sprintf("%s:%d", t, n), t+":"+strconv.Itoa(n))
	for _, v := range []int64{int64(g.u64()), int64(g.u32()), int64(n)} {
		dig := func(base uint64) string {
			if v < 0 {
				return "-" + tDigits(uint64(-v), base)
			}
			return tDigits(uint64(v), base)
		}
		g.eq("%d", fmt.Sprintf("%d %v %x", v, v, v), dig(10)+" "+dig(10)+" "+dig(16))
		g.eq("strconv", strconv.FormatInt(v, 10)+strconv.FormatInt(v, 16)+strconv.Itoa(int(v)), dig(10)+dig(16)+dig(10))
		g.eq("unsigned", fmt.Sprintf("%d %x", uint64(v), uint64(v))+strconv.FormatUint(uint64(v), 10), tDigits(uint64(v), 10)+" "+tDigits(uint64(v), 16)+tDigits(uint64(v), 10))
	}
	// the regular expression of BIP276
	bt := g.bipText()
	if g.one(3) {
		bt = t + ":" + h
	}
	g.in("bip276", bt)
	g.eq("regular expression", tBip.FindStringSubmatch(bt), tShape(bt))
	// sorting
	var l, l2 [][]byte
	for n := g.r.Intn(20); n > 0; n-- {
		q := g.raw(g.r.Intn(3))
		l, l2 = append(l, q), append(l2, q)
	}
	for i := range l2 { // selection
		for k := i + 1; k < len(l2); k++ {
			if tBytesLT(l2[k], l2[i]) {
				l2[i], l2[k] = l2[k], l2[i]
			}
		}
	}
	sort.Sort(tSort(l))
	g.eq("sort.Sort", l, l2)
	trustBig(g, b)
	if g.one(10) {
		trustKeys(g)
	}
}

func tShape(t string) []string {
	p := strings.LastIndexByte(t, ':')
	if p < 1 || len(t)-p-1 < 12 || strings.Contains(t[:p], "\n") {
		return nil
	}
	for i := p + 1; i < len(t); i++ {
		if tHexV(t[i]) < 0 {
			return nil
		}
	}
	n := len(t)
	return []string{t, t[:p], t[p+1 : p+3], t[p+3 : p+5], t[p+5 : n-8], t[n-8:]}
}

func trustBig(g *G, b []byte) {
	x := new(big.Int).SetBytes(b)
	val := new(big.Int)
	for _, c := range b {
		val.Add(val.Mul(val, big.NewInt(256)), big.NewInt(int64(c)))
	}
	g.ok("SetBytes", x.Cmp(val) == 0)
	i := 0
	for i < len(b) && b[i] == 0 {
		i++
	}
	g.ok("Bytes", bytes.Equal(x.Bytes(), b[i:]))
	buf := g.raw(len(b))
	g.eq("FillBytes", append([]byte{}, x.FillBytes(buf)...), append([]byte{}, b...))
	if len(b)-i <= 32 {
		g.eq("format", fmt.Sprintf("%064x", x), strings.Repeat("00", 32-len(b)+i)+hex.EncodeToString(b[i:]))
	}
	g.eq("BitLen", x.BitLen() <= 256, len(b)-i <= 32)
	if g.one(2) {
		x.Neg(x)
		g.ok("Bytes of a negative", bytes.Equal(x.Bytes(), b[i:]))
		g.ok("Neg", new(big.Int).Add(x, val).Sign() == 0)
		g.ok("Abs", new(big.Int).Abs(x).Cmp(val) == 0)
	}
	sg := 0
	if i < len(b) {
		sg = 1
		if x.Cmp(val) != 0 {
			sg = -1
		}
	}
	g.eq("Sign", x.Sign(), sg)
	n := uint(g.r.Intn(70))
	p := big.NewInt(1)
	for k := uint(0); k < n; k++ {
		p.Add(p, p)
	}
	g.ok("Lsh", new(big.Int).Lsh(x, n).Cmp(new(big.Int).Mul(x, p)) == 0)
	f := new(big.Int).Div(x, p) // Euclidean: floor for positive divisors
	g.ok("Rsh", new(big.Int).Rsh(x, n).Cmp(f) == 0)
	g.ok("Exp", new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(n)), nil).Cmp(p) == 0)
	g.ok("Exp of a negative exponent", new(big.Int).Exp(big.NewInt(2), big.NewInt(-int64(n)-1), nil).Cmp(big.NewInt(1)) == 0)
	u := g.u64()
	g.eq("SetUint64", new(big.Int).SetUint64(u).String(), strconv.FormatUint(u, 10))
	g.eq("NewInt", big.NewInt(int64(u)).String(), strconv.FormatInt(int64(u), 10))
	g.eq("IsInt64", x.IsInt64(), x.Cmp(big.NewInt(math.MinInt64)) >= 0 && x.Cmp(big.NewInt(math.MaxInt64)) <= 0)
	// floating point is read as real arithmetic: to within rounding
	if len(b) <= 125 {
		r := new(big.Rat).SetInt(x)
		fl, err := strconv.ParseFloat(x.String(), 64)
		g.ok("ParseFloat", err == nil && near(fl, r, 1e-15))
		f2, _ := new(big.Float).SetInt(x).Float64()
		g.ok("big.Float", near(f2, r, 1e-15))
	}
	g.ok("math.Pow", near(math.Pow(2, float64(n)), new(big.Rat).SetInt(p), 0))
	g.ok("math.Exp2", near(math.Exp2(float64(n)), new(big.Rat).SetInt(p), 0))
}

func trustKeys(g *G) {
	k, pub := g.key()
	ser := pub.SerializeCompressed()
	g.ok("compressed key", len(ser) == 33 && (ser[0] == 2 || ser[0] == 3))
	g.eq("PubKey", k.PubKey().SerializeCompressed(), ser)
	h := g.raw(32)
	s1, err := k.Sign(h)
	g.ok("Sign", err == nil)
	if err == nil {
		s2, _ := k.Sign(h)
		d := s1.Serialize()
		g.eq("Sign again", s2.Serialize(), append([]byte{}, d...))
		g.ok("DER", len(d) <= 80)
		q, err := bsvec.ParseSignature(d, bsvec.S256())
		g.ok("Verify", err == nil && q.Verify(h, pub))
	}
	mk, err := hdkeychain.NewMaster(g.raw(32), netParams)
	if err != nil {
		return
	}
	mk, _ = mk.Neuter()
	str := mk.String()
	a, e1 := hdkeychain.NewKeyFromString(str)
	b, e2 := hdkeychain.NewKeyFromString(str)
	g.ok("NewKeyFromString", e1 == nil && e2 == nil)
	i := g.u32()
	a, e1 = a.Child(i)
	b, e2 = b.Child(i)
	g.eq("Child fails", e1 != nil, e2 != nil)
	if e1 == nil {
		p, e1 := a.ECPubKey()
		q, e2 := b.ECPubKey()
		g.ok("ECPubKey", e1 == nil && e2 == nil && bytes.Equal(p.SerializeCompressed(), q.SerializeCompressed()))
	}
}
