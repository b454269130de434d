package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"
)

// hold: a result that later calls must not change
func (g *G) hold(name string, b []byte) {
	g.bufs = append(g.bufs, frame{"(earlier result) " + name, b, append([]byte{}, b...)})
}

// scribble overwrites a result that should not share memory with anything
func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

func init() {
	props["C01"] = prop{"64-bit values and byte strings around every length boundary; non-trivial: more than one byte", c01}
	props["C05"] = prop{"byte strings of boundary lengths hashed, and transactions identified", c05}
	props["C09"] = prop{"lists of data parts of boundary sizes, appended to scripts; non-trivial: a non-empty part", c09}
	props["C10"] = prop{"scripts of pushes, opcodes and truncations; non-trivial: non-empty", c10}
	props["C11"] = prop{"scripts near every template; non-trivial: non-empty", c11}
	props["C12"] = prop{"public keys, hashes, addresses, valid and mangled", c12}
	props["C13"] = prop{"addresses of random hashes, and mutated addresses", c13}
	props["C14"] = prop{"addresses, BIP276 strings, and their mutations", c14}
	props["C15"] = prop{"BIP276 fields and strings, and their mutations", c15}
	props["C21"] = prop{"random texts and keys, and mutated ciphertexts", c21}
	props["C23"] = prop{"byte strings and hex strings of boundary lengths", c23}
}

func c01(g *G) {
	if g.pick(2) == 0 {
		v := g.u64()
		g.in("value", v)
		g.nontrivial = v >= 0xfd
		e := utils.VarInt(v)
		g.eq("VarInt", e, rVarInt(v))
		g.hold("VarInt", e)
		w := g.u64()
		g.eq("VarInt of another value", utils.VarInt(w), rVarInt(w))
		tail := g.raw(g.size(20))
		b := g.own("b", cat(e, tail))
		g.in("tail", tail)
		x, n := utils.DecodeVarInt(b)
		g.eq("DecodeVarInt value", x, v)
		g.eq("DecodeVarInt size", n, len(e))
		for k := 0; k < len(e); k++ {
			_, n := utils.DecodeVarInt(b[:k:k])
			g.eq(fmt.Sprint("size of the first bytes ", k), n, 0)
		}
		return
	}
	b := g.raw(g.size(40))
	if len(b) > 0 && g.r.Intn(3) > 0 {
		b[0] = 0xfc + byte(g.r.Intn(4))
	}
	g.in("bytes", b)
	g.nontrivial = len(b) > 1
	v, n := rReadVarInt(b)
	x, m := utils.DecodeVarInt(g.own("b", b))
	g.eq("DecodeVarInt size", m, n)
	if n > 0 {
		g.eq("DecodeVarInt value", x, v)
	}
}

func c05(g *G) {
	if g.pick(2) == 0 {
		b := g.raw(g.size(3000))
		g.in("bytes", b)
		g.nontrivial = len(b) > 0
		for round := 0; round < 2; round++ {
			o := g.own("b", b)
			for k, f := range []struct {
				n string
				f func([]byte) []byte
				r func([]byte) []byte
			}{{"Sha256", crypto.Sha256, rSha}, {"Sha256d", crypto.Sha256d, rShad}, {"Ripemd160", crypto.Ripemd160, rRip}, {"Hash160", crypto.Hash160, rHash160}} {
				_ = k
				h := f.f(o)
				g.eq(f.n, h, f.r(b))
				g.hold(f.n, h)
			}
			b = g.mutate(b)
		}
		return
	}
	t := g.tx(0)
	g.in("tx", t.ser(nil))
	x := g.build(t)
	d := dump(x)
	for k := 0; k < 4; k++ {
		g.eq("GetTxID", x.GetTxID(), hex.EncodeToString(rRev(rShad(t.ser(nil)))))
		g.eq("id is of ToBytes", x.GetTxID(), hex.EncodeToString(rRev(rShad(x.ToBytes()))))
		g.eq("transaction after", dump(x), d)
		if k == 0 {
			x.Locktime++
			t.lock++
		} else {
			g.morph(x, &t)
		}
		d = t.dump()
	}
}

func (g *G) parts(nonEmpty bool) [][]byte {
	n := g.count()
	r := [][]byte{}
	max := 3000
	if n < 4 && g.one(8) {
		max = 140000
	}
	if n > 20 {
		max = 300
	}
	for k := 0; k < n; k++ {
		s := g.size(max)
		if g.one(40) && n < 4 {
			s = bigSizes[g.r.Intn(len(bigSizes))]
		}
		if nonEmpty && s == 0 {
			s = 1
		}
		r = append(r, g.raw(s))
	}
	return r
}

func (g *G) ownParts(name string, p [][]byte) [][]byte {
	r := make([][]byte, len(p), len(p)+g.r.Intn(2))
	for k := range p {
		r[k] = g.own(fmt.Sprint(name, k), p[k])
	}
	return r
}

func c09(g *G) {
	ps := g.parts(g.r.Intn(4) > 0)
	g.in("parts", ps)
	enc := rPushes(ps)
	o := g.ownParts("part", ps)
	all := true
	for k, p := range ps {
		g.nontrivial = g.nontrivial || len(p) > 0
		all = all && len(p) > 0
		pre, err := script.GetPushDataPrefix(o[k])
		g.eq("GetPushDataPrefix error", err, nil)
		g.eq("GetPushDataPrefix", pre, rPush(p)[:len(rPush(p))-len(p)])
		g.hold("prefix", pre)
	}
	e, err := script.EncodeParts(o)
	g.eq("EncodeParts error", err, nil)
	g.eq("EncodeParts", e, enc)
	g.hold("encoded", e)
	if all {
		d, err := script.DecodeParts(e)
		g.eq("DecodeParts error", err, nil)
		g.eq("DecodeParts", d, ps)
		d, err = script.DecodeStringParts(hex.EncodeToString(e))
		g.eq("DecodeStringParts error", err, nil)
		g.eq("DecodeStringParts", d, ps)
	}
	start := g.scriptBytes(200)
	g.in("script", start)
	s := script.Script(append(make([]byte, 0, len(start)+g.r.Intn(400)), start...))
	want := append([]byte{}, start...)
	for k := 0; k < 4; k++ {
		p := []byte{}
		if len(ps) > 0 {
			p = ps[g.r.Intn(len(ps))]
		}
		switch m := g.choose(7); m {
		case 0:
			g.eq("AppendPushData error", s.AppendPushData(g.own("data", p)), nil)
			want = append(want, rPush(p)...)
		case 1:
			h := g.hexMangle(hex.EncodeToString(p))
			g.in("hex", h)
			b, ok := hexOK(h)
			err := s.AppendPushDataHexString(h)
			g.eq("AppendPushDataHexString error", err == nil, ok)
			if ok {
				want = append(want, rPush(b)...)
			}
		case 2:
			g.eq("AppendPushDataString error", s.AppendPushDataString(string(p)), nil)
			want = append(want, rPush(p)...)
		case 3:
			g.eq("AppendPushDataArray error", s.AppendPushDataArray(o), nil)
			want = append(want, enc...)
		case 4:
			ss := []string{}
			for _, p := range ps {
				ss = append(ss, string(p))
			}
			g.eq("AppendPushDataStrings error", s.AppendPushDataStrings(ss), nil)
			want = append(want, enc...)
		default:
			b := g.byte()
			g.in("opcode", b)
			s.AppendOpCode(b)
			want = append(want, b)
		}
		g.eq("script after append", []byte(s), want)
		g.eq("ToString", s.ToString(), hex.EncodeToString(want))
	}
}

func c10(g *G) {
	b := g.scriptBytes(70000)
	if g.one(3) {
		b = g.truncScript()
	}
	g.in("script", b)
	g.nontrivial = len(b) > 0
	for round := 0; round < 2; round++ {
		want, werr := rDecode(b)
		o := g.own("b", b)
		got, err := script.DecodeParts(o)
		g.eq("DecodeParts fails", err != nil, werr != nil)
		if err == nil {
			g.eq("DecodeParts", got, want)
			n, hdr := 0, 0
			for _, p := range got {
				n += len(p)
			}
			_ = hdr
			g.ok("parts lie within the script", n <= len(b))
		}
		h := hex.EncodeToString(b)
		if g.one(2) {
			h = g.hexMangle(h)
		}
		hb, ok := hexOK(h)
		ps, err := script.DecodeStringParts(h)
		if !ok {
			g.ok("DecodeStringParts fails on invalid hex", err != nil)
		} else {
			want, werr := rDecode(hb)
			g.eq("DecodeStringParts fails", err != nil, werr != nil)
			if err == nil {
				g.eq("DecodeStringParts", ps, want)
			}
		}
		b = g.mutate(b)
		g.in("then", b)
	}
}

// truncScript: a push whose declared length is near what is there
func (g *G) truncScript() []byte {
	pre := g.scriptBytes(20)
	if g.one(2) {
		pre = nil
	}
	n := g.size(70000)
	have := n + g.r.Intn(5) - 2
	if have < 0 || g.one(4) {
		have = g.r.Intn(8)
	}
	var h []byte
	switch g.choose(5) {
	case 0:
		h = []byte{byte(n)}
	case 1:
		h = []byte{0x4c, byte(n)}
		if g.one(2) {
			have = int(byte(n)) + g.r.Intn(3) - 1
		}
	case 2:
		h = []byte{0x4d, byte(n), byte(n >> 8)}
	case 3:
		h = cat([]byte{0x4e}, le32(uint32(n)))
	default:
		h = cat([]byte{0x4e}, le32(g.u32()))
	}
	if have < 0 {
		have = 0
	}
	if g.one(6) {
		return cat(pre, h[:g.r.Intn(len(h)+1)])
	}
	if g.one(6) { // a push of nothing, at the very end or not
		e := [][]byte{{0x4c, 0}, {0x4d, 0, 0}, {0x4e, 0, 0, 0, 0}, {0x4c, 1}, {0x4d, 1, 0}, {0x4e, 1, 0, 0, 0}}[g.r.Intn(6)]
		return cat(pre, e, g.raw(g.r.Intn(3)))
	}
	return cat(pre, h, g.raw(have))
}

func (g *G) templ() []byte {
	key := func() []byte {
		k := []byte{2, 3, 4, 6, 7, 5, 0}[g.choose(7)]
		n := 33
		if k >= 4 {
			n = 65
		}
		if g.one(5) {
			n = []int{33, 65, 32, 34, 64, 66, 1, 0}[g.choose(8)]
		}
		b := g.raw(n)
		if n > 0 {
			b[0] = k
		}
		return b
	}
	small := func() byte { return []byte{0, 0x4f, 0x50, 0x51, 0x52, 0x53, 0x60, 0x61}[g.choose(8)] }
	switch g.pick(13) {
	case 10, 11, 12: // any short sequence of parts
		b := []byte{}
		for k := 1 + g.r.Intn(5); k > 0; k-- {
			switch g.choose(6) {
			case 0:
				b = append(b, [][]byte{{0x4c, 0}, {0x4d, 0, 0}, {0x4e, 0, 0, 0, 0}}[g.choose(3)]...)
			case 1:
				b = append(b, small())
			case 2:
				b = append(b, rPush(key())...)
			case 3:
				b = append(b, 1, []byte{small(), 0xac, 0xae}[g.choose(3)])
			default:
				b = append(b, []byte{0xac, 0xae}[g.choose(2)])
			}
		}
		return b
	case 0:
		return rP2PKH(g.raw(20))
	case 1:
		return cat([]byte{0xa9, 0x14}, g.raw(20), []byte{0x87})
	case 2, 3:
		return cat(rPush(key()), []byte{[]byte{0xac, 0xad, 0xab, 0xac}[g.choose(4)]})
	case 4, 5, 6:
		b := []byte{small()}
		if g.one(8) {
			b = rPush([]byte{small(), 1}[:g.r.Intn(3)])
		}
		for k := g.r.Intn(5); k > 0; k-- {
			b = append(b, rPush(key())...)
		}
		return cat(b, []byte{small(), []byte{0xae, 0xae, 0xae, 0xaf, 0xac}[g.choose(5)]})
	case 7:
		return cat([]byte{0x6a}, g.raw(g.size(100)))
	case 8:
		return cat([]byte{0, 0x6a}, g.raw(g.size(100)))
	}
	return g.scriptBytes(300)
}

func c11(g *G) {
	b := g.templ()
	if g.choose(3) == 0 {
		b = g.mutate(b)
	}
	g.in("script", b)
	g.nontrivial = len(b) > 0
	for round := 0; round < 2; round++ {
		s := script.Script(g.own("script", b))
		ps, err := rDecode(b)
		p2pk, multi := false, false
		if err == nil {
			if len(ps) == 2 && len(ps[0]) > 0 && len(ps[1]) > 0 && ps[1][0] == 0xac {
				v, n := ps[0][0], len(ps[0])
				p2pk = n == 33 && (v == 2 || v == 3) || n == 65 && (v == 4 || v == 6 || v == 7)
			}
			if len(ps) >= 3 {
				multi = true
				for _, p := range ps {
					multi = multi && len(p) > 0
				}
				sm := func(c byte) bool { return c == 0 || c >= 0x51 && c <= 0x60 }
				multi = multi && sm(ps[0][0]) && sm(ps[len(ps)-2][0]) && ps[len(ps)-1][0] == 0xae
			}
		}
		g.eq("IsP2PKH", s.IsP2PKH(), rIsP2PKH(b))
		g.eq("IsP2SH", s.IsP2SH(), len(b) == 23 && b[0] == 0xa9 && b[1] == 20 && b[22] == 0x87)
		g.eq("IsData", s.IsData(), bytes.HasPrefix(b, []byte{0x6a}) || bytes.HasPrefix(b, []byte{0, 0x6a}))
		g.eq("IsP2PK", s.IsP2PK(), p2pk)
		g.eq("IsMultisigOut", s.IsMultisigOut(), multi)
		h, err := s.GetPublicKeyHash()
		if rIsP2PKH(b) {
			g.eq("GetPublicKeyHash error", err, nil)
			g.eq("GetPublicKeyHash", h, b[3:23])
		} else {
			g.ok("GetPublicKeyHash fails", err != nil)
		}
		b = g.mutate(b)
		g.in("then", b)
	}
	_, err := (*script.Script)(nil).GetPublicKeyHash()
	g.ok("GetPublicKeyHash of nil fails", err != nil)
}

func (g *G) checkP2PKH(what string, s *script.Script, err error, h []byte) {
	if h == nil {
		g.ok(what+" fails", err != nil)
		return
	}
	g.eq(what+" error", err, nil)
	g.eq(what, []byte(*s), rP2PKH(h))
	g.ok(what+" is P2PKH", s.IsP2PKH())
	b, err := s.GetPublicKeyHash()
	g.eq(what+" hash error", err, nil)
	g.eq(what+" hash", b, h)
}

func (g *G) addr() string {
	switch g.pick(9) {
	case 0: // wrong version
		return rB58Check(cat([]byte{g.byte()}, g.raw(20)))
	case 1: // wrong length
		return rB58Check(cat([]byte{[]byte{0, 0x6f}[g.choose(2)]}, g.raw([]int{18, 19, 21, 22, 0, 1, 32}[g.choose(7)])))
	case 2: // mangled text
		return string(g.mutate([]byte(rAddr(g.raw(20), g.one(2)))))
	case 3: // extra or missing leading ones
		a := rAddr(g.raw(20), true)
		if g.one(2) {
			return strings.Repeat("1", 1+g.r.Intn(3)) + a
		}
		return a[1:]
	case 4:
		if g.one(2) { // bad checksum
			b, _ := rB58Dec(rAddr(g.raw(20), g.one(2)))
			b[len(b)-1-g.r.Intn(4)] ^= 1 << uint(g.r.Intn(8))
			return rB58(b)
		}
		return g.str()
	case 5: // more than 25 bytes
		return rB58(g.raw(24 + g.r.Intn(4)))
	case 6: // an address plus a multiple of 256^25
		b, _ := rB58Dec(rAddr(g.raw(20), g.one(2)))
		x := g.raw(1 + g.r.Intn(3))
		if g.one(2) {
			x[0] |= 1
		}
		return rB58(cat(x, b))
	}
	return rAddr(g.raw(20), g.one(2))
}

func c12(g *G) {
	switch g.pick(4) {
	case 0:
		k := g.raw([]int{33, 65, 33, 0, 1, 32, 34, 64}[g.pick(8)])
		g.in("key", k)
		s, err := script.NewP2PKHFromPubKeyBytes(g.own("key", k))
		g.spoil(s)
		g.checkP2PKH("NewP2PKHFromPubKeyBytes", s, err, rHash160(k))
		h := g.hexMangle(hex.EncodeToString(k))
		g.in("hex", h)
		b, ok := hexOK(h)
		var w []byte
		if ok {
			w = rHash160(b)
		}
		s2, err := script.NewP2PKHFromPubKeyStr(h)
		g.spoil(s2)
		g.checkP2PKH("NewP2PKHFromPubKeyStr", s2, err, w)
		scribble(*s)
		if ok {
			g.eq("second script after overwriting the first", []byte(*s2), rP2PKH(w))
		}
	case 1:
		n := 20
		if g.one(3) {
			n = g.size(40)
		}
		h := g.hexMangle(hex.EncodeToString(g.raw(n)))
		g.in("hash hex", h)
		b, ok := hexOK(h)
		if !ok || len(b) != 20 {
			b = nil
		}
		sat := g.u64()
		g.twice(func() {
			s, err := script.NewP2PKHFromPubKeyHashStr(h)
			g.spoil(s)
			g.checkP2PKH("NewP2PKHFromPubKeyHashStr", s, err, b)
			o, err := outPKH(h, sat)
			g.spoil(o)
			g.checkOut("NewP2PkhFromPubKeyHash", o, err, sat, b)
		})
	default:
		a := g.addr()
		g.in("address", a)
		g.nontrivial = rAddrHash(a) != nil
		sat := g.u64()
		g.in("satoshis", sat)
		g.twice(func() {
			s, err := script.NewP2PKHFromAddress(a)
			g.spoil(s)
			g.checkP2PKH("NewP2PKHFromAddress", s, err, rAddrHash(a))
			o, err := outAddr(a, sat)
			g.spoil(o)
			g.checkOut("output.NewP2PKHFromAddress", o, err, sat, rAddrHash(a))
		})
		t := g.tx(0)
		x := g.build(t)
		d := dump(x)
		err := x.PayTo(a, sat)
		if h := rAddrHash(a); h == nil {
			g.ok("PayTo fails", err != nil)
			g.eq("transaction after failed PayTo", dump(x), d)
		} else {
			g.eq("PayTo error", err, nil)
			t.outs = append(t.outs, rOut{sat, rP2PKH(h)})
			g.eq("transaction after PayTo", dump(x), t.dump())
			g.checkP2PKH("PayTo output", x.Outputs[len(x.Outputs)-1].LockingScript, nil, h)
		}
	}
	g.nontrivial = true
}

func c13(g *G) {
	h := g.raw(20)
	net := g.pick(2) == 0
	g.in("hash", h)
	g.in("mainnet", net)
	want := rAddr(h, net)
	g.twice(func() {
		a, err := address.NewFromPublicKeyHash(g.own("hash", h), net)
		g.spoil(a)
		g.eq("NewFromPublicKeyHash error", err, nil)
		g.eq("NewFromPublicKeyHash", a.AddressString, want)
		g.eq("NewFromPublicKeyHash hash", a.PublicKeyHash, hex.EncodeToString(h))
	})
	g.twice(func() {
		a, err := address.NewFromString(want)
		g.spoil(a)
		g.eq("NewFromString error", err, nil)
		g.eq("NewFromString", a.AddressString, want)
		g.eq("NewFromString hash", a.PublicKeyHash, hex.EncodeToString(h))
	})
	k := g.raw(g.size(70))
	ks := g.hexMangle(hex.EncodeToString(k))
	g.in("key hex", ks)
	g.twice(func() {
		a, err := address.NewFromPublicKeyString(ks, net)
		g.spoil(a)
		if b, ok := hexOK(ks); ok {
			g.eq("NewFromPublicKeyString error", err, nil)
			g.eq("NewFromPublicKeyString", a.AddressString, rAddr(rHash160(b), net))
			g.eq("NewFromPublicKeyString hash", a.PublicKeyHash, hex.EncodeToString(rHash160(b)))
		} else {
			g.ok("NewFromPublicKeyString fails", err != nil)
		}
	})
	if g.one(4) {
		_, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), cat([]byte{1}, g.raw(31)))
		g.twice(func() {
			a, err := address.NewFromPublicKey(pub, net)
			g.spoil(a)
			g.eq("NewFromPublicKey error", err, nil)
			g.eq("NewFromPublicKey", a.AddressString, rAddr(rHash160(pub.SerializeCompressed()), net))
			g.eq("NewFromPublicKey hash", a.PublicKeyHash, hex.EncodeToString(rHash160(pub.SerializeCompressed())))
		})
	}
	for r := 0; r < 3; r++ {
		s := g.addr()
		g.in("text", s)
		a, err := address.NewFromString(s)
		g.spoil(a)
		if b := rAddrHash(s); b == nil {
			g.ok("NewFromString fails", err != nil)
		} else {
			g.eq("NewFromString error", err, nil)
			g.eq("NewFromString", a.AddressString, s)
			g.eq("NewFromString hash", a.PublicKeyHash, hex.EncodeToString(b))
		}
	}
	b := g.raw(g.size(200))
	g.in("bytes", b)
	g.eq("Base58EncodeMissingChecksum", address.Base58EncodeMissingChecksum(g.own("bytes", b)), rB58Check(b))
	g.nontrivial = true
}

const hexDigits = "0123456789abcdefABCDEF"

// rBip: the fields of a well formed BIP276 string
func rBip(s string) (prefix string, network, version int, data []byte, ok bool) {
	p := strings.LastIndexByte(s, ':')
	if p < 1 || strings.Contains(s[:p], "\n") {
		return
	}
	// the shortest prefix followed by ':' and hex digits up to the end: hex digits do not contain ':'
	t := s[p+1:]
	for i := 0; i < len(t); i++ {
		if strings.IndexByte(hexDigits, t[i]) < 0 {
			return
		}
	}
	if len(t) < 12 || len(t)%2 != 0 {
		return
	}
	b, _ := hex.DecodeString(t[:len(t)-8])
	prefix, network, version, data = s[:p], int(b[0]), int(b[1]), b[2:]
	ok = t[len(t)-8:] == hex.EncodeToString(rShad([]byte(fmt.Sprintf("%s:%02x%02x%x", prefix, network, version, data)))[:4])
	return
}
func rBipEnc(prefix string, network, version int, data []byte) string {
	p := fmt.Sprintf("%s:%02x%02x%x", prefix, network, version, data)
	return p + hex.EncodeToString(rShad([]byte(p))[:4])
}

func (g *G) bipText() string {
	pre := []string{"bitcoin-script", "bitcoin-template", "a", "a:b", "", ":", "bitcoin-script:", "x\ny", "bitcoin-scripT", "ab::", "00", "0:", "::"}[g.pick(13)]
	if g.one(5) {
		pre = g.str()
	}
	nw, v := int(g.byte()), int(g.byte())
	d := g.raw(g.size(300))
	if g.one(2) {
		d = d[:len(d)%9]
	}
	s := rBipEnc(pre, nw, v, d)
	switch g.choose(8) {
	case 0:
		return string(g.mutate([]byte(s)))
	case 1:
		return strings.ToUpper(s)
	case 2:
		if len(d) > 0 && len(s) > 9 { // upper case data, checksum of the canonical text
			return s[:len(s)-8-len(d)] + strings.ToUpper(s[len(s)-8-len(d):len(s)-8]) + s[len(s)-8:]
		}
	case 3:
		if g.one(2) {
			return s[:len(s)-8] + "00000000"
		}
		return s[:len(s)-1] + "g"
	case 4: // checksum of odd text
		p := fmt.Sprintf("%s:%02x%02x%x0", pre, nw, v, d)
		return p + hex.EncodeToString(rShad([]byte(p))[:4])
	case 5:
		return s + "\n"
	}
	return s
}

func c14(g *G) {
	var s string
	switch g.pick(3) {
	case 0:
		s = g.bipText()
	case 1:
		s = "bitcoin-script:" + g.str()
	default:
		s = g.addr()
	}
	g.in("text", s)
	var want bool
	if strings.HasPrefix(s, "bitcoin-script:") {
		_, _, _, _, want = rBip(s)
	} else {
		want = rAddrHash(s) != nil
	}
	g.nontrivial = want
	got, err := address.ValidateAddress(s)
	g.eq("ValidateAddress", got, want)
	g.eq("ValidateAddress error", err != nil, !want)
	if !strings.HasPrefix(s, "bitcoin-script:") {
		_, err := address.NewFromString(s)
		g.eq("NewFromString agrees", err == nil, want)
	}
}

func c15(g *G) {
	g.eq("constant PrefixScript", address.PrefixScript, "bitcoin-script")
	g.eq("constant PrefixTemplate", address.PrefixTemplate, "bitcoin-template")
	g.eq("constants", []int{address.CurrentVersion, address.NetworkMainnet, address.NetworkTestnet}, []int{1, 1, 2})
	pre := "x" + strings.ReplaceAll(g.str(), "\n", "")
	if g.one(2) {
		pre = []string{"bitcoin-script", "bitcoin-template", ":", "a:00", ":::", "a:", "0"}[g.choose(7)]
	}
	edge := func() int {
		if g.one(3) {
			return []int{-1, 0, 256, 257, 1 << 31, -256, -255, 0x101}[g.choose(8)]
		}
		return []int{1, 2, 9, 10, 15, 16, 17, 31, 99, 100, 127, 128, 200, 254, 255, 1 + g.r.Intn(255)}[g.pick(16)]
	}
	nw, v := edge(), edge()
	d := g.raw(g.size(300))
	g.in("prefix", pre)
	g.in("network", nw)
	g.in("version", v)
	g.in("data", d)
	s := address.EncodeBIP276(pre, nw, v, g.own("data", d))
	if nw < 1 || nw > 255 || v < 1 || v > 255 {
		g.eq("EncodeBIP276", s, "ERROR")
	} else {
		g.nontrivial = true
		g.eq("EncodeBIP276", s, rBipEnc(pre, nw, v, d))
		p, ver, net, data, err := address.DecodeBIP276(s)
		g.eq("DecodeBIP276 error", err, nil)
		g.eq("prefix", p, pre)
		g.eq("version", ver, v)
		g.eq("network", net, nw)
		g.eq("data", data, d)
	}
	s = g.bipText()
	g.in("text", s)
	p, ver, net, data, err := address.DecodeBIP276(s)
	rp, rn, rv, rd, ok := rBip(s)
	g.eq("DecodeBIP276 fails", err != nil, !ok)
	if ok {
		g.eq("prefix", p, rp)
		g.eq("version", ver, rv)
		g.eq("network", net, rn)
		g.eq("data", data, rd)
	}
}

func c21(g *G) {
	key := g.raw([]int{16, 24, 32}[g.pick(3)])
	c, _ := aes.NewCipher(key)
	text := g.raw(g.size(2000))
	g.in("key", key)
	g.in("text", text)
	g.nontrivial = len(text) > 0
	ct, err := crypto.Encrypt(c, g.own("text", text))
	g.eq("Encrypt error", err, nil)
	g.hold("ciphertext", ct)
	dec := func(ct []byte) ([]byte, bool) {
		if len(ct) < 16 {
			return nil, false
		}
		b := make([]byte, len(ct)-16)
		cipher.NewCFBDecrypter(c, ct[:16]).XORKeyStream(b, ct[16:])
		r, err := base64.StdEncoding.DecodeString(string(b))
		return r, err == nil
	}
	if g.one(2) {
		t2 := g.raw(g.size(100))
		ct2, err := crypto.Encrypt(c, t2)
		g.eq("Encrypt of another text error", err, nil)
		p, err := crypto.Decrypt(c, ct2)
		g.eq("Decrypt of another text error", err, nil)
		g.eq("Decrypt of another text", p, t2)
	}
	r, ok := dec(ct)
	g.ok("ciphertext has the right form", ok)
	g.eq("ciphertext stands for the text", r, text)
	for k := 0; k < 2; k++ {
		p, err := crypto.Decrypt(c, g.own("ct", ct))
		g.eq("Decrypt error", err, nil)
		g.eq("Decrypt", p, text)
	}
	bad := g.mutate(ct)
	if g.one(3) {
		bad = g.raw(g.r.Intn(40))
	}
	g.in("mangled", bad)
	r, ok = dec(bad)
	p, err := crypto.Decrypt(c, g.own("mangled", bad))
	g.eq("Decrypt of mangled text fails", err != nil, !ok)
	if ok {
		g.eq("Decrypt of mangled text", p, r)
	}
}

func c23(g *G) {
	b := g.raw(g.size(1000))
	g.in("bytes", b)
	g.nontrivial = len(b) > 1
	o := g.own("bytes", b)
	r := utils.ReverseBytes(o)
	g.eq("ReverseBytes", r, rRev(b))
	g.eq("reversed twice", utils.ReverseBytes(r), b)
	scribble(r)
	var s string
	if g.one(2) {
		s = hex.EncodeToString(b)
	} else {
		s = g.str()
	}
	g.in("string", s)
	t := s
	if len(t)%2 != 0 {
		t = "0" + t
	}
	rs := ""
	for i := len(t); i > 0; i -= 2 {
		rs += t[i-2 : i]
	}
	g.eq("ReverseHexString", utils.ReverseHexString(s), rs)
	c := append([]byte{}, b...)
	if g.one(2) {
		c = g.mutate(c)
	}
	g.in("other", c)
	g.eq("Equals", utils.Equals(o, g.own("other", c)), bytes.Equal(b, c))
	g.eq("Equals reversed", utils.Equals(g.own("other", c), o), bytes.Equal(b, c))
	g.ok("Equals itself", utils.Equals(o, o))
	l := 4 + g.size(100)
	v := g.u32()
	g.in("v", v)
	g.in("l", l)
	g.eq("GetLittleEndianBytes", utils.GetLittleEndianBytes(v, uint32(l)), cat(le32(v), make([]byte, l-4)))
	h := hex.EncodeToString(g.raw(30 + g.r.Intn(6)))
	if g.one(3) {
		h = g.hexMangle(h)
	}
	if g.one(6) {
		h = s
	}
	g.in("hex", h)
	d, err := utils.Decode32Byte(h)
	if x, ok := hexOK(h); ok && len(x) >= 32 {
		g.eq("Decode32Byte error", err, nil)
		g.eq("Decode32Byte", d[:], x[:32])
	} else {
		g.ok("Decode32Byte fails", err != nil)
	}
	n := g.count()
	if n > 40 {
		n = 40
	}
	var a [][]byte
	for k := 0; k < n; k++ {
		x := g.raw(g.r.Intn(6))
		if k > 0 && g.one(3) {
			x = g.mutate(a[g.r.Intn(k)])
		}
		if k > 0 && g.one(5) {
			x = append([]byte{}, a[g.r.Intn(k)]...)
		}
		a = append(a, x)
	}
	g.in("arrays", a)
	w := append([][]byte{}, a...)
	sort.SliceStable(w, func(i, j int) bool { return bytes.Compare(w[i], w[j]) < 0 })
	own := g.ownParts("array", a)
	g.eq("SortByteArrays", utils.SortByteArrays(own), w)
	g.eq("sorted in place", own, w)
}

var _ = sighash.All
