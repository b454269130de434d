package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"math/big"
	"strings"

	"golang.org/x/crypto/ripemd160"
)

// Reference implementations.  None of them uses libsv.

func rVarInt(n uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	switch {
	case n < 253:
		return b[:1]
	case n <= 65535:
		return append([]byte{0xfd}, b[:2]...)
	case n <= 4294967295:
		return append([]byte{0xfe}, b[:4]...)
	}
	return append([]byte{0xff}, b...)
}

// rReadVarInt returns value, size (0: truncated)
func rReadVarInt(b []byte) (uint64, int) {
	if len(b) == 0 {
		return 0, 0
	}
	w := 0
	switch b[0] {
	case 0xfd:
		w = 2
	case 0xfe:
		w = 4
	case 0xff:
		w = 8
	default:
		return uint64(b[0]), 1
	}
	if len(b) < 1+w {
		return 0, 0
	}
	var v uint64
	for i := w; i >= 1; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v, 1 + w
}

func rRev(b []byte) []byte {
	r := []byte{}
	for i := len(b) - 1; i >= 0; i-- {
		r = append(r, b[i])
	}
	return r
}
func rSha(b []byte) []byte     { h := sha256.Sum256(b); return h[:] }
func rShad(b []byte) []byte    { return rSha(rSha(b)) }
func rRip(b []byte) []byte     { h := ripemd160.New(); h.Write(b); return h.Sum(nil) }
func rHash160(b []byte) []byte { return rRip(rSha(b)) }
func cat(p ...[]byte) []byte   { return bytes.Join(p, nil) }
func le32(v uint32) []byte     { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func le64(v uint64) []byte     { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }

const alpha58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func rB58(b []byte) string {
	n := new(big.Int).SetBytes(b)
	s := ""
	m := new(big.Int)
	k := big.NewInt(58)
	for n.Sign() > 0 {
		n.DivMod(n, k, m)
		s = string(alpha58[m.Int64()]) + s
	}
	for _, x := range b {
		if x != 0 {
			break
		}
		s = "1" + s
	}
	return s
}
func rB58Dec(s string) ([]byte, bool) {
	n := new(big.Int)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(alpha58, s[i])
		if d < 0 {
			return nil, false
		}
		n.Mul(n, big.NewInt(58))
		n.Add(n, big.NewInt(int64(d)))
	}
	z := 0
	for z < len(s) && s[z] == '1' {
		z++
	}
	return append(make([]byte, z), n.Bytes()...), true
}
func rB58Check(b []byte) string { return rB58(cat(b, rShad(b)[:4])) }
func rAddr(h []byte, mainnet bool) string {
	v := byte(0x6f)
	if mainnet {
		v = 0
	}
	return rB58Check(cat([]byte{v}, h))
}

// rAddrHash: the hash of a well formed address, nil otherwise
func rAddrHash(s string) []byte {
	b, ok := rB58Dec(s)
	if !ok || len(b) != 25 || b[0] != 0 && b[0] != 0x6f || !bytes.Equal(rShad(b[:21])[:4], b[21:]) {
		return nil
	}
	return b[1:21]
}

func rPush(d []byte) []byte {
	n := len(d)
	switch {
	case n <= 75:
		return cat([]byte{byte(n)}, d)
	case n <= 255:
		return cat([]byte{0x4c, byte(n)}, d)
	case n <= 65535:
		return cat([]byte{0x4d, byte(n), byte(n >> 8)}, d)
	}
	return cat([]byte{0x4e}, le32(uint32(n)), d)
}
func rPushes(ds [][]byte) []byte {
	r := []byte{}
	for _, d := range ds {
		r = append(r, rPush(d)...)
	}
	return r
}

var errShort = errors.New("short")

func rDecode(b []byte) ([][]byte, error) {
	r := [][]byte{}
	for i := 0; i < len(b); {
		o := int(b[i])
		i++
		w := -1
		switch {
		case o >= 1 && o <= 75:
			w = 0
		case o == 0x4c:
			w = 1
		case o == 0x4d:
			w = 2
		case o == 0x4e:
			w = 4
		}
		if w < 0 {
			r = append(r, []byte{byte(o)})
			continue
		}
		n := o
		if w > 0 {
			if len(b)-i < w {
				return nil, errShort
			}
			n = 0
			for k := w - 1; k >= 0; k-- {
				n = n<<8 | int(b[i+k])
			}
			i += w
		}
		if len(b)-i < n {
			return nil, errShort
		}
		r = append(r, b[i:i+n])
		i += n
	}
	return r, nil
}

func rP2PKH(h []byte) []byte { return cat([]byte{0x76, 0xa9, 0x14}, h, []byte{0x88, 0xac}) }
func rIsP2PKH(b []byte) bool {
	return len(b) == 25 && bytes.HasPrefix(b, []byte{0x76, 0xa9, 0x14}) && bytes.HasSuffix(b, []byte{0x88, 0xac})
}

// hexOK: strict hex as encoding/hex accepts it
func hexOK(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return nil, false
		}
	}
	b, _ := hex.DecodeString(s)
	return b, true
}

// ---- transactions

type rIn struct {
	txid []byte // as displayed
	idx  uint32
	sats uint64
	prev []byte // nil: absent
	unl  []byte // nil: absent
	seq  uint32
}
type rOut struct {
	sats uint64
	lock []byte
}
type rTx struct {
	ver, lock uint32
	ins       []rIn
	outs      []rOut
}

func (i rIn) ser(script []byte) []byte {
	return cat(rRev(i.txid), le32(i.idx), rVarInt(uint64(len(script))), script, le32(i.seq))
}
func (o rOut) ser() []byte { return cat(le64(o.sats), rVarInt(uint64(len(o.lock))), o.lock) }
func (t rTx) ser(script func(k int) []byte) []byte {
	b := cat(le32(t.ver), rVarInt(uint64(len(t.ins))))
	for k, i := range t.ins {
		s := i.unl
		if script != nil {
			s = script(k)
		}
		b = append(b, i.ser(s)...)
	}
	b = append(b, rVarInt(uint64(len(t.outs)))...)
	for _, o := range t.outs {
		b = append(b, o.ser()...)
	}
	return append(b, le32(t.lock)...)
}

// rParseIn returns the input and its size, 0 when the bytes are too short
func rParseIn(b []byte) (i rIn, n int) {
	if len(b) < 36 {
		return
	}
	l, w := rReadVarInt(b[36:])
	if w == 0 || uint64(len(b)-36-w) < 4 || l > uint64(len(b)-36-w-4) {
		return
	}
	p := 36 + w
	i = rIn{txid: rRev(b[:32]), idx: binary.LittleEndian.Uint32(b[32:]), unl: append([]byte{}, b[p:p+int(l)]...)}
	p += int(l)
	i.seq = binary.LittleEndian.Uint32(b[p:])
	return i, p + 4
}
func rParseOut(b []byte) (o rOut, n int) {
	if len(b) < 8 {
		return
	}
	l, w := rReadVarInt(b[8:])
	if w == 0 || l > uint64(len(b)-8-w) {
		return
	}
	p := 8 + w
	return rOut{binary.LittleEndian.Uint64(b), append([]byte{}, b[p:p+int(l)]...)}, p + int(l)
}
func rParse(b []byte) (t rTx, ok bool) {
	if len(b) < 4 {
		return
	}
	t.ver = binary.LittleEndian.Uint32(b)
	p := 4
	n, w := rReadVarInt(b[p:])
	if w == 0 {
		return
	}
	p += w
	for k := uint64(0); k < n; k++ {
		i, s := rParseIn(b[p:])
		if s == 0 {
			return
		}
		t.ins = append(t.ins, i)
		p += s
	}
	n, w = rReadVarInt(b[p:])
	if w == 0 {
		return
	}
	p += w
	for k := uint64(0); k < n; k++ {
		o, s := rParseOut(b[p:])
		if s == 0 {
			return
		}
		t.outs = append(t.outs, o)
		p += s
	}
	if len(b)-p != 4 {
		return
	}
	t.lock = binary.LittleEndian.Uint32(b[p:])
	return t, true
}

// rSigHash is the replay protected digest, in the byte order the library returns
func rSigHash(t rTx, k int, flag byte) []byte {
	z := make([]byte, 32)
	var pre, seq, outs []byte
	for _, i := range t.ins {
		pre = append(pre, cat(rRev(i.txid), le32(i.idx))...)
		seq = append(seq, le32(i.seq)...)
	}
	for _, o := range t.outs {
		outs = append(outs, o.ser()...)
	}
	hp, hs, ho := rShad(pre), rShad(seq), rShad(outs)
	base := flag & 31
	if flag&0x80 != 0 {
		hp = z
	}
	if flag&0x80 != 0 || base == 2 || base == 3 {
		hs = z
	}
	if base == 2 {
		ho = z
	}
	if base == 3 {
		if k < len(t.outs) {
			ho = rShad(t.outs[k].ser())
		} else {
			ho = z
		}
	}
	i := t.ins[k]
	return rRev(rShad(cat(le32(t.ver), hp, hs, rRev(i.txid), le32(i.idx), rVarInt(uint64(len(i.prev))), i.prev, le64(i.sats), le32(i.seq), ho, le32(t.lock), []byte{flag, 0, 0, 0})))
}
