package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"crypto/aes"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/bitcoinsv/bsvutil/hdkeychain"
	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"
)

func outPKH(h string, sat uint64) (*output.Output, error) {
	return output.NewP2PkhFromPubKeyHash(h, sat)
}
func outAddr(a string, sat uint64) (*output.Output, error) { return output.NewP2PKHFromAddress(a, sat) }
func (g *G) checkOut(what string, o *output.Output, err error, sat uint64, h []byte) {
	if h == nil {
		g.ok(what+" fails", err != nil)
		return
	}
	g.eq(what+" error", err, nil)
	g.eq(what+" satoshis", o.Satoshis, sat)
	g.checkP2PKH(what, o.LockingScript, nil, h)
}

func init() {
	props["C02"] = prop{"transactions with 0 to 600 inputs and outputs and scripts of boundary sizes; non-trivial: an input or output", c02}
	props["C03"] = prop{"serialised transactions, mutated and truncated, with non-canonical and huge counts; non-trivial: non-empty", c03}
	props["C04"] = prop{"parse, overwrite the buffer, append to scripts, compare", c04}
	props["C06"] = prop{"transactions, every index, all 256 flags", c06}
	props["C07"] = prop{"sign one input, verify the signature, compare everything else", c07}
	props["C08"] = prop{"mixed inputs signed automatically", c08}
	props["C16"] = prop{"lists of 1 to 40 ids, proofs of every leaf, mangled proofs", c16}
	props["C17"] = prop{"heights, texts around the cut, commitments and miner ids", c17}
	props["C18"] = prop{"header fields", c18}
	props["C19"] = prop{"all exponents, boundary mantissas, bad strings", c19}
	props["C20"] = prop{"key sets in several orders", c20}
	props["C22"] = prop{"scripts of opcodes and shortest pushes, and mangled ASM", c22}
	props["C24"] = prop{"data lists and hash puzzles", c24}
	props["C25"] = prop{"every byte-slice argument with spare capacity, compared afterwards", c25}
	props["C26"] = prop{"sequences of building operations against a model", c26}
	props["C27"] = prop{"transactions, indexes and scripts", c27}
	props["C28"] = prop{"Electrum scripts with valid keys, and their mutations", c28}
}

func c02(g *G) {
	t := g.tx(0)
	w := t.ser(nil)
	g.in("tx", w)
	x := g.build(t)
	b := x.ToBytes()
	g.eq("ToBytes", b, w)
	g.eq("ToBytes again", x.ToBytes(), w)
	g.hold("ToBytes", b)
	g.eq("ToString", x.ToString(), hex.EncodeToString(w))
	y, err := transaction.NewFromBytes(g.own("raw", w))
	g.spoil(y)
	g.eq("NewFromBytes error", err, nil)
	g.eq("NewFromBytes", dump(y), t.parsed().dump())
	z, err := transaction.NewFromString(hex.EncodeToString(w))
	g.spoil(z)
	g.eq("NewFromString error", err, nil)
	g.eq("NewFromString", dump(z), t.parsed().dump())
	g.eq("transaction unchanged", dump(x), t.dump())
	// the same objects changed in place
	v, p := t.clone(), t.parsed()
	for k := 0; k < 2; k++ {
		g.morph(x, &v)
		g.eq("ToBytes after the change", x.ToBytes(), v.ser(nil))
		g.eq("GetTxID after the change", x.GetTxID(), hex.EncodeToString(rRev(rShad(v.ser(nil)))))
		g.eq("transaction after the change", dump(x), v.dump())
		g.morph(z, &p)
		g.eq("ToBytes of the parsed one after a change", z.ToBytes(), p.ser(nil))
	}
	// a second, slightly different transaction
	u := t.clone()
	switch {
	case len(u.outs) > 0 && g.one(2):
		u.outs[g.r.Intn(len(u.outs))] = rOut{g.u64(), g.scriptBytes(300)}
	case len(u.ins) > 0:
		k := g.r.Intn(len(u.ins))
		u.ins[k].unl = g.scriptBytes(300)
		u.ins[k].seq = g.u32()
	default:
		u.ver++
	}
	g.in("second", u.ser(nil))
	g.eq("ToBytes of the second", g.build(u).ToBytes(), u.ser(nil))
	y2, err := transaction.NewFromBytes(g.own("raw2", u.ser(nil)))
	g.spoil(y2)
	g.eq("NewFromBytes error", err, nil)
	g.eq("NewFromBytes of the second", dump(y2), u.parsed().dump())
	g.eq("first after the second", dump(y), t.parsed().dump())
}

// wire returns bytes near a transaction, and whether counts and lengths are canonical
func (g *G) wire() []byte {
	t := g.tx(0)
	vi := func(n int) []byte {
		if g.one(12) {
			switch g.choose(4) {
			case 0:
				return []byte{0xfd, byte(n), byte(n >> 8)}
			case 1:
				return cat([]byte{0xfe}, le32(uint32(n)))
			case 2:
				return cat([]byte{0xff}, le64(uint64(n)))
			default:
				return []byte{0xfc + byte(g.r.Intn(4))}
			}
		}
		if g.one(60) {
			return cat([]byte{0xff}, le64(g.u64()))
		}
		if g.one(30) {
			return rVarInt(uint64(n + g.r.Intn(3) - 1))
		}
		return rVarInt(uint64(n))
	}
	b := cat(le32(t.ver), vi(len(t.ins)))
	for _, i := range t.ins {
		b = cat(b, i.txid, le32(i.idx), vi(len(i.unl)), i.unl, le32(i.seq))
	}
	b = append(b, vi(len(t.outs))...)
	for _, o := range t.outs {
		b = cat(b, le64(o.sats), vi(len(o.lock)), o.lock)
	}
	b = append(b, le32(t.lock)...)
	switch g.choose(6) {
	case 0:
		return b[:g.r.Intn(len(b)+1)]
	case 1:
		return append(b, g.raw(g.r.Intn(6))...)
	case 2:
		return g.mutate(b)
	case 3:
		if g.one(2) {
			k := 1 + g.r.Intn(12)
			if k < len(b) {
				return b[:len(b)-k]
			}
		}
	case 4:
		if g.one(6) {
			return g.raw(g.size(300))
		}
	}
	return b
}

func c03(g *G) {
	b := g.wire()
	g.in("bytes", b)
	g.nontrivial = len(b) > 0
	for round := 0; round < 2; round++ {
		want, ok := rParse(b)
		x, err := transaction.NewFromBytes(g.own("bytes", b))
		g.spoil(x)
		g.eq("NewFromBytes succeeds", err == nil, ok)
		if ok {
			g.eq("NewFromBytes", dump(x), want.parsed().dump())
			if bytes.Equal(want.ser(nil), b) {
				g.eq("serialised again", x.ToBytes(), b)
			}
		}
		h := hex.EncodeToString(b)
		if g.one(3) {
			h = g.hexMangle(h)
		}
		hb, hok := hexOK(h)
		want, ok = rParse(hb)
		x, err = transaction.NewFromString(h)
		g.spoil(x)
		g.eq("NewFromString succeeds", err == nil, ok && hok)
		if ok && hok {
			g.eq("NewFromString", dump(x), want.parsed().dump())
		}
		p := b
		if len(p) > 5 && g.one(2) {
			p = p[5:]
		}
		if g.one(3) && len(p) > 0 {
			p = p[g.r.Intn(len(p)):]
		}
		if g.one(3) {
			p = p[:g.r.Intn(len(p)+1)]
		}
		g.in("part", p)
		ri, n := rParseIn(p)
		g.twice(func() {
			i, m, err := input.NewFromBytes(g.own("part", p))
			g.spoil(i)
			g.eq("input parses", err == nil, n > 0)
			if n > 0 {
				g.eq("input size", m, n)
				g.eq("input", dumpIn(i), ri.dump())
			}
		})
		ro, n2 := rParseOut(p)
		g.twice(func() {
			o, m, err := output.NewFromBytes(g.own("part", p))
			g.spoil(o)
			g.eq("output parses", err == nil, n2 > 0)
			if n2 > 0 {
				g.eq("output size", m, n2)
				g.eq("output", dumpOut(o), ro.dump())
			}
		})
		b = g.mutate(b)
		g.in("then", b)
	}
}

func c04(g *G) {
	t := g.tx(0)
	w := t.ser(nil)
	g.in("tx", w)
	buf := append(make([]byte, 0, len(w)+64), w...)
	x, err := transaction.NewFromBytes(buf)
	g.spoil(x)
	g.eq("NewFromBytes error", err, nil)
	p := t.parsed()
	scribble(buf)
	g.eq("after overwriting the buffer", dump(x), p.dump())
	var ss []*script.Script
	var model []*[]byte
	for k := range p.ins {
		ss = append(ss, x.Inputs[k].UnlockingScript)
		model = append(model, &p.ins[k].unl)
	}
	for k := range p.outs {
		ss = append(ss, x.Outputs[k].LockingScript)
		model = append(model, &p.outs[k].lock)
	}
	for r := 0; r < 4 && len(ss) > 0; r++ {
		k := g.pick(len(ss))
		d := g.raw(g.size(100))
		g.in("append to", k)
		g.in("data", d)
		switch g.choose(3) {
		case 0:
			ss[k].AppendOpCode(0x51)
			*model[k] = cat(*model[k], []byte{0x51})
		case 1:
			ss[k].AppendPushData(d)
			*model[k] = cat(*model[k], rPush(d))
		default:
			scribble(*ss[k])
			m := append([]byte{}, *model[k]...)
			for i := range m {
				m[i] ^= 0x5a
			}
			*model[k] = m
		}
		g.eq("after the append", dump(x), p.dump())
	}
	if len(t.ins) > 0 {
		b := cat(t.ins[0].ser(t.ins[0].unl), []byte{1, 2, 3})
		i, _, err := input.NewFromBytes(b)
		g.spoil(i)
		g.eq("input error", err, nil)
		scribble(b)
		g.eq("input after overwriting", dumpIn(i), t.parsed().ins[0].dump())
		c := append([]byte{}, b...)
		i.UnlockingScript.AppendPushData(g.raw(20))
		g.eq("buffer after append", b, c)
	}
	if len(t.outs) > 0 {
		b := cat(t.outs[0].ser(), []byte{1, 2, 3})
		o, _, err := output.NewFromBytes(b)
		g.spoil(o)
		g.eq("output error", err, nil)
		scribble(b)
		g.eq("output after overwriting", dumpOut(o), t.outs[0].dump())
		c := append([]byte{}, b...)
		o.LockingScript.AppendPushData(g.raw(20))
		g.eq("buffer after append", b, c)
	}
}

var flags = []byte{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 1, 2, 3, 0x81, 0x82, 0x83, 0, 0x40, 0x80, 0xc0, 0x21, 0x22, 0x23, 0x61, 0x62, 0x63, 0xe2, 0xe3, 0x1f, 0x5f, 0x9f, 0xff, 0x04, 0x44, 0x62, 0x53}

func (g *G) flag() byte {
	if g.choose(2) == 0 {
		return byte(g.pick(256))
	}
	return flags[g.pick(len(flags))]
}

// flagNames are the exported flag constants and the values the protocol gives them.
var flagNames = []struct {
	name      string
	got, want byte
}{
	{"Old", byte(sighash.Old), 0}, {"All", byte(sighash.All), 1}, {"None", byte(sighash.None), 2}, {"Single", byte(sighash.Single), 3},
	{"AnyOneCanPay", byte(sighash.AnyOneCanPay), 0x80}, {"ForkID", byte(sighash.ForkID), 0x40}, {"AllForkID", byte(sighash.AllForkID), 0x41},
	{"NoneForkID", byte(sighash.NoneForkID), 0x42}, {"SingleForkID", byte(sighash.SingleForkID), 0x43},
	{"AnyOneCanPayForkID", byte(sighash.AnyOneCanPayForkID), 0xc0}, {"Mask", byte(sighash.Mask), 0x1f},
}

func c06(g *G) {
	for _, n := range flagNames {
		g.eq("constant "+n.name, n.got, n.want)
	}
	f := g.flag()
	t := g.tx(1)
	if len(t.ins) == 0 {
		t.ins = append(t.ins, rIn{txid: g.raw(32), prev: []byte{}})
	}
	g.in("tx", t.dump())
	x := g.build(t)
	g.share(x, &t)
	k := g.pick(len(t.ins))
	for round := 0; round < 4; round++ {
		if round > 0 {
			for n := g.r.Intn(3); n >= 0; n-- {
				g.morph(x, &t)
			}
			if g.one(3) {
				k = g.r.Intn(len(t.ins))
			}
		}
		if g.one(3) && len(t.outs) < len(t.ins) {
			k = len(t.outs)
		}
		g.in("index", k)
		g.in("flag", f)
		h, err := x.GetInputSignatureHash(uint32(k), sighash.Flag(f))
		if t.ins[k].prev == nil {
			g.ok("missing previous script fails", err != nil)
		} else {
			g.eq("GetInputSignatureHash error", err, nil)
			g.eq("GetInputSignatureHash", h, rSigHash(t, k, f))
			g.hold("hash", h)
		}
		bad := []uint32{uint32(len(t.ins)), uint32(len(t.ins)) + 1, 0xffffffff, 0x80000000, 0x7fffffff}[g.pick(5)]
		_, err = x.GetInputSignatureHash(bad, sighash.Flag(f))
		g.ok("index out of range fails", err != nil)
		g.eq("transaction unchanged", dump(x), t.dump())
		was := x.Inputs[k].PreviousTxID
		x.Inputs[k].PreviousTxID = ""
		_, err = x.GetInputSignatureHash(uint32(k), sighash.Flag(f))
		g.ok("missing previous id fails", err != nil)
		x.Inputs[k].PreviousTxID = was
		if g.one(2) {
			f = g.flag()
			g.in("flag", f)
		}
	}
}

func (g *G) key() (*bsvec.PrivateKey, *bsvec.PublicKey) {
	b := g.raw(32)
	b[0] &= 0x7f
	b[31] |= 1
	return bsvec.PrivKeyFromBytes(bsvec.S256(), b)
}

// signed checks that input k of x was signed over the reference hash, and puts the script into t
func (g *G) signed(x *transaction.Transaction, t *rTx, k int, f byte, pub *bsvec.PublicKey) {
	if f == 0 {
		f = 0x41
	}
	g.ok("unlocking script present", x.Inputs[k].UnlockingScript != nil)
	u := append([]byte{}, *x.Inputs[k].UnlockingScript...)
	ps, err := rDecode(u)
	g.eq("unlocking script decodes", err, nil)
	g.eq("number of pushes", len(ps), 2)
	g.eq("unlocking script is two shortest pushes", u, rPushes(ps))
	g.eq("public key", ps[1], pub.SerializeCompressed())
	g.ok("signature push has at least 9 bytes", len(ps[0]) >= 9)
	g.eq("flag byte", ps[0][len(ps[0])-1], f)
	sig, err := bsvec.ParseDERSignature(ps[0][:len(ps[0])-1], bsvec.S256())
	g.eq("DER signature error", err, nil)
	g.ok("signature verifies", sig.Verify(rRev(rSigHash(*t, k, f)), pub))
	t.ins[k].unl = u
}

// extSigner is a signer which answers with a transaction of its own.
type extSigner struct {
	tx    *transaction.Transaction
	err   error
	index uint32
	asked string
}

func (s *extSigner) Sign(index uint32, t *transaction.Transaction) (*transaction.Transaction, error) {
	s.index, s.asked = index, dump(t)
	if s.err != nil {
		return nil, s.err
	}
	return s.tx, nil
}

func (s *extSigner) SignAuto(t *transaction.Transaction) (*transaction.Transaction, error) {
	return s.Sign(0, t)
}

func c07(g *G) {
	t := g.tx(1)
	priv, pub := g.key()
	f := g.flag()
	if g.one(5) {
		f = 0
	}
	x := g.build(t)
	s := &signature.InternalSigner{PrivateKey: priv, SigHashFlag: sighash.Flag(f)}
	g.in("key", priv.Serialize())
	g.in("tx", t.dump())
	g.share(x, &t)
	for round := 0; round < 3; round++ {
		if round > 0 && g.one(2) {
			g.morph(x, &t)
		}
		g.in("flag", f)
		k := g.pick(len(t.ins) + 1)
		if g.one(3) {
			k = g.r.Intn(len(t.ins))
		}
		g.in("index", k)
		d := dump(x)
		err := x.Sign(uint32(k), s)
		if k == len(t.ins) || t.ins[k].prev == nil {
			g.ok("Sign fails", err != nil)
			g.eq("transaction after failed Sign", dump(x), d)
			err = x.Sign(0xffffffff, s)
			g.ok("Sign out of range fails", err != nil)
		} else {
			g.eq("Sign error", err, nil)
			g.signed(x, &t, k, f, pub)
			g.eq("rest of the transaction", dump(x), t.dump())
			id := x.Inputs[k].PreviousTxID
			x.Inputs[k].PreviousTxID = ""
			d = dump(x)
			g.ok("Sign without previous id fails", x.Sign(uint32(k), s) != nil)
			g.eq("transaction after failed Sign", dump(x), d)
			x.Inputs[k].PreviousTxID = id
		}
		if g.one(2) {
			f = g.flag()
			s.SigHashFlag = sighash.Flag(f)
		}
	}
	us := script.Script(g.raw(5))
	for _, bad := range []uint32{uint32(len(t.ins)), 0xffffffff} {
		g.ok("ApplyUnlockingScript out of range fails", x.ApplyUnlockingScript(bad, &us) != nil)
		g.eq("transaction after failed ApplyUnlockingScript", dump(x), t.dump())
	}
	k := g.r.Intn(len(t.ins))
	g.eq("ApplyUnlockingScript error", x.ApplyUnlockingScript(uint32(k), &us), nil)
	t.ins[k].unl = us
	g.eq("after ApplyUnlockingScript", dump(x), t.dump())
	c := *x
	c.Inputs = append([]*input.Input{}, x.Inputs...)
	c.Inputs[k] = nil
	g.ok("ApplyUnlockingScript without an input there fails", c.ApplyUnlockingScript(uint32(k), &us) != nil)
	// a signer of the user's own: its answer is the transaction afterwards, its error leaves it alone
	o := g.tx(0)
	g.in("answer of the external signer", o.dump())
	es := &extSigner{tx: g.build(o)}
	if g.choose(2) == 0 {
		es.err = errors.New("refused")
	}
	d := dump(x)
	for _, auto := range []bool{false, true} {
		y := g.build(t)
		var err error
		if auto {
			err = y.SignAuto(es)
		} else {
			err = y.Sign(uint32(k), es)
		}
		g.eq("transaction given to the external signer", es.asked, d)
		if !auto {
			g.eq("index given to the external signer", es.index, uint32(k))
		}
		if es.err != nil {
			g.ok("error of the external signer is reported", err != nil)
			g.eq("transaction after the external signer failed", dump(y), d)
		} else {
			g.eq("Sign with the external signer", err, nil)
			g.eq("transaction after the external signer", dump(y), o.dump())
		}
	}
	sg, kb := g.raw(g.size(90)), g.raw(g.size(70))
	g.in("sig", sg)
	g.in("pub", kb)
	ns, err := script.NewP2PKHUnlockingScript(g.own("pub", kb), g.own("sig", sg), sighash.Flag(f))
	g.spoil(ns)
	g.eq("NewP2PKHUnlockingScript error", err, nil)
	g.eq("NewP2PKHUnlockingScript", []byte(*ns), cat(rPush(cat(sg, []byte{f})), rPush(kb)))
}

func c08(g *G) {
	t := g.tx(0)
	priv, pub := g.key()
	_, other := g.key()
	f := g.flag()
	mine := rP2PKH(rHash160(pub.SerializeCompressed()))
	if len(t.ins) > 6 {
		t.ins = t.ins[:6]
	}
	for k := range t.ins {
		switch g.choose(8) {
		case 0, 1, 2, 3:
			t.ins[k].prev = mine
		case 4:
			t.ins[k].prev = rP2PKH(rHash160(other.SerializeCompressed()))
		case 5:
			t.ins[k].prev = rP2PKH(rHash160(pub.SerializeUncompressed()))
		case 6:
			t.ins[k].prev = g.mutate(mine)
			if bytes.Equal(t.ins[k].prev, mine) {
				t.ins[k].prev = nil
			}
		}
	}
	g.in("key", priv.Serialize())
	g.in("flag", f)
	g.in("tx", t.dump())
	x := g.build(t)
	noID := -1
	if g.one(4) && len(t.ins) > 0 {
		noID = g.r.Intn(len(t.ins))
		x.Inputs[noID].PreviousTxID = ""
		g.in("no previous id at", noID)
	}
	if noID < 0 {
		g.share(x, &t)
	}
	is := &signature.InternalSigner{PrivateKey: priv, SigHashFlag: sighash.Flag(f)}
	err := x.SignAuto(is)
	if noID >= 0 {
		if bytes.Equal(t.ins[noID].prev, mine) {
			g.ok("SignAuto fails when a matching input has no previous id", err != nil)
			return
		}
		g.eq("SignAuto error", err, nil)
		for k, i := range t.ins {
			if !bytes.Equal(i.prev, mine) {
				g.eq("other input", showScript(x.Inputs[k].UnlockingScript), rShow(i.unl))
			} else {
				g.ok("matching input is signed", x.Inputs[k].UnlockingScript != nil && len(*x.Inputs[k].UnlockingScript) > 100)
			}
		}
		return
	}
	g.eq("SignAuto error", err, nil)
	for k, i := range t.ins {
		if bytes.Equal(i.prev, mine) {
			g.signed(x, &t, k, f, pub)
		}
	}
	g.eq("rest of the transaction", dump(x), t.dump())
	// changed and signed again
	g.morph(x, &t)
	g.eq("SignAuto again", x.SignAuto(is), nil)
	for k, i := range t.ins {
		if bytes.Equal(i.prev, mine) {
			g.signed(x, &t, k, f, pub)
		}
	}
	g.eq("rest of the transaction", dump(x), t.dump())
}

// merkle returns the levels of the tree over leaves in internal byte order
func merkle(l [][]byte) [][][]byte {
	r := [][][]byte{l}
	for len(l) > 1 {
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			j := i + 1
			if j == len(l) {
				j = i
			}
			n = append(n, rShad(cat(l[i], l[j])))
		}
		l = n
		r = append(r, l)
	}
	return r
}

func c16(g *G) {
	n := 1 + g.pick(40)
	var ids []string
	var leaves [][]byte
	for k := 0; k < n; k++ {
		b := g.raw(32)
		ids = append(ids, hex.EncodeToString(b))
		leaves = append(leaves, rRev(b))
	}
	g.in("ids", ids)
	g.nontrivial = n > 1
	tree := merkle(leaves)
	root := tree[len(tree)-1][0]
	given := append([]string{}, ids...)
	br := block.GetMerkleBranches(given)
	g.eq("ids after", given, ids)
	want := []string{}
	for l := 0; l < len(tree)-1; l++ {
		want = append(want, hex.EncodeToString(tree[l][1]))
	}
	g.eq("GetMerkleBranches", fmt.Sprint(br), fmt.Sprint(want))
	cb := g.own("coinbase hash", leaves[0])
	mr := block.BuildMerkleRootFromCoinbase(cb, br)
	g.eq("BuildMerkleRootFromCoinbase", mr, root)
	g.hold("Merkle root", mr)
	block.BuildMerkleRootFromCoinbase(g.raw(32), []string{ids[0]})
	for r := 0; r < 3; r++ {
		k := g.pick(n)
		var proof []string
		i := k
		for l := 0; l < len(tree)-1; l++ {
			j := i ^ 1
			if j >= len(tree[l]) {
				j = i
			}
			proof = append(proof, hex.EncodeToString(rRev(tree[l][j])))
			i >>= 1
		}
		g.in("leaf", k)
		m, err := block.MerkleRootFromBranches(ids[k], k, proof)
		g.eq("MerkleRootFromBranches error", err, nil)
		g.eq("MerkleRootFromBranches", m, hex.EncodeToString(rRev(root)))
	}
	// arbitrary proofs
	var proof []string
	okHex := true
	th := hex.EncodeToString(g.raw([]int{32, 32, 32, 0, 1, 31, 33}[g.choose(7)]))
	if g.one(8) {
		th = g.hexMangle(th)
	}
	acc, o := hexOK(th)
	okHex = okHex && o
	deep := g.r.Intn(8)
	if g.one(25) {
		deep = 28 + g.r.Intn(44)
	}
	for k := deep; k > 0; k-- {
		h := hex.EncodeToString(g.raw([]int{32, 32, 32, 32, 32, 0, 5, 33}[g.choose(8)]))
		if deep < 28 && g.one(12) {
			h = g.hexMangle(h)
		}
		proof = append(proof, h)
	}
	idx := int(g.r.Uint64() >> 1)
	if len(proof) < 62 {
		idx = g.r.Intn(1 << uint(len(proof)))
	}
	if g.one(4) {
		idx = []int{0, 1, 1 << uint(len(proof)), 1<<uint(len(proof)) - 1, 1 << 40, 1<<63 - 1, 2 << uint(len(proof)), 3 << uint(len(proof))}[g.choose(8)]
	}
	if idx < 0 {
		idx = 0
	}
	g.in("hash", th)
	g.in("index", idx)
	g.in("proof", proof)
	acc = rRev(acc)
	for k, h := range proof {
		b, o := hexOK(h)
		okHex = okHex && o
		if uint64(idx)>>uint(k)&1 == 1 {
			acc = rShad(cat(rRev(b), acc))
		} else {
			acc = rShad(cat(acc, rRev(b)))
		}
	}
	m, err := block.MerkleRootFromBranches(th, idx, proof)
	if !okHex || uint64(idx)>>uint(len(proof)) != 0 {
		g.ok("MerkleRootFromBranches fails", err != nil)
	} else {
		g.eq("MerkleRootFromBranches error", err, nil)
		g.eq("MerkleRootFromBranches", m, hex.EncodeToString(rRev(acc)))
	}
	a := g.raw(g.size(60))
	g.in("accumulator", a)
	acc = a
	for _, h := range proof {
		b, o := hexOK(h)
		if !o {
			return
		}
		acc = rShad(cat(acc, b))
	}
	g.eq("BuildMerkleRootFromCoinbase", block.BuildMerkleRootFromCoinbase(g.own("accumulator", a), proof), acc)
}

func c17(g *G) {
	h := g.u32() & 0xffffff
	if g.one(2) {
		h = uint32(g.r.Intn(1 << 24))
	}
	v := g.u64()
	n := []int{0, 1, 40, 82, 83, 84, 85, 86, 96, 97, 100, 150, 200, 300}[g.pick(14)]
	if g.one(2) {
		n = g.size(400)
	}
	text := string(g.raw(n))
	pkh := g.raw(20)
	wallet := rAddr(pkh, g.one(2))
	if g.one(6) {
		wallet = g.addr()
	}
	wh := rAddrHash(wallet)
	wc := ""
	if g.r.Intn(2) == 0 {
		wc = hex.EncodeToString(g.raw(g.size(400)))
		if g.one(5) {
			wc = g.hexMangle(wc)
		}
	}
	var mid []byte
	if g.r.Intn(2) == 0 {
		mid = g.raw(g.size(600))
	}
	e := g.raw(12)
	c := g.r.Intn(13)
	g.in("height", h)
	g.in("value", v)
	g.in("text", text)
	g.in("wallet", wallet)
	g.in("commitment", wc)
	g.in("miner id", mid)
	g.nontrivial = true
	wb, wok := hexOK(wc)
	c1, c2, err := block.GetCoinbaseParts(h, v, wc, text, wallet, g.own("miner id", mid))
	if wh == nil || !wok {
		g.ok("GetCoinbaseParts fails", err != nil)
		return
	}
	g.eq("GetCoinbaseParts error", err, nil)
	data := cat([]byte{3, byte(h), byte(h >> 8), byte(h >> 16)}, []byte(text))
	if len(data) > 88 {
		data = data[:88]
	}
	outs := []rOut{{v, rP2PKH(wh)}}
	if wc != "" {
		outs = append(outs, rOut{0, wb})
	}
	if len(mid) > 0 {
		outs = append(outs, rOut{0, mid})
	}
	t := rTx{ver: 1, ins: []rIn{{txid: make([]byte, 32), idx: 0xffffffff, unl: cat(data, e), seq: 0xffffffff}}, outs: outs}
	w := t.ser(nil)
	g.eq("first half, extra nonces, second half", cat(c1, e, c2), w)
	g.hold("first half", c1)
	g.hold("second half", c2)
	b := block.BuildCoinbase(g.own("c1", c1), g.own("c2", c2), hex.EncodeToString(e[:c]), hex.EncodeToString(e[c:]))
	g.eq("BuildCoinbase", b, w)
	x, err := transaction.NewFromBytes(b)
	g.spoil(x)
	g.eq("coinbase parses", err, nil)
	g.ok("IsCoinbase", x.IsCoinbase())
	d1, d2, err := block.GetCoinbaseParts(h^1, v+1, "", text+"x", wallet, nil)
	g.eq("second call error", err, nil)
	scribble(d1)
	scribble(d2)
}

func c18(g *G) {
	v := g.u32()
	p := g.raw(32)
	m, t, b, n := g.raw(32), g.raw(4), g.raw(4), g.raw(4)
	g.in("version", v)
	g.in("previous", p)
	g.in("fields", [][]byte{m, t, b, n})
	g.nontrivial = true
	f := func() []byte {
		return block.BuildBlockHeader(v, hex.EncodeToString(p), g.own("root", m), g.own("time", t), g.own("bits", b), g.own("nonce", n))
	}
	h := f()
	g.eq("BuildBlockHeader", h, cat(le32(v), rRev(p), m, t, b, n))
	first := append([]byte{}, h...)
	v++
	n = g.raw(4)
	h2 := f()
	g.eq("second header", h2, cat(le32(v), rRev(p), m, t, b, n))
	g.eq("first header after the second", h, first)
	scribble(h)
	g.eq("second header after overwriting the first", h2, cat(le32(v), rRev(p), m, t, b, n))
	g.eq("third header", f(), cat(le32(v), rRev(p), m, t, b, n))
}

func c19(g *G) {
	e := g.pick(256)
	var m uint32
	switch g.choose(4) {
	case 0:
		m = []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0x800001, 0xffffff, 0x80ffff, 0x00ffff}[g.choose(16)]
	default:
		m = uint32(g.r.Intn(1 << 24))
	}
	s := fmt.Sprintf("%02x%06x", e, m)
	if g.one(4) {
		e = []int{0, 1, 2, 3, 4, 29, 30, 31, 32, 33, 34, 35}[g.choose(12)]
		s = fmt.Sprintf("%02x%06x", e, m)
	}
	switch g.choose(8) {
	case 0:
		s = g.hexMangle(s)
	case 1:
		s = string(g.mutate([]byte(s)))
	case 2:
		if g.one(3) {
			s = g.str()
		}
	}
	g.in("bits", s)
	b, ok := hexOK(s)
	x, err := block.ExpandTargetFromAsInt(s)
	g.spoil(x)
	h, err2 := block.ExpandTargetFrom(s)
	if !ok || len(b) != 4 {
		g.ok("ExpandTargetFromAsInt fails", err != nil)
		g.ok("ExpandTargetFrom fails", err2 != nil)
		return
	}
	g.nontrivial = true
	c := binary.BigEndian.Uint32(b)
	r := big.NewInt(int64(c & 0x7fffff))
	k := int(c >> 24)
	p := new(big.Int).Exp(big.NewInt(256), big.NewInt(int64(abs(k-3))), nil)
	if k >= 3 {
		r.Mul(r, p)
	} else {
		r.Quo(r, p)
	}
	if c&0x800000 != 0 {
		r.Neg(r)
	}
	g.eq("ExpandTargetFromAsInt error", err, nil)
	g.eq("ExpandTargetFromAsInt", x.String(), r.String())
	if r.Sign() < 0 || r.BitLen() > 256 {
		g.ok("ExpandTargetFrom fails", err2 != nil)
	} else {
		g.eq("ExpandTargetFrom error", err2, nil)
		g.eq("ExpandTargetFrom", h, fmt.Sprintf("%064x", r))
	}
	x.SetInt64(-5)
	y, err := block.ExpandTargetFromAsInt(s)
	g.spoil(y)
	g.eq("second call error", err, nil)
	g.eq("second call", y.String(), r.String())
}
func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func c20(g *G) {
	m := g.r.Intn(20) - 1
	if g.one(2) {
		m = 2 + g.r.Intn(15)
	}
	g.in("m", m)
	rs, err := script.NewRedeemScript(m)
	g.spoil(rs)
	if m < 2 || m > 16 {
		g.ok("NewRedeemScript fails", err != nil)
		m = []int{2, 3, 16}[g.choose(3)]
		rs, err = script.NewRedeemScript(m)
		g.spoil(rs)
	}
	g.eq("NewRedeemScript error", err, nil)
	g.eq("threshold", rs.SignaturesRequired, m)
	if g.one(3) {
		x, _ := script.NewRedeemScript(m)
		g.spoil(x)
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			g.addPublicKey(x)
		}
	}
	n := 1 + g.pick(16)
	var keys [][]byte
	for k := 0; k < n; k++ {
		l := []int{33, 33, 33, 65, 1, 2, 75, 74}[g.choose(8)]
		b := g.raw(l)
		if k > 0 && g.one(2) {
			b = append([]byte{}, keys[g.r.Intn(k)]...)
			switch g.choose(4) {
			case 0:
				b[len(b)-1] ^= 1
			case 1:
				if len(b) < 75 {
					b = append(b, g.byte())
				}
			case 2:
				b = b[:1+g.r.Intn(len(b))]
			}
		}
		keys = append(keys, b)
	}
	g.in("keys", keys)
	g.nontrivial = n > 1
	sorted := append([][]byte{}, keys...)
	sort.SliceStable(sorted, func(i, j int) bool { return bytes.Compare(sorted[i], sorted[j]) < 0 })
	want := []byte{0x50 + byte(m)}
	for _, k := range sorted {
		want = append(want, byte(len(k)))
		want = append(want, k...)
	}
	want = append(want, 0x50+byte(n), 0xae)
	for r := 0; r < 2; r++ {
		x, _ := script.NewRedeemScript(m)
		g.spoil(x)
		perm := g.r.Perm(n)
		for _, k := range perm {
			x.PublicKeys = append(x.PublicKeys, g.own("key", keys[k]))
		}
		if r == 1 {
			g.eq("GetAddress", x.GetAddress(), rB58Check(cat([]byte{5}, rHash160(want))))
		}
		s := x.GetRedeemScript()
		g.eq("GetRedeemScript", s, want)
		if m2, _ := script.NewRedeemScript(2); m2 != nil {
			m2.PublicKeys = [][]byte{{9, 9, 9}}
			m2.GetRedeemScript()
			g.eq("GetRedeemScript after another", s, want)
		}
		g.eq("GetRedeemScript again", x.GetRedeemScript(), want)
		scribble(s)
		g.eq("GetRedeemScriptHash", x.GetRedeemScriptHash(), rHash160(want))
		g.eq("GetAddress", x.GetAddress(), rB58Check(cat([]byte{5}, rHash160(want))))
		c := append([][]byte{}, x.PublicKeys...)
		sort.SliceStable(c, func(i, j int) bool { return bytes.Compare(c[i], c[j]) < 0 })
		g.eq("keys", c, sorted)
		if n < 16 && r == 1 { // one more key after asking
			k := g.raw(33)
			g.in("one more", k)
			x.PublicKeys = append(x.PublicKeys, k)
			all := append(append([][]byte{}, keys...), k)
			sort.SliceStable(all, func(i, j int) bool { return bytes.Compare(all[i], all[j]) < 0 })
			w2 := []byte{0x50 + byte(m)}
			for _, k := range all {
				w2 = append(w2, byte(len(k)))
				w2 = append(w2, k...)
			}
			w2 = append(w2, 0x50+byte(n+1), 0xae)
			g.eq("GetRedeemScript after one more key", x.GetRedeemScript(), w2)
			// another key in place of one of them
			j := g.r.Intn(n + 1)
			nk := append([]byte{}, x.PublicKeys[j]...)
			nk[g.r.Intn(len(nk))] ^= 1 << uint(g.r.Intn(8))
			g.in("other key", nk)
			if g.one(2) {
				x.PublicKeys[j] = nk
			} else {
				x.PublicKeys = append(append(append([][]byte{}, x.PublicKeys[:j]...), nk), x.PublicKeys[j+1:]...)
			}
			m = 2 + g.r.Intn(15)
			x.SignaturesRequired = m
			g.in("other threshold", m)
			all = append([][]byte{}, x.PublicKeys...)
			sort.SliceStable(all, func(i, j int) bool { return bytes.Compare(all[i], all[j]) < 0 })
			w2 = []byte{0x50 + byte(m)}
			for _, k := range all {
				w2 = append(w2, byte(len(k)))
				w2 = append(w2, k...)
			}
			w2 = append(w2, 0x50+byte(n+1), 0xae)
			g.eq("GetAddress after the change", x.GetAddress(), rB58Check(cat([]byte{5}, rHash160(w2))))
			g.eq("GetRedeemScript after the change", x.GetRedeemScript(), w2)
			g.eq("GetRedeemScriptHash after the change", x.GetRedeemScriptHash(), rHash160(w2))
		}
	}
}

// addPublicKey: the key derived along a path of two
func (g *G) addPublicKey(rs *script.RedeemScript) {
	mk, err := hdkeychain.NewMaster(g.raw(32), netParams)
	if err != nil {
		return
	}
	if g.one(2) {
		mk, _ = mk.Neuter()
	}
	str := mk.String()
	switch g.r.Intn(8) {
	case 0:
		str = string(g.mutate([]byte(str)))
	case 1:
		str = ""
	}
	var path []uint32
	n := 2
	if g.one(3) {
		n = g.r.Intn(5)
	}
	for k := 0; k < n; k++ {
		v := uint32(g.r.Intn(4))
		if g.one(4) {
			v = g.u32()
		}
		if g.one(8) {
			v |= 1 << 31
		}
		path = append(path, v)
	}
	g.in("extended key", str)
	g.in("path", path)
	before := append([][]byte{}, rs.PublicKeys...)
	var want []byte
	ok := n == 2
	if k, e := hdkeychain.NewKeyFromString(str); e != nil {
		ok = false
	} else {
		for i := 0; ok && i < 2; i++ {
			k, e = k.Child(path[i])
			ok = e == nil
		}
		if ok {
			ec, e := k.ECPubKey()
			ok = e == nil
			if ok {
				want = ec.SerializeCompressed()
			}
		}
	}
	err = rs.AddPublicKey(str, path)
	g.eq("AddPublicKey succeeds", err == nil, ok)
	if ok {
		before = append(before, want)
	}
	g.eq("keys after AddPublicKey", append([][]byte{}, rs.PublicKeys...), before)
}

func c22(g *G) {
	var b []byte
	for k := g.pick(9); k > 0; k-- {
		switch g.choose(3) {
		case 0:
			o := g.byte()
			for o >= 1 && o <= 0x4e {
				o = byte(g.r.Intn(256))
			}
			b = append(b, o)
		default:
			n := g.size(300)
			if g.one(20) {
				n = g.size(70000)
			}
			if n < 2 {
				n = 2
			}
			b = append(b, rPush(g.raw(n))...)
		}
	}
	g.in("script", b)
	g.nontrivial = true
	s := script.Script(g.own("script", b))
	a, err := s.ToASM()
	g.eq("ToASM error", err, nil)
	ps, _ := rDecode(b)
	words := strings.Split(a, " ")
	if len(b) == 0 {
		g.eq("text of the empty script", a, "")
	} else {
		g.eq("number of words", len(words), len(ps))
	}
	for k, p := range ps {
		if len(p) != 1 {
			g.eq("data word", words[k], hex.EncodeToString(p))
		} else {
			v, ok := opNames[words[k]]
			g.ok("name "+words[k]+" is known", ok)
			g.eq("value of "+words[k], v, p[0])
		}
	}
	t, err := script.NewFromASM(a)
	g.spoil(t)
	g.eq("NewFromASM error", err, nil)
	g.eq("NewFromASM of ToASM", []byte(*t), b)
	g.hold("script from text", []byte(*t))
	// names
	name := opList[g.pick(len(opList))]
	g.in("name", name)
	t, err = script.NewFromASM(name)
	g.spoil(t)
	g.eq("NewFromASM error", err, nil)
	g.eq("value of "+name, []byte(*t), []byte{opNames[name]})
	one := byte(g.pick(256))
	if one == 0 || one > 0x4e {
		x := script.Script([]byte{one})
		a, err := x.ToASM()
		g.eq("ToASM error", err, nil)
		v, ok := opNames[a]
		g.ok(fmt.Sprintf("name of %02x known", one), ok)
		g.eq("name reads back", v, one)
	}
	if one > 0 && one < 0x4f {
		x := script.Script([]byte{1, one})
		a, err := x.ToASM()
		g.eq("ToASM error", err, nil)
		v, ok := opNames[a]
		g.ok(fmt.Sprintf("name of %02x known", one), ok)
		g.eq("name reads back", v, one)
	}
	// words
	var ws []string
	want := []byte{}
	ok := true
	for k := g.r.Intn(5); k >= 0; k-- {
		var w string
		switch g.choose(6) {
		case 0, 1:
			w = opList[g.r.Intn(len(opList))]
		case 2, 3:
			w = hex.EncodeToString(g.raw(1 + g.r.Intn(90)))
		case 4:
			w = g.hexMangle(hex.EncodeToString(g.raw(1 + g.r.Intn(5))))
		default:
			w = []string{"OP_NOSUCH", "op_dup", "OP_", "OP_DUP ", "zz", "0", "1", "OP_1N", "OP_CHECKSI", "OP_17", "OP_CHECKSIGX"}[g.choose(11)]
		}
		ws = append(ws, w)
	}
	text := strings.Join(ws, " ")
	for _, w := range strings.Split(text, " ") {
		if v, k := opNames[w]; k {
			want = append(want, v)
		} else if d, k := hexOK(w); k {
			want = append(want, rPush(d)...)
		} else {
			ok = false
		}
	}
	g.in("asm", text)
	t, err = script.NewFromASM(text)
	g.spoil(t)
	g.eq("NewFromASM succeeds", err == nil, ok)
	if ok {
		g.eq("NewFromASM", []byte(*t), want)
	}
	bad := g.truncScript()
	if len(bad) > 3000 && g.r.Intn(20) > 0 {
		bad = bad[:3000]
	}
	g.in("bad", bad)
	x := script.Script(bad)
	_, derr := rDecode(bad)
	_, err = x.ToASM()
	g.eq("ToASM fails", err != nil, derr != nil)
}

func c24(g *G) {
	ps := g.parts(false)
	g.in("data", ps)
	g.nontrivial = len(ps) > 0
	o, err := output.NewOpReturnParts(g.ownParts("data", ps))
	g.spoil(o)
	g.eq("NewOpReturnParts error", err, nil)
	g.eq("NewOpReturnParts satoshis", o.Satoshis, uint64(0))
	g.eq("NewOpReturnParts", []byte(*o.LockingScript), cat([]byte{0, 0x6a}, rPushes(ps)))
	g.ok("is data", o.LockingScript.IsData())
	g.hold("data output", []byte(*o.LockingScript))
	d := []byte{}
	if len(ps) > 0 {
		d = ps[0]
	}
	var q *output.Output
	g.twice(func() {
		var err error
		q, err = output.NewOpReturn(g.own("data", d))
		g.spoil(q)
		g.eq("NewOpReturn error", err, nil)
		g.eq("NewOpReturn satoshis", q.Satoshis, uint64(0))
		g.eq("NewOpReturn", []byte(*q.LockingScript), cat([]byte{0, 0x6a}, rPush(d)))
		g.ok("is data", q.LockingScript.IsData())
	})
	scribble(*q.LockingScript)
	g.eq("first output after overwriting the second", []byte(*o.LockingScript), cat([]byte{0, 0x6a}, rPushes(ps)))
	sec := g.str()
	n := 20
	h := g.hexMangle(hex.EncodeToString(g.raw(n)))
	sat := g.u64()
	g.in("secret", sec)
	g.in("hash", h)
	g.in("satoshis", sat)
	g.twice(func() {
		z, err := output.NewHashPuzzle(sec, h, sat)
		g.spoil(z)
		b, ok := hexOK(h)
		if !ok {
			g.ok("NewHashPuzzle fails", err != nil)
			return
		}
		if len(b) != 20 {
			return
		}
		g.eq("NewHashPuzzle error", err, nil)
		g.eq("NewHashPuzzle satoshis", z.Satoshis, sat)
		g.eq("NewHashPuzzle", []byte(*z.LockingScript), cat([]byte{0xa9, 20}, rHash160([]byte(sec)), []byte{0x88, 0x76, 0xa9, 20}, b, []byte{0x88, 0xac}))
	})
}

func c25(g *G) {
	b := g.raw(g.size(400))
	c := g.raw(g.size(400))
	g.in("a", b)
	g.in("b", c)
	g.nontrivial = len(b) > 0
	o, p := g.own("a", b), g.own("b", c)
	k := g.pick(24)
	g.in("call", k)
	switch k {
	case 0:
		crypto.Sha256(o)
		crypto.Sha256d(o)
	case 1:
		crypto.Ripemd160(o)
		crypto.Hash160(o)
	case 2:
		scribble(utils.ReverseBytes(o))
	case 3:
		utils.DecodeVarInt(o)
		utils.Equals(o, p)
	case 4:
		e, _ := script.EncodeParts([][]byte{o, p})
		scribble(e)
	case 5:
		e, _ := script.GetPushDataPrefix(o)
		scribble(e)
	case 6:
		script.DecodeParts(o)
	case 7:
		transaction.NewFromBytes(o)
		t := g.tx(0)
		x, err := transaction.NewFromBytes(g.own("tx", t.ser(nil)))
		g.spoil(x)
		if err == nil {
			for _, i := range x.Inputs {
				i.UnlockingScript.AppendPushData(p)
				scribble(*i.UnlockingScript)
			}
			for _, i := range x.Outputs {
				i.LockingScript.AppendOpCode(1)
				scribble(*i.LockingScript)
			}
		}
	case 8:
		input.NewFromBytes(o)
		output.NewFromBytes(o)
	case 9:
		block.BuildMerkleRootFromCoinbase(o, []string{hex.EncodeToString(g.raw(32)), hex.EncodeToString(g.raw(32))})
		block.BuildMerkleRootFromCoinbase(g.own("h", g.raw(32)), []string{hex.EncodeToString(g.raw(32))})
	case 10:
		scribble(block.BuildBlockHeader(1, hex.EncodeToString(g.raw(32)), g.own("root", g.raw(32)), g.own("time", g.raw(4)), g.own("bits", g.raw(4)), g.own("nonce", g.raw(4))))
		scribble(block.BuildBlockHeader(1, "", o, p, o, p))
	case 11:
		scribble(block.BuildCoinbase(o, p, hex.EncodeToString(g.raw(4)), hex.EncodeToString(g.raw(8))))
		scribble(block.BuildCoinbase(o, p, "", ""))
	case 12:
		_, c2, _ := block.GetCoinbaseParts(5, 6, "", "text", rAddr(g.raw(20), true), o)
		scribble(c2)
		c1, c2, _ := block.GetCoinbaseParts(5, 6, "00", "text", rAddr(g.raw(20), true), p)
		scribble(c1)
		scribble(c2)
	case 13:
		address.NewFromPublicKeyHash(o, true)
		address.NewFromPublicKeyHash(g.own("h", g.raw(20)), false)
	case 14:
		address.Base58EncodeMissingChecksum(o)
	case 15:
		address.EncodeBIP276("a", 1, 1, o)
	case 16:
		s, err := script.NewP2PKHUnlockingScript(o, p, 0x41)
		g.spoil(s)
		if err == nil {
			scribble(*s)
		}
		s, err = script.NewP2PKHUnlockingScript(g.own("key", g.raw(33)), g.own("sig", g.raw(71)), 0x41)
		g.spoil(s)
		if err == nil {
			scribble(*s)
		}
	case 17:
		ci, _ := aes.NewCipher(g.raw(16))
		e, _ := crypto.Encrypt(ci, o)
		scribble(e)
	case 18:
		ci, _ := aes.NewCipher(g.raw(16))
		crypto.Decrypt(ci, o)
		e, _ := crypto.Encrypt(ci, b)
		d, _ := crypto.Decrypt(ci, g.own("ct", e))
		scribble(d)
	case 19:
		q, err := output.NewOpReturn(o)
		g.spoil(q)
		if err == nil {
			scribble(*q.LockingScript)
		}
	case 20:
		q, err := output.NewOpReturnParts([][]byte{o, p, o})
		g.spoil(q)
		if err == nil {
			scribble(*q.LockingScript)
		}
	case 21:
		t := g.tx(1)
		x := g.build(t)
		d := dump(x)
		scribble(x.ToBytesWithClearedInputs(g.r.Intn(len(t.ins)+1), o))
		scribble(x.ToBytes())
		g.eq("transaction", dump(x), d)
	case 22:
		s := script.Script(append(make([]byte, 0, 500), 1))
		s.AppendPushData(o)
		s.AppendPushDataArray([][]byte{p, o})
		scribble(s)
		n, err := script.NewP2PKHFromPubKeyBytes(o)
		g.spoil(n)
		if err == nil {
			scribble(*n)
		}
	case 23:
		s := script.Script(o)
		s.IsP2PK()
		s.IsMultisigOut()
		s.IsData()
		s.IsP2PKH()
		s.IsP2SH()
		s.ToASM()
		s.GetPublicKeyHash()
		t := g.tx(1)
		x := g.build(t)
		d := dump(x)
		h, err := x.GetInputSignatureHash(0, sighash.Flag(g.flag()))
		if err == nil {
			scribble(h)
		}
		g.eq("transaction", dump(x), d)
	}
}

func c26(g *G) {
	t := g.tx(0)
	x := g.build(t)
	g.in("start", t.dump())
	if g.one(4) {
		x = transaction.New()
		t = rTx{ver: 1}
		g.eq("New", dump(x), t.dump())
	}
	for r := 0; r < 6; r++ {
		if g.one(3) {
			g.morph(x, &t)
		}
		d := dump(x)
		op := g.pick(5)
		g.in("op", op)
		switch op {
		case 0, 1:
			i := rIn{txid: g.raw(32), idx: g.u32(), sats: g.u64(), seq: 0xffffffff}
			h := g.hexMangle(hex.EncodeToString(g.scriptBytes(300)))
			g.in("txid", i.txid)
			g.in("vout", i.idx)
			g.in("script", h)
			g.in("satoshis", i.sats)
			b, ok := hexOK(h)
			i.prev = b
			if op == 0 {
				err := x.From(hex.EncodeToString(i.txid), i.idx, h, i.sats)
				g.eq("From succeeds", err == nil, ok)
			} else {
				i.seq = g.u32()
				n, err := input.NewFromUTXO(hex.EncodeToString(i.txid), i.idx, i.sats, h, i.seq)
				g.spoil(n)
				g.eq("NewFromUTXO succeeds", err == nil, ok)
				if ok {
					g.eq("NewFromUTXO", dumpIn(n), i.dump())
					x.AddInput(n)
				}
			}
			if ok {
				t.ins = append(t.ins, i)
			} else {
				g.eq("after the failure", dump(x), d)
			}
		case 2:
			o := rOut{g.u64(), g.scriptBytes(200)}
			g.in("out", o.dump())
			s := script.Script(append([]byte{}, o.lock...))
			x.AddOutput(&output.Output{Satoshis: o.sats, LockingScript: &s})
			t.outs = append(t.outs, o)
		case 3:
			a := g.addr()
			sat := g.u64()
			g.in("address", a)
			g.in("satoshis", sat)
			err := x.PayTo(a, sat)
			h := rAddrHash(a)
			g.eq("PayTo succeeds", err == nil, h != nil)
			if h != nil {
				t.outs = append(t.outs, rOut{sat, rP2PKH(h)})
			}
		case 4:
			n := input.New()
			g.eq("input.New", dumpIn(n), rIn{txid: []byte{}, unl: []byte{}, seq: 0xffffffff}.dump())
			n.UnlockingScript.AppendOpCode(0x51)
			g.eq("another input.New", dumpIn(input.New()), rIn{txid: []byte{}, unl: []byte{}, seq: 0xffffffff}.dump())
		}
		g.eq("transaction", dump(x), t.dump())
		g.eq("InputCount", x.InputCount(), len(t.ins))
		g.eq("OutputCount", x.OutputCount(), len(t.outs))
		g.eq("GetInputs", len(x.GetInputs()), len(t.ins))
		g.eq("GetOutputs", len(x.GetOutputs()), len(t.outs))
		sum, carry := uint64(0), false
		for _, o := range t.outs {
			sum += o.sats
			carry = carry || sum < o.sats
		}
		if !carry {
			g.eq("GetTotalOutputSatoshis", x.GetTotalOutputSatoshis(), sum)
		}
	}
	// the same object more than once
	ro, ri := rOut{uint64(g.u32()), g.scriptBytes(50)}, rIn{txid: g.raw(32), idx: g.u32(), seq: g.u32(), sats: g.u64(), prev: g.scriptBytes(50)}
	so := script.Script(append([]byte{}, ro.lock...))
	oo := &output.Output{Satoshis: ro.sats, LockingScript: &so}
	ii, err := input.NewFromUTXO(hex.EncodeToString(ri.txid), ri.idx, ri.sats, hex.EncodeToString(ri.prev), ri.seq)
	g.eq("NewFromUTXO error", err, nil)
	for r := 0; r < 2; r++ {
		x.AddOutput(oo)
		x.AddInput(ii)
		t.outs = append(t.outs, ro)
		t.ins = append(t.ins, ri)
		g.eq("the same object once more", dump(x), t.dump())
		g.eq("OutputCount", x.OutputCount(), len(t.outs))
		g.eq("InputCount", x.InputCount(), len(t.ins))
	}
	// coinbase
	c := transaction.New()
	m := []rIn{{txid: make([]byte, 32), idx: 0xffffffff, seq: g.u32()}}
	switch g.choose(6) {
	case 0:
		m[0].idx = g.u32()
	case 1:
		m[0].txid = g.raw(32)
	case 2:
		m = append(m, m[0])
	case 3:
		m = nil
	case 4:
		m[0].txid[g.r.Intn(32)] ^= 1 << uint(g.r.Intn(8))
	}
	k := rTx{ins: m}
	g.in("coinbase?", k.dump())
	c.Inputs = g.build(k).Inputs
	g.eq("IsCoinbase", c.IsCoinbase(), len(m) == 1 && m[0].idx == 0xffffffff && bytes.Equal(m[0].txid, make([]byte, 32)))
	if len(m) == 1 {
		c.Inputs[0].PreviousTxID = strings.Repeat("0", 62+g.r.Intn(5))
		g.eq("IsCoinbase", c.IsCoinbase(), len(c.Inputs[0].PreviousTxID) == 64 && m[0].idx == 0xffffffff)
	}
}

func c27(g *G) {
	t := g.tx(0)
	x := g.build(t)
	s := g.scriptBytes(1000)
	k := g.pick(len(t.ins) + 1)
	g.in("tx", t.dump())
	g.in("index", k)
	g.in("script", s)
	ser := func() []byte {
		return t.ser(func(j int) []byte {
			if j == k {
				return s
			}
			return nil
		})
	}
	w := ser()
	for r := 0; r < 4; r++ {
		if r == 2 {
			g.morph(x, &t)
			w = ser()
		}
		c := x.ToBytesWithClearedInputs(k, g.own("script", s))
		g.eq("ToBytesWithClearedInputs", c, w)
		g.hold("cleared form", c)
		g.eq("without script", x.ToBytesWithClearedInputs(k, nil), t.ser(nil))
		g.eq("transaction", dump(x), t.dump())
	}
	if k < len(t.ins) {
		y, err := transaction.NewFromBytes(w)
		g.spoil(y)
		g.eq("cleared form parses", err, nil)
		g.eq("cleared form serialises", y.ToBytes(), w)
	}
}

func c28(g *G) {
	m := []byte{0x52, 0x53, 0x51, 0x5f, 0x60, 0x50, 0x52, 0x00, 0x54, 0x52, 0x52, 0x52}[g.pick(12)]
	n := 1 + g.r.Intn(3)
	var ps [][]byte
	for k := 0; k < n; k++ {
		seed := g.raw(32)
		mk, err := hdkeychain.NewMaster(seed, netParams)
		if err != nil {
			return
		}
		pk, _ := mk.Neuter()
		raw, _ := rB58Dec(pk.String())
		path := cat([]byte{byte(g.r.Intn(3)), 0}, []byte{g.byte(), g.byte()})
		p := cat([]byte{0xff}, raw[:78], path)
		switch g.r.Intn(20) {
		case 0, 1, 2:
			p = g.mutate(p)
		case 3:
			p = p[:82]
		case 4:
			p = append(p, g.byte())
		case 5:
			p = p[:81]
		case 6:
			p = append(p, g.byte(), g.byte())
		case 7:
			p[0] = g.byte()
		case 8: // a hardened child number in the key itself, or a private key
			p[1+g.r.Intn(13)] ^= 1 << g.r.Intn(8)
		case 9:
			p = nil
		case 10:
			p = p[:79]
		}
		ps = append(ps, p)
	}
	b := []byte{m}
	if g.one(10) {
		b = rPush([]byte{m, 1, 2})
	}
	b = append(b, rPushes(ps)...)
	cnt := byte(0x50 + n)
	if g.one(6) {
		cnt += byte(g.r.Intn(5)) - 2
	}
	b = append(b, cnt)
	b = append(b, []byte{0xae, 0xae, 0xae, 0xae, 0xae, 0xaf, 0xac}[g.choose(7)])
	if g.one(5) {
		b = g.mutate(b)
	}
	if g.one(10) {
		b = g.scriptBytes(400)
	}
	if g.one(10) {
		b = cat([]byte{0x52, 0}, []byte{0x51, 0xae})
	}
	if g.one(8) { // few parts
		b = [][]byte{{m, 0x50, 0xae}, {m, 0x51, 0xae}, {m, 0xae}, {m}, {0xae}, {}, {m, 0x50, 0xae, 0xae}, {m, 0x4f, 0xae}}[g.r.Intn(8)]
	}
	h := hex.EncodeToString(b)
	if g.one(12) {
		h = g.hexMangle(h)
	}
	g.in("script", h)
	rs, err := script.NewRedeemScriptFromElectrum(h)
	g.spoil(rs)
	d, ok := hexOK(h)
	var parts [][]byte
	if ok {
		var e error
		parts, e = rDecode(d)
		ok = e == nil && len(parts) >= 3
	}
	var keys [][]byte
	var thr int
	if ok {
		for _, p := range parts {
			ok = ok && len(p) > 0
		}
	}
	if ok {
		thr = int(parts[0][0]) - 0x50
		ok = thr >= 2 && thr <= 15 && parts[len(parts)-1][0] == 0xae
	}
	if ok {
		for _, p := range parts[1 : len(parts)-2] {
			if p[0] != 0xff || len(p) != 83 {
				ok = false
				break
			}
			k, e := hdkeychain.NewKeyFromString(rB58Check(p[1:79]))
			for i := 0; i < 2 && e == nil; i++ {
				k, e = k.Child(uint32(binary.LittleEndian.Uint16(p[79+2*i:])))
			}
			if e != nil {
				ok = false
				break
			}
			ec, e := k.ECPubKey()
			if e != nil {
				ok = false
				break
			}
			keys = append(keys, ec.SerializeCompressed())
		}
	}
	if ok {
		c := int(parts[len(parts)-2][0]) - 0x50
		if c < 0 {
			c += 256
		}
		ok = c == len(keys)
	}
	g.nontrivial = ok
	for round := 0; round < 2; round++ {
		g.eq("NewRedeemScriptFromElectrum succeeds", err == nil, ok)
		if ok {
			g.eq("threshold", rs.SignaturesRequired, thr)
			g.eq("keys", rs.PublicKeys, keys)
			spoil([]interface{}{rs}, g.r.Uint64())
		}
		if round == 0 {
			rs, err = script.NewRedeemScriptFromElectrum(h)
			g.spoil(rs)
		}
	}
}
