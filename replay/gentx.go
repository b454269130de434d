package main

import (
	"encoding/hex"
	"fmt"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
)

// scriptBytes returns script bytes of many shapes, well formed or not
func (g *G) scriptBytes(max int) []byte {
	switch g.choose(12) {
	case 0:
		return []byte{}
	case 1:
		return rP2PKH(g.raw(20))
	case 2:
		return cat([]byte{0xa9, 0x14}, g.raw(20), []byte{0x87})
	case 3:
		return cat([]byte{0x21, 2 + byte(g.r.Intn(2))}, g.raw(32), []byte{0xac})
	case 4:
		return cat([]byte{0x6a}, rPush(g.raw(g.size(max))))
	case 5:
		return cat([]byte{0x52, 0x21, 2}, g.raw(32), []byte{0x21, 3}, g.raw(32), []byte{0x52, 0xae})
	case 6, 7, 8:
		var b []byte
		for k := g.r.Intn(6); k >= 0; k-- {
			if g.r.Intn(2) == 0 {
				b = append(b, g.byte())
			} else {
				b = append(b, rPush(g.raw(g.size(max)))...)
			}
		}
		if len(b) > max {
			b = b[:max]
		}
		return b
	case 9:
		return g.mutate(g.scriptBytes(max))
	}
	return g.raw(g.size(max))
}

func (g *G) tx(minIn int) rTx {
	t := rTx{ver: g.u32(), lock: g.u32()}
	ni, no := g.count(), g.count()
	if ni < minIn {
		ni = minIn
	}
	maxS := 1200
	if ni+no > 8 {
		maxS = 40
	} else if g.one(24) {
		maxS = 70000
	}
	for k := 0; k < ni; k++ {
		i := rIn{txid: g.raw(32), idx: g.u32(), sats: g.u64(), seq: g.u32()}
		if len(t.ins) > 0 && g.one(5) {
			i.txid = t.ins[0].txid
		}
		if g.r.Intn(5) > 0 {
			i.prev = g.scriptBytes(maxS)
		}
		if g.r.Intn(4) > 0 {
			i.unl = g.scriptBytes(maxS)
		}
		t.ins = append(t.ins, i)
	}
	for k := 0; k < no; k++ {
		t.outs = append(t.outs, rOut{g.u64(), g.scriptBytes(maxS)})
	}
	g.nontrivial = g.nontrivial || ni > 0 || no > 0
	return t
}
func (g *G) count() int {
	switch g.choose(12) {
	case 0:
		return 0
	case 1, 2, 3:
		return 1
	case 4, 5, 6:
		return 2
	case 7:
		if g.one(4) {
			return []int{250, 251, 252, 253, 254, 255, 256, 257, 300}[g.r.Intn(9)]
		}
	case 8:
		if v, ok := g.dictInt(600); ok && g.one(3) {
			return int(v)
		}
	}
	return g.r.Intn(6)
}

func scr(g *G, name string, b []byte) *script.Script {
	if b == nil {
		return nil
	}
	s := script.Script(g.own(name, b))
	return &s
}

// build makes the library's transaction; its scripts are owned buffers under frame check
func (g *G) build(t rTx) *transaction.Transaction {
	x := transaction.New()
	x.Version, x.Locktime = t.ver, t.lock
	for k, i := range t.ins {
		n := fmt.Sprint("in", k)
		x.Inputs = append(x.Inputs, &input.Input{PreviousTxID: hex.EncodeToString(i.txid), PreviousTxOutIndex: i.idx, PreviousTxSatoshis: i.sats,
			PreviousTxScript: scr(g, n+".prev", i.prev), UnlockingScript: scr(g, n+".unlocking", i.unl), SequenceNumber: i.seq})
	}
	for k, o := range t.outs {
		x.Outputs = append(x.Outputs, &output.Output{Satoshis: o.sats, LockingScript: scr(g, fmt.Sprint("out", k), o.lock)})
	}
	return x
}

func showScript(s *script.Script) string {
	if s == nil {
		return "nil"
	}
	curG.track(*s)
	return fmt.Sprintf("%x", []byte(*s))
}

// dump is a complete picture of a transaction
func dump(x *transaction.Transaction) string {
	if x == nil {
		return "nil"
	}
	s := fmt.Sprintf("version %d locktime %d", x.Version, x.Locktime)
	for _, i := range x.Inputs {
		s += "\n in " + dumpIn(i)
	}
	for _, o := range x.Outputs {
		s += "\n out " + dumpOut(o)
	}
	return s
}
func dumpIn(i *input.Input) string {
	if i == nil {
		return "nil"
	}
	return fmt.Sprintf("%q %d sats %d prev %s unlocking %s seq %d", i.PreviousTxID, i.PreviousTxOutIndex, i.PreviousTxSatoshis, showScript(i.PreviousTxScript), showScript(i.UnlockingScript), i.SequenceNumber)
}
func dumpOut(o *output.Output) string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("%d %s", o.Satoshis, showScript(o.LockingScript))
}
func rShow(b []byte) string {
	if b == nil {
		return "nil"
	}
	return fmt.Sprintf("%x", b)
}
func (t rTx) dump() string {
	s := fmt.Sprintf("version %d locktime %d", t.ver, t.lock)
	for _, i := range t.ins {
		s += "\n in " + i.dump()
	}
	for _, o := range t.outs {
		s += "\n out " + o.dump()
	}
	return s
}
func (i rIn) dump() string {
	return fmt.Sprintf("%q %d sats %d prev %s unlocking %s seq %d", hex.EncodeToString(i.txid), i.idx, i.sats, rShow(i.prev), rShow(i.unl), i.seq)
}
func (o rOut) dump() string { return fmt.Sprintf("%d %s", o.sats, rShow(o.lock)) }

// parsed: what a parser gives for the transaction
func (t rTx) parsed() rTx {
	r := rTx{ver: t.ver, lock: t.lock, outs: t.outs}
	for _, i := range t.ins {
		i.sats, i.prev = 0, nil
		if i.unl == nil {
			i.unl = []byte{}
		}
		r.ins = append(r.ins, i)
	}
	return r
}
func (t rTx) clone() rTx {
	r := t
	r.ins = append([]rIn{}, t.ins...)
	r.outs = append([]rOut{}, t.outs...)
	return r
}

// morph changes one thing of the transaction in place, in the object and in the model
func (g *G) morph(x *transaction.Transaction, t *rTx) {
	ins, outs := append([]rIn{}, t.ins...), append([]rOut{}, t.outs...)
	t.ins, t.outs = ins, outs
	put := func(p **script.Script, m *[]byte) {
		b := g.scriptBytes(200)
		switch {
		case g.shared:
			*p = scr(g, "script", b)
		case *m != nil && g.r.Intn(2) == 0: // the same cell
			**p = script.Script(g.own("script", b))
		case *m != nil && len(*m) > 0 && g.r.Intn(2) == 0: // the same memory
			b = append([]byte{}, *m...)
			b[g.r.Intn(len(b))] ^= 1 << uint(g.r.Intn(8))
			copy(**p, b)
			for k, f := range g.bufs {
				if cap(f.buf) > 0 && &f.buf[:1][0] == &(**p)[0] {
					g.bufs[k].was = append([]byte{}, f.buf...)
				}
			}
		default:
			*p = scr(g, "script", b)
		}
		*m = b
	}
	for done := false; !done; {
		done = true
		op := g.choose(13)
		if op < 8 && len(ins) == 0 || op >= 8 && op < 11 && len(outs) == 0 {
			op = 11 + g.choose(2)
		}
		g.in("change", op)
		switch op {
		case 0, 1:
			k := g.r.Intn(len(ins))
			ins[k].txid = g.raw(32)
			x.Inputs[k].PreviousTxID = hex.EncodeToString(ins[k].txid)
		case 2:
			k := g.r.Intn(len(ins))
			ins[k].idx ^= 1 << uint(g.r.Intn(32))
			x.Inputs[k].PreviousTxOutIndex = ins[k].idx
		case 3:
			k := g.r.Intn(len(ins))
			ins[k].sats ^= 1 << uint(g.r.Intn(64))
			x.Inputs[k].PreviousTxSatoshis = ins[k].sats
		case 4:
			k := g.r.Intn(len(ins))
			ins[k].seq ^= 1 << uint(g.r.Intn(32))
			x.Inputs[k].SequenceNumber = ins[k].seq
		case 5:
			k := g.r.Intn(len(ins))
			put(&x.Inputs[k].PreviousTxScript, &ins[k].prev)
		case 6:
			k := g.r.Intn(len(ins))
			put(&x.Inputs[k].UnlockingScript, &ins[k].unl)
		case 7: // two inputs change places
			k, j := g.r.Intn(len(ins)), g.r.Intn(len(ins))
			ins[k], ins[j] = ins[j], ins[k]
			x.Inputs[k], x.Inputs[j] = x.Inputs[j], x.Inputs[k]
			done = k != j || len(ins) == 1
		case 8:
			k := g.r.Intn(len(outs))
			outs[k].sats ^= 1 << uint(g.r.Intn(64))
			x.Outputs[k].Satoshis = outs[k].sats
		case 9:
			k := g.r.Intn(len(outs))
			put(&x.Outputs[k].LockingScript, &outs[k].lock)
		case 10:
			k, j := g.r.Intn(len(outs)), g.r.Intn(len(outs))
			outs[k], outs[j] = outs[j], outs[k]
			x.Outputs[k], x.Outputs[j] = x.Outputs[j], x.Outputs[k]
			done = k != j || len(outs) == 1
		case 11:
			t.ver ^= 1 << uint(g.r.Intn(32))
			x.Version = t.ver
		case 12:
			t.lock ^= 1 << uint(g.r.Intn(32))
			x.Locktime = t.lock
		}
	}
	g.in("now", t.dump())
}

// share lets several inputs have one script object, as after building them from a template
func (g *G) share(x *transaction.Transaction, t *rTx) {
	if len(t.ins) < 2 || !g.one(3) {
		return
	}
	t.ins = append([]rIn{}, t.ins...)
	g.shared = true
	j := g.r.Intn(len(t.ins))
	for k := range t.ins {
		if g.r.Intn(2) == 0 {
			g.in("unlocking script object shared", []int{j, k})
			x.Inputs[k].UnlockingScript, t.ins[k].unl = x.Inputs[j].UnlockingScript, t.ins[j].unl
		}
		if g.r.Intn(3) == 0 {
			g.in("previous script object shared", []int{j, k})
			x.Inputs[k].PreviousTxScript, t.ins[k].prev = x.Inputs[j].PreviousTxScript, t.ins[j].prev
		}
	}
}
