package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/utils"
)

func init() {
	props["C30"] = prop{"inputs and outputs with and without scripts; non-trivial: a script is there", c30}
	props["C29"] = prop{"all compact exponents, difficulties, intervals and rates around every power of ten", c29}
}

func near(a float64, b *big.Rat, rel float64) bool {
	f, _ := b.Float64()
	if math.IsNaN(a) || math.IsInf(a, 0) {
		return a == f
	}
	return math.Abs(a-f) <= rel*math.Abs(f)+1e-300
}

func compactTarget(c uint32) *big.Int {
	r := big.NewInt(int64(c & 0x7fffff))
	k := int(c >> 24)
	p := new(big.Int).Exp(big.NewInt(256), big.NewInt(int64(abs(k-3))), nil)
	if k >= 3 {
		r.Mul(r, p)
	} else {
		r.Quo(r, p)
	}
	if c&0x800000 != 0 {
		r.Neg(r)
	}
	return r
}

func (g *G) f64pos() float64 {
	switch g.pick(4) {
	case 0:
		k := g.pick(27)
		v := math.Pow10(k)
		return v * []float64{1, 0.999, 1.001, 9.995, 5, 1.25, 0.5, 1.9999999, 1, 1 + 1e-15, 1 - 1e-15}[g.choose(11)]
	case 1:
		return math.Pow10(g.choose(24)) * (1 + 9*g.r.Float64())
	case 2:
		return float64(g.u64()) + float64(g.choose(4))/4
	default:
		return math.Ldexp(g.r.Float64(), g.choose(90)-5)
	}
}

var humanRE = regexp.MustCompile(`^(-?[0-9]+\.[0-9][0-9]) ([kMGTPEZ]?)H/s$`)

func c29(g *G) {
	switch g.pick(3) {
	case 0:
		e := g.pick(36)
		m := uint32(g.r.Intn(1 << 24))
		switch g.choose(5) {
		case 0:
			m = []uint32{1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff}[g.choose(10)]
		case 1:
			m = uint32(g.r.Intn(1 << 16))
		default:
			m &= 0x7fffff
		}
		s := fmt.Sprintf("%02x%06x", e, m)
		if g.one(6) {
			s = g.hexMangle(s)
		}
		g.in("bits", s)
		d, err := block.DifficultyFromBits(s)
		b, ok := hexOK(s)
		if !ok || len(b) != 4 {
			g.ok("DifficultyFromBits fails", err != nil)
			return
		}
		t := compactTarget(binary.BigEndian.Uint32(b))
		if t.Sign() <= 0 || t.BitLen() > 256 {
			return
		}
		g.nontrivial = true
		g.eq("DifficultyFromBits error", err, nil)
		one := new(big.Int).Lsh(big.NewInt(0xffff), 208)
		want := new(big.Rat).SetFrac(one, t)
		if !near(d, want, 1e-12) {
			f, _ := want.Float64()
			g.eq("difficulty", d, f)
		}
	case 1:
		coin := []string{"BSV", "RBSV", "R", "B", "r", "BTC", "BR", "Q", "S", "REGTEST", "regtest", "TBSV", " R"}[g.pick(13)]
		diff := g.u64()
		t := []float64{600, 1, 0.5, 150, 1e-3, 86400, 1e9}[g.choose(7)]
		if g.one(2) {
			t = g.f64pos() + 1e-3
		}
		g.in("coin", coin)
		g.in("diff", diff)
		g.in("seconds", t)
		g.nontrivial = true
		r := block.DifficultyToHashrate(coin, diff, t)
		bits := uint32(0x1d00ffff)
		if coin[0] == 'R' {
			bits = 0x207fffff
		}
		want := new(big.Rat).SetFrac(new(big.Int).Lsh(big.NewInt(1), 256), compactTarget(bits))
		want.Mul(want, new(big.Rat).SetInt(new(big.Int).SetUint64(diff)))
		want.Quo(want, new(big.Rat).SetFloat64(t))
		if !near(r, want, 1e-12) {
			f, _ := want.Float64()
			g.eq("hash rate", r, f)
		}
	case 2:
		v := g.f64pos()
		if g.one(20) {
			v = 0
		}
		g.in("rate", strconv.FormatFloat(v, 'g', -1, 64))
		g.nontrivial = true
		s := utils.HumanHash(v)
		m := humanRE.FindStringSubmatch(s)
		if m == nil {
			g.eq("text", s, "a number with two decimals and a unit")
		}
		x, err := strconv.ParseFloat(m[1], 64)
		g.eq("number error", err, nil)
		units := []string{"", "k", "M", "G", "T", "P", "E", "Z"}
		k := 0
		for i, u := range units {
			if u == m[2] {
				k = i
			}
		}
		scale := math.Pow10(3 * k)
		if math.Abs(x-v/scale) > 0.00501+1e-9*math.Abs(x) {
			g.eq("text", s, fmt.Sprintf("%.2f %sH/s", v/scale, m[2]))
		}
		// the unit is the largest that fits; powers of ten up to 1e22 are exact
		if k > 0 && v < scale || k < 7 && v >= scale*1000 {
			g.eq("unit of "+s, m[2], "the largest fitting power of one thousand")
		}
	}
}

func c30(g *G) {
	i := rIn{txid: g.raw(32), idx: g.u32(), seq: g.u32(), sats: g.u64(), prev: g.scriptBytes(100)}
	if !g.one(4) {
		i.unl = g.scriptBytes(300)
	}
	g.in("previous id", i.txid)
	g.in("numbers", []uint64{uint64(i.idx), uint64(i.seq), i.sats})
	g.in("unlocking script", i.unl)
	x := g.build(rTx{ins: []rIn{i}}).Inputs[0]
	if i.unl == nil {
		x.UnlockingScript = nil
	}
	want := "prevTxHash:   " + x.PreviousTxID + "\nprevOutIndex: " + strconv.FormatUint(uint64(i.idx), 10) + "\nscriptLen:    " + strconv.Itoa(len(i.unl)) +
		"\nscript:       " + hex.EncodeToString(i.unl) + "\nsequence:     " + strconv.FormatUint(uint64(i.seq), 16) + "\n"
	g.eq("text of the input", x.String(), want)
	g.eq("text of the input again", x.String(), want)
	for k := 0; k < 3; k++ {
		switch g.choose(4) {
		case 0:
			i.txid = g.raw(32)
			x.PreviousTxID = hex.EncodeToString(i.txid)
		case 1:
			i.idx, i.seq = g.u32(), g.u32()
			x.PreviousTxOutIndex, x.SequenceNumber = i.idx, i.seq
		case 2:
			i.unl = g.scriptBytes(100)
			x.UnlockingScript = scr(g, "unlocking script", i.unl)
		case 3:
			i.unl = g.scriptBytes(100)
			if x.UnlockingScript == nil {
				x.UnlockingScript = scr(g, "unlocking script", i.unl)
			} else {
				*x.UnlockingScript = *scr(g, "unlocking script", i.unl)
			}
		}
		g.in("changed to", i.dump())
		want = "prevTxHash:   " + x.PreviousTxID + "\nprevOutIndex: " + strconv.FormatUint(uint64(i.idx), 10) + "\nscriptLen:    " + strconv.Itoa(len(i.unl)) +
			"\nscript:       " + hex.EncodeToString(i.unl) + "\nsequence:     " + strconv.FormatUint(uint64(i.seq), 16) + "\n"
		g.eq("text of the changed input", x.String(), want)
	}
	o := rOut{sats: g.u64(), lock: g.scriptBytes(300)}
	g.in("satoshis", o.sats)
	g.in("locking script", o.lock)
	t := g.build(rTx{outs: []rOut{o}})
	y := t.Outputs[0]
	if g.one(5) {
		y.LockingScript, o.lock = nil, nil
	}
	g.eq("text of the output", y.String(), "value:     "+strconv.FormatUint(o.sats, 10)+"\nscriptLen: "+strconv.Itoa(len(o.lock))+"\nscript:    "+hex.EncodeToString(o.lock)+"\n")
	g.nontrivial = len(i.unl) > 0 || len(o.lock) > 0
}
