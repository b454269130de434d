package main

import (
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// unrolls says whether the number of iterations of a loop is a small constant that is decided by counting alone.
// Such a loop is executed iteration by iteration: no invariant is needed and nothing is approximated.
func (e *Engine) unrolls(st *State, fr *Frame, from, to *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) bool {
	ifs := 0
	for b := range set {
		for _, in := range b.Instrs {
			// a branch that leaves the loop does not multiply the paths
			if _, ok := in.(*ssa.If); ok && b != to && set[b.Succs[0]] && set[b.Succs[1]] {
				ifs++
			}
		}
		if _, ok := e.loops(fr.fn)[b]; ok && b != to {
			return false
		}
	}
	limit := 40
	if len(e.f.tmpls) > 0 {
		limit = 10 // the contract offers invariants
	}
	if ifs > 0 {
		limit = 4
	}
	br, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok || set[to.Succs[0]] == set[to.Succs[1]] {
		return false
	}
	phis := map[*ssa.Phi]*big.Int{}
	ps, vs := e.phiVals(st, fr, from, to)
	for i, p := range ps {
		if v, ok := vs[i].(VInt); ok && v.T.isConst() {
			phis[p] = v.T.Num
		}
	}
	var num func(v ssa.Value) *big.Int
	num = func(v ssa.Value) *big.Int {
		switch x := v.(type) {
		case *ssa.Const:
			if t, ok := e.val(st, fr, x).(VInt); ok && t.T.isConst() {
				return t.T.Num
			}
		case *ssa.Phi:
			if x.Block() == to {
				return phis[x]
			}
		case *ssa.BinOp:
			if set[x.Block()] {
				a, b := num(x.X), num(x.Y)
				if a == nil || b == nil {
					return nil
				}
				r := new(big.Int)
				switch x.Op {
				case token.ADD:
					r.Add(a, b)
				case token.SUB:
					r.Sub(a, b)
				case token.MUL:
					r.Mul(a, b)
				default:
					return nil
				}
				if r.CmpAbs(big.NewInt(120)) > 0 { // fits every integer type but for the sign
					return nil
				}
				if s, ok := intSort(x.Type()); !ok || r.Sign() < 0 && s[0] == 'u' {
					return nil
				}
				return r
			}
		case *ssa.Convert:
			if set[x.Block()] {
				r := num(x.X)
				s, ok := intSort(x.Type())
				if r == nil || !ok || r.CmpAbs(big.NewInt(120)) > 0 || r.Sign() < 0 && s[0] == 'u' {
					return nil
				}
				return r
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && set[x.Block()] {
				if in, ok := x.Call.Args[0].(ssa.Instruction); ok && set[in.Block()] {
					return nil
				}
				switch v := e.val(st, fr, x.Call.Args[0]).(type) {
				case VSlice:
					if k := st.known(v.Len); k != nil {
						return k.Num
					}
				case VStr:
					if k := st.known(tLen(v.T)); k != nil {
						return k.Num
					}
				}
				return nil
			}
		}
		if in, ok := v.(ssa.Instruction); ok && set[in.Block()] {
			return nil
		}
		if t, ok := e.val(st, fr, v).(VInt); ok {
			if k := st.known(t.T); k != nil {
				return k.Num
			}
		}
		return nil
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for n := 0; n <= limit; n++ {
		a, b := num(cmp.X), num(cmp.Y)
		if a == nil || b == nil {
			return false
		}
		c := a.Cmp(b)
		taken := false
		switch cmp.Op {
		case token.LSS:
			taken = c < 0
		case token.LEQ:
			taken = c <= 0
		case token.GTR:
			taken = c > 0
		case token.GEQ:
			taken = c >= 0
		case token.EQL:
			taken = c == 0
		case token.NEQ:
			taken = c != 0
		default:
			return false
		}
		next := to.Succs[1]
		if taken {
			next = to.Succs[0]
		}
		if !set[next] {
			return n > 0
		}
		np := map[*ssa.Phi]*big.Int{}
		for _, p := range ps {
			var v *big.Int
			for i, pr := range to.Preds {
				if !set[pr] {
					continue
				}
				x := num(p.Edges[i])
				if x == nil || v != nil && v.Cmp(x) != 0 {
					v = nil
					break
				}
				v = x
			}
			if v != nil {
				np[p] = v
			}
		}
		phis = np
	}
	return false
}
