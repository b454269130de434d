package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lenHyp states the run-time bound on the length of a sequence without simplification.
func lenHyp(t *Term) *Term {
	l := tLen(t)
	if l.Op == "len" {
		return intern(&Term{Op: "le", Args: []*Term{l, tInt(maxLen(t.Sort))}, Sort: "bool"})
	}
	return tTrue
}

// symbol introduced at a loop head
type lsym struct {
	id    string
	v     *Term // variable
	q     *Term // quantity as used in templates (int term / seq / bool ...)
	entry *Term // entry value of q
	dead  bool  // nothing refers to it any more
	step  int   // sign of the constant the loop adds to it
}

type loopShape struct {
	chg    map[string]bool
	flags  map[string]ObjState // union of flags per object id / leaf id
	merges map[string]bool     // "a|b" identifiers that share a group
}

type loopHead struct {
	st    *State
	st0   *State // state on entry
	phis  []*ssa.Phi
	pvals []Value
	syms  []*lsym
	cells []*Obj          // cells with havocked leaves
	bobj  map[string]*Obj // kind B objects by leaf id
	bname map[*Obj]string // reverse
	bcell map[string]*Obj // cells of loop-carried pointers to values of dependencies, by leaf id
	pre   map[*Obj]bool   // objects existing at the head
	names map[string]*Obj // identifier -> object, for flags and merges
	ids   map[*Obj]string
}

func orFlags(a, b ObjState) ObjState {
	a.Ext = a.Ext || b.Ext
	a.RO = a.RO || b.RO
	a.Frozen = a.Frozen || b.Frozen
	a.Child = a.Child || b.Child
	a.ElemShared = a.ElemShared || b.ElemShared
	a.Foreign = a.Foreign || b.Foreign
	if b.Ext && a.Root == "" && b.Root != "" {
		a.Root = b.Root
	} else if b.Ext && b.Root != a.Root {
		a.Root = ""
	}
	return a
}
func flagsOf(s *ObjState) ObjState {
	return ObjState{Ext: s.Ext, RO: s.RO, Frozen: s.Frozen, Child: s.Child, ElemShared: s.ElemShared, Foreign: s.Foreign, Root: s.Root}
}
func eqFlags(a, b ObjState) bool {
	return a.Ext == b.Ext && a.RO == b.RO && a.Frozen == b.Frozen && a.Child == b.Child && a.ElemShared == b.ElemShared && a.Foreign == b.Foreign && a.Root == b.Root
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// headValue builds the value of a leaf at the loop head.
func (e *Engine) headValue(h *loopHead, sh *loopShape, id, name string, entry Value, typ types.Type) Value {
	st := h.st
	addSym := func(aspect string, srt string, entryM *Term) *Term {
		v := e.fresh(name, srt)
		s := &lsym{id: id + aspect, v: v, q: v, entry: entryM}
		if _, _, ok := machRange(srt); ok {
			s.q = tCast(v)
			s.entry = tCast(entryM)
		}
		h.syms = append(h.syms, s)
		return v
	}
	switch x := entry.(type) {
	case VInt:
		if sh.chg[id] {
			s, ok := intSort(typ)
			if !ok {
				return VBad{"loop int"}
			}
			return VInt{tCast(addSym("", s, tUncast(x.T, s)))}
		}
	case VBool:
		if sh.chg[id] {
			return VBool{addSym("", "bool", x.T)}
		}
	case VErr:
		if sh.chg[id] {
			return VErr{addSym("", "bool", x.T)}
		}
	case VStr:
		if sh.chg[id] {
			v := addSym("", "Seq<u8>", x.T)
			st.hyp(lenHyp(v))
			return VStr{v}
		}
		if sh.chg[id+"#off"] || sh.chg[id+"#len"] {
			// a part of the same text
			base, off, n := strBase(x.T)
			if sh.chg[id+"#off"] {
				off = tCast(addSym("#off", "i64", tUncast(off, "i64")))
			}
			if sh.chg[id+"#len"] {
				n = tCast(addSym("#len", "i64", tUncast(n, "i64")))
			}
			st.hyp(tLe(tInt(0), off))
			st.hyp(tLe(tInt(0), n))
			st.hyp(tLe(tAdd(off, n), tLen(base)))
			w := tSub3(base, off, tAdd(off, n))
			h.syms = append(h.syms, &lsym{id: id + "#win", q: w, entry: x.T})
			return VStr{w}
		}
	case VFlt:
		if sh.chg[id] {
			return VFlt{addSym("", "real", x.T)}
		}
	case VOpq:
		if sh.chg[id] {
			return VOpq{addSym("", "int", x.T), x.Kind}
		}
	case VArr:
		if sh.chg[id] {
			v := addSym("", x.T.Sort, x.T)
			st.hyp(tEq(tLen(v), tInt(x.N)))
			return VArr{v, x.Elem, x.N}
		}
	case VSlice:
		if sh.chg[id+"#B"] {
			c := e.content(h.st0, x)
			if c == nil {
				return VBad{"loop slice"}
			}
			v := addSym("", c.Sort, c)
			st.hyp(lenHyp(v))
			o := e.newArr(st, name, x.Obj.elemT, x.Obj.elem, v)
			s := st.mut(o)
			s.Group = st.get(x.Obj).Group
			f := orFlags(flagsOf(st.get(x.Obj)), sh.flags[id])
			if x.Nil == tTrue {
				f = sh.flags[id]
			}
			s.Ext, s.RO, s.Frozen, s.Child, s.ElemShared, s.Foreign, s.Root = f.Ext, f.RO, f.Frozen, f.Child, f.ElemShared, f.Foreign, f.Root
			h.bobj[id] = o
			h.bname[o] = id
			h.names[id] = o
			h.ids[o] = id
			nl := tFalse
			if x.Nil != tFalse || sh.chg[id+"#nil"] {
				nl = e.fresh(name+"_nil", "bool")
				h.syms = append(h.syms, &lsym{id: id + "#nil", v: nl, q: nl, entry: x.Nil})
				st.hyp(tImp(nl, tEq(tLen(v), tInt(0))))
			}
			return VSlice{Obj: o, Off: tInt(0), Len: tLen(v), Nil: nl}
		}
		r := x
		if sh.chg[id+"#off"] {
			r.Off = tCast(addSym("#off", "i64", tUncast(x.Off, "i64")))
		}
		if sh.chg[id+"#len"] {
			r.Len = tCast(addSym("#len", "i64", tUncast(x.Len, "i64")))
		}
		if sh.chg[id+"#off"] || sh.chg[id+"#len"] {
			// window of the same memory
			st.hyp(tLe(tInt(0), r.Off))
			st.hyp(tLe(tInt(0), r.Len))
			if c := st.get(x.Obj).C; c != nil {
				st.hyp(tLe(tAdd(r.Off, r.Len), tLen(c)))
			}
			if x.Cap != nil {
				if sh.chg[id+"#cap"] {
					r.Cap = nil
				} else {
					r.Cap = tSub(tAdd(x.Off, x.Cap), r.Off)
				}
			}
			h.syms = append(h.syms, &lsym{id: id + "#win", q: tSub3(st.get(x.Obj).C, r.Off, tAdd(r.Off, r.Len)), entry: e.content(st, x)})
		}
		if sh.chg[id+"#nil"] {
			nl := e.fresh(name+"_nil", "bool")
			h.syms = append(h.syms, &lsym{id: id + "#nil", v: nl, q: nl, entry: x.Nil})
			r.Nil = nl
		}
		return r
	case VPtr:
		if sh.chg[id+"#bad"] {
			// a value of a dependency is immutable: another pointer is another value
			c := e.opaqueCell(h.st0, x)
			if c == nil {
				return VBad{"loop-carried pointer"}
			}
			o := e.newCell(st, name, typ.Underlying().(*types.Pointer).Elem(), VOpq{addSym("", "int", c.T), c.Kind})
			h.bcell[id] = o
			nl := tFalse
			if x.Nil != tFalse || sh.chg[id+"#nil"] {
				nl = e.fresh(name+"_nil", "bool")
				h.syms = append(h.syms, &lsym{id: id + "#nil", v: nl, q: nl, entry: x.Nil})
			}
			return VPtr{A: Addr{Obj: o}, Nil: nl}
		}
		if sh.chg[id+"#nil"] {
			nl := e.fresh(name+"_nil", "bool")
			h.syms = append(h.syms, &lsym{id: id + "#nil", v: nl, q: nl, entry: x.Nil})
			x.Nil = nl
			return x
		}
	case VStruct:
		r := VStruct{Typ: x.Typ}
		stt := x.Typ.Underlying().(*types.Struct)
		for i, f := range x.F {
			r.F = append(r.F, e.headValue(h, sh, fmt.Sprintf("%s.%d", id, i), name+"_"+stt.Field(i).Name(), f, stt.Field(i).Type()))
		}
		return r
	}
	if sh.chg[id] || sh.chg[id+"#bad"] {
		return VBad{"loop-carried value"}
	}
	return entry
}

// strBase splits a text into the text it is a part of, where it starts and its length.
func strBase(t *Term) (base, off, n *Term) {
	if t.Op == "subrange" {
		return t.Args[0], t.Args[1], tSub(t.Args[2], t.Args[1])
	}
	return t, tInt(0), tLen(t)
}

// strWindow says which part of base t is.
func strWindow(base, t *Term) (off, n *Term, ok bool) {
	if t == base {
		return tInt(0), tLen(t), true
	}
	if t.Op == "subrange" && t.Args[0] == base {
		return t.Args[1], tSub(t.Args[2], t.Args[1]), true
	}
	return nil, nil, false
}

// diff compares an actual value at a back edge with the head value; it records what varies.
func (e *Engine) diff(st *State, h *loopHead, sh *loopShape, id string, hv, av Value) bool {
	isSym := func(t *Term) bool {
		if t.Op == "cast" {
			t = t.Args[0]
		}
		return t.Op == "var" && h.isSym(t)
	}
	set := func(k string) bool {
		if sh.chg[k] {
			return false
		}
		sh.chg[k] = true
		return true
	}
	leaf := func(a, b *Term) bool {
		if a == b || isSym(a) {
			return false
		}
		return set(id)
	}
	switch x := hv.(type) {
	case VInt:
		if y, ok := av.(VInt); ok {
			return leaf(x.T, y.T)
		}
	case VBool:
		if y, ok := av.(VBool); ok {
			return leaf(x.T, y.T)
		}
	case VErr:
		if y, ok := av.(VErr); ok {
			return leaf(x.T, y.T)
		}
	case VStr:
		if y, ok := av.(VStr); ok {
			if !sh.chg[id] && x.T != y.T {
				base, off, n := strBase(x.T)
				if yo, yn, ok := strWindow(base, y.T); ok {
					ch := false
					if off != yo && !isSym(off) {
						ch = set(id+"#off") || ch
					}
					if n != yn && !isSym(n) {
						ch = set(id+"#len") || ch
					}
					return ch
				}
			}
			return leaf(x.T, y.T)
		}
	case VFlt:
		if y, ok := av.(VFlt); ok {
			return leaf(x.T, y.T)
		}
	case VOpq:
		if y, ok := av.(VOpq); ok {
			return leaf(x.T, y.T)
		}
	case VArr:
		if y, ok := av.(VArr); ok {
			return leaf(x.T, y.T)
		}
	case VSlice:
		y, ok := av.(VSlice)
		if !ok {
			break
		}
		ch := false
		if h.bobj[id] != nil {
			f := flagsOf(st.get(y.Obj))
			if y.Nil == tTrue {
				f = ObjState{}
			}
			nf := orFlags(sh.flags[id], f)
			if !eqFlags(nf, sh.flags[id]) {
				sh.flags[id] = nf
				ch = true
			}
			if x.Nil == tFalse && y.Nil != tFalse {
				ch = set(id+"#nil") || ch
			}
			// groups
			for _, m := range st.members(st.get(y.Obj).Group) {
				if h.pre[m] && h.st.get(m).Group != h.st.get(h.bobj[id]).Group {
					ch = e.addMerge(h, sh, id, m) || ch
				}
			}
			return ch
		}
		if x.Obj != y.Obj {
			return set(id + "#B")
		}
		if x.Off != y.Off && !isSym(x.Off) {
			ch = set(id+"#off") || ch
		}
		if x.Len != y.Len && !isSym(x.Len) {
			ch = set(id+"#len") || ch
		}
		if x.Nil != y.Nil && !isSym(x.Nil) {
			ch = set(id+"#nil") || ch
		}
		if x.Cap != nil && (y.Cap == nil || tAdd(x.Off, x.Cap) != tAdd(y.Off, y.Cap)) {
			ch = set(id+"#cap") || ch
		}
		return ch
	case VPtr:
		y, ok := av.(VPtr)
		if !ok {
			break
		}
		if h.bcell[id] != nil && e.opaqueCell(st, y) != nil {
			if x.Nil == tFalse && y.Nil != tFalse {
				return set(id + "#nil")
			}
			return false
		}
		if x.A.Obj == y.A.Obj && x.A.Path == y.A.Path {
			if x.Nil != y.Nil && !isSym(x.Nil) {
				return set(id + "#nil")
			}
			return false
		}
		return set(id + "#bad")
	case VStruct:
		y, ok := av.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			break
		}
		ch := false
		for i := range x.F {
			ch = e.diff(st, h, sh, fmt.Sprintf("%s.%d", id, i), x.F[i], y.F[i]) || ch
		}
		return ch
	case VBad:
		return false
	}
	if valueEq(hv, av) {
		return false
	}
	return set(id + "#bad")
}

// opaqueCell is what a pointer to a value of a dependency points to.
func (e *Engine) opaqueCell(st *State, p VPtr) *VOpq {
	if p.A.Obj == nil || len(p.A.S) != 0 {
		return nil
	}
	s := st.get(p.A.Obj)
	if s == nil {
		return nil
	}
	if v, ok := s.V.(VOpq); ok {
		return &v
	}
	return nil
}

func (h *loopHead) isSym(v *Term) bool {
	for _, s := range h.syms {
		if s.v == v {
			return true
		}
	}
	return false
}

func (e *Engine) addMerge(h *loopHead, sh *loopShape, a string, o *Obj) bool {
	b := h.ids[o]
	if b == "" {
		return false
	}
	k := a + "|" + b
	if a == b || sh.merges[k] {
		return false
	}
	sh.merges[k] = true
	return true
}

// bind maps head symbols to the terms of an actual value.
func (e *Engine) bind(st *State, h *loopHead, id string, hv, av Value, m map[*Term]*Term) bool {
	put := func(s, t *Term) bool {
		if s == t {
			return true
		}
		srt := s.Sort
		if s.Op == "cast" {
			s = s.Args[0]
			srt = s.Sort
			t = tUncast(t, srt)
		}
		if s.Op == "var" && h.isSym(s) {
			m[s] = t
			return true
		}
		return s == t
	}
	switch x := hv.(type) {
	case VInt:
		y, ok := av.(VInt)
		return ok && put(x.T, y.T)
	case VBool:
		y, ok := av.(VBool)
		return ok && put(x.T, y.T)
	case VErr:
		y, ok := av.(VErr)
		return ok && put(x.T, y.T)
	case VStr:
		y, ok := av.(VStr)
		if !ok || put(x.T, y.T) {
			return ok
		}
		base, off, n := strBase(x.T)
		yo, yn, ok := strWindow(base, y.T)
		return ok && put(off, yo) && put(n, yn)
	case VFlt:
		y, ok := av.(VFlt)
		return ok && put(x.T, y.T)
	case VOpq:
		y, ok := av.(VOpq)
		return ok && put(x.T, y.T)
	case VArr:
		y, ok := av.(VArr)
		return ok && put(x.T, y.T)
	case VSlice:
		y, ok := av.(VSlice)
		if !ok {
			return false
		}
		if o := h.bobj[id]; o != nil {
			c := e.content(st, y)
			if c == nil {
				return false
			}
			m[h.st.get(o).C] = c
			return put(x.Nil, y.Nil)
		}
		if x.Obj != y.Obj {
			return false
		}
		return put(x.Off, y.Off) && put(x.Len, y.Len) && put(x.Nil, y.Nil)
	case VPtr:
		y, ok := av.(VPtr)
		if o := h.bcell[id]; ok && o != nil {
			c := e.opaqueCell(st, y)
			if c == nil {
				return false
			}
			return put(h.st.get(o).V.(VOpq).T, c.T) && put(x.Nil, y.Nil)
		}
		return ok && x.A.Obj == y.A.Obj && x.A.Path == y.A.Path && put(x.Nil, y.Nil)
	case VStruct:
		y, ok := av.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !e.bind(st, h, fmt.Sprintf("%s.%d", id, i), x.F[i], y.F[i], m) {
				return false
			}
		}
		return true
	case VBad:
		return true
	}
	return valueEq(hv, av)
}

// buildHead constructs the head state for the current shape.
func (e *Engine) buildHead(st0 *State, sh *loopShape, ps []*ssa.Phi, vs []Value, fr *Frame) *loopHead {
	h := &loopHead{st: st0.clone(), st0: st0.clone(), phis: ps, bobj: map[string]*Obj{}, bname: map[*Obj]string{}, bcell: map[string]*Obj{}, pre: map[*Obj]bool{}, names: map[string]*Obj{}, ids: map[*Obj]string{}}
	var objs []*Obj
	for o := range st0.heap {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		id := fmt.Sprintf("o%d", o.id)
		h.names[id] = o
		h.ids[o] = id
		h.pre[o] = true
		if f, ok := sh.flags[id]; ok {
			s := h.st.mut(o)
			g := orFlags(flagsOf(s), f)
			s.Ext, s.RO, s.Frozen, s.Child, s.ElemShared, s.Foreign, s.Root = g.Ext, g.RO, g.Frozen, g.Child, g.ElemShared, g.Foreign, g.Root
		}
	}
	// array contents
	for _, o := range objs {
		id := "cont:" + h.ids[o]
		if sh.chg[id] && o.arr {
			s := h.st.mut(o)
			if s.C == nil {
				continue
			}
			old := s.C
			v := e.fresh("c_"+o.name, s.C.Sort)
			h.syms = append(h.syms, &lsym{id: id, v: v, q: v, entry: old})
			s.C = v
			h.st.hyp(tEq(tLen(v), tLen(old)))
			h.st.hyp(lenHyp(v))
		}
	}
	for _, o := range objs {
		if o.arr {
			continue
		}
		id := "cell:" + h.ids[o]
		s := h.st.get(o)
		nv := e.headValue(h, sh, id, o.name, s.V, o.typ)
		if !valueEq(nv, s.V) {
			h.st.mut(o).V = nv
			h.cells = append(h.cells, o)
		}
	}
	for i, p := range ps {
		id := "phi:" + p.Name()
		h.pvals = append(h.pvals, e.headValue(h, sh, id, phiName(p), vs[i], p.Type()))
	}
	for _, o := range h.bobj {
		h.pre[o] = true
	}
	var mk []string
	for k := range sh.merges {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		ab := strings.SplitN(k, "|", 2)
		a, b := h.names[ab[0]], h.names[ab[1]]
		if a != nil && b != nil {
			h.st.merge(h.st.get(a).Group, h.st.get(b).Group)
		}
	}
	for i, p := range ps {
		h.st.loc[lkey{fr.id, p}] = h.pvals[i]
	}
	return h
}

func (e *Engine) diffState(st *State, h *loopHead, sh *loopShape, avs []Value) bool {
	ch := false
	for i, p := range h.phis {
		ch = e.diff(st, h, sh, "phi:"+p.Name(), h.pvals[i], avs[i]) || ch
	}
	for o := range h.pre {
		hs, as := h.st.get(o), st.get(o)
		id := h.ids[o]
		if o.arr {
			if hs.C != as.C && hs.C != nil && !(hs.C.Op == "var" && h.isSym(hs.C)) {
				if !sh.chg["cont:"+id] {
					sh.chg["cont:"+id] = true
					ch = true
				}
			}
		} else {
			ch = e.diff(st, h, sh, "cell:"+id, hs.V, as.V) || ch
		}
		nf := orFlags(flagsOf(hs), flagsOf(as))
		if !eqFlags(nf, flagsOf(hs)) {
			old := sh.flags[id]
			n2 := orFlags(old, flagsOf(as))
			if !eqFlags(n2, old) {
				sh.flags[id] = n2
				ch = true
			}
		}
		for _, m := range st.members(as.Group) {
			if h.pre[m] && h.st.get(m).Group != hs.Group {
				ch = e.addMerge(h, sh, id, m) || ch
			}
		}
	}
	return ch
}

func sameElem(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return valueEq(a, b)
}

// markDead marks memory that only values no longer used after the loop head point to: invariants about it are useless.
func (e *Engine) markDead(h *loopHead, fr *Frame, to *ssa.BasicBlock) {
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(to)
	live := map[*Obj]bool{}
	var mark func(v Value)
	mark = func(v Value) {
		switch x := v.(type) {
		case VSlice:
			live[x.Obj] = true
		case VPtr:
			live[x.A.Obj] = true
		case VStruct:
			for _, f := range x.F {
				mark(f)
			}
		case VIface:
			mark(x.V)
		case VFunc:
			for _, b := range x.Bind {
				mark(b)
			}
		case VTuple:
			for _, b := range x {
				mark(b)
			}
		}
	}
	for k, v := range h.st.loc {
		_, isP := k.v.(*ssa.Parameter)
		_, isF := k.v.(*ssa.FreeVar)
		if k.fr == fr.id && k.v != nil && !isP && !isF && k.v.Referrers() != nil {
			used := false
			for _, r := range *k.v.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				if p, ok := r.(*ssa.Phi); ok && p.Block() == to {
					// only what arrives over a back edge counts
					for i, ed := range p.Edges {
						if ed == k.v && reach[to.Preds[i]] {
							used = true
						}
					}
					continue
				}
				if reach[r.Block()] {
					used = true
				}
			}
			if !used {
				continue
			}
		}
		mark(v)
	}
	for o := range h.st.heap {
		if s := h.st.get(o); s != nil && s.V != nil {
			mark(s.V)
		}
	}
	for _, s := range h.syms {
		if strings.HasPrefix(s.id, "cont:") {
			if o := h.names[s.id[5:]]; o != nil && !live[o] {
				s.dead = true
			}
		}
	}
}

type candInst struct {
	c   *Cand
	t   *Term // over head symbols
	key string
}

func (e *Engine) enterLoop(st *State, fr *Frame, from, to *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) {
	ps, vs := e.phiVals(st, fr, from, to)
	sh := &loopShape{chg: map[string]bool{}, flags: map[string]ObjState{}, merges: map[string]bool{}}
	loopKey := fmt.Sprintf("%s@%d", fr.tag, to.Index)
	var h *loopHead
	var guards []*Term
	var strides map[*Term]*Term // symbol -> back value (last dry path), nil if several
	stable := false
	for it := 0; it < 14 && !stable; it++ {
		headNo := e.f.nvar
		h = e.buildHead(st, sh, ps, vs, fr)
		base := e.f.nvar
		_ = headNo
		d := h.st.clone()
		nhyp := 0
		if d.steps != nil {
			nhyp = d.steps.depth
		}
		changed := false
		guards = nil
		strides = map[*Term]*Term{}
		bad := map[*Term]bool{}
		ctx := &LoopCtx{hdr: to, blocks: set}
		ctx.onBack = func(s *State, fr2 *Frame, pred *ssa.BasicBlock) {
			_, avs := e.phiVals(s, fr2, pred, to)
			if e.diffState(s, h, sh, avs) {
				changed = true
			}
			m := map[*Term]*Term{}
			for i, p := range h.phis {
				e.bind(s, h, "phi:"+p.Name(), h.pvals[i], avs[i], m)
			}
			for k, v := range m {
				if o, ok := strides[k]; ok && o != v {
					bad[k] = true
				}
				strides[k] = v
			}
			for p := s.steps; p != nil && p.depth > nhyp; p = p.prev {
				if p.kind != "hyp" {
					continue
				}
				ts := []*Term{p.t}
				if p.t.Op == "and" {
					ts = p.t.Args
				}
				for _, t := range ts {
					fv := map[*Term]bool{}
					freeVars(t, fv)
					ok := false
					for v := range fv {
						if varNo[v] > base {
							ok = false
							break
						}
						if h.isSym(v) {
							ok = true
						}
					}
					for v := range fv {
						if varNo[v] > base {
							ok = false
						}
					}
					if ok {
						guards = append(guards, t)
					}
				}
			}
		}
		fr2 := *fr
		fr2.stop = ctx
		fr2.loops = map[*ssa.BasicBlock]*LoopCtx{}
		for k, v := range fr.loops {
			fr2.loops[k] = v
		}
		fr2.loops[to] = ctx
		e.dry++
		lv := e.f.leaves
		e.exec(d, &fr2, to, e.firstNonPhi(to))
		e.f.leaves = lv
		e.dry--
		for k := range bad {
			delete(strides, k)
		}
		stable = !changed
	}
	if !stable {
		e.fail(st, "unsupported", "loop state does not stabilise", token.NoPos)
		return
	}
	e.markDead(h, fr, to)
	for _, y := range h.syms {
		if y.v != nil && y.q.Sort == "int" {
			if b, ok := strides[y.v]; ok {
				to := []*Term{tCast(b)}
				if to[0].Op == "ite" { // unless it wraps around
					to = to[0].Args[1:]
				}
				for _, t := range to {
					if d := tSub(t, y.q); d.isConst() && d.Num.CmpAbs(big.NewInt(64)) <= 0 {
						y.step = d.Num.Sign()
					}
				}
			}
		}
	}
	cands := e.candidates(h, loopKey, guards, strides)
	pos := token.NoPos
	for _, in := range to.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	// entry
	em := map[*Term]*Term{}
	for _, s := range h.syms {
		if s.v != nil {
			t := s.entry
			if _, _, ok := machRange(s.v.Sort); ok {
				t = tUncast(t, s.v.Sort)
			}
			em[s.v] = t
		}
	}
	var live []candInst
	if e.dry == 0 {
		for _, c := range cands {
			if e.disabled[c.c.Key] {
				continue
			}
			if !c.c.Measure {
				e.obC(st, "invariant", "loop invariant on entry: "+c.c.Desc, pos, substTerm(c.t, em), c.c)
				if st.dead {
					return
				}
			}
			live = append(live, c)
		}
		e.finish(st)
	}
	// head: keep the facts proved before the loop
	hs := h.st
	if e.dry == 0 {
		hs = h.rebase(st)
		hs.heads = st.heads + 1
		hs.outer = append([]*lsym{}, st.outer...)
		for _, y := range h.syms {
			if !y.dead && y.v != nil {
				n := *y
				n.id = loopKey + ":" + y.id
				hs.outer = append(hs.outer, &n)
			}
		}
		for _, c := range live {
			if !c.c.Measure {
				hs.hyp(c.t)
			}
		}
		e.loopHints(hs, e.f.c.HintLoop, h.syms, nil, st.outer)
	}
	ctx := &LoopCtx{hdr: to, blocks: set}
	ctx.onBack = func(s *State, fr2 *Frame, pred *ssa.BasicBlock) {
		if e.dry > 0 {
			return
		}
		_, avs := e.phiVals(s, fr2, pred, to)
		m := map[*Term]*Term{}
		for i, p := range h.phis {
			if !e.bind(s, h, "phi:"+p.Name(), h.pvals[i], avs[i], m) {
				e.fail(s, "unsupported", "loop-carried value "+phiName(p), pos)
				return
			}
		}
		for o := range h.pre {
			hst, as := h.st.get(o), s.get(o)
			ok := true
			if o.arr {
				// memory made for a loop-carried slice is only known through that slice, which is bound by itself
				if h.bname[o] != "" {
					continue
				}
				for i := range hst.Elems {
					if !sameElem(hst.Elems[i], as.Elems[i]) {
						ok = false
					}
				}
				if hst.C != as.C {
					if hst.C != nil && hst.C.Op == "var" && h.isSym(hst.C) {
						m[hst.C] = as.C
					} else {
						ok = false
					}
				}
			} else {
				ok = e.bind(s, h, "cell:"+h.ids[o], hst.V, as.V, m)
			}
			if !ok {
				e.fail(s, "unsupported", "memory changed by the loop ("+o.name+")", pos)
				return
			}
		}
		bs := make([]*lsym, len(h.syms))
		for i, y := range h.syms {
			n := *y
			n.q = substTerm(y.q, m)
			bs[i] = &n
		}
		e.loopHints(s, e.f.c.HintBack, h.syms, bs, st.outer)
		for _, c := range live {
			if c.c.Measure {
				a, b := c.t, substTerm(c.t, m)
				e.obC(s, "termination", "loop measure decreases: "+c.c.Desc, pos, tAnd(tLe(tInt(0), a), tLt(b, a)), c.c)
			} else {
				e.obC(s, "invariant", "loop invariant preserved: "+c.c.Desc, pos, substTerm(c.t, m), c.c)
			}
			if s.dead {
				return
			}
		}
		hasMeasure := false
		for _, c := range live {
			if c.c.Measure {
				hasMeasure = true
			}
		}
		if !hasMeasure {
			e.fail(s, "termination", "loop terminates (no measure decreases)", pos)
			return
		}
		e.finish(s)
	}
	old := fr.loops[to]
	fr.loops[to] = ctx
	e.exec(hs, fr, to, e.firstNonPhi(to))
	fr.loops[to] = old
}

// rebase gives the head state with the path of st (facts and obligations) in front of the head's own facts.
func (h *loopHead) rebase(st *State) *State {
	n := h.st.clone()
	var own []*PStep
	sd := -1
	if st.steps != nil {
		sd = st.steps.depth
	}
	_ = sd
	// steps added to h.st after cloning
	common := map[*PStep]bool{}
	for p := st.steps; p != nil; p = p.prev {
		common[p] = true
	}
	for p := h.st.steps; p != nil && !common[p]; p = p.prev {
		own = append(own, p)
	}
	n.steps = st.steps
	n.hyps = map[*Term]bool{}
	for k := range st.hyps {
		n.hyps[k] = true
	}
	for i := len(own) - 1; i >= 0; i-- {
		p := own[i]
		if p.kind == "hyp" {
			n.hyp(p.t)
		}
	}
	return n
}

func (e *Engine) loopHints(st *State, hints []Tmpl, syms, back, outer []*lsym) {
	for hi, t := range hints {
		e.instTmpl(t, syms, back, outer, func(env map[string]*Term, key string) {
			for k, v := range e.f.env {
				if _, ok := env[k]; !ok {
					env[k] = v
				}
			}
			txt, args, err := substArgs(t.Text, env)
			if err != nil {
				return
			}
			st.hint(txt, fmt.Sprintf("h%d:%s", hi, key), args...)
		})
	}
}

type quant struct {
	id    string
	q     *Term
	entry *Term
	back  *Term
}

func (e *Engine) quantities(syms, back []*lsym) []quant {
	var r []quant
	for i, s := range syms {
		if strings.HasPrefix(s.id, "cont:") && (s.dead || s.entry != nil && isC(tLen(s.entry), 0)) {
			continue
		}
		q := quant{id: s.id, q: s.q, entry: s.entry}
		if back != nil {
			q.back = back[i].q
		}
		if s.q.Sort == "int" && s.entry != nil && isC(s.entry, -1) && strings.HasPrefix(s.id, "phi:") {
			q.q = tAddK(q.q, 1)
			q.entry = tInt(0)
			if q.back != nil {
				q.back = tAddK(q.back, 1)
			}
			q.id += "+1"
		}
		r = append(r, q)
		// counted from where it started
		if s.q.Sort == "int" && s.step != 0 && s.entry != nil && strings.HasPrefix(s.id, "phi:") && !isC(s.entry, -1) && !isC(s.entry, 0) && (s.step < 0 || s.entry.isConst()) {
			from := func(t *Term) *Term {
				if t == nil {
					return nil
				}
				if s.step < 0 {
					return tSub(s.entry, t)
				}
				return tSub(t, s.entry)
			}
			// kept for a second attempt: more candidates are not free
			if !e.derive[e.f.key] {
				e.hasDerived[e.f.key] = true
				continue
			}
			d := quant{id: s.id + "-0", q: from(s.q), entry: tInt(0)}
			if back != nil {
				d.back = from(back[i].q)
			}
			r = append(r, d)
		}
	}
	return r
}

func stripNames(id string) string { return id }

// instTmpl enumerates assignments of loop quantities to the variables of a template.
// $x is the value at the head (or back edge), $x0 at entry, $x_h the head value inside back hints.
func (e *Engine) instTmpl(t Tmpl, syms, back, outer []*lsym, f func(env map[string]*Term, key string)) {
	qs := e.quantities(syms, back)
	used := make([]bool, len(qs))
	env := map[string]*Term{}
	count := 0
	var rec func(i int, key string)
	rec = func(i int, key string) {
		if count > 400 {
			return
		}
		if i == len(t.Vars) {
			count++
			c := map[string]*Term{}
			for k, v := range env {
				c[k] = v
			}
			f(c, key)
			return
		}
		v := t.Vars[i]
		if strings.HasPrefix(v.Sort, "suffix(") {
			// what is left of a parameter: a window that moves, or everything from an index on
			x := e.f.env[v.Sort[7:len(v.Sort)-1]]
			if x == nil {
				return
			}
			suf := func(t *Term) *Term {
				if t == nil || t.Sort == x.Sort {
					return t
				}
				return tSub3(x, t, tLen(x))
			}
			for k, q := range qs {
				if used[k] || q.q.Sort != "int" && q.q.Sort != x.Sort {
					continue
				}
				used[k] = true
				if back != nil {
					env[v.Name], env[v.Name+"_h"] = suf(q.back), suf(q.q)
				} else {
					env[v.Name] = suf(q.q)
				}
				env[v.Name+"0"] = suf(q.entry)
				rec(i+1, key+"/suf:"+q.id)
				used[k] = false
			}
			return
		}
		if strings.HasPrefix(v.Sort, "outer(") {
			// a quantity of an enclosing loop
			for _, q := range outer {
				if q.q.Sort == v.Sort[6:len(v.Sort)-1] {
					env[v.Name], env[v.Name+"_h"], env[v.Name+"0"] = q.q, q.q, q.entry
					rec(i+1, key+"/out:"+q.id)
				}
			}
			return
		}
		for k, q := range qs {
			if used[k] || q.q.Sort != v.Sort {
				continue
			}
			used[k] = true
			if back != nil {
				env[v.Name] = q.back
				env[v.Name+"_h"] = q.q
			} else {
				env[v.Name] = q.q
			}
			env[v.Name+"0"] = q.entry
			rec(i+1, key+"/"+q.id)
			used[k] = false
		}
	}
	rec(0, "")
}

func (e *Engine) candidates(h *loopHead, loopKey string, guards []*Term, strides map[*Term]*Term) []candInst {
	var res []candInst
	seen := map[*Term]bool{}
	add := func(t *Term, key, desc string, measure bool) {
		if t == tTrue {
			return
		}
		if !measure {
			if seen[t] || h.st.hyps[t] {
				return
			}
			seen[t] = true
		}
		k := e.f.key + "|" + loopKey + "|" + key
		c := e.f.cands[k]
		if c == nil {
			c = &Cand{Key: k, Loop: loopKey, Measure: measure, Desc: desc}
			e.f.cands[k] = c
		}
		res = append(res, candInst{c: c, t: t, key: k})
	}
	// integer quantities
	type iq struct {
		id       string
		q, entry *Term
		step     *big.Int
	}
	var ints []iq
	bm := strides
	for _, s := range h.syms {
		if s.q.Sort == "int" && s.v != nil {
			i := iq{id: s.id, q: s.q, entry: s.entry}
			if b, ok := bm[s.v]; ok {
				d := tSub(tCast(b), s.q)
				if d.isConst() && d.Num.Sign() != 0 {
					i.step = d.Num
				}
			}
			ints = append(ints, i)
		}
		if strings.HasPrefix(s.q.Sort, "Seq<") && s.v != nil && !strings.HasPrefix(s.id, "cont:") {
			i := iq{id: s.id + "#L", q: tLen(s.q), entry: tLen(s.entry)}
			if b, ok := bm[s.v]; ok {
				d := tSub(tLen(b), tLen(s.v))
				if d.isConst() && d.Num.Sign() != 0 {
					i.step = d.Num
				}
			}
			ints = append(ints, i)
		}
	}
	for _, i := range ints {
		add(tLe(i.entry, i.q), "ge:"+i.id, fmt.Sprintf("%s >= entry", i.id), false)
		add(tLe(i.q, i.entry), "le:"+i.id, fmt.Sprintf("%s <= entry", i.id), false)
	}
	// comparisons that involve memory contents or large constants are never useful bounds
	plain := func(g *Term) bool {
		ok := true
		var rec func(t *Term)
		rec = func(t *Term) {
			switch t.Op {
			case "index", "ite", "app", "raw":
				// fine when it stays the same during the loop
				fv := map[*Term]bool{}
				freeVars(t, fv)
				for v := range fv {
					if h.isSym(v) {
						ok = false
					}
				}
				return
			}
			for _, a := range t.Args {
				rec(a)
			}
			if t.lin != nil {
				for _, a := range t.lin.at {
					rec(a)
				}
			}
		}
		rec(g)
		if g.Op == "le" || g.Op == "lt" {
			d := tSub(g.Args[0], g.Args[1])
			if d.lin != nil && len(d.lin.at) == 1 && d.lin.c.CmpAbs(big.NewInt(128)) > 0 {
				ok = false
			}
		}
		return ok
	}
	for gi, g := range guards {
		if len(guards) > 60 && gi > 60 {
			break
		}
		if !plain(g) {
			continue
		}
		mk := func(a, b *Term, strict bool) {
			k := fmt.Sprintf("g%s<%s", canonKey(a, h), canonKey(b, h))
			add(tLe(a, b), k, a.String()+" <= "+b.String(), false)
			add(tLe(a, tAddK(b, 1)), k+"+1", a.String()+" <= "+b.String()+"+1", false)
		}
		switch g.Op {
		case "le", "lt":
			mk(g.Args[0], g.Args[1], g.Op == "lt")
			add(tSub(g.Args[1], g.Args[0]), "m:"+canonKey(tSub(g.Args[1], g.Args[0]), h), g.Args[1].String()+" - "+g.Args[0].String(), true)
			add(tAddK(tSub(g.Args[1], g.Args[0]), 1), "m1:"+canonKey(tSub(g.Args[1], g.Args[0]), h), g.Args[1].String()+" - "+g.Args[0].String(), true)
		case "not":
			if a := g.Args[0]; a.Op == "eq" && a.Args[0].Sort == "int" {
				mk(a.Args[0], a.Args[1], true)
				mk(a.Args[1], a.Args[0], true)
				add(tSub(a.Args[1], a.Args[0]), "m:"+canonKey(tSub(a.Args[1], a.Args[0]), h), "difference", true)
				add(tSub(a.Args[0], a.Args[1]), "m:"+canonKey(tSub(a.Args[0], a.Args[1]), h), "difference", true)
			}
		}
	}
	for i, a := range ints {
		if a.step == nil {
			continue
		}
		st := new(big.Int).Abs(a.step)
		if st.Cmp(big.NewInt(1)) > 0 {
			add(tEq(tMod(tSub(a.q, a.entry), tBig(st)), tInt(0)), "mod:"+a.id, a.id+" stride", false)
		}
		for _, b := range ints[i+1:] {
			if b.step == nil {
				continue
			}
			// b.step*(a-a0) == a.step*(b-b0)
			add(tEq(tMul(tBig(b.step), tSub(a.q, a.entry)), tMul(tBig(a.step), tSub(b.q, b.entry))), "lin:"+a.id+":"+b.id, a.id+" and "+b.id+" move together", false)
		}
	}
	for _, i := range ints {
		add(i.q, "mq:"+i.id, i.id, true)
	}
	// windows: off + len stays constant
	for _, a := range ints {
		for _, b := range ints {
			if strings.HasSuffix(a.id, "#off") && b.id == strings.TrimSuffix(a.id, "#off")+"#len" {
				add(tEq(tAdd(a.q, b.q), tAdd(a.entry, b.entry)), "win:"+a.id, "window end fixed", false)
			}
		}
	}
	// contract templates
	do := func(ts []Tmpl, measure bool, pfx string) {
		for ti, t := range ts {
			srt := "bool"
			if measure {
				srt = "int"
			}
			e.instTmpl(t, h.syms, nil, h.st.outer, func(env map[string]*Term, key string) {
				for k, v := range e.f.env {
					if _, ok := env[k]; !ok {
						env[k] = v
					}
				}
				r, err := substRaw(t.Text, srt, env)
				if err != nil {
					e.f.badMsg = append(e.f.badMsg, err.Error())
					return
				}
				add(r, fmt.Sprintf("%s%d:%s", pfx, ti, key), t.Text+" ["+key+"]", measure)
			})
		}
	}
	do(e.f.c.Measures, true, "tm")
	do(e.f.tmpls, false, "t")
	return res
}

// canonKey prints a term with head symbols named by their identifiers, so that keys are stable between rounds.
func canonKey(t *Term, h *loopHead) string {
	n := map[*Term]string{}
	for _, s := range h.syms {
		if s.v != nil {
			n[s.v] = s.id
		}
	}
	s := (&printer{names: n}).str(t)
	// drop numbering of other variables
	return s
}
