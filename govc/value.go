package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type VInt struct{ T *Term }
type VBool struct{ T *Term }
type VStr struct{ T *Term }
type VSlice struct {
	Obj                *Obj
	Off, Len, Cap, Nil *Term
}
type VPtr struct {
	A   Addr
	Nil *Term
}
type VStruct struct {
	Typ types.Type
	F   []Value
}
type VArr struct {
	T    *Term
	Elem types.Type
	N    int64
}
type VOpq struct {
	T    *Term
	Kind string
}
type VErr struct{ T *Term }
type VIface struct {
	V   Value
	Typ types.Type
	Nil *Term
}
type VFunc struct {
	Fn   *ssa.Function
	Bind []Value
}
type VTuple []Value
type VMap struct{ G *ssa.Global }
type VFlt struct{ T *Term }

// VBad is the result of something unsupported: using it fails an obligation.
type VBad struct{ Why string }

type Step struct {
	K string // field, index, deref
	N int
	I *Term
}
type Addr struct {
	Obj  *Obj
	Path string // canonical key
	S    []Step
}

func (a Addr) add(s Step) Addr {
	n := Addr{Obj: a.Obj, S: append(append([]Step{}, a.S...), s)}
	n.Path = a.Path
	switch s.K {
	case "field":
		n.Path += fmt.Sprintf(".%d", s.N)
	case "index":
		n.Path += fmt.Sprintf("[%d]", s.I.id)
	case "deref":
		n.Path += "*"
	}
	return n
}

type Obj struct {
	id    int
	name  string
	arr   bool
	elem  string     // element sort (arrays)
	elemT types.Type // element Go type
	typ   types.Type // cell type
	inpl  bool       // elements of a parameter a contract lets the function replace (inplace)
}

type ObjState struct {
	V          Value
	C          *Term
	Elems      []Value // interface element arrays (variadic args)
	Ext        bool    // memory not allocated by this activation
	Root       string  // owning parameter, for Ext memory
	RO         bool    // never writable (globals, views)
	Frozen     bool    // its content was captured in a container
	Child      bool    // something was appended to (a slice of) it
	ElemShared bool
	Group      int
	Inner      bool // a value behind a pointer in the caller's data, which other data may point to as well
	Foreign    bool // contains element memory that belongs to someone else
}

func valueEq(a, b Value) bool {
	switch x := a.(type) {
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !valueEq(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x.A.Obj == y.A.Obj && x.A.Path == y.A.Path && x.Nil == y.Nil
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !valueEq(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valueEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case VIface:
		y, ok := b.(VIface)
		return ok && x.Nil == y.Nil && x.Typ == y.Typ && valueEq(x.V, y.V)
	case nil:
		return b == nil
	}
	return a == b
}

// ---- path steps

type PStep struct {
	prev  *PStep
	depth int
	kind  string // hyp, ob, hint
	t     *Term
	text  string // hint text with placeholders (raw)
	args  []*Term
	ob    *Oblig
	owned bool
	hkey  string
}

type Oblig struct {
	Fn   string
	Kind string
	Desc string
	Pos  string
	T    *Term
	Cand *Cand
	Key  string
	// filled by the driver
	Line   int
	Status string
}

type State struct {
	loc   map[lkey]Value
	heap  map[*Obj]*ObjState
	steps *PStep
	hyps  map[*Term]bool
	dead  bool
	heads int
	outer []*lsym // quantities of the loops around
}

type lkey struct {
	fr int
	v  ssa.Value
}

func (s *State) clone() *State {
	n := &State{loc: make(map[lkey]Value, len(s.loc)+8), heap: make(map[*Obj]*ObjState, len(s.heap)+4), steps: s.steps, hyps: make(map[*Term]bool, len(s.hyps)+4), dead: s.dead, heads: s.heads, outer: s.outer}
	for k, v := range s.loc {
		n.loc[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.hyps {
		n.hyps[k] = v
	}
	return n
}

func (s *State) get(o *Obj) *ObjState { return s.heap[o] }
func (s *State) mut(o *Obj) *ObjState {
	n := *s.heap[o]
	s.heap[o] = &n
	return &n
}

func (s *State) hyp(t *Term) {
	if t == tTrue || t == nil {
		return
	}
	if t == tFalse || s.hyps[tNot(t)] {
		s.dead = true
	}
	if s.hyps[t] {
		return
	}
	s.hyps[t] = true
	if t.Op == "and" {
		for _, a := range t.Args {
			if a == tFalse || s.hyps[tNot(a)] {
				s.dead = true
			}
			s.hyps[a] = true
		}
	}
	if t.Op == "not" && t.Args[0].Op == "or" {
		for _, a := range t.Args[0].Args {
			s.hyps[tNot(a)] = true
		}
	}
	d := 0
	if s.steps != nil {
		d = s.steps.depth + 1
	}
	s.steps = &PStep{prev: s.steps, depth: d, kind: "hyp", t: t}
}

// known gives the constant a hypothesis says the term is equal to.
func (s *State) known(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if t.Sort != "int" {
		return nil
	}
	var best *Term
	for h := range s.hyps {
		if h.Op != "eq" {
			continue
		}
		for i := range h.Args {
			if h.Args[i] == t && h.Args[1-i].isConst() && (best == nil || h.Args[1-i].id < best.id) {
				best = h.Args[1-i]
			}
		}
	}
	return best
}

// decide rewrites a condition with the equalities "length = constant" among the hypotheses.
// It only chooses which way to execute: a condition decided this way follows from the hypotheses.
func (s *State) decide(c *Term) *Term {
	m := map[*Term]*Term{}
	for h := range s.hyps {
		if h.Op != "eq" {
			continue
		}
		for i := range h.Args {
			t, k := h.Args[i], h.Args[1-i]
			if t.Op == "len" && k.isConst() && (m[t] == nil || k.id < m[t].id) {
				m[t] = k
			}
		}
	}
	if len(m) == 0 {
		return c
	}
	return substTerm(c, m)
}

func (s *State) hint(text string, key string, args ...*Term) {
	d := 0
	if s.steps != nil {
		d = s.steps.depth + 1
	}
	s.steps = &PStep{prev: s.steps, depth: d, kind: "hint", text: text, args: args, hkey: key}
}
