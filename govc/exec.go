package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxLenText = 1 << 44

var tMaxLen = tInt(maxLenText)
var varNo = map[*Term]int{}

type VC struct {
	Fn    string
	Steps []*PStep
	Name  string
	heads int // loop heads passed
}

type Cand struct {
	Key     string
	Loop    string
	Measure bool
	Desc    string
}

type FnCtx struct {
	bind    []Value
	key     string
	fn      *ssa.Function
	c       *Contract
	env     map[string]*Term // entry names
	vcs     []*VC
	obs     []*Oblig
	cands   map[string]*Cand
	nvar    int
	nobj    int
	nframe  int
	leaves  int
	usedC   map[string]bool // contracts used
	inlined map[string]bool
	heads   []*VC // smoke: path prefixes that must not be contradictory
	loops   map[string]bool
	badMsg  []string
	tmpls   []Tmpl
	rounds  int
	failed  []*Oblig
}

type Engine struct {
	prog       *ssa.Program
	contracts  map[string]*Contract
	byKey      map[string]*ssa.Function
	noContr    map[string]bool // helper contracts dropped: inline instead
	disabled   map[string]bool // candidate keys
	derive     map[string]bool // functions whose loops also get derived quantities
	hasDerived map[string]bool // functions that would have some
	f          *FnCtx
	dry        int
	loopsOf    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	mapsUsed   map[string]*ssa.Global
	funcsUsed  map[string]bool
	inlineStk  []*ssa.Function
	gstores    map[*ssa.Global]int
	allFns     []*ssa.Function
	globalInvs []Tmpl
}

type Frame struct {
	id    int
	fn    *ssa.Function
	bind  []Value
	ret   func(*State, []Value)
	loops map[*ssa.BasicBlock]*LoopCtx
	stop  *LoopCtx // dry run: leaving this loop ends the path
	tag   string
}

type LoopCtx struct {
	hdr    *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	onBack func(st *State, fr *Frame, pred *ssa.BasicBlock)
}

func (e *Engine) fresh(hint, srt string) *Term {
	e.f.nvar++
	t := tVar(fmt.Sprintf("%s_%d", sanitize(hint), e.f.nvar), srt)
	varNo[t] = e.f.nvar
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if isIdChar(s[i]) && s[i] != '$' {
			sb.WriteByte(s[i])
		} else {
			sb.WriteByte('_')
		}
	}
	r := sb.String()
	if r == "" {
		r = "v"
	}
	return "v" + r
}

func (e *Engine) newObj(st *State, name string, os *ObjState) *Obj {
	e.f.nobj++
	o := &Obj{id: e.f.nobj, name: name}
	os.Group = o.id
	st.heap[o] = os
	return o
}

func (e *Engine) newArr(st *State, name string, elemT types.Type, elem string, c *Term) *Obj {
	o := e.newObj(st, name, &ObjState{C: c})
	o.arr = true
	o.elem = elem
	o.elemT = elemT
	return o
}
func (e *Engine) newCell(st *State, name string, typ types.Type, v Value) *Obj {
	o := e.newObj(st, name, &ObjState{V: v})
	o.typ = typ
	return o
}

// ---- obligations

func (e *Engine) ob(st *State, kind, desc string, pos token.Pos, goal *Term) {
	e.obC(st, kind, desc, pos, goal, nil)
}
func (e *Engine) obC(st *State, kind, desc string, pos token.Pos, goal *Term, c *Cand) {
	if st.dead {
		return
	}
	if goal == tTrue {
		if c == nil && e.dry == 0 {
			e.f.trivial(kind)
		}
		return
	}
	if st.hyps[goal] {
		return
	}
	if e.dry > 0 {
		st.hyp(goal)
		return
	}
	p := ""
	if pos.IsValid() {
		ps := e.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir+"/"), ps.Line)
	}
	o := &Oblig{Fn: e.f.key, Kind: kind, Desc: desc, Pos: p, T: goal, Cand: c}
	d := 0
	if st.steps != nil {
		d = st.steps.depth + 1
	}
	st.steps = &PStep{prev: st.steps, depth: d, kind: "ob", t: goal, ob: o}
	if goal == tFalse && c != nil {
		// a wrong candidate: the others are judged in the same round
		return
	}
	st.hyps[goal] = true
	if goal == tFalse {
		st.dead = true
		e.finish(st)
	}
}

var trivialCount = map[string]int{}

func (f *FnCtx) trivial(kind string) { trivialCount[f.key]++ }

func (e *Engine) fail(st *State, kind, desc string, pos token.Pos) {
	e.ob(st, kind, desc, pos, tFalse)
}

// finish ends a path.
func (e *Engine) finish(st *State) {
	if e.dry > 0 {
		return
	}
	n := 0
	var steps []*PStep
	for s := st.steps; s != nil; s = s.prev {
		steps = append(steps, s)
	}
	for i, j := 0, len(steps)-1; i < j; i, j = i+1, j-1 {
		steps[i], steps[j] = steps[j], steps[i]
	}
	last := -1
	for i, s := range steps {
		if s.kind == "ob" && !s.owned {
			n++
			last = i
		}
	}
	if n == 0 {
		return
	}
	vc := &VC{Fn: e.f.key, heads: st.heads}
	for i, s := range steps {
		if i > last {
			break
		}
		if s.kind == "ob" && s.owned {
			vc.Steps = append(vc.Steps, &PStep{kind: "hyp", t: s.t})
			continue
		}
		if s.kind == "ob" {
			s.owned = true
			e.f.obs = append(e.f.obs, s.ob)
		}
		vc.Steps = append(vc.Steps, s)
	}
	vc.Name = fmt.Sprintf("vc_%s_%d", mangle(e.f.key), len(e.f.vcs))
	e.f.vcs = append(e.f.vcs, vc)
}

func mangle(s string) string {
	s = strings.ReplaceAll(s, "$", "_S_")
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if isIdChar(s[i]) {
			sb.WriteByte(s[i])
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// ---- memory

func (e *Engine) content(st *State, s VSlice) *Term {
	o := st.get(s.Obj)
	if o.C == nil {
		return nil
	}
	return tSub3(o.C, s.Off, tAdd(s.Off, s.Len))
}

func (e *Engine) freshSlice(st *State, name string, elemT types.Type, c *Term) VSlice {
	es := elemSort(c.Sort)
	o := e.newArr(st, name, elemT, es, c)
	return VSlice{Obj: o, Off: tInt(0), Len: tLen(c), Nil: tFalse}
}

func (e *Engine) nilSlice(st *State, elemT types.Type) Value {
	es, err := sortOf(elemT)
	if err != nil {
		return VBad{err.Error()}
	}
	o := e.newArr(st, "nil", elemT, es, tLit(es))
	return VSlice{Obj: o, Off: tInt(0), Len: tInt(0), Cap: tInt(0), Nil: tTrue}
}

func (st *State) members(g int) []*Obj {
	var r []*Obj
	for o, s := range st.heap {
		if s.Group == g {
			r = append(r, o)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (st *State) merge(a, b int) {
	if a == b {
		return
	}
	for o, s := range st.heap {
		if s.Group == b {
			n := *s
			n.Group = a
			st.heap[o] = &n
		}
	}
}

func (e *Engine) havocObj(st *State, o *Obj) {
	s := st.mut(o)
	if o.arr {
		if s.C != nil {
			l := tLen(s.C)
			s.C = e.fresh("hv", s.C.Sort)
			st.hyp(tEq(tLen(s.C), l))
		}
	}
}

// canWrite: memory this activation may write
func (e *Engine) canWrite(s *ObjState) bool {
	if s.RO {
		return false
	}
	if s.Ext {
		return s.Root != "" && e.f.c.Modifies[s.Root]
	}
	return true
}

// checkWrite checks permission to write into array object o (indexed store) and accounts for sharing.
func (e *Engine) checkWrite(st *State, o *Obj, pos token.Pos) {
	s := st.get(o)
	if !e.canWrite(s) && !(o.inpl && s.Ext && !s.RO) {
		e.fail(st, "frame", "writes memory it does not own ("+o.name+")", pos)
		return
	}
	for _, m := range st.members(s.Group) {
		ms := st.get(m)
		if m != o && o.arr && m.arr && s.C != nil && ms.C != nil && s.C.Sort != ms.C.Sort && strings.Contains(s.C.Sort, ms.C.Sort) {
			continue // o holds references to m's kind of memory; replacing references leaves that memory alone
		}
		if ms.Frozen {
			e.fail(st, "frame", "writes memory that a container still refers to", pos)
			return
		}
		if m != o {
			e.havocObj(st, m)
		}
	}
}

// deep gives the pure value of v in the current state.
func (e *Engine) deep(st *State, v Value, typ types.Type) *Term {
	switch x := v.(type) {
	case VInt:
		s, ok := intSort(typ)
		if !ok {
			s = "i64"
		}
		return tUncast(x.T, s)
	case VBool:
		return x.T
	case VStr:
		return x.T
	case VSlice:
		c := e.content(st, x)
		if c != nil && c.Op == "subrange" && c.Sort == "Seq<u8>" && isC(tSub(c.Args[2], c.Args[1]), 1) {
			// the same sequence, in the form that is equal to a literal without extensionality
			return tLit("u8", tIndex(c.Args[0], c.Args[1]))
		}
		return c
	case VPtr:
		el := typ
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			el = p.Elem()
		}
		if x.Nil == tTrue {
			s, err := sortOf(el)
			if err != nil {
				return nil
			}
			return tNone(s)
		}
		// address through an element: the slot holds the option itself
		if n := len(x.A.S); n > 0 && x.A.S[n-1].K == "deref" {
			t := e.rawAt(st, Addr{Obj: x.A.Obj, S: x.A.S[:n-1]})
			if t != nil {
				return t
			}
		}
		d := e.deep(st, e.load(st, x.A, el, token.NoPos), el)
		if d == nil {
			return nil
		}
		return tOpt(x.Nil, d)
	case VStruct:
		n, ok := x.Typ.(*types.Named)
		if !ok {
			return nil
		}
		srt, err := structSort(n)
		if err != nil {
			return nil
		}
		si := structTab[srt]
		var vals []*Term
		for i := range si.Fields {
			d := e.deep(st, x.F[si.Idx[i]], si.Typ.Field(si.Idx[i]).Type())
			if d == nil {
				return nil
			}
			vals = append(vals, d)
		}
		return tStruct(srt, si.Fields, vals)
	case VArr:
		return x.T
	case VOpq:
		return x.T
	case VErr:
		return x.T
	case VFlt:
		return x.T
	case VIface:
		if x.V == nil {
			return nil
		}
		if o, ok := x.V.(VOpq); ok {
			return o.T
		}
		return nil
	}
	return nil
}

// name term: like deep but ints stay mathematical, pointers give the pointee unless nilable
func (e *Engine) nameTerm(st *State, v Value, typ types.Type, nilable bool) *Term {
	switch x := v.(type) {
	case VInt:
		return x.T
	case VPtr:
		if nilable {
			return e.deep(st, v, typ)
		}
		p, ok := typ.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		return e.deep(st, e.load(st, x.A, p.Elem(), token.NoPos), p.Elem())
	case VIface:
		if x.V != nil && x.Typ != nil {
			return e.nameTerm(st, x.V, x.Typ, false)
		}
	}
	return e.deep(st, v, typ)
}

// wrap turns a deep term into a value.  mk creates memory for slices and pointers.
type wrapOpt struct {
	ext  bool
	root string
	ro   bool
	own  bool // fresh memory owned by the activation
	grp  int
	cap  bool
	in   bool // inside the caller's data
}

func (e *Engine) wrap(st *State, t *Term, typ types.Type, o wrapOpt, name string) Value {
	if isErrorType(typ) {
		return VErr{t}
	}
	if n, ok := typ.(*types.Named); ok && isExternalNamed(n) {
		switch n.Underlying().(type) {
		case *types.Struct, *types.Interface:
			return VOpq{t, n.String()}
		}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{tCast(t)}
		case u.Info()&types.IsBoolean != 0:
			return VBool{t}
		case u.Info()&types.IsString != 0:
			st.hyp(lenHyp(t))
			return VStr{t}
		case u.Info()&types.IsFloat != 0:
			return VFlt{t}
		}
	case *types.Slice:
		es := elemSort(t.Sort)
		ob := e.newArr(st, name, u.Elem(), es, t)
		s := st.mut(ob)
		s.Ext, s.Root, s.RO = o.ext, o.root, o.ro
		if o.grp != 0 {
			s.Group = o.grp
		}
		if o.ext {
			s.ElemShared = true
		}
		st.hyp(lenHyp(t))
		nl := tFalse
		if t.Op == "lit" && len(t.Args) == 0 || t.Op != "lit" {
			nl = e.fresh(name+"_nil", "bool")
			st.hyp(tImp(nl, tEq(tLen(t), tInt(0))))
		}
		v := VSlice{Obj: ob, Off: tInt(0), Len: tLen(t), Nil: nl}
		if o.cap {
			c := e.fresh(name+"_cap", "i64")
			v.Cap = tCast(c)
			st.hyp(tLe(v.Len, v.Cap))
			st.hyp(tLe(v.Cap, tMaxLen))
		}
		return v
	case *types.Array:
		if t.Sort == "Seq<u8>" {
			st.hyp(tEq(tLen(t), tInt(u.Len())))
		}
		return VArr{t, u.Elem(), u.Len()}
	case *types.Pointer:
		nl := tIsNone(t)
		var inner Value
		if nl == tTrue {
			inner = VBad{"nil"}
		} else {
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				es, _ := sortOf(a.Elem())
				ob := e.newArr(st, name, a.Elem(), es, tUnwrap(t))
				s := st.mut(ob)
				s.Ext, s.Root, s.RO = o.ext, o.root, o.ro
				st.hyp(tEq(tLen(tUnwrap(t)), tInt(a.Len())))
				return VPtr{A: Addr{Obj: ob}, Nil: nl}
			}
			o2 := o
			o2.in = true
			inner = e.wrap(st, tUnwrap(t), u.Elem(), o2, name)
		}
		ob := e.newCell(st, name, u.Elem(), inner)
		s := st.mut(ob)
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
			s.Inner = o.ext && o.in
		}
		s.Ext, s.Root, s.RO = o.ext, o.root, o.ro
		return VPtr{A: Addr{Obj: ob}, Nil: nl}
	case *types.Struct:
		n, ok := typ.(*types.Named)
		if !ok {
			return VBad{"anonymous struct"}
		}
		if isExternalNamed(n) {
			return VOpq{t, typ.String()}
		}
		srt, err := structSort(n)
		if err != nil {
			return VBad{err.Error()}
		}
		si := structTab[srt]
		v := VStruct{Typ: typ}
		for k := 0; k < u.NumFields(); k++ {
			f := u.Field(k)
			i := si.at(k)
			if i < 0 {
				v.F = append(v.F, e.anything(st, f.Type(), o, name+"_"+f.Name()))
				continue
			}
			v.F = append(v.F, e.wrap(st, tField(t, f.Name(), si.Sorts[i]), f.Type(), o, name+"_"+f.Name()))
		}
		return v
	case *types.Interface:
		return VOpq{t, typ.String()}
	}
	return VBad{"wrap " + typ.String()}
}

// anything: a value of which nothing is known.
func (e *Engine) anything(st *State, typ types.Type, o wrapOpt, name string) Value {
	srt, err := sortOf(typ)
	if err != nil {
		return VBad{"content of " + name}
	}
	return e.wrap(st, e.fresh(name, srt), typ, o, name)
}

// rawAt reads the term stored at an address inside an array object.
func (e *Engine) rawAt(st *State, a Addr) *Term {
	o := st.get(a.Obj)
	if o == nil || !a.Obj.arr || o.C == nil {
		return nil
	}
	t := o.C
	for _, s := range a.S {
		switch s.K {
		case "index":
			t = tIndex(t, s.I)
		case "deref":
			t = tUnwrap(t)
		case "field":
			si := structTab[t.Sort]
			if si == nil || si.at(s.N) < 0 {
				return nil
			}
			t = tField(t, si.Fields[si.at(s.N)], si.Sorts[si.at(s.N)])
		}
	}
	return t
}

func (e *Engine) load(st *State, a Addr, typ types.Type, pos token.Pos) Value {
	o := st.get(a.Obj)
	if o == nil {
		return VBad{"unknown memory"}
	}
	if a.Obj.arr {
		if len(a.S) == 0 {
			if at, ok := typ.Underlying().(*types.Array); ok {
				return VArr{o.C, at.Elem(), at.Len()}
			}
			return VBad{"load of array object"}
		}
		if o.Elems != nil {
			if i := elemIndex(o, a); i >= 0 {
				v := o.Elems[i]
				for _, s := range a.S[1:] {
					sv, ok := v.(VStruct)
					if s.K != "field" || !ok {
						return VBad{"part of an element"}
					}
					v = sv.F[s.N]
				}
				return v
			}
			return VBad{"interface element"}
		}
		t := e.rawAt(st, a)
		if t == nil {
			if n := len(a.S); n > 1 && a.S[n-1].K == "field" && e.rawAt(st, Addr{Obj: a.Obj, S: a.S[:n-1]}) != nil {
				return e.anything(st, typ, wrapOpt{ext: true, ro: true, grp: o.Group}, "unexported")
			}
			return VBad{"load"}
		}
		return e.view(st, t, typ, a)
	}
	v := o.V
	for i, s := range a.S {
		switch s.K {
		case "field":
			sv, ok := v.(VStruct)
			if !ok {
				return VBad{"field of non-struct"}
			}
			v = sv.F[s.N]
		case "index":
			av, ok := v.(VArr)
			if !ok || i != len(a.S)-1 {
				return VBad{"index of non-array"}
			}
			return e.view(st, tIndex(av.T, s.I), typ, a)
		default:
			return VBad{"path"}
		}
	}
	return v
}

// view: value of a term living inside an array object
func (e *Engine) view(st *State, t *Term, typ types.Type, a Addr) Value {
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return VPtr{A: a.add(Step{K: "deref"}), Nil: tIsNone(t)}
	case *types.Struct:
		if n, ok := typ.(*types.Named); ok && !isExternalNamed(n) {
			srt, err := structSort(n)
			if err == nil {
				si := structTab[srt]
				v := VStruct{Typ: typ}
				for k := 0; k < u.NumFields(); k++ {
					f := u.Field(k)
					i := si.at(k)
					if i < 0 {
						v.F = append(v.F, e.anything(st, f.Type(), wrapOpt{ext: true, ro: true, grp: st.get(a.Obj).Group}, f.Name()))
						continue
					}
					v.F = append(v.F, e.view(st, tField(t, f.Name(), si.Sorts[i]), f.Type(), a.add(Step{K: "field", N: k})))
				}
				return v
			}
		}
	}
	return e.wrap(st, t, typ, wrapOpt{ext: true, ro: true, grp: st.get(a.Obj).Group}, "elem")
}

func elemIndex(o *ObjState, a Addr) int {
	if len(a.S) > 0 && a.S[0].K == "index" && a.S[0].I.isConst() && a.S[0].I.Num.IsInt64() {
		if i := a.S[0].I.Num.Int64(); i >= 0 && i < int64(len(o.Elems)) {
			return int(i)
		}
	}
	return -1
}

func (e *Engine) store(st *State, a Addr, v Value, typ types.Type, pos token.Pos) {
	if _, ok := v.(VBad); ok {
		e.fail(st, "unsupported", v.(VBad).Why, pos)
		return
	}
	o := st.get(a.Obj)
	if a.Obj.arr {
		if o.Elems != nil {
			if i := elemIndex(o, a); i >= 0 && !o.RO && !o.Frozen {
				if v = e.updVal(o.Elems[i], a.S[1:], v); v != nil {
					m := st.mut(a.Obj)
					m.Elems = append([]Value{}, m.Elems...)
					m.Elems[i] = v
					return
				}
			}
			e.fail(st, "unsupported", "interface array store", pos)
			return
		}
		var d *Term
		if len(a.S) == 0 {
			av, ok := v.(VArr)
			if !ok {
				e.fail(st, "unsupported", "array store", pos)
				return
			}
			e.checkWrite(st, a.Obj, pos)
			if st.dead {
				return
			}
			st.mut(a.Obj).C = av.T
			return
		}
		d = e.capture(st, v, typ, a.Obj, pos)
		if d == nil {
			e.fail(st, "unsupported", fmt.Sprintf("store of %T", v), pos)
			return
		}
		e.checkWrite(st, a.Obj, pos)
		if st.dead {
			return
		}
		if n := len(a.S); (o.Ext || o.Foreign) && n > 2 && a.S[n-1].K == "deref" && a.S[n-2].K == "field" {
			if _, ok := typ.Underlying().(*types.Struct); !ok {
				e.fail(st, "frame", "writes through a pointer in the caller's data, which other data may share", pos)
				return
			}
		}
		m := st.mut(a.Obj)
		nc := e.updAt(m.C, a.S, d)
		if nc == nil {
			e.fail(st, "unsupported", "nested store", pos)
			return
		}
		m.C = nc
		return
	}
	if o.RO || o.Frozen {
		e.fail(st, "frame", "writes memory that is shared or read only", pos)
		return
	}
	if o.Inner && len(a.S) == 0 {
		e.fail(st, "frame", "writes through a pointer in the caller's data, which other data may share", pos)
		return
	}
	m := st.mut(a.Obj)
	nv := e.updVal(m.V, a.S, v)
	if nv == nil {
		e.fail(st, "unsupported", "store path", pos)
		return
	}
	m.V = nv
}

func (e *Engine) updAt(t *Term, p []Step, d *Term) *Term {
	if len(p) == 0 {
		return d
	}
	switch p[0].K {
	case "index":
		r := e.updAt(tIndex(t, p[0].I), p[1:], d)
		if r == nil {
			return nil
		}
		return tUpdate(t, p[0].I, r)
	case "deref":
		r := e.updAt(tUnwrap(t), p[1:], d)
		if r == nil {
			return nil
		}
		return tSome(r)
	case "field":
		si := structTab[t.Sort]
		if si == nil {
			return nil
		}
		var vals []*Term
		for i := range si.Fields {
			f := tField(t, si.Fields[i], si.Sorts[i])
			if si.Idx[i] == p[0].N {
				f = e.updAt(f, p[1:], d)
				if f == nil {
					return nil
				}
			}
			vals = append(vals, f)
		}
		return tStruct(t.Sort, si.Fields, vals)
	}
	return nil
}

func (e *Engine) updVal(cur Value, p []Step, v Value) Value {
	if len(p) == 0 {
		return v
	}
	switch p[0].K {
	case "field":
		sv, ok := cur.(VStruct)
		if !ok {
			return nil
		}
		n := e.updVal(sv.F[p[0].N], p[1:], v)
		if n == nil {
			return nil
		}
		f := append([]Value{}, sv.F...)
		f[p[0].N] = n
		return VStruct{Typ: sv.Typ, F: f}
	case "index":
		av, ok := cur.(VArr)
		if !ok || len(p) != 1 {
			return nil
		}
		iv, ok := v.(VInt)
		if !ok {
			return nil
		}
		return VArr{T: tUpdate(av.T, p[0].I, tUncast(iv.T, elemSort(av.T.Sort))), Elem: av.Elem, N: av.N}
	}
	return nil
}

// capture stores v as an element of container obj: its memory must not change any more.
func (e *Engine) capture(st *State, v Value, typ types.Type, into *Obj, pos token.Pos) *Term {
	d := e.deep(st, v, typ)
	if d == nil {
		return nil
	}
	switch v.(type) {
	case VSlice, VPtr, VStruct:
		objs, ok := e.ownedObjs(st, v)
		if !ok {
			st.mut(into).ElemShared = true
		}
		for _, o := range objs {
			if st.get(o).Ext && ok == false {
				// memory of the caller: nobody may write it anyway unless listed in modifies
			}
			st.mut(o).Frozen = true
		}
	}
	return d
}

// ownedObjs lists the memory reachable from v; ok if it all is fresh and exclusively owned.
func (e *Engine) ownedObjs(st *State, v Value) (objs []*Obj, ok bool) {
	ok = true
	seen := map[*Obj]bool{}
	groups := map[int]bool{}
	var rec func(v Value)
	rec = func(v Value) {
		switch x := v.(type) {
		case VSlice:
			s := st.get(x.Obj)
			if isC(x.Len, 0) && x.Nil == tTrue {
				return
			}
			if s.Ext || s.RO || s.Frozen || s.ElemShared || groups[s.Group] {
				ok = false
			}
			for _, m := range st.members(s.Group) {
				ms := st.get(m)
				if ms.Ext || ms.Frozen {
					ok = false
				}
			}
			groups[s.Group] = true
			if !seen[x.Obj] {
				seen[x.Obj] = true
				objs = append(objs, x.Obj)
			}
		case VPtr:
			if x.Nil == tTrue {
				return
			}
			s := st.get(x.A.Obj)
			if s.Ext || s.RO || s.Frozen || len(x.A.S) > 0 || groups[s.Group] {
				ok = false
			}
			groups[s.Group] = true
			if !seen[x.A.Obj] {
				seen[x.A.Obj] = true
				objs = append(objs, x.A.Obj)
				if !x.A.Obj.arr {
					rec(s.V)
				}
			}
		case VStruct:
			for _, f := range x.F {
				rec(f)
			}
		case VIface:
			if x.V != nil {
				rec(x.V)
			}
		}
	}
	rec(v)
	return
}

// ---- values of SSA operands

func (e *Engine) val(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(st, x)
	case *ssa.Global:
		return e.globalAddr(st, x)
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Builtin:
		return VBad{"builtin value"}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				if i < len(fr.bind) {
					return fr.bind[i]
				}
			}
		}
		return VBad{"free variable"}
	}
	if r, ok := st.loc[lkey{fr.id, v}]; ok {
		return r
	}
	return VBad{"undefined value " + v.Name()}
}

func (e *Engine) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(st, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{tBool(constant.BoolVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			iv := constant.ToInt(c.Value)
			b, ok := new(big.Int).SetString(iv.ExactString(), 10)
			if !ok {
				return VBad{"const"}
			}
			return VInt{tBig(b)}
		case u.Info()&types.IsString != 0:
			return VStr{tBytesLit([]byte(constant.StringVal(c.Value)))}
		case u.Info()&types.IsFloat != 0:
			return realConst(c.Value)
		}
	}
	return VBad{"const " + c.String()}
}

func (e *Engine) zero(st *State, t types.Type) Value {
	if isErrorType(t) {
		return VErr{tFalse}
	}
	if n, ok := t.(*types.Named); ok && isExternalNamed(n) {
		if _, ok := n.Underlying().(*types.Struct); ok {
			if isBuffer(n) {
				return VStr{tLit("u8")}
			}
			return VOpq{tInt(0), n.String()}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{tFalse}
		case u.Info()&types.IsInteger != 0:
			return VInt{tInt(0)}
		case u.Info()&types.IsString != 0:
			return VStr{tLit("u8")}
		case u.Info()&types.IsFloat != 0:
			return VFlt{tRealInt(tInt(0))}
		}
	case *types.Slice:
		return e.nilSlice(st, u.Elem())
	case *types.Pointer:
		o := e.newCell(st, "nilptr", u.Elem(), VBad{"nil"})
		return VPtr{A: Addr{Obj: o}, Nil: tTrue}
	case *types.Struct:
		v := VStruct{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, e.zero(st, u.Field(i).Type()))
		}
		return v
	case *types.Array:
		es, err := sortOf(u.Elem())
		if err != nil {
			return VBad{err.Error()}
		}
		return VArr{tZeros(tInt(u.Len()), es, e.zeroTerm(u.Elem())), u.Elem(), u.Len()}
	case *types.Interface:
		return VIface{Nil: tTrue}
	case *types.Signature:
		return VBad{"nil func"}
	case *types.Map:
		return VBad{"nil map"}
	}
	return VBad{"zero " + t.String()}
}

func (e *Engine) zeroTerm(t types.Type) *Term {
	s, err := sortOf(t)
	if err != nil {
		return nil
	}
	if _, _, ok := machRange(s); ok {
		return tUncast(tInt(0), s)
	}
	if s == "bool" {
		return tFalse
	}
	if s == "real" {
		return tRealInt(tInt(0))
	}
	if strings.HasPrefix(s, "Seq<") {
		return tLit(elemSort(s))
	}
	if strings.HasPrefix(s, "Option<") {
		return tNone(optElem(s))
	}
	if s == "int" {
		return tInt(0)
	}
	if si := structTab[s]; si != nil {
		var vs []*Term
		for i := range si.Fields {
			vs = append(vs, e.zeroTerm(si.Typ.Field(si.Idx[i]).Type()))
		}
		return tStruct(s, si.Fields, vs)
	}
	return nil
}

// ---- loops of a function

func (e *Engine) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := e.loopsOf[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := res[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					res[s] = set
				}
				var stk []*ssa.BasicBlock
				if !set[b] {
					set[b] = true
					stk = append(stk, b)
				}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					for _, p := range x.Preds {
						if !set[p] {
							set[p] = true
							stk = append(stk, p)
						}
					}
				}
			}
		}
	}
	e.loopsOf[fn] = res
	return res
}

// ---- execution

const maxLeaves = 6000

func (e *Engine) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	if st.dead {
		e.finish(st)
		return
	}
	if fr.stop != nil && !fr.stop.blocks[to] {
		return // dry run leaves the loop
	}
	loops := e.loops(fr.fn)
	if set, ok := loops[to]; ok {
		if set[from] {
			ctx := fr.loops[to]
			if ctx == nil {
				e.fail(st, "unsupported", "irreducible loop", token.NoPos)
				return
			}
			if ctx.onBack == nil { // unrolled
				e.setPhis(st, fr, from, to)
				e.exec(st, fr, to, e.firstNonPhi(to))
				return
			}
			ctx.onBack(st, fr, from)
			return
		}
		if e.unrolls(st, fr, from, to, set) {
			old := fr.loops[to]
			fr.loops[to] = &LoopCtx{hdr: to, blocks: set}
			e.setPhis(st, fr, from, to)
			e.exec(st, fr, to, e.firstNonPhi(to))
			fr.loops[to] = old
			return
		}
		e.enterLoop(st, fr, from, to, set)
		return
	}
	e.setPhis(st, fr, from, to)
	e.exec(st, fr, to, e.firstNonPhi(to))
}

func (e *Engine) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (e *Engine) phiVals(st *State, fr *Frame, from, to *ssa.BasicBlock) ([]*ssa.Phi, []Value) {
	pi := predIndex(from, to)
	var ps []*ssa.Phi
	var vs []Value
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, e.val(st, fr, p.Edges[pi]))
	}
	return ps, vs
}

func (e *Engine) setPhis(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	ps, vs := e.phiVals(st, fr, from, to)
	for i, p := range ps {
		st.loc[lkey{fr.id, p}] = vs[i]
	}
}

func (e *Engine) exec(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			e.finish(st)
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			c, ok := e.val(st, fr, in.Cond).(VBool)
			if !ok {
				e.fail(st, "unsupported", "condition", in.Pos())
				return
			}
			e.f.leaves++
			if e.f.leaves > maxLeaves {
				e.fail(st, "unsupported", "too many paths", in.Pos())
				return
			}
			dt := c.T
			if dt != tTrue && dt != tFalse {
				dt = st.decide(dt)
			}
			if dt == tTrue || st.hyps[c.T] {
				e.jump(st, fr, b, b.Succs[0])
				return
			}
			if dt == tFalse || st.hyps[tNot(c.T)] {
				e.jump(st, fr, b, b.Succs[1])
				return
			}
			s1 := st.clone()
			s1.hyp(c.T)
			e.jump(s1, fr, b, b.Succs[0])
			s2 := st
			s2.hyp(tNot(c.T))
			e.jump(s2, fr, b, b.Succs[1])
			return
		case *ssa.Jump:
			e.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.Return:
			var rs []Value
			for _, r := range in.Results {
				rs = append(rs, e.val(st, fr, r))
			}
			if fr.stop != nil {
				return
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			e.fail(st, "panic", "explicit panic is unreachable", in.Pos())
			return
		case *ssa.Call:
			ii := i
			done := false
			cont := func(s2 *State, rs []Value) {
				var rv Value
				if in.Call.Signature().Results().Len() == 1 {
					if len(rs) == 1 {
						rv = rs[0]
					}
				} else {
					rv = VTuple(rs)
				}
				s2.loc[lkey{fr.id, in}] = rv
				e.exec(s2, fr, b, ii+1)
			}
			done = e.call(st, fr, in, cont)
			if done {
				return
			}
		default:
			e.instr(st, fr, in)
		}
	}
}

func (e *Engine) set(st *State, fr *Frame, v ssa.Value, x Value) { st.loc[lkey{fr.id, v}] = x }

func (e *Engine) instr(st *State, fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.RunDefers:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok {
			if _, ok := a.Elem().Underlying().(*types.Interface); ok && !isErrorType(a.Elem()) {
				o := e.newObj(st, x.Comment, &ObjState{Elems: make([]Value, a.Len())})
				o.arr = true
				o.elemT = a.Elem()
				e.set(st, fr, x, VPtr{A: Addr{Obj: o}, Nil: tFalse})
				return
			}
			es, err := sortOf(a.Elem())
			z := e.zeroTerm(a.Elem())
			if err != nil || z == nil {
				if a.Len() > 64 {
					e.set(st, fr, x, VBad{"array of " + a.Elem().String()})
					return
				}
				// values the logic has no sort for: kept one by one, read and written at constant indices
				o := e.newObj(st, x.Comment, &ObjState{Elems: make([]Value, a.Len())})
				o.arr = true
				o.elemT = a.Elem()
				for i := range st.get(o).Elems {
					st.get(o).Elems[i] = e.zero(st, a.Elem())
				}
				e.set(st, fr, x, VPtr{A: Addr{Obj: o}, Nil: tFalse})
				return
			}
			o := e.newArr(st, x.Comment, a.Elem(), es, tZeros(tInt(a.Len()), es, z))
			e.set(st, fr, x, VPtr{A: Addr{Obj: o}, Nil: tFalse})
			return
		}
		o := e.newCell(st, x.Comment, t, e.zero(st, t))
		e.set(st, fr, x, VPtr{A: Addr{Obj: o}, Nil: tFalse})
	case *ssa.Store:
		p, ok := e.val(st, fr, x.Addr).(VPtr)
		if !ok {
			e.fail(st, "unsupported", "store address", x.Pos())
			return
		}
		e.ob(st, "nil", "store through nil pointer", x.Pos(), tNot(p.Nil))
		if st.dead {
			return
		}
		e.store(st, p.A, e.val(st, fr, x.Val), x.Val.Type(), x.Pos())
	case *ssa.UnOp:
		e.set(st, fr, x, e.unop(st, fr, x))
	case *ssa.BinOp:
		e.set(st, fr, x, e.binop(st, x.Op, e.val(st, fr, x.X), e.val(st, fr, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos()))
	case *ssa.Phi:
		// handled at jumps
	case *ssa.ChangeType:
		v := e.val(st, fr, x.X)
		if sv, ok := v.(VStruct); ok {
			sv.Typ = x.Type()
			v = sv
		}
		e.set(st, fr, x, v)
	case *ssa.ChangeInterface:
		e.set(st, fr, x, e.val(st, fr, x.X))
	case *ssa.MakeInterface:
		v := e.val(st, fr, x.X)
		if isErrorType(x.Type()) {
			e.set(st, fr, x, VErr{tTrue})
			return
		}
		e.set(st, fr, x, VIface{V: v, Typ: x.X.Type(), Nil: tFalse})
	case *ssa.Convert:
		e.set(st, fr, x, e.convert(st, e.val(st, fr, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.FieldAddr:
		p, ok := e.val(st, fr, x.X).(VPtr)
		if !ok {
			e.fail(st, "unsupported", "field of non-pointer", x.Pos())
			return
		}
		e.ob(st, "nil", "nil pointer dereference", x.Pos(), tNot(p.Nil))
		e.set(st, fr, x, VPtr{A: p.A.add(Step{K: "field", N: x.Field}), Nil: tFalse})
	case *ssa.Field:
		v := e.val(st, fr, x.X)
		if s, ok := v.(VStruct); ok {
			e.set(st, fr, x, s.F[x.Field])
		} else {
			e.set(st, fr, x, VBad{"field"})
		}
	case *ssa.IndexAddr:
		iv, ok := e.val(st, fr, x.Index).(VInt)
		if !ok {
			e.fail(st, "unsupported", "index", x.Pos())
			return
		}
		switch b := e.val(st, fr, x.X).(type) {
		case VSlice:
			e.bounds(st, iv.T, b.Len, x.Pos())
			e.set(st, fr, x, VPtr{A: Addr{Obj: b.Obj}.add(Step{K: "index", I: tAdd(b.Off, iv.T)}), Nil: tFalse})
		case VPtr: // pointer to array
			e.ob(st, "nil", "nil pointer dereference", x.Pos(), tNot(b.Nil))
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.bounds(st, iv.T, tInt(at.Len()), x.Pos())
			e.set(st, fr, x, VPtr{A: b.A.add(Step{K: "index", I: iv.T}), Nil: tFalse})
		default:
			e.fail(st, "unsupported", fmt.Sprintf("index of %T", b), x.Pos())
		}
	case *ssa.Index:
		iv, ok := e.val(st, fr, x.Index).(VInt)
		if !ok {
			e.fail(st, "unsupported", "index", x.Pos())
			return
		}
		switch b := e.val(st, fr, x.X).(type) {
		case VArr:
			e.bounds(st, iv.T, tInt(b.N), x.Pos())
			e.set(st, fr, x, e.wrap(st, tIndex(b.T, iv.T), x.Type(), wrapOpt{ext: true, ro: true}, "ix"))
		case VStr:
			e.bounds(st, iv.T, tLen(b.T), x.Pos())
			e.set(st, fr, x, VInt{tCast(tIndex(b.T, iv.T))})
		default:
			e.fail(st, "unsupported", "index", x.Pos())
		}
	case *ssa.Lookup:
		e.set(st, fr, x, e.lookup(st, fr, x))
	case *ssa.Slice:
		e.set(st, fr, x, e.slice(st, fr, x))
	case *ssa.MakeSlice:
		l, ok1 := e.val(st, fr, x.Len).(VInt)
		c, ok2 := e.val(st, fr, x.Cap).(VInt)
		if !ok1 || !ok2 {
			e.fail(st, "unsupported", "make", x.Pos())
			return
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		es, err := sortOf(et)
		z := e.zeroTerm(et)
		if err != nil || z == nil {
			e.fail(st, "unsupported", "make of "+x.Type().String(), x.Pos())
			return
		}
		e.ob(st, "make", "make: length not negative or huge", x.Pos(), tAnd(tLe(tInt(0), l.T), tLe(l.T, tInt(1<<47))))
		if l.T != c.T {
			e.ob(st, "make", "make: capacity in range", x.Pos(), tAnd(tLe(l.T, c.T), tLe(c.T, tInt(1<<47))))
		}
		o := e.newArr(st, "make", et, es, tZeros(c.T, es, z))
		e.set(st, fr, x, VSlice{Obj: o, Off: tInt(0), Len: l.T, Cap: c.T, Nil: tFalse})
	case *ssa.MakeClosure:
		f := VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.val(st, fr, b))
		}
		e.set(st, fr, x, f)
	case *ssa.Extract:
		t, ok := e.val(st, fr, x.Tuple).(VTuple)
		if !ok || x.Index >= len(t) {
			e.set(st, fr, x, VBad{"extract"})
			return
		}
		e.set(st, fr, x, t[x.Index])
	case *ssa.TypeAssert:
		v := e.val(st, fr, x.X)
		if iv, ok := v.(VIface); ok && iv.V != nil && iv.Typ != nil && types.Identical(iv.Typ, x.AssertedType) {
			if x.CommaOk {
				e.set(st, fr, x, VTuple{iv.V, VBool{tTrue}})
			} else {
				e.set(st, fr, x, iv.V)
			}
			return
		}
		e.fail(st, "unsupported", "type assertion", x.Pos())
	default:
		e.fail(st, "unsupported", fmt.Sprintf("%T", in), in.Pos())
	}
}

func (e *Engine) bounds(st *State, i, n *Term, pos token.Pos) {
	e.ob(st, "bounds", "index not negative", pos, tLe(tInt(0), i))
	e.ob(st, "bounds", "index below length", pos, tLt(i, n))
}

func (e *Engine) slice(st *State, fr *Frame, x *ssa.Slice) Value {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		if iv, ok := e.val(st, fr, v).(VInt); ok {
			return iv.T
		}
		return tInt(-1)
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = tInt(0)
	}
	pos := x.Pos()
	switch b := e.val(st, fr, x.X).(type) {
	case VStr:
		n := tLen(b.T)
		if hi == nil {
			hi = n
		}
		e.ob(st, "slice", "slice low bound not negative", pos, tLe(tInt(0), lo))
		e.ob(st, "slice", "slice bounds ordered", pos, tLe(lo, hi))
		e.ob(st, "slice", "slice high bound within string", pos, tLe(hi, n))
		return VStr{tSub3(b.T, lo, hi)}
	case VSlice:
		if hi == nil {
			hi = b.Len
		}
		capT := b.Cap
		if capT == nil {
			capT = b.Len
		}
		limit := capT
		// reslicing beyond the length is only supported where the memory content is known
		if mx != nil {
			e.ob(st, "slice", "slice max within capacity", pos, tLe(mx, capT))
			e.ob(st, "slice", "slice high bound within max", pos, tLe(hi, mx))
		} else if hi != b.Len {
			known := tSub(tLen(st.get(b.Obj).C), b.Off)
			if st.get(b.Obj).Elems != nil {
				known = b.Len
			}
			if limit != known {
				limit = b.Len
			}
			e.ob(st, "slice", "slice high bound within capacity", pos, tLe(hi, limit))
		}
		e.ob(st, "slice", "slice low bound not negative", pos, tLe(tInt(0), lo))
		e.ob(st, "slice", "slice bounds ordered", pos, tLe(lo, hi))
		r := VSlice{Obj: b.Obj, Off: tAdd(b.Off, lo), Len: tSub(hi, lo), Nil: b.Nil}
		if mx != nil {
			r.Cap = tSub(mx, lo)
		} else if b.Cap != nil {
			r.Cap = tSub(b.Cap, lo)
		}
		return r
	case VPtr:
		at, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || !b.A.Obj.arr || len(b.A.S) > 0 {
			e.fail(st, "unsupported", "slice of array", pos)
			return VBad{"slice"}
		}
		n := tInt(at.Len())
		if hi == nil {
			hi = n
		}
		e.ob(st, "nil", "nil pointer dereference", pos, tNot(b.Nil))
		e.ob(st, "slice", "slice low bound not negative", pos, tLe(tInt(0), lo))
		e.ob(st, "slice", "slice bounds ordered", pos, tLe(lo, hi))
		e.ob(st, "slice", "slice high bound within array", pos, tLe(hi, n))
		c := tSub(n, lo)
		if mx != nil {
			c = tSub(mx, lo)
		}
		return VSlice{Obj: b.A.Obj, Off: lo, Len: tSub(hi, lo), Cap: c, Nil: tFalse}
	}
	e.fail(st, "unsupported", "slice", pos)
	return VBad{"slice"}
}

func (e *Engine) unop(st *State, fr *Frame, x *ssa.UnOp) Value {
	v := e.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(VPtr)
		if !ok {
			e.fail(st, "unsupported", fmt.Sprintf("load through %T %v", v, v), x.Pos())
			return VBad{"load"}
		}
		e.ob(st, "nil", "nil pointer dereference", x.Pos(), tNot(p.Nil))
		if st.dead {
			return VBad{"dead"}
		}
		return e.load(st, p.A, x.Type(), x.Pos())
	case token.NOT:
		if b, ok := v.(VBool); ok {
			return VBool{tNot(b.T)}
		}
	case token.SUB:
		if i, ok := v.(VInt); ok {
			return e.wrapInt(st, tNeg(i.T), x.Type(), x.Pos())
		}
	case token.XOR:
		if i, ok := v.(VInt); ok {
			s, _ := intSort(x.Type())
			_, sg, _ := machRange(s)
			if sg {
				return VInt{tSub(tInt(-1), i.T)}
			}
			return VInt{tSub(tBig(intMax(s)), i.T)}
		}
	}
	e.fail(st, "unsupported", "unary "+x.Op.String(), x.Pos())
	return VBad{"unop"}
}

// wrapInt applies the machine representation: unsigned wraps, signed overflow is an obligation.
func (e *Engine) wrapInt(st *State, t *Term, typ types.Type, pos token.Pos) Value {
	s, ok := intSort(typ)
	if !ok {
		return VBad{"int type"}
	}
	mn, mx := intMin(s), intMax(s)
	lo, hi := rangeOf(t)
	if lo != nil && hi != nil && lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 {
		return VInt{t}
	}
	bits, signed, _ := machRange(s)
	if signed {
		if lo == nil || lo.Cmp(mn) < 0 {
			e.ob(st, "overflow", "no signed overflow (low)", pos, tLe(tBig(mn), t))
		}
		if hi == nil || hi.Cmp(mx) > 0 {
			e.ob(st, "overflow", "no signed overflow (high)", pos, tLe(t, tBig(mx)))
		}
		return VInt{t}
	}
	m := tBig(pow2(uint(bits)))
	if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(new(big.Int).Lsh(pow2(uint(bits)), 1)) < 0 {
		return VInt{tIte(tLe(t, tBig(mx)), t, tSub(t, m))}
	}
	if lo != nil && hi != nil && hi.Cmp(mx) <= 0 && new(big.Int).Add(lo, pow2(uint(bits))).Sign() >= 0 {
		return VInt{tIte(tLe(tInt(0), t), t, tAdd(t, m))}
	}
	return VInt{tMod(t, m)}
}

// occupied bits of a nonnegative term: value < 2^hi and divisible by 2^lo
func bitSpan(t *Term) (lo, hi int, ok bool) {
	if t.isConst() {
		if t.Num.Sign() < 0 {
			return 0, 0, false
		}
		if t.Num.Sign() == 0 {
			return 0, 0, true
		}
		return int(t.Num.TrailingZeroBits()), t.Num.BitLen(), true
	}
	if t.Op == "lin" && len(t.lin.at) == 1 && t.lin.c.Sign() == 0 && t.lin.co[0].Sign() > 0 {
		k := t.lin.co[0]
		l, h, ok := bitSpan(t.lin.at[0])
		if !ok {
			return 0, 0, false
		}
		tz := int(k.TrailingZeroBits())
		return l + tz, h + k.BitLen() - boolInt(k.BitLen()-1 == tz), true
	}
	if t.Op == "lin" && t.lin.c.Sign() == 0 {
		// sum of disjoint parts
		lo, hi := 1<<30, 0
		type sp struct{ l, h int }
		var sps []sp
		for i, a := range t.lin.at {
			if t.lin.co[i].Sign() < 0 {
				return 0, 0, false
			}
			l, h, ok := bitSpan(tMul(tBig(t.lin.co[i]), a))
			if !ok {
				return 0, 0, false
			}
			for _, o := range sps {
				if !(h <= o.l || o.h <= l) {
					lo2, hi2 := rangeOf(t)
					if lo2 != nil && hi2 != nil && lo2.Sign() >= 0 {
						return 0, hi2.BitLen(), true
					}
					return 0, 0, false
				}
			}
			sps = append(sps, sp{l, h})
			if l < lo {
				lo = l
			}
			if h > hi {
				hi = h
			}
		}
		return lo, hi, true
	}
	l, h := rangeOf(t)
	if l != nil && h != nil && l.Sign() >= 0 {
		return 0, h.BitLen(), true
	}
	return 0, 0, false
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// andConst: x & c for nonnegative x (bits limited to n)
func andConst(x *Term, c *big.Int) *Term {
	r := tInt(0)
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		// bits i..j
		t := tMod(tDiv(x, tBig(pow2(uint(i)))), tBig(pow2(uint(j-i))))
		r = tAdd(r, tMul(tBig(pow2(uint(i))), t))
		i = j
	}
	return r
}

func (e *Engine) binop(st *State, op token.Token, a, b Value, ta, tb, tr types.Type, pos token.Pos) Value {
	if x, ok := a.(VBad); ok {
		e.fail(st, "unsupported", x.Why, pos)
		return a
	}
	if x, ok := b.(VBad); ok {
		e.fail(st, "unsupported", x.Why, pos)
		return b
	}
	switch op {
	case token.EQL, token.NEQ:
		t := e.equal(st, a, b, ta, pos)
		if t == nil {
			e.fail(st, "unsupported", fmt.Sprintf("comparison of %T and %T", a, b), pos)
			return VBad{"eq"}
		}
		if op == token.NEQ {
			t = tNot(t)
		}
		return VBool{t}
	}
	switch x := a.(type) {
	case VStr:
		y, ok := b.(VStr)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return VStr{tConcat(x.T, y.T)}
		case token.LSS:
			return VBool{tApp("bytes_lt", "bool", x.T, y.T)}
		case token.GTR:
			return VBool{tApp("bytes_lt", "bool", y.T, x.T)}
		case token.LEQ:
			return VBool{tNot(tApp("bytes_lt", "bool", y.T, x.T))}
		case token.GEQ:
			return VBool{tNot(tApp("bytes_lt", "bool", x.T, y.T))}
		}
	case VBool:
		y, ok := b.(VBool)
		if !ok {
			break
		}
		switch op {
		case token.AND, token.LAND:
			return VBool{tAnd(x.T, y.T)}
		case token.OR, token.LOR:
			return VBool{tOr(x.T, y.T)}
		}
	case VFlt:
		y, ok := b.(VFlt)
		if !ok {
			break
		}
		switch op {
		case token.LEQ:
			return VBool{realLe(x.T, y.T)}
		case token.GEQ:
			return VBool{realLe(y.T, x.T)}
		case token.LSS:
			return VBool{tNot(realLe(y.T, x.T))}
		case token.GTR:
			return VBool{tNot(realLe(x.T, y.T))}
		case token.ADD:
			return VFlt{tRaw("\x010\x01 + \x011\x01", "real", x.T, y.T)}
		case token.SUB:
			return VFlt{tRaw("\x010\x01 - \x011\x01", "real", x.T, y.T)}
		case token.MUL:
			return VFlt{tRaw("\x010\x01 * \x011\x01", "real", x.T, y.T)}
		case token.QUO:
			return VFlt{tRaw("\x010\x01 / \x011\x01", "real", x.T, y.T)}
		}
	case VInt:
		y, ok := b.(VInt)
		if !ok {
			break
		}
		switch op {
		case token.LSS:
			return VBool{tLt(x.T, y.T)}
		case token.LEQ:
			return VBool{tLe(x.T, y.T)}
		case token.GTR:
			return VBool{tLt(y.T, x.T)}
		case token.GEQ:
			return VBool{tLe(y.T, x.T)}
		case token.ADD:
			return e.wrapInt(st, tAdd(x.T, y.T), tr, pos)
		case token.SUB:
			return e.wrapInt(st, tSub(x.T, y.T), tr, pos)
		case token.MUL:
			return e.wrapInt(st, tMul(x.T, y.T), tr, pos)
		case token.QUO, token.REM:
			e.ob(st, "div", "division by zero", pos, tNot(tEq(y.T, tInt(0))))
			if y.T.isConst() && y.T.Num.Sign() > 0 {
				lo, _ := rangeOf(x.T)
				if (lo != nil && lo.Sign() >= 0) || e.knownNonNeg(st, x.T) {
					if op == token.QUO {
						return VInt{tDiv(x.T, y.T)}
					}
					return VInt{tMod(x.T, y.T)}
				}
				if op == token.QUO {
					return VInt{tApp("tdiv", "int", x.T, y.T)}
				}
				return VInt{tApp("tmod", "int", x.T, y.T)}
			}
			s, _ := intSort(tr)
			if _, sg, _ := machRange(s); !sg {
				if op == token.QUO {
					return VInt{tDiv(x.T, y.T)}
				}
				return VInt{tMod(x.T, y.T)}
			}
			e.fail(st, "unsupported", "signed division", pos)
			return VBad{"div"}
		case token.SHL:
			if y.T.isConst() && y.T.Num.IsInt64() && y.T.Num.Int64() >= 0 && y.T.Num.Int64() < 128 {
				return e.shiftWrap(st, tMul(tBig(pow2(uint(y.T.Num.Int64()))), x.T), tr, pos)
			}
			e.ob(st, "shift", "shift count not negative", pos, tLe(tInt(0), y.T))
			return e.shiftWrap(st, tApp("shl", "int", x.T, y.T), tr, pos)
		case token.SHR:
			if y.T.isConst() && y.T.Num.IsInt64() && y.T.Num.Int64() >= 0 && y.T.Num.Int64() < 128 {
				return VInt{tDiv(x.T, tBig(pow2(uint(y.T.Num.Int64()))))}
			}
			e.ob(st, "shift", "shift count not negative", pos, tLe(tInt(0), y.T))
			return VInt{tApp("shr", "int", x.T, y.T)}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return e.bitop(st, op, x.T, y.T, tr, pos)
		}
	}
	e.fail(st, "unsupported", fmt.Sprintf("%T %s %T", a, op, b), pos)
	return VBad{"binop"}
}

func (e *Engine) knownNonNeg(st *State, t *Term) bool {
	return st.hyps[tLe(tInt(0), t)]
}

// shiftWrap: left shifts wrap silently also for signed values; require range for signed
func (e *Engine) shiftWrap(st *State, t *Term, typ types.Type, pos token.Pos) Value {
	return e.wrapInt(st, t, typ, pos)
}

func (e *Engine) bitop(st *State, op token.Token, x, y *Term, tr types.Type, pos token.Pos) Value {
	s, _ := intSort(tr)
	bits, signed, _ := machRange(s)
	if x.isConst() && y.isConst() && x.Num.Sign() >= 0 && y.Num.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x.Num, y.Num)
		case token.OR:
			r.Or(x.Num, y.Num)
		case token.XOR:
			r.Xor(x.Num, y.Num)
		case token.AND_NOT:
			r.AndNot(x.Num, y.Num)
		}
		return VInt{tBig(r)}
	}
	if x.isConst() && op != token.AND_NOT {
		x, y = y, x
	}
	if y.isConst() && y.Num.Sign() >= 0 {
		// Euclidean div/mod agree with two's complement for nonnegative masks
		and := andConst(x, y.Num)
		switch op {
		case token.AND:
			return VInt{and}
		case token.OR:
			return VInt{tSub(tAdd(x, y), and)}
		case token.XOR:
			return VInt{tSub(tAdd(x, y), tMul(tInt(2), and))}
		case token.AND_NOT:
			return VInt{tSub(x, and)}
		}
	}
	l1, h1, ok1 := bitSpan(x)
	l2, h2, ok2 := bitSpan(y)
	if ok1 && ok2 && (h1 <= l2 || h2 <= l1) {
		switch op {
		case token.OR, token.XOR:
			return VInt{tAdd(x, y)}
		case token.AND:
			return VInt{tInt(0)}
		case token.AND_NOT:
			return VInt{x}
		}
	}
	if signed {
		e.fail(st, "unsupported", "signed bit operation", pos)
		return VBad{"bitop"}
	}
	_ = bits
	fn := map[token.Token]string{token.AND: "&", token.OR: "|", token.XOR: "^"}[op]
	if fn == "" {
		e.fail(st, "unsupported", "bit operation", pos)
		return VBad{"bitop"}
	}
	return VInt{tRaw("((\x010\x01 as "+s+") "+fn+" (\x011\x01 as "+s+")) as int", "int", x, y)}
}

func (e *Engine) equal(st *State, a, b Value, typ types.Type, pos token.Pos) *Term {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return tEq(x.T, y.T)
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			if tLen(y.T) == tInt(0) && y.T.Op == "lit" {
				return tEq(tLen(x.T), tInt(0))
			}
			if x.T.Op == "lit" && len(x.T.Args) == 0 {
				return tEq(tLen(y.T), tInt(0))
			}
			return tEq(x.T, y.T)
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			return tEq(x.T, y.T)
		}
	case VErr:
		if y, ok := b.(VErr); ok {
			if y.T == tFalse {
				return tNot(x.T)
			}
			if x.T == tFalse {
				return tNot(y.T)
			}
		}
	case VArr:
		if y, ok := b.(VArr); ok {
			return tEq(x.T, y.T)
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			if y.Nil == tTrue {
				return x.Nil
			}
			if x.Nil == tTrue {
				return y.Nil
			}
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			if y.Nil == tTrue {
				return x.Nil
			}
			if x.Nil == tTrue {
				return y.Nil
			}
			if x.A.Obj == y.A.Obj && x.A.Path == y.A.Path && x.Nil == y.Nil {
				return tTrue
			}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if y.Nil == tTrue {
				return x.Nil
			}
			if x.Nil == tTrue {
				return y.Nil
			}
		}
	case VOpq:
		if y, ok := b.(VIface); ok && y.Nil == tTrue {
			return tFalse // opaque interface values are assumed non-nil
		}
	}
	return nil
}

func (e *Engine) convert(st *State, v Value, from, to types.Type, pos token.Pos) Value {
	if b, ok := v.(VBad); ok {
		e.fail(st, "unsupported", b.Why, pos)
		return v
	}
	if ts, ok := intSort(to); ok {
		if x, ok := v.(VInt); ok {
			mn, mx := intMin(ts), intMax(ts)
			lo, hi := rangeOf(x.T)
			if fs, ok := intSort(from); ok {
				if lo == nil || lo.Cmp(intMin(fs)) < 0 {
					lo = intMin(fs)
				}
				if hi == nil || hi.Cmp(intMax(fs)) > 0 {
					hi = intMax(fs)
				}
			}
			if lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 {
				return v
			}
			bits, signed, _ := machRange(ts)
			m := tBig(pow2(uint(bits)))
			if !signed {
				if lo.Sign() >= 0 {
					// many conversions are of lengths: keep them readable when provably small
					if st.hyps[tLe(x.T, tBig(mx))] {
						return v
					}
					return VInt{tMod(x.T, m)}
				}
				if bits == 64 {
					if e.isLenLike(x.T) {
						return v
					}
					return VInt{tIte(tLe(tInt(0), x.T), x.T, tAdd(x.T, m))}
				}
				return VInt{tMod(x.T, m)}
			}
			if bits == 64 && lo.Sign() >= 0 {
				return VInt{tIte(tLe(x.T, tBig(mx)), x.T, tSub(x.T, m))}
			}
			w := tMod(x.T, m)
			return VInt{tIte(tLe(w, tBig(mx)), w, tSub(w, m))}
		}
		if _, ok := v.(VFlt); ok {
			r := e.fresh("f2i", ts)
			return VInt{tCast(r)}
		}
	}
	if isFloatT(to) {
		switch x := v.(type) {
		case VFlt:
			return x
		case VInt:
			return VFlt{tRealInt(x.T)}
		}
	}
	if isString(to) {
		switch x := v.(type) {
		case VSlice:
			if isBytes(from) {
				return VStr{e.content(st, x)}
			}
		case VStr:
			return x
		}
	}
	if isBytes(to) {
		switch x := v.(type) {
		case VStr:
			et := to.Underlying().(*types.Slice).Elem()
			return e.freshSlice(st, "conv", et, x.T)
		case VSlice:
			return x
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	e.fail(st, "unsupported", "conversion "+from.String()+" -> "+to.String(), pos)
	return VBad{"convert"}
}

func (e *Engine) isLenLike(t *Term) bool {
	lo, _ := rangeOf(t)
	return lo != nil && lo.Sign() >= 0
}

func (e *Engine) lookup(st *State, fr *Frame, x *ssa.Lookup) Value {
	m := e.val(st, fr, x.X)
	k := e.val(st, fr, x.Index)
	switch b := m.(type) {
	case VStr:
		iv, ok := k.(VInt)
		if !ok {
			break
		}
		e.bounds(st, iv.T, tLen(b.T), x.Pos())
		return VInt{tCast(tIndex(b.T, iv.T))}
	case VMap:
		mt := x.X.Type().Underlying().(*types.Map)
		vs, err := sortOf(mt.Elem())
		kt := e.deep(st, k, mt.Key())
		if err != nil || kt == nil {
			break
		}
		name := "map_" + b.G.Pkg.Pkg.Name() + "_" + b.G.Name()
		e.mapsUsed[name] = b.G
		has := tApp(name+"_has", "bool", kt)
		get := tApp(name+"_get", vs, kt)
		z := e.zeroTerm(mt.Elem())
		v := e.wrap(st, tIte(has, get, z), mt.Elem(), wrapOpt{ext: true, ro: true}, "map")
		if x.CommaOk {
			return VTuple{v, VBool{has}}
		}
		return v
	}
	e.fail(st, "unsupported", "lookup", x.Pos())
	return VBad{"lookup"}
}
