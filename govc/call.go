package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VHash struct {
	Obj *Obj
	Alg string
}

func inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		return inRepo(fn.Parent())
	}
	if p == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path() == modPath || strings.HasPrefix(o.Pkg().Path(), modPath+"/")
		}
		return false
	}
	return p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/")
}

func keyOf(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")
}

// ---- globals

func (e *Engine) globalAddr(st *State, g *ssa.Global) Value {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	for o := range st.heap {
		if o.name == "global:"+g.RelString(nil) {
			return VPtr{A: Addr{Obj: o}, Nil: tFalse}
		}
	}
	name := "global:" + g.RelString(nil)
	ro := func(v Value) Value {
		var o *Obj
		o = e.newCell(st, name, t, v)
		s := st.mut(o)
		s.Ext, s.RO = true, true
		return VPtr{A: Addr{Obj: o}, Nil: tFalse}
	}
	if e.f.fn.Name() == "init" && e.f.fn.Synthetic != "" && g.Pkg == e.f.fn.Pkg {
		// the package initialiser itself: an ordinary variable, zero at first
		o := e.newCell(st, name, t, e.zero(st, t))
		return VPtr{A: Addr{Obj: o}, Nil: tFalse}
	}
	if g.Pkg != nil {
		key := keyOfInit(g.Pkg)
		if c := e.contracts[key]; c != nil && c.Globals[g.Name()] != "" && !e.noContr[key] && e.byKey[key] != nil && e.initOnly(g) {
			if s, err := sortOf(t); err == nil {
				if v, err := substRaw(c.Globals[g.Name()], s, nil); err == nil {
					e.f.usedC[key] = true
					return ro(e.wrap(st, v, t, wrapOpt{ext: true, ro: true}, g.Name()))
				}
			}
		}
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		if e.globalStores(g) == 1 {
			return ro(VMap{g})
		}
		return ro(VBad{"map global with several assignments"})
	}
	if n, ok := t.(*types.Named); ok && isExternalNamed(n) {
		return ro(VOpq{tApp("glob_"+mangle(g.RelString(nil)), "int"), n.String()})
	}
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && isExternalNamed(n) {
			c := e.newCell(st, name+"*", n, VOpq{tApp("glob_"+mangle(g.RelString(nil)), "int"), n.String()})
			st.mut(c).Ext = true
			st.mut(c).RO = true
			return ro(VPtr{A: Addr{Obj: c}, Nil: tFalse})
		}
	}
	// initial value from the package initialiser, if it is never assigned anywhere else
	if g.Pkg != nil && e.globalStores(g) <= 1 {
		if v, ok := e.globalInit(st, g); ok {
			if a, isArr := t.Underlying().(*types.Array); isArr {
				_ = a
				if av, ok := v.(VArr); ok {
					o := e.newArr(st, name, a.Elem(), elemSort(av.T.Sort), av.T)
					s := st.mut(o)
					s.Ext, s.RO = true, true
					return VPtr{A: Addr{Obj: o}, Nil: tFalse}
				}
			}
			return ro(v)
		}
	}
	// an error value made once by the package initialiser
	if g.Pkg != nil && types.Identical(t, types.Universe.Lookup("error").Type()) && e.sentinel(g) {
		return ro(VErr{tTrue})
	}
	// unknown but fixed value
	s, err := sortOf(t)
	if err != nil {
		return ro(VBad{"global " + name})
	}
	v := e.fresh("g_"+g.Name(), s)
	return ro(e.wrap(st, v, t, wrapOpt{ext: true, ro: true}, "g_"+g.Name()))
}

func keyOfInit(p *ssa.Package) string {
	return strings.TrimPrefix(p.Pkg.Path(), modPath+"/") + ".init"
}

// sentinel says whether the variable is assigned exactly once, by its package's initialiser, from a function that
// never answers nil.
func (e *Engine) sentinel(g *ssa.Global) bool {
	if !e.initOnly(g) || e.globalStores(g) != 1 {
		return false
	}
	for _, fn := range e.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					c, ok := s.Val.(*ssa.Call)
					if !ok {
						return false
					}
					f := c.Call.StaticCallee()
					if f == nil {
						return false
					}
					switch f.RelString(nil) {
					case "errors.New", "fmt.Errorf":
						return fn == g.Pkg.Func("init")
					}
				}
			}
		}
	}
	return false
}

// initOnly says whether the variable is only ever loaded and stored, and stored by package initialisers alone.
func (e *Engine) initOnly(g *ssa.Global) bool {
	for _, fn := range e.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if x.Addr != g || x.Val == ssa.Value(g) || fn.Pkg != g.Pkg || !(fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// globalStores counts the instructions that may assign to the global (outside its initial value).
func (e *Engine) globalStores(g *ssa.Global) int {
	if e.gstores == nil {
		e.gstores = map[*ssa.Global]int{}
		for _, fn := range e.allFns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gg, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp:
							// plain load of the variable
							if _, isArr := gg.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !isArr {
								// loads of a slice or map could be used to write through it
								if refs := x.Referrers(); refs != nil {
									for _, r := range *refs {
										switch y := r.(type) {
										case *ssa.MapUpdate:
											if y.Map == x {
												e.gstores[gg] += 2
											}
										}
									}
								}
							}
						case *ssa.Store:
							if x.Addr == gg {
								e.gstores[gg]++
							} else {
								e.gstores[gg] += 2
							}
						case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
							// element addresses: count the stores through them
							var through func(v ssa.Value, depth int)
							through = func(v ssa.Value, depth int) {
								refs := v.Referrers()
								if refs == nil {
									return
								}
								for _, r := range *refs {
									switch y := r.(type) {
									case *ssa.Store:
										if y.Addr == v && (fn.Name() != "init" || depth > 0) {
											e.gstores[gg] += 2
										}
									case *ssa.IndexAddr, *ssa.FieldAddr:
										through(r.(ssa.Value), depth+1)
									}
								}
							}
							through(in.(ssa.Value), 0)
						}
					}
				}
			}
		}
	}
	return e.gstores[g]
}

// globalInit evaluates the backward slice of the package initialiser that computes the value of g.
func (e *Engine) globalInit(st *State, g *ssa.Global) (Value, bool) {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	fr := &Frame{id: -1 - len(e.f.loops), fn: init, loops: map[*ssa.BasicBlock]*LoopCtx{}}
	e.f.loops[g.Name()] = true
	t := g.Type().Underlying().(*types.Pointer).Elem()
	need := map[ssa.Value]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		if need[v] {
			return
		}
		need[v] = true
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					mark(*op)
				}
			}
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					mark(fa)
					for _, r2 := range *fa.Referrers() {
						if s, ok := r2.(*ssa.Store); ok {
							mark(s.Val)
						}
					}
				}
				if ia, ok := r.(*ssa.IndexAddr); ok {
					mark(ia)
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok {
							mark(s.Val)
						}
						if fa, ok := r2.(*ssa.FieldAddr); ok {
							mark(fa)
							for _, r3 := range *fa.Referrers() {
								if s, ok := r3.(*ssa.Store); ok {
									mark(s.Val)
								}
							}
						}
					}
				}
			}
		}
	}
	var final *ssa.Store
	arrG := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if s.Addr == g {
					final = s
					mark(s.Val)
				}
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == g {
					arrG = true
					mark(s.Val)
				}
			}
		}
	}
	if arrG {
		at, ok := t.Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		es, err := sortOf(at.Elem())
		if err != nil {
			return nil, false
		}
		c := tZeros(tInt(at.Len()), es, e.zeroTerm(at.Elem()))
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok || ia.X != g {
					continue
				}
				iv, ok1 := e.val(st, fr, ia.Index).(VInt)
				d := e.deep(st, e.val(st, fr, s.Val), at.Elem())
				if !ok1 || d == nil {
					return nil, false
				}
				c = tUpdate(c, iv.T, d)
			}
		}
		return VArr{c, at.Elem(), at.Len()}, true
	}
	if final == nil {
		// a variable without initialiser that is never assigned
		for _, f := range e.allFns {
			_ = f
		}
		if e.globalStores(g) == 0 {
			return e.zero(st, t), true
		}
		return nil, false
	}
	if final.Parent() != init {
		return nil, false
	}
	dead := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok && need[ia] {
					e.instr(st, fr, s)
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && need[fa] {
					switch fa.X.(type) {
					case *ssa.IndexAddr, *ssa.Alloc:
						e.instr(st, fr, s)
					}
				}
				continue
			}
			v, ok := in.(ssa.Value)
			if !ok || !need[v] {
				continue
			}
			switch y := in.(type) {
			case *ssa.UnOp:
				if _, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
					e.instr(st, fr, in)
				} else {
					dead = true
				}
			case *ssa.Alloc, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp:
				e.instr(st, fr, in)
			default:
				dead = true
			}
		}
	}
	if dead {
		return nil, false
	}
	v := e.val(st, fr, final.Val)
	if s, ok := v.(VSlice); ok {
		m := st.mut(s.Obj)
		m.Ext, m.RO = true, true
	}
	if _, ok := v.(VBad); ok {
		return nil, false
	}
	return v, true
}

// ---- calls

type cont func(*State, []Value)

// call executes a call; it returns true when the continuation has taken over.
func (e *Engine) call(st *State, fr *Frame, in *ssa.Call, k cont) bool {
	cc := in.Common()
	pos := in.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		e.builtin(st, fr, in, b.Name(), k)
		return true
	}
	var args []Value
	var typs []types.Type
	if cc.IsInvoke() {
		recv := e.val(st, fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, e.val(st, fr, a))
			typs = append(typs, a.Type())
		}
		switch r := recv.(type) {
		case VHash:
			e.hashCall(st, r, cc.Method.Name(), args, pos, k)
			return true
		case VIface:
			e.ob(st, "nil", "method call on nil interface", pos, tNot(r.Nil))
			if r.V != nil && r.Typ != nil && !st.dead {
				fn := e.prog.LookupMethod(r.Typ, cc.Method.Pkg(), cc.Method.Name())
				if fn != nil {
					e.callFn(st, fr, fn, nil, append([]Value{r.V}, args...), append([]types.Type{r.Typ}, typs...), pos, k)
					return true
				}
			}
		case VOpq:
			key := strings.ReplaceAll(cc.Method.FullName(), modPath+"/", "")
			if key == "(io.Writer).Write" || key == "(hash.Hash).Sum" {
				break
			}
			if key == "(crypto/cipher.Stream).XORKeyStream" {
				e.xorKeyStream(st, r, args, pos, k)
				return true
			}
			if c := e.contracts[key]; c != nil {
				sig := cc.Method.Type().(*types.Signature)
				e.callContract(st, c, sig, append([]Value{recv}, args...), append([]types.Type{cc.Value.Type()}, typs...), pos, k)
				return true
			}
		}
		e.fail(st, "unsupported", "dynamic call of "+cc.Method.FullName(), pos)
		e.finish(st)
		return true
	}
	for _, a := range cc.Args {
		args = append(args, e.val(st, fr, a))
		typs = append(typs, a.Type())
	}
	if fn := cc.StaticCallee(); fn != nil {
		var bind []Value
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, e.val(st, fr, b))
			}
		}
		e.callFn(st, fr, fn, bind, args, typs, pos, k)
		return true
	}
	if f, ok := e.val(st, fr, cc.Value).(VFunc); ok {
		e.callFn(st, fr, f.Fn, f.Bind, args, typs, pos, k)
		return true
	}
	e.fail(st, "unsupported", "call of unknown function", pos)
	e.finish(st)
	return true
}

var inlinePkgs = map[string]bool{"bytes": true, "strings": true, "slices": true, "encoding/binary": true, "math/bits": true, "errors": true, "cmp": true, "unicode/utf8": true}

func (e *Engine) callFn(st *State, fr *Frame, fn *ssa.Function, bind []Value, args []Value, typs []types.Type, pos token.Pos, k cont) {
	if st.dead {
		e.finish(st)
		return
	}
	key := keyOf(fn)
	for _, a := range args {
		if b, ok := a.(VBad); ok {
			e.fail(st, "unsupported", "argument of "+key+": "+b.Why, pos)
			e.finish(st)
			return
		}
	}
	if e.intrinsic(st, fr, key, fn, args, typs, pos, k) {
		return
	}
	if fn.Name() == "init" && fn.Synthetic != "" && e.f.fn.Name() == "init" && fn.Pkg != e.f.fn.Pkg {
		// the initialiser of another package cannot assign to the variables of this one
		k(st, nil)
		return
	}
	if c := e.contracts[key]; c != nil && !e.noContr[key] && !c.Inline {
		e.callContractB(st, c, fn.Signature, fn, bind, args, typs, pos, k)
		return
	}
	ok := inRepo(fn) || fn.Synthetic != "" && fn.Pkg == nil
	if !ok {
		p := fn.Pkg
		if p == nil && fn.Origin() != nil {
			p = fn.Origin().Pkg
		}
		if p != nil && inlinePkgs[p.Pkg.Path()] {
			ok = true
		}
	}
	if !ok || len(fn.Blocks) == 0 {
		e.fail(st, "unsupported", "call of "+key+", which has no contract", pos)
		e.finish(st)
		return
	}
	n := 0
	for _, f := range e.inlineStk {
		if f == fn {
			n++
		}
	}
	if n > 0 || len(e.inlineStk) > 40 {
		e.fail(st, "unsupported", "recursive call of "+key+", which has no contract", pos)
		e.finish(st)
		return
	}
	e.inline(st, fr, fn, bind, args, k)
}

func (e *Engine) inline(st *State, fr *Frame, fn *ssa.Function, bind []Value, args []Value, k cont) {
	e.f.inlined[keyOf(fn)] = true
	e.inlineStk = append(e.inlineStk, fn)
	depth := len(e.inlineStk)
	e.f.nframe++
	nf := &Frame{id: e.f.nframe, fn: fn, bind: bind, loops: map[*ssa.BasicBlock]*LoopCtx{}, tag: fr.tag + ">" + fn.Name()}
	nf.ret = func(s *State, rs []Value) {
		saved := e.inlineStk
		e.inlineStk = append([]*ssa.Function{}, saved[:depth-1]...)
		k(s, rs)
		e.inlineStk = saved
	}
	for i, p := range fn.Params {
		st.loc[lkey{nf.id, p}] = args[i]
	}
	e.exec(st, nf, fn.Blocks[0], 0)
	e.inlineStk = e.inlineStk[:depth-1]
}

// ---- builtins

func (e *Engine) builtin(st *State, fr *Frame, in *ssa.Call, name string, k cont) {
	cc := in.Common()
	pos := in.Pos()
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.val(st, fr, a))
	}
	unsup := func(why string) {
		e.fail(st, "unsupported", "builtin "+name+" "+why, pos)
		e.finish(st)
	}
	switch name {
	case "len":
		switch x := args[0].(type) {
		case VSlice:
			k(st, []Value{VInt{x.Len}})
			return
		case VStr:
			k(st, []Value{VInt{tLen(x.T)}})
			return
		case VArr:
			k(st, []Value{VInt{tInt(x.N)}})
			return
		case VPtr:
			if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					k(st, []Value{VInt{tInt(a.Len())}})
					return
				}
			}
		}
		unsup(fmt.Sprintf("of %T", args[0]))
	case "cap":
		switch x := args[0].(type) {
		case VSlice:
			c := x.Cap
			if c == nil {
				c = tCast(e.fresh("cap", "i64"))
				st.hyp(tLe(x.Len, c))
				st.hyp(tLe(c, tMaxLen))
			}
			k(st, []Value{VInt{c}})
			return
		}
		unsup("")
	case "append":
		a, ok := args[0].(VSlice)
		if !ok {
			unsup("")
			return
		}
		e.appendOp(st, a, args[1], cc.Args[0].Type(), pos, k)
	case "copy":
		e.copyOp(st, args[0], args[1], pos, k)
	case "min", "max":
		r, ok := args[0].(VInt)
		if !ok {
			unsup("")
			return
		}
		for _, a := range args[1:] {
			y, ok := a.(VInt)
			if !ok {
				unsup("")
				return
			}
			if name == "min" {
				r = VInt{tIte(tLe(r.T, y.T), r.T, y.T)}
			} else {
				r = VInt{tIte(tLe(r.T, y.T), y.T, r.T)}
			}
		}
		k(st, []Value{r})
	case "print", "println":
		k(st, nil)
	default:
		unsup("")
	}
}

// deadEnd ends a path when the state has become contradictory.
func (e *Engine) deadEnd(st *State) bool {
	if st.dead {
		e.finish(st)
		return true
	}
	return false
}

func (e *Engine) appendOp(st *State, a VSlice, bv Value, typ types.Type, pos token.Pos, k cont) {
	var bc *Term
	var bo *ObjState
	switch b := bv.(type) {
	case VSlice:
		bc = e.content(st, b)
		bo = st.get(b.Obj)
	case VStr:
		bc = b.T
	}
	ac := e.content(st, a)
	if ac == nil || bc == nil {
		e.fail(st, "unsupported", "append", pos)
		e.finish(st)
		return
	}
	if isC(tLen(bc), 0) {
		k(st, []Value{a})
		return
	}
	s := st.get(a.Obj)
	grp := 0
	var ext bool
	var root string
	switch {
	case a.Nil == tTrue || a.Cap != nil && a.Cap == a.Len:
		// reallocates unless nothing is appended
		if lo, _ := rangeOf(tLen(bc)); a.Nil != tTrue && (lo == nil || lo.Sign() <= 0) {
			grp, ext = s.Group, s.Ext
			if e.canWrite(s) {
				root = s.Root
			}
		}
	case !e.canWrite(s):
		full := tFalse
		if a.Cap != nil {
			full = tLe(a.Cap, a.Len)
		}
		e.ob(st, "frame", "append must not write into memory the function does not own", pos, tOr(full, tEq(tLen(bc), tInt(0))))
		if e.deadEnd(st) {
			return
		}
		// (when nothing is appended the result is the argument itself)
		if lo, _ := rangeOf(tLen(bc)); lo == nil || lo.Sign() <= 0 {
			grp, ext, root = s.Group, true, ""
		}
	default:
		grp, ext, root = s.Group, s.Ext, s.Root
		end := tAdd(a.Off, a.Len)
		if s.Child || end != tLen(s.C) {
			// may overwrite what other slices of the same memory see
			for _, m := range st.members(s.Group) {
				ms := st.get(m)
				if ms.Frozen {
					e.fail(st, "frame", "append may overwrite memory that a container still refers to", pos)
					e.finish(st)
					return
				}
				if ms.C == nil {
					continue
				}
				if m == a.Obj {
					rest := tSub(tLen(ms.C), end)
					if isC(rest, 0) {
						continue
					}
					hv := e.fresh("hv", ms.C.Sort)
					st.hyp(tEq(tLen(hv), rest))
					st.mut(m).C = tConcat(tSub3(ms.C, tInt(0), end), hv)
					continue
				}
				e.havocObj(st, m)
			}
		}
	}
	s = st.get(a.Obj)
	o := e.newArr(st, "app", a.Obj.elemT, a.Obj.elem, tConcat(ac, bc))
	n := st.mut(o)
	if grp != 0 {
		n.Group = grp
		if !s.Ext {
			st.mut(a.Obj).Child = true
		} else {
			st.mut(a.Obj).Child = true
		}
	}
	n.Ext, n.Root = ext, root
	n.ElemShared, n.Foreign = s.ElemShared, s.Foreign
	if a.Nil == tTrue {
		n.ElemShared, n.Foreign = false, false
	}
	if bo != nil && hasRefs(a.Obj.elemT) {
		n.ElemShared = n.ElemShared || bo.ElemShared || !bo.Ext && bo.Frozen
		n.Foreign = n.Foreign || bo.Foreign || (bo.Ext && bo.Root != root)
		// the elements are now reachable from two places; treat the source as given away
		if !bo.Ext {
			for _, m := range st.members(bo.Group) {
				if m != o && hasRefs(m.elemT) && bv.(VSlice).Obj == m {
					st.mut(m).Frozen = true
				}
			}
		}
	}
	nl := tAnd(a.Nil, tEq(tLen(bc), tInt(0)))
	k(st, []Value{VSlice{Obj: o, Off: tInt(0), Len: tLen(n.C), Nil: nl}})
}

func hasRefs(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Interface, *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasRefs(u.Elem())
	}
	return false
}

func (e *Engine) writeWindow(st *State, d VSlice, off *Term, c *Term, pos token.Pos) {
	e.checkWrite(st, d.Obj, pos)
	if st.dead {
		return
	}
	m := st.mut(d.Obj)
	if c.Op == "lit" && len(c.Args) == 1 {
		m.C = tUpdate(m.C, tAdd(d.Off, off), c.Args[0])
		return
	}
	m.C = tSplice(m.C, tAdd(d.Off, off), c)
}

func (e *Engine) copyOp(st *State, dv, sv Value, pos token.Pos, k cont) {
	d, ok := dv.(VSlice)
	var sc *Term
	switch s := sv.(type) {
	case VSlice:
		sc = e.content(st, s)
		if ok && hasRefs(d.Obj.elemT) && d.Obj != s.Obj {
			st.mut(d.Obj).ElemShared = true
			st.mut(d.Obj).Foreign = true
		}
	case VStr:
		sc = s.T
	}
	if !ok || sc == nil {
		e.fail(st, "unsupported", "copy", pos)
		e.finish(st)
		return
	}
	fits := tLe(tLen(sc), d.Len)
	doit := func(st *State, c *Term) {
		if e.deadEnd(st) {
			return
		}
		if !isC(tLen(c), 0) {
			e.writeWindow(st, d, tInt(0), c, pos)
		}
		if e.deadEnd(st) {
			return
		}
		k(st, []Value{VInt{tLen(c)}})
	}
	if fits == tTrue || st.hyps[fits] {
		doit(st, sc)
		return
	}
	if fits == tFalse || st.hyps[tNot(fits)] {
		doit(st, tSub3(sc, tInt(0), d.Len))
		return
	}
	s2 := st.clone()
	st.hyp(fits)
	doit(st, sc)
	s2.hyp(tNot(fits))
	doit(s2, tSub3(sc, tInt(0), d.Len))
}

// ---- contract calls

func (e *Engine) callContract(st *State, c *Contract, sig *types.Signature, args []Value, typs []types.Type, pos token.Pos, k cont) {
	e.callContractB(st, c, sig, nil, nil, args, typs, pos, k)
}

func (e *Engine) callContractB(st *State, c *Contract, sig *types.Signature, fn *ssa.Function, bind []Value, args []Value, typs []types.Type, pos token.Pos, k cont) {
	if e.dry == 0 {
		e.f.usedC[c.Key] = true
	}
	stop := func(why string) {
		e.fail(st, "unsupported", "call of "+c.Key+": "+why, pos)
		e.finish(st)
	}
	if len(c.Params) != len(args) {
		stop("contract has a different number of parameters")
		return
	}
	env := map[string]*Term{}
	for i, f := range c.Free {
		if fn == nil || i >= len(bind) {
			stop("closure binding")
			return
		}
		// captured variables are passed by address
		bt := fn.FreeVars[i].Type()
		v := bind[i]
		if p, ok := v.(VPtr); ok {
			if pt, ok := bt.Underlying().(*types.Pointer); ok {
				lv := e.load(st, p.A, pt.Elem(), pos)
				if t := e.nameTerm(st, lv, pt.Elem(), true); t != nil {
					env[f] = t
				}
				continue
			}
		}
		if t := e.nameTerm(st, v, bt, true); t != nil {
			env[f] = t
		}
	}
	for i, p := range c.Params {
		a := args[i]
		if pv, ok := a.(VPtr); ok && !c.Nilable[p] {
			e.ob(st, "nil", "argument "+p+" of "+c.Key+" is not nil", pos, tNot(pv.Nil))
			if e.deadEnd(st) {
				return
			}
		}
		if iv, ok := a.(VIface); ok && iv.V == nil && c.Nilable[p] {
			env[p] = tInt(0)
			continue
		}
		if dyn := c.Dyn[p]; dyn != "" {
			iv, ok := a.(VIface)
			if !ok || iv.Typ == nil || strings.ReplaceAll(iv.Typ.String(), modPath+"/", "") != dyn {
				stop("dynamic type of " + p + " is not " + dyn)
				return
			}
		}
		t := e.nameTerm(st, a, typs[i], c.Nilable[p])
		if t == nil {
			stop(fmt.Sprintf("argument %s (%T) has no value", p, a))
			return
		}
		env[p] = t
		switch x := a.(type) {
		case VSlice:
			env[p+"_nil"] = x.Nil
		}
	}
	for _, r := range c.Requires {
		t, err := substRaw(r, "bool", env)
		if err != nil {
			stop(err.Error())
			return
		}
		e.ob(st, "precondition", "precondition of "+c.Key+": "+r, pos, t)
		if e.deadEnd(st) {
			return
		}
	}
	if c.Decreases != "" && c.Key == e.f.key && e.dry == 0 {
		here, err := substRaw(c.Decreases, "int", env)
		entry, err2 := substRaw(c.Decreases, "int", e.f.env)
		if err != nil || err2 != nil {
			stop("decreases")
			return
		}
		e.ob(st, "termination", "recursive call decreases "+c.Decreases, pos, tAnd(tLe(tInt(0), here), tLt(here, entry)))
	} else if c.Key == e.f.key && e.dry == 0 {
		e.fail(st, "termination", "recursive call without measure", pos)
		e.finish(st)
		return
	}
	// memory effects
	out := map[string]*Term{}
	rawRet := func(name, srt string) *Term {
		txt, ok := c.Returns[name]
		if !ok {
			return nil
		}
		t, err := substRaw(txt, srt, env)
		if err != nil {
			return nil
		}
		return t
	}
	type post struct {
		i    int
		t    *Term
		inpl string
		mf   *Contract
	}
	var posts []post
	for i, p := range c.Params {
		var inpl string
		for _, ip := range c.Inplace {
			if strings.HasPrefix(ip, p+".") {
				inpl = ip[len(p)+1:]
			}
		}
		if inpl != "" {
			st0 := env[p]
			si := structTab[st0.Sort]
			if si == nil {
				stop("inplace")
				return
			}
			var vals []*Term
			for j, f := range si.Fields {
				if f == inpl {
					v := e.fresh(p+"_"+f, si.Sorts[j])
					st.hyp(tEq(tLen(v), tLen(tField(st0, f, si.Sorts[j]))))
					vals = append(vals, v)
				} else {
					vals = append(vals, tField(st0, f, si.Sorts[j]))
				}
			}
			o := tStruct(st0.Sort, si.Fields, vals)
			out[p+"_out"] = o
			posts = append(posts, post{i, o, inpl, nil})
			continue
		}
		if !c.Modifies[p] {
			continue
		}
		srt := env[p].Sort
		t := rawRet(p+"_out", srt)
		if si := structTab[srt]; len(c.ModFields[p]) > 0 && si != nil {
			var vals []*Term
			for j, f := range si.Fields {
				v := tField(env[p], f, si.Sorts[j])
				if !c.keepsField(p, f) {
					v = e.fresh(p+"_"+f, si.Sorts[j])
				}
				vals = append(vals, v)
			}
			t = tStruct(srt, si.Fields, vals)
			out[p+"_out"] = t
			posts = append(posts, post{i, t, "", c})
			continue
		}
		if t == nil {
			t = e.fresh(p+"_out", srt)
			if strings.HasPrefix(srt, "Seq<") {
				if _, ok := args[i].(VSlice); ok {
					fixLen(st, t, tLen(env[p]))
				} else {
					st.hyp(lenHyp(t))
				}
			}
		}
		out[p+"_out"] = t
		posts = append(posts, post{i, t, "", nil})
	}
	for i, f := range c.Free {
		if !c.Modifies[f] {
			continue
		}
		px, ok := bind[i].(VPtr)
		if !ok || env[f] == nil {
			stop("captured variable")
			return
		}
		t := rawRet(f+"_out", env[f].Sort)
		if t == nil {
			t = e.fresh(f+"_out", env[f].Sort)
			if strings.HasPrefix(env[f].Sort, "Seq<") {
				st.hyp(lenHyp(t))
			}
		}
		out[f+"_out"] = t
		if !e.writePointee(st, px, fn.FreeVars[i].Type(), t, "", false, pos) {
			return
		}
		if e.deadEnd(st) {
			return
		}
	}
	// groups of memory reachable from arguments
	var argObjs []*Obj
	shared := false
	for i, a := range args {
		objs, own := e.ownedObjs(st, a)
		argObjs = append(argObjs, objs...)
		if c.Shares[c.Params[i]] {
			if !own {
				shared = true
			}
			for _, o := range objs {
				if c.Modifies[c.Params[i]] || c.inplaceOf(c.Params[i]) {
					continue // stays where it is
				}
				st.mut(o).Frozen = true
			}
		}
	}
	for _, p := range posts {
		if p.mf != nil {
			px, ok := args[p.i].(VPtr)
			pt := typs[p.i]
			if iv, ok2 := args[p.i].(VIface); ok2 {
				px, ok = iv.V.(VPtr)
				pt = iv.Typ
			}
			if !ok || !e.writeFields(st, px, pt, p.t, p.mf, c.Params[p.i], pos) {
				stop("modified fields")
				return
			}
			if e.deadEnd(st) {
				return
			}
			continue
		}
		switch x := args[p.i].(type) {
		case VSlice:
			e.checkWrite(st, x.Obj, pos)
			if e.deadEnd(st) {
				return
			}
			m := st.mut(x.Obj)
			m.C = tSplice(m.C, x.Off, p.t)
		case VIface:
			px, ok := x.V.(VPtr)
			if !ok {
				stop("modified interface")
				return
			}
			if !e.writePointee(st, px, x.Typ, p.t, p.inpl, shared, pos) {
				return
			}
		case VPtr:
			if !e.writePointee(st, x, typs[p.i], p.t, p.inpl, shared, pos) {
				return
			}
		default:
			stop("modified argument")
			return
		}
		if e.deadEnd(st) {
			return
		}
	}
	for n, t := range out {
		env[n] = t
	}
	// results
	var rs []Value
	anyErr := false
	for i := 0; i < sig.Results().Len(); i++ {
		name := ""
		if i < len(c.Results) {
			name = c.Results[i]
		}
		if name == "" {
			stop("contract has a different number of results")
			return
		}
		rt := sig.Results().At(i).Type()
		if al, ok := c.Alias[name]; ok {
			var v Value
			for j, p := range c.Params {
				if p == al {
					v = args[j]
				}
			}
			if pv, ok := v.(VPtr); ok {
				if t := rawRet(name+"_nil", "bool"); t != nil {
					pv.Nil = t
					v = pv
				}
			}
			rs = append(rs, v)
			continue
		}
		srt, err := sortOf(rt)
		if err != nil {
			stop(err.Error())
			return
		}
		isort := srt
		if _, _, ok := machRange(srt); ok {
			isort = "int"
		}
		t := rawRet(name, isort)
		if t == nil {
			t = e.fresh(name, srt)
			if isort == "int" {
				env[name] = tCast(t)
			}
		}
		if _, ok := env[name]; !ok {
			env[name] = t
		}
		if isErrorType(rt) {
			anyErr = true
		}
		if _, _, ok := machRange(srt); ok {
			if t.Sort == "int" {
				// the value of an expression: keep the type range
				if t.Op != "const" {
					st.hyp(tLe(tBig(intMin(srt)), t))
					st.hyp(tLe(t, tBig(intMax(srt))))
				}
				rs = append(rs, VInt{t})
			} else {
				rs = append(rs, VInt{tCast(t)})
			}
			continue
		}
		o := wrapOpt{ext: true, ro: true}
		if c.Fresh[name] {
			o = wrapOpt{own: true}
		}
		var before map[*Obj]bool
		if !c.Fresh[name] && hasRefs(rt) && !isErrorType(rt) {
			before = map[*Obj]bool{}
			for ob := range st.heap {
				before[ob] = true
			}
		}
		v := e.wrap(st, t, rt, o, name)
		if before != nil {
			for _, a := range argObjs {
				for ob := range st.heap {
					if !before[ob] {
						st.merge(st.get(ob).Group, st.get(a).Group)
					}
				}
			}
		}
		if sv, ok := v.(VSlice); ok {
			env[name+"_nil"] = sv.Nil
			if c.Fresh[name] && shared {
				st.mut(sv.Obj).ElemShared = true
				st.mut(sv.Obj).Foreign = true
			}
		}
		rs = append(rs, v)
	}
	_ = anyErr
	for _, r := range c.Ensures {
		t, err := substRaw(r, "bool", env)
		if err != nil {
			stop(err.Error())
			return
		}
		st.hyp(t)
	}
	if e.deadEnd(st) {
		return
	}
	k(st, rs)
}

// writePointee replaces the value behind a pointer argument.
func (e *Engine) writePointee(st *State, p VPtr, pt types.Type, t *Term, inpl string, shared bool, pos token.Pos) bool {
	el := pt.Underlying().(*types.Pointer).Elem()
	if inpl != "" {
		sv, ok := e.load(st, p.A, el, pos).(VStruct)
		si := structTab[t.Sort]
		if !ok || si == nil {
			e.fail(st, "unsupported", "inplace argument", pos)
			e.finish(st)
			return false
		}
		for j, f := range si.Fields {
			if f != inpl {
				continue
			}
			sl, ok := sv.F[si.Idx[j]].(VSlice)
			if !ok {
				e.fail(st, "unsupported", "inplace field", pos)
				e.finish(st)
				return false
			}
			e.checkWrite(st, sl.Obj, pos)
			if st.dead {
				e.finish(st)
				return false
			}
			m := st.mut(sl.Obj)
			m.C = tSplice(m.C, sl.Off, tField(t, f, si.Sorts[j]))
		}
		return true
	}
	o := st.get(p.A.Obj)
	if p.A.Obj.arr {
		e.checkWrite(st, p.A.Obj, pos)
		if st.dead {
			e.finish(st)
			return false
		}
		m := st.mut(p.A.Obj)
		nc := e.updAt(m.C, p.A.S, t)
		if nc == nil {
			e.fail(st, "unsupported", "modified element", pos)
			e.finish(st)
			return false
		}
		m.C = nc
		return true
	}
	// groups of the memory behind the old value stay together with the new one
	old := e.load(st, p.A, el, pos)
	oldObjs, _ := e.ownedObjs(st, old)
	grp := 0
	es, fo := false, shared
	if len(oldObjs) > 0 {
		grp = st.get(oldObjs[0]).Group
		for _, x := range oldObjs {
			s := st.get(x)
			st.merge(grp, s.Group)
			es = es || s.ElemShared
			fo = fo || s.Foreign
		}
	}
	// whoever still looks at the old memory knows nothing about it any more
	for _, x := range oldObjs {
		for _, m := range st.members(st.get(x).Group) {
			if m != p.A.Obj {
				e.havocObj(st, m)
				if !m.arr {
					st.mut(m).V = VBad{"memory a call may have changed"}
				}
			}
		}
	}
	before := map[*Obj]bool{}
	for ob := range st.heap {
		before[ob] = true
	}
	nv := e.wrap(st, t, el, wrapOpt{ext: o.Ext, root: o.Root, ro: o.RO, in: true}, "upd")
	var fresh []*Obj
	for ob := range st.heap {
		if !before[ob] {
			fresh = append(fresh, ob)
		}
	}
	for _, ob := range fresh {
		s := st.mut(ob)
		if grp != 0 && len(fresh) == 1 {
			s.Group = grp
		}
		s.ElemShared = s.ElemShared || es || shared
		s.Foreign = fo
	}
	e.store(st, p.A, nv, el, pos)
	if st.dead {
		e.finish(st)
		return false
	}
	return true
}

// writeFields replaces the fields a contract names; they hold no references.
func (e *Engine) writeFields(st *State, p VPtr, pt types.Type, t *Term, c *Contract, name string, pos token.Pos) bool {
	el := pt.Underlying().(*types.Pointer).Elem()
	si := structTab[t.Sort]
	str, ok := el.Underlying().(*types.Struct)
	if !ok || si == nil {
		return false
	}
	for j, f := range si.Fields {
		if c.keepsField(name, f) {
			continue
		}
		n := si.Idx[j]
		ft := str.Field(n).Type()
		if hasRefs(ft) {
			fa := VPtr{A: p.A.add(Step{K: "field", N: n}), Nil: tFalse}
			if !e.writePointee(st, fa, types.NewPointer(ft), tField(t, f, si.Sorts[j]), "", false, pos) {
				return true
			}
			continue
		}
		nv := e.wrap(st, tField(t, f, si.Sorts[j]), ft, wrapOpt{own: true}, "upd")
		a := p.A.add(Step{K: "field", N: n})
		e.store(st, a, nv, ft, pos)
		if st.dead {
			return true
		}
	}
	return true
}
