package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// verifyFn generates the obligations of one function under contract.
func (e *Engine) verifyFn(key string) *FnCtx {
	fn := e.byKey[key]
	c := e.contracts[key]
	f := &FnCtx{key: key, fn: fn, c: c, env: map[string]*Term{}, cands: map[string]*Cand{}, usedC: map[string]bool{}, inlined: map[string]bool{}, loops: map[string]bool{}}
	f.tmpls = append(append([]Tmpl{}, c.Invs...), e.globalInvs...)
	e.f = f
	e.dry = 0
	e.inlineStk = []*ssa.Function{fn}
	trivialCount[key] = 0
	st := &State{loc: map[lkey]Value{}, heap: map[*Obj]*ObjState{}, hyps: map[*Term]bool{}}
	fr := &Frame{id: 0, fn: fn, loops: map[*ssa.BasicBlock]*LoopCtx{}}
	bad := func(msg string) *FnCtx {
		e.fail(st, "contract", msg, fn.Pos())
		e.finish(st)
		return f
	}
	if len(fn.Params) != len(c.Params) {
		return bad(fmt.Sprintf("function has %d parameters, its contract %d", len(fn.Params), len(c.Params)))
	}
	if fn.Signature.Results().Len() != len(c.Results) {
		return bad(fmt.Sprintf("function has %d results, its contract %d", fn.Signature.Results().Len(), len(c.Results)))
	}
	if len(fn.FreeVars) != len(c.Free) {
		return bad("captured variables differ from the contract")
	}
	var inits []Value
	bindParam := func(name string, typ types.Type) (Value, bool) {
		o := wrapOpt{ext: true, root: name, cap: true}
		if dyn := c.Dyn[name]; dyn != "" {
			dt := e.findType(dyn)
			if dt == nil {
				return nil, false
			}
			v, ok := e.paramValue(st, f, name, dt, o, false)
			return VIface{V: v, Typ: dt, Nil: tFalse}, ok
		}
		return e.paramValue(st, f, name, typ, o, c.Nilable[name])
	}
	for i, p := range fn.Params {
		v, ok := bindParam(c.Params[i], p.Type())
		if !ok {
			return bad("parameter " + c.Params[i] + " has an unsupported type " + p.Type().String())
		}
		st.loc[lkey{fr.id, p}] = v
		inits = append(inits, v)
		for _, ip := range c.Inplace {
			if strings.HasPrefix(ip, c.Params[i]+".") && !e.markInplace(st, v, p.Type(), ip[len(c.Params[i])+1:]) {
				return bad("inplace " + ip)
			}
		}
	}
	for i, p := range fn.FreeVars {
		// captured variable: a cell of unknown content
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok {
			v, ok := bindParam(c.Free[i], p.Type())
			if !ok {
				return bad("captured variable")
			}
			fr.bind = append(fr.bind, v)
			continue
		}
		if _, isF := pt.Elem().Underlying().(*types.Signature); isF {
			// a variable that holds this very function (recursion)
			cell := e.newCell(st, "fn", pt.Elem(), VFunc{Fn: fn})
			v := VPtr{A: Addr{Obj: cell}, Nil: tFalse}
			fr.bind = append(fr.bind, v)
			st.get(cell).V = VFunc{Fn: fn, Bind: nil}
			continue
		}
		v, ok := bindParam(c.Free[i], pt.Elem())
		if !ok {
			return bad("captured variable")
		}
		cell := e.newCell(st, c.Free[i], pt.Elem(), v)
		m := st.mut(cell)
		m.Ext, m.Root = true, c.Free[i]
		fr.bind = append(fr.bind, VPtr{A: Addr{Obj: cell}, Nil: tFalse})
	}
	for _, b := range fr.bind {
		if p, ok := b.(VPtr); ok {
			if fv, ok := st.get(p.A.Obj).V.(VFunc); ok {
				fv.Bind = fr.bind
				st.get(p.A.Obj).V = fv
			}
		}
	}
	f.bind = fr.bind
	for _, r := range c.Requires {
		t, err := substRaw(r, "bool", f.env)
		if err != nil {
			return bad(err.Error())
		}
		st.hyp(t)
	}
	for _, r := range c.Fits {
		t, err := substRaw(fmt.Sprintf("(%s).len() <= %dint", r, int64(maxLenText)), "bool", f.env)
		if err != nil {
			return bad(err.Error())
		}
		st.hyp(t)
	}
	// the assumptions must not be contradictory
	f.heads = append(f.heads, &VC{Fn: key, Steps: pathOf(st), Name: "entry"})
	for hi, h := range c.HintIn {
		txt, args, err := substArgs(h, f.env)
		if err != nil {
			return bad(err.Error())
		}
		st.hint(txt, fmt.Sprintf("in%d", hi), args...)
	}
	init := st.clone()
	fr.ret = func(s *State, rs []Value) { e.exit(s, init, inits, rs) }
	if len(fn.Blocks) == 0 {
		return bad("no body")
	}
	e.exec(st, fr, fn.Blocks[0], 0)
	return f
}

func pathOf(st *State) []*PStep {
	var steps []*PStep
	for s := st.steps; s != nil; s = s.prev {
		steps = append(steps, s)
	}
	for i, j := 0, len(steps)-1; i < j; i, j = i+1, j-1 {
		steps[i], steps[j] = steps[j], steps[i]
	}
	return steps
}

func (e *Engine) paramValue(st *State, f *FnCtx, name string, typ types.Type, o wrapOpt, nilable bool) (Value, bool) {
	srt, err := sortOf(typ)
	if err != nil {
		return nil, false
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		es, err := sortOf(p.Elem())
		if err != nil {
			return nil, false
		}
		if nilable {
			t := e.fresh(name, "Option<"+es+">")
			f.env[name] = t
			return e.wrap(st, t, typ, o, name), true
		}
		t := e.fresh(name, es)
		f.env[name] = t
		v := e.wrap(st, tSome(t), typ, o, name)
		return v, true
	}
	if isErrorType(typ) {
		return nil, false
	}
	t := e.fresh(name, srt)
	f.env[name] = t
	v := e.wrap(st, t, typ, o, name)
	switch x := v.(type) {
	case VInt:
		f.env[name] = x.T
	case VSlice:
		f.env[name+"_nil"] = x.Nil
	case VOpq:
		if _, ok := typ.Underlying().(*types.Interface); ok && nilable {
			return VIface{V: x, Nil: tEq(t, tInt(0))}, true
		}
	case VBad:
		return nil, false
	}
	return v, true
}

func (e *Engine) findType(s string) types.Type {
	ptr := strings.HasPrefix(s, "*")
	s = strings.TrimPrefix(s, "*")
	k := strings.LastIndex(s, ".")
	for _, p := range e.prog.AllPackages() {
		if shortPkg(p.Pkg.Path()) == s[:k] {
			if o := p.Pkg.Scope().Lookup(s[k+1:]); o != nil {
				if ptr {
					return types.NewPointer(o.Type())
				}
				return o.Type()
			}
		}
	}
	return nil
}

func (e *Engine) exit(st *State, init *State, inits []Value, rs []Value) {
	if e.deadEnd(st) {
		return
	}
	f, c := e.f, e.f.c
	fn := f.fn
	pos := fn.Pos()
	env := map[string]*Term{}
	for k, v := range f.env {
		env[k] = v
	}
	unsup := func(m string) {
		e.fail(st, "unsupported", m, pos)
		e.finish(st)
	}
	if e.dry == 0 {
		// the first exits and the last one
		h := &VC{Fn: f.key, Steps: pathOf(st), Name: "exit"}
		if len(f.heads) < 5 {
			f.heads = append(f.heads, h)
		} else {
			f.heads[4] = h
		}
	}
	// values of parameters after the call
	for i, p := range c.Params {
		inpl := false
		for _, ip := range c.Inplace {
			if strings.HasPrefix(ip, p+".") {
				inpl = true
			}
		}
		if !c.Modifies[p] && !inpl {
			continue
		}
		v := inits[i]
		typ := fn.Params[i].Type()
		if iv, ok := v.(VIface); ok {
			v, typ = iv.V, iv.Typ
		}
		t := e.nameTerm(st, v, typ, false)
		if t == nil {
			unsup("final value of " + p)
			return
		}
		env[p+"_out"] = t
		if len(c.ModFields[p]) > 0 && !e.fieldsKept(st, init, c, p, inits[i], v) {
			return
		}
	}
	for _, gn := range sortedKeys(c.Globals) {
		g := fn.Pkg.Var(gn)
		if g == nil {
			e.fail(st, "contract", "package variable "+gn+" does not exist", pos)
			e.finish(st)
			return
		}
		gt := g.Type().Underlying().(*types.Pointer).Elem()
		gp, ok := e.globalAddr(st, g).(VPtr)
		if !ok {
			unsup("final value of " + gn)
			return
		}
		t := e.nameTerm(st, e.load(st, gp.A, gt, pos), gt, false)
		if t == nil {
			unsup("final value of " + gn)
			return
		}
		env["\x00"+gn] = t
	}
	for i, p := range c.Free {
		if !c.Modifies[p] {
			continue
		}
		pt, ok := fn.FreeVars[i].Type().Underlying().(*types.Pointer)
		bp, ok2 := f.bind[i].(VPtr)
		if !ok || !ok2 {
			unsup("final value of " + p)
			return
		}
		t := e.nameTerm(st, e.load(st, bp.A, pt.Elem(), pos), pt.Elem(), false)
		if t == nil {
			unsup("final value of " + p)
			return
		}
		env[p+"_out"] = t
	}
	for i, r := range c.Results {
		v := rs[i]
		if b, ok := v.(VBad); ok {
			unsup("result " + r + ": " + b.Why)
			return
		}
		rt := fn.Signature.Results().At(i).Type()
		if al, ok := c.Alias[r]; ok {
			j := -1
			for k, p := range c.Params {
				if p == al {
					j = k
				}
			}
			okk := false
			if j >= 0 {
				if a, ok := v.(VSlice); ok {
					if b, ok := inits[j].(VSlice); ok && a.Obj == b.Obj && a.Off == b.Off && a.Len == b.Len {
						continue
					}
				}
				a, ok1 := v.(VPtr)
				b, ok2 := inits[j].(VPtr)
				if ok1 && ok2 {
					if a.A.Obj == b.A.Obj && a.A.Path == b.A.Path {
						okk = true
					}
					env[r+"_nil"] = a.Nil
					if !okk && a.Nil == tTrue {
						okk = true
					}
				}
			}
			if !okk {
				e.fail(st, "alias", "result "+r+" is the argument "+al, pos)
				e.finish(st)
				return
			}
			if txt, ok := c.Returns[r+"_nil"]; ok {
				t, err := substRaw(txt, "bool", env)
				if err == nil {
					e.ob(st, "postcondition", "result "+r+" is nil exactly when "+txt, pos, tEq(env[r+"_nil"], t))
				}
			}
			continue
		}
		var t *Term
		if iv, ok := v.(VInt); ok {
			t = iv.T
		} else {
			t = e.deep(st, v, rt)
		}
		if t == nil {
			unsup(fmt.Sprintf("result %s (%T) has no value", r, v))
			return
		}
		env[r] = t
		if sv, ok := v.(VSlice); ok {
			env[r+"_nil"] = sv.Nil
		}
	}
	for hi, h := range c.HintOut {
		txt, args, err := substArgs(h, env)
		if err != nil {
			unsup(err.Error())
			return
		}
		st.hint(txt, fmt.Sprintf("out%d", hi), args...)
	}
	for _, r := range append(append([]string{}, c.Results...), outNames(c)...) {
		txt, ok := c.Returns[r]
		if !ok || env[r] == nil {
			continue
		}
		t, err := substRaw(txt, env[r].Sort, env)
		if err != nil {
			unsup(err.Error())
			return
		}
		e.ob(st, "postcondition", "result "+r+" = "+txt, pos, tEq(env[r], t))
	}
	for _, gn := range sortedKeys(c.Globals) {
		v := env["\x00"+gn]
		t, err := substRaw(c.Globals[gn], v.Sort, env)
		if err != nil {
			unsup(err.Error())
			return
		}
		e.ob(st, "postcondition", "package variable "+gn+" = "+c.Globals[gn], pos, tEq(v, t))
	}
	for _, x := range c.Ensures {
		t, err := substRaw(x, "bool", env)
		if err != nil {
			unsup(err.Error())
			return
		}
		e.ob(st, "postcondition", x, pos, t)
	}
	// ownership of results
	for i, r := range c.Results {
		if !c.Fresh[r] {
			continue
		}
		_, ok := e.ownedObjsF(st, rs[i], len(c.Shares) > 0)
		if !ok {
			e.fail(st, "ownership", "result "+r+" shares no memory with arguments or between its parts", pos)
			e.finish(st)
			return
		}
		e.f.trivial("ownership")
	}
	// two fresh results must not share memory
	if len(c.Fresh) > 1 {
		g := map[int]string{}
		for i, r := range c.Results {
			if !c.Fresh[r] {
				continue
			}
			objs, _ := e.ownedObjs(st, rs[i])
			for _, o := range objs {
				gr := st.get(o).Group
				if q, ok := g[gr]; ok && q != r {
					e.fail(st, "ownership", "results "+q+" and "+r+" share memory", pos)
					e.finish(st)
					return
				}
				g[gr] = r
			}
		}
	}
	// memory of the caller
	e.frame(st, init, pos)
	if st.dead {
		return
	}
	e.finish(st)
}

func outNames(c *Contract) []string {
	var r []string
	for _, p := range append(append([]string{}, c.Params...), c.Free...) {
		r = append(r, p+"_out")
	}
	return r
}

func (e *Engine) ownedObjsF(st *State, v Value, shares bool) ([]*Obj, bool) {
	if !shares {
		return e.ownedObjs(st, v)
	}
	// memory of parameters listed in shares may be reachable, the outermost object must be new
	switch x := v.(type) {
	case VSlice:
		s := st.get(x.Obj)
		return nil, x.Nil == tTrue || !s.Ext && !s.RO && !s.Frozen
	case VPtr:
		s := st.get(x.A.Obj)
		return nil, x.Nil == tTrue || !s.Ext && !s.RO && !s.Frozen && len(x.A.S) == 0
	}
	return nil, true
}

// frame: cells that belong to the caller are unchanged unless listed, and what was stored in them is owned.
func (e *Engine) frame(st *State, init *State, pos token.Pos) {
	c := e.f.c
	var objs []*Obj
	for o := range init.heap {
		objs = append(objs, o)
	}
	sortObjs(objs)
	for _, o := range objs {
		is := init.get(o)
		fs := st.get(o)
		if !is.Ext || fs == nil {
			continue
		}
		inpl := false
		for _, ip := range c.Inplace {
			if strings.HasPrefix(ip, is.Root+".") {
				inpl = true
			}
		}
		if o.arr {
			if fs.Foreign && !is.Foreign && len(c.Shares) == 0 {
				e.fail(st, "ownership", "memory of another argument is stored in "+is.Root, pos)
				return
			}
			continue
		}
		if valueEq(is.V, fs.V) {
			e.f.trivial("frame")
			continue
		}
		if c.Modifies[is.Root] && is.Root != "" {
			if len(c.Shares) == 0 {
				if !e.rootOK(st, fs.V, is.Root) {
					e.fail(st, "ownership", "memory of another argument is stored in "+is.Root, pos)
					return
				}
			}
			continue
		}
		_ = inpl
		a, b := e.deep(init, is.V, o.typ), e.deep(st, fs.V, o.typ)
		if a == nil || b == nil {
			e.fail(st, "frame", "writes to "+is.Root+", which the contract does not allow", pos)
			return
		}
		e.ob(st, "frame", "leaves "+is.Root+" unchanged", pos, tEq(a, b))
	}
}

func (e *Engine) rootOK(st *State, v Value, root string) bool {
	ok := true
	seen := map[*Obj]bool{}
	var rec func(v Value)
	rec = func(v Value) {
		switch x := v.(type) {
		case VSlice:
			s := st.get(x.Obj)
			if s.Ext && s.Root != root && x.Nil != tTrue {
				ok = false
			}
			if s.Foreign {
				ok = false
			}
		case VPtr:
			s := st.get(x.A.Obj)
			if x.Nil == tTrue {
				return
			}
			if s.Ext && s.Root != root {
				ok = false
			}
			if !seen[x.A.Obj] && !x.A.Obj.arr {
				seen[x.A.Obj] = true
				rec(s.V)
			}
		case VStruct:
			for _, f := range x.F {
				rec(f)
			}
		}
	}
	rec(v)
	return ok
}

func sortObjs(objs []*Obj) {
	for i := 1; i < len(objs); i++ {
		for j := i; j > 0 && objs[j].id < objs[j-1].id; j-- {
			objs[j], objs[j-1] = objs[j-1], objs[j]
		}
	}
}

func (e *Engine) markInplace(st *State, v Value, typ types.Type, field string) bool {
	if iv, ok := v.(VIface); ok {
		v, typ = iv.V, iv.Typ
	}
	pv, ok := v.(VPtr)
	if !ok || len(pv.A.S) > 0 {
		return false
	}
	sv, ok := st.get(pv.A.Obj).V.(VStruct)
	pt, ok2 := typ.Underlying().(*types.Pointer)
	if !ok || !ok2 {
		return false
	}
	t, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == field {
			if sl, ok := sv.F[i].(VSlice); ok {
				sl.Obj.inpl = true
				return true
			}
		}
	}
	return false
}

// fieldsKept: the fields a contract does not name still hold the very same values.
func (e *Engine) fieldsKept(st, init *State, c *Contract, p string, v, now Value) bool {
	pv, ok := now.(VPtr)
	ok = ok && len(pv.A.S) == 0
	if ok {
		a, ok1 := init.get(pv.A.Obj).V.(VStruct)
		b, ok2 := st.get(pv.A.Obj).V.(VStruct)
		ok = ok1 && ok2
		if ok {
			t := a.Typ.Underlying().(*types.Struct)
			for i := range a.F {
				if !c.keepsField(p, t.Field(i).Name()) {
					continue
				}
				refs := hasRefs(t.Field(i).Type())
				same := valueEq(a.F[i], b.F[i])
				if same && !refs {
					continue
				}
				x, y := e.deep(init, a.F[i], t.Field(i).Type()), e.deep(st, b.F[i], t.Field(i).Type())
				if (refs && !same) || x == nil || y == nil {
					ok = false
					break
				}
				e.ob(st, "frame", "leaves "+p+"."+t.Field(i).Name()+" unchanged", e.f.fn.Pos(), tEq(x, y))
			}
		}
	}
	if !ok {
		e.fail(st, "frame", "writes fields of "+p+" the contract does not name", e.f.fn.Pos())
		e.finish(st)
	}
	return ok
}
