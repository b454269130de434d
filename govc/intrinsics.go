package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) anyInt(st *State, name, srt string) VInt { return VInt{tCast(e.fresh(name, srt))} }

// intrinsic handles library functions whose effect cannot be put in a contract; true if taken over.
func (e *Engine) intrinsic(st *State, fr *Frame, key string, fn *ssa.Function, args []Value, typs []types.Type, pos token.Pos, k cont) bool {
	unsup := func(why string) bool {
		e.fail(st, "unsupported", key+": "+why, pos)
		e.finish(st)
		return true
	}
	for _, b := range bufferTypes {
		if m := strings.TrimPrefix(key, "(*"+b+")."); m != key {
			e.bufferCall(st, m, args, pos, k)
			return true
		}
	}
	switch key {
	case "bytes.NewBuffer", "bytes.NewBufferString":
		v := VStr{tLit("u8")}
		switch x := args[0].(type) {
		case VSlice:
			// writing to the buffer may write to spare capacity of the argument: only fresh empty memory is certain not to matter
			o := st.get(x.Obj)
			if x.Nil != tTrue && (o.Ext || o.RO || o.Child || o.Frozen) {
				return unsup("buffer over memory that is used elsewhere")
			}
			v.T = e.content(st, x)
			o = st.mut(x.Obj)
			o.Frozen, o.RO = true, true
		case VStr:
			v.T = x.T
		}
		c := e.newCell(st, "buffer", fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), v)
		k(st, []Value{VPtr{A: Addr{Obj: c}, Nil: tFalse}})
		return true
	case "strings.Join", "bytes.Join":
		l, ok := args[0].(VSlice)
		var sep *Term
		switch x := args[1].(type) {
		case VStr:
			sep = x.T
		case VSlice:
			sep = e.content(st, x)
		}
		if !ok || sep == nil {
			return unsup("arguments")
		}
		c := e.content(st, l)
		if c == nil {
			return unsup("arguments")
		}
		var r *Term
		if n := tLen(c); n.isConst() && n.Num.Cmp(big.NewInt(64)) <= 0 {
			var parts []*Term
			for i := int64(0); i < n.Num.Int64(); i++ {
				if i > 0 {
					parts = append(parts, sep)
				}
				parts = append(parts, tIndex(c, tInt(i)))
			}
			r = tLit("u8")
			if len(parts) > 0 {
				r = tConcat(parts...)
			}
		} else if sep.Op == "lit" && litString(sep) == " " {
			r = tApp("join_words", "Seq<u8>", c, tLen(c))
		} else {
			r = e.fresh("join", "Seq<u8>")
			st.hyp(lenHyp(r))
		}
		if key == "strings.Join" {
			k(st, []Value{VStr{r}})
		} else {
			k(st, []Value{e.freshSlice(st, "join", types.Typ[types.Uint8], r)})
		}
		return true
	case "bytes.Equal", "bytes.HasPrefix", "bytes.HasSuffix", "strings.HasPrefix", "strings.HasSuffix":
		var xs [2]*Term
		for i := range xs {
			switch x := args[i].(type) {
			case VStr:
				xs[i] = x.T
			case VSlice:
				xs[i] = e.content(st, x)
			}
			if xs[i] == nil {
				return unsup("arguments")
			}
		}
		s, p := xs[0], xs[1]
		fits := tTrue
		switch {
		case strings.HasSuffix(key, "HasPrefix"):
			fits = tLe(tLen(p), tLen(s))
			s = tSub3(s, tInt(0), tLen(p))
		case strings.HasSuffix(key, "HasSuffix"):
			fits = tLe(tLen(p), tLen(s))
			s = tSub3(s, tSub(tLen(s), tLen(p)), tLen(s))
		}
		eq := tEq(s, p)
		// two sequences of known length are equal when their elements are
		for _, o := range [][2]*Term{{xs[0], p}, {p, xs[0]}} {
			if n := tLen(o[1]); o[1].Op == "lit" && n.isConst() && n.Num.Cmp(big.NewInt(64)) <= 0 && o[0].Op != "lit" {
				all := []*Term{}
				if fits == tTrue {
					all = append(all, tEq(tLen(o[0]), n))
				}
				off := tInt(0)
				if o[1] != p && fits != tTrue {
					break
				}
				if strings.HasSuffix(key, "HasSuffix") {
					off = tSub(tLen(o[0]), n)
				}
				for i := int64(0); i < n.Num.Int64(); i++ {
					all = append(all, tEq(tCast(tIndex(o[0], tAdd(off, tInt(i)))), tCast(tIndex(o[1], tInt(i)))))
				}
				if strings.HasSuffix(key, "HasPrefix") {
					r := tRaw("\x010\x01.len() >= \x011\x01.len() && \x010\x01.subrange(0, \x011\x01.len() as int) == \x011\x01", "bool", xs[0], p)
					st.hyp(tEq(r, tAnd(append([]*Term{fits}, all...)...)))
					fits, eq = tTrue, r
					break
				}
				st.hyp(tImp(fits, tEq(eq, tAnd(all...))))
				break
			}
		}
		k(st, []Value{VBool{tAnd(fits, eq)}})
		return true
	case "strings.Repeat", "bytes.Repeat":
		var x *Term
		switch y := args[0].(type) {
		case VStr:
			x = y.T
		case VSlice:
			x = e.content(st, y)
		}
		n, ok := args[1].(VInt)
		if x == nil || !ok || !n.T.isConst() || n.T.Num.Sign() < 0 || n.T.Num.Cmp(big.NewInt(4096)) > 0 {
			return unsup("arguments")
		}
		parts := []*Term{}
		for i := n.T.Num.Int64(); i > 0; i-- {
			parts = append(parts, x)
		}
		r := tLit("u8")
		if len(parts) > 0 {
			r = tConcat(parts...)
		}
		if key == "strings.Repeat" {
			k(st, []Value{VStr{r}})
		} else {
			k(st, []Value{e.freshSlice(st, "repeat", types.Typ[types.Uint8], r)})
		}
		return true
	case "encoding/binary.Write":
		w, ok := args[0].(VIface)
		o, ok2 := args[1].(VIface)
		d, ok3 := args[2].(VIface)
		if !ok || !ok2 || !ok3 || w.Typ == nil || o.Typ == nil || d.Typ == nil || w.Typ.String() != "*bytes.Buffer" {
			return unsup("arguments")
		}
		var bs *Term
		switch x := d.V.(type) {
		case VInt:
			b, isB := d.Typ.Underlying().(*types.Basic)
			n := map[types.BasicKind]int{types.Uint8: 1, types.Uint16: 2, types.Uint32: 4, types.Uint64: 8}
			if !isB || n[b.Kind()] == 0 {
				return unsup("data type " + d.Typ.String())
			}
			xs := make([]*Term, n[b.Kind()])
			c := big.NewInt(1)
			for i := range xs {
				j := i
				if strings.HasSuffix(o.Typ.String(), ".bigEndian") {
					j = len(xs) - 1 - i
				}
				xs[j] = tUncast(tMod(tDiv(x.T, tBig(c)), tInt(256)), "u8")
				c = new(big.Int).Mul(c, big.NewInt(256))
			}
			bs = tLit("u8", xs...)
		case VSlice:
			if isBytes(d.Typ) {
				bs = e.content(st, x)
			}
		}
		if bs == nil {
			return unsup("data type " + d.Typ.String())
		}
		e.bufferCall(st, "WriteString", []Value{w.V, VStr{bs}}, pos, func(st *State, rs []Value) { k(st, []Value{VErr{tFalse}}) })
		return true
	case "errors.New", "fmt.Errorf":
		k(st, []Value{VErr{tTrue}})
		return true
	case "log.Printf", "log.Println", "log.Print":
		k(st, nil)
		return true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		k(st, []Value{e.anyInt(st, "n", "i64"), VErr{e.fresh("err", "bool")}})
		return true
	case "log.Panic", "log.Panicf", "log.Panicln", "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		e.fail(st, "panic", key+" is unreachable", pos)
		e.finish(st)
		return true
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		x, ok := args[0].(VInt)
		if !ok {
			return unsup("argument")
		}
		f := "fmt_d"
		if key != "strconv.Itoa" {
			switch b := args[1].(VInt); {
			case b.T == tInt(16):
				f = "fmt_x"
			case b.T != tInt(10):
				return unsup("base")
			}
		}
		t := tApp(f, "Seq<u8>", x.T)
		st.hyp(lenHyp(t))
		k(st, []Value{VStr{t}})
		return true
	case "fmt.Sprintf":
		t := e.sprintf(st, args)
		k(st, []Value{VStr{t}})
		return true
	case "golang.org/x/crypto/ripemd160.New", "crypto/sha256.New":
		o := e.newArr(st, "hash", types.Typ[types.Uint8], "u8", tLit("u8"))
		alg := "sha256"
		if strings.Contains(key, "ripemd") {
			alg = "ripemd160"
		}
		k(st, []Value{VHash{o, alg}})
		return true
	case "io.ReadFull", "crypto/rand.Read", "io.ReadAtLeast":
		b, ok := args[len(args)-1].(VSlice)
		if key != "crypto/rand.Read" {
			b, ok = args[1].(VSlice)
		}
		if !ok || key == "io.ReadAtLeast" {
			return unsup("arguments")
		}
		c := e.fresh("rnd", "Seq<u8>")
		fixLen(st, c, b.Len)
		e.writeWindow(st, b, tInt(0), c, pos)
		if e.deadEnd(st) {
			return true
		}
		n := e.anyInt(st, "n", "i64")
		er := e.fresh("err", "bool")
		st.hyp(tImp(tNot(er), tEq(n.T, b.Len)))
		rng := key == "crypto/rand.Read"
		if !rng {
			switch x := args[0].(type) {
			case VOpq:
				rng = x.T.Op == "app" && x.T.Text == "glob_crypto_rand_Reader"
			case VIface:
				if y, ok := x.V.(VOpq); ok {
					rng = y.T.Op == "app" && y.T.Text == "glob_crypto_rand_Reader"
				}
			}
		}
		if rng {
			st.hyp(tImp(er, tApp("rng_failed", "bool")))
			st.hyp(tImp(tNot(er), tApp("from_rng", "bool", c)))
		}
		k(st, []Value{n, VErr{er}})
		return true
	case "regexp.MustCompile":
		s, ok := args[0].(VStr)
		if !ok || s.T.Op != "lit" {
			return unsup("pattern is not constant")
		}
		c := e.newCell(st, "regexp", nil, VOpq{tApp("regex_lit", "int", s.T), "regexp"})
		k(st, []Value{VPtr{A: Addr{Obj: c}, Nil: tFalse}})
		return true
	case "(*regexp.Regexp).FindStringSubmatch":
		p, ok := args[0].(VPtr)
		s, ok2 := args[1].(VStr)
		if !ok || !ok2 {
			return unsup("arguments")
		}
		c := st.get(p.A.Obj)
		q, ok := c.V.(VOpq)
		if !ok || q.T.Op != "app" || q.T.Text != "regex_lit" {
			return unsup("pattern unknown")
		}
		pat := litString(q.T.Args[0])
		if pat != `^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$` {
			return unsup("pattern " + pat + " has no specification")
		}
		m := tApp("bip276_shape", "Option<Seq<Seq<u8>>>", s.T)
		hit := tNot(tIsNone(m))
		s2 := st.clone()
		s2.hyp(tNot(hit))
		if !s2.dead {
			k(s2, []Value{e.nilSlice(s2, types.Typ[types.String])})
		}
		st.hyp(hit)
		if !st.dead {
			g := tUnwrap(m)
			var xs []*Term
			for i := int64(0); i < 6; i++ {
				xs = append(xs, tIndex(g, tInt(i)))
			}
			k(st, []Value{e.freshSlice(st, "match", types.Typ[types.String], tLit("Seq<u8>", xs...))})
		}
		return true
	case "sort.Sort", "sort.Stable":
		iv, ok := args[0].(VIface)
		if !ok || iv.Typ == nil {
			return unsup("argument")
		}
		sl, ok := iv.V.(VSlice)
		if !ok {
			return unsup("argument is not a slice type")
		}
		return e.sortCall(st, fr, sl, iv, nil, pos, k)
	case "sort.Slice", "sort.SliceStable":
		iv, ok := args[0].(VIface)
		f, ok2 := args[1].(VFunc)
		if !ok || !ok2 {
			return unsup("argument")
		}
		sl, ok := iv.V.(VSlice)
		if !ok {
			return unsup("argument is not a slice")
		}
		return e.sortCall(st, fr, sl, iv, &f, pos, k)
	}
	if strings.HasSuffix(key, ").Error") && len(args) == 1 {
		if _, ok := args[0].(VErr); ok {
			v := e.fresh("msg", "Seq<u8>")
			st.hyp(lenHyp(v))
			k(st, []Value{VStr{v}})
			return true
		}
	}
	return false
}

func litString(t *Term) string {
	var b []byte
	for _, a := range t.Args {
		c := tCast(a)
		if c.Op != "const" {
			return ""
		}
		b = append(b, byte(c.Num.Int64()))
	}
	return string(b)
}

// sortCall: the comparison must be "bytes below in lexicographic order"; the result is the sorted permutation.
func (e *Engine) sortCall(st *State, fr *Frame, sl VSlice, iv VIface, less *VFunc, pos token.Pos, k cont) bool {
	c := e.content(st, sl)
	if c == nil || c.Sort != "Seq<Seq<u8>>" {
		e.fail(st, "unsupported", "sort of "+iv.Typ.String(), pos)
		e.finish(st)
		return true
	}
	// comparison at an arbitrary pair of positions
	probe := func(name string, f func(st *State, i, j VInt, done cont)) {
		s := st.clone()
		i, j := e.anyInt(s, "i", "i64"), e.anyInt(s, "j", "i64")
		for _, x := range []VInt{i, j} {
			s.hyp(tLe(tInt(0), x.T))
			s.hyp(tLt(x.T, sl.Len))
		}
		f(s, i, j, nil)
		_ = name
	}
	lessOK := func(i, j VInt) cont {
		return func(s *State, rs []Value) {
			b, ok := rs[0].(VBool)
			if !ok {
				e.fail(s, "unsupported", "sort comparison", pos)
			} else {
				e.ob(s, "sort", "comparison used for sorting is lexicographic order", pos, tEq(b.T, tApp("bytes_lt", "bool", tIndex(c, i.T), tIndex(c, j.T))))
				d := e.content(s, sl)
				e.ob(s, "sort", "comparison does not change the elements", pos, tEq(d, c))
			}
			e.finish(s)
		}
	}
	it := types.Typ[types.Int]
	if less != nil {
		probe("less", func(s *State, i, j VInt, _ cont) {
			e.callFn(s, fr, less.Fn, less.Bind, []Value{i, j}, []types.Type{it, it}, pos, lessOK(i, j))
		})
	} else {
		m := func(n string) *ssa.Function {
			ms := e.prog.MethodSets.MethodSet(iv.Typ)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == n {
					return e.prog.MethodValue(ms.At(i))
				}
			}
			return nil
		}
		ln, ls, sw := m("Len"), m("Less"), m("Swap")
		if ln == nil || ls == nil || sw == nil {
			e.fail(st, "unsupported", "sort interface", pos)
			e.finish(st)
			return true
		}
		e.callFn(st.clone(), fr, ln, nil, []Value{sl}, []types.Type{iv.Typ}, pos, func(s *State, rs []Value) {
			if v, ok := rs[0].(VInt); ok {
				e.ob(s, "sort", "Len is the number of elements", pos, tEq(v.T, sl.Len))
			}
			e.finish(s)
		})
		probe("less", func(s *State, i, j VInt, _ cont) {
			e.callFn(s, fr, ls, nil, []Value{sl, i, j}, []types.Type{iv.Typ, it, it}, pos, lessOK(i, j))
		})
		probe("swap", func(s *State, i, j VInt, _ cont) {
			// the swap itself works on the caller's elements
			e.callFn(s, fr, sw, nil, []Value{sl, i, j}, []types.Type{iv.Typ, it, it}, pos, func(s *State, rs []Value) {
				d := e.content(s, sl)
				e.ob(s, "sort", "Swap exchanges the two elements", pos, tEq(d, tUpdate(tUpdate(c, i.T, tIndex(c, j.T)), j.T, tIndex(c, i.T))))
				e.finish(s)
			})
		})
	}
	r := tApp("sort_bytes", "Seq<Seq<u8>>", c)
	st.hyp(tEq(tLen(r), sl.Len))
	e.checkWrite(st, sl.Obj, pos)
	if e.deadEnd(st) {
		return true
	}
	m := st.mut(sl.Obj)
	m.C = tSplice(m.C, sl.Off, r)
	k(st, nil)
	return true
}

var bufferTypes = []string{"bytes.Buffer", "strings.Builder"}

func isBuffer(t types.Type) bool {
	s := t.String()
	return s == bufferTypes[0] || s == bufferTypes[1]
}

// bufferCall is a method of bytes.Buffer or strings.Builder that only adds at the end or shows everything written so far.
// The contents are the value kept in the cell.
func (e *Engine) bufferCall(st *State, method string, args []Value, pos token.Pos, k cont) {
	p, ok := args[0].(VPtr)
	if ok && p.A.Obj != nil {
		e.ob(st, "nil", "buffer is not nil", pos, tNot(p.Nil))
		if e.deadEnd(st) {
			return
		}
		b, isV := e.load(st, p.A, nil, pos).(VStr)
		put := func(t *Term, n *Term, rs ...Value) {
			e.store(st, p.A, VStr{tConcat(b.T, t)}, nil, pos)
			if e.deadEnd(st) {
				return
			}
			if n != nil {
				rs = append([]Value{VInt{n}}, rs...)
			}
			k(st, rs)
		}
		if isV {
			switch method {
			case "Write":
				if x, ok := args[1].(VSlice); ok {
					put(e.content(st, x), x.Len, VErr{tFalse})
					return
				}
			case "WriteString":
				if x, ok := args[1].(VStr); ok {
					put(x.T, tLen(x.T), VErr{tFalse})
					return
				}
			case "WriteByte":
				if x, ok := args[1].(VInt); ok {
					put(tLit("u8", tUncast(x.T, "u8")), nil, VErr{tFalse})
					return
				}
			case "Grow":
				if x, ok := args[1].(VInt); ok {
					e.ob(st, "panic", "Grow is not negative", pos, tLe(tInt(0), x.T))
					if !e.deadEnd(st) {
						k(st, nil)
					}
					return
				}
			case "Len":
				k(st, []Value{VInt{tLen(b.T)}})
				return
			case "String":
				k(st, []Value{VStr{b.T}})
				return
			case "Bytes":
				if len(p.A.S) == 0 {
					// the result is the buffer's own memory: the buffer is not used afterwards
					v := e.freshSlice(st, "buf", types.Typ[types.Uint8], b.T)
					st.mut(p.A.Obj).V = VBad{"buffer used after Bytes"}
					k(st, []Value{v})
					return
				}
			}
		}
	}
	e.fail(st, "unsupported", "buffer method "+method, pos)
	e.finish(st)
}

func (e *Engine) hashCall(st *State, h VHash, method string, args []Value, pos token.Pos, k cont) {
	switch method {
	case "Write":
		b, ok := args[0].(VSlice)
		if ok {
			c := e.content(st, b)
			m := st.mut(h.Obj)
			m.C = tConcat(m.C, c)
			k(st, []Value{VInt{b.Len}, VErr{tFalse}})
			return
		}
	case "Reset":
		st.mut(h.Obj).C = tLit("u8")
		k(st, nil)
		return
	case "Sum":
		b, ok := args[0].(VSlice)
		if ok {
			d := tApp(h.Alg, "Seq<u8>", st.get(h.Obj).C)
			dv := e.freshSlice(st, "digest", types.Typ[types.Uint8], d)
			e.appendOp(st, b, dv, types.NewSlice(types.Typ[types.Uint8]), pos, k)
			return
		}
	}
	e.fail(st, "unsupported", "hash method "+method, pos)
	e.finish(st)
}

func (e *Engine) xorKeyStream(st *State, s VOpq, args []Value, pos token.Pos, k cont) {
	d, ok1 := args[0].(VSlice)
	b, ok2 := args[1].(VSlice)
	t := s.T
	if !ok1 || !ok2 || t.Op != "app" || (t.Text != "stream_enc" && t.Text != "stream_dec") {
		e.fail(st, "unsupported", "key stream", pos)
		e.finish(st)
		return
	}
	used := tApp("stream_used", "bool", t)
	if st.hyps[used] {
		e.fail(st, "unsupported", "key stream used twice", pos)
		e.finish(st)
		return
	}
	st.hyps[used] = true
	e.ob(st, "bounds", "destination of XORKeyStream is long enough", pos, tLe(b.Len, d.Len))
	if d.Obj == b.Obj && d.Off != b.Off {
		e.ob(st, "bounds", "XORKeyStream buffers overlap entirely or not at all", pos, tOr(tLe(tAdd(d.Off, b.Len), b.Off), tLe(tAdd(b.Off, b.Len), d.Off)))
	}
	if e.deadEnd(st) {
		return
	}
	fn := "cfb_enc"
	if t.Text == "stream_dec" {
		fn = "cfb_dec"
	}
	c := e.content(st, b)
	r := tApp(fn, "Seq<u8>", t.Args[0], t.Args[1], c)
	st.hyp(tEq(intern(&Term{Op: "len", Args: []*Term{r}, Sort: "int"}), tLen(c)))
	if !isC(tLen(c), 0) {
		e.writeWindow(st, d, tInt(0), r, pos)
	}
	if e.deadEnd(st) {
		return
	}
	k(st, nil)
}

// sprintf gives the formatted text; parts without a known meaning become arbitrary strings.
// formatsItself: package fmt asks such values for their text.
func formatsItself(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	for _, n := range []string{"String", "Error", "Format", "GoString"} {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

// bigOperand gives the number that an operand of type *big.Int points to.
func (e *Engine) bigOperand(st *State, v Value) (num, isNil *Term) {
	iv, ok := v.(VIface)
	if !ok || iv.Typ == nil || iv.Typ.String() != "*math/big.Int" {
		return nil, nil
	}
	pv, ok := iv.V.(VPtr)
	if !ok || pv.Nil == nil {
		return nil, nil
	}
	t := e.nameTerm(st, pv, iv.Typ, false)
	if t == nil || t.Sort != "int" {
		return nil, nil
	}
	return t, pv.Nil
}

func (e *Engine) sprintf(st *State, args []Value) *Term {
	any := func() *Term {
		v := e.fresh("fmt", "Seq<u8>")
		st.hyp(lenHyp(v))
		return v
	}
	f, ok := args[0].(VStr)
	if !ok || f.T.Op != "lit" {
		return any()
	}
	var ops []Value
	if sl, ok := args[1].(VSlice); ok {
		if es := st.get(sl.Obj).Elems; es != nil {
			ops = es
		}
	}
	format := litString(f.T)
	var parts []*Term
	n := 0
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, tBytesLit([]byte(lit)))
			lit = ""
		}
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += format[i : i+1]
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("0123456789.+-# ", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return any()
		}
		if format[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		flags := format[i+1 : j]
		verb := format[j]
		i = j
		flush()
		var v Value
		var typ types.Type
		if n < len(ops) {
			if iv, ok := ops[n].(VIface); ok && !formatsItself(iv.Typ) {
				v, typ = iv.V, iv.Typ
			}
		}
		var big, bigNil *Term
		if n < len(ops) {
			big, bigNil = e.bigOperand(st, ops[n])
		}
		n++
		var t *Term
		if w, err := strconv.Atoi(flags); big != nil && verb == 'x' && len(flags) == 3 && flags[0] == '0' && err == nil && w%2 == 0 {
			// a number which fits is written with all leading zeros
			t = any()
			fits := tAnd(tNot(bigNil), tLe(tInt(0), big), tLt(big, tApp("pow256", "int", tInt(int64(w/2)))))
			st.hyp(tImp(fits, tEq(t, tApp("hex_enc", "Seq<u8>", tApp("be_n", "Seq<u8>", big, tInt(int64(w/2)))))))
		}
		switch x := v.(type) {
		case VStr:
			if flags == "" && (verb == 's' || verb == 'v') {
				t = x.T
			} else if flags == "" && verb == 'x' {
				t = tApp("hex_enc", "Seq<u8>", x.T)
			}
		case VSlice:
			if isBytes(typ) && flags == "" {
				if verb == 's' {
					t = e.content(st, x)
				} else if verb == 'x' {
					t = tApp("hex_enc", "Seq<u8>", e.content(st, x))
				}
			}
		case VFlt:
			if verb == 'f' && len(flags) == 2 && flags[0] == '.' && flags[1] >= '0' && flags[1] <= '9' {
				t = tApp("fmt_fix", "Seq<u8>", tInt(int64(flags[1]-'0')), x.T)
			}
		case VInt:
			if verb == 'x' && (flags == ".2" || flags == "02") {
				t = tApp("fmt_x2", "Seq<u8>", tInt(int64(flags[0]-'.')), x.T)
			} else if (verb == 'd' || verb == 'v') && flags == "" {
				t = tApp("fmt_d", "Seq<u8>", x.T)
			} else if verb == 'x' && flags == "" {
				t = tApp("fmt_x", "Seq<u8>", x.T)
			}
		}
		if t == nil {
			t = any()
		}
		parts = append(parts, t)
	}
	flush()
	if len(parts) == 0 {
		return tLit("u8")
	}
	return tConcat(parts...)
}

var _ = fmt.Sprint

// fixLen states the length of a new symbolic sequence.
func fixLen(st *State, c, l *Term) {
	st.hyp(intern(&Term{Op: "eq", Args: []*Term{intern(&Term{Op: "len", Args: []*Term{c}, Sort: "int"}), l}, Sort: "bool"}))
	if l.isConst() {
		knownLen[c] = l
	}
}
