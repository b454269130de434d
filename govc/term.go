package main

import (
	"fmt"
	"go/constant"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Term is an immutable, interned logical term with a Verus sort.
type Term struct {
	Op   string // see constructors
	Args []*Term
	Text string // constant, variable name, function or field name, raw template
	Sort string // Verus type
	Num  *big.Int
	lin  *linear // Op == "lin"
	id   int
}

type linear struct {
	c  *big.Int
	at []*Term
	co []*big.Int
}

var (
	internTab = map[string]*Term{}
	termCount int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Text)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	for _, a := range t.Args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	if t.Num != nil {
		sb.WriteString("#" + t.Num.String())
	}
	if t.lin != nil {
		sb.WriteString("L" + t.lin.c.String())
		for i, a := range t.lin.at {
			fmt.Fprintf(&sb, ",%s*%d", t.lin.co[i], a.id)
		}
	}
	k := sb.String()
	if x, ok := internTab[k]; ok {
		return x
	}
	termCount++
	t.id = termCount
	internTab[k] = t
	return t
}

func tInt(n int64) *Term { return tBig(big.NewInt(n)) }
func tBig(n *big.Int) *Term {
	return intern(&Term{Op: "const", Num: new(big.Int).Set(n), Sort: "int"})
}

var tTrue = intern(&Term{Op: "true", Sort: "bool"})
var tFalse = intern(&Term{Op: "false", Sort: "bool"})

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tVar(name, srt string) *Term { return intern(&Term{Op: "var", Text: name, Sort: srt}) }

func tApp(fn, srt string, args ...*Term) *Term {
	return intern(&Term{Op: "app", Text: fn, Args: args, Sort: srt})
}

// raw template: placeholders \x01<n>\x01
func tRaw(text, srt string, args ...*Term) *Term {
	if len(args) == 1 && text == "\x010\x01" {
		return args[0]
	}
	return intern(&Term{Op: "raw", Text: text, Args: args, Sort: srt})
}

func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) constInt() (*big.Int, bool) {
	if t.Op == "const" {
		return t.Num, true
	}
	return nil, false
}
func isC(t *Term, n int64) bool { return t.Op == "const" && t.Num.IsInt64() && t.Num.Int64() == n }

// ---- integers

func toLin(t *Term) *linear {
	switch t.Op {
	case "const":
		return &linear{c: t.Num}
	case "lin":
		return t.lin
	}
	return &linear{c: new(big.Int), at: []*Term{t}, co: []*big.Int{big.NewInt(1)}}
}

func fromLin(c *big.Int, m map[*Term]*big.Int) *Term {
	var at []*Term
	for a, k := range m {
		if k.Sign() != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return tBig(c)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	if len(at) == 1 && c.Sign() == 0 && m[at[0]].Cmp(big.NewInt(1)) == 0 {
		return at[0]
	}
	l := &linear{c: new(big.Int).Set(c), at: at}
	for _, a := range at {
		l.co = append(l.co, new(big.Int).Set(m[a]))
	}
	return intern(&Term{Op: "lin", lin: l, Sort: "int"})
}

func linComb(a *Term, ka int64, b *Term, kb int64) *Term {
	c := new(big.Int)
	m := map[*Term]*big.Int{}
	add := func(t *Term, k int64) {
		l := toLin(t)
		K := big.NewInt(k)
		c.Add(c, new(big.Int).Mul(K, l.c))
		for i, x := range l.at {
			if m[x] == nil {
				m[x] = new(big.Int)
			}
			m[x].Add(m[x], new(big.Int).Mul(K, l.co[i]))
		}
	}
	add(a, ka)
	if b != nil {
		add(b, kb)
	}
	return fromLin(c, m)
}

func tAdd(a, b *Term) *Term { return linComb(a, 1, b, 1) }
func tSub(a, b *Term) *Term { return linComb(a, 1, b, -1) }
func tNeg(a *Term) *Term    { return linComb(a, -1, nil, 0) }
func tAddK(a *Term, k int64) *Term {
	return tAdd(a, tInt(k))
}
func tMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tBig(new(big.Int).Mul(a.Num, b.Num))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		l := toLin(b)
		m := map[*Term]*big.Int{}
		for i, x := range l.at {
			m[x] = new(big.Int).Mul(a.Num, l.co[i])
		}
		return fromLin(new(big.Int).Mul(a.Num, l.c), m)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "mul", Args: []*Term{a, b}, Sort: "int"})
}

// Euclidean (floor for positive divisors)
func tDiv(a, b *Term) *Term {
	if b.isConst() && b.Num.Sign() > 0 {
		if b.Num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.isConst() {
			q, _ := new(big.Int).DivMod(a.Num, b.Num, new(big.Int))
			return tBig(q)
		}
		if lo, hi := rangeOf(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.Num) < 0 {
			return tInt(0)
		}
		if a.Op == "div" && a.Args[1].isConst() && a.Args[1].Num.Sign() > 0 {
			return tDiv(a.Args[0], tBig(new(big.Int).Mul(a.Args[1].Num, b.Num)))
		}
	}
	return intern(&Term{Op: "div", Args: []*Term{a, b}, Sort: "int"})
}
func tMod(a, b *Term) *Term {
	if b.isConst() && b.Num.Sign() > 0 {
		if a.isConst() {
			_, r := new(big.Int).DivMod(a.Num, b.Num, new(big.Int))
			return tBig(r)
		}
		if lo, hi := rangeOf(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.Num) < 0 {
			return a
		}
	}
	return intern(&Term{Op: "mod", Args: []*Term{a, b}, Sort: "int"})
}

// maxLen bounds the length of a sequence in memory: memory in use at run time is below 2^44 bytes,
// and slices and pointers take at least eight bytes each.
func maxLen(srt string) int64 {
	if strings.HasPrefix(srt, "Seq<Seq<") || strings.HasPrefix(srt, "Seq<Option<") {
		return maxLenText / 8
	}
	return maxLenText
}

// rangeOf gives syntactic bounds of an int term (nil: unknown).
func rangeOf(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case "const":
		return t.Num, t.Num
	case "cast":
		if b, s, ok := machRange(t.Args[0].Sort); ok {
			_ = b
			_ = s
			return intMin(t.Args[0].Sort), intMax(t.Args[0].Sort)
		}
	case "len":
		return new(big.Int), big.NewInt(maxLen(t.Args[0].Sort))
	case "mod":
		if c, ok := t.Args[1].constInt(); ok && c.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(c, big.NewInt(1))
		}
	case "div":
		if c, ok := t.Args[1].constInt(); ok && c.Sign() > 0 {
			l, h := rangeOf(t.Args[0])
			if l != nil {
				l = floorDiv(l, c)
			}
			if h != nil {
				h = floorDiv(h, c)
			}
			return l, h
		}
	case "ite":
		l1, h1 := rangeOf(t.Args[1])
		l2, h2 := rangeOf(t.Args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case "lin":
		lo = new(big.Int).Set(t.lin.c)
		hi = new(big.Int).Set(t.lin.c)
		for i, a := range t.lin.at {
			l, h := rangeOf(a)
			k := t.lin.co[i]
			if k.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(k, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(k, h))
				}
			}
		}
		return
	case "app":
		switch t.Text {
		case "bytes_cmp":
			return big.NewInt(-1), big.NewInt(1)
		}
	}
	return nil, nil
}

func floorDiv(a, b *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, b, new(big.Int))
	return q
}

func machRange(s string) (bits int, signed bool, ok bool) {
	switch s {
	case "u8":
		return 8, false, true
	case "u16":
		return 16, false, true
	case "u32":
		return 32, false, true
	case "u64":
		return 64, false, true
	case "i8":
		return 8, true, true
	case "i16":
		return 16, true, true
	case "i32":
		return 32, true, true
	case "i64":
		return 64, true, true
	}
	return 0, false, false
}
func intMin(s string) *big.Int {
	b, sg, ok := machRange(s)
	if !ok {
		return nil
	}
	if !sg {
		return new(big.Int)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(b-1)))
}
func intMax(s string) *big.Int {
	b, sg, ok := machRange(s)
	if !ok {
		return nil
	}
	if sg {
		b--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(b)), big.NewInt(1))
}
func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// tCast: machine -> int
func tCast(t *Term) *Term {
	if t.Sort == "int" {
		return t
	}
	if t.Op == "uncast" {
		return t.Args[0]
	}
	return intern(&Term{Op: "cast", Args: []*Term{t}, Sort: "int"})
}

// tUncast: int -> machine; the value must be in range
func tUncast(t *Term, srt string) *Term {
	if srt == "int" || t.Sort == srt {
		return t
	}
	if t.Op == "cast" && t.Args[0].Sort == srt {
		return t.Args[0]
	}
	return intern(&Term{Op: "uncast", Args: []*Term{t}, Sort: srt})
}

func tLe(a, b *Term) *Term {
	d := tSub(b, a)
	if d.isConst() {
		return tBool(d.Num.Sign() >= 0)
	}
	if lo, _ := rangeOf(d); lo != nil && lo.Sign() >= 0 {
		return tTrue
	}
	if _, hi := rangeOf(d); hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	return intern(&Term{Op: "le", Args: []*Term{a, b}, Sort: "bool"})
}
func tLt(a, b *Term) *Term {
	d := tSub(b, a)
	if d.isConst() {
		return tBool(d.Num.Sign() > 0)
	}
	if lo, _ := rangeOf(d); lo != nil && lo.Sign() > 0 {
		return tTrue
	}
	if _, hi := rangeOf(d); hi != nil && hi.Sign() <= 0 {
		return tFalse
	}
	return intern(&Term{Op: "lt", Args: []*Term{a, b}, Sort: "bool"})
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort == "int" && b.Sort == "int" {
		d := tSub(a, b)
		if d.isConst() {
			return tBool(d.Num.Sign() == 0)
		}
		lo, hi := rangeOf(d)
		if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return tFalse
		}
	}
	if a.Sort == "bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "eq", Args: []*Term{a, b}, Sort: "bool"})
}

func tNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	case "le":
		return tLt(a.Args[1], a.Args[0])
	case "lt":
		return tLe(a.Args[1], a.Args[0])
	}
	return intern(&Term{Op: "not", Args: []*Term{a}, Sort: "bool"})
}
func tAnd(xs ...*Term) *Term {
	var r []*Term
	for _, x := range xs {
		if x == tFalse {
			return tFalse
		}
		if x == tTrue {
			continue
		}
		r = append(r, x)
	}
	if len(r) == 0 {
		return tTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	return intern(&Term{Op: "and", Args: r, Sort: "bool"})
}
func tOr(xs ...*Term) *Term {
	var r []*Term
	for _, x := range xs {
		if x == tTrue {
			return tTrue
		}
		if x == tFalse {
			continue
		}
		r = append(r, x)
	}
	if len(r) == 0 {
		return tFalse
	}
	if len(r) == 1 {
		return r[0]
	}
	return intern(&Term{Op: "or", Args: r, Sort: "bool"})
}
func tImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	return intern(&Term{Op: "imp", Args: []*Term{a, b}, Sort: "bool"})
}
func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.Sort == "bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
	}
	return intern(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: a.Sort})
}

// ---- sequences

func elemSort(s string) string {
	if strings.HasPrefix(s, "Seq<") {
		return s[4 : len(s)-1]
	}
	return ""
}
func tEmpty(elem string) *Term { return tLit(elem) }
func tLit(elem string, xs ...*Term) *Term {
	return intern(&Term{Op: "lit", Args: xs, Sort: "Seq<" + elem + ">"})
}
func tBytesLit(b []byte) *Term {
	var xs []*Term
	for _, c := range b {
		xs = append(xs, tUncast(tInt(int64(c)), "u8"))
	}
	return tLit("u8", xs...)
}

// tFill(n, elem): n copies of the zero value
func tZeros(n *Term, elem string, zero *Term) *Term {
	if n.isConst() && n.Num.IsInt64() && n.Num.Int64() <= 64 && elem != "u8" {
		var xs []*Term
		for i := int64(0); i < n.Num.Int64(); i++ {
			xs = append(xs, zero)
		}
		return tLit(elem, xs...)
	}
	if isC(n, 0) {
		return tLit(elem)
	}
	if elem == "u8" {
		return tApp("zeros", "Seq<u8>", n)
	}
	return intern(&Term{Op: "fill", Args: []*Term{n, zero}, Sort: "Seq<" + elem + ">"})
}

// lengths of symbolic sequences that are known constants
var knownLen = map[*Term]*Term{}

func tLen(s *Term) *Term {
	if l, ok := knownLen[s]; ok {
		return l
	}
	switch s.Op {
	case "lit":
		return tInt(int64(len(s.Args)))
	case "concat":
		r := tInt(0)
		for _, a := range s.Args {
			r = tAdd(r, tLen(a))
		}
		return r
	case "subrange":
		return tSub(s.Args[2], s.Args[1])
	case "update":
		return tLen(s.Args[0])
	case "fill":
		return s.Args[0]
	case "ite":
		a, b := tLen(s.Args[1]), tLen(s.Args[2])
		if a == b {
			return a
		}
	case "app":
		switch s.Text {
		case "zeros":
			return s.Args[0]
		case "le2":
			return tInt(2)
		case "le4", "be4", "checksum4":
			return tInt(4)
		case "le8", "be8":
			return tInt(8)
		case "sha256", "sha256d":
			return tInt(32)
		case "ripemd160", "hash160":
			return tInt(20)
		case "rev":
			return tLen(s.Args[0])
		case "hex_enc":
			return tMul(tInt(2), tLen(s.Args[0]))
		case "cfb_enc", "cfb_dec":
			return tLen(s.Args[2])
		}
	}
	return intern(&Term{Op: "len", Args: []*Term{s}, Sort: "int"})
}

func tConcat(xs ...*Term) *Term {
	var r []*Term
	srt := ""
	for _, x := range xs {
		srt = x.Sort
		parts := []*Term{x}
		if x.Op == "concat" {
			parts = x.Args
		}
		for _, p := range parts {
			if p.Op == "lit" && len(p.Args) == 0 {
				continue
			}
			if p.Op == "lit" && len(r) > 0 && r[len(r)-1].Op == "lit" {
				l := r[len(r)-1]
				r[len(r)-1] = tLit(elemSort(srt), append(append([]*Term{}, l.Args...), p.Args...)...)
				continue
			}
			r = append(r, p)
		}
	}
	if len(r) == 0 {
		return tLit(elemSort(srt))
	}
	if len(r) == 1 {
		return r[0]
	}
	return intern(&Term{Op: "concat", Args: r, Sort: srt})
}

func tSub3(s, i, j *Term) *Term {
	if i == j {
		return tLit(elemSort(s.Sort))
	}
	if isC(i, 0) && tLen(s) == j {
		return s
	}
	switch s.Op {
	case "subrange":
		return tSub3(s.Args[0], tAdd(s.Args[1], i), tAdd(s.Args[1], j))
	case "lit":
		if i.isConst() && j.isConst() {
			a, b := i.Num.Int64(), j.Num.Int64()
			if a >= 0 && a <= b && b <= int64(len(s.Args)) {
				return tLit(elemSort(s.Sort), s.Args[a:b]...)
			}
		}
	case "fill":
		return tZeros(tSub(j, i), elemSort(s.Sort), s.Args[1])
	case "app":
		if s.Text == "zeros" {
			return tZeros(tSub(j, i), "u8", nil)
		}
	case "concat":
		// boundaries matching part boundaries
		pos := tInt(0)
		lo, hi := -1, -1
		for k := 0; k <= len(s.Args); k++ {
			if pos == i && lo < 0 {
				lo = k
			}
			if pos == j {
				hi = k
			}
			if k < len(s.Args) {
				pos = tAdd(pos, tLen(s.Args[k]))
			}
		}
		if lo >= 0 && hi >= lo {
			return tConcat(append([]*Term{tLit(elemSort(s.Sort))}, s.Args[lo:hi]...)...)
		}
		// inside a leading or trailing constant-length part
		if lo >= 0 && lo < len(s.Args) {
			// cut whole parts before lo
			off := tInt(0)
			for k := 0; k < lo; k++ {
				off = tAdd(off, tLen(s.Args[k]))
			}
			if lo > 0 {
				rest := tConcat(s.Args[lo:]...)
				return tSub3(rest, tInt(0), tSub(j, i))
			}
			// j inside first part?
			l0 := tLen(s.Args[0])
			if d := tSub(l0, j); d.isConst() && d.Num.Sign() >= 0 {
				return tSub3(s.Args[0], i, j)
			}
		}
		// i inside first part with constants
		if l0 := tLen(s.Args[0]); l0.isConst() && i.isConst() && i.Num.Sign() > 0 {
			if i.Num.Cmp(l0.Num) < 0 {
				d := tSub(j, l0)
				if lo2, _ := rangeOf(d); lo2 != nil && lo2.Sign() >= 0 {
					return tConcat(tSub3(s.Args[0], i, l0), tSub3(tConcat(s.Args[1:]...), tInt(0), d))
				}
			} else {
				return tSub3(tConcat(s.Args[1:]...), tSub(i, l0), tSub(j, l0))
			}
		}
	}
	return intern(&Term{Op: "subrange", Args: []*Term{s, i, j}, Sort: s.Sort})
}

// partAt finds the part of a concatenation that surely has element i.
func partAt(s, i *Term) (int, *Term) {
	pos := tInt(0)
	for k, p := range s.Args {
		l := tLen(p)
		if d := tSub(i, pos); d.isConst() && d.Num.Sign() >= 0 && l.isConst() && d.Num.Cmp(l.Num) < 0 {
			return k, d
		}
		pos = tAdd(pos, l)
	}
	return -1, nil
}

func tIndex(s, i *Term) *Term {
	es := elemSort(s.Sort)
	switch s.Op {
	case "lit":
		if i.isConst() && i.Num.IsInt64() {
			k := i.Num.Int64()
			if k >= 0 && k < int64(len(s.Args)) {
				return s.Args[k]
			}
		}
	case "subrange":
		return tIndex(s.Args[0], tAdd(s.Args[1], i))
	case "update":
		if s.Args[1] == i {
			return s.Args[2]
		}
		if d := tSub(s.Args[1], i); d.isConst() && d.Num.Sign() != 0 {
			return tIndex(s.Args[0], i)
		}
	case "concat":
		if i.isConst() {
			l0 := tLen(s.Args[0])
			if l0.isConst() {
				if i.Num.Cmp(l0.Num) < 0 {
					return tIndex(s.Args[0], i)
				}
				return tIndex(tConcat(s.Args[1:]...), tSub(i, l0))
			}
		}
		if k, d := partAt(s, i); k >= 0 {
			return tIndex(s.Args[k], d)
		}
	case "fill":
		return s.Args[1]
	case "app":
		if s.Text == "zeros" {
			return tUncast(tInt(0), "u8")
		}
	}
	return intern(&Term{Op: "index", Args: []*Term{s, i}, Sort: es})
}

func tUpdate(s, i, v *Term) *Term {
	if s.Op == "lit" && i.isConst() && i.Num.IsInt64() {
		k := i.Num.Int64()
		if k >= 0 && k < int64(len(s.Args)) {
			xs := append([]*Term{}, s.Args...)
			xs[k] = v
			return tLit(elemSort(s.Sort), xs...)
		}
	}
	if s.Op == "app" && s.Text == "zeros" && s.Args[0].isConst() && i.isConst() {
		n := s.Args[0].Num.Int64()
		k := i.Num.Int64()
		if n <= 64 && k >= 0 && k < n {
			var xs []*Term
			for q := int64(0); q < n; q++ {
				xs = append(xs, tUncast(tInt(0), "u8"))
			}
			xs[k] = v
			return tLit("u8", xs...)
		}
	}
	if s.Op == "fill" && s.Args[0].isConst() && i.isConst() {
		n := s.Args[0].Num.Int64()
		k := i.Num.Int64()
		if n <= 64 && k >= 0 && k < n {
			var xs []*Term
			for q := int64(0); q < n; q++ {
				xs = append(xs, s.Args[1])
			}
			xs[k] = v
			return tLit(elemSort(s.Sort), xs...)
		}
	}
	if s.Op == "concat" && !i.isConst() {
		if k, d := partAt(s, i); k >= 0 {
			ps := append([]*Term{}, s.Args...)
			ps[k] = tUpdate(ps[k], d, v)
			return tConcat(ps...)
		}
	}
	if s.Op == "concat" && i.isConst() {
		l0 := tLen(s.Args[0])
		if l0.isConst() {
			if i.Num.Cmp(l0.Num) < 0 {
				return tConcat(append([]*Term{tUpdate(s.Args[0], i, v)}, s.Args[1:]...)...)
			}
			return tConcat(s.Args[0], tUpdate(tConcat(s.Args[1:]...), tSub(i, l0), v))
		}
	}
	return intern(&Term{Op: "update", Args: []*Term{s, i, v}, Sort: s.Sort})
}

// splice: s[0..i) + r + s[i+len r ..)
func tSplice(s, i, r *Term) *Term {
	if s.Op == "app" && s.Text == "zeros" || s.Op == "lit" || s.Op == "concat" || s.Op == "fill" || s.Op == "var" || true {
		e := tAdd(i, tLen(r))
		return tConcat(tSub3(s, tInt(0), i), r, tSub3(s, e, tLen(s)))
	}
	return nil
}

// ---- options, structs

func optElem(s string) string {
	if strings.HasPrefix(s, "Option<") {
		return s[7 : len(s)-1]
	}
	return ""
}
func tSome(t *Term) *Term {
	if t.Op == "unwrap" && false {
		return t.Args[0]
	}
	return intern(&Term{Op: "some", Args: []*Term{t}, Sort: "Option<" + t.Sort + ">"})
}
func tNone(elem string) *Term {
	return intern(&Term{Op: "none", Sort: "Option<" + elem + ">"})
}
func tIsNone(t *Term) *Term {
	switch t.Op {
	case "some":
		return tFalse
	case "none":
		return tTrue
	case "ite":
		return tIte(t.Args[0], tIsNone(t.Args[1]), tIsNone(t.Args[2]))
	}
	return intern(&Term{Op: "isnone", Args: []*Term{t}, Sort: "bool"})
}
func tUnwrap(t *Term) *Term {
	if t.Op == "some" {
		return t.Args[0]
	}
	if t.Op == "ite" && t.Args[1].Op == "none" {
		return tUnwrap(t.Args[2])
	}
	if t.Op == "ite" && t.Args[2].Op == "none" {
		return tUnwrap(t.Args[1])
	}
	return intern(&Term{Op: "unwrap", Args: []*Term{t}, Sort: optElem(t.Sort)})
}

// option from nil flag and pointee
func tOpt(isNil, v *Term) *Term {
	if isNil == tFalse {
		return tSome(v)
	}
	if isNil == tTrue {
		return tNone(v.Sort)
	}
	if isNil.Op == "isnone" && v.Op == "unwrap" && v.Args[0] == isNil.Args[0] {
		return isNil.Args[0]
	}
	return tIte(isNil, tNone(v.Sort), tSome(v))
}

func tStruct(srt string, names []string, vals []*Term) *Term {
	// re-assembled identical struct
	if len(vals) > 0 && vals[0].Op == "field" && vals[0].Text == names[0] && vals[0].Args[0].Sort == srt {
		base := vals[0].Args[0]
		same := true
		for i, v := range vals {
			if !(v.Op == "field" && v.Text == names[i] && v.Args[0] == base) {
				same = false
			}
		}
		if same {
			return base
		}
	}
	return intern(&Term{Op: "struct", Text: strings.Join(names, ","), Args: vals, Sort: srt})
}
func tField(t *Term, name, srt string) *Term {
	if t.Op == "struct" {
		for i, n := range strings.Split(t.Text, ",") {
			if n == name {
				return t.Args[i]
			}
		}
	}
	return intern(&Term{Op: "field", Text: name, Args: []*Term{t}, Sort: srt})
}

// ---- printing

type printer struct {
	names map[*Term]string
}

// nest writes a concatenation with the parentheses to the right, the normal form of concat_assoc.
func nest(s []string) string {
	r := s[len(s)-1]
	for i := len(s) - 2; i >= 0; i-- {
		r = "(" + s[i] + " + " + r + ")"
	}
	return r
}

// leRun: the n bytes of xs from i on are the little endian bytes of one number.
func leRun(xs []*Term, i, n int) *Term {
	if i+n > len(xs) || xs[i].Op != "uncast" || xs[i].Args[0].Op != "mod" {
		return nil
	}
	x := xs[i].Args[0].Args[0]
	if x.isConst() || tMod(x, tInt(256)) != xs[i].Args[0] {
		return nil
	}
	c := big.NewInt(1)
	for k := 0; k < n; k++ {
		if tUncast(tMod(tDiv(x, tBig(c)), tInt(256)), "u8") != xs[i+k] {
			return nil
		}
		c = new(big.Int).Mul(c, big.NewInt(256))
	}
	return x
}

// pieces splits a literal byte string into little endian numbers and the rest.
func (p *printer) pieces(t *Term) []string {
	var r, s []string
	flush := func() {
		if len(s) > 0 {
			r = append(r, "seq!["+strings.Join(s, ", ")+"]")
		}
		s = nil
	}
	for i := 0; i < len(t.Args); {
		if t.Sort == "Seq<u8>" {
			if x := leRun(t.Args, i, 8); x != nil {
				flush()
				r = append(r, "le64("+p.str(x)+")")
				i += 8
				continue
			}
			if x := leRun(t.Args, i, 4); x != nil {
				flush()
				r = append(r, "le32("+p.str(x)+")")
				i += 4
				continue
			}
		}
		s = append(s, p.str(t.Args[i]))
		i++
	}
	flush()
	return r
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.body(t)
}
func (p *printer) body(t *Term) string {
	a := func(i int) string { return p.str(t.Args[i]) }
	switch t.Op {
	case "const":
		if t.Num.Sign() < 0 {
			return "(-" + new(big.Int).Neg(t.Num).String() + "int)"
		}
		return t.Num.String() + "int"
	case "true", "false":
		return t.Op
	case "var":
		return t.Text
	case "app":
		var s []string
		for i := range t.Args {
			s = append(s, a(i))
		}
		return t.Text + "(" + strings.Join(s, ", ") + ")"
	case "raw":
		return "(" + expandRaw(t.Text, func(i int) string { return a(i) }) + ")"
	case "lin":
		var sb strings.Builder
		sb.WriteString("(")
		first := true
		for i, x := range t.lin.at {
			k := t.lin.co[i]
			neg := k.Sign() < 0
			ab := new(big.Int).Abs(k)
			if first {
				if neg {
					sb.WriteString("0int - ")
				}
			} else if neg {
				sb.WriteString(" - ")
			} else {
				sb.WriteString(" + ")
			}
			first = false
			if ab.Cmp(big.NewInt(1)) == 0 {
				sb.WriteString(p.str(x))
			} else {
				sb.WriteString("(" + ab.String() + "int * " + p.str(x) + ")")
			}
		}
		if t.lin.c.Sign() > 0 {
			sb.WriteString(" + " + t.lin.c.String() + "int")
		} else if t.lin.c.Sign() < 0 {
			sb.WriteString(" - " + new(big.Int).Neg(t.lin.c).String() + "int")
		}
		sb.WriteString(")")
		return sb.String()
	case "mul":
		return "(" + a(0) + " * " + a(1) + ")"
	case "div":
		return "(" + a(0) + " / " + a(1) + ")"
	case "mod":
		return "(" + a(0) + " % " + a(1) + ")"
	case "le":
		return "(" + a(0) + " <= " + a(1) + ")"
	case "lt":
		return "(" + a(0) + " < " + a(1) + ")"
	case "eq":
		return "(" + a(0) + " == " + a(1) + ")"
	case "not":
		return "(!" + a(0) + ")"
	case "and", "or":
		op := " && "
		if t.Op == "or" {
			op = " || "
		}
		var s []string
		for i := range t.Args {
			s = append(s, a(i))
		}
		return "(" + strings.Join(s, op) + ")"
	case "imp":
		return "(" + a(0) + " ==> " + a(1) + ")"
	case "ite":
		return "(if " + a(0) + " { " + a(1) + " } else { " + a(2) + " })"
	case "cast":
		return "(" + a(0) + " as int)"
	case "uncast":
		if t.Args[0].isConst() {
			if t.Args[0].Num.Sign() < 0 {
				return "(-" + new(big.Int).Neg(t.Args[0].Num).String() + t.Sort + ")"
			}
			return t.Args[0].Num.String() + t.Sort
		}
		return "(" + a(0) + " as " + t.Sort + ")"
	case "lit":
		if len(t.Args) == 0 {
			return "Seq::<" + elemSort(t.Sort) + ">::empty()"
		}
		var s []string
		for i := range t.Args {
			s = append(s, a(i))
		}
		if n := specLit[strings.Join(s, ", ")]; n != "" {
			return n + "()"
		}
		return nest(p.pieces(t))
	case "fill":
		return "Seq::<" + elemSort(t.Sort) + ">::new(" + a(0) + " as nat, |zz: int| " + a(1) + ")"
	case "len":
		return "(" + a(0) + ".len() as int)"
	case "concat":
		var s []string
		for _, x := range t.Args {
			if x.Op == "lit" && p.names[x] == "" && len(x.Args) > 0 {
				var es []string
				for _, y := range x.Args {
					es = append(es, p.str(y))
				}
				if specLit[strings.Join(es, ", ")] == "" {
					s = append(s, p.pieces(x)...)
					continue
				}
			}
			s = append(s, p.str(x))
		}
		return nest(s)
	case "subrange":
		return a(0) + ".subrange(" + a(1) + ", " + a(2) + ")"
	case "index":
		return a(0) + "[" + a(1) + "]"
	case "update":
		return a(0) + ".update(" + a(1) + ", " + a(2) + ")"
	case "some":
		return "Some(" + a(0) + ")"
	case "none":
		return "None::<" + optElem(t.Sort) + ">"
	case "isnone":
		return a(0) + ".is_none()"
	case "unwrap":
		return a(0) + ".unwrap()"
	case "field":
		return a(0) + "." + t.Text
	case "struct":
		var s []string
		for i, n := range strings.Split(t.Text, ",") {
			if n != "" {
				s = append(s, n+": "+a(i))
			}
		}
		return t.Sort + " { " + strings.Join(s, ", ") + " }"
	}
	panic("print " + t.Op)
}

func expandRaw(text string, f func(int) string) string {
	var sb strings.Builder
	for {
		i := strings.IndexByte(text, 1)
		if i < 0 {
			sb.WriteString(text)
			return sb.String()
		}
		sb.WriteString(text[:i])
		text = text[i+1:]
		j := strings.IndexByte(text, 1)
		n := 0
		fmt.Sscanf(text[:j], "%d", &n)
		sb.WriteString(f(n))
		text = text[j+1:]
	}
}

func (t *Term) children() []*Term {
	if t.Op == "lin" {
		return t.lin.at
	}
	return t.Args
}

func (t *Term) String() string { return (&printer{}).str(t) }

// substTerm replaces variables (or other leaves) simultaneously.
func substTerm(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.children()) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var as []*Term
		ch := false
		for _, a := range t.children() {
			r := rec(a)
			if r != a {
				ch = true
			}
			as = append(as, r)
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "lin":
		r := tBig(t.lin.c)
		for i, a := range as {
			r = tAdd(r, tMul(tBig(t.lin.co[i]), a))
		}
		return r
	case "app":
		return tApp(t.Text, t.Sort, as...)
	case "raw":
		return tRaw(t.Text, t.Sort, as...)
	case "mul":
		return tMul(as[0], as[1])
	case "div":
		return tDiv(as[0], as[1])
	case "mod":
		return tMod(as[0], as[1])
	case "le":
		return tLe(as[0], as[1])
	case "lt":
		return tLt(as[0], as[1])
	case "eq":
		return tEq(as[0], as[1])
	case "not":
		return tNot(as[0])
	case "and":
		return tAnd(as...)
	case "or":
		return tOr(as...)
	case "imp":
		return tImp(as[0], as[1])
	case "ite":
		return tIte(as[0], as[1], as[2])
	case "cast":
		return tCast(as[0])
	case "uncast":
		return tUncast(as[0], t.Sort)
	case "lit":
		return tLit(elemSort(t.Sort), as...)
	case "fill":
		return tZeros(as[0], elemSort(t.Sort), as[1])
	case "len":
		return tLen(as[0])
	case "concat":
		return tConcat(as...)
	case "subrange":
		return tSub3(as[0], as[1], as[2])
	case "index":
		return tIndex(as[0], as[1])
	case "update":
		return tUpdate(as[0], as[1], as[2])
	case "some":
		return tSome(as[0])
	case "isnone":
		return tIsNone(as[0])
	case "unwrap":
		return tUnwrap(as[0])
	case "struct":
		return tStruct(t.Sort, strings.Split(t.Text, ","), as)
	case "field":
		return tField(as[0], t.Text, t.Sort)
	}
	panic("rebuild " + t.Op)
}

// freeVars collects variables.
func freeVars(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "var" {
			out[t] = true
		}
		for _, a := range t.children() {
			rec(a)
		}
	}
	rec(t)
}

// specLit names long byte literals the specification library declares (//@literal name text).
var specLit = map[string]string{}

func loadSpecLits() {
	files, _ := filepath.Glob(filepath.Join(verifDir, "spec", "*.rs"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//@literal ") {
				p := strings.SplitN(l[11:], " ", 2)
				t := litText(p[1])
				specLit[t[5:len(t)-1]] = p[0]
			}
		}
	}
}

func litText(x string) string {
	var s []string
	for _, c := range []byte(x) {
		s = append(s, fmt.Sprintf("%du8", c))
	}
	return "seq![" + strings.Join(s, ", ") + "]"
}

// ---- floating point, read as mathematical reals

func tRealInt(n *Term) *Term {
	if n.isConst() && n.Num.Sign() >= 0 {
		return intern(&Term{Op: "raw", Text: n.Num.String() + "real", Sort: "real"})
	}
	return tRaw("\x010\x01 as real", "real", n)
}

func realLe(a, b *Term) *Term { return tRaw("\x010\x01 <= \x011\x01", "bool", a, b) }

func realConst(c constant.Value) Value {
	num, ok1 := new(big.Int).SetString(constant.Num(c).ExactString(), 10)
	den, ok2 := new(big.Int).SetString(constant.Denom(c).ExactString(), 10)
	if !ok1 || !ok2 || den.Sign() <= 0 {
		return VBad{"floating-point constant"}
	}
	neg := num.Sign() < 0
	t := tRealInt(new2(num))
	if den.Cmp(big.NewInt(1)) != 0 {
		t = tRaw("\x010\x01 / \x011\x01", "real", t, tRealInt(tBig(den)))
	}
	if neg {
		t = tRaw("-\x010\x01", "real", t)
	}
	return VFlt{t}
}

func new2(n *big.Int) *Term { return tBig(new(big.Int).Abs(n)) }
