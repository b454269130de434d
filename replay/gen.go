package main

import (
	"bytes"
	_ "embed"
	"encoding/hex"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

//go:embed baseline.txt
var baselineTxt string

// Dict holds the literals of the repository's current source; those which the original did not
// have are tried more often.
type Dict struct {
	ints, newInts []uint64
	strs, newStrs []string
}

func mineLits(repo string) map[string]bool {
	m := map[string]bool{}
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok {
				switch l.Kind {
				case token.INT:
					if b, ok := new(big.Int).SetString(l.Value, 0); ok && b.IsUint64() {
						m["i"+b.String()] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(l.Value); err == nil {
						m["i"+fmt.Sprint([]rune(s)[0])] = true
					}
				case token.STRING:
					if s, err := strconv.Unquote(l.Value); err == nil && len(s) < 200 && !strings.Contains(s, "\n") {
						m["s"+s] = true
					}
				}
			}
			return true
		})
		return nil
	})
	return m
}

func loadDict(repo string) *Dict {
	base := map[string]bool{}
	for _, l := range strings.Split(baselineTxt, "\n") {
		base[l] = true
	}
	d := &Dict{}
	for _, k := range sortedLits(repo) {
		if k[0] == 'i' {
			v, _ := strconv.ParseUint(k[1:], 10, 64)
			d.ints = append(d.ints, v)
			if !base[k] {
				d.newInts = append(d.newInts, v)
			}
		} else {
			d.strs = append(d.strs, k[1:])
			if !base[k] {
				d.newStrs = append(d.newStrs, k[1:])
			}
		}
	}
	return d
}

// G generates the inputs of one case.
type G struct {
	r          *rand.Rand
	enum       uint64 // remaining digits of the systematic enumeration
	enumOn     bool
	d          *Dict
	ins        []string
	loud       bool
	failed     bool
	nontrivial bool
	got, want  string
	bufs       []frame
	n          int
	src        *source
	shared     bool          // scripts are shared between inputs: do not change one in place
	objs       []interface{} // objects the library made, emptied before the case is run again
	res        [][]byte      // results seen, overwritten before the case is run again
}

// source counts the draws and can change one of them
type source struct {
	rand.Source64
	n, flip int
}

func (s *source) Uint64() uint64 {
	v := s.Source64.Uint64()
	if s.n == s.flip {
		v = v*0x9e3779b97f4a7c15 + 0x1234567
	}
	s.n++
	return v
}
func (s *source) Int63() int64 { return int64(s.Uint64() >> 1) }

// curG is the case being run
var curG *G

func (g *G) track(b []byte) {
	if g != nil && len(g.res) < 5000 {
		g.res = append(g.res, b)
	}
}

// spoil notes an object the library made, which belongs to the caller
func (g *G) spoil(x interface{}) {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Ptr && !v.IsNil() && len(g.objs) < 1000 {
		g.objs = append(g.objs, x)
	}
}

// spoil overwrites exported fields of the objects noted
func spoil(objs []interface{}, mask uint64) {
	for _, x := range objs {
		if b, ok := x.(*big.Int); ok {
			b.SetInt64(0x5115)
			continue
		}
		v := reflect.ValueOf(x).Elem()
		if v.Kind() != reflect.Struct {
			v.Set(reflect.Zero(v.Type()))
			continue
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() && mask>>uint(i)&1 != 0 {
				f.Set(reflect.Zero(f.Type()))
			}
		}
	}
}

// twice does f again after the objects the first time gave were changed
func (g *G) twice(f func()) {
	k := len(g.objs)
	f()
	spoil(g.objs[k:], g.r.Uint64())
	f()
}

type frame struct {
	name string
	buf  []byte // full capacity
	was  []byte
}

func newG(seed int64, n int, d *Dict) *G {
	src := &source{Source64: rand.NewSource(seed*1000003 + int64(n)*7919 + 17).(rand.Source64), flip: -1}
	g := &G{r: rand.New(src), d: d, n: n, src: src}
	if n%2 == 0 {
		g.enum, g.enumOn = uint64(n/2), true
	}
	return g
}

// pick chooses among n possibilities; in an enumerating case the first choices run through all.
func (g *G) pick(n int) int {
	if n <= 1 {
		return 0
	}
	if g.enumOn {
		v := int(g.enum % uint64(n))
		g.enum /= uint64(n)
		if g.enum == 0 {
			g.enumOn = false
		}
		return v
	}
	return g.r.Intn(n)
}

// choose is like pick but never takes part in the enumeration
func (g *G) choose(n int) int {
	if n <= 1 {
		return 0
	}
	return g.r.Intn(n)
}
func (g *G) one(k int) bool { return g.r.Intn(k) == 0 }

var sizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35, 36, 37, 40, 41, 63, 64, 65, 66, 71, 72, 73, 74, 75, 76, 77, 78, 79, 82, 83, 84, 87, 88, 89, 99, 100, 101, 105, 106, 107, 108, 127, 128, 129, 200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 520, 521, 1000, 1024}
var bigSizes = []int{4095, 4096, 4097, 8192, 10000, 32767, 32768, 32769, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65540, 70000, 100000, 131072, 200000}

func (g *G) dictInt(max uint64) (uint64, bool) {
	l := g.d.ints
	if len(g.d.newInts) > 0 && g.r.Intn(3) > 0 {
		l = g.d.newInts
	}
	for t := 0; t < 6 && len(l) > 0; t++ {
		v := l[g.r.Intn(len(l))] + uint64(g.r.Intn(3)) - 1
		if v <= max {
			return v, true
		}
	}
	return 0, false
}

// size returns a length up to max
func (g *G) size(max int) int {
	if g.enumOn {
		v := sizes[g.pick(len(sizes))]
		if v <= max {
			return v
		}
	}
	k := g.r.Intn(10)
	if len(g.d.newInts) > 0 && g.r.Intn(4) == 0 {
		k = 9
	}
	switch {
	case k < 4:
		if v := sizes[g.r.Intn(len(sizes))]; v <= max {
			return v
		}
	case k == 4 && g.r.Intn(8) == 0:
		if v := bigSizes[g.r.Intn(len(bigSizes))]; v <= max {
			return v
		}
	case k == 9:
		if v, ok := g.dictInt(uint64(max)); ok {
			return int(v)
		}
	case k < 8:
		m := max
		if m > 80 {
			m = 80
		}
		return g.r.Intn(m + 1)
	}
	m := max
	if m > 600 {
		m = 600
	}
	return g.r.Intn(m + 1)
}

func (g *G) u64() uint64 {
	edges := []uint64{0, 1, 2, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0xffffffffff, 1 << 40, 1 << 44, 2100000000000000, 1<<48 - 1, 1 << 48, 1<<53 + 1, 1<<56 - 1, 1 << 56, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	switch g.pick(4) {
	case 0:
		return edges[g.pick(len(edges))]
	case 1:
		return g.r.Uint64() >> uint(g.r.Intn(64))
	case 2:
		if v, ok := g.dictInt(1<<64 - 1); ok {
			return v
		}
		fallthrough
	default:
		return g.r.Uint64()
	}
}
func (g *G) u32() uint32 {
	edges := []uint32{0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x01020304}
	switch g.pick(4) {
	case 0:
		return edges[g.pick(len(edges))]
	case 1:
		return g.r.Uint32() >> uint(g.r.Intn(32))
	case 2:
		if v, ok := g.dictInt(1<<32 - 1); ok {
			return uint32(v)
		}
		fallthrough
	default:
		return g.r.Uint32()
	}
}

var byteEdges = []byte{0, 1, 2, 3, 4, 5, 6, 7, 0x0a, 0x14, 0x20, 0x21, 0x30, 0x41, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x52, 0x60, 0x61, 0x6a, 0x6f, 0x75, 0x76, 0x7f, 0x80, 0x81, 0x87, 0x88, 0xa9, 0xac, 0xad, 0xae, 0xaf, 0xfc, 0xfd, 0xfe, 0xff}

func (g *G) byte() byte {
	if g.r.Intn(2) == 0 {
		return byteEdges[g.pick(len(byteEdges))]
	}
	return byte(g.r.Intn(256))
}

// raw returns n bytes in various styles
func (g *G) raw(n int) []byte {
	b := make([]byte, n)
	switch g.choose(9) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		g.r.Read(b)
		for i := 0; i < len(b) && i < g.r.Intn(6)+1; i++ {
			b[i] = 0
		}
	case 3:
		for i := range b {
			b[i] = byteEdges[g.r.Intn(len(byteEdges))]
		}
	case 4:
		for i := range b {
			b[i] = byte(i)
		}
	case 5:
		g.r.Read(b)
		for i := 0; i < len(b) && i < 3; i++ {
			b[len(b)-1-i] = 0
		}
	case 6:
		for i := range b {
			b[i] = byte(32 + g.r.Intn(95))
		}
	default:
		g.r.Read(b)
	}
	if n > 0 && n < 200 && g.one(6) { // leading byte of interest
		b[0] = g.byte()
	}
	return b
}

// own returns a copy of b with spare capacity whose every byte must stay as it is
func (g *G) own(name string, b []byte) []byte {
	extra := 0
	if g.r.Intn(4) > 0 {
		extra = 1 + g.r.Intn(70)
	}
	full := make([]byte, len(b)+extra)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xa5
	}
	g.bufs = append(g.bufs, frame{name, full, append([]byte{}, full...)})
	return full[:len(b)]
}

func (g *G) frames() {
	for _, f := range g.bufs {
		if !bytes.Equal(f.buf, f.was) && !g.failed {
			g.failed = true
			g.got = fmt.Sprintf("the caller's buffer %s was changed to %x", f.name, f.buf)
			g.want = fmt.Sprintf("unchanged %x", f.was)
		}
	}
}

// in records an input
func (g *G) in(name string, v interface{}) {
	var s string
	switch x := v.(type) {
	case []byte:
		s = fmt.Sprintf("%s=%x", name, x)
	case [][]byte:
		s = name + "=["
		for _, y := range x {
			s += fmt.Sprintf("%x ", y)
		}
		s += "]"
	case string:
		s = fmt.Sprintf("%s=%q", name, x)
	default:
		s = fmt.Sprintf("%s=%v", name, x)
	}
	g.ins = append(g.ins, s)
	if g.loud {
		fmt.Fprintln(os.Stderr, "@"+cut(s, 5000))
	}
}
func (g *G) input() string { return strings.Join(g.ins, " ") }

// eq fails the case when got and want differ
func (g *G) eq(what string, got, want interface{}) {
	switch x := got.(type) {
	case []byte:
		g.track(x)
	case [][]byte:
		for _, y := range x {
			g.track(y)
		}
	}
	a, b := show(got), show(want)
	if a != b {
		g.failed = true
		g.got, g.want = what+" "+a, what+" "+b
		panic(stop{})
	}
}
func (g *G) ok(what string, c bool) { g.eq(what, c, true) }

func show(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return hex.EncodeToString(x)
	case [][]byte:
		s := fmt.Sprintf("%d[", len(x))
		for _, y := range x {
			s += hex.EncodeToString(y) + ","
		}
		return s + "]"
	case string:
		return strconv.Quote(x)
	case error:
		return "error " + x.Error()
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%v", v)
}

func (g *G) str() string {
	switch g.choose(7) {
	case 0:
		return ""
	case 1:
		l := g.d.strs
		if len(g.d.newStrs) > 0 && g.r.Intn(2) > 0 {
			l = g.d.newStrs
		}
		if len(l) > 0 {
			return l[g.r.Intn(len(l))]
		}
		return "x"
	case 2:
		return string(g.raw(g.r.Intn(40)))
	case 3:
		return hex.EncodeToString(g.raw(g.r.Intn(40)))
	case 4:
		return "日本語テキスト"[:3*g.r.Intn(7)]
	default:
		n := g.r.Intn(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + g.r.Intn(95))
		}
		return string(b)
	}
}

// hexMangle turns valid hex into something that may be invalid, upper case or of odd length
func (g *G) hexMangle(s string) string {
	switch g.pick(8) {
	case 0:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
	case 1:
		t := "gGzZ /:@`\x00\xff0"
		return s + t[g.r.Intn(len(t)):][:1]
	case 2:
		if len(s) > 0 {
			i := g.r.Intn(len(s))
			t := "gG/:@` .-\x00\x80"
			return s[:i] + t[g.r.Intn(len(t)):][:1] + s[i+1:]
		}
	case 3:
		return strings.ToUpper(s)
	case 4:
		return "0x" + s
	case 5:
		return " " + s
	}
	return s
}

func (g *G) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		switch g.choose(6) {
		case 0:
			if len(b) > 0 {
				b[g.r.Intn(len(b))] ^= 1 << uint(g.r.Intn(8))
			}
		case 1:
			b = b[:g.r.Intn(len(b)+1)]
		case 2:
			b = append(b, g.raw(1+g.r.Intn(5))...)
		case 3:
			if len(b) > 0 {
				b[g.r.Intn(len(b))] = g.byte()
			}
		case 4:
			i := g.r.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{g.byte()}, b[i:]...)...)
		case 5:
			if len(b) > 1 {
				i := g.r.Intn(len(b) - 1)
				b = append(b[:i:i], b[i+1:]...)
			}
		}
	}
	return b
}
