package main

import (
	"fmt"
	"sort"
	"strings"
)

// emitter writes Verus proof functions and remembers which line belongs to which obligation.
type emitter struct {
	sb    strings.Builder
	line  int
	obAt  map[int]*Oblig
	fnAt  map[int]*vcOut // first and body lines of each proof function
	outs  []*vcOut
	smoke map[int]*vcOut
	// obligations about the tables of the source
	tabObs []*Oblig
	tabNew []string
}

type vcOut struct {
	name     string
	fn       string
	from, to int
	obs      []*Oblig
	vc       *VC
	smoke    bool
	fails    bool
}

func (m *emitter) w(format string, a ...interface{}) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	m.sb.WriteString(s)
	m.sb.WriteByte('\n')
	m.line += strings.Count(s, "\n") + 1
}

func goalStr(p *printer, t *Term) string {
	switch t.Op {
	case "eq":
		s := t.Args[0].Sort
		if strings.HasPrefix(s, "Seq<") {
			el := elemSort(s)
			if _, _, ok := machRange(el); ok || el == "int" || el == "bool" {
				return p.str(t.Args[0]) + " =~= " + p.str(t.Args[1])
			}
			return p.str(t.Args[0]) + " =~~= " + p.str(t.Args[1])
		}
		if _, _, ok := machRange(s); !ok && s != "int" && s != "bool" && s != "real" {
			return p.str(t.Args[0]) + " =~~= " + p.str(t.Args[1])
		}
	case "and":
		var xs []string
		for _, a := range t.Args {
			xs = append(xs, "("+goalStr(p, a)+")")
		}
		return strings.Join(xs, " && ")
	case "imp":
		return p.str(t.Args[0]) + " ==> (" + goalStr(p, t.Args[1]) + ")"
	}
	return p.str(t)
}

func (s *PStep) terms() []*Term {
	if s.kind == "hint" {
		return s.args
	}
	return []*Term{s.t}
}

// emitVC writes one proof function.  only >= 0 keeps a single obligation as goal.
func (m *emitter) emitVC(vc *VC, name string, rl int, only int, smoke bool) {
	steps := vc.Steps
	vars := map[*Term]bool{}
	uses := map[*Term]int{}
	seen := map[*Term]bool{}
	var count func(t *Term)
	count = func(t *Term) {
		uses[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "var" {
			vars[t] = true
		}
		for _, a := range t.children() {
			count(a)
		}
	}
	if only >= 0 {
		n := 0
		for i, s := range steps {
			if s.kind == "ob" {
				if n == only {
					steps = steps[:i+1]
					break
				}
				n++
			}
		}
	}
	for _, s := range steps {
		for _, t := range s.terms() {
			count(t)
		}
	}
	var vs []string
	if !smoke && only < 0 {
		k := 0
		for _, s := range steps {
			if s.kind == "ob" {
				if s.ob.Cand != nil {
					vs = append(vs, fmt.Sprintf("cb%d: bool", k))
				}
				k++
			}
		}
	}
	for v := range vars {
		vs = append(vs, v.Text+": "+v.Sort)
	}
	sort.Strings(vs)
	out := &vcOut{name: name, fn: vc.Fn, vc: vc, smoke: smoke}
	if rl > 0 {
		m.w("#[verifier::rlimit(%d)]", rl)
	}
	out.from = m.line + 1
	m.w("proof fn %s(%s) {", name, strings.Join(vs, ", "))
	p := &printer{names: map[*Term]string{}}
	nlet := 0
	sizeMemo := map[*Term]int{}
	var size func(t *Term) int
	size = func(t *Term) int {
		if n, ok := sizeMemo[t]; ok {
			return n
		}
		n := 1
		for _, a := range t.children() {
			n += size(a)
			if n > 1000000 {
				n = 1000000
			}
		}
		sizeMemo[t] = n
		return n
	}
	done := map[*Term]bool{}
	var lets func(t *Term)
	lets = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		for _, a := range t.children() {
			lets(a)
		}
		if uses[t] > 1 && size(t) >= 4 && len(t.children()) > 0 {
			switch t.Op {
			case "cast", "uncast", "not", "some", "isnone", "field", "unwrap":
				return
			}
			nlet++
			nm := fmt.Sprintf("l%d", nlet)
			srt := t.Sort
			m.w("  let %s: %s = %s;", nm, srt, p.body(t))
			p.names[t] = nm
		}
	}
	n := 0
	for _, s := range steps {
		for _, t := range s.terms() {
			lets(t)
		}
		switch s.kind {
		case "hyp":
			m.w("  assume(%s);", p.str(s.t))
		case "hint":
			txt := expandRaw(s.text, func(i int) string { return p.str(s.args[i]) })
			if !strings.HasSuffix(txt, ";") && !strings.HasSuffix(txt, "}") {
				txt += ";"
			}
			m.w("  %s", txt)
		case "ob":
			if smoke || only >= 0 && n != only {
				m.w("  assume(%s);", p.str(s.t))
			} else {
				m.obAt[m.line+1] = s.ob
				out.obs = append(out.obs, s.ob)
				if s.ob.Cand != nil && only < 0 {
					// candidates are judged independently of each other
					m.w("  if cb%d { assert(%s); }", n, goalStr(p, s.t))
				} else {
					m.w("  assert(%s);", goalStr(p, s.t))
				}
			}
			n++
		}
	}
	if smoke {
		m.smoke[m.line+1] = out
		m.w("  assert(false);")
	}
	m.w("}")
	out.to = m.line
	m.outs = append(m.outs, out)
}

func (m *emitter) structs() {
	for _, n := range structOrder {
		si := structTab[n]
		m.w("#[verifier::ext_equal]")
		var fs []string
		for i, f := range si.Fields {
			fs = append(fs, "pub "+f+": "+si.Sorts[i])
		}
		m.w("pub ghost struct %s { %s }", n, strings.Join(fs, ", "))
	}
}
