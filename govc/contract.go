package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type MV struct{ Name, Sort string }
type Tmpl struct {
	Vars []MV
	Text string
}

var outEq = regexp.MustCompile(`^[a-zA-Z0-9]+_out = `)

type Contract struct {
	Key       string
	Trusted   bool
	File      string
	Params    []string
	Results   []string
	Free      []string
	Requires  []string
	Fits      []string // byte strings the function builds, assumed to fit into memory
	Ensures   []string
	Returns   map[string]string
	Fresh     map[string]bool
	Modifies  map[string]bool
	ModFields map[string][]string // only these fields of the parameter
	Shares    map[string]bool
	Nilable   map[string]bool
	Alias     map[string]string
	Inplace   []string
	Dyn       map[string]string
	Globals   map[string]string // final values of package variables (contract of a package initialiser)
	Invs      []Tmpl
	Measures  []Tmpl
	HintIn    []string
	HintOut   []string
	HintLoop  []Tmpl
	HintBack  []Tmpl
	Pure      bool
	Decreases string
	Soft      bool
	Inline    bool // callers read the body instead (the result is the caller's own memory)
	Rlimit    int
	Used      bool
}

func parseContracts(dir string) (map[string]*Contract, error) {
	res := map[string]*Contract{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.ctr"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		// join continuation lines
		var lines []string
		var nos []int
		for i, l := range strings.Split(string(b), "\n") {
			if k := strings.Index(l, "//"); k >= 0 {
				l = l[:k]
			}
			l = strings.TrimRight(l, " \t")
			if strings.TrimSpace(l) == "" {
				continue
			}
			if strings.HasPrefix(l, "    ") && len(lines) > 0 {
				lines[len(lines)-1] += " " + strings.TrimSpace(l)
				continue
			}
			lines = append(lines, l)
			nos = append(nos, i+1)
		}
		var cur *Contract
		for i, l := range lines {
			bad := func(m string) error { return fmt.Errorf("%s:%d: %s: %s", f, nos[i], m, l) }
			if !strings.HasPrefix(l, " ") {
				tr := false
				s := l
				if strings.HasPrefix(s, "trusted ") {
					tr = true
					s = s[8:]
				}
				if !strings.HasPrefix(s, "func ") {
					return nil, bad("expected func")
				}
				s = strings.TrimSpace(s[5:])
				// key ends at the '(' that opens the parameter list: the last two (or three) parenthesised groups
				free := ""
				if k := strings.LastIndex(s, " free("); k >= 0 {
					free = s[k+6 : len(s)-1]
					s = strings.TrimSpace(s[:k])
				}
				ro := strings.LastIndex(s, "(")
				rc := strings.LastIndex(s, ")")
				if ro < 0 || rc < ro {
					return nil, bad("syntax")
				}
				results := s[ro+1 : rc]
				s = strings.TrimSpace(s[:ro])
				if !strings.HasSuffix(s, ")") {
					return nil, bad("syntax")
				}
				po := strings.LastIndex(s, "(")
				params := s[po+1 : len(s)-1]
				key := strings.TrimSpace(s[:po])
				cur = &Contract{Key: key, Trusted: tr, File: f, Params: splitList(params), Results: splitList(results), Free: splitList(free),
					Returns: map[string]string{}, Fresh: map[string]bool{}, Modifies: map[string]bool{}, ModFields: map[string][]string{}, Shares: map[string]bool{}, Nilable: map[string]bool{}, Alias: map[string]string{}, Dyn: map[string]string{}}
				if res[key] != nil {
					return nil, bad("duplicate contract")
				}
				res[key] = cur
				continue
			}
			if cur == nil {
				return nil, bad("clause outside func")
			}
			s := strings.TrimSpace(l)
			kw := s
			rest := ""
			if k := strings.IndexAny(s, " "); k >= 0 {
				kw, rest = s[:k], strings.TrimSpace(s[k+1:])
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, rest)
			case "fits":
				cur.Fits = append(cur.Fits, rest)
			case "ensures":
				cur.Ensures = append(cur.Ensures, rest)
			case "returns":
				if len(cur.Results) == 1 && !strings.HasPrefix(rest, cur.Results[0]+" = ") && !strings.HasPrefix(rest, cur.Results[0]+"_nil = ") && !outEq.MatchString(rest) {
					cur.Returns[cur.Results[0]] = rest
				} else {
					k := strings.Index(rest, "=")
					if k < 0 {
						return nil, bad("returns name = expr")
					}
					cur.Returns[strings.TrimSpace(rest[:k])] = strings.TrimSpace(rest[k+1:])
				}
			case "fresh":
				for _, x := range splitList(rest) {
					cur.Fresh[x] = true
				}
			case "modifies":
				for _, x := range splitList(rest) {
					if k := strings.Index(x, "."); k > 0 {
						cur.ModFields[x[:k]] = append(cur.ModFields[x[:k]], x[k+1:])
						x = x[:k]
					}
					cur.Modifies[x] = true
				}
			case "shares":
				for _, x := range splitList(rest) {
					cur.Shares[x] = true
				}
			case "nilable":
				for _, x := range splitList(rest) {
					cur.Nilable[x] = true
				}
			case "alias":
				k := strings.Index(rest, "=")
				cur.Alias[strings.TrimSpace(rest[:k])] = strings.TrimSpace(rest[k+1:])
			case "dyn":
				k := strings.Index(rest, "=")
				cur.Dyn[strings.TrimSpace(rest[:k])] = strings.TrimSpace(rest[k+1:])
			case "inplace":
				cur.Inplace = append(cur.Inplace, splitList(rest)...)
			case "inv", "measure", "loophint", "backhint":
				t, err := parseTmpl(rest)
				if err != nil {
					return nil, bad(err.Error())
				}
				switch kw {
				case "inv":
					cur.Invs = append(cur.Invs, t)
				case "measure":
					cur.Measures = append(cur.Measures, t)
				case "loophint":
					cur.HintLoop = append(cur.HintLoop, t)
				case "backhint":
					cur.HintBack = append(cur.HintBack, t)
				}
			case "global":
				k := strings.Index(rest, "=")
				if k < 0 {
					return nil, bad("global name = expr")
				}
				if cur.Globals == nil {
					cur.Globals = map[string]string{}
				}
				cur.Globals[strings.TrimSpace(rest[:k])] = strings.TrimSpace(rest[k+1:])
			case "decreases":
				cur.Decreases = rest
			case "inline":
				cur.Inline = true
			case "soft":
				cur.Soft = true
			case "hint":
				cur.HintIn = append(cur.HintIn, rest)
			case "exithint":
				cur.HintOut = append(cur.HintOut, rest)
			case "rlimit":
				fmt.Sscanf(rest, "%d", &cur.Rlimit)
			default:
				return nil, bad("unknown clause " + kw)
			}
		}
	}
	return res, nil
}

func splitList(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			r = append(r, x)
		}
	}
	return r
}

// ($h: Seq<u8>, $i: int) text
func parseTmpl(s string) (Tmpl, error) {
	if !strings.HasPrefix(s, "(") {
		return Tmpl{Text: s}, nil
	}
	if !strings.HasPrefix(s, "($") {
		return Tmpl{Text: s}, nil
	}
	k := strings.Index(s, ")")
	// allow parentheses in suffix(b)
	depth := 0
	for i, c := range s {
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				k = i
				break
			}
		}
	}
	if k < 0 {
		return Tmpl{}, fmt.Errorf("template")
	}
	var t Tmpl
	for _, v := range splitTop(s[1:k]) {
		c := strings.Index(v, ":")
		if c < 0 {
			return Tmpl{}, fmt.Errorf("template var")
		}
		t.Vars = append(t.Vars, MV{strings.TrimSpace(v[:c]), strings.TrimSpace(v[c+1:])})
	}
	t.Text = strings.TrimSpace(s[k+1:])
	return t, nil
}

func splitTop(s string) []string {
	var r []string
	d := 0
	last := 0
	for i, c := range s {
		switch c {
		case '(', '<':
			d++
		case ')', '>':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	r = append(r, strings.TrimSpace(s[last:]))
	return r
}

func isIdStart(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isIdChar(c byte) bool { return isIdStart(c) || c >= '0' && c <= '9' }

// substRaw turns expression text into a raw term, replacing names found in env.
func substRaw(text, srt string, env map[string]*Term) (*Term, error) {
	out, args, err := substArgs(text, env)
	if err != nil {
		return nil, err
	}
	if m := plainApp.FindStringSubmatch(out); m != nil {
		var as []*Term
		ok := true
		if m[2] != "" {
			for _, x := range strings.Split(m[2], ",") {
				k := 0
				if n, _ := fmt.Sscanf(strings.TrimSpace(x), "\x01%d\x01", &k); n != 1 {
					ok = false
					break
				}
				as = append(as, args[k])
			}
		}
		if ok {
			return tApp(m[1], srt, as...), nil
		}
	}
	return tRaw(out, srt, args...), nil
}

var plainApp = regexp.MustCompile(`^([a-z_][a-zA-Z0-9_]*)\(((?:\x01[0-9]+\x01)?(?:, *\x01[0-9]+\x01)*)\)$`)

func substArgs(text string, env map[string]*Term) (string, []*Term, error) {
	var sb strings.Builder
	var args []*Term
	idx := map[*Term]int{}
	prevDot := false
	for i := 0; i < len(text); {
		c := text[i]
		if isIdStart(c) {
			j := i
			for j < len(text) && isIdChar(text[j]) {
				j++
			}
			id := text[i:j]
			if !prevDot {
				if t, ok := env[id]; ok {
					// a struct literal field or closure variable of the same name is not supported
					k, ok := idx[t]
					if !ok {
						k = len(args)
						idx[t] = k
						args = append(args, t)
					}
					fmt.Fprintf(&sb, "\x01%d\x01", k)
					i = j
					continue
				}
				if c == '$' {
					return "", nil, fmt.Errorf("unbound %s in %q", id, text)
				}
			}
			sb.WriteString(id)
			prevDot = false
			i = j
			continue
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(text) && isIdChar(text[j]) {
				j++
			}
			sb.WriteString(text[i:j])
			i = j
			prevDot = false
			continue
		}
		prevDot = c == '.' && !(i > 0 && text[i-1] == '.')
		sb.WriteByte(c)
		i++
	}
	return sb.String(), args, nil
}

func (c *Contract) inplaceOf(p string) bool {
	for _, ip := range c.Inplace {
		if strings.HasPrefix(ip, p+".") {
			return true
		}
	}
	return false
}

func (c *Contract) keepsField(p, f string) bool {
	l := c.ModFields[p]
	for _, x := range l {
		if x == f {
			return false
		}
	}
	return len(l) > 0
}
