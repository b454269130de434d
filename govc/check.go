package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PropSpec says which functions and lemmas decide a property.
type PropSpec struct {
	Kinds  []string `json:"kinds"`
	Roots  []string `json:"roots"`
	Lemmas []string `json:"lemmas"`
	Notes  []string `json:"notes"`
	// exported constants and their values
	Consts map[string]string `json:"consts"`
}

type replayOut struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failed      bool     `json:"failed"`
	Case        int      `json:"case"`
	Input       string   `json:"input"`
	Got         string   `json:"got"`
	Want        string   `json:"want"`
	Err         string   `json:"-"`
}

func (e *Engine) safeVerifyFn(k string) (f *FnCtx) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			f = &FnCtx{key: k, fn: e.byKey[k], c: e.contracts[k], env: map[string]*Term{}, cands: map[string]*Cand{}, usedC: map[string]bool{}, inlined: map[string]bool{}, loops: map[string]bool{}}
			e.f = f
			st := &State{loc: map[lkey]Value{}, heap: map[*Obj]*ObjState{}, hyps: map[*Term]bool{}}
			e.dry = 0
			e.fail(st, "unsupported", fmt.Sprintf("the generator cannot read this function: %v", r), f.fn.Pos())
			e.finish(st)
		}
	}()
	return e.verifyFn(k)
}

// ---- rejected invariant candidates (saves solver time only; keyed by the code they belong to)

type badEntry struct {
	Hash string   `json:"hash"`
	Keys []string `json:"keys"`
}

func stripLoc(s string) string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "#") {
			continue
		}
		r = append(r, l)
	}
	return strings.Join(r, "\n")
}

// codeHash identifies the body of a function and of everything in the repository it can call.
func (e *Engine) codeHash(key string) string {
	fn := e.byKey[key]
	if fn == nil {
		return ""
	}
	seen := map[*ssa.Function]bool{}
	var texts []string
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || !inRepo(f) {
			return
		}
		seen[f] = true
		var b bytes.Buffer
		f.WriteTo(&b)
		texts = append(texts, stripLoc(b.String()))
		for _, a := range f.AnonFuncs {
			rec(a)
		}
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					rec(c.Common().StaticCallee())
				}
			}
		}
	}
	rec(fn)
	sort.Strings(texts)
	c := e.contracts[key]
	texts = append(texts, fmt.Sprint(c.Requires, c.Fits, c.Ensures, c.Returns, c.Invs, c.Measures, c.HintIn, c.HintLoop, c.HintBack))
	h := sha256.Sum256([]byte(strings.Join(texts, "\n\x00")))
	return hex.EncodeToString(h[:8])
}

func (d *Driver) loadBad() {
	b, err := os.ReadFile(d.badFile)
	if err != nil || os.Getenv("GOVC_NOCACHE") != "" {
		return
	}
	m := map[string]badEntry{}
	if json.Unmarshal(b, &m) != nil {
		return
	}
	for k, v := range m {
		if d.e.contracts[k] != nil && d.e.codeHash(k) == v.Hash {
			for _, x := range v.Keys {
				d.bad[x] = true
			}
		}
	}
}

func (d *Driver) saveBad() {
	if os.Getenv("GOVC_SAVE") == "" || d.fatal != "" || len(d.failed) > 0 {
		return
	}
	m := map[string]badEntry{}
	if b, err := os.ReadFile(d.badFile); err == nil {
		json.Unmarshal(b, &m)
	}
	by := map[string][]string{}
	for k := range d.bad {
		fn := k[:strings.Index(k, "|")]
		by[fn] = append(by[fn], k)
	}
	for _, fn := range d.order {
		ks := by[fn]
		if len(ks) == 0 {
			delete(m, fn)
			continue
		}
		sort.Strings(ks)
		m[fn] = badEntry{Hash: d.e.codeHash(fn), Keys: ks}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(d.badFile, append(b, '\n'), 0o644)
}

// ---- one property

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		return s[:i]
	}
	return s
}

func replay(prop string, seed int64, ms int, only int) *replayOut {
	r := &replayOut{}
	bin := os.Getenv("REPLAY_BIN")
	if bin == "" {
		bin = filepath.Join(verifDir, "replay", "bin", "replay")
	}
	args := []string{fmt.Sprint(ms/1000 + 60), bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-ms", fmt.Sprint(ms), "-repo", repoDir}
	cmd := exec.Command("timeout", args...)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	if json.Unmarshal(ob.Bytes(), r) != nil {
		r.Err = fmt.Sprintf("%v %s", err, tail(eb.String(), 3000))
	}
	return r
}

var axiomRe = regexp.MustCompile(`(?m)(?:axiom fn|external_body\]\s*pub proof fn) ([a-z0-9_A-Z]+)`)
var uninterpRe = regexp.MustCompile(`(?m)uninterp spec fn ([a-z0-9_A-Z]+)`)

func obName(o *Oblig) string { return o.Fn + " | " + o.Kind + " | " + o.Desc }

func checkProp(p, tier string) int {
	t0 := time.Now()
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	if v := os.Getenv("VERIF_TIER"); v != "" && tier == "" {
		tier = v
	}
	if tier == "" {
		tier = "quick"
	}
	confMS, searchMS := 1500, 40000
	smokeOn = true
	if tier == "thorough" {
		confMS, searchMS = 120000, 240000
		maxRl = 30
	}
	props := map[string]PropSpec{}
	b, err := os.ReadFile(filepath.Join(verifDir, "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &props)
	}
	ps, ok := props[p]
	if err != nil || !ok {
		fmt.Println("no such property:", p, err)
		return 2
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	known := knownFindings(p)
	rep := filepath.Join(evDir, p+".replay.txt")
	os.Remove(rep)

	d := &Driver{}
	var open []*Oblig
	problem := ""
	e, err := load(nil)
	if err != nil {
		problem = "the source cannot be loaded: " + err.Error()
	} else {
		d = newDriver(e)
		func() {
			defer func() {
				if r := recover(); r != nil {
					d.fatal = fmt.Sprint("internal: ", r)
				}
			}()
			d.consts = ps.Consts
			d.verify(ps.Roots)
		}()
		if d.fatal != "" {
			problem = d.fatal
		}
		for _, m := range d.missing {
			problem += "function under contract not found: " + m + "\n"
		}
		for _, l := range ps.Lemmas {
			m := strings.SplitN(l, "::", 2)
			b, _ := os.ReadFile(filepath.Join(verifDir, "spec", m[0]+".rs"))
			if len(m) != 2 || !regexp.MustCompile(`(?m)proof fn `+regexp.QuoteMeta(m[1])+`\(`).Match(b) {
				problem += "lemma not found: " + l + "\n"
			}
		}
		for _, v := range d.smokeBad {
			problem += "vacuous: " + v + "\n"
		}
		for _, o := range d.failed {
			if known[obName(o)] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p, obName(o))
				continue
			}
			if len(ps.Kinds) > 0 && !contains(ps.Kinds, o.Kind) {
				// the property is about these kinds of obligations only; other properties report the rest
				fmt.Printf("note: %s is open, which this property does not depend on\n", obName(o))
				continue
			}
			open = append(open, o)
		}
	}
	bad := problem != "" || len(open) > 0
	// conformance run of the real code against the oracle (bounded; not counted as proof)
	ms := confMS
	if bad {
		ms = searchMS
	}
	cf := replay(p, seed, ms, -1)
	tr := replay("TRUST", seed, ms/5, -1)
	if tr.Failed {
		fmt.Println("note: a trusted contract does not describe its dependency:", tr.Input, "got", tr.Got, "want", tr.Want)
	}
	if cf.Err != "" && problem == "" {
		problem = "the conformance program does not run: " + cf.Err
		bad = true
	}
	violated := bad || cf.Failed

	total, triv, trusted, fnList := 0, 0, map[string]bool{}, []string{}
	byKind := map[string]int{}
	if e != nil && d.fatal == "" {
		total, triv = d.counts()
		for _, k := range d.order {
			f := d.fns[k]
			if f == nil {
				continue
			}
			fnList = append(fnList, k)
			for u := range f.usedC {
				if c := e.contracts[u]; c != nil && c.Trusted {
					trusted["contract assumed for "+u] = true
				}
			}
			for _, o := range f.obs {
				if o.Cand == nil || !e.disabled[o.Cand.Key] {
					byKind[o.Kind]++
				}
			}
		}
	}
	var tb []string
	for t := range trusted {
		tb = append(tb, t)
	}
	sort.Strings(tb)
	files, _ := filepath.Glob(filepath.Join(verifDir, "spec", "*.rs"))
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, m := range axiomRe.FindAllStringSubmatch(string(b), -1) {
			tb = append(tb, "axiom "+m[1]+" ("+filepath.Base(f)+")")
		}
	}
	tb = append(tb, "govc: translation of go/ssa to verification conditions", "Verus 0.2026.09.13 and Z3 as installed", "go/ssa and the Go compiler agree on the meaning of the source")
	if cf.Samples == nil {
		cf.Samples = []string{}
	}
	cov := map[string]interface{}{
		"obligations":                  total + triv + d.nSmoke,
		"discharged":                   total + triv + d.nSmoke - len(open) - len(d.smokeBad),
		"checker_cmd":                  fmt.Sprintf("govc -prop %s (conditions generated from %s by go/ssa, discharged by verus + z3; %d of them decided by the generator's own simplifier)", p, repoDir, triv),
		"trusted_base":                 tb,
		"functions_under_contract":     fnList,
		"constants_under_contract":     len(ps.Consts),
		"obligations_by_kind":          byKind,
		"sent_to_solver":               total,
		"decided_by_simplifier":        triv,
		"reachability_checks":          d.nSmoke,
		"spec_items_verified":          d.libItems,
		"property_lemmas":              ps.Lemmas,
		"solver_ms":                    d.solverMS,
		"rounds":                       d.rounds,
		"contracts_replaced_by_bodies": d.dropped,
		"bounded_conformance": map[string]interface{}{"evaluations": cf.Evaluations, "distinct_nontrivial": cf.Distinct, "rule": cf.Rule, "samples": cf.Samples,
			"note": "bounded: random and boundary inputs against an independent oracle; not counted as proved"},
		"trusted_contract_tests": map[string]interface{}{"evaluations": tr.Evaluations, "failed": tr.Failed, "rule": tr.Rule,
			"note": "bounded: the contracts and axioms assumed for code outside the repository, on random and boundary arguments; not counted as proved"},
	}
	nv := 0
	if violated {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": p, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nv,
		"assumptions": append(append([]string{}, baseAssumptions...), ps.Notes...),
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, p+".json"), append(eb, '\n'), 0o644)

	if !violated {
		fmt.Printf("%s: %d functions under contract, %d obligations discharged, %d conformance cases, %.1fs\n", p, len(fnList), total+triv, cf.Evaluations, time.Since(t0).Seconds())
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", p)
	if problem != "" {
		fmt.Fprintf(&sb, "\nproblem:\n%s\n", problem)
	}
	for _, o := range open {
		fmt.Fprintf(&sb, "\nobligation not discharged: %s\n  at %s\n  verifier: %s\n", obName(o), o.Pos, o.Status)
	}
	suffix := ""
	if cf.Failed {
		fmt.Fprintf(&sb, "\nfailing input on the real code (seed %d, case %d):\n%s\n  got:  %s\n  want: %s\n\nreproduce: cd /verif && ./replay/run.sh -prop %s -seed %d -case %d\n", seed, cf.Case, cf.Input, cf.Got, cf.Want, p, seed, cf.Case)
	} else {
		fmt.Fprintf(&sb, "\nsearch: %d inputs tried on the real code, none fails\n", cf.Evaluations)
		suffix = " no-failing-input-found"
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", p, rep, suffix)
	return 1
}

var baseAssumptions = []string{
	"arguments are tree shaped: distinct pointer parameters and slices of distinct objects do not overlap unless a contract says so (alias, inplace)",
	"no slice or string is longer than 2^44 bytes, and make beyond 2^47 does not return",
	"integers are mathematical in the logic; every conversion and arithmetic operation of the code is wrapped or proved in range by an obligation",
	"opaque interface and pointer values of dependencies are not nil unless a contract says nilable",
	"goroutines, unsafe, reflection and cgo do not occur in the functions under contract (the generator refuses them)",
	"out of memory and stack exhaustion are not modelled",
}

func knownFindings(p string) map[string]bool {
	r := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + p + " obligation="
		if strings.HasPrefix(l, pre) {
			r[l[len(pre):]] = true
		}
	}
	return r
}
