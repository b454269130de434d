package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var deadline = time.Now().Add(700 * time.Second)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
	workDir  string
	verbose  bool
	keepFile string
	smokeOn  bool
	maxRl    int
	candRl   = 2
)

type Driver struct {
	smokeFn   map[string][]*vcOut
	consts    map[string]string
	e         *Engine
	fns       map[string]*FnCtx
	order     []string
	bad       map[string]bool // candidates disabled so far
	badFile   string
	solverMS  int64
	rounds    int
	lemmas    int
	libItems  int
	stage     map[string]int
	smokeSeen map[string]bool
	libErr    string
	failed    []*Oblig
	fatal     string
	smokeBad  []string
	nSmoke    int
	missing   []string
	dropped   []string
	split     map[string]bool
	tabSpec   map[string][]string
	tabState  map[string]bool
	tabSkip   map[string]bool
	tabFailed map[string]*Oblig
	tabAll    map[string]*Oblig
}

func load(roots []string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("%s", er)
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	loadSpecLits()
	// every struct of the repository with a sort, so that the specification library can name it
	sorted := append([]*packages.Package{}, ps...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].PkgPath < sorted[j].PkgPath })
	for _, p := range sorted {
		if p.Types == nil {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					if _, ok := nt.Underlying().(*types.Struct); ok {
						structSort(nt)
					}
				}
			}
		}
	}
	cs, err := parseContracts(filepath.Join(verifDir, "contracts"))
	if err != nil {
		return nil, err
	}
	e := &Engine{prog: prog, contracts: cs, byKey: map[string]*ssa.Function{}, noContr: map[string]bool{}, disabled: map[string]bool{}, derive: map[string]bool{}, hasDerived: map[string]bool{}, loopsOf: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, mapsUsed: map[string]*ssa.Global{}, funcsUsed: map[string]bool{}}
	all := ssautil.AllFunctions(prog)
	// methods that nothing calls are not in AllFunctions' reachable wrappers; add all members
	for fn := range all {
		if inRepo(fn) && fn.Synthetic == "" {
			e.byKey[keyOf(fn)] = fn
			e.allFns = append(e.allFns, fn)
		} else if inRepo(fn) {
			if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil {
				e.byKey[keyOf(fn)] = fn
			}
			e.allFns = append(e.allFns, fn)
		}
	}
	for _, p := range ps {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if tn, ok := m.(*ssa.Type); ok {
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" && inRepo(fn) {
							if e.byKey[keyOf(fn)] == nil {
								e.byKey[keyOf(fn)] = fn
								e.allFns = append(e.allFns, fn)
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(e.allFns, func(i, j int) bool { return e.allFns[i].RelString(nil) < e.allFns[j].RelString(nil) })
	// types the specification library talks about
	for _, n := range specTypes {
		t := e.findType(n)
		if t == nil {
			return nil, fmt.Errorf("type %s not found", n)
		}
		if _, err := sortOf(t); err != nil {
			return nil, err
		}
	}
	return e, nil
}

var specTypes = []string{"transaction/input.Input", "transaction/output.Output", "transaction.Transaction", "script.RedeemScript", "transaction/signature.InternalSigner", "script/address.Address"}

func isHelper(key string) bool {
	k := key[strings.LastIndex(key, ".")+1:]
	if i := strings.Index(k, "$"); i >= 0 {
		return true
	}
	return k != "" && k[0] >= 'a' && k[0] <= 'z'
}

// closure generates obligations for the roots and every contract they rely on.
func (d *Driver) closure(roots []string, redo map[string]bool) {
	e := d.e
	var queue []string
	seen := map[string]bool{}
	push := func(k string) {
		if !seen[k] {
			seen[k] = true
			queue = append(queue, k)
		}
	}
	for _, r := range roots {
		push(r)
	}
	d.order = nil
	d.missing = nil
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		c := e.contracts[k]
		if c == nil {
			d.missing = append(d.missing, k+" (no contract)")
			continue
		}
		if c.Trusted || e.noContr[k] {
			continue
		}
		if e.byKey[k] == nil {
			if isHelper(k) {
				continue
			}
			d.missing = append(d.missing, k)
			continue
		}
		d.order = append(d.order, k)
		if d.fns[k] == nil || redo[k] {
			d.fns[k] = e.safeVerifyFn(k)
		}
		var us []string
		for u := range d.fns[k].usedC {
			us = append(us, u)
		}
		sort.Strings(us)
		for _, u := range us {
			push(u)
		}
	}
	sort.Strings(d.order)
	for k := range d.fns {
		if !seen[k] {
			delete(d.fns, k)
		}
	}
}

func (d *Driver) emit(keys []string, split map[string]bool) (*emitter, []string) {
	m := &emitter{obAt: map[int]*Oblig{}, smoke: map[int]*vcOut{}}
	m.w("#![allow(unused_imports, dead_code, unused_variables, non_snake_case, non_camel_case_types, unused_parens, unused_braces, unused_mut)]")
	m.w("use vstd::prelude::*;")
	files, _ := filepath.Glob(filepath.Join(verifDir, "spec", "*.rs"))
	sort.Strings(files)
	m.w("pub mod gen_types { use vstd::prelude::*; verus! {")
	m.structs()
	m.w("}}")
	m.w("pub use gen_types::*;")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		n := "lib_" + strings.TrimSuffix(filepath.Base(f), ".rs")
		m.w("pub mod %s { use vstd::prelude::*; use crate::*; verus! {", n)
		m.w("%s", string(b))
		for _, l := range strings.Split(string(b), "\n") {
			// what //@literal says about a definition is proved
			if strings.HasPrefix(l, "//@literal ") {
				p := strings.SplitN(l[11:], " ", 2)
				m.w("pub proof fn literal_%s() ensures %s() == %s { reveal(%s); assert(%s() =~= %s); }", p[0], p[0], litText(p[1]), p[0], p[0], litText(p[1]))
			}
		}
		m.w("}}")
		m.w("pub use %s::*;", n)
	}
	var mods []string
	for _, k := range keys {
		f := d.fns[k]
		chunk := 0
		open := false
		cnt := 0
		openMod := func() {
			n := fmt.Sprintf("m_%s_%d", mangle(k), chunk)
			chunk++
			m.w("pub mod %s { use vstd::prelude::*; use crate::*; verus! {", n)
			m.w("broadcast use {%s};", strings.Join(append([]string{"crate::lib_base::group_base"}, d.tabUses()...), ", "))
			mods = append(mods, n)
			open = true
			cnt = 0
		}
		for _, vc := range f.vcs {
			if vc.heads > d.stage[k] {
				continue
			}
			if !open {
				openMod()
			}
			rl := f.c.Rlimit
			if split[vc.Name] {
				i := 0
				for _, s := range vc.Steps {
					if s.kind == "ob" {
						rl := rl
						if rl == 0 && s.ob.Cand != nil {
							rl = candRl
						}
						m.emitVC(vc, fmt.Sprintf("%s_s%d", vc.Name, i), rl, i, false)
						cnt++
						i++
					}
				}
			} else {
				if rl == 0 {
					rl = candRl
				}
				m.emitVC(vc, vc.Name, rl, -1, false)
				cnt++
			}
			if cnt > 24 {
				m.w("}}")
				open = false
			}
		}
		if smokeOn {
			for i, h := range f.heads {
				if !open {
					openMod()
				}
				m.emitVC(h, fmt.Sprintf("smoke_%s_%d", mangle(k), i), 2, -1, true)
			}
		}
		if open {
			m.w("}}")
		}
	}
	m.w("pub mod gen_tables { use vstd::prelude::*; use crate::*; verus! {")
	d.tables(m)
	m.w("}}")
	if len(m.tabNew) > 0 {
		mods = append(mods, "gen_tables")
	}
	m.w("pub use gen_tables::*;")
	m.w("fn main() {}")
	return m, mods
}

type diag struct {
	Message string `json:"message"`
	Level   string `json:"level"`
	Spans   []struct {
		LineStart int    `json:"line_start"`
		LineEnd   int    `json:"line_end"`
		File      string `json:"file_name"`
		Primary   bool   `json:"is_primary"`
		Label     string `json:"label"`
	} `json:"spans"`
	Rendered string `json:"rendered"`
}

// run sends the file to Verus; returns failing obligations.
func (d *Driver) run(m *emitter, mods []string, lib bool) (failed map[*Oblig]string, unknown map[*vcOut]string, smokes map[*vcOut]bool, fatal string) {
	path := filepath.Join(workDir, "vc.rs")
	if err := os.WriteFile(path, []byte(m.sb.String()), 0o644); err != nil {
		return nil, nil, nil, err.Error()
	}
	args := []string{path, "--error-format=json", "--multiple-errors", "400", "--num-threads", "8", "--rlimit", fmt.Sprint(maxRl), "--no-report-long-running"}
	if !lib {
		args = append(args, "--no-external-by-default")
		args = args[:len(args)-1]
		for _, x := range mods {
			args = append(args, "--verify-module", x)
		}
	}
	t0 := time.Now()
	left := int(time.Until(deadline).Seconds())
	if left < 5 {
		return nil, nil, nil, "time budget used up"
	}
	cmd := exec.Command("timeout", append([]string{fmt.Sprint(left), "verus"}, args...)...)
	cmd.Dir = workDir
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	d.solverMS += time.Since(t0).Milliseconds()
	failed = map[*Oblig]string{}
	unknown = map[*vcOut]string{}
	smokes = map[*vcOut]bool{}
	sawResult := strings.Contains(ob.String(), "verification results::")
	for _, l := range strings.Split(ob.String(), "\n") {
		if strings.Contains(l, "verification results::") {
			fmt.Sscanf(l[strings.Index(l, "::")+2:], "%d verified", &d.lemmas)
		}
	}
	tabFail := false
	sc := bufio.NewScanner(&eb)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "{") {
			if verbose && strings.TrimSpace(l) != "" {
				fmt.Fprintln(os.Stderr, "verus:", l)
			}
			continue
		}
		var g diag
		if json.Unmarshal([]byte(l), &g) != nil || g.Level != "error" {
			continue
		}
		if strings.HasPrefix(g.Message, "aborting due to") {
			continue
		}
		if !sawResult {
			tab := false
			for _, s := range g.Spans {
				if o := m.obAt[s.LineStart]; o != nil && o.Kind == "table" && (strings.Contains(g.Message, "compute") || strings.Contains(g.Message, "simplifies")) {
					failed[o] = tail(g.Message, 300)
					tab = true
				}
			}
			if tab {
				tabFail = true
				continue
			}
			if fatal == "" {
				fatal = g.Message + "\n" + g.Rendered
			}
			continue
		}
		hit := false
		for _, s := range g.Spans {
			if o := m.obAt[s.LineStart]; o != nil {
				failed[o] = g.Message
				hit = true
			}
			if v := m.smoke[s.LineStart]; v != nil {
				smokes[v] = true
				hit = true
			}
		}
		if hit {
			continue
		}
		for _, s := range g.Spans {
			for _, o := range m.outs {
				if s.LineStart >= o.from-1 && s.LineStart <= o.to {
					if o.smoke {
						smokes[o] = true
					} else {
						unknown[o] = g.Message
					}
					hit = true
				}
			}
		}
		if !hit || !sawResult {
			if fatal == "" {
				fatal = g.Message + "\n" + g.Rendered
			}
		}
	}
	if tabFail {
		fatal = ""
	}
	if !sawResult && fatal == "" && !tabFail {
		fatal = fmt.Sprintf("verus gave no result: %v %s", err, tail(ob.String()+eb.String(), 2000))
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (d *Driver) verify(roots []string) {
	e := d.e
	d.stage = map[string]int{}
	d.smokeFn = map[string][]*vcOut{}
	d.tabFailed, d.tabAll = map[string]*Oblig{}, map[string]*Oblig{}
	d.tabSkip = map[string]bool{}
	d.tableSpecs()
	for k := range d.bad {
		e.disabled[k] = true
		d.stage[k[:strings.Index(k, "|")]] = 99
	}
	redo := map[string]bool{}
	split := map[string]bool{}
	for round := 0; ; round++ {
		d.rounds = round + 1
		d.failed = nil
		d.closure(roots, redo)
		keys := d.order
		run := keys
		if round > 0 {
			run = nil
			for _, k := range keys {
				if redo[k] {
					run = append(run, k)
				}
			}
		}

		m, mods := d.emit(run, split)
		if keepFile != "" {
			os.WriteFile(fmt.Sprintf("%s.%d.rs", keepFile, round), []byte(m.sb.String()), 0o644)
		}
		failed, unknown, smokes, fatal := d.run(m, mods, round == 0)
		for again := 0; again < 8 && fatal == ""; again++ {
			// what Verus decides by computation ends its run when it fails
			stop := false
			for _, o := range m.tabObs {
				if msg, ok := failed[o]; ok && !d.tabSkip[o.Key] {
					o.Status = msg
					d.tabFailed[o.Fn+" "+o.Desc] = o
					d.tabAll[o.Fn+" "+o.Desc] = o
					d.tabSkip[o.Key] = true
					stop = true
				}
			}
			if !stop {
				break
			}
			m, mods = d.emit(run, split)
			failed, unknown, smokes, fatal = d.run(m, mods, round == 0)
		}
		if round == 0 {
			d.libItems = d.lemmas
		}
		if fatal != "" {
			d.fatal = fatal
			return
		}
		redo = map[string]bool{}
		nc := 0
		for _, o := range m.tabObs {
			d.tabAll[o.Fn+" "+o.Desc] = o
		}
		for _, n := range m.tabNew {
			d.tabState[n] = true
		}
		for o, msg := range failed {
			o.Status = msg
			if o.Cand != nil {
				if !e.disabled[o.Cand.Key] {
					e.disabled[o.Cand.Key] = true
					d.bad[o.Cand.Key] = true
					nc++
					if verbose {
						fmt.Fprintf(os.Stderr, "   drop %s | %s | %s | %s\n", o.Cand.Key, o.Cand.Desc, o.Desc, msg)
					}
				}
				redo[o.Fn] = true
			}
		}
		definite := map[string]bool{}
		for _, k := range run {
			if redo[k] {
				definite[k] = true
			}
		}
		for v, msg := range unknown {
			base := v.vc.Name
			if definite[v.fn] {
				// judged again once the candidates that are certainly wrong are gone
				continue
			}
			if !split[base] {
				split[base] = true
				redo[v.fn] = true
				nc++
				continue
			}
			for _, o := range v.obs {
				o.Status = msg
				if o.Cand != nil {
					if !e.disabled[o.Cand.Key] {
						e.disabled[o.Cand.Key] = true
						nc++
						if verbose {
							fmt.Fprintf(os.Stderr, "   drop? %s | %s | %s | %s\n", o.Cand.Key, o.Cand.Desc, o.Desc, msg)
						}
					}
					redo[o.Fn] = true
				} else {
					failed[o] = msg
				}
			}
		}
		if smokeOn {
			for _, o := range m.outs {
				if o.smoke {
					o.fails = smokes[o]
					if d.smokeSeen == nil {
						d.smokeSeen = map[string]bool{}
					}
					if !d.smokeSeen[o.name] {
						d.nSmoke++
					}
					d.smokeSeen[o.name] = true
				}
			}
			// what counts is the last round a function was in: before, wrong candidates may contradict each other
			for _, k := range run {
				delete(d.smokeFn, k)
			}
			for _, o := range m.outs {
				if o.smoke {
					d.smokeFn[o.fn] = append(d.smokeFn[o.fn], o)
				}
			}
		}
		// loops are taken up one after the other: what fails on entry is gone before the bodies are looked at
		for _, k := range run {
			if f := d.fns[k]; f != nil && !redo[k] {
				mx := 0
				for _, vc := range f.vcs {
					if vc.heads > mx {
						mx = vc.heads
					}
				}
				if d.stage[k] < mx {
					d.stage[k]++
					redo[k] = true
				}
			}
		}
		// non-candidate failures of functions that will not be redone
		final := map[string][]*Oblig{}
		for o := range failed {
			if o.Cand == nil && !redo[o.Fn] {
				final[o.Fn] = append(final[o.Fn], o)
			}
		}
		// a loop that counts down or starts elsewhere: its distance from the start may be what the templates speak of
		for fnk := range final {
			if e.hasDerived[fnk] && !e.derive[fnk] {
				e.derive[fnk] = true
				for k := range e.disabled {
					if strings.HasPrefix(k, fnk+"|") {
						delete(e.disabled, k)
						delete(d.bad, k)
					}
				}
				d.stage[fnk] = 0
				redo[fnk] = true
				nc++
				delete(final, fnk)
			}
		}
		// helpers whose contract no longer holds are read through instead
		for fnk := range final {
			if isHelper(fnk) && !contains(roots, fnk) {
				e.noContr[fnk] = true
				d.dropped = append(d.dropped, fnk)
				for _, k := range d.order {
					if d.fns[k].usedC[fnk] {
						redo[k] = true
						delete(final, k)
					}
				}
				delete(final, fnk)
				delete(d.fns, fnk)
				nc++
			}
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "round %d: %d functions, %d candidates dropped, %d open, %d ms\n", round, len(run), nc, len(final), d.solverMS)
		}
		var fk []string
		for k := range final {
			fk = append(fk, k)
		}
		sort.Strings(fk)
		for _, k := range fk {
			d.fns[k].failed = final[k]
		}
		for _, k := range run {
			if final[k] == nil && !redo[k] && d.fns[k] != nil {
				d.fns[k].failed = nil
			}
		}
		if len(redo) == 0 {
			break
		}
		if round > 60 {
			d.fatal = "no fixpoint of loop invariants"
			return
		}
	}
	for _, k := range d.order {
		if f := d.fns[k]; f != nil {
			d.failed = append(d.failed, f.failed...)
		}
	}
	for _, k := range d.order {
		exits, reached := 0, 0
		for _, o := range d.smokeFn[k] {
			if o.vc.Name == "entry" {
				if !o.fails {
					d.smokeBad = append(d.smokeBad, k+": contradictory assumptions at entry")
				}
				continue
			}
			exits++
			if o.fails {
				reached++
			}
		}
		if exits > 0 && reached == 0 {
			d.smokeBad = append(d.smokeBad, k+": no exit is reachable")
		}
	}
	for _, o := range d.tabFailed {
		d.failed = append(d.failed, o)
	}
	sort.Slice(d.failed, func(i, j int) bool {
		return d.failed[i].Fn+d.failed[i].Pos+d.failed[i].Desc < d.failed[j].Fn+d.failed[j].Pos+d.failed[j].Desc
	})
	// mutual recursion between contracts would make termination circular
	d.cycles()
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (d *Driver) cycles() {
	state := map[string]int{}
	var rec func(k string) bool
	rec = func(k string) bool {
		state[k] = 1
		if f := d.fns[k]; f != nil {
			for u := range f.usedC {
				if u == k {
					continue
				}
				if state[u] == 1 || state[u] == 0 && rec(u) {
					return true
				}
			}
		}
		state[k] = 2
		return false
	}
	for _, k := range d.order {
		if state[k] == 0 && rec(k) {
			d.failed = append(d.failed, &Oblig{Fn: k, Kind: "termination", Desc: "mutual recursion without measure", Status: "cycle"})
			return
		}
	}
}

func main() {
	var fns, prop, tier string
	flag.StringVar(&fns, "fn", "", "comma separated function keys")
	flag.StringVar(&prop, "prop", "", "property id")
	flag.StringVar(&tier, "tier", "", "quick or thorough")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.StringVar(&keepFile, "keep", "", "keep the generated file")
	flag.BoolVar(&verbose, "v", false, "")
	flag.BoolVar(&smokeOn, "smoke", false, "")
	flag.IntVar(&maxRl, "rlimit", 10, "")
	list := flag.Bool("list", false, "list function keys")
	flag.Parse()
	var err error
	workDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	code := 0
	func() {
		defer os.RemoveAll(workDir)
		if prop != "" {
			code = checkProp(prop, tier)
			return
		}
		e, err := load(nil)
		if err != nil {
			fmt.Println("load:", err)
			code = 1
			return
		}
		if *list {
			var ks []string
			for k := range e.byKey {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				s := " "
				if e.contracts[k] != nil {
					s = "*"
				}
				fmt.Println(s, k)
			}
			return
		}
		d := newDriver(e)
		d.verify(strings.Split(fns, ","))
		code = d.report()
		d.saveBad()
	}()
	os.Exit(code)
}

func newDriver(e *Engine) *Driver {
	d := &Driver{e: e, fns: map[string]*FnCtx{}, bad: map[string]bool{}, badFile: filepath.Join(verifDir, "contracts", "rejected.json")}
	d.loadBad()
	return d
}

func (d *Driver) counts() (total, triv int) {
	for _, k := range d.order {
		if f := d.fns[k]; f != nil {
			for _, o := range f.obs {
				if o.Cand == nil || !d.e.disabled[o.Cand.Key] {
					total++
				}
			}
			triv += trivialCount[k]
		}
	}
	total += len(d.tabAll)
	return
}

func (d *Driver) report() int {
	if d.fatal != "" {
		fmt.Println("FATAL:", d.fatal)
		return 1
	}
	for _, k := range d.missing {
		fmt.Println("MISSING:", k)
	}
	for _, o := range d.failed {
		fmt.Printf("FAILED: %s %s [%s] %s: %s\n", o.Fn, o.Pos, o.Kind, o.Desc, o.Status)
	}
	for _, s := range d.smokeBad {
		fmt.Println("VACUOUS:", s)
	}
	t, tr := d.counts()
	fmt.Printf("functions %d obligations %d (+%d decided during generation) failed %d rounds %d verified-items %d time %d ms dropped %v\n", len(d.order), t, tr, len(d.failed), d.rounds, d.lemmas, d.solverMS, d.dropped)
	if verbose {
		for _, k := range d.order {
			fmt.Printf("  %s: %d VCs, %d obligations, inlined %v\n", k, len(d.fns[k].vcs), len(d.fns[k].obs), keys(d.fns[k].inlined))
		}
	}
	if len(d.failed)+len(d.missing)+len(d.smokeBad) > 0 {
		return 1
	}
	return 0
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var globRe = regexp.MustCompile(`\bglob_[A-Za-z0-9_]+\(`)

// tables declares the package level values the obligations mention.
func (d *Driver) tables(m *emitter) {
	txt := m.sb.String()
	seen := map[string]bool{}
	var gs []string
	for _, g := range globRe.FindAllString(txt, -1) {
		if !seen[g] {
			seen[g] = true
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		m.w("pub uninterp spec fn %s) -> int;", g)
	}
	var ms []string
	for n := range d.e.mapsUsed {
		ms = append(ms, n)
	}
	sort.Strings(ms)
	for _, n := range ms {
		d.mapTable(m, n, d.e.mapsUsed[n])
	}
	d.constTable(m)
}

// constTable states the values of the exported constants a property names.
func (d *Driver) constTable(m *emitter) {
	if len(d.consts) == 0 || d.tabState["consts"] {
		return
	}
	var ks []string
	for k := range d.consts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	seq := func(s string) string {
		var x []string
		for _, c := range []byte(s) {
			x = append(x, fmt.Sprintf("%du8", c))
		}
		return "seq![" + strings.Join(x, ", ") + "]"
	}
	m.w("pub proof fn consts_of_the_source() {")
	for _, k := range ks {
		fn := "const " + k
		if d.tabSkip[fn] {
			continue
		}
		i := strings.LastIndex(k, ".")
		goal, pos := "false", token.NoPos
		for _, p := range d.e.prog.AllPackages() {
			if p.Pkg.Path() != modPath+"/"+k[:i] {
				continue
			}
			if c, ok := p.Members[k[i+1:]].(*ssa.NamedConst); ok {
				pos = c.Pos()
				if v := c.Value.Value; v.Kind() == constant.String {
					goal = "tab_eq(" + seq(constant.StringVal(v)) + ", " + seq(d.consts[k]) + ")"
				} else if v := constant.ToInt(v); v.Kind() == constant.Int {
					goal = "(" + v.ExactString() + "int) == (" + d.consts[k] + "int)"
				}
			}
		}
		o := &Oblig{Fn: fn, Kind: "table", Desc: "the constant has the value of the specification, " + d.consts[k], Pos: posOf(d.e, pos), Key: fn}
		m.obAt[m.line+1] = o
		m.tabObs = append(m.tabObs, o)
		m.w("  assert(%s) by(compute_only);", goal)
	}
	m.w("}")
	m.tabNew = append(m.tabNew, "consts")
}

// tableSpecs reads which spec tables the maps of the source are compared with (//@table map keys values).
func (d *Driver) tableSpecs() {
	d.tabSpec = map[string][]string{}
	d.tabState = map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(verifDir, "spec", "*.rs"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//@table ") {
				p := strings.Fields(l[9:])
				d.tabSpec[p[0]] = p[1:]
			}
		}
	}
}

// tabUses names the facts about tables that the obligations may use.
func (d *Driver) tabUses() []string {
	var r []string
	for n, g := range d.e.mapsUsed {
		sp, ok := d.tabSpec[g.Pkg.Pkg.Name()+"."+g.Name()]
		if !ok {
			continue
		}
		if _, ok := d.e.mapLiteral(g); ok {
			r = append(r, "crate::gen_tables::"+n+"_is", "crate::gen_tables::"+n+"_gets")
			for _, x := range sp[2:] {
				r = append(r, "crate::"+x)
			}
		}
	}
	sort.Strings(r)
	return r
}

// mapTable writes a map literal of the source as a list of keys and a list of values, in a fixed order.
func (d *Driver) mapTable(m *emitter, name string, g *ssa.Global) {
	mt := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
	ks, _ := sortOf(mt.Key())
	vs, _ := sortOf(mt.Elem())
	ents, ok := d.e.mapLiteral(g)
	if !ok {
		m.w("pub uninterp spec fn %s_has(k: %s) -> bool;", name, ks)
		m.w("pub uninterp spec fn %s_get(k: %s) -> %s;", name, ks, vs)
		return
	}
	sort.Slice(ents, func(i, j int) bool {
		a, b := ents[i][0], ents[j][0]
		if ks == "Seq<u8>" {
			x, y := constant.StringVal(a), constant.StringVal(b)
			if len(x) != len(y) {
				return len(x) < len(y)
			}
			return x < y
		}
		return constant.Compare(a, token.LSS, b)
	})
	lit := func(v constant.Value, srt string) string {
		if srt == "Seq<u8>" {
			b := []byte(constant.StringVal(v))
			var x []string
			for _, c := range b {
				x = append(x, fmt.Sprintf("%du8", c))
			}
			if len(b) == 0 {
				return "Seq::<u8>::empty()"
			}
			return "seq![" + strings.Join(x, ", ") + "]"
		}
		return v.ExactString() + srt
	}
	var kl, vl []string
	for _, e := range ents {
		kl = append(kl, lit(e[0], ks))
		vl = append(vl, lit(e[1], vs))
	}
	m.w("#[verifier::opaque]")
	m.w("pub open spec fn %s_keys() -> Seq<%s> { seq![%s] }", name, ks, strings.Join(kl, ", "))
	m.w("#[verifier::opaque]")
	m.w("pub open spec fn %s_vals() -> Seq<%s> { seq![%s] }", name, vs, strings.Join(vl, ", "))
	m.w("pub open spec fn %s_at(k: %s) -> int { tab_idx(%s_keys(), k, %s_keys().len()) }", name, ks, name, name)
	m.w("#[verifier::opaque]")
	m.w("pub open spec fn %s_has(k: %s) -> bool { %s_at(k) >= 0 }", name, ks, name)
	m.w("#[verifier::opaque]")
	m.w("pub open spec fn %s_get(k: %s) -> %s { %s_vals()[%s_at(k)] }", name, ks, vs, name, name)
	full := g.Pkg.Pkg.Name() + "." + g.Name()
	sp, ok := d.tabSpec[full]
	if !ok {
		return
	}
	m.w("pub proof fn table_%s() ensures %s_keys() == %s(), %s_vals() == %s() {", name, name, sp[0], name, sp[1])
	for i, p := range [2]string{"keys", "values"} {
		fn := name + []string{"_keys", "_vals"}[i]
		if d.tabSkip[fn] {
			m.w("  assume(%s() == %s()); // reported already", fn, sp[i])
			continue
		}
		m.w("  reveal(%s);", sp[i])
		o := &Oblig{Fn: "map " + full, Kind: "table", Desc: "the " + p + " of the table are those of the specification", Pos: posOf(d.e, g.Pos()), Key: fn}
		m.obAt[m.line+1] = o
		m.tabObs = append(m.tabObs, o)
		m.w("  assert(tab_eq(%s(), %s())) by(compute_only);", fn, sp[i])
		m.w("  tab_eq_is(%s(), %s());", fn, sp[i])
	}
	m.w("}")
	m.w("pub broadcast proof fn %s_is(k: %s) ensures (#[trigger] %s_has(k)) == (tab_idx(%s(), k, %s().len()) >= 0) { reveal(%s_has); table_%s(); }", name, ks, name, sp[0], sp[0], name, name)
	m.w("pub broadcast proof fn %s_gets(k: %s) ensures (#[trigger] %s_get(k)) == %s()[tab_idx(%s(), k, %s().len())] { reveal(%s_get); table_%s(); }", name, ks, name, sp[1], sp[0], sp[0], name, name)
	if !d.tabState[name] {
		m.tabNew = append(m.tabNew, name)
	}
}

// mapLiteral reads the entries of a map variable from the package initialiser.
func (e *Engine) mapLiteral(g *ssa.Global) ([][2]constant.Value, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	for _, p := range e.prog.AllPackages() {
		if g.Pkg != p && !g.Object().Exported() {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && !onlyReads(f, g, f.Name() == "init" && p == g.Pkg) {
				return nil, false
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := e.prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if f := e.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" && !onlyReads(f, g, false) {
							return nil, false
						}
					}
				}
			}
		}
	}
	in := g.Pkg.Func("init")
	var mk ssa.Value
	var ups []*ssa.MapUpdate
	for _, b := range in.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Addr == g {
				if mk != nil {
					return nil, false
				}
				mk = s.Val
			}
			if u, ok := i.(*ssa.MapUpdate); ok {
				ups = append(ups, u)
			}
		}
	}
	if _, ok := mk.(*ssa.MakeMap); !ok {
		return nil, false
	}
	var r [][2]constant.Value
	for _, u := range ups {
		if u.Map != mk {
			continue
		}
		k, ok1 := u.Key.(*ssa.Const)
		v, ok2 := u.Value.(*ssa.Const)
		if !ok1 || !ok2 || k.Value == nil || v.Value == nil {
			return nil, false
		}
		r = append(r, [2]constant.Value{k.Value, v.Value})
	}
	return r, len(r) > 0
}

// onlyReads says whether a function does nothing with the map but look things up in it.
func onlyReads(f *ssa.Function, g *ssa.Global, init bool) bool {
	for _, a := range f.AnonFuncs {
		if !onlyReads(a, g, false) {
			return false
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			var ops [12]*ssa.Value
			uses := false
			for _, o := range i.Operands(ops[:0]) {
				if *o == ssa.Value(g) {
					uses = true
				}
			}
			if !uses {
				continue
			}
			switch x := i.(type) {
			case *ssa.Store:
				if !init {
					return false
				}
			case *ssa.UnOp:
				for _, r := range *x.Referrers() {
					switch r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if bi, ok := r.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
							return false
						}
					default:
						return false
					}
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

func posOf(e *Engine, p token.Pos) string {
	q := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}
