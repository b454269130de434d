// Command replay runs the real code of libsv/libsv against independent oracles, one per property.
//
// A case is determined by (property, seed, case number).  Small case numbers enumerate boundary
// choices systematically, others are random.  Nothing here counts as proof: it is the bounded
// conformance run of every check, and the search for a failing input when an obligation fails.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type prop struct {
	rule string
	run  func(g *G)
}

var props = map[string]prop{}

type result struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failed      bool     `json:"failed"`
	Case        int      `json:"case"`
	Input       string   `json:"input"`
	Got         string   `json:"got"`
	Want        string   `json:"want"`
}

type stop struct{}

// runCase runs a case and then, in the same process, related ones: the same case once more after
// everything the first run gave was overwritten, or the case with one of its random draws changed.
// What the library remembers from an earlier call must not show.
func runCase(p prop, seed int64, n int, dict *Dict, loud bool) *G {
	g := runOnce(p, seed, n, dict, loud, -1)
	if g.failed || n%4 > 1 {
		return g
	}
	for _, b := range g.res {
		scribble(b)
	}
	spoil(g.objs, uint64(n)*0x9e3779b97f4a7c15>>20)
	flip := -1
	if n%8 > 1 && g.src.n > 0 {
		flip = (n*7919 + int(seed)*31) % g.src.n
	}
	h := runOnce(p, seed, n, dict, loud, flip)
	if h.failed {
		what := " (once more, after the results of the first run were overwritten)"
		if flip >= 0 {
			what = " (after a similar sequence of calls)"
		}
		h.got += what
		h.ins = append(append(g.ins, "then:"), h.ins...)
		return h
	}
	return g
}

func runOnce(p prop, seed int64, n int, dict *Dict, loud bool, flip int) (g *G) {
	g = newG(seed, n, dict)
	g.src.flip = flip
	g.loud = loud
	curG = g
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			g.failed, g.got, g.want = true, fmt.Sprintf("panic: %v", r), "no panic"
			if loud {
				g.got += "\n" + string(debug.Stack())
			}
		}
	}()
	p.run(g)
	g.frames()
	return g
}

var cur, curStart int64

// watch ends the process when a case does not come to an end or takes all memory
func watch() {
	atomic.StoreInt64(&curStart, time.Now().UnixNano())
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(50 * time.Millisecond)
			if time.Now().UnixNano()-atomic.LoadInt64(&curStart) > int64(20*time.Second) {
				fmt.Fprintln(os.Stderr, "case", atomic.LoadInt64(&cur), "does not terminate within 20 s")
				os.Exit(7)
			}
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 5<<30 {
				fmt.Fprintln(os.Stderr, "case", atomic.LoadInt64(&cur), "allocates more than 5 GB")
				os.Exit(7)
			}
		}
	}()
}

func main() {
	id := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	ms := flag.Int("ms", 2000, "time to spend")
	repo := flag.String("repo", "/repo", "repository, for the dictionary of literals")
	only := flag.Int("case", -1, "run this case only and print it")
	child := flag.String("child", "", "internal")
	writeBase := flag.Bool("baseline", false, "print the literals of the repository")
	flag.Parse()
	if *writeBase {
		for _, k := range sortedLits(*repo) {
			fmt.Println(k)
		}
		return
	}
	p, ok := props[*id]
	if !ok {
		// nothing to run: not an error
		json.NewEncoder(os.Stdout).Encode(result{Rule: "no oracle", Samples: []string{}})
		return
	}
	dict := loadDict(*repo)
	if *only >= 0 {
		if os.Getenv("GOMEMLIMIT") == "" {
			debug.SetMemoryLimit(6 << 30)
		}
		atomic.StoreInt64(&cur, int64(*only))
		watch()
		g := runCase(p, *seed, *only, dict, true)
		fmt.Println("input:", g.input())
		if g.failed {
			fmt.Println("got: ", g.got)
			fmt.Println("want:", g.want)
			os.Exit(1)
		}
		fmt.Println("holds")
		return
	}
	if *child == "" {
		parent(*id, *seed, *ms, *repo)
		return
	}
	// the case number is left in a file, so that the parent can tell which case killed the process
	mark, err := os.OpenFile(*child, os.O_RDWR, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	watch()
	debug.SetGCPercent(200)
	res := result{Rule: p.rule, Samples: []string{}}
	seen := map[uint64]bool{}
	start := time.Now()
	end := start.Add(time.Duration(*ms) * time.Millisecond)
	var nb [8]byte
	for n := 0; n < 20 || time.Now().Before(end); n++ {
		binary.LittleEndian.PutUint64(nb[:], uint64(n))
		mark.WriteAt(nb[:], 0)
		atomic.StoreInt64(&cur, int64(n))
		atomic.StoreInt64(&curStart, time.Now().UnixNano())
		g := runCase(p, *seed, n, dict, false)
		res.Evaluations++
		in := g.input()
		h := fnv.New64a()
		h.Write([]byte(in))
		if g.nontrivial && !seen[h.Sum64()] {
			if len(seen) < 1<<22 {
				seen[h.Sum64()] = true
				res.Distinct++
			}
			if len(res.Samples) < 3 && res.Distinct%37 == 5 {
				res.Samples = append(res.Samples, cut(in, 400))
			}
		}
		if g.failed {
			res.Failed, res.Case, res.Input, res.Got, res.Want = true, n, cut(in, 20000), cut(g.got, 5000), cut(g.want, 5000)
			break
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d characters)", len(s))
	}
	return s
}

func parent(id string, seed int64, ms int, repo string) {
	f, err := os.CreateTemp("", "replay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f.Write(make([]byte, 8))
	f.Close()
	defer os.Remove(f.Name())
	run := func(args ...string) (string, string, error) {
		c := exec.Command(os.Args[0], args...)
		var ob, eb bytes.Buffer
		c.Stdout, c.Stderr = &ob, &eb
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		t := time.AfterFunc(time.Duration(ms)*time.Millisecond+50*time.Second, func() { c.Process.Kill() })
		defer t.Stop()
		err := c.Run()
		return ob.String(), eb.String(), err
	}
	base := []string{"-prop", id, "-seed", fmt.Sprint(seed), "-repo", repo}
	out, errs, err := run(append(base, "-ms", fmt.Sprint(ms), "-child", f.Name())...)
	var res result
	if err == nil && json.Unmarshal([]byte(out), &res) == nil {
		fmt.Print(out)
		return
	}
	b, _ := os.ReadFile(f.Name())
	n := int(binary.LittleEndian.Uint64(b))
	// the process died: is it this case?
	ms = 0
	o2, e2, err2 := run(append(base, "-case", fmt.Sprint(n))...)
	if err2 == nil {
		fmt.Fprintln(os.Stderr, "process ended, not reproducible with case", n, cut(errs, 2000), err)
		os.Exit(3)
	}
	in := ""
	for _, l := range strings.Split(e2, "\n") {
		if strings.HasPrefix(l, "@") {
			in += l[1:] + " "
		}
	}
	first := strings.SplitN(errs, "\n", 2)[0]
	json.NewEncoder(os.Stdout).Encode(result{Evaluations: n + 1, Distinct: n, Rule: props[id].rule, Samples: []string{}, Failed: true, Case: n, Input: cut(in+o2, 20000), Got: "the process died: " + first, Want: "no crash, termination"})
}

func sortedLits(repo string) []string {
	m := mineLits(repo)
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
