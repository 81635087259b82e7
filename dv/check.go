package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- hints

// The hints file lists candidate invariants known not to hold (so that no time is spent on them).
// It has no influence on what is proved: without it they are tried and dropped.
func loadHints(root string) map[string][]string {
	b, err := os.ReadFile(filepath.Join(root, "contracts", "hints.json"))
	if err != nil {
		return nil
	}
	m := map[string][]string{}
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func makeHints(w *World, root, tmp string, keys []string) {
	hints := loadHints(root)
	if hints == nil {
		hints = map[string][]string{}
	}
	s := newSolver(tmp, 2, 20)
	if len(keys) == 0 {
		for _, c := range w.rootsFor("") {
			keys = append(keys, c.key)
		}
	}
	s.quiet = true
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 6)
	for _, k := range keys {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			t0 := time.Now()
			r := w.verifyKey(k, "", s, nil, verifyMode{deep: true, noHints: true})
			mu.Lock()
			defer mu.Unlock()
			for f := range r.perFn {
				delete(hints, f)
				if len(r.perFn[f]) > 0 {
					hints[f] = r.perFn[f]
				}
			}
			fmt.Printf("%-60s %4d obligations %3d failed %3d dropped %5.1fs %v\n", k, len(r.obls), len(r.failed), len(r.dropped), time.Since(t0).Seconds(), errText(r.err))
		}()
	}
	wg.Wait()
	b, _ := json.MarshalIndent(hints, "", " ")
	os.WriteFile(filepath.Join(root, "contracts", "hints.json"), append(b, '\n'), 0o644)
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

// ---------------------------------------------------------------- a check

type checker struct {
	w        *World
	s        *Solver
	root     string
	repo     string
	prop     string
	tier     string
	seed     int
	hints    map[string][]string
	early    bool // a driver has found a failing input
	earlyOut string
	results  map[string]*fnResult
	mode     map[string]string
	order    []string
	inlined  bool
	notes    []string
}

func (ck *checker) verify(keys []string, m verifyMode, mode string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 6)
	for _, k := range keys {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			p := ck.prop
			if c := ck.w.spec.contracts[k]; c != nil && !ck.isRoot(c) {
				p = ""
			}
			r := ck.w.verifyKey(k, p, ck.s, ck.hints, m)
			mu.Lock()
			defer mu.Unlock()
			if _, ok := ck.results[k]; !ok {
				ck.order = append(ck.order, k)
			}
			ck.results[k] = r
			ck.mode[k] = mode
		}()
	}
	wg.Wait()
}

func (ck *checker) isRoot(c *Contract) bool {
	for _, r := range ck.w.rootsFor(ck.prop) {
		if r == c {
			return true
		}
	}
	return false
}

func (r *fnResult) ok() bool { return r.err == nil && len(r.failed) == 0 }

// closure verifies the functions whose contracts were used, until all of them are done.
func (ck *checker) closure(m verifyMode, mode string) {
	for {
		var todo []string
		seen := map[string]bool{}
		for _, k := range ck.order {
			for d := range ck.results[k].deps {
				if seen[d] || ck.results[d] != nil {
					continue
				}
				if strings.HasPrefix(d, "lemma ") {
					ax := false
					for _, l := range ck.w.spec.lemmas {
						if "lemma "+l.name == d && l.axiom {
							ax = true
						}
					}
					if ax {
						continue
					}
				} else {
					c := ck.w.spec.contracts[d]
					if c == nil || c.kind != "func" || c.inline || len(ck.w.funcs[d]) == 0 {
						continue
					}
				}
				seen[d] = true
				todo = append(todo, d)
			}
		}
		if len(todo) == 0 {
			return
		}
		sort.Strings(todo)
		ck.verify(todo, m, mode)
	}
}

func (ck *checker) failing() []string {
	var f []string
	for _, k := range ck.order {
		if !ck.results[k].ok() {
			f = append(f, k)
		}
	}
	sort.Strings(f)
	return f
}

func (ck *checker) helper(k string) bool {
	c := ck.w.spec.contracts[k]
	return c != nil && c.helper
}

func runCheck(root, repo string, spec *Spec, args []string) int {
	t0 := time.Now()
	if len(args) < 1 {
		fmt.Println("usage: dv check PROPERTY")
		return 2
	}
	ck := &checker{root: root, repo: repo, prop: args[0], tier: os.Getenv("VERIF_TIER"), results: map[string]*fnResult{}, mode: map[string]string{}}
	if ck.tier != "thorough" {
		ck.tier = "quick"
	}
	ck.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	w, err := load(repo, spec)
	if err != nil {
		fmt.Println(err)
		return ck.report(t0, []string{"loading the source: " + err.Error()})
	}
	ck.w = w
	tmp, _ := os.MkdirTemp("", "dv")
	defer os.RemoveAll(tmp)
	t2 := 20
	if ck.tier == "thorough" {
		t2 = 60
	}
	ck.s = newSolver(tmp, 2, t2)
	ck.s.deadline.Store(t0.Add(600 * time.Second).UnixNano())
	// where the proof takes long, the drivers look for a failing input meanwhile: with one, what is
	// not discharged within a short time is reported without further attempts
	early := make(chan bool, 1)
	timer := time.AfterFunc(25*time.Second, func() {
		out, found := ck.replay()
		if found {
			ck.early, ck.earlyOut = true, out
			ck.s.deadline.Store(time.Now().Add(60 * time.Second).UnixNano())
		}
		early <- true
	})
	retry := func() bool {
		if !timer.Stop() {
			<-early
			early <- true
		} else {
			timer.Reset(0)
			<-early
			early <- true
		}
		return !ck.early
	}
	ck.hints = loadHints(root)
	var keys []string
	for _, c := range w.rootsFor(ck.prop) {
		if c.helper && len(w.funcs[c.key]) == 0 {
			ck.notes = append(ck.notes, "helper "+c.key+" no longer exists")
			continue
		}
		keys = append(keys, c.key)
	}
	for _, l := range w.lemmasFor(ck.prop) {
		keys = append(keys, "lemma "+l.name)
	}
	if len(keys) == 0 {
		fmt.Println("no contracts for", ck.prop)
		return 2
	}
	// as specified; where that fails, with every invariant candidate (also under other names)
	m := verifyMode{deep: true, noHints: ck.tier == "thorough"}
	ck.verify(keys, m, "contracts")
	ck.closure(m, "contracts")
	if f := ck.failing(); len(f) > 0 && retry() {
		fmt.Println("retrying with all invariant candidates:", strings.Join(f, ", "))
		m2 := verifyMode{deep: true, noHints: true, wild: true}
		ck.verify(f, m2, "all candidates")
		ck.closure(m2, "all candidates")
	}
	// helper functions are only a way to structure the proof: inline them where they have changed
	if f := ck.failing(); len(f) > 0 && !ck.early {
		var again []string
		broken := map[string]bool{}
		for _, k := range f {
			if ck.helper(k) {
				broken[k] = true
			} else {
				again = append(again, k)
			}
		}
		for _, k := range ck.order {
			if ck.results[k].ok() {
				for d := range ck.results[k].deps {
					if broken[d] {
						again = append(again, k)
						break
					}
				}
			}
		}
		if len(again) > 0 && ck.usesHelpers(again) {
			fmt.Println("retrying with helper functions inlined:", strings.Join(again, ", "))
			m3 := verifyMode{deep: true, noHints: true, wild: true, noHelpers: true}
			ck.verify(again, m3, "helpers inlined")
			ck.closure(m3, "helpers inlined")
		}
		for k := range broken {
			used := false
			for _, o := range ck.order {
				if o != k && !broken[o] && ck.mode[o] != "helpers inlined" && ck.results[o].deps[k] {
					used = true
				}
			}
			if !used && ck.hasCaller(k) {
				ck.notes = append(ck.notes, "helper "+k+" no longer meets its contract; its callers are verified with its body instead")
				delete(ck.results, k)
				for i, o := range ck.order {
					if o == k {
						ck.order = append(ck.order[:i], ck.order[i+1:]...)
						break
					}
				}
			}
		}
	}
	var bad []string
	for _, k := range ck.failing() {
		r := ck.results[k]
		if r.err != nil {
			bad = append(bad, k+": "+r.err.Error())
		}
		for _, o := range r.failed {
			bad = append(bad, fmt.Sprintf("%s  @%s [%s]", o.name(), o.pos, o.model))
		}
	}
	timer.Stop()
	// assumptions about finite tables of imported packages are evaluated on every run
	if out, failed := ck.runTests("TestDVAssume" + ck.prop + "_"); failed {
		bad = append(bad, "an assumption about an imported table does not hold: "+out)
	} else if strings.Contains(out, "ok  \t") {
		ck.notes = append(ck.notes, "the assumptions about imported tables were evaluated: "+strings.TrimSpace(out))
	}
	return ck.report(t0, bad)
}

// hasCaller: the helper's body was taken into account where it is used.
func (ck *checker) hasCaller(k string) bool {
	for _, o := range ck.order {
		if ck.results[o] != nil && ck.results[o].deps["inlined: "+k] {
			return true
		}
	}
	return false
}

func (ck *checker) usesHelpers(keys []string) bool {
	for _, k := range keys {
		for d := range ck.results[k].deps {
			if ck.helper(d) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- known findings

type finding struct {
	prop, obl, what string
}

func loadFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	re := regexp.MustCompile(`^finding: property=(\S+) obligation="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			fs = append(fs, finding{m[1], m[2], m[3]})
		}
	}
	return fs
}

// ---------------------------------------------------------------- report

func (ck *checker) report(t0 time.Time, bad []string) int {
	var left []string
	for _, b := range bad {
		known := false
		for _, f := range loadFindings(ck.root) {
			if f.prop == ck.prop && strings.Contains(b, f.obl) {
				known = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.prop, f.what)
				break
			}
		}
		if !known {
			left = append(left, b)
		}
	}
	total, done := 0, 0
	back := map[string]int{}
	kinds := map[string]int{}
	trusted := map[string]bool{}
	var funcs, lemmas []string
	var samples []string
	inv := 0
	for _, k := range ck.order {
		r := ck.results[k]
		if strings.HasPrefix(k, "lemma ") {
			lemmas = append(lemmas, k[6:])
		} else {
			funcs = append(funcs, k)
		}
		for _, o := range r.obls {
			total++
			kinds[o.kind]++
			if o.status != "failed" {
				done++
				back[o.solver]++
			}
			if o.invKey != "" {
				inv++
			}
			if o.kind == "ensures" && len(samples) < 12 {
				samples = append(samples, o.name()+" ["+o.solver+"]")
			}
		}
		for t := range r.trusted {
			trusted[t] = true
		}
		for d := range r.deps {
			if strings.HasPrefix(d, "lemma ") {
				for _, l := range ck.w.spec.lemmas {
					if l.axiom && "lemma "+l.name == d {
						trusted["axiom "+l.name+" (definition of an uninterpreted specification function)"] = true
					}
				}
			}
		}
	}
	if ck.w != nil && len(ck.order) > 0 {
		trusted["the translation from Go SSA (golang.org/x/tools/go/ssa) to verification conditions in /verif/dv, and the SMT solvers"] = true
		trusted["floating point arithmetic treated as real arithmetic (no rounding, no NaN or infinity)"] = true
		trusted["sequential semantics: no other goroutine changes the state of a function between its steps except where stated"] = true
		trusted["preconditions of exported functions and of the type invariants hold at the outermost call"] = true
	}
	var tr []string
	for t := range trusted {
		tr = append(tr, t)
	}
	sort.Strings(tr)
	sort.Strings(funcs)
	sort.Strings(lemmas)
	ev := map[string]any{
		"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": total, "discharged": done,
			"checker_cmd":              "bash /verif/check.sh " + ck.prop,
			"trusted_base":             tr,
			"functions_under_contract": funcs,
			"lemmas":                   lemmas,
			"back_ends":                back,
			"obligation_kinds":         kinds,
			"invariant_obligations":    inv,
			"samples":                  samples,
			"notes":                    ck.notes,
		},
		"assumptions": tr,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(left),
	}
	if ck.s != nil {
		cov := ev["coverage"].(map[string]any)
		cov["solver_seconds"] = ck.s.total
		cov["solver_calls"] = ck.s.calls
	}
	os.MkdirAll(filepath.Join(ck.root, "evidence"), 0o755)
	code := 0
	if len(left) > 0 {
		code = 1
		out, found := ck.earlyOut, ck.early
		if !found {
			out, found = ck.replay()
		}
		path := filepath.Join(ck.root, "evidence", ck.prop+".replay.txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\nobligations that are not discharged on the current source:\n", ck.prop)
		for _, l := range left {
			fmt.Fprintf(&b, "  %s\n", l)
		}
		for _, n := range ck.notes {
			fmt.Fprintf(&b, "note: %s\n", n)
		}
		fmt.Fprintf(&b, "\nreplay against the real code:\n%s\n", out)
		for _, k := range ck.failing() {
			for _, o := range ck.results[k].failed {
				fmt.Fprintf(&b, "\n---- %s\n     at %s, verifier: %s\n     goal: %s\n", o.name(), o.pos, o.model, o.x.c.show(o.goal))
			}
		}
		os.WriteFile(path, []byte(b.String()), 0o644)
		for i, l := range left {
			if i < 10 {
				fmt.Println("not discharged:", l)
			}
		}
		if found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", ck.prop, path)
		}
		ev["coverage"].(map[string]any)["undischarged"] = left
	} else {
		fmt.Printf("property %s: %d obligations of %d functions and %d lemmas discharged in %.1fs\n", ck.prop, done, len(funcs), len(lemmas), time.Since(t0).Seconds())
	}
	ev["wall_s"] = time.Since(t0).Seconds()
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(ck.root, "evidence", ck.prop+".json"), append(j, '\n'), 0o644)
	return code
}

// replay runs the drivers of the property against the real code, looking for an input that shows the violation.
func (ck *checker) replay() (string, bool) { return ck.runTests("TestDV" + ck.prop + "_") }

// the output of the log package
var logLine = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// runTests runs the drivers with this prefix inside the packages of the current tree.
func (ck *checker) runTests(prefix string) (string, bool) {
	dirs, _ := filepath.Glob(filepath.Join(ck.root, "replay", "*"))
	over := map[string]map[string]string{"Replace": {}}
	var pkgs []string
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(d, "*_test.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if !bytes.Contains(b, []byte("func "+prefix)) && !strings.Contains(filepath.Base(f), "util") {
				continue
			}
			over["Replace"][filepath.Join(ck.repo, filepath.Base(d), filepath.Base(f))] = f
			if p := "./" + filepath.Base(d); !strings.Contains(filepath.Base(f), "util") && (len(pkgs) == 0 || pkgs[len(pkgs)-1] != p) {
				pkgs = append(pkgs, p)
			}
		}
	}
	if len(pkgs) == 0 {
		return "no driver for this property", false
	}
	tmp, err := os.MkdirTemp("", "dvreplay")
	if err != nil {
		return err.Error(), false
	}
	defer os.RemoveAll(tmp)
	ov := filepath.Join(tmp, "overlay.json")
	j, _ := json.Marshal(over)
	os.WriteFile(ov, j, 0o644)
	var out strings.Builder
	found := false
	for _, p := range pkgs {
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "90s", "-run", "^"+prefix, p)
		cmd.Dir = ck.repo
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", ck.seed), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "TMPDIR="+tmp)
		b, err := cmd.CombinedOutput()
		cancel()
		fmt.Fprintf(&out, "$ cd %s; VERIF_SEED=%d go test -overlay OVERLAY -vet=off -count=1 -run '^%s' %s   (drivers in /verif/replay)\n", ck.repo, ck.seed, prefix, p)
		var ls []string
		for _, l := range strings.Split(string(b), "\n") {
			if !logLine.MatchString(l) {
				ls = append(ls, l)
			}
		}
		t := strings.Join(ls, "\n")
		if len(t) > 12000 {
			out.WriteString(t[:12000] + "\n...")
		} else {
			out.WriteString(t)
		}
		if err != nil && !strings.Contains(t, "[build failed]") && !strings.Contains(t, "[setup failed]") && (strings.Contains(t, "--- FAIL") || strings.Contains(t, "panic:") || strings.Contains(t, "fatal error:")) {
			found = true
		}
	}
	return out.String(), found
}
