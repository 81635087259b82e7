package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: dv verify|check|dump|list|hints ...")
		os.Exit(2)
	}
	root := os.Getenv("DV_ROOT")
	if root == "" {
		root = "/verif"
	}
	repo := os.Getenv("DV_REPO")
	if repo == "" {
		repo = "/repo"
	}
	spec, err := loadSpecs(filepath.Join(root, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		w, err := load(repo, spec)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, k := range os.Args[2:] {
			for _, f := range w.funcs[k] {
				f.WriteTo(os.Stdout)
			}
			for _, f := range w.all {
				if f.String() == k {
					f.WriteTo(os.Stdout)
				}
			}
		}
	case "list":
		w, err := load(repo, spec)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var ks []string
		for k := range w.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m := " "
			if spec.contracts[k] != nil {
				m = "*"
			}
			fmt.Println(m, k, len(w.funcs[k]))
		}
	case "verify":
		w, err := load(repo, spec)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		prop := ""
		verbose := false
		var keys []string
		for _, a := range os.Args[2:] {
			switch {
			case strings.HasPrefix(a, "-prop="):
				prop = a[6:]
			case a == "-v":
				verbose = true
			default:
				keys = append(keys, a)
			}
		}
		tmp, _ := os.MkdirTemp("", "dv")
		if os.Getenv("DV_KEEP") == "" {
			defer os.RemoveAll(tmp)
		} else {
			fmt.Println("queries in", tmp)
		}
		s := newSolver(tmp, 2, 20)
		if len(keys) == 0 {
			for _, c := range w.rootsFor(prop) {
				keys = append(keys, c.key)
			}
			for _, l := range w.lemmasFor(prop) {
				keys = append(keys, "lemma "+l.name)
			}
		}
		bad := 0
		for _, k := range keys {
			t0 := time.Now()
			res := w.verifyKey(k, prop, s, loadHints(root), verifyMode{deep: true, wild: os.Getenv("DV_WILD") != "", noHelpers: os.Getenv("DV_NOHELPERS") != ""})
			fmt.Printf("%-60s %4d obligations, %d failed, %.1fs (%d rounds, %d paths)\n", k, len(res.obls), len(res.failed), time.Since(t0).Seconds(), res.rounds, res.exits)
			if res.err != nil {
				fmt.Println("   ERROR", res.err)
				bad++
			}
			for _, d := range res.dropped {
				if verbose {
					fmt.Println("   dropped", d)
				}
			}
			for _, o := range res.failed {
				bad++
				fmt.Printf("   FAILED %s  @%s\n", o.name(), o.pos)
				if verbose {
					fmt.Println("      goal:", o.x.c.show(o.goal))
				}
			}
			for _, o := range res.obls {
				if verbose && o.secs > 2 {
					fmt.Printf("   slow %.1fs %s %s\n", o.secs, o.solver, o.name())
				}
			}
		}
		if bad > 0 {
			if os.Getenv("DV_KEEP") == "" {
				os.RemoveAll(tmp)
			}
			os.Exit(1)
		}
	case "smoke":
		w, err := load(repo, spec)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		tmp, _ := os.MkdirTemp("", "dv")
		defer os.RemoveAll(tmp)
		s := newSolver(tmp, 2, 6)
		keys := os.Args[2:]
		if len(keys) == 0 {
			for _, c := range w.rootsFor("") {
				keys = append(keys, c.key)
			}
		}
		hints := loadHints(root)
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		for _, k := range keys {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				r := w.verifyKey(k, "", s, hints, verifyMode{smoke: true})
				for _, l := range r.smoke {
					fmt.Println(k, l)
				}
			}()
		}
		wg.Wait()
	case "hints":
		w, err := load(repo, spec)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		tmp, _ := os.MkdirTemp("", "dv")
		defer os.RemoveAll(tmp)
		makeHints(w, root, tmp, os.Args[2:])
	case "check":
		os.Exit(runCheck(root, repo, spec, os.Args[2:]))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

type verifyMode struct {
	deep      bool
	noHelpers bool
	noHints   bool
	wild      bool
	smoke     bool
}

type fnResult struct {
	key     string
	fns     []string
	obls    []*Obl
	failed  []*Obl
	dropped []string
	rounds  int
	exits   int
	err     error
	missing bool
	smoke   []string
	deps    map[string]bool
	trusted map[string]bool
	invs    int
	secs    float64
	perFn   map[string][]string
}

// verifyKey verifies all the instances of a function.
func (w *World) verifyKey(key, prop string, s *Solver, hints map[string][]string, m verifyMode) *fnResult {
	t0 := time.Now()
	res := &fnResult{key: key, deps: map[string]bool{}, trusted: map[string]bool{}}
	defer func() { res.secs = time.Since(t0).Seconds() }()
	if strings.HasPrefix(key, "lemma ") {
		for _, l := range w.spec.lemmas {
			if "lemma "+l.name == key {
				w.mu.Lock()
				x, err := verifyLemma(w, l, prop)
				w.mu.Unlock()
				if err != nil {
					res.err = err
					return res
				}
				w.solveAll(x.obls, s, true, nil)
				res.add(x)
			}
		}
		return res
	}
	con := w.spec.contracts[key]
	if con == nil {
		res.err = fmt.Errorf("no contract for %s", key)
		return res
	}
	fns := w.funcs[key]
	if len(fns) == 0 {
		res.missing = true
		res.err = fmt.Errorf("the function %s does not exist", key)
		return res
	}
	for _, fn := range fns {
		w.verifyOne(fn, con, prop, s, hints, m, res)
	}
	return res
}

func (r *fnResult) add(x *Exec) {
	r.obls = append(r.obls, x.obls...)
	for _, o := range x.obls {
		if o.status == "failed" {
			r.failed = append(r.failed, o)
		}
	}
	for k := range x.deps {
		r.deps[k] = true
	}
	for k := range x.trusted {
		r.trusted[k] = true
	}
	r.exits += x.nexit
}

func (w *World) verifyOne(fn *ssa.Function, con *Contract, prop string, s *Solver, hints map[string][]string, m verifyMode, res *fnResult) {
	drop := map[string]bool{}
	if !m.noHints {
		for _, k := range hints[fn.String()] {
			drop[k] = true
		}
	}
	for round := 0; ; round++ {
		res.rounds++
		w.mu.Lock()
		x := newExec(w, con, prop)
		x.drop = drop
		x.noHelpers = m.noHelpers
		x.wild = m.wild
		err := x.verifyFn(fn)
		w.mu.Unlock()
		if err != nil {
			res.err = err
			res.add(x)
			return
		}
		// invariants first: an invariant that does not hold is no invariant
		var inv, rest []*Obl
		for _, o := range x.obls {
			if o.invKey != "" {
				inv = append(inv, o)
			} else {
				rest = append(rest, o)
			}
		}
		failed := w.solveAll(inv, s, false, drop)
		if failed == 0 || round > 12 {
			w.solveAll(rest, s, m.deep, nil)
			if m.smoke {
				res.smoke = append(res.smoke, w.smoke(x, s)...)
			}
			res.add(x)
			if res.perFn == nil {
				res.perFn = map[string][]string{}
			}
			ds := []string{}
			for k := range drop {
				res.dropped = append(res.dropped, k)
				ds = append(ds, k)
			}
			sort.Strings(ds)
			res.perFn[fn.String()] = ds
			sort.Strings(res.dropped)
			res.fns = append(res.fns, fn.String())
			return
		}
	}
}

// smoke looks for contradictory assumptions: exits of the function whose state is impossible.
func (w *World) smoke(x *Exec, s *Solver) []string {
	var out []string
	dead := 0
	var bad []string
	for i, st := range x.exits {
		w.mu.Lock()
		o := &Obl{fn: x.contract.key, kind: "smoke", label: "exit", goal: x.c.bool(false), x: x, assum: st.assumptions()}
		q := o.script()
		w.mu.Unlock()
		if r := s.prove(q, q, os.Getenv("DV_SMOKE") != ""); r.status == "unsat" {
			if os.Getenv("DV_KEEP") != "" {
				os.WriteFile("/tmp/smoke.smt2", []byte(z3opts+q), 0o644)
			}
			dead++
			bad = append(bad, fmt.Sprint(i))
		}
	}
	if dead > 0 {
		out = append(out, fmt.Sprintf("%d of %d exits impossible: %s", dead, len(x.exits), strings.Join(bad, " ")))
	}
	if len(x.exits) == 0 {
		out = append(out, "no exit")
	}
	return out
}

var ndrop int

// solveAll discharges obligations in parallel. With drop, failing invariants are added to it.
func (w *World) solveAll(obls []*Obl, s *Solver, deep bool, drop map[string]bool) int {
	var wg sync.WaitGroup
	gone := map[string]bool{}
	scripts := make([]string, len(obls))
	w.mu.Lock()
	for i, o := range obls {
		if o.status != "trivial" {
			scripts[i] = o.script()
		}
	}
	w.mu.Unlock()
	for i, o := range obls {
		if o.status == "trivial" {
			o.solver = "simplifier"
			continue
		}
		i, o := i, o
		wg.Add(1)
		go func() {
			defer wg.Done()
			if o.vacuity {
				r := s.prove(scripts[i], "", false)
				o.secs, o.solver = r.secs, r.solver
				if r.status == "unsat" {
					o.status = "failed"
				} else {
					o.status = "proved"
				}
				return
			}
			d := deep
			if drop != nil {
				// declared invariants get the full effort, automatic ones do not
				d = !strings.Contains(o.invKey, "|auto")
			}
			// a shallow attempt, then the parts of the goal one by one
			r := s.prove(scripts[i], "", false)
			lost := false
			if r.status != "unsat" && drop != nil {
				// no long attempts for an invariant that is already lost
				w.mu.Lock()
				lost = gone[o.invKey]
				w.mu.Unlock()
			}
			if r.status != "unsat" && d && !lost {
				var parts, splits []string
				w.mu.Lock()
				if gs := o.x.c.splitGoal(o.goal, 60); len(gs) > 1 {
					for _, g := range gs {
						p := *o
						p.goal = g
						parts = append(parts, p.script())
						splits = append(splits, p.splitScript())
					}
				}
				if len(parts) == 0 {
					parts, splits = []string{scripts[i]}, []string{o.splitScript()}
				}
				w.mu.Unlock()
				secs := r.secs
				for k, p := range parts {
					r = s.prove(p, splits[k], true)
					secs += r.secs
					if r.status != "unsat" {
						if os.Getenv("DV_DROPS") != "" {
							os.WriteFile("/tmp/part.smt2", []byte(z3opts+p), 0o644)
							fmt.Println("   part", len(parts), o.name(), r.status)
						}
						break
					}
				}
				r.secs = secs
			}
			if r.status != "unsat" && drop != nil && d {
				w.mu.Lock()
				gone[o.invKey] = true
				w.mu.Unlock()
			}
			o.secs, o.solver, o.model = r.secs, r.solver, r.status
			if os.Getenv("DV_SLOW") != "" && r.secs > 3 {
				fmt.Printf("   slow %.1fs %s [%s]\n", r.secs, o.name(), r.solver)
			}
			if r.status == "unsat" {
				o.status = "proved"
			} else {
				o.status = "failed"
			}
		}()
	}
	wg.Wait()
	n := 0
	for _, o := range obls {
		if o.status == "failed" {
			n++
			if drop != nil {
				drop[o.invKey] = true
				if os.Getenv("DV_DROPS") != "" {
					ndrop++
					f := fmt.Sprintf("/tmp/drop_%d.smt2", ndrop)
					os.WriteFile(f, []byte(z3opts+o.script()), 0o644)
					fmt.Println("   drop", o.name(), o.model, o.secs, f, o.pos)
				}
			}
		}
	}
	return n
}
