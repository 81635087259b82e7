package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solverCfg struct {
	name string
	cmd  string
	opts string
	args func(secs int, file string) []string
}

var z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

func z3args(extra ...string) func(int, string) []string {
	return func(secs int, f string) []string {
		return append(append([]string{fmt.Sprintf("-T:%d", secs)}, extra...), f)
	}
}

func cvcargs(extra ...string) func(int, string) []string {
	return func(secs int, f string) []string {
		return append(append([]string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, extra...), f)
	}
}

var stage1 = []solverCfg{{"z3-new", "z3-new", z3opts, z3args()}}
var stage2 = []solverCfg{
	{"z3-new(arith2)", "z3-new", z3opts + "(set-option :smt.arith.solver 2)\n", z3args()},
	{"z3-4.8(e)", "z3", z3opts, z3args()},
	{"cvc5", "cvc5", "(set-logic ALL)\n", cvcargs("--strings-exp")},
	{"z3-new(auto)", "z3-new", "", z3args()},
	{"z3-new(seed7)", "z3-new", z3opts + "(set-option :smt.random_seed 7)\n(set-option :smt.case_split 3)\n", z3args()},
	{"cvc5(enum)", "cvc5", "(set-logic ALL)\n", cvcargs("--strings-exp", "--enum-inst", "--no-e-matching")},
}

type solveResult struct {
	status string
	solver string
	secs   float64
	out    string
}

type Solver struct {
	dir      string
	mu       sync.Mutex
	cache    map[string]solveResult
	sem      chan struct{}
	n        int
	t1       int
	t2       int
	total    float64
	calls    int
	quiet    bool
	deadline atomic.Int64 // no long attempts after this time (Unix, ns; 0: none)
}

func newSolver(dir string, t1, t2 int) *Solver {
	os.MkdirAll(dir, 0o755)
	return &Solver{dir: dir, cache: map[string]solveResult{}, sem: make(chan struct{}, 8), t1: t1, t2: t2}
}

func (s *Solver) run(ctx context.Context, cfg solverCfg, body string, secs int) solveResult {
	s.mu.Lock()
	s.n++
	f := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", s.n))
	s.calls++
	s.mu.Unlock()
	os.WriteFile(f, []byte(cfg.opts+body), 0o644)
	if os.Getenv("DV_KEEP") == "" {
		defer os.Remove(f)
	}
	t0 := time.Now()
	c2, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, cfg.cmd, cfg.args(secs, f)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Run()
	d := time.Since(t0).Seconds()
	s.mu.Lock()
	s.total += d
	s.mu.Unlock()
	o := out.String()
	st := "unknown"
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			st = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			st = "error: " + l
			break
		}
	}
	return solveResult{st, cfg.name, d, o}
}

// prove decides one script: unsat means proved.
// split is the same script with one assertion for each conjunct.
func (s *Solver) prove(body, split string, deep bool) solveResult {
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(body)))
	s.mu.Lock()
	r, ok := s.cache[h]
	s.mu.Unlock()
	if ok && (r.status == "unsat" || deep == strings.HasSuffix(r.out, "!deep")) {
		return r
	}
	s.sem <- struct{}{}
	r = s.run(context.Background(), stage1[0], body, s.t1)
	<-s.sem
	if r.status != "unsat" && deep && (s.deadline.Load() == 0 || time.Now().UnixNano() < s.deadline.Load()) {
		if strings.HasPrefix(r.status, "error") {
			fmt.Fprintln(os.Stderr, "solver:", r.status)
		}
		if q := s.proveFiltered(split); q.status == "unsat" {
			q.secs += r.secs
			s.mu.Lock()
			s.cache[h] = q
			s.mu.Unlock()
			return q
		}
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan solveResult, len(stage2))
		for _, c := range stage2 {
			c := c
			go func() {
				s.sem <- struct{}{}
				defer func() { <-s.sem }()
				if ctx.Err() != nil {
					ch <- solveResult{"unknown", c.name, 0, ""}
					return
				}
				ch <- s.run(ctx, c, body, s.t2)
			}()
		}
		for range stage2 {
			q := <-ch
			if q.status == "unsat" {
				q.secs += r.secs
				r = q
				break
			}
			if q.status == "sat" && r.status == "unknown" {
				r.status = "sat"
			}
		}
		cancel()
		r.out += "!deep"
	}
	s.mu.Lock()
	s.cache[h] = r
	s.mu.Unlock()
	return r
}

// proveFiltered tries with a part of the quantified assumptions only.
func (s *Solver) proveFiltered(body string) solveResult {
	fs := filtered(body, []int{5, 10, 20, 40})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solveResult, len(fs))
	for _, f := range fs {
		f := f
		go func() {
			s.sem <- struct{}{}
			defer func() { <-s.sem }()
			if ctx.Err() != nil {
				ch <- solveResult{"unknown", "", 0, ""}
				return
			}
			cfg := stage1[0]
			cfg.name = "z3-new(filtered)"
			ch <- s.run(ctx, cfg, f, 8)
		}()
	}
	for range fs {
		if q := <-ch; q.status == "unsat" {
			return q
		}
	}
	return solveResult{"unknown", "", 0, ""}
}

func (o *Obl) script() string      { return o.smt(false) }
func (o *Obl) splitScript() string { return o.smt(true) }

func (o *Obl) smt(split bool) string {
	x := o.x
	assum := append([]*Term{}, o.assum...)
	goal := o.goal
	if o.vacuity {
		goal = nil
	}
	// defining equations of the recursive specification functions that occur
	extra := x.unfoldings(append(append([]*Term{}, assum...), o.goal), 2)
	return x.c.query(append(assum, extra...), goal, split)
}

// unfoldings: ground definitional instances, to a fixed depth.
func (x *Exec) unfoldings(ts []*Term, rounds int) []*Term {
	if len(x.recApps) == 0 {
		return nil
	}
	var out []*Term
	done := map[*Term]bool{}
	seen := map[*Term]bool{}
	var found []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == kConst {
			if t.def != nil {
				visit(t.def)
			}
			for _, f := range t.facts {
				visit(f)
			}
		}
		if t.kind == kApp && x.recApps[t.op] != nil && !t.hasBound {
			found = append(found, t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	for r := 0; r < rounds; r++ {
		cur := found
		found = nil
		for _, a := range cur {
			if done[a] {
				continue
			}
			done[a] = true
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				if u := x.unfold(x.recApps[a.op], a); u != nil {
					out = append(out, u)
					visit(u)
				}
			}()
		}
	}
	return out
}
