package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newExec(w *World, con *Contract, prop string) *Exec {
	x := &Exec{w: w, c: newCtx(), contract: con, prop: prop, heapInfos: map[string]*heapInfo{}, epochHeaps: map[string]*Term{}, cellTyp: map[int]types.Type{}, drop: map[string]bool{}, fvs: map[*Term]Val{}, received: map[*Term]recvdFunc{}, oblN: map[string]int{}, deps: map[string]bool{}, trusted: map[string]bool{}, usedInv: map[string]bool{}, params: map[string]Val{}, globals: map[string]Val{}, recApps: map[string]*SpecFn{}, lemmaDone: map[string]bool{}, matchedInv: map[string]bool{}, oncallHit: map[string]bool{}}
	if con != nil {
		for _, cl := range con.clauses {
			if strings.Contains(cl.text, "written(") {
				x.usesWritten = true
			}
		}
	}
	x.initGhost()
	return x
}

// verifyFn generates the obligations of one function.
func (x *Exec) verifyFn(fn *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("DV_PANIC") != "" {
				panic(r)
			}
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s: %s", x.curPos, string(u))
			} else {
				err = fmt.Errorf("%s: internal error: %v", x.curPos, r)
			}
		}
	}()
	c := x.c
	con := x.contract
	x.root = fn
	st := &State{x: x, cells: map[int]Val{}, heaps: map[string]*Term{}, facts: map[*Term]bool{}, last: map[string]*lastCall{}}
	st.next = c.constant("next0", "Int")
	st.next.facts = []*Term{c.ge(st.next, c.int(1))}
	x.epochSeq = []int{0}
	x.epochNext = []*Term{st.next}
	x.entryNext = st.next
	x.entry = st

	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, live: map[*ssa.Alloc]int{}, params: map[string]Val{}, con: con}
	for i, p := range fn.Params {
		v := x.fresh(st, p.Name(), p.Type())
		v.t.stable = true
		fr.regs[p] = v
		fr.params[p.Name()] = v
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := under(p.Type()).(*types.Pointer); ok {
				st.assume(c.gt(v.t, c.int(0)))
			}
		}
	}
	for _, fv := range fn.FreeVars {
		el := ptrElem(fv.Type())
		if el == nil {
			fr.regs[fv] = x.fresh(st, fv.Name(), fv.Type())
			continue
		}
		if structOf(el) != nil && !isTimeTime(el) {
			v := x.fresh(st, fv.Name(), fv.Type())
			st.assume(c.gt(v.t, c.int(0)))
			fr.regs[fv] = v
			continue
		}
		v := x.fresh(st, fv.Name(), el)
		if fv.Name() == con.recv || fv.Name() == "r" || fv.Name() == "l" {
			_ = v
		}
		id := x.newCell(st, el, v)
		fr.regs[fv] = &PV{&Place{kind: pCell, cell: id, root: el, typ: el}, fv.Type()}
		fr.params[fv.Name()] = v
	}
	fr.bindSpecNames(con, fn)
	if fn.Signature.Recv() == nil && con.recv != "" && fn.Parent() != nil {
		// closures see the receiver of the enclosing method as a captured variable
		for _, fv := range fn.FreeVars {
			if v, ok := fr.params[fv.Name()]; ok && fv.Name() == con.recv {
				if tv, ok := v.(*TV); ok && tv.t.sort == "Int" {
					st.assume(c.gt(tv.t, c.int(0)))
				}
			}
		}
	}
	x.params = fr.params
	x.entry = st.clone()
	fr.old = x.entry
	env := &Env{x: x, st: st, old: x.entry, vars: map[string]Val{}, pkg: x.w.pkgOf(fn), fn: fn}
	for k, v := range fr.params {
		env.vars[k] = v
	}
	for _, cl := range con.get("requires") {
		x.assumeSpec(st, cl.expr, env)
	}
	for _, cl := range con.get("assume") {
		x.assumeSpec(st, cl.expr, env)
		lab := cl.label
		if lab == "" {
			lab = cl.text
		}
		x.trust("assumed at the entry of " + con.key + ": " + lab)
	}
	x.mods = nil
	for _, cl := range con.get("modifies") {
		if cl.text == "*" {
			x.modAll = true
		}
		for _, m := range x.resolveMods(cl, env) {
			x.mods = append(x.mods, m.item)
		}
	}
	if con.noframe {
		x.modAll = true
	}
	for _, cl := range con.get("panics") {
		g := x.evalBool(cl.expr, env)
		if x.panicsOK == nil {
			x.panicsOK = g
		} else {
			x.panicsOK = c.or(x.panicsOK, g)
		}
	}
	// the entry state, with the heaps the clauses mention, is what old() refers to
	for k, v := range st.heaps {
		x.entry.heaps[k] = v
	}
	x.entry.pc = st.pc
	x.oblige(st, "vacuity", "precondition satisfiable", c.bool(false), "").vacuity = true

	outs := x.run(fr, fn.Blocks[0], 0, st)
	for _, o := range outs {
		if o.st.dead() {
			continue
		}
		x.nexit++
		x.exits = append(x.exits, o.st)
		e2 := &Env{x: x, st: o.st, old: x.entry, vars: map[string]Val{}, pkg: x.w.pkgOf(fn), fn: fn}
		for k, v := range fr.params {
			e2.vars[k] = v
		}
		x.bindResults(e2, con, fn.Signature, o.vals)
		x.curPos = x.posOf(fn.Pos())
		if x.panicsOK != nil {
			// where the contract announces a panic, there must be one
			x.oblige(o.st, "panics", "panics when announced", c.not(x.panicsOK), x.curPos)
		}
		for _, cl := range con.get("ensures") {
			if !cl.forProp(x.prop) {
				continue
			}
			lab := cl.label
			if lab == "" {
				lab = cl.text
			}
			x.ensure(o.st, lab, cl.expr, e2)
		}
		for _, cl := range con.get("returned") {
			if cl.forProp(x.prop) {
				x.returned(fr, o, cl, e2)
			}
		}
	}
	if len(outs) == 0 && len(con.get("ensures")) > 0 && x.panicsOK == nil && !con.noframe {
		x.oblige(x.entry, "vacuity", "no exit reachable", c.bool(true), "").vacuity = true
	}
	for i, cl := range con.get("step") {
		if cl.forProp(x.prop) && !x.oncallHit[fmt.Sprint("step ", i)] {
			o := &Obl{fn: con.key, kind: "step", label: "an iteration can end", pos: x.posOf(fn.Pos()), goal: c.bool(false), x: x, assum: x.entry.assumptions()}
			x.obls = append(x.obls, o)
		}
	}
	for i, cl := range con.get("oncall") {
		if cl.forProp(x.prop) && !x.oncallHit[fmt.Sprint(i)] {
			o := &Obl{fn: con.key, kind: "oncall", label: cl.callee + " is called", pos: x.posOf(fn.Pos()), goal: c.bool(false), x: x, assum: x.entry.assumptions()}
			x.obls = append(x.obls, o)
		}
	}
	return nil
}

// returned: what holds for every later call of the function that is returned. Memory may have changed in between.
func (x *Exec) returned(fr *Frame, o Outcome, cl *Clause, env *Env) {
	lab := cl.label
	if lab == "" {
		lab = cl.text
	}
	var f *FV
	if len(o.vals) > 0 {
		switch v := o.vals[0].(type) {
		case *FV:
			f = v
		case *TV:
			f, _ = x.fvs[v.t].(*FV)
		}
	}
	if f == nil {
		x.oblige(o.st, "ensures", lab+" (the returned function is not known)", x.c.bool(false), x.curPos)
		return
	}
	ins, outs, _ := strings.Cut(cl.callee, "->")
	st := o.st.clone()
	save := x.modAll
	x.modAll = true
	defer func() { x.modAll = save }()
	x.havocAll(st)
	n := *env
	n.vars = map[string]Val{}
	for k, v := range env.vars {
		n.vars[k] = v
	}
	sig := f.fn.Signature
	var args []Val
	names := splitList(ins)
	for i := 0; i < sig.Params().Len(); i++ {
		v := x.fresh(st, "arg", sig.Params().At(i).Type())
		args = append(args, v)
		if i < len(names) {
			n.vars[names[i]] = v
		}
	}
	n.st, n.old, n.lookup, n.oldLookup = st, st, nil, nil
	for _, r := range cl.items {
		st.assume(x.evalBool(r, &n))
	}
	pre := st.clone()
	for _, q := range x.callFn(fr, f, args, st, sig) {
		if q.st.dead() {
			continue
		}
		m := n
		m.vars = map[string]Val{}
		for k, v := range n.vars {
			m.vars[k] = v
		}
		for i, r := range splitList(outs) {
			if i < len(q.vals) {
				m.vars[r] = q.vals[i]
			}
		}
		m.st, m.old = q.st, pre
		x.ensure(q.st, lab, cl.expr, &m)
	}
}

// ensure splits conjunctions into separate obligations.
func (x *Exec) ensure(st *State, lab string, e *Expr, env *Env) {
	if e.kind == "bin" && e.op == "&&" {
		x.ensure(st, lab, e.args[0], env)
		x.ensure(st, lab, e.args[1], env)
		return
	}
	if e.kind == "call" && x.w.spec.preds[e.name] != nil && (!x.w.spec.preds[e.name].opaque || x.contract.reveal[e.name]) {
		p := x.w.spec.preds[e.name]
		if p.body.kind == "bin" && p.body.op == "&&" {
			n := *env
			n.vars = map[string]Val{}
			for i, q := range p.params {
				n.vars[q] = x.eval(e.args[i], env)
			}
			n.lookup, n.oldLookup, n.inOld = nil, nil, false
			if pk := x.w.pkgByShort(p.pkg); pk != nil {
				n.pkg = pk
			}
			x.ensure(st, lab, p.body, &n)
			return
		}
	}
	x.oblige(st, "ensures", lab, x.evalBool(e, env), x.curPos)
}

// verifyLemma generates the obligation of a lemma.
func verifyLemma(w *World, l *Lemma, prop string) (x *Exec, err error) {
	con := &Contract{key: "lemma " + l.name, pkg: l.pkg}
	x = newExec(w, con, prop)
	defer func() {
		w.curLemma = nil
		if r := recover(); r != nil {
			err = fmt.Errorf("lemma %s: %v", l.name, r)
		}
	}()
	w.curLemma = l
	c := x.c
	st := &State{x: x, cells: map[int]Val{}, heaps: map[string]*Term{}, facts: map[*Term]bool{}, last: map[string]*lastCall{}}
	st.next = c.constant("next0", "Int")
	x.epochSeq, x.epochNext, x.entryNext, x.entry = []int{0}, []*Term{st.next}, st.next, st
	env, vars := x.lemmaEnv(l, false)
	for _, r := range l.requires {
		st.assume(x.evalBool(r, env))
	}
	goal := x.evalBool(l.ensures, env)
	if l.induct != "" {
		n := env.vars[l.induct].(*TV).t
		var rs []*Term
		for _, r := range l.requires {
			rs = append(rs, x.evalBool(r, env))
		}
		ih := c.implies(c.and(rs...), goal)
		ih = c.subst(ih, map[*Term]*Term{n: c.sub(n, c.int(1))})
		st.assume(c.implies(c.ge(n, c.int(1)), ih))
	}
	_ = vars
	x.oblige(st, "lemma", l.text, goal, "")
	return x, nil
}

// rootsFor: the contracts a property's check verifies.
func (w *World) rootsFor(prop string) []*Contract {
	var r []*Contract
	for _, c := range w.spec.order {
		if c.kind != "func" || c.inline {
			continue
		}
		use := prop == "" || c.hasProp(prop)
		for _, cl := range c.clauses {
			for _, p := range cl.props {
				if p == prop {
					use = true
				}
			}
		}
		if use {
			r = append(r, c)
		}
	}
	return r
}

func (w *World) lemmasFor(prop string) []*Lemma {
	var r []*Lemma
	for _, l := range w.spec.lemmas {
		if l.axiom {
			continue
		}
		for _, p := range l.props {
			if p == prop || prop == "" {
				r = append(r, l)
				break
			}
		}
	}
	return r
}

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '/'); i >= 0 {
		return k[i+1:]
	}
	return k
}
