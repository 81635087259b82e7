package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 14

func (x *Exec) call(fr *Frame, ins *ssa.Call, cc *ssa.CallCommon, st *State) []Outcome {
	var vs []Val
	if cc.IsInvoke() {
		vs = append(vs, x.val(fr, cc.Value))
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		vs = append(vs, x.val(fr, cc.Value))
	}
	for _, a := range cc.Args {
		vs = append(vs, x.val(fr, a))
	}
	return x.callVals(fr, ins, cc, vs, st)
}

// callVals: vals[0] is the function value or the receiver of an interface call, except for builtins.
func (x *Exec) callVals(fr *Frame, ins *ssa.Call, cc *ssa.CallCommon, vals []Val, st *State) []Outcome {
	outs := x.callVals1(fr, ins, cc, vals, st)
	name := ""
	if cc.IsInvoke() {
		name = x.w.ifaceKey(cc.Value.Type(), cc.Method)
	} else if fn := cc.StaticCallee(); fn != nil {
		name = x.w.keyOf(fn)
	}
	x.noteCall(outs, name)
	return outs
}

func (x *Exec) callVals1(fr *Frame, ins *ssa.Call, cc *ssa.CallCommon, vals []Val, st *State) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, cc, vals, st)
	}
	if cc.IsInvoke() {
		return x.invoke(fr, cc, vals, st)
	}
	switch f := vals[0].(type) {
	case *FV:
		return x.callFn(fr, f, vals[1:], st, cc.Signature())
	case *TV:
		if o, ok := x.fvs[f.t]; ok {
			if fv, ok := o.(*FV); ok {
				return x.callFn(fr, fv, vals[1:], st, cc.Signature())
			}
		}
		// a function value known only at run time: one of the closures of this function, or another one
		var known []*Term
		for t, o := range x.fvs {
			if fv, ok := o.(*FV); ok && fv.fn.Parent() == x.root && types.Identical(under(fv.fn.Signature), under(cc.Signature())) {
				known = append(known, t)
			}
		}
		sort.Slice(known, func(i, j int) bool { return known[i].id < known[j].id })
		var outs []Outcome
		for _, k := range known {
			s2 := st.clone()
			s2.assume(x.c.eq(f.t, k))
			st.assume(x.c.not(x.c.eq(f.t, k)))
			if !s2.dead() {
				f2 := fr
				if fr != nil {
					f2 = fr.clone()
				}
				outs = append(outs, x.callFn(f2, x.fvs[k].(*FV), vals[1:], s2, cc.Signature())...)
			}
		}
		if st.dead() {
			return outs
		}
		return append(outs, x.unknownFunc(fr, cc, f, vals[1:], st)...)
	}
	panic(unsupported("call"))
}

// unknownFunc: calling a function value that is not known at verification time (a callback).
func (x *Exec) unknownFunc(fr *Frame, cc *ssa.CallCommon, f *TV, args []Val, st *State) []Outcome {
	// a contract may be given for function types and struct fields: key "func <type>"
	name := ""
	if u, ok := cc.Value.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			el := ptrElem(fa.X.Type())
			name = x.w.typeKeyShort(el) + "." + structOf(el).Field(fa.Field).Name()
		} else if a, ok := u.X.(*ssa.Alloc); ok {
			name = x.w.keyOf(fr.fn) + "." + a.Comment
		} else if a, ok := u.X.(*ssa.FreeVar); ok {
			name = x.w.keyOf(fr.fn) + "." + a.Name()
		}
	}
	var owner Val
	if u, ok := cc.Value.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			owner = x.val(fr, fa.X)
		}
	}
	if o, ok := x.received[f.t]; ok {
		// received from a channel: the contract of the channel
		name, owner = o.name, o.owner
	}
	x.must(st, "nil-func", "called function is not nil", x.c.not(x.c.eq(f.t, x.c.int(0))), x.curPos)
	con := x.w.spec.contracts[name]
	if con == nil {
		con = x.w.spec.contracts["func."+typeKey(f.typ)]
	}
	if con != nil && con.pure && cc.Signature().Results().Len() == 1 {
		// a function of its arguments alone
		x.checkOncall(fr, con.key, con, cc.Signature(), args, st)
		x.deps[con.key] = true
		x.trust("callback " + con.key + " is a function of its arguments")
		return []Outcome{{st, []Val{x.applyFn(f, args, cc.Signature())}}}
	}
	if con != nil {
		x.cbOwner = owner
		defer func() { x.cbOwner = nil }()
		return x.callContract(fr, con, nil, cc.Signature(), nil, args, st)
	}
	x.trust("callback " + name + " called: anything in memory may have changed")
	x.havocAll(st)
	return []Outcome{{st, x.resultVals(st, cc.Signature(), "cb")}}
}

// applyFn is the result of a function value that depends on its arguments only.
func (x *Exec) applyFn(f Val, args []Val, sig *types.Signature) Val {
	c := x.c
	ts := []*Term{x.term(f)}
	ss := []string{"Int"}
	for _, a := range args {
		t := x.term(a)
		ts = append(ts, t)
		ss = append(ss, t.sort)
	}
	rt := sig.Results().At(0).Type()
	n := "apply_" + sanitize(typeKey(sig))
	c.fun(n, ss, c.sortOf(rt))
	return x.tv(c.app(n, c.sortOf(rt), ts...), rt)
}

func (x *Exec) havocAll(st *State) {
	if x.quiet == 0 && !x.modAll {
		x.oblige(st, "frame", "unknown code called", x.c.bool(false), x.curPos)
	}
	x.newEpoch(st)
	x.havocLog(st)
}

func (x *Exec) resultVals(st *State, sig *types.Signature, base string) []Val {
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, x.fresh(st, base, sig.Results().At(i).Type()))
	}
	return vs
}

func (x *Exec) invoke(fr *Frame, cc *ssa.CallCommon, vals []Val, st *State) []Outcome {
	c := x.c
	m := cc.Method
	key := x.w.ifaceKey(cc.Value.Type(), m)
	recvT := cc.Value.Type()
	var dyn types.Type
	var dv Val
	switch v := vals[0].(type) {
	case *IfaceV:
		dyn, dv = v.dyn, v.v
	case *TV:
		tag := c.field("itag", v.t)
		if tag.kind == kInt {
			if dt := x.w.tagTypes[tag.ival.Int64()]; dt != nil {
				dyn = dt
				dv = x.tv(c.unbox(c.field("ival", v.t), c.sortOf(dt)), dt)
			}
		}
		x.must(st, "nil-deref", "method call on a nil interface", c.not(c.eq(tag, c.int(0))), x.curPos)
	}
	if dyn != nil {
		if fn := x.w.methodOf(dyn, m); fn != nil && (len(fn.Blocks) > 0 || x.w.spec.contracts[x.w.keyOf(fn)] != nil) {
			return x.callFn(fr, &FV{fn: fn, typ: fn.Signature}, append([]Val{dv}, vals[1:]...), st, fn.Signature)
		}
	}
	if con := x.w.spec.contracts[key]; con != nil {
		return x.callContract(fr, con, recvT, cc.Signature(), nil, vals, st)
	}
	if outs, ok := x.modelInvoke(fr, key, cc, vals, st); ok {
		return outs
	}
	x.trust("interface method " + key + " without contract: assumed not to touch the module's state, result arbitrary")
	st.advanceNext()
	return []Outcome{{st, x.resultVals(st, cc.Signature(), m.Name())}}
}

func (x *Exec) callFn(fr *Frame, f *FV, args []Val, st *State, sig *types.Signature) []Outcome {
	fn := f.fn
	if len(f.binds) > 0 && fn.Synthetic != "" && strings.Contains(fn.Synthetic, "bound method") {
		// method value
		if o, ok := fn.Object().(*types.Func); ok {
			if recv := o.Type().(*types.Signature).Recv(); recv != nil {
				if m := x.w.prog.FuncValue(o); m != nil {
					return x.callFn(fr, &FV{fn: m, typ: m.Signature}, append([]Val{f.binds[0]}, args...), st, m.Signature)
				}
			}
		}
	}
	key := x.w.keyOf(fn)
	con := x.w.spec.contracts[key]
	x.checkOncall(fr, key, con, fn.Signature, args, st)
	if con != nil && !con.inline && fn.Parent() == nil && !(con.helper && x.noHelpers) {
		var rt types.Type
		if fn.Signature.Recv() != nil {
			rt = fn.Signature.Recv().Type()
		}
		return x.callContract(fr, con, rt, fn.Signature, fn, args, st)
	}
	if x.w.inModule(fn) && len(fn.Blocks) > 0 {
		return x.inline(fr, f, args, st)
	}
	if outs, ok := x.model(fr, key, fn, args, st); ok {
		return outs
	}
	if len(fn.Blocks) > 0 && fn.Pkg == nil {
		// wrappers, instantiations
		return x.inline(fr, f, args, st)
	}
	return x.extern(fr, key, fn, args, st)
}

func (x *Exec) extern(fr *Frame, key string, fn *ssa.Function, args []Val, st *State) []Outcome {
	x.trust("external function " + key + " without contract: assumed not to touch the module's state, result arbitrary")
	for _, a := range args {
		x.escape(st, a)
	}
	st.advanceNext()
	return []Outcome{{st, x.resultVals(st, fn.Signature, fn.Name())}}
}

// escape: an address given to external code; what it points to may be overwritten.
func (x *Exec) escape(st *State, a Val) {
	switch a := a.(type) {
	case *PV:
		if a.pl.kind == pCell || a.pl.kind == pField {
			st.store(a.pl, x.fresh(st, "ext", a.pl.typ))
		}
	case *IfaceV:
		x.escape(st, a.v)
	}
}

// inline runs the body of a function in place of the call.
func (x *Exec) inline(fr *Frame, f *FV, args []Val, st *State) []Outcome {
	fn := f.fn
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	depth := 0
	path := ""
	if fr != nil {
		depth = fr.depth + 1
		path = fr.path
	}
	if depth > maxDepth {
		panic(unsupported("inlining too deep (recursion?): " + fn.String()))
	}
	nf := &Frame{fn: fn, regs: map[ssa.Value]Val{}, depth: depth, live: map[*ssa.Alloc]int{}, params: map[string]Val{}, parent: fr}
	if fr != nil {
		nf.path = path + x.w.keyOf(fr.fn) + ">"
	}
	if len(args) != len(fn.Params) {
		panic(unsupported("argument count of " + fn.String()))
	}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
		nf.params[p.Name()] = args[i]
	}
	for i, fv := range fn.FreeVars {
		nf.regs[fv] = f.binds[i]
	}
	nf.con = x.w.spec.contracts[x.w.keyOf(fn)]
	if nf.con == nil {
		nf.con = x.w.closureContract(fn)
	}
	if nf.con != nil {
		nf.bindSpecNames(nf.con, fn)
	}
	if fn.Parent() != nil && fr != nil {
		// names of the enclosing function stay visible to the invariants
	}
	nf.old = st.clone()
	x.deps["inlined: "+x.w.keyOf(fn)] = true
	sp, sc := x.curPosP, x.curPos
	outs := x.run(nf, fn.Blocks[0], 0, st)
	x.curPosP, x.curPos = sp, sc
	return outs
}

func (fr *Frame) bindSpecNames(con *Contract, fn *ssa.Function) {
	k := 0
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 {
		if con.recv != "" {
			fr.params[con.recv] = fr.regs[fn.Params[0]]
			fr.setAlias(con.recv, fn.Params[0].Name())
		}
		k = 1
	}
	for i, n := range con.params {
		if k+i < len(fn.Params) {
			fr.params[n] = fr.regs[fn.Params[k+i]]
			fr.setAlias(n, fn.Params[k+i].Name())
		}
	}
}

// setAlias: the code may call a parameter by another name than the specification.
func (fr *Frame) setAlias(spec, code string) {
	if spec != code {
		if fr.alias == nil {
			fr.alias = map[string]string{}
		}
		fr.alias[spec] = code
	}
}

// ---------------------------------------------------------------- contracts at calls

func (x *Exec) calleeEnv(con *Contract, recvT types.Type, fn *ssa.Function, sig *types.Signature, args []Val, st, old *State) *Env {
	env := &Env{x: x, st: st, old: old, vars: map[string]Val{}, pkg: x.w.pkgByShort(con.pkg), fn: fn}
	k := 0
	if recvT != nil && con.recv != "" {
		env.vars[con.recv] = args[0]
		k = 1
	} else if recvT != nil && len(args) == len(con.params)+1 {
		k = 1
	}
	if k == 1 {
		env.vars["$recv"] = args[0]
	}
	for i, n := range con.params {
		if k+i < len(args) {
			env.vars[n] = args[k+i]
		}
	}
	return env
}

func (x *Exec) callContract(fr *Frame, con *Contract, recvT types.Type, sig *types.Signature, fn *ssa.Function, args []Val, st *State) []Outcome {
	c := x.c
	pos := x.curPos
	x.deps[con.key] = true
	if fn == nil || !x.w.inModule(fn) {
		x.checkOncall(fr, con.key, con, sig, args, st)
		if con.kind == "extern" {
			x.trust("contract of " + con.key + " (external)")
		}
	}
	pre := st.clone()
	env := x.calleeEnv(con, recvT, fn, sig, args, st, pre)
	if x.cbOwner != nil && fn == nil {
		env.vars["$owner"] = x.cbOwner
	}
	// an interior pointer argument is fine; the receiver must not be nil
	if fn != nil && fn.Signature.Recv() != nil {
		if _, isPtr := under(fn.Signature.Recv().Type()).(*types.Pointer); isPtr {
			if tv, ok := args[0].(*TV); ok {
				x.must(st, "nil-deref", "receiver of "+con.key, c.not(c.eq(tv.t, c.int(0))), pos)
			}
		}
	}
	for _, cl := range con.get("requires") {
		g := x.evalBool(cl.expr, env)
		lab := cl.label
		if lab == "" {
			lab = cl.text
		}
		x.must(st, "requires", "of "+con.key+": "+lab, g, pos)
	}
	for _, cl := range con.get("panics") {
		g := x.evalBool(cl.expr, env)
		x.must(st, "panic", "of "+con.key, c.not(g), pos)
	}
	res := x.applyContract(fr, con, env, sig, fn, args, st, pre)
	return []Outcome{{st, res}}
}

// noteCall remembers the results of a call.
func (x *Exec) noteCall(outs []Outcome, name string) {
	// recorded as Name, Type.Name and pkg.Type.Name
	for name != "" {
		for _, r := range x.recs {
			r.calls[name] = true
		}
		for _, o := range outs {
			o.st.last[name] = &lastCall{o.vals}
			if o.st.counts == nil {
				o.st.counts = map[string]*Term{}
			}
			n := o.st.counts[name]
			if n == nil {
				n = x.c.int(0)
			}
			o.st.counts[name] = x.c.add(n, x.c.int(1))
		}
		if k := strings.LastIndexByte(name, '/'); k >= 0 {
			name = name[k+1:]
			continue
		}
		_, name, _ = strings.Cut(name, ".")
	}
}

// goCall: a started function must find its preconditions fulfilled.
func (x *Exec) goCall(fr *Frame, i *ssa.Go, st *State) {
	fn := i.Call.StaticCallee()
	if fn == nil || i.Call.IsInvoke() {
		return
	}
	con := x.w.spec.contracts[x.w.keyOf(fn)]
	if con == nil || con.inline {
		return
	}
	var args []Val
	for _, a := range i.Call.Args {
		args = append(args, x.val(fr, a))
	}
	x.deps[con.key] = true
	x.checkOncall(fr, con.key, con, fn.Signature, args, st)
	var rt types.Type
	if r := fn.Signature.Recv(); r != nil {
		rt = r.Type()
	}
	env := x.calleeEnv(con, rt, fn, fn.Signature, args, st, st.clone())
	for _, cl := range con.get("requires") {
		lab := cl.label
		if lab == "" {
			lab = cl.text
		}
		x.must(st, "requires", "of go "+con.key+": "+lab, x.evalBool(cl.expr, env), x.curPos)
	}
	x.noteCall([]Outcome{{st, nil}}, x.w.keyOf(fn))
}

// delegates: the function value is the named function or calls it somewhere.
func (x *Exec) delegates(f Val, name *Expr, env *Env) bool {
	var fv *FV
	switch f := f.(type) {
	case *FV:
		fv = f
	case *TV:
		fv, _ = x.fvs[f.t].(*FV)
	}
	if fv == nil {
		return false
	}
	want := exprStr(name)
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] {
			return false
		}
		seen[fn] = true
		k := x.w.keyOf(fn)
		if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic != "" {
			if m := x.w.prog.FuncValue(o); m != nil {
				k = x.w.keyOf(m)
			}
		}
		if k == want || strings.HasSuffix(k, "."+want) {
			return true
		}
		if !x.w.inModule(fn) {
			return false
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(*ssa.Call); ok && rec(call.Call.StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return rec(fv.fn)
}

func (x *Exec) applyContract(fr *Frame, con *Contract, env *Env, sig *types.Signature, fn *ssa.Function, args []Val, st, pre *State) []Val {
	c := x.c
	// effects
	if !con.pure {
		x.applyModifies(con, env, st, pre)
		if con.kind == "extern" {
			for _, a := range args {
				x.escape(st, a)
			}
		}
		st.advanceNext()
	}
	var res []Val
	if con.pure && con.kind == "extern" || con.pure && len(con.get("ensures")) == 0 || con.pure && purelyValues(args) {
		// a function of its arguments
		var ts []*Term
		var ss []string
		for _, a := range args {
			t := x.term(a)
			if t.sort == "Slice" {
				panic(unsupported("pure function over a slice: " + con.key))
			}
			ts = append(ts, t)
			ss = append(ss, t.sort)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			n := "p_" + sanitize(con.key)
			if i > 0 {
				n += fmt.Sprint(".", i)
			}
			so := c.sortOf(rt)
			var r *Term
			if len(ts) == 0 {
				r = c.namedConst(n, so)
			} else {
				c.fun(n, ss, so)
				r = c.app(n, so, ts...)
			}
			for _, f := range c.typeFacts(r, rt, nil) {
				st.assume(f)
			}
			res = append(res, &TV{r, rt})
		}
	} else {
		nm := con.key
		if k := strings.LastIndexByte(nm, '.'); k >= 0 {
			nm = nm[k+1:]
		}
		res = x.resultVals(st, sig, "r_"+nm)
	}
	env2 := *env
	env2.st, env2.old = st, pre
	env2.vars = map[string]Val{}
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	x.bindResults(&env2, con, sig, res)
	env2.callee = map[string]*TV{}
	if !con.pure && (con.kind != "extern" || len(con.get("modifies")) > 0 || len(con.get("event")) > 0) {
		st.drained = nil
	}
	for _, cl := range con.get("event") {
		var as []*Term
		for _, a := range cl.expr.args {
			as = append(as, x.evalTerm(a, &env2))
		}
		st.emit(cl.expr.name, as)
	}
	for _, cl := range con.get("ensures") {
		if con.kind == "func" && con.hasProp(x.prop) && !cl.forProp(x.prop) {
			continue
		}
		x.assumeSpec(st, cl.expr, &env2)
	}
	return res
}

func purelyValues(args []Val) bool { return false }

func (x *Exec) bindResults(env *Env, con *Contract, sig *types.Signature, res []Val) {
	for i, r := range res {
		if i < len(con.results) {
			env.vars[con.results[i]] = r
		}
		env.vars[fmt.Sprintf("result%d", i)] = r
	}
	if len(res) == 1 {
		env.vars["result"] = res[0]
	}
}

func (x *Exec) assumeSpec(st *State, e *Expr, env *Env) {
	if e.kind == "bin" && e.op == "&&" {
		x.assumeSpec(st, e.args[0], env)
		x.assumeSpec(st, e.args[1], env)
		return
	}
	st.assume(x.evalBool(e, env))
}

func (x *Exec) applyModifies(con *Contract, env *Env, st, pre *State) {
	c := x.c
	penv := *env
	penv.st = pre
	penv.old = pre
	for _, cl := range con.get("modifies") {
		if cl.text == "nothing" {
			continue
		}
		if cl.text == "*" {
			x.havocAll(st)
			return
		}
		items := x.resolveMods(cl, &penv)
		for _, m := range items {
			switch {
			case m.item.heap == "$log":
				x.ghostWrite(st, "$log")
				x.havocLog(st)
			case m.place != nil:
				if m.place.kind == pCell || len(m.place.path) > 0 {
					st.store(m.place, x.fresh(st, "mod", m.place.typ))
				} else {
					x.heapWrite(st, m.item.heap, m.item.ref)
					st.setHeap(m.item.heap, c.store(st.heap(m.item.heap), m.item.ref, st.freshContent(m.item.heap)))
				}
			case m.item.ref == nil:
				x.recHeap(m.item.heap, nil)
				if x.quiet == 0 && !x.modAll {
					ok := false
					for _, o := range x.mods {
						if o.heap == m.item.heap && o.ref == nil {
							ok = true
						}
					}
					if !ok {
						x.oblige(st, "frame", m.item.heap, c.bool(false), x.curPos)
					}
				}
				old := st.heap(m.item.heap)
				_ = old
				st.freshHeap(m.item.heap)
			default:
				x.heapWriteR(st, m.item.heap, m.item.ref, m.item.lo, m.item.hi)
				old := c.sel(st.heap(m.item.heap), m.item.ref)
				nc := st.freshContent(m.item.heap)
				if m.item.lo != nil {
					k := c.bound("k", "Int")
					_, vs := arraySorts(old.sort)
					s := c.app("select", vs, nc, k)
					nc.facts = append(nc.facts, c.forall([]*Term{k}, [][]*Term{{s}}, c.implies(c.or(c.lt(k, m.item.lo), c.ge(k, m.item.hi)), c.app("=", "Bool", s, c.app("select", vs, old, k)))))
				}
				st.setHeap(m.item.heap, c.store(st.heap(m.item.heap), m.item.ref, nc))
			}
		}
	}
}

// checkOncall: assertions at call sites.
func (x *Exec) checkOncall(fr *Frame, key string, con *Contract, sig *types.Signature, args []Val, st *State) {
	if x.contract == nil || fr == nil {
		return
	}
	for i, cl := range x.contract.get("oncall") {
		if !cl.forProp(x.prop) {
			continue
		}
		if cl.callee != key && !strings.HasSuffix(key, "."+cl.callee) {
			continue
		}
		if x.quiet == 0 {
			x.oncallHit[fmt.Sprint(i)] = true
		} else {
			continue
		}
		env := x.loopEnv(fr, x.rootFrame(fr), st)
		env.old = x.entry
		// the names of the verified function's own parameters
		for n, v := range x.params {
			if _, ok := env.lookup(n); !ok {
				env.vars[n] = v
			}
		}
		names := []string{}
		k := 0
		if con != nil {
			names = con.params
			if con.recv != "" || len(args) == len(con.params)+1 {
				env.vars["$recv"] = args[0]
				k = 1
			}
		}
		for j := range args {
			env.vars[fmt.Sprintf("$%d", j)] = args[j]
		}
		for j, n := range names {
			if k+j < len(args) {
				env.vars["$"+n] = args[k+j]
			}
		}
		lab := cl.label
		if lab == "" {
			lab = cl.text
		}
		g := x.evalBool(cl.expr, env)
		x.oblige(st, "oncall", cl.callee+": "+lab, g, x.curPos)
	}
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, a []Val, st *State) []Outcome {
	c := x.c
	one := func(t *Term, typ types.Type) []Outcome { return []Outcome{{st, []Val{&TV{t, typ}}}} }
	it := types.Typ[types.Int]
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type()
		if isString(t) {
			return one(c.strlen(x.term(a[0])), it)
		}
		switch u := under(t).(type) {
		case *types.Slice:
			if b.Name() == "len" {
				return one(c.slen(x.term(a[0])), it)
			}
			return one(c.scap(x.term(a[0])), it)
		case *types.Array:
			return one(c.int(u.Len()), it)
		case *types.Pointer:
			return one(c.int(under(u.Elem()).(*types.Array).Len()), it)
		case *types.Map:
			return one(x.mapLen(st, t, x.term(a[0])), it)
		}
		k := x.fresh(st, "chanlen", it)
		st.assume(c.ge(k.t, c.int(0)))
		return []Outcome{{st, []Val{k}}}
	case "append":
		return x.appendB(cc, a, st)
	case "copy":
		return x.copyB(cc, a, st)
	case "delete":
		m, k := x.term(a[0]), x.term(a[1])
		md, _ := x.mapHeaps(cc.Args[0].Type())
		st2 := st.clone()
		st.assume(c.not(c.eq(m, c.int(0))))
		x.heapWrite(st, md, m)
		st.setHeap(md, c.store(st.heap(md), m, c.store(c.sel(st.heap(md), m), k, c.bool(false))))
		st2.assume(c.eq(m, c.int(0)))
		if st2.dead() || m.alloc > 0 {
			return []Outcome{{st, nil}}
		}
		return []Outcome{{st, nil}, {st2, nil}}
	case "clear":
		t := cc.Args[0].Type()
		if sl, ok := under(t).(*types.Slice); ok {
			s := x.term(a[0])
			h := x.elemHeap(sl.Elem())
			old := c.sel(st.heap(h), c.sref(s))
			k := c.constant("cleared", old.sort)
			j := c.bound("j", "Int")
			e := c.app("select", c.sortOf(sl.Elem()), k, j)
			in := c.and(c.le(c.soff(s), j), c.lt(j, c.add(c.soff(s), c.slen(s))))
			k.facts = []*Term{c.forall([]*Term{j}, [][]*Term{{e}}, c.eq(e, c.ite(in, c.zero(sl.Elem()), c.app("select", e.sort, old, j))))}
			st.setElemsR(h, c.sref(s), k, c.soff(s), c.add(c.soff(s), c.slen(s)))
			return []Outcome{{st, nil}}
		}
		m := x.term(a[0])
		md, _ := x.mapHeaps(t)
		ks := c.sortOf(under(t).(*types.Map).Key())
		st.assume(c.not(c.eq(m, c.int(0)))) // clearing a nil map is a no-op on an empty map
		x.heapWrite(st, md, m)
		st.setHeap(md, c.store(st.heap(md), m, c.constArr(arraySort(ks, "Bool"), c.bool(false))))
		return []Outcome{{st, nil}}
	case "real":
		return one(c.field("cre", x.term(a[0])), types.Typ[types.Float64])
	case "imag":
		return one(c.field("cim", x.term(a[0])), types.Typ[types.Float64])
	case "complex":
		return one(c.mk("mkcplx", x.term(a[0]), x.term(a[1])), types.Typ[types.Complex128])
	case "min", "max":
		r := x.term(a[0])
		for _, o := range a[1:] {
			t := x.term(o)
			r, t = c.numeric(r, t)
			if b.Name() == "min" {
				r = c.ite(c.le(r, t), r, t)
			} else {
				r = c.ite(c.ge(r, t), r, t)
			}
		}
		return one(r, cc.Args[0].Type())
	case "print", "println":
		return []Outcome{{st, nil}}
	case "close":
		x.closeChan(st, x.term(a[0]))
		return []Outcome{{st, nil}}
	case "panic":
		x.must(st, "panic", "explicit panic unreachable", c.bool(false), x.curPos)
		return nil
	case "recover":
		return []Outcome{{st, []Val{&TV{c.zero(types.NewInterfaceType(nil, nil)), types.NewInterfaceType(nil, nil)}}}}
	case "ssa:wrapnilchk":
		return []Outcome{{st, []Val{a[0]}}}
	case "ssa:deferstack":
		return one(c.int(0), it)
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) mapLen(st *State, mt types.Type, m *Term) *Term {
	c := x.c
	md, _ := x.mapHeaps(mt)
	dom := c.sel(st.heap(md), m)
	return x.cardOf(dom)
}

func (x *Exec) cardOf(dom *Term) *Term {
	c := x.c
	ks, _ := arraySorts(dom.sort)
	n := "card_" + sanitize(ks)
	if !c.boxes[n] {
		c.boxes[n] = true
		c.fun(n, []string{dom.sort}, "Int")
		d, k := c.bound("d", dom.sort), c.bound("k", ks)
		cd := c.app(n, "Int", d)
		sel := c.app("select", "Bool", d, k)
		empty := c.constArr(dom.sort, c.bool(false))
		c.axiom(n, c.forall([]*Term{d}, [][]*Term{{cd}}, c.and(c.ge(cd, c.int(0)), c.app("=", "Bool", c.eq(cd, c.int(0)), c.eq(d, empty)))))
		c.axiom(n, c.forall([]*Term{d, k}, [][]*Term{{cd, sel}}, c.implies(sel, c.ge(cd, c.int(1)))))
		st1 := c.app("store", dom.sort, d, k, c.bool(true))
		c1 := c.app(n, "Int", st1)
		c.axiom(n, c.forall([]*Term{d, k}, [][]*Term{{c1}}, c.eq(c1, c.ite(sel, cd, c.add(cd, c.int(1))))))
		st0 := c.app("store", dom.sort, d, k, c.bool(false))
		c0 := c.app(n, "Int", st0)
		c.axiom(n, c.forall([]*Term{d, k}, [][]*Term{{c0}}, c.eq(c0, c.ite(sel, c.sub(cd, c.int(1)), cd))))
	}
	if dom.kind == kApp && dom.op == "constarr" && dom.args[0].isFalse() {
		return c.int(0)
	}
	return c.app(n, "Int", dom)
}

func (x *Exec) appendB(cc *ssa.CallCommon, a []Val, st *State) []Outcome {
	c := x.c
	typ := cc.Args[0].Type()
	el := under(typ).(*types.Slice).Elem()
	s := x.term(a[0])
	h := x.elemHeap(el)
	es := c.sortOf(el)
	A := arraySort("Int", es)
	// source
	var m *Term
	var srcAt func(k *Term) *Term
	if isString(cc.Args[1].Type()) {
		t := x.term(a[1])
		m = c.strlen(t)
		srcAt = func(k *Term) *Term { return c.strat(t, k) }
	} else {
		t := x.term(a[1])
		m = c.slen(t)
		src := c.sel(st.heap(h), c.sref(t))
		srcAt = func(k *Term) *Term { return c.sel(src, c.ix(c.soff(t), k)) }
	}
	if m.kind == kInt && m.ival.Sign() == 0 {
		return []Outcome{{st, []Val{&TV{s, typ}}}}
	}
	n := c.slen(s)
	total := c.add(n, m)
	small := m.kind == kInt && m.ival.Cmp(big.NewInt(9)) < 0
	fill := func(base *Term, off *Term, old *Term, st *State) *Term {
		if small {
			r := base
			for j := int64(0); j < m.ival.Int64(); j++ {
				r = c.store(r, c.ix(off, c.add(n, c.int(j))), srcAt(c.int(j)))
			}
			return r
		}
		k := c.constant("app", A)
		j := c.bound("j", "Int")
		e := c.app("select", es, k, c.ix(off, j))
		k.facts = append(k.facts, c.forall([]*Term{j}, [][]*Term{{e}}, c.implies(c.and(c.le(n, j), c.lt(j, total)), c.app("=", "Bool", e, srcAt(c.sub(j, n))))))
		e2 := c.app("select", es, k, j)
		k.facts = append(k.facts, c.forall([]*Term{j}, [][]*Term{{e2}}, c.implies(c.or(c.lt(j, c.add(off, n)), c.ge(j, c.add(off, total))), c.app("=", "Bool", e2, c.app("select", es, base, j)))))
		return k
	}
	var out []Outcome
	fits := c.le(total, c.scap(s))
	if !fits.isFalse() && !st.facts[c.not(fits)] {
		s1 := st.clone()
		s1.assume(fits)
		if !s1.dead() {
			old := c.sel(s1.heap(h), c.sref(s))
			nv := fill(old, c.soff(s), old, s1)
			s1.setElemsR(h, c.sref(s), nv, c.add(c.soff(s), n), c.add(c.soff(s), total))
			out = append(out, Outcome{s1, []Val{&TV{c.mk("mkslice", c.sref(s), c.soff(s), total, c.scap(s)), typ}}})
		}
	}
	if !fits.isTrue() && !st.facts[fits] {
		st.assume(c.not(fits))
		if !st.dead() {
			old := c.sel(st.heap(h), c.sref(s))
			r := st.alloc()
			var base *Term
			if n.kind == kInt && n.ival.Sign() == 0 {
				base = c.constArr(A, c.zero(el))
			} else {
				base = c.constant("grown", A)
				j := c.bound("j", "Int")
				e := c.app("select", es, base, j)
				f := c.app("select", es, old, c.ix(c.soff(s), j))
				pats := [][]*Term{{e}}
				if x.contract != nil && x.contract.reveal["append"] {
					pats = append(pats, []*Term{f}) // what was in the slice before is in it
				}
				base.facts = append(base.facts, c.forall([]*Term{j}, pats, c.implies(c.and(c.le(c.int(0), j), c.lt(j, n)), c.app("=", "Bool", e, f))))
			}
			nv := fill(base, c.int(0), old, st)
			st.setElemsR(h, r, nv, nil, nil)
			k := c.constant("cap", "Int")
			k.facts = []*Term{c.ge(k, total)}
			out = append(out, Outcome{st, []Val{&TV{c.mk("mkslice", r, c.int(0), total, k), typ}}})
		}
	}
	return out
}

func (x *Exec) copyB(cc *ssa.CallCommon, a []Val, st *State) []Outcome {
	c := x.c
	d := x.term(a[0])
	el := under(cc.Args[0].Type()).(*types.Slice).Elem()
	h := x.elemHeap(el)
	es := c.sortOf(el)
	var m *Term
	var srcAt func(k *Term) *Term
	if isString(cc.Args[1].Type()) {
		t := x.term(a[1])
		m = c.strlen(t)
		srcAt = func(k *Term) *Term { return c.strat(t, k) }
	} else {
		t := x.term(a[1])
		m = c.slen(t)
		src := c.sel(st.heap(h), c.sref(t))
		srcAt = func(k *Term) *Term { return c.sel(src, c.ix(c.soff(t), k)) }
	}
	n := c.ite(c.le(c.slen(d), m), c.slen(d), m)
	nn := c.constant("ncopy", "Int")
	nn.facts = []*Term{c.app("=", "Bool", nn, n)}
	old := c.sel(st.heap(h), c.sref(d))
	k := c.constant("copied", old.sort)
	j := c.bound("j", "Int")
	e := c.app("select", es, k, c.ix(c.soff(d), j))
	k.facts = append(k.facts, c.forall([]*Term{j}, [][]*Term{{e}}, c.implies(c.and(c.le(c.int(0), j), c.lt(j, nn)), c.app("=", "Bool", e, srcAt(j)))))
	if off := c.soff(d); off.op == "ix" && !isString(cc.Args[1].Type()) {
		// the same in the coordinates of the slice that the destination is a part of
		ts := c.soff(x.term(a[1]))
		from := c.sub(j, off.args[1])
		if ts.op == "ix" {
			from = c.ix(ts.args[0], c.add(c.sub(j, off.args[1]), ts.args[1]))
		} else {
			from = c.ix(ts, from)
		}
		e3 := c.app("select", es, k, c.ix(off.args[0], j))
		k.facts = append(k.facts, c.forall([]*Term{j}, [][]*Term{{e3}}, c.implies(c.and(c.le(off.args[1], j), c.lt(j, c.add(off.args[1], nn))), c.app("=", "Bool", e3, c.sel(c.sel(st.heap(h), c.sref(x.term(a[1]))), from)))))
	}
	e2 := c.app("select", es, k, j)
	k.facts = append(k.facts, c.forall([]*Term{j}, [][]*Term{{e2}}, c.implies(c.or(c.lt(j, c.soff(d)), c.ge(j, c.add(c.soff(d), nn))), c.app("=", "Bool", e2, c.app("select", es, old, j)))))
	st.setElemsR(h, c.sref(d), k, c.soff(d), c.add(c.soff(d), nn))
	return []Outcome{{st, []Val{&TV{nn, types.Typ[types.Int]}}}}
}
