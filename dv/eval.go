package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env is the context in which a specification expression is evaluated.
type Env struct {
	x         *Exec
	st        *State
	old       *State
	vars      map[string]Val
	lookup    func(string) (Val, bool)
	lookupAt  func(*State, string) (Val, bool)
	oldLookup func(string) (Val, bool)
	pkg       *types.Package
	fn        *ssa.Function
	visited   func() *TV
	depth     int
	inOld     bool
	callee    map[string]*TV // the results of the calls in a callee, as far as its contract speaks about them
}

// SeqV is a snapshot of the content of a slice.
type SeqV struct {
	arr, off, n *Term
	el          types.Type
}

var tInt = types.Typ[types.Int]
var tReal = types.Typ[types.Float64]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func bad(e *Expr, f string, a ...interface{}) {
	panic(unsupported("spec: " + fmt.Sprintf(f, a...) + " in " + exprStr(e)))
}

func exprStr(e *Expr) string {
	if e == nil {
		return ""
	}
	if e.text != "" {
		return e.text
	}
	switch e.kind {
	case "name", "lit_int", "lit_real", "lit_bool":
		return e.name
	case "lit_str":
		return fmt.Sprintf("%q", e.name)
	case "nil":
		return "nil"
	case "field":
		return exprStr(e.args[0]) + "." + e.name
	}
	var as []string
	for _, a := range e.args {
		as = append(as, exprStr(a))
	}
	return e.kind + " " + e.op + e.name + "(" + strings.Join(as, ", ") + ")"
}

func (x *Exec) evalBool(e *Expr, env *Env) *Term {
	t := x.evalTerm(e, env)
	if t.sort != "Bool" {
		bad(e, "not a condition (%s)", t.sort)
	}
	return t
}

func (x *Exec) evalTerm(e *Expr, env *Env) *Term {
	v := x.eval(e, env)
	return x.term(v)
}

func (env *Env) with(name string, v Val) *Env {
	n := *env
	n.vars = map[string]Val{}
	for k, o := range env.vars {
		n.vars[k] = o
	}
	n.vars[name] = v
	return &n
}

func (x *Exec) evalInt(e *Expr, env *Env) *Term {
	t := x.evalTerm(e, env)
	if t.sort != "Int" {
		bad(e, "not an integer (%s)", t.sort)
	}
	return t
}

func (x *Exec) name(env *Env, n string) (Val, bool) {
	if v, ok := env.vars[n]; ok {
		return v, true
	}
	if env.inOld && env.oldLookup != nil {
		if v, ok := env.oldLookup(n); ok {
			return v, true
		}
	}
	if env.lookup != nil && !env.inOld {
		if v, ok := env.lookup(n); ok {
			return v, true
		}
	}
	c := x.c
	switch n {
	case "nlog":
		return &TV{env.st.heap("$nlog"), tInt}, true
	}
	if env.pkg != nil {
		if o := env.pkg.Scope().Lookup(n); o != nil {
			return x.pkgObj(env, o)
		}
	}
	if v, ok := x.wildVars[n]; ok {
		return v, true
	}
	_ = c
	return nil, false
}

func (x *Exec) pkgObj(env *Env, o types.Object) (Val, bool) {
	switch o := o.(type) {
	case *types.Const:
		t := o.Type()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			switch {
			case b.Info()&types.IsInteger != 0:
				t = tInt
			case b.Info()&types.IsFloat != 0:
				t = tReal
			case b.Info()&types.IsString != 0:
				t = tString
			}
		}
		return &TV{x.constTerm(o.Val(), t), t}, true
	case *types.Var:
		sp := x.w.prog.Package(o.Pkg())
		if sp != nil {
			if g, ok := sp.Members[o.Name()].(*ssa.Global); ok {
				if v := x.globalValue(g, env.st); v != nil {
					return v, true
				}
				pv := x.globalAddr(g)
				return env.st.load(x.place(env.st, pv, o.Type(), "")), true
			}
		}
	}
	return nil, false
}

func (x *Exec) eval(e *Expr, env *Env) Val {
	c := x.c
	switch e.kind {
	case "lit_int":
		n, _ := new(big.Int).SetString(e.name, 10)
		return &TV{c.bigint(n), tInt}
	case "lit_real":
		r, _ := new(big.Rat).SetString(e.name)
		return &TV{c.real(r), tReal}
	case "lit_str":
		return &TV{c.str(e.name), tString}
	case "lit_bool":
		return &TV{c.bool(e.name == "true"), tBool}
	case "nil":
		return &TV{c.int(0), types.Typ[types.UntypedNil]}
	case "name":
		if v, ok := x.name(env, e.name); ok {
			return v
		}
		bad(e, "unknown name %s", e.name)
	case "field":
		return x.evalField(e, env)
	case "index":
		return x.evalIndex(e, env)
	case "all":
		return x.seqOf(x.eval(e.args[0], env), env, e)
	case "slice":
		b := x.eval(e.args[0], env)
		lo := c.int(0)
		if e.args[1] != nil {
			lo = x.evalInt(e.args[1], env)
		}
		if tv, ok := b.(*TV); ok && tv.t.sort == "String" {
			hi := c.strlen(tv.t)
			if e.args[2] != nil {
				hi = x.evalInt(e.args[2], env)
			}
			return &TV{c.substr(tv.t, lo, hi), tString}
		}
		if tv, ok := b.(*TV); ok && tv.t.sort == "Slice" {
			hi := c.slen(tv.t)
			if e.args[2] != nil {
				hi = x.evalInt(e.args[2], env)
			}
			return &TV{c.mk("mkslice", c.sref(tv.t), c.offAdd(c.soff(tv.t), lo), c.sub(hi, lo), c.sub(c.scap(tv.t), lo)), tv.typ}
		}
		s := x.seqOf(b, env, e)
		hi := s.n
		if e.args[2] != nil {
			hi = x.evalInt(e.args[2], env)
		}
		return &SeqV{s.arr, c.offAdd(s.off, lo), c.sub(hi, lo), s.el}
	case "call":
		return x.evalCall(e, env)
	case "event":
		var as []*Term
		for _, a := range e.args {
			as = append(as, x.evalTerm(a, env))
		}
		return &TV{x.event(e.name, as), nil}
	case "un":
		switch e.op {
		case "!":
			return &TV{c.not(x.evalBool(e.args[0], env)), tBool}
		case "-":
			v := x.eval(e.args[0], env).(*TV)
			return &TV{c.neg(v.t), v.typ}
		case "*":
			v := x.eval(e.args[0], env)
			el := ptrElem(x.typOf(v))
			if el == nil {
				bad(e, "not a pointer")
			}
			return env.st.load(x.specPlace(v, el))
		case "&":
			p := x.specAddr(e.args[0], env)
			return x.addrVal(p)
		}
	case "ite":
		cd := x.evalBool(e.args[0], env)
		a, b := x.eval(e.args[1], env), x.eval(e.args[2], env)
		at, bt := x.term(a), x.term(b)
		if at.sort != bt.sort {
			at, bt = c.numeric(at, bt)
		}
		typ := x.typOf(a)
		if at.sort == "Real" {
			typ = tReal
		}
		return &TV{c.ite(cd, at, bt), typ}
	case "let":
		v := x.eval(e.args[0], env)
		return x.eval(e.args[1], env.with(e.name, v))
	case "quant":
		return x.evalQuant(e, env)
	case "bin":
		return x.evalBin(e, env)
	}
	bad(e, "cannot evaluate %s", e.kind)
	return nil
}

func (x *Exec) specPlace(v Val, elem types.Type) *Place {
	switch v := v.(type) {
	case *PV:
		return v.pl
	case *TV:
		if o, ok := x.fvs[v.t]; ok {
			if pv, ok := o.(*PV); ok {
				return pv.pl
			}
		}
		return x.derefPlace(v.t, elem)
	}
	panic(unsupported("spec: not a pointer"))
}

// specAddr: the place an expression denotes.
func (x *Exec) specAddr(e *Expr, env *Env) *Place {
	c := x.c
	switch e.kind {
	case "field":
		// through a pointer
		base := x.evalBase(e.args[0], env)
		if base == nil {
			bad(e, "no address")
		}
		return x.fieldStep(e, base, e.name)
	case "un":
		if e.op == "*" {
			v := x.eval(e.args[0], env)
			return x.specPlace(v, ptrElem(x.typOf(v)))
		}
	case "index":
		v := x.eval(e.args[0], env)
		if tv, ok := v.(*TV); ok && tv.t.sort == "Slice" {
			el := under(tv.typ).(*types.Slice).Elem()
			i := x.evalInt(e.args[1], env)
			return &Place{kind: pElem, heap: x.elemHeap(el), ref: c.sref(tv.t), idx: c.ix(c.soff(tv.t), i), root: el, typ: el}
		}
	}
	bad(e, "no address")
	return nil
}

// evalBase gives the place of the struct that an expression denotes (directly or through a pointer).
func (x *Exec) evalBase(e *Expr, env *Env) *Place {
	v := x.eval(e, env)
	if el := ptrElem2(x.typOf(v)); el != nil {
		return x.specPlace(v, el)
	}
	switch e.kind {
	case "field", "index":
		return x.specAddr(e, env)
	}
	return nil
}

func ptrElem2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return ptrElem(t)
}

// fieldStep finds a field (through embedded structs).
func (x *Exec) fieldStep(e *Expr, p *Place, name string) *Place {
	i, emb := findField(p.typ, name)
	if i < 0 {
		bad(e, "no field %s in %s", name, typeKey(p.typ))
	}
	if emb == "" {
		return x.fieldPlace(p, p.typ, i)
	}
	bad(e, "embedded field %s", name)
	return nil
}

func findField(t types.Type, name string) (int, string) {
	s := structOf(t)
	if s == nil {
		return -1, ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, ""
		}
	}
	return -1, ""
}

func (x *Exec) evalField(e *Expr, env *Env) Val {
	c := x.c
	// package qualified
	if b := e.args[0]; b.kind == "name" {
		if _, ok := x.name(env, b.name); !ok {
			if p := x.w.importOf(env.pkg, b.name); p != nil {
				if o := p.Scope().Lookup(e.name); o != nil {
					if v, ok := x.pkgObj(env, o); ok {
						return v
					}
				}
			}
		}
	}
	v := x.eval(e.args[0], env)
	switch vv := v.(type) {
	case *PV:
		return env.st.load(x.fieldOf(e, vv.pl, e.name, env))
	case *TV:
		if vv.typ == nil {
			bad(e, "field of an untyped value")
		}
		if el := ptrElem(vv.typ); el != nil {
			return env.st.load(x.fieldOf(e, x.specPlace(vv, el), e.name, env))
		}
		if s := structOf(vv.typ); s != nil {
			i, _ := findField(vv.typ, e.name)
			if i >= 0 {
				return x.tv(c.field(fieldSel(vv.typ, i), vv.t), s.Field(i).Type())
			}
			for k := 0; k < s.NumFields(); k++ {
				if f := s.Field(k); f.Embedded() {
					ft := f.Type()
					if j, _ := findField(ft, e.name); j >= 0 {
						return x.tv(c.field(fieldSel(ft, j), c.field(fieldSel(vv.typ, k), vv.t)), structOf(ft).Field(j).Type())
					}
				}
			}
		}
		bad(e, "no field %s in %s", e.name, typeKey(vv.typ))
	}
	bad(e, "field %s", e.name)
	return nil
}

func (x *Exec) fieldOf(e *Expr, p *Place, name string, env *Env) *Place {
	s := structOf(p.typ)
	if s == nil {
		bad(e, "%s is not a struct", typeKey(p.typ))
	}
	if i, _ := findField(p.typ, name); i >= 0 {
		return x.fieldPlace(p, p.typ, i)
	}
	for k := 0; k < s.NumFields(); k++ {
		if f := s.Field(k); f.Embedded() {
			if el := ptrElem(f.Type()); el != nil {
				if j, _ := findField(el, name); j >= 0 {
					ref := env.st.load(x.fieldPlace(p, p.typ, k))
					return x.fieldPlace(x.specPlace(ref, el), el, j)
				}
			} else if j, _ := findField(f.Type(), name); j >= 0 {
				return x.fieldPlace(x.fieldPlace(p, p.typ, k), f.Type(), j)
			}
		}
	}
	bad(e, "no field %s in %s", name, typeKey(p.typ))
	return nil
}

func (x *Exec) seqOf(v Val, env *Env, e *Expr) *SeqV {
	c := x.c
	v = x.derefArr(v, env)
	switch v := v.(type) {
	case *SeqV:
		return v
	case *TV:
		if v.t.sort == "Slice" {
			el := under(v.typ).(*types.Slice).Elem()
			return &SeqV{c.sel(env.st.heap(x.elemHeap(el)), c.sref(v.t)), c.soff(v.t), c.slen(v.t), el}
		}
		if v.typ != nil {
			if a, ok := under(v.typ).(*types.Array); ok {
				return &SeqV{v.t, c.int(0), c.int(a.Len()), a.Elem()}
			}
		}
	}
	bad(e, "not a slice")
	return nil
}

// derefArr: an array behind a pointer
func (x *Exec) derefArr(v Val, env *Env) Val {
	t := x.typOf(v)
	if t == nil {
		return v
	}
	if el := ptrElem(t); el != nil {
		if _, ok := under(el).(*types.Array); ok {
			return env.st.load(x.specPlace(v, el))
		}
	}
	return v
}

func (x *Exec) evalIndex(e *Expr, env *Env) Val {
	c := x.c
	if e.args[0].kind == "name" && e.args[0].name == "log" {
		i := x.evalInt(e.args[1], env)
		return &TV{c.sel(env.st.heap("$log"), i), nil}
	}
	v := x.derefArr(x.eval(e.args[0], env), env)
	switch v := v.(type) {
	case *SeqV:
		i := x.evalInt(e.args[1], env)
		return x.tv(c.sel(v.arr, c.ix(v.off, i)), v.el)
	case *TV:
		if v.t.sort == "String" {
			return &TV{c.strat(v.t, x.evalInt(e.args[1], env)), types.Typ[types.Byte]}
		}
		if v.t.sort == "Slice" {
			s := x.seqOf(v, env, e)
			i := x.evalInt(e.args[1], env)
			return x.tv(c.sel(s.arr, c.ix(s.off, i)), s.el)
		}
		if v.typ != nil {
			switch u := under(v.typ).(type) {
			case *types.Array:
				return x.tv(c.sel(v.t, x.evalInt(e.args[1], env)), u.Elem())
			case *types.Map:
				k := x.coerce(x.evalTerm(e.args[1], env), c.sortOf(u.Key()), e)
				return x.tv(x.mapGet(env.st, v.typ, v.t, k), u.Elem())
			}
		}
		if strings.HasPrefix(v.t.sort, "(Array") {
			return &TV{c.sel(v.t, x.evalTerm(e.args[1], env)), nil}
		}
	}
	bad(e, "index")
	return nil
}

func (x *Exec) coerce(t *Term, sort string, e *Expr) *Term {
	if t.sort == sort {
		return t
	}
	if sort == "Real" && t.sort == "Int" {
		return x.c.toReal(t)
	}
	bad(e, "sort %s, want %s", t.sort, sort)
	return nil
}

func (x *Exec) evalBin(e *Expr, env *Env) Val {
	c := x.c
	switch e.op {
	case "&&":
		a := x.evalBool(e.args[0], env)
		if a.isFalse() {
			return &TV{a, tBool}
		}
		return &TV{c.and(a, x.evalBool(e.args[1], env)), tBool}
	case "||":
		return &TV{c.or(x.evalBool(e.args[0], env), x.evalBool(e.args[1], env)), tBool}
	case "==>":
		a := x.evalBool(e.args[0], env)
		if a.isFalse() {
			return &TV{c.bool(true), tBool}
		}
		return &TV{c.implies(a, x.evalBool(e.args[1], env)), tBool}
	case "<==>":
		return &TV{c.eq(x.evalBool(e.args[0], env), x.evalBool(e.args[1], env)), tBool}
	case "in":
		k := x.eval(e.args[0], env)
		m := x.eval(e.args[1], env)
		if tv, ok := m.(*TV); ok && tv.typ != nil {
			if mt, ok := under(tv.typ).(*types.Map); ok {
				return &TV{x.mapHas(env.st, tv.typ, tv.t, x.coerce(x.term(k), c.sortOf(mt.Key()), e)), tBool}
			}
		}
		s := x.seqOf(m, env, e)
		i := c.bound("i", "Int")
		el := c.sel(s.arr, c.ix(s.off, i))
		return &TV{c.exists([]*Term{i}, nil, c.and(c.le(c.int(0), i), c.lt(i, s.n), c.eq(el, x.term(k)))), tBool}
	case "==", "!=":
		r := x.evalEq(e, env)
		if e.op == "!=" {
			r = c.not(r)
		}
		return &TV{r, tBool}
	}
	av, bv := x.eval(e.args[0], env), x.eval(e.args[1], env)
	a, b := x.term(av), x.term(bv)
	if a.sort == "Cplx" || b.sort == "Cplx" {
		ops := map[string]int{"+": 12, "-": 13, "*": 14, "/": 15}
		_ = ops
		switch e.op {
		case "+":
			return &TV{c.mk("mkcplx", c.add(c.field("cre", a), c.field("cre", b)), c.add(c.field("cim", a), c.field("cim", b))), x.typOf(av)}
		}
		bad(e, "complex arithmetic")
	}
	typ := x.typOf(av)
	if a.sort == "Real" || b.sort == "Real" {
		typ = tReal
	}
	switch e.op {
	case "<", "<=", ">", ">=":
		return &TV{c.cmp(e.op, a, b), tBool}
	case "+":
		if a.sort == "String" {
			return &TV{c.concat(a, b), tString}
		}
		return &TV{c.add(a, b), typ}
	case "-":
		return &TV{c.sub(a, b), typ}
	case "*":
		return &TV{c.mul(a, b), typ}
	case "/":
		if a.sort == "Int" && b.sort == "Int" {
			return &TV{c.idiv(a, b), typ}
		}
		return &TV{c.rdiv(a, b), typ}
	case "%":
		return &TV{c.imod(a, b), typ}
	}
	bad(e, "operator %s", e.op)
	return nil
}

func (x *Exec) evalEq(e *Expr, env *Env) *Term {
	c := x.c
	l, r := e.args[0], e.args[1]
	if l.kind == "nil" {
		l, r = r, l
	}
	lv := x.eval(l, env)
	if r.kind == "nil" {
		return x.isNilVal(lv, x.typOf(lv))
	}
	rv := x.eval(r, env)
	ls, lok := lv.(*SeqV)
	rs, rok := rv.(*SeqV)
	if lok || rok {
		if !lok {
			ls = x.seqOf(lv, env, e)
		}
		if !rok {
			rs = x.seqOf(rv, env, e)
		}
		i := c.bound("i", "Int")
		a, b := c.sel(ls.arr, c.ix(ls.off, i)), c.sel(rs.arr, c.ix(rs.off, i))
		return c.and(c.eq(ls.n, rs.n), c.forall([]*Term{i}, patsFor([]*Term{i}, c.eq(a, b)), c.implies(c.and(c.le(c.int(0), i), c.lt(i, ls.n)), c.eq(a, b))))
	}
	lt, rt := x.typOf(lv), x.typOf(rv)
	if lt != nil && rt != nil && isIface(lt) != isIface(rt) && under(lt) != types.Typ[types.UntypedNil] {
		return x.equal(env.st, lv, rv, lt, rt)
	}
	a, b := x.term(lv), x.term(rv)
	if a.sort != b.sort {
		if a.sort == "Real" || b.sort == "Real" {
			return c.eq(a, b)
		}
		bad(e, "comparing %s with %s", a.sort, b.sort)
	}
	if lt != nil && rt != nil {
		if _, ok := under(lt).(*types.Array); ok && types.Identical(lt, rt) {
			return x.equal(env.st, lv, rv, lt, rt)
		}
	}
	return c.eq(a, b)
}

func patsFor(vars []*Term, body *Term) [][]*Term {
	if p := patsIn(vars, body, false); p != nil {
		return p
	}
	return patsIn(vars, body, true)
}

// patsIn looks for triggers, if nested also within the quantifiers of the body.
func patsIn(vars []*Term, body *Term, nested bool) [][]*Term {
	// candidate trigger terms
	in := map[*Term]bool{}
	for _, v := range vars {
		in[v] = true
	}
	varsIn := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if in[t] {
				m[t] = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return m
	}
	simpleArg := func(a *Term) bool {
		if in[a] {
			return true
		}
		return a.kind == kApp && a.op == "ix" && in[a.args[1]] && len(varsIn(a.args[0])) == 0
	}
	var good func(t *Term, top bool) bool
	good = func(t *Term, top bool) bool {
		// no interpreted symbols over the bound variables
		if len(varsIn(t)) == 0 {
			return true
		}
		if in[t] {
			return true
		}
		if simpleArg(t) {
			return true
		}
		if t.kind != kApp {
			return false
		}
		switch t.op {
		case "select":
		case "+", "-", "*", "/", "div", "mod", "<=", "=", "and", "or", "not", "=>", "ite", "to_real", "to_int", "store":
			return false
		}
		for _, a := range t.args {
			if !good(a, false) {
				return false
			}
		}
		return true
	}
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == kQuant {
			// do not use terms with variables bound inside
			if !nested {
				return
			}
		}
		if t.kind == kApp && t.hasBound && len(varsIn(t)) > 0 && !hasFreeBoundExcept(t, in) {
			switch t.op {
			case "select", "str.at":
				if good(t, true) {
					cands = append(cands, t)
				}
			case "and", "or", "not", "=>", "=", "<=", "+", "-", "*", "/", "ite", "ix", "store", "to_real", "to_int", "div", "mod", "str.len", "str.to_code", "str.++", "str.substr", "str.<", "str.<=", "str.prefixof", "str.contains":
			default:
				if good(t, true) && len(t.args) > 0 && !strings.HasPrefix(t.op, "s") {
					cands = append(cands, t)
				} else if good(t, true) && len(t.args) > 0 && (t.op != "sref" && t.op != "soff" && t.op != "slen" && t.op != "scap") {
					cands = append(cands, t)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var pats [][]*Term
	// single terms covering everything
	for _, t := range cands {
		if len(varsIn(t)) == len(vars) {
			// skip if it strictly contains another full candidate
			inner := false
			for _, o := range cands {
				if o != t && len(varsIn(o)) == len(vars) && contains(t, o) {
					inner = true
				}
			}
			if !inner {
				pats = append(pats, []*Term{t})
			}
		}
	}
	if len(pats) > 0 {
		if len(pats) > 6 {
			pats = pats[:6]
		}
		return pats
	}
	if len(vars) > 1 {
		var mp []*Term
		cov := map[*Term]bool{}
		for _, v := range vars {
			if cov[v] {
				continue
			}
			for _, t := range cands {
				vs := varsIn(t)
				if vs[v] {
					small := true
					for _, o := range cands {
						if o != t && contains(t, o) && varsIn(o)[v] {
							small = false
						}
					}
					if small {
						mp = append(mp, t)
						for k := range vs {
							cov[k] = true
						}
						break
					}
				}
			}
		}
		if len(cov) == len(vars) {
			return [][]*Term{mp}
		}
	}
	return nil
}

func contains(t, o *Term) bool {
	if t == o {
		return true
	}
	for _, a := range t.args {
		if contains(a, o) {
			return true
		}
	}
	return false
}

func hasFreeBoundExcept(t *Term, in map[*Term]bool) bool {
	return hasFreeBound(t, in)
}

func (x *Exec) specType(name string, env *Env) types.Type {
	t := x.w.typeByName(name, env.pkg, env.fn)
	if t == nil {
		panic(unsupported("spec: unknown type " + name))
	}
	return t
}

func (x *Exec) evalQuant(e *Expr, env *Env) Val {
	c := x.c
	n := *env
	n.vars = map[string]Val{}
	for k, o := range env.vars {
		n.vars[k] = o
	}
	var vars []*Term
	var guards []*Term
	for _, v := range e.vars {
		t := x.specType(v.typ, env)
		b := c.bound(v.name, c.sortOf(t))
		vars = append(vars, b)
		n.vars[v.name] = &TV{b, t}
		switch under(t).(type) {
		case *types.Pointer:
			guards = append(guards, c.le(c.int(1), b), c.lt(b, env.st.next))
		case *types.Basic:
			if lo, hi, ok := intRange(t); ok {
				guards = append(guards, c.le(c.bigint(lo), b), c.le(b, c.bigint(hi)))
			}
		}
	}
	body := x.evalBool(e.args[0], &n)
	var pats [][]*Term
	for _, t := range e.trig {
		var p []*Term
		for _, a := range t.args {
			p = append(p, x.evalTerm(a, &n))
		}
		pats = append(pats, p)
	}
	if len(pats) == 0 {
		pats = patsFor(vars, body)
	}
	if len(guards) > 0 {
		if e.op == "forall" {
			body = c.implies(c.and(guards...), body)
		} else {
			body = c.and(append(guards, body)...)
		}
	}
	if e.op == "forall" {
		return &TV{c.forall(vars, pats, body), tBool}
	}
	return &TV{c.exists(vars, pats, body), tBool}
}

func (x *Exec) evalCall(e *Expr, env *Env) Val {
	c := x.c
	arg := func(i int) *Term {
		if i >= len(e.args) {
			bad(e, "too few arguments")
		}
		return x.evalTerm(e.args[i], env)
	}
	real := func(i int) *Term { return c.toReal(arg(i)) }
	switch e.name {
	case "old":
		n := *env
		n.st = env.old
		n.inOld = true
		return x.eval(e.args[0], &n)
	case "before":
		// the value at the start of the current iteration of the outermost loop
		if env.st.iter == nil {
			bad(e, "before outside of a loop")
		}
		n := *env
		n.st = env.st.iter
		if env.lookupAt != nil {
			n.lookup = func(name string) (Val, bool) {
				if v, ok := env.lookupAt(env.st.iter, name); ok {
					return v, true
				}
				return env.lookup(name) // a variable of the iteration
			}
		}
		return x.eval(e.args[0], &n)
	case "nsent":
		return &TV{c.sel(env.st.heap("$nsent"), arg(0)), tInt}
	case "sent":
		v := x.eval(e.args[0], env)
		et := chanElem(x.typOf(v))
		return &TV{c.sel(c.sel(env.st.heap(x.sentHeap(et)), x.term(v)), arg(1)), et}
	case "written":
		return &TV{c.sel(env.st.heap("$written"), arg(0)), tString}
	case "len":
		v := x.eval(e.args[0], env)
		switch v := v.(type) {
		case *SeqV:
			return &TV{v.n, tInt}
		case *TV:
			switch v.t.sort {
			case "Slice":
				return &TV{c.slen(v.t), tInt}
			case "String":
				return &TV{c.strlen(v.t), tInt}
			}
			if v.typ != nil {
				switch u := under(v.typ).(type) {
				case *types.Array:
					return &TV{c.int(u.Len()), tInt}
				case *types.Map:
					return &TV{x.mapLen(env.st, v.typ, v.t), tInt}
				}
			}
		}
		bad(e, "len")
	case "$called":
		if env.callee != nil {
			n := "called " + exprStr(e.args[0])
			if env.callee[n] == nil {
				env.callee[n] = x.term2(x.fresh(env.st, "called", tBool), tBool)
			}
			return env.callee[n]
		}
		l, ok := env.st.last[exprStr(e.args[0])]
		if ok && l == nil {
			return x.fresh(env.st, "called", tBool)
		}
		return &TV{c.bool(ok), tBool}
	case "$calls":
		if env.callee != nil {
			n := "calls " + exprStr(e.args[0])
			if env.callee[n] == nil {
				t := x.c.constant("calls", "Int")
				t.facts = append(t.facts, c.ge(t, c.int(0)))
				env.callee[n] = &TV{t, tInt}
			}
			return env.callee[n]
		}
		if n := env.st.counts[exprStr(e.args[0])]; n != nil {
			return &TV{n, tInt}
		}
		return &TV{c.int(0), tInt}
	case "$result":
		i := 0
		if len(e.args) > 1 {
			i = int(x.term(x.eval(e.args[1], env)).ival.Int64())
		}
		if env.callee != nil {
			n := fmt.Sprint("result ", i, " ", exprStr(e.args[0]))
			if env.callee[n] == nil {
				t := x.w.resultType(exprStr(e.args[0]), i)
				if t == nil {
					bad(e, "no such function")
				}
				env.callee[n] = x.term2(x.fresh(env.st, "result", t), t)
			}
			return env.callee[n]
		}
		l := env.st.last[exprStr(e.args[0])]
		if l != nil && i < len(l.res) {
			return l.res[i]
		}
		// not called on this path: an arbitrary value of its type
		t := x.w.resultType(exprStr(e.args[0]), i)
		if t == nil {
			bad(e, "no such function")
		}
		if _, havocked := env.st.last[exprStr(e.args[0])]; havocked {
			// the last result before this iteration
			n := fmt.Sprint(exprStr(e.args[0]), "#", i)
			if v := env.st.guess[n]; v != nil {
				return v
			}
			v := x.fresh(env.st, "noresult", t)
			if env.st.guess == nil {
				env.st.guess = map[string]Val{}
			}
			env.st.guess[n] = v
			return v
		}
		return x.fresh(env.st, "noresult", t)
	case "cap":
		v := x.eval(e.args[0], env)
		if t := x.typOf(v); t != nil {
			if _, ok := under(t).(*types.Chan); ok {
				c.fun("chancap", []string{"Int"}, "Int")
				return &TV{c.app("chancap", "Int", x.term(v)), tInt}
			}
		}
		return &TV{c.scap(arg(0)), tInt}
	case "delegates":
		// the function value calls the named method or function (of the given receiver)
		return &TV{c.bool(x.delegates(x.eval(e.args[0], env), e.args[1], env)), tBool}
	case "closed":
		return &TV{x.isClosed(env.st, arg(0)), tBool}
	case "drained":
		var or []*Term
		for _, d := range env.st.drained {
			or = append(or, c.eq(d, arg(0)))
		}
		return &TV{c.or(or...), tBool}
	case "cansend":
		return &TV{x.canSend(env.st, arg(0)), tBool}
	case "awaited":
		return &TV{c.sel(env.st.heap("$awaited"), arg(0)), tBool}
	case "nreceived":
		return &TV{c.sel(env.st.heap("$nrecv"), arg(0)), tInt}
	case "received":
		v := x.eval(e.args[0], env)
		et := chanElem(x.typOf(v))
		h, _ := x.recvHeap(et)
		return &TV{c.sel(c.sel(env.st.heap(h), x.term(v)), arg(1)), et}
	case "fresh":
		t := arg(0)
		if t.sort == "Slice" {
			t = c.sref(t)
		}
		if t.sort == "Iface" {
			t = c.field("ival", t)
		}
		return &TV{c.and(c.ge(t, env.old.next), c.lt(t, env.st.next)), tBool}
	case "allocated":
		t := arg(0)
		if t.sort == "Slice" {
			t = c.sref(t)
		}
		return &TV{c.and(c.ge(t, c.int(1)), c.lt(t, env.st.next)), tBool}
	case "ref":
		t := arg(0)
		if t.sort != "Slice" {
			return &TV{t, tInt}
		}
		return &TV{c.sref(t), tInt}
	case "off":
		return &TV{c.soff(arg(0)), tInt}
	case "sameslice":
		a, b := arg(0), arg(1)
		return &TV{c.and(c.eq(c.sref(a), c.sref(b)), c.eq(c.soff(a), c.soff(b)), c.eq(c.slen(a), c.slen(b))), tBool}
	case "abs":
		t := arg(0)
		return &TV{c.ite(c.ge(t, c.int(0)), t, c.neg(t)), x.typOf(x.eval(e.args[0], env))}
	case "min", "max":
		a, b := c.numeric(arg(0), arg(1))
		if e.name == "min" {
			return &TV{c.ite(c.le(a, b), a, b), tOf(a)}
		}
		return &TV{c.ite(c.ge(a, b), a, b), tOf(a)}
	case "floor":
		return &TV{c.floor(real(0)), tInt}
	case "ceil":
		return &TV{c.ceil(real(0)), tInt}
	case "round":
		return &TV{c.round(real(0)), tInt}
	case "trunc":
		return &TV{c.trunc(real(0)), tInt}
	case "real":
		return &TV{real(0), tReal}
	case "re":
		return &TV{c.field("cre", arg(0)), tReal}
	case "im":
		return &TV{c.field("cim", arg(0)), tReal}
	case "sqrt":
		return &TV{x.sqrt(env.st, real(0)), tReal}
	case "log10":
		return &TV{x.ufReal("m_log10", real(0)), tReal}
	case "str":
		v := x.eval(e.args[0], env)
		x.b2s()
		if s, ok := v.(*SeqV); ok {
			return &TV{c.app("b2s", "String", s.arr, s.off, s.n), tString}
		}
		if a, ok := v.(*TV); ok && a.typ != nil {
			if at, ok := under(a.typ).(*types.Array); ok {
				return &TV{c.app("b2s", "String", a.t, c.int(0), c.int(at.Len())), tString}
			}
		}
		return &TV{x.bytesToString(env.st, x.term(v)), tString}
	case "char":
		// the text that consists of the given byte
		return &TV{c.app("str.from_code", "String", arg(0)), tString}
	case "chr":
		return &TV{c.fromRune(arg(0)), tString}
	case "contains":
		return &TV{c.app("str.contains", "Bool", arg(0), arg(1)), tBool}
	case "hasprefix":
		return &TV{c.app("str.prefixof", "Bool", arg(1), arg(0)), tBool}
	case "hassuffix":
		return &TV{c.app("str.suffixof", "Bool", arg(1), arg(0)), tBool}
	case "indexof":
		return &TV{c.app("str.indexof", "Int", arg(0), arg(1), c.int(0)), tInt}
	case "itoa":
		return &TV{x.itoa(arg(0)), tString}
	case "fmtverb":
		// fmtverb("%.1f", x)
		return &TV{x.fmtVerb(e.args[0].name, x.eval(e.args[1], env), nil), tString}
	case "is":
		t := arg(0)
		if t.sort != "Iface" {
			bad(e, "is")
		}
		return &TV{c.eq(c.field("itag", t), c.typeTag(x.specType(exprType(e.args[1]), env))), tBool}
	case "dyn":
		t := arg(0)
		ty := x.specType(exprType(e.args[1]), env)
		return x.tv(c.unbox(c.field("ival", t), c.sortOf(ty)), ty)
	case "iface":
		v := x.eval(e.args[0], env)
		return x.makeIface(v, x.typOf(v), types.NewInterfaceType(nil, nil))
	case "zero":
		ty := x.specType(exprType(e.args[0]), env)
		return &TV{c.zero(ty), ty}
	case "apply":
		// apply(f, args...): the result of a function value that depends on its arguments only
		f := x.eval(e.args[0], env)
		sig, ok := under(x.typOf(f)).(*types.Signature)
		if !ok {
			bad(e, "not a function")
		}
		var as []Val
		for i, a := range e.args[1:] {
			pt := sig.Params().At(i).Type()
			as = append(as, &TV{x.coerce(x.evalTerm(a, env), c.sortOf(pt), e), pt})
		}
		return x.applyFn(f, as, sig)
	case "mathfn":
		var as []*Term
		for i := range e.args[1:] {
			as = append(as, real(i+1))
		}
		return &TV{x.ufReal("m_"+e.args[0].name, as...), tReal}
	case "wrap64":
		return &TV{c.wrap(arg(0), types.Typ[types.Int64]), types.Typ[types.Int64]}
	case "wrap32":
		return &TV{c.wrap(arg(0), types.Typ[types.Int32]), types.Typ[types.Int32]}
	case "$visited":
		if env.visited == nil {
			bad(e, "no map range")
		}
		v := env.visited()
		if v == nil {
			bad(e, "no map range")
		}
		k := arg(0)
		ks, _ := arraySorts(v.t.sort)
		if k.sort != ks {
			bad(e, "visited")
		}
		return &TV{c.sel(v.t, k), tBool}
	case "seqeq":
		a, b := x.seqOf(x.eval(e.args[0], env), env, e), x.seqOf(x.eval(e.args[1], env), env, e)
		i := c.bound("i", "Int")
		p, q := c.sel(a.arr, c.ix(a.off, i)), c.sel(b.arr, c.ix(b.off, i))
		return &TV{c.and(c.eq(a.n, b.n), c.forall([]*Term{i}, patsFor([]*Term{i}, c.eq(p, q)), c.implies(c.and(c.le(c.int(0), i), c.lt(i, a.n)), c.eq(p, q)))), tBool}
	case "samecontent":
		// same array content at the reference of a slice or map (regardless of length)
		a := arg(0)
		n := *env
		n.st = env.old
		v := x.eval(e.args[0], env).(*TV)
		el := under(v.typ).(*types.Slice).Elem()
		h := x.elemHeap(el)
		return &TV{c.eq(c.sel(env.st.heap(h), c.sref(a)), c.sel(env.old.heap(h), c.sref(a))), tBool}
	case "dom":
		// domain of a map, as a set
		v := x.eval(e.args[0], env).(*TV)
		md, _ := x.mapHeaps(v.typ)
		return &TV{c.sel(env.st.heap(md), v.t), nil}
	case "mapvals":
		v := x.eval(e.args[0], env).(*TV)
		_, mv := x.mapHeaps(v.typ)
		return &TV{c.sel(env.st.heap(mv), v.t), nil}
	case "add", "remove":
		s, k := arg(0), arg(1)
		return &TV{c.store(s, k, c.bool(e.name == "add")), nil}
	case "member":
		return &TV{c.sel(arg(1), arg(0)), tBool}
	case "fieldunchanged":
		// fieldunchanged(T.f): the field has the same value in every object as at entry
		f := e.args[0]
		ty := x.specType(exprType(f.args[0]), env)
		i, _ := findField(ty, f.name)
		if i < 0 {
			bad(e, "no field")
		}
		h := x.fieldHeap(ty, i)
		return &TV{c.eq(env.st.heap(h), env.old.heap(h)), tBool}
	}
	if p := x.w.spec.preds[e.name]; p != nil {
		if len(p.params) != len(e.args) {
			bad(e, "predicate %s takes %d arguments", p.name, len(p.params))
		}
		if env.depth > 40 {
			bad(e, "recursive predicate")
		}
		n := *env
		n.depth++
		n.vars = map[string]Val{}
		for i, q := range p.params {
			n.vars[q] = x.eval(e.args[i], env)
		}
		n.lookup, n.oldLookup = nil, nil
		n.inOld = false
		if pk := x.w.pkgByShort(p.pkg); pk != nil {
			n.pkg = pk
		}
		if p.opaque && !x.contract.reveal[p.name] && !x.heapTracing {
			return x.opaquePred(p, &n)
		}
		return x.eval(p.body, &n)
	}
	if f := x.w.spec.fns[e.name]; f != nil {
		var as []Val
		for _, a := range e.args {
			as = append(as, x.eval(a, env))
		}
		return x.applySpecFn(f, as, env, e)
	}
	// pure functions with a contract
	for _, k := range []string{e.name, x.w.shortOf(env.pkg) + "." + e.name} {
		if con := x.w.spec.contracts[k]; con != nil && con.pure {
			return x.pureApp(con, e, env)
		}
	}
	bad(e, "unknown function %s", e.name)
	return nil
}

// opaquePred is the predicate as a function of its arguments and of the parts
// of the memory that its meaning depends on.
func (x *Exec) opaquePred(p *Pred, env *Env) Val {
	c := x.c
	if x.predHeaps == nil {
		x.predHeaps = map[string][]string{}
	}
	hs, ok := x.predHeaps[p.name]
	if !ok {
		x.heapTracing, x.heapTrace = true, map[string]bool{}
		x.eval(p.body, env)
		for h := range x.heapTrace {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		x.heapTracing, x.heapTrace = false, nil
		x.predHeaps[p.name] = hs
	}
	// one symbol for each state of those parts
	var ts []*Term
	var ss []string
	key := p.name
	for _, h := range hs {
		key += fmt.Sprintf(" %d", env.st.heap(h).id)
	}
	if x.predVers == nil {
		x.predVers = map[string]string{}
	}
	n, ok := x.predVers[key]
	if !ok {
		n = fmt.Sprintf("sp_%s_%d", p.name, len(x.predVers)+1)
		x.predVers[key] = n
	}
	for _, q := range p.params {
		t := x.term(env.vars[q])
		ts = append(ts, t)
		ss = append(ss, t.sort)
	}
	c.fun(n, ss, "Bool")
	return &TV{c.app(n, "Bool", ts...), tBool}
}

func tOf(t *Term) types.Type {
	switch t.sort {
	case "Real":
		return tReal
	case "Bool":
		return tBool
	case "String":
		return tString
	}
	return tInt
}

func exprType(e *Expr) string {
	switch e.kind {
	case "name":
		return e.name
	case "field":
		return exprType(e.args[0]) + "." + e.name
	case "un":
		return e.op + exprType(e.args[0])
	case "lit_str":
		return e.name
	case "index":
		return exprType(e.args[0]) + "[" + exprType(e.args[1]) + "]"
	}
	return "?"
}

func (x *Exec) pureApp(con *Contract, e *Expr, env *Env) Val {
	c := x.c
	var ts []*Term
	var ss []string
	for _, a := range e.args {
		t := x.evalTerm(a, env)
		ts = append(ts, t)
		ss = append(ss, t.sort)
	}
	rt := x.w.pureResult(con, x, env)
	n := "p_" + sanitize(con.key)
	so := c.sortOf(rt)
	if len(ts) == 0 {
		return &TV{c.namedConst(n, so), rt}
	}
	c.fun(n, ss, so)
	return &TV{c.app(n, so, ts...), rt}
}

// ---------------------------------------------------------------- specification functions

func (f *SpecFn) recursive() bool {
	if f.body == nil || f.opaque {
		return true
	}
	return exprNames(f.body)[f.name]
}

func (x *Exec) applySpecFn(f *SpecFn, as []Val, env *Env, e *Expr) Val {
	c := x.c
	if len(as) != len(f.params) {
		bad(e, "%s takes %d arguments", f.name, len(f.params))
	}
	fenv := &Env{x: x, st: env.st, old: env.old, pkg: x.w.pkgByShort(f.pkg), fn: env.fn, vars: map[string]Val{}, depth: env.depth + 1}
	if fenv.depth > 60 {
		bad(e, "specification functions too deep")
	}
	rt := x.specType(f.ret, fenv)
	if !f.recursive() {
		for i, p := range f.params {
			fenv.vars[p.name] = x.coerceVal(as[i], p.typ, fenv, e)
		}
		v := x.eval(f.body, fenv)
		if tv, ok := v.(*TV); ok {
			return &TV{x.coerce(tv.t, c.sortOf(rt), e), rt}
		}
		return v
	}
	var ts []*Term
	var ss []string
	for i, p := range f.params {
		v := x.coerceVal(as[i], p.typ, fenv, e)
		if s, ok := v.(*SeqV); ok {
			ts = append(ts, s.arr, s.off, s.n)
			ss = append(ss, s.arr.sort, "Int", "Int")
		} else {
			t := x.term(v)
			ts = append(ts, t)
			ss = append(ss, t.sort)
		}
	}
	n := "sf_" + f.name
	so := c.sortOf(rt)
	c.fun(n, ss, so)
	x.recApps[n] = f
	x.declLemmas(f)
	return &TV{c.app(n, so, ts...), rt}
}

func (x *Exec) coerceVal(v Val, typ string, env *Env, e *Expr) Val {
	if strings.HasPrefix(typ, "[]") {
		return x.seqOf(v, env, e)
	}
	t := x.specType(typ, env)
	tm := x.coerce(x.term(v), x.c.sortOf(t), e)
	return &TV{tm, t}
}

// unfold gives the defining equation of an application of a recursive specification function.
func (x *Exec) unfold(f *SpecFn, app *Term) *Term {
	if f.body == nil {
		return nil
	}
	env := x.fnEnv(f, app.args)
	v := x.eval(f.body, env)
	rt := x.specType(f.ret, env)
	return x.c.app("=", "Bool", app, x.coerce(x.term(v), x.c.sortOf(rt), f.body))
}

func (x *Exec) fnEnv(f *SpecFn, args []*Term) *Env {
	env := &Env{x: x, st: x.entry, old: x.entry, pkg: x.w.pkgByShort(f.pkg), fn: x.root, vars: map[string]Val{}}
	k := 0
	for _, p := range f.params {
		if strings.HasPrefix(p.typ, "[]") {
			el := x.specType(p.typ[2:], env)
			env.vars[p.name] = &SeqV{args[k], args[k+1], args[k+2], el}
			k += 3
			continue
		}
		env.vars[p.name] = &TV{args[k], x.specType(p.typ, env)}
		k++
	}
	return env
}

// declLemmas adds the proven lemmas about a specification function as axioms.
func (x *Exec) declLemmas(f *SpecFn) {
	for _, l := range x.w.spec.lemmas {
		if x.lemmaDone[l.name] || l == x.w.curLemma || len(l.trig) == 0 {
			continue
		}
		uses := exprNames(l.trig[0])
		if !uses[f.name] {
			continue
		}
		if x.w.curLemma != nil && !x.w.lemmaBefore(l, x.w.curLemma) {
			continue
		}
		x.lemmaDone[l.name] = true
		x.deps["lemma "+l.name] = true
		env, vars := x.lemmaEnv(l, true)
		body := x.evalBool(l.ensures, env)
		var rs []*Term
		for _, r := range l.requires {
			rs = append(rs, x.evalBool(r, env))
		}
		body = x.c.implies(x.c.and(rs...), body)
		var pats [][]*Term
		for _, t := range l.trig {
			var p []*Term
			for _, a := range t.args {
				p = append(p, x.evalTerm(a, env))
			}
			pats = append(pats, p)
		}
		x.c.axiom("sf_"+f.name, x.c.forall(vars, pats, body))
	}
}

func (x *Exec) lemmaEnv(l *Lemma, bound bool) (*Env, []*Term) {
	c := x.c
	env := &Env{x: x, st: x.entry, old: x.entry, pkg: x.w.pkgByShort(l.pkg), vars: map[string]Val{}}
	var vars []*Term
	mk := func(n, so string) *Term {
		if bound {
			v := c.bound(n, so)
			vars = append(vars, v)
			return v
		}
		v := c.constant(n, so)
		vars = append(vars, v)
		return v
	}
	for _, p := range l.params {
		if strings.HasPrefix(p.typ, "[]") {
			el := x.specType(p.typ[2:], env)
			env.vars[p.name] = &SeqV{mk(p.name, arraySort("Int", c.sortOf(el))), mk(p.name+"_off", "Int"), mk(p.name+"_len", "Int"), el}
			continue
		}
		t := x.specType(p.typ, env)
		env.vars[p.name] = &TV{mk(p.name, c.sortOf(t)), t}
	}
	return env, vars
}

// ---------------------------------------------------------------- modifies clauses

type modRes struct {
	item  modItem
	place *Place
}

func (x *Exec) resolveMods(cl *Clause, env *Env) []modRes {
	c := x.c
	var out []modRes
	for _, e := range cl.items {
		switch {
		case e.kind == "name" && e.name == "log":
			out = append(out, modRes{item: modItem{heap: "$log", text: "log"}})
		case e.kind == "call" && e.name == "received":
			v := x.eval(e.args[0], env)
			h, ok := x.recvHeap(chanElem(x.typOf(v)))
			if !ok {
				bad(e, "no received values")
			}
			out = append(out, modRes{item: modItem{heap: "$nrecv", ref: x.term(v), text: exprStr(e)}}, modRes{item: modItem{heap: h, ref: x.term(v), text: exprStr(e)}})
		case e.kind == "call" && e.name == "any":
			f := e.args[0]
			ty := x.specType(exprType(f.args[0]), env)
			i, _ := findField(ty, f.name)
			if i < 0 {
				bad(e, "no field")
			}
			out = append(out, modRes{item: modItem{heap: x.fieldHeap(ty, i), text: exprStr(e)}})
		case e.kind == "call" && e.name == "anyelem":
			ty := x.specType(exprType(e.args[0]), env)
			out = append(out, modRes{item: modItem{heap: x.elemHeap(ty), text: exprStr(e)}})
		case e.kind == "call" && e.name == "anymap":
			var ty types.Type
			if f := e.args[0]; f.kind == "field" {
				if ft := x.w.typeByName(exprType(f.args[0]), env.pkg, env.fn); ft != nil {
					if i, _ := findField(ft, f.name); i >= 0 {
						ty = structOf(ft).Field(i).Type()
					}
				}
			}
			if ty == nil {
				ty = x.specType(exprType(e.args[0]), env)
			}
			md, mv := x.mapHeaps(ty)
			out = append(out, modRes{item: modItem{heap: md}}, modRes{item: modItem{heap: mv}})
		case e.kind == "all":
			v := x.eval(e.args[0], env)
			if el := ptrElem2(x.typOf(v)); el != nil {
				if _, ok := under(el).(*types.Array); ok {
					p := x.specPlace(v, el)
					out = append(out, modRes{item: modItem{heap: p.heap, ref: p.ref, text: exprStr(e)}, place: p})
					continue
				}
			}
			tv, ok := v.(*TV)
			if !ok {
				bad(e, "modifies")
			}
			if tv.t.sort == "Slice" {
				el := under(tv.typ).(*types.Slice).Elem()
				out = append(out, modRes{item: modItem{heap: x.elemHeap(el), ref: c.sref(tv.t), lo: c.soff(tv.t), hi: c.add(c.soff(tv.t), c.scap(tv.t)), text: exprStr(e)}})
				continue
			}
			if tv.typ != nil {
				if _, ok := under(tv.typ).(*types.Map); ok {
					md, mv := x.mapHeaps(tv.typ)
					out = append(out, modRes{item: modItem{heap: md, ref: tv.t}}, modRes{item: modItem{heap: mv, ref: tv.t}})
					continue
				}
			}
			bad(e, "modifies")
		case e.kind == "un" && e.op == "*":
			v := x.eval(e.args[0], env)
			el := ptrElem(x.typOf(v))
			p := x.specPlace(v, el)
			st := structOf(el)
			if st == nil || p.kind != pDeref {
				out = append(out, modRes{item: modItem{heap: p.heap, ref: p.ref}, place: p})
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				h := x.fieldHeap(el, i)
				out = append(out, modRes{item: modItem{heap: h, ref: p.ref, text: exprStr(e)}})
			}
		default:
			p := x.specAddr(e, env)
			if p.kind == pElem {
				out = append(out, modRes{item: modItem{heap: p.heap, ref: p.ref, lo: p.idx, hi: c.add(p.idx, c.int(1)), text: exprStr(e)}})
				continue
			}
			out = append(out, modRes{item: modItem{heap: p.heap, ref: p.ref, text: exprStr(e)}, place: p})
		}
	}
	return out
}

var _ = constant.MakeInt64

// resultType: the type of a result of the function or method of this name.
func (w *World) resultType(name string, i int) types.Type {
	var ks []string
	for k := range w.funcs {
		if k == name || strings.HasSuffix(k, "."+name) || strings.HasSuffix(k, "/"+name) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, f := range w.funcs[k] {
			if r := f.Signature.Results(); i < r.Len() {
				return r.At(i).Type()
			}
		}
	}
	for _, f := range w.all {
		if k := w.keyOf(f); k == name || strings.HasSuffix(k, "/"+name) {
			if r := f.Signature.Results(); i < r.Len() {
				return r.At(i).Type()
			}
		}
	}
	// a method of an interface type
	if k := strings.LastIndexByte(name, '.'); k >= 0 {
		t, m := name[:k], name[k+1:]
		if j := strings.LastIndexByte(t, '.'); j >= 0 {
			t = t[j+1:]
		}
		for _, p := range w.modulePkgs() {
			if o := p.Scope().Lookup(t); o != nil {
				if it, ok := o.Type().Underlying().(*types.Interface); ok {
					for j := 0; j < it.NumMethods(); j++ {
						if it.Method(j).Name() == m {
							if r := it.Method(j).Type().(*types.Signature).Results(); i < r.Len() {
								return r.At(i).Type()
							}
						}
					}
				}
			}
		}
	}
	return nil
}

func (x *Exec) term2(v Val, t types.Type) *TV {
	if tv, ok := v.(*TV); ok {
		return tv
	}
	return &TV{x.term(v), t}
}
