package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT-LIB term. A Ctx owns all the terms of one function's verification.
type Term struct {
	id   int
	op   string
	args []*Term
	sort string

	kind termKind
	ival *big.Int // integer literals
	rval *big.Rat // real literals
	sval string   // string literals

	// named constants
	def     *Term // definition of a named constant (state versions)
	seq     int   // heap versions, params: number of allocations that existed when the value came into being
	alloc   int   // > 0: the n-th allocation on the path
	seqSet  bool
	heapVer bool // a version of a heap
	derived bool

	// quantifiers
	vars []*Term
	pats [][]*Term

	hasBound bool
	size     int

	facts  []*Term // named constants: facts that hold of it (types, frames)
	stable bool    // exists since the entry of the function
}

type termKind int

const (
	kApp termKind = iota
	kConst
	kInt
	kReal
	kBool
	kStr
	kBound
	kQuant
)

type Ctx struct {
	table    map[string]*Term
	nterms   int
	nconst   int
	names    map[string]int
	sorts    []string // datatype declarations in order
	sortSeen map[string]string
	funs     map[string]string // uninterpreted functions: name -> declaration
	funOrder []string
	axioms   []*Term // global axioms (quantified); only included when one of their function symbols occurs
	axSyms   []string
	ctors    map[string]*dtype
	sels     map[string]selInfo
	boxes    map[string]bool
	events   map[string]*eventKind
	evOrder  []string
}

type dtype struct {
	sort   string
	ctor   string
	fields []string // selector names
	fsorts []string
}

type selInfo struct {
	dt  *dtype
	idx int
}

type eventKind struct {
	name  string
	sorts []string
}

func newCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, names: map[string]int{}, sortSeen: map[string]string{}, funs: map[string]string{}, ctors: map[string]*dtype{}, sels: map[string]selInfo{}, boxes: map[string]bool{}, events: map[string]*eventKind{}}
	c.declDatatype("Slice", "mkslice", []string{"sref", "soff", "slen", "scap"}, []string{"Int", "Int", "Int", "Int"})
	c.declDatatype("Iface", "mkiface", []string{"itag", "ival"}, []string{"Int", "Int"})
	c.declDatatype("Cplx", "mkcplx", []string{"cre", "cim"}, []string{"Real", "Real"})
	c.fun("ix", []string{"Int", "Int"}, "Int")
	o, k, l := c.bound("o", "Int"), c.bound("k", "Int"), c.bound("l", "Int")
	ixok := c.app("ix", "Int", o, k)
	c.axiom("ix", c.forall([]*Term{o, k}, [][]*Term{{ixok}}, c.eq(ixok, c.add(o, k))))
	ixx := c.app("ix", "Int", c.app("ix", "Int", o, l), k)
	c.axiom("ix", c.forall([]*Term{o, l, k}, [][]*Term{{ixx}}, c.eq(ixx, c.app("ix", "Int", o, c.add(l, k)))))
	return c
}

func (c *Ctx) axiom(sym string, t *Term) {
	c.axioms = append(c.axioms, t)
	c.axSyms = append(c.axSyms, sym)
}

func (c *Ctx) declDatatype(sort, ctor string, fields, fsorts []string) {
	if _, ok := c.sortSeen[sort]; ok {
		return
	}
	c.sortSeen[sort] = sort
	dt := &dtype{sort: sort, ctor: ctor, fields: fields, fsorts: fsorts}
	c.ctors[ctor] = dt
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", sort, ctor)
	for i, f := range fields {
		fmt.Fprintf(&b, " (%s %s)", f, fsorts[i])
		c.sels[f] = selInfo{dt, i}
	}
	b.WriteString("))))")
	c.sorts = append(c.sorts, b.String())
}

func (c *Ctx) fun(name string, args []string, ret string) {
	if _, ok := c.funs[name]; ok {
		return
	}
	c.funs[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), ret)
	c.funOrder = append(c.funOrder, name)
}

func (c *Ctx) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.kind)))
	b.WriteByte('|')
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.sort)
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.kind == kQuant {
		b.WriteByte('#')
		for _, v := range t.vars {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(v.id))
		}
		for _, p := range t.pats {
			b.WriteByte(';')
			for _, q := range p {
				b.WriteByte(',')
				b.WriteString(strconv.Itoa(q.id))
			}
		}
	}
	key := b.String()
	if o, ok := c.table[key]; ok {
		return o
	}
	c.nterms++
	t.id = c.nterms
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.hasBound {
			t.hasBound = true
		}
	}
	if t.kind == kBound {
		t.hasBound = true
	}
	if t.kind == kQuant {
		t.hasBound = false
		fv := map[*Term]bool{}
		for _, v := range t.vars {
			fv[v] = true
		}
		t.hasBound = hasFreeBound(t.args[0], fv)
	}
	c.table[key] = t
	return t
}

func hasFreeBound(t *Term, bound map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.hasBound || seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == kBound {
			return !bound[t]
		}
		if t.kind == kQuant {
			// nested quantifier: its own variables are bound
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.vars {
				nb[v] = true
			}
			return hasFreeBound(t.args[0], nb)
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (c *Ctx) freshName(base string) string {
	base = sanitize(base)
	c.names[base]++
	n := c.names[base]
	return fmt.Sprintf("%s!%d", base, n)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) constant(base, sort string) *Term {
	return c.intern(&Term{op: c.freshName(base), sort: sort, kind: kConst})
}

// namedConst is a constant with a stable name (the same term on each request).
func (c *Ctx) namedConst(name, sort string) *Term {
	return c.intern(&Term{op: sanitize(name), sort: sort, kind: kConst})
}

func (c *Ctx) bound(base, sort string) *Term {
	return c.intern(&Term{op: c.freshName("?" + base)[0:], sort: sort, kind: kBound})
}

func (c *Ctx) int(n int64) *Term { return c.bigint(big.NewInt(n)) }

func (c *Ctx) bigint(n *big.Int) *Term {
	s := n.String()
	if n.Sign() < 0 {
		s = "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return c.intern(&Term{op: s, sort: "Int", kind: kInt, ival: n})
}

func (c *Ctx) real(r *big.Rat) *Term {
	num, den := new(big.Int).Abs(r.Num()), r.Denom()
	s := num.String() + ".0"
	if den.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + num.String() + ".0 " + den.String() + ".0)"
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return c.intern(&Term{op: s, sort: "Real", kind: kReal, rval: r})
}

func (c *Ctx) realInt(n int64) *Term { return c.real(new(big.Rat).SetInt64(n)) }

func (c *Ctx) bool(b bool) *Term {
	if b {
		return c.intern(&Term{op: "true", sort: "Bool", kind: kBool})
	}
	return c.intern(&Term{op: "false", sort: "Bool", kind: kBool})
}

func (c *Ctx) str(s string) *Term {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch < 32 || ch > 126 || ch == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", ch)
		} else if ch == '"' {
			b.WriteString(`""`)
		} else {
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return c.intern(&Term{op: b.String(), sort: "String", kind: kStr, sval: s})
}

func (t *Term) isTrue() bool  { return t.kind == kBool && t.op == "true" }
func (t *Term) isFalse() bool { return t.kind == kBool && t.op == "false" }

func (c *Ctx) app(op, sort string, args ...*Term) *Term {
	return c.intern(&Term{op: op, sort: sort, args: args, kind: kApp})
}

func (c *Ctx) forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	return c.quant("forall", vars, pats, body)
}

func (c *Ctx) exists(vars []*Term, pats [][]*Term, body *Term) *Term {
	return c.quant("exists", vars, pats, body)
}

func (c *Ctx) quant(q string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body.kind == kBool {
		return body
	}
	return c.intern(&Term{op: q, sort: "Bool", kind: kQuant, vars: vars, pats: pats, args: []*Term{body}})
}

// ---- boolean

func (c *Ctx) not(a *Term) *Term {
	if a.kind == kBool {
		return c.bool(a.isFalse())
	}
	if a.kind == kApp && a.op == "not" {
		return a.args[0]
	}
	return c.app("not", "Bool", a)
}

func (c *Ctx) and(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.isTrue() {
			continue
		}
		if t.isFalse() {
			return t
		}
		if t.kind == kApp && t.op == "and" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if seen[c.not(t)] {
			return c.bool(false)
		}
	}
	switch len(out) {
	case 0:
		return c.bool(true)
	case 1:
		return out[0]
	}
	return c.app("and", "Bool", out...)
}

func (c *Ctx) or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.isFalse() {
			continue
		}
		if t.isTrue() {
			return t
		}
		if t.kind == kApp && t.op == "or" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if seen[c.not(t)] {
			return c.bool(true)
		}
	}
	switch len(out) {
	case 0:
		return c.bool(false)
	case 1:
		return out[0]
	}
	return c.app("or", "Bool", out...)
}

// splitGoal: formulas that together are equivalent to the goal.
func (c *Ctx) splitGoal(t *Term, limit int) []*Term {
	var out []*Term
	switch {
	case t.kind == kApp && t.op == "and":
		for _, a := range t.args {
			out = append(out, c.splitGoal(a, limit)...)
		}
	case t.kind == kApp && t.op == "=>":
		for _, g := range c.splitGoal(t.args[1], limit) {
			out = append(out, c.implies(t.args[0], g))
		}
	case t.kind == kQuant && t.op == "forall":
		for _, g := range c.splitGoal(t.args[0], limit) {
			out = append(out, c.forall(t.vars, t.pats, g))
		}
	}
	if len(out) == 0 || len(out) > limit {
		return []*Term{t}
	}
	return out
}

func (c *Ctx) implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() || a == b {
		return c.bool(true)
	}
	if b.isFalse() {
		return c.not(a)
	}
	return c.app("=>", "Bool", a, b)
}

func (c *Ctx) ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		if a.isTrue() && b.isFalse() {
			return cond
		}
		if a.isFalse() && b.isTrue() {
			return c.not(cond)
		}
	}
	return c.app("ite", a.sort, cond, a, b)
}

func (c *Ctx) eq(a, b *Term) *Term {
	if a == b {
		return c.bool(true)
	}
	if a.sort != b.sort {
		if a.sort == "Int" && b.sort == "Real" {
			a = c.toReal(a)
		} else if a.sort == "Real" && b.sort == "Int" {
			b = c.toReal(b)
		} else {
			panic(fmt.Sprintf("eq: sort mismatch %s / %s : %s = %s", a.sort, b.sort, c.show(a), c.show(b)))
		}
		if a == b {
			return c.bool(true)
		}
	}
	if lit(a) && lit(b) {
		if a.kind == b.kind {
			return c.bool(false)
		}
	}
	if a.sort == "Bool" {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.not(b)
		}
		if b.isFalse() {
			return c.not(a)
		}
	}
	if a.sort == "Int" && c.distinctRefs(a, b) {
		return c.bool(false)
	}
	// constructor equality
	if da, db := c.ctors[a.op], c.ctors[b.op]; da != nil && da == db && a.kind == kApp && b.kind == kApp {
		var es []*Term
		for i := range a.args {
			es = append(es, c.eq(a.args[i], b.args[i]))
		}
		return c.and(es...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.app("=", "Bool", a, b)
}

func lit(t *Term) bool {
	return t.kind == kInt || t.kind == kReal || t.kind == kBool || t.kind == kStr
}

// distinctRefs: two reference terms that cannot be equal because of the order of allocation.
func (c *Ctx) distinctRefs(a, b *Term) bool {
	if a.alloc > 0 && b.alloc > 0 {
		return a != b
	}
	if b.alloc > 0 {
		a, b = b, a
	}
	if a.alloc == 0 {
		return false
	}
	if b.kind == kInt {
		return b.ival.Sign() <= 0
	}
	ag, ok := c.age(b)
	return ok && ag < a.alloc
}

// age: an upper bound of the number of allocations done when the reference value existed.
func (c *Ctx) age(t *Term) (int, bool) {
	if t.alloc > 0 {
		return t.alloc, true
	}
	switch t.kind {
	case kInt:
		return 0, t.ival.Sign() <= 0
	case kConst:
		if t.seqSet {
			return t.seq, true
		}
		return 0, false
	case kApp:
		switch t.op {
		case "select":
			a, ok1 := c.age(t.args[0])
			if t.args[0].heapVer && ok1 {
				// an object that is younger than this version of the heap (made by a callee) may hold younger references
				b, ok2 := c.age(t.args[1])
				return max(a, b), ok2
			}
			return a, ok1
		case "sref", "ival":
			return c.age(t.args[0])
		case "ite":
			a, ok1 := c.age(t.args[1])
			b, ok2 := c.age(t.args[2])
			if ok1 && ok2 {
				return max(a, b), true
			}
		}
		if si, ok := c.sels[t.op]; ok {
			_ = si
			return c.age(t.args[0])
		}
	}
	return 0, false
}

// ---- arithmetic

func (c *Ctx) toReal(a *Term) *Term {
	if a.sort == "Real" {
		return a
	}
	if a.kind == kInt {
		return c.real(new(big.Rat).SetInt(a.ival))
	}
	return c.app("to_real", "Real", a)
}

func (c *Ctx) numeric(a, b *Term) (*Term, *Term) {
	if a.sort == b.sort {
		return a, b
	}
	return c.toReal(a), c.toReal(b)
}

func (c *Ctx) add(a, b *Term) *Term {
	a, b = c.numeric(a, b)
	if a.kind == kInt && b.kind == kInt {
		return c.bigint(new(big.Int).Add(a.ival, b.ival))
	}
	if a.kind == kReal && b.kind == kReal {
		return c.real(new(big.Rat).Add(a.rval, b.rval))
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	// (x + c1) + c2, (x - c1) + c2
	if b.kind == kInt && a.kind == kApp && a.op == "+" && len(a.args) == 2 && a.args[1].kind == kInt {
		return c.add(a.args[0], c.bigint(new(big.Int).Add(a.args[1].ival, b.ival)))
	}
	if a.kind == kInt && b.kind != kInt {
		a, b = b, a
		return c.add(a, b)
	}
	return c.app("+", a.sort, a, b)
}

func (c *Ctx) sub(a, b *Term) *Term {
	a, b = c.numeric(a, b)
	if a == b {
		if a.sort == "Int" {
			return c.int(0)
		}
		return c.realInt(0)
	}
	if b.kind == kInt {
		return c.add(a, c.bigint(new(big.Int).Neg(b.ival)))
	}
	if a.kind == kReal && b.kind == kReal {
		return c.real(new(big.Rat).Sub(a.rval, b.rval))
	}
	if isZero(b) {
		return a
	}
	if a.kind == kApp && a.op == "+" && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return c.app("-", a.sort, a, b)
}

func (c *Ctx) neg(a *Term) *Term {
	if a.kind == kInt {
		return c.bigint(new(big.Int).Neg(a.ival))
	}
	if a.kind == kReal {
		return c.real(new(big.Rat).Neg(a.rval))
	}
	return c.app("-", a.sort, a)
}

func (c *Ctx) mul(a, b *Term) *Term {
	a, b = c.numeric(a, b)
	if a.kind == kInt && b.kind == kInt {
		return c.bigint(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.kind == kReal && b.kind == kReal {
		return c.real(new(big.Rat).Mul(a.rval, b.rval))
	}
	if isZero(a) {
		return a
	}
	if isZero(b) {
		return b
	}
	if isOne(a) {
		return b
	}
	if isOne(b) {
		return a
	}
	if !lit(a) && (lit(b) || a.id > b.id) {
		a, b = b, a
	}
	return c.app("*", a.sort, a, b)
}

func (c *Ctx) rdiv(a, b *Term) *Term {
	a, b = c.toReal(a), c.toReal(b)
	if a.kind == kReal && b.kind == kReal && b.rval.Sign() != 0 {
		return c.real(new(big.Rat).Quo(a.rval, b.rval))
	}
	if isOne(b) {
		return a
	}
	return c.app("/", "Real", a, b)
}

// idiv / imod: Go's truncated integer division.
func (c *Ctx) idiv(a, b *Term) *Term {
	if a.kind == kInt && b.kind == kInt && b.ival.Sign() != 0 {
		return c.bigint(new(big.Int).Quo(a.ival, b.ival))
	}
	if isOne(b) {
		return a
	}
	pos := func(x *Term) *Term { return c.app("div", "Int", x, b) }
	return c.ite(c.ge(a, c.int(0)), pos(a), c.neg(pos(c.neg(a))))
}

func (c *Ctx) imod(a, b *Term) *Term {
	if a.kind == kInt && b.kind == kInt && b.ival.Sign() != 0 {
		return c.bigint(new(big.Int).Rem(a.ival, b.ival))
	}
	// for b > 0 and a >= 0 this is SMT's mod; sign follows the dividend
	return c.ite(c.ge(a, c.int(0)), c.app("mod", "Int", a, b), c.neg(c.app("mod", "Int", c.neg(a), b)))
}

func isZero(t *Term) bool {
	return t.kind == kInt && t.ival.Sign() == 0 || t.kind == kReal && t.rval.Sign() == 0
}
func isOne(t *Term) bool {
	return t.kind == kInt && t.ival.IsInt64() && t.ival.Int64() == 1 || t.kind == kReal && t.rval.Cmp(big.NewRat(1, 1)) == 0
}

func (c *Ctx) cmp(op string, a, b *Term) *Term {
	if a.sort == "String" {
		switch op {
		case "<":
			return c.app("str.<", "Bool", a, b)
		case "<=":
			return c.app("str.<=", "Bool", a, b)
		case ">":
			return c.app("str.<", "Bool", b, a)
		default:
			return c.app("str.<=", "Bool", b, a)
		}
	}
	a, b = c.numeric(a, b)
	switch op {
	case ">":
		return c.cmp("<", b, a)
	case ">=":
		return c.cmp("<=", b, a)
	}
	if a.kind == kInt && b.kind == kInt {
		r := a.ival.Cmp(b.ival)
		return c.bool(op == "<" && r < 0 || op == "<=" && r <= 0)
	}
	if a.kind == kReal && b.kind == kReal {
		r := a.rval.Cmp(b.rval)
		return c.bool(op == "<" && r < 0 || op == "<=" && r <= 0)
	}
	if a == b {
		return c.bool(op == "<=")
	}
	if op == "<" {
		return c.not(c.app("<=", "Bool", b, a))
	}
	return c.app(op, "Bool", a, b)
}

func (c *Ctx) lt(a, b *Term) *Term { return c.cmp("<", a, b) }
func (c *Ctx) le(a, b *Term) *Term { return c.cmp("<=", a, b) }
func (c *Ctx) ge(a, b *Term) *Term { return c.cmp(">=", a, b) }
func (c *Ctx) gt(a, b *Term) *Term { return c.cmp(">", a, b) }

// trunc: float to integer conversion (towards zero), over the reals.
func (c *Ctx) trunc(a *Term) *Term {
	if a.sort == "Int" {
		return a
	}
	if a.kind == kReal {
		return c.bigint(new(big.Int).Quo(a.rval.Num(), a.rval.Denom()))
	}
	if a.kind == kApp && a.op == "to_real" {
		return a.args[0]
	}
	return c.ite(c.ge(a, c.realInt(0)), c.app("to_int", "Int", a), c.neg(c.app("to_int", "Int", c.neg(a))))
}

func (c *Ctx) floor(a *Term) *Term {
	if a.sort == "Int" {
		return a
	}
	if a.kind == kApp && a.op == "to_real" {
		return a.args[0]
	}
	return c.app("to_int", "Int", a)
}

func (c *Ctx) ceil(a *Term) *Term {
	if a.sort == "Int" {
		return a
	}
	return c.neg(c.floor(c.neg(a)))
}

// round: half away from zero (math.Round).
func (c *Ctx) round(a *Term) *Term {
	if a.sort == "Int" {
		return a
	}
	half := c.real(big.NewRat(1, 2))
	return c.ite(c.ge(a, c.realInt(0)), c.floor(c.add(a, half)), c.neg(c.floor(c.add(c.neg(a), half))))
}

// ---- arrays

func arraySorts(s string) (string, string) {
	// "(Array X Y)"
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func arraySort(k, v string) string { return "(Array " + k + " " + v + ")" }

func (c *Ctx) sel(a, i *Term) *Term {
	_, vs := arraySorts(a.sort)
	cur := a
	for steps := 0; steps < 400; steps++ {
		d := cur
		if d.kind == kConst && d.def != nil {
			d = d.def
		}
		if d.kind == kApp && d.op == "store" {
			j := d.args[1]
			if j == i {
				return d.args[2]
			}
			if c.surelyDistinct(i, j) {
				cur = d.args[0]
				continue
			}
			break
		}
		if d.kind == kApp && d.op == "constarr" {
			return d.args[0]
		}
		if d.kind == kConst && d != cur {
			cur = d
			continue
		}
		break
	}
	return c.app("select", vs, cur, i)
}

func (c *Ctx) surelyDistinct(a, b *Term) bool {
	if lit(a) && lit(b) {
		return a != b
	}
	if a.sort == "Int" {
		if c.distinctRefs(a, b) {
			return true
		}
		// ix(o, k1) vs ix(o, k2) with different literals
		if a.kind == kApp && b.kind == kApp && a.op == "ix" && b.op == "ix" && a.args[0] == b.args[0] {
			return lit(a.args[1]) && lit(b.args[1]) && a.args[1] != b.args[1]
		}
		if d := c.sub(a, b); d.kind == kInt {
			return d.ival.Sign() != 0
		}
	}
	return false
}

func (c *Ctx) store(a, i, v *Term) *Term {
	return c.app("store", a.sort, a, i, v)
}

func (c *Ctx) constArr(sort string, v *Term) *Term {
	return c.app("constarr", sort, v)
}

// ---- datatypes

func (c *Ctx) mk(ctor string, args ...*Term) *Term {
	dt := c.ctors[ctor]
	if dt == nil {
		panic("unknown constructor " + ctor)
	}
	for i, a := range args {
		if a.sort != dt.fsorts[i] {
			panic(fmt.Sprintf("mk %s: field %s: sort %s, want %s", ctor, dt.fields[i], a.sort, dt.fsorts[i]))
		}
	}
	// mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].kind == kApp && args[0].op == dt.fields[0] {
		x := args[0].args[0]
		same := true
		for i, a := range args {
			if a.kind != kApp || a.op != dt.fields[i] || a.args[0] != x {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	return c.app(ctor, dt.sort, args...)
}

func (c *Ctx) field(sel string, x *Term) *Term {
	si, ok := c.sels[sel]
	if !ok {
		panic("unknown selector " + sel)
	}
	d := x
	for d.kind == kConst && d.def != nil {
		d = d.def
	}
	if d.kind == kApp && d.op == si.dt.ctor {
		return d.args[si.idx]
	}
	if d.kind == kApp && d.op == "ite" && (c.isCtor(d.args[1]) || c.isCtor(d.args[2])) {
		return c.ite(d.args[0], c.field(sel, d.args[1]), c.field(sel, d.args[2]))
	}
	return c.app(sel, si.dt.fsorts[si.idx], x)
}

func (c *Ctx) isCtor(t *Term) bool { return t.kind == kApp && c.ctors[t.op] != nil }

func (c *Ctx) sref(s *Term) *Term { return c.field("sref", s) }
func (c *Ctx) soff(s *Term) *Term { return c.field("soff", s) }
func (c *Ctx) slen(s *Term) *Term { return c.field("slen", s) }
func (c *Ctx) scap(s *Term) *Term { return c.field("scap", s) }

func (c *Ctx) ix(o, k *Term) *Term {
	if isZero(o) {
		return k
	}
	return c.app("ix", "Int", o, k)
}

// ---- printing

func (c *Ctx) show(t *Term) string {
	var b strings.Builder
	c.write(&b, t, nil)
	s := b.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func (c *Ctx) write(b *strings.Builder, t *Term, names map[*Term]string) {
	if n, ok := names[t]; ok {
		b.WriteString(n)
		return
	}
	switch t.kind {
	case kConst, kBound:
		b.WriteString("|" + t.op + "|")
		return
	case kInt, kReal, kBool, kStr:
		b.WriteString(t.op)
		return
	case kQuant:
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			fmt.Fprintf(b, "(|%s| %s)", v.op, v.sort)
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
			c.write(b, t.args[0], names)
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, q := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					c.write(b, q, nil)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			c.write(b, t.args[0], names)
		}
		b.WriteString(")")
		return
	}
	if t.op == "constarr" {
		fmt.Fprintf(b, "((as const %s) ", t.sort)
		c.write(b, t.args[0], names)
		b.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		b.WriteString(t.op)
		return
	}
	b.WriteString("(" + t.op)
	for _, a := range t.args {
		b.WriteByte(' ')
		c.write(b, a, names)
	}
	b.WriteString(")")
}

var boundNames = regexp.MustCompile(`\|_[^|]*\|`)

// query builds an SMT-LIB script that is unsatisfiable iff the goal follows from the assumptions.
func (c *Ctx) query(assum []*Term, goal *Term, split bool) string {
	var asserts []*Term
	// split: one assertion for each conjunct
	for _, t := range assum {
		if !split {
			asserts = append(asserts, t)
			continue
		}
		asserts = append(asserts, c.splitGoal(t, 200)...)
	}
	if goal != nil {
		asserts = append(asserts, c.not(goal))
	}
	// collect symbols; pull in the axioms and definitions of what occurs
	seen := map[*Term]bool{}
	var consts []*Term
	syms := map[string]bool{}
	count := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		count[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == kConst {
			consts = append(consts, t)
		}
		if t.kind == kApp {
			syms[t.op] = true
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, q := range p {
				visit(q)
			}
		}
		order = append(order, t)
	}
	var defs []*Term
	for _, a := range asserts {
		visit(a)
	}
	done := map[*Term]bool{}
	var axs []*Term
	doneAx := map[int]bool{}
	for {
		progress := false
		for i := 0; i < len(consts); i++ {
			k := consts[i]
			if !done[k] && (k.def != nil || len(k.facts) > 0) {
				done[k] = true
				progress = true
				if k.def != nil {
					e := c.app("=", "Bool", k, k.def)
					defs = append(defs, e)
					visit(e)
				}
				for _, f := range k.facts {
					defs = append(defs, f)
					visit(f)
				}
			}
		}
		for i, ax := range c.axioms {
			if !doneAx[i] && syms[c.axSyms[i]] {
				doneAx[i] = true
				progress = true
				axs = append(axs, ax)
				visit(ax)
			}
		}
		if !progress {
			break
		}
	}
	var b strings.Builder
	evs := len(c.evOrder) > 0
	for _, s := range c.sorts {
		b.WriteString(s)
		b.WriteByte('\n')
	}
	if evs {
		b.WriteString("(declare-datatypes ((Event 0)) ((")
		for _, n := range c.evOrder {
			ek := c.events[n]
			fmt.Fprintf(&b, "(ev_%s", n)
			for i, s := range ek.sorts {
				fmt.Fprintf(&b, " (ev_%s_%d %s)", n, i, s)
			}
			b.WriteString(")")
		}
		b.WriteString("(ev_other))))\n")
	} else {
		b.WriteString("(declare-datatypes ((Event 0)) (((ev_other))))\n")
	}
	for _, f := range c.funOrder {
		if syms[f] {
			b.WriteString(c.funs[f])
			b.WriteByte('\n')
		}
	}
	sort.Slice(consts, func(i, j int) bool { return consts[i].id < consts[j].id })
	for _, k := range consts {
		fmt.Fprintf(&b, "(declare-const |%s| %s)\n", k.op, k.sort)
	}
	names := map[*Term]string{}
	for _, t := range order {
		if t.kind == kApp && !t.hasBound && t.size > 12 && count[t] > 1 && names[t] == "" && t.op != "constarr" {
			n := fmt.Sprintf("$d%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.sort)
			c.write(&b, t, names)
			b.WriteString(")\n")
			names[t] = n
		}
	}
	all := append(append(append([]*Term{}, axs...), defs...), asserts...)
	// bound names in the order of their appearance; equal assertions only once
	emitted := map[string]bool{}
	for _, a := range all {
		var ab strings.Builder
		c.write(&ab, a, names)
		ren := map[string]string{}
		txt := boundNames.ReplaceAllStringFunc(ab.String(), func(n string) string {
			r, ok := ren[n]
			if !ok {
				r = fmt.Sprintf("|_%d|", len(ren))
				ren[n] = r
			}
			return r
		})
		if emitted[txt] {
			continue
		}
		emitted[txt] = true
		b.WriteString("(assert ")
		b.WriteString(txt)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// subst replaces bound variables / constants.
func (c *Ctx) subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			if t.kind == kQuant {
				var pats [][]*Term
				for _, p := range t.pats {
					var np []*Term
					for _, q := range p {
						np = append(np, rec(q))
					}
					pats = append(pats, np)
				}
				r = c.quant(t.op, t.vars, pats, args[0])
			} else {
				r = c.rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "and":
		return c.and(args...)
	case "or":
		return c.or(args...)
	case "not":
		return c.not(args[0])
	case "=>":
		return c.implies(args[0], args[1])
	case "ite":
		return c.ite(args[0], args[1], args[2])
	case "=":
		return c.eq(args[0], args[1])
	case "select":
		return c.sel(args[0], args[1])
	case "+":
		if len(args) == 2 {
			return c.add(args[0], args[1])
		}
	case "-":
		if len(args) == 2 {
			return c.sub(args[0], args[1])
		}
	case "<=":
		return c.cmp("<=", args[0], args[1])
	}
	if _, ok := c.sels[t.op]; ok && len(args) == 1 {
		return c.field(t.op, args[0])
	}
	return c.app(t.op, t.sort, args...)
}
