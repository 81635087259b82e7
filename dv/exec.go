package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec generates the verification conditions of one function.
type Exec struct {
	w        *World
	c        *Ctx
	root     *ssa.Function
	contract *Contract
	prop     string

	heapInfos   map[string]*heapInfo
	epochHeaps  map[string]*Term
	predHeaps   map[string][]string // what the opaque predicates depend on
	heapTrace   map[string]bool
	predVers    map[string]string
	heapTracing bool
	epochSeq    []int
	epochNext   []*Term
	nalloc      int
	ncell       int
	cellTyp     map[int]types.Type
	quiet       int
	recs        []*recorder
	obls        []*Obl
	entry       *State
	entryNext   *Term
	mods        []modItem
	modAll      bool
	panicsOK    *Term // condition (on the entry state) under which a panic is allowed
	drop        map[string]bool
	fvs         map[*Term]Val // function values by term
	received    map[*Term]recvdFunc
	cbOwner     Val
	oblN        map[string]int
	steps       int
	deps        map[string]bool // contracts used
	trusted     map[string]bool // assumptions made (externals without contract, ...)
	usedInv     map[string]bool
	nexit       int
	exits       []*State
	params      map[string]Val
	noHelpers   bool
	wild        bool
	wildVars    map[string]Val
	globals     map[string]Val
	skolem      int
	recApps     map[string]*SpecFn
	lemmaDone   map[string]bool
	matchedInv  map[string]bool
	oncallHit   map[string]bool
	usesWritten bool
	sentHeaps   []string
	curPos      string
	curPosP     token.Pos
}

type modItem struct {
	heap   string
	ref    *Term // nil: any reference
	lo, hi *Term // element range
	text   string
}

// Obl is one proof obligation.
type Obl struct {
	fn     string
	kind   string
	label  string
	pos    string
	assum  []*Term
	goal   *Term
	invKey string
	x      *Exec
	text   string

	status  string // proved, failed, trivial
	solver  string
	secs    float64
	model   string
	hash    string
	cached  bool
	vacuity bool
}

func (o *Obl) name() string {
	s := o.fn + " / " + o.kind
	if o.label != "" {
		s += " " + o.label
	}
	return s
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []*ssa.Defer
	defArg [][]Val
	loops  []*loopCtx
	depth  int
	path   string
	live   map[*ssa.Alloc]int // order of allocation on the path
	nlive  int
	old    *State // state at entry of this (inlined) function
	params map[string]Val
	alias  map[string]string // names of parameters in the specification
	con    *Contract
	parent *Frame // the caller, for inlined functions
}

type loopCtx struct {
	hdr   *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	cands []*invCand
	quiet bool
	frLen int
	outer bool
	iter  int // ghost cell: the number of completed iterations
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.regs = make(map[ssa.Value]Val, len(fr.regs)+8)
	for k, v := range fr.regs {
		n.regs[k] = v
	}
	n.live = make(map[*ssa.Alloc]int, len(fr.live))
	for k, v := range fr.live {
		n.live[k] = v
	}
	n.defers = append([]*ssa.Defer{}, fr.defers...)
	n.defArg = append([][]Val{}, fr.defArg...)
	n.loops = append([]*loopCtx{}, fr.loops...)
	return &n
}

type Outcome struct {
	st   *State
	vals []Val
}

type recorder struct {
	cells  map[int]bool
	heaps  map[string]*heapRec
	allocs bool
	epoch  bool
	emits  bool
	calls  map[string]bool
}

type heapRec struct {
	refs  map[*Term]bool
	whole bool
}

func newRecorder() *recorder {
	return &recorder{calls: map[string]bool{}, cells: map[int]bool{}, heaps: map[string]*heapRec{}}
}

func (x *Exec) recCell(id int) {
	for _, r := range x.recs {
		r.cells[id] = true
	}
}

func (x *Exec) recHeap(heap string, ref *Term) {
	for _, r := range x.recs {
		h := r.heaps[heap]
		if h == nil {
			h = &heapRec{refs: map[*Term]bool{}}
			r.heaps[heap] = h
		}
		if ref == nil {
			h.whole = true
		} else {
			h.refs[ref] = true
		}
	}
}

func (x *Exec) heapWrite(st *State, heap string, ref *Term) { x.heapWriteR(st, heap, ref, nil, nil) }

// heapWriteR is called before each write; lo/hi delimit the elements written (half open).
func (x *Exec) heapWriteR(st *State, heap string, ref, lo, hi *Term) {
	x.recHeap(heap, ref)
	if x.quiet > 0 || x.modAll || st.dead() {
		return
	}
	c := x.c
	if ref != nil && ref.alloc > 0 {
		return
	}
	var ds []*Term
	for _, m := range x.mods {
		if m.heap != heap {
			continue
		}
		if m.ref == nil {
			return
		}
		if ref == nil {
			continue
		}
		d := c.eq(m.ref, ref)
		if m.lo != nil {
			if lo == nil {
				continue
			}
			d = c.and(d, c.le(m.lo, lo), c.le(hi, m.hi))
		}
		ds = append(ds, d)
	}
	if ref != nil {
		ds = append(ds, c.ge(ref, x.entryNext))
		if lo != nil {
			ds = append(ds, c.ge(lo, hi))
		}
	}
	x.oblige(st, "frame", heap, c.or(ds...), x.curPos)
}

func (x *Exec) ghostWrite(st *State, name string) {
	x.recHeap("$log", nil)
	x.recHeap("$nlog", nil)
	if x.quiet > 0 || x.modAll || st.dead() {
		return
	}
	for _, m := range x.mods {
		if m.heap == "$log" {
			return
		}
	}
	x.oblige(st, "frame", "events", x.c.bool(false), x.curPos)
}

func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos string) *Obl {
	if x.quiet > 0 || st.dead() {
		return nil
	}
	if st.facts[goal] {
		goal = x.c.bool(true)
	}
	o := &Obl{fn: x.contract.key, kind: kind, label: label, pos: pos, goal: goal, x: x}
	if goal.isTrue() {
		o.status = "trivial"
	} else {
		o.assum = st.assumptions()
	}
	x.obls = append(x.obls, o)
	return o
}

// must: an obligation which holds afterwards.
func (x *Exec) must(st *State, kind, label string, goal *Term, pos string) {
	if goal.isTrue() {
		if x.quiet == 0 {
			x.oblige(st, kind, label, goal, pos)
		}
		return
	}
	if kind != "requires" && x.panicsOK != nil {
		x.oblige(st, kind, label, x.c.or(goal, x.panicsOK), pos)
	} else {
		x.oblige(st, kind, label, goal, pos)
	}
	st.assume(goal)
}

// ---------------------------------------------------------------- values

func (x *Exec) tv(t *Term, typ types.Type) Val {
	if v, ok := x.fvs[t]; ok {
		return v
	}
	return &TV{t, typ}
}

// IfaceV is an interface holding a value that is not a term.
type IfaceV struct {
	v   Val
	dyn types.Type
	typ types.Type
}

func (x *Exec) term(v Val) *Term {
	c := x.c
	switch v := v.(type) {
	case *TV:
		return v.t
	case *PV:
		p := v.pl
		if p.kind == pDeref && len(p.path) == 0 {
			return p.ref
		}
		return x.opaque(v, "addr")
	case *FV:
		if len(v.binds) == 0 {
			t := c.namedConst("fn."+v.fn.String(), "Int")
			if x.fvs[t] == nil {
				x.fvs[t] = v
				t.seqSet = true
				t.facts = []*Term{c.lt(t, c.int(0))}
			}
			return t
		}
		return x.opaque(v, "closure")
	case *IfaceV:
		return c.mk("mkiface", c.typeTag(v.dyn), x.term(v.v))
	case *SeqV:
		panic(unsupported("sequence used as a value"))
	}
	panic(unsupported(fmt.Sprintf("no term for %T", v)))
}

func (x *Exec) opaque(v Val, base string) *Term {
	for t, o := range x.fvs {
		if o == v {
			return t
		}
	}
	t := x.c.constant(base, "Int")
	t.seqSet = true
	t.facts = []*Term{x.c.lt(t, x.c.int(0))}
	if fv, ok := v.(*FV); ok {
		// closures of different functions are different
		for o, u := range x.fvs {
			if g, ok := u.(*FV); ok && g.fn != fv.fn {
				t.facts = append(t.facts, x.c.not(x.c.app("=", "Bool", t, o)))
			}
		}
	}
	x.fvs[t] = v
	return t
}

func (x *Exec) typOf(v Val) types.Type {
	switch v := v.(type) {
	case *TV:
		return v.typ
	case *PV:
		return v.typ
	case *FV:
		return v.typ
	case *IfaceV:
		return v.typ
	}
	return nil
}

func (x *Exec) fresh(st *State, base string, t types.Type) *TV {
	c := x.c
	if tt, ok := types.Unalias(t).(*types.Tuple); ok && tt.Len() == 0 {
		return &TV{c.int(0), t}
	}
	k := c.constant(base, c.sortOf(t))
	k.seqSet = true
	k.seq = x.nalloc
	k.facts = c.typeFacts(k, t, st.next)
	if len(k.facts) == 0 {
		k.facts = nil
	}
	return &TV{k, t}
}

func (x *Exec) freshResult(st *State, base string, t types.Type) Val {
	if tt, ok := types.Unalias(t).(*types.Tuple); ok {
		var vs []Val
		for i := 0; i < tt.Len(); i++ {
			vs = append(vs, x.fresh(st, base, tt.At(i).Type()))
		}
		return &TupV{vs}
	}
	return x.fresh(st, base, t)
}

func (x *Exec) newCell(st *State, t types.Type, v Val) int {
	x.ncell++
	x.cellTyp[x.ncell] = t
	st.cells[x.ncell] = v
	return x.ncell
}

// place gives the place a pointer value points to (checking it is not nil).
func (x *Exec) place(st *State, v Val, elem types.Type, pos string) *Place {
	c := x.c
	switch v := v.(type) {
	case *PV:
		return v.pl
	case *TV:
		if o, ok := x.fvs[v.t]; ok {
			if pv, ok := o.(*PV); ok {
				return pv.pl
			}
		}
		x.must(st, "nil-deref", "", c.not(c.eq(v.t, c.int(0))), pos)
		return x.derefPlace(v.t, elem)
	}
	panic(unsupported(fmt.Sprintf("dereference of %T", v)))
}

func (x *Exec) derefPlace(ref *Term, elem types.Type) *Place {
	if structOf(elem) != nil && !isTimeTime(elem) {
		return &Place{kind: pDeref, ref: ref, root: elem, typ: elem}
	}
	if a, ok := under(elem).(*types.Array); ok {
		return &Place{kind: pArr, heap: x.elemHeap(a.Elem()), ref: ref, root: elem, typ: elem}
	}
	return &Place{kind: pDeref, heap: x.derefHeap(elem), ref: ref, root: elem, typ: elem}
}

func (x *Exec) fieldPlace(p *Place, styp types.Type, i int) *Place {
	ft := structOf(styp).Field(i).Type()
	if p.kind == pDeref && len(p.path) == 0 && structOf(p.root) != nil {
		return &Place{kind: pField, heap: x.fieldHeap(styp, i), ref: p.ref, root: ft, typ: ft}
	}
	return p.with(pstep{styp: styp, field: i}, ft)
}

func (x *Exec) addrVal(p *Place) Val {
	if p.kind == pDeref && len(p.path) == 0 {
		return &TV{p.ref, types.NewPointer(p.typ)}
	}
	return &PV{p, types.NewPointer(p.typ)}
}

// ---------------------------------------------------------------- constants

func (x *Exec) constVal(k *ssa.Const) Val {
	c := x.c
	if k.Value == nil {
		return &TV{c.zero(k.Type()), k.Type()}
	}
	return &TV{x.constTerm(k.Value, k.Type()), k.Type()}
}

func (x *Exec) constTerm(v constant.Value, t types.Type) *Term {
	c := x.c
	if isComplex(t) {
		return c.mk("mkcplx", c.real(ratOf(constant.Real(v))), c.real(ratOf(constant.Imag(v))))
	}
	switch v.Kind() {
	case constant.Bool:
		return c.bool(constant.BoolVal(v))
	case constant.String:
		return c.str(constant.StringVal(v))
	case constant.Int:
		if isFloat(t) {
			return c.real(ratOf(v))
		}
		r := ratOf(v)
		return c.bigint(r.Num())
	case constant.Float:
		if isInt(t) {
			r := ratOf(v)
			return c.bigint(new(big.Int).Quo(r.Num(), r.Denom()))
		}
		return c.real(decimal(v, t))
	}
	panic(unsupported("constant " + v.String()))
}

// decimal: the mathematical number a floating point constant stands for is the shortest
// decimal that rounds to it, so that 0.1 is one tenth in code and specification alike.
func decimal(v constant.Value, t types.Type) *big.Rat {
	bits := 64
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Float32 {
		bits = 32
	}
	f, _ := constant.Float64Val(constant.ToFloat(v))
	if math.IsInf(f, 0) {
		return ratOf(v)
	}
	r := new(big.Rat)
	if _, ok := r.SetString(strconv.FormatFloat(f, 'g', -1, bits)); ok {
		return r
	}
	return ratOf(v)
}

func isComplex(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

func ratOf(v constant.Value) *big.Rat {
	v = constant.ToFloat(v)
	n, d := constant.Num(v), constant.Denom(v)
	if n.Kind() == constant.Int && d.Kind() == constant.Int {
		nb, _ := new(big.Int).SetString(n.ExactString(), 10)
		db, _ := new(big.Int).SetString(d.ExactString(), 10)
		if nb != nil && db != nil && db.Sign() != 0 {
			return new(big.Rat).SetFrac(nb, db)
		}
	}
	r := new(big.Rat)
	if _, ok := r.SetString(v.ExactString()); ok {
		return r
	}
	f, _ := constant.Float64Val(v)
	r.SetFloat64(f)
	return r
}

// ---------------------------------------------------------------- running

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FV{fn: v, typ: v.Signature}
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsupported("no value for " + v.Name() + " in " + fr.fn.String()))
	}
	return r
}

func (x *Exec) t(fr *Frame, v ssa.Value) *Term { return x.term(x.val(fr, v)) }

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
}

const maxSteps = 400000

func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, idx int, st *State) []Outcome {
	for i := idx; i < len(b.Instrs); i++ {
		if st.dead() {
			return nil
		}
		x.steps++
		if x.steps > maxSteps {
			panic(unsupported("too many paths"))
		}
		ins := b.Instrs[i]
		if p := ins.Pos(); p.IsValid() {
			x.curPosP = p
			x.curPos = x.posOf(p)
		}
		switch ins := ins.(type) {
		case *ssa.Jump:
			return x.goTo(fr, b, b.Succs[0], st)
		case *ssa.If:
			cond := x.t(fr, ins.Cond)
			return x.branch(fr, b, cond, st)
		case *ssa.Return:
			var vs []Val
			for _, r := range ins.Results {
				vs = append(vs, x.val(fr, r))
			}
			return []Outcome{{st, vs}}
		case *ssa.Panic:
			x.must(st, "panic", "explicit panic unreachable", x.c.bool(false), x.curPos)
			return nil
		case *ssa.RunDefers:
			outs := x.runDefers(fr, st)
			return x.forkFrom(fr, b, i+1, outs, nil)
		case *ssa.Call:
			outs := x.call(fr, ins, &ins.Call, st)
			if len(outs) == 1 && outs[0].st == st {
				x.bindResult(fr, ins, outs[0].vals)
				continue
			}
			return x.forkFrom(fr, b, i+1, outs, ins)
		case *ssa.Send:
			outs := x.sendOuts(fr, st, x.val(fr, ins.Chan), x.val(fr, ins.X), ins.X.Type())
			if len(outs) == 1 && outs[0].st == st {
				continue
			}
			return x.forkFrom(fr, b, i+1, outs, nil)
		case *ssa.Select:
			outs := x.doSelect(fr, ins, st)
			return x.forkFrom(fr, b, i+1, outs, ins)
		case *ssa.Next:
			outs := x.doNext(fr, ins, st)
			return x.forkFrom(fr, b, i+1, outs, ins)
		case *ssa.TypeAssert:
			outs := x.typeAssert(fr, ins, st)
			return x.forkFrom(fr, b, i+1, outs, ins)
		case *ssa.UnOp:
			if ins.Op == token.ARROW {
				outs := x.recv(fr, ins, st)
				return x.forkFrom(fr, b, i+1, outs, ins)
			}
			fr.regs[ins] = x.unop(fr, ins, st)
		case *ssa.Lookup:
			fr.regs[ins] = x.lookup(fr, ins, st)
		default:
			x.simple(fr, ins, st)
		}
	}
	panic(unsupported("block without terminator"))
}

func (x *Exec) bindResult(fr *Frame, ins ssa.Value, vals []Val) {
	if ins == nil {
		return
	}
	tt, isTup := ins.Type().(*types.Tuple)
	if isTup {
		if tt.Len() == len(vals) {
			fr.regs[ins] = &TupV{vals}
		}
		return
	}
	if len(vals) == 1 {
		fr.regs[ins] = vals[0]
	} else {
		panic(unsupported(fmt.Sprintf("result count %d for %s", len(vals), ins)))
	}
}

func (x *Exec) forkFrom(fr *Frame, b *ssa.BasicBlock, i int, outs []Outcome, ins ssa.Value) []Outcome {
	var res []Outcome
	for k, o := range outs {
		if o.st.dead() {
			continue
		}
		f := fr
		if k < len(outs)-1 {
			f = fr.clone()
		}
		x.bindResult(f, ins, o.vals)
		res = append(res, x.run(f, b, i, o.st)...)
	}
	return res
}

func (x *Exec) branch(fr *Frame, b *ssa.BasicBlock, cond *Term, st *State) []Outcome {
	c := x.c
	nc := c.not(cond)
	if cond.isTrue() || st.facts[cond] {
		return x.goTo(fr, b, b.Succs[0], st)
	}
	if cond.isFalse() || st.facts[nc] {
		return x.goTo(fr, b, b.Succs[1], st)
	}
	st2 := st.clone()
	fr2 := fr.clone()
	st.assume(cond)
	st2.assume(nc)
	res := x.goTo(fr, b, b.Succs[0], st)
	return append(res, x.goTo(fr2, b, b.Succs[1], st2)...)
}

func (x *Exec) goTo(fr *Frame, from, to *ssa.BasicBlock, st *State) []Outcome {
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var ph []pv
	n := 0
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, pv{p, x.val(fr, p.Edges[pi])})
		n++
	}
	for _, p := range ph {
		fr.regs[p.p] = p.v
	}
	// leaving loops, back edges
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if to == top.hdr {
			if !top.quiet {
				if v, ok := st.cells[top.iter].(*TV); ok {
					st.cells[top.iter] = &TV{x.c.add(v.t, x.c.int(1)), tInt}
				}
				x.checkSteps(fr, top, st)
				x.checkInv(fr, top, st, "preserved")
			}
			return nil
		}
		if top.body[to] {
			break
		}
		if top.quiet {
			return nil
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if lp := x.w.loopsOf(fr.fn)[to]; lp != nil {
		if n > 0 {
			panic(unsupported("phi in a loop header"))
		}
		return x.procLoop(fr, to, lp, st)
	}
	return x.run(fr, to, n, st)
}

// ---------------------------------------------------------------- loops

type invCand struct {
	key   string
	label string
	eval  func(fr *Frame, st *State) *Term
}

func (x *Exec) procLoop(fr *Frame, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State) []Outcome {
	mod := newRecorder()
	counter := x.newCell(st, tInt, &TV{x.c.int(0), tInt})
	havocCounter := func(h *State) {
		n := x.c.constant("iterations", "Int")
		n.facts = append(n.facts, x.c.ge(n, x.c.int(0)))
		h.cells[counter] = &TV{n, tInt}
	}
	preAlloc := x.nalloc
	for iter := 0; ; iter++ {
		if iter > 12 {
			panic(unsupported("loop modification analysis does not converge"))
		}
		h, mark := x.havocLoop(st, mod, preAlloc)
		havocCounter(h)
		f2 := fr.clone()
		lc := &loopCtx{hdr: hdr, body: body, quiet: true, iter: counter, outer: outermost(fr)}
		if lc.outer {
			h.iter = nil
		}
		f2.loops = append(f2.loops, lc)
		cands := x.loopCands(f2, hdr, body, st, h, mod, counter)
		x.assumeCands(f2, cands, h)
		if lc.outer {
			h.iter = h.clone()
			h.iter.iter = h.iter
		}
		rec := newRecorder()
		x.recs = append(x.recs, rec)
		x.quiet++
		x.run(f2, hdr, 0, h)
		x.quiet--
		x.recs = x.recs[:len(x.recs)-1]
		if !mod.merge(rec, st, mark, preAlloc) {
			break
		}
	}
	// The writes of the loop are also writes of the enclosing recorders: already notified during discovery.
	h, _ := x.havocLoop(st, mod, preAlloc)
	havocCounter(h)
	f2 := fr.clone()
	lc := &loopCtx{hdr: hdr, body: body, iter: counter, outer: outermost(fr)}
	if lc.outer {
		h.iter = nil
	}
	f2.loops = append(f2.loops, lc)
	lc.cands = x.loopCands(f2, hdr, body, st, h, mod, counter)
	fr.loops = append(fr.loops, lc)
	x.checkInv(fr, lc, st, "established")
	fr.loops = fr.loops[:len(fr.loops)-1]
	x.assumeCands(f2, lc.cands, h)
	if lc.outer {
		h.iter = h.clone()
		h.iter.iter = h.iter
	}
	return x.run(f2, hdr, 0, h)
}

func outermost(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if len(f.loops) > 0 {
			return false
		}
	}
	return true
}

// checkSteps: what holds between the start and the end of each iteration of the outermost loop.
func (x *Exec) checkSteps(fr *Frame, lc *loopCtx, st *State) {
	if x.quiet > 0 || !lc.outer || x.contract == nil {
		return
	}
	for i, cl := range x.contract.get("step") {
		if !cl.forProp(x.prop) {
			continue
		}
		x.oncallHit[fmt.Sprint("step ", i)] = true
		env := x.loopEnv(fr, x.rootFrame(fr), st)
		env.old = x.entry
		lab := cl.label
		if lab == "" {
			lab = cl.text
		}
		x.oblige(st, "step", lab, x.evalBool(cl.expr, env), x.curPos)
	}
}

// merge adds what a pass over the body modified; it reports whether anything was new.
func (m *recorder) merge(r *recorder, pre *State, mark int, preAlloc int) bool {
	ch := false
	for n := range r.calls {
		m.calls[n] = true
	}
	for id := range r.cells {
		if _, ok := pre.cells[id]; ok && !m.cells[id] {
			m.cells[id] = true
			ch = true
		}
	}
	for h, hr := range r.heaps {
		o := m.heaps[h]
		if o == nil {
			o = &heapRec{refs: map[*Term]bool{}}
			m.heaps[h] = o
			ch = true
		}
		if o.whole {
			continue
		}
		if hr.whole {
			o.whole = true
			ch = true
			continue
		}
		for ref := range hr.refs {
			if o.refs[ref] {
				continue
			}
			if !invariantTerm(ref, mark) && !(ref.alloc > preAlloc) {
				o.whole = true
				ch = true
				break
			}
			o.refs[ref] = true
			// a reference allocated inside the loop is marked by nil
			if ref.alloc > preAlloc {
				delete(o.refs, ref)
				if !o.refs[nil] {
					o.refs[nil] = true
					ch = true
				}
				continue
			}
			ch = true
		}
	}
	if r.epoch && !m.epoch {
		m.epoch = true
		ch = true
	}
	return ch
}

func invariantTerm(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.kind == kConst && t.id > mark {
			return false
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

// havocLoop gives an arbitrary state at the loop header: everything the body may modify is unknown.
func (x *Exec) havocLoop(st *State, mod *recorder, preAlloc int) (*State, int) {
	mark := x.c.nterms
	c := x.c
	h := st.clone()
	preNext := h.next
	h.advanceNext()
	h.chans, h.posted, h.drained = nil, nil, nil
	var calls []string
	for n := range mod.calls {
		h.last[n] = nil
		for k := range h.guess {
			if strings.HasPrefix(k, n+"#") {
				delete(h.guess, k)
			}
		}
		calls = append(calls, n)
	}
	sort.Strings(calls)
	for _, n := range calls {
		old := h.counts[n]
		if old == nil {
			old = c.int(0)
		}
		if h.counts == nil {
			h.counts = map[string]*Term{}
		}
		t := c.constant("calls", "Int")
		t.facts = append(t.facts, c.ge(t, old))
		h.counts[n] = t
	}
	if mod.epoch {
		x.newEpoch(h)
	}
	var hs []string
	ghost := false
	for n := range mod.heaps {
		hs = append(hs, n)
	}
	sort.Strings(hs)
	for _, n := range hs {
		hr := mod.heaps[n]
		if mod.epoch && n[0] != '$' {
			continue
		}
		if n == "$nrecv" || strings.HasPrefix(n, "$recv.") {
			// what was received: only of the channels the body receives from
			if hr.whole || hr.refs[nil] {
				h.freshHeap(n)
				continue
			}
		} else if n[0] == '$' {
			ghost = true
			continue
		}
		old := h.heap(n)
		if hr.whole || hr.refs[nil] {
			nv := h.freshHeap(n)
			r := c.bound("r", "Int")
			sel := func(a *Term) *Term {
				_, vs := arraySorts(a.sort)
				return c.app("select", vs, a, r)
			}
			var conds []*Term
			if !hr.whole {
				conds = append(conds, c.lt(r, preNext))
				for ref := range hr.refs {
					if ref != nil {
						conds = append(conds, c.not(c.app("=", "Bool", r, ref)))
					}
				}
				nv.facts = append(nv.facts, c.forall([]*Term{r}, [][]*Term{{sel(nv)}}, c.implies(c.and(conds...), c.app("=", "Bool", sel(nv), sel(old)))))
			} else if !x.modAll {
				// the frame of the function under verification
				conds = append(conds, c.lt(r, x.entryNext))
				any := false
				for _, m := range x.mods {
					if m.heap == n {
						if m.ref == nil {
							any = true
						} else {
							conds = append(conds, c.not(c.app("=", "Bool", r, m.ref)))
						}
					}
				}
				if !any {
					nv.facts = append(nv.facts, c.forall([]*Term{r}, [][]*Term{{sel(nv)}}, c.implies(c.and(conds...), c.app("=", "Bool", sel(nv), sel(old)))))
				}
			}
			continue
		}
		var refs []*Term
		for ref := range hr.refs {
			refs = append(refs, ref)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, ref := range refs {
			h.setHeap(n, c.store(h.heap(n), ref, h.freshContent(n)))
		}
	}
	if ghost || mod.epoch {
		x.havocLog(h)
	}
	var ids []int
	for id := range mod.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		old := h.cells[id]
		if old == nil {
			continue
		}
		t := x.cellTyp[id]
		if t == nil {
			t = x.typOf(old)
		}
		if ot, ok := old.(*TV); ok && t == nil {
			// spec state (visited set)
			k := c.constant("visited", ot.t.sort)
			h.cells[id] = &TV{k, nil}
			continue
		}
		if t == nil {
			panic(unsupported("loop modifies an iterator"))
		}
		h.cells[id] = x.fresh(h, "lv", t)
	}
	return h, mark
}

func (x *Exec) havocLog(h *State) {
	c := x.c
	on, ol := h.heap("$nlog"), h.heap("$log")
	nn := c.constant("nlog", "Int")
	nl := c.constant("log", arraySort("Int", "Event"))
	i := c.bound("i", "Int")
	s := c.app("select", "Event", nl, i)
	nl.facts = []*Term{c.forall([]*Term{i}, [][]*Term{{s}}, c.implies(c.and(c.le(c.int(0), i), c.lt(i, on)), c.app("=", "Bool", s, c.sel(ol, i))))}
	nn.facts = []*Term{c.ge(nn, on)}
	h.heaps["$nlog"], h.heaps["$log"] = nn, nl
	oc := h.heap("$closed")
	nc := c.constant("closed", oc.sort)
	s = c.app("select", "Bool", nc, i)
	nc.facts = []*Term{c.forall([]*Term{i}, [][]*Term{{s}, {c.app("select", "Bool", oc, i)}}, c.implies(c.app("select", "Bool", oc, i), s))}
	h.heaps["$closed"] = nc
	// what was sent over a channel stays sent
	os := h.heap("$nsent")
	ns := c.constant("nsent", os.sort)
	s = c.app("select", "Int", ns, i)
	ns.facts = []*Term{c.forall([]*Term{i}, [][]*Term{{s}}, c.le(c.sel(os, i), s))}
	h.heaps["$nsent"] = ns
	for _, n := range x.sentHeaps {
		ot := h.heap(n)
		nt := c.constant("sent", ot.sort)
		_, as := arraySorts(ot.sort)
		_, es := arraySorts(as)
		k := c.bound("k", "Int")
		s := c.app("select", es, c.app("select", as, nt, i), k)
		nt.facts = []*Term{c.forall([]*Term{i, k}, [][]*Term{{s}}, c.implies(c.lt(k, c.sel(os, i)), c.app("=", "Bool", s, c.app("select", es, c.app("select", as, ot, i), k))))}
		h.heaps[n] = nt
	}
	h.heaps["$written"] = c.constant("written", h.heap("$written").sort)
}

func (x *Exec) newEpoch(st *State) {
	nl, l, cl := st.heap("$nlog"), st.heap("$log"), st.heap("$closed")
	imm := map[string]*Term{}
	for n, v := range st.heaps {
		if x.immutableHeap(n) {
			imm[n] = v
		}
	}
	x.epochSeq = append(x.epochSeq, x.nalloc)
	st.advanceNext()
	x.epochNext = append(x.epochNext, st.next)
	st.epoch = len(x.epochSeq) - 1
	st.heaps = imm
	st.heaps["$nlog"], st.heaps["$log"], st.heaps["$closed"] = nl, l, cl
	for _, r := range x.recs {
		r.epoch = true
	}
}

func (x *Exec) immutableHeap(n string) bool { return false }

func (x *Exec) assumeCands(fr *Frame, cands []*invCand, h *State) {
	for _, cd := range cands {
		if x.drop[cd.key] {
			continue
		}
		if t := x.safeEval(cd, fr, h); t != nil {
			h.assume(t)
		}
	}
}

func (x *Exec) safeEval(cd *invCand, fr *Frame, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return cd.eval(fr, st)
}

func (x *Exec) checkInv(fr *Frame, lc *loopCtx, st *State, what string) {
	if x.quiet > 0 {
		return
	}
	for _, cd := range lc.cands {
		if x.drop[cd.key] {
			continue
		}
		t := x.safeEval(cd, fr, st)
		if t == nil {
			t = x.c.bool(false)
		}
		if o := x.oblige(st, "invariant-"+what, cd.label, t, x.curPos); o != nil {
			o.invKey = cd.key
			x.usedInv[cd.key] = true
			if !strings.Contains(cd.key, "|auto") {
				// the later ones may use it: where it fails it is dropped, and all are checked again
				st.assume(t)
			}
		}
	}
}

// loopCands: the candidate invariants of a loop.
func (x *Exec) loopCands(fr *Frame, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, pre, h *State, mod *recorder, counter int) []*invCand {
	c := x.c
	var out []*invCand
	ord := x.w.loopOrd(fr.fn, hdr)
	base := fmt.Sprintf("%s%s#%d", fr.path, x.w.keyOf(fr.fn), ord)
	// cells by name
	type nc struct {
		a  *ssa.Alloc
		id int
	}
	var ints []nc
	var ri *nc
	var allocs []*ssa.Alloc
	for a := range fr.live {
		allocs = append(allocs, a)
	}
	sort.Slice(allocs, func(i, j int) bool { return fr.live[allocs[i]] < fr.live[allocs[j]] })
	for _, a := range allocs {
		pv, ok := fr.regs[a].(*PV)
		if !ok || pv.pl.kind != pCell {
			continue
		}
		id := pv.pl.cell
		if _, ok := pre.cells[id]; !ok || !mod.cells[id] {
			continue
		}
		if t := x.cellTyp[id]; t != nil && isInt(t) {
			n := nc{a, id}
			ints = append(ints, n)
		}
	}
	// the range index of this very header
	for _, ins := range hdr.Instrs {
		if s, ok := ins.(*ssa.Store); ok {
			if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				if pv, ok := fr.regs[a].(*PV); ok {
					ri = &nc{a, pv.pl.cell}
				}
			}
		}
	}
	cellTerm := func(id int) func(st *State) *Term {
		return func(st *State) *Term {
			v, ok := st.cells[id].(*TV)
			if !ok {
				panic(unsupported("cell"))
			}
			return v.t
		}
	}
	add := func(key, label string, f func(fr *Frame, st *State) *Term) {
		out = append(out, &invCand{base + "|" + key, label, f})
	}
	for k, n := range ints {
		ct := cellTerm(n.id)
		init, ok := pre.cells[n.id].(*TV)
		if !ok {
			continue
		}
		it := init.t
		add(fmt.Sprintf("auto>=%s%d", n.a.Comment, k), "auto "+n.a.Comment+" >= initial", func(fr *Frame, st *State) *Term { return c.ge(ct(st), it) })
		if n.a.Comment != "rangeindex" {
			add(fmt.Sprintf("auto<=%s%d", n.a.Comment, k), "auto "+n.a.Comment+" <= initial", func(fr *Frame, st *State) *Term { return c.le(ct(st), it) })
		}
	}
	// header condition  X < Y  gives the candidate X <= Y
	if iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && isInt(bo.X.Type()) {
			simple := true
			for _, ins := range hdr.Instrs {
				switch i := ins.(type) {
				case *ssa.Call:
					if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
						simple = false
					}
				case *ssa.Next, *ssa.Select, *ssa.Lookup, *ssa.TypeAssert:
					simple = false
				}
			}
			if simple {
				headVals := func(fr *Frame, st *State) (*Term, *Term) {
					f := fr.clone()
					s := st.clone()
					x.quiet++
					defer func() { x.quiet-- }()
					for _, ins := range hdr.Instrs {
						if st, ok := ins.(*ssa.Store); ok {
							if a, ok := st.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
								continue
							}
						}
						if _, ok := ins.(*ssa.If); ok {
							break
						}
						switch i := ins.(type) {
						case *ssa.UnOp:
							if i.Op == token.ARROW {
								panic(unsupported("recv"))
							}
							f.regs[i] = x.unop(f, i, s)
						case *ssa.Call:
							outs := x.call(f, i, &i.Call, s)
							if len(outs) != 1 {
								panic(unsupported("fork"))
							}
							x.bindResult(f, i, outs[0].vals)
							s = outs[0].st
						case *ssa.Jump, *ssa.DebugRef:
						default:
							x.simple(f, ins, s)
						}
					}
					return x.t(f, bo.X), x.t(f, bo.Y)
				}
				switch bo.Op {
				case token.LSS, token.NEQ, token.LEQ, token.GTR, token.GEQ:
					op := bo.Op
					add("auto-cond", "auto loop bound", func(fr *Frame, st *State) *Term {
						a, b := headVals(fr, st)
						switch op {
						case token.LSS, token.NEQ:
							return c.le(a, b)
						case token.LEQ:
							return c.le(a, c.add(b, c.int(1)))
						case token.GTR:
							return c.ge(a, b)
						default:
							return c.ge(a, c.sub(b, c.int(1)))
						}
					})
				}
			}
		}
	}
	// pointers and slices that were nil, new, or what they were before the loop
	for _, a := range allocs {
		pv, ok := fr.regs[a].(*PV)
		if !ok || pv.pl.kind != pCell || !mod.cells[pv.pl.cell] {
			continue
		}
		id := pv.pl.cell
		iv, ok := pre.cells[id].(*TV)
		if !ok {
			continue
		}
		ct, it := cellTerm(id), iv.t
		switch under(x.cellTyp[id]).(type) {
		case *types.Pointer:
			add(fmt.Sprintf("auto-new-%s%d", a.Comment, fr.live[a]), "auto "+a.Comment+" is nil or new", func(fr *Frame, st *State) *Term {
				return c.or(c.eq(ct(st), c.int(0)), c.ge(ct(st), x.entryNext))
			})
		case *types.Slice:
			add(fmt.Sprintf("auto-new-%s%d", a.Comment, fr.live[a]), "auto "+a.Comment+" is within its initial memory or new", func(fr *Frame, st *State) *Term {
				t := ct(st)
				return c.or(c.ge(c.sref(t), x.entryNext), c.and(c.eq(c.sref(t), c.sref(it)), c.ge(c.soff(t), c.soff(it)), c.le(c.add(c.soff(t), c.scap(t)), c.add(c.soff(it), c.scap(it)))))
			})
		}
	}
	// declared invariants: those of this function and of the functions it is inlined into
	level := 0
	seenCon := map[*Contract]bool{}
	for owner := fr; owner != nil; owner, level = owner.parent, level+1 {
		con := owner.con
		if con == nil || seenCon[con] {
			continue
		}
		seenCon[con] = true
		level := level
		for ci, cl := range con.get("invariant") {
			if !cl.forProp(x.prop) {
				continue
			}
			cl := cl
			if cl.callee != "" && !loopCalls(cl.callee, mod, fr) {
				continue
			}
			uses := exprNames(cl.expr)
			var binds []*nc
			var text *ssa.Next // a loop over the characters of a text
			for _, ins := range hdr.Instrs {
				if n, ok := ins.(*ssa.Next); ok && n.IsString && uses["$i"] {
					text = n
				}
			}
			if text != nil {
				binds = []*nc{nil}
			} else if uses["$i"] {
				if ri != nil {
					binds = append(binds, ri)
				} else {
					for i := range ints {
						binds = append(binds, &ints[i])
					}
				}
			} else {
				binds = []*nc{nil}
			}
			for bi, b := range binds {
				b := b
				ev := func(fr *Frame, st *State) *Term {
					o := fr
					for k := 0; k < level; k++ {
						o = o.parent
					}
					env := x.loopEnv(fr, o, st)
					if uses["$n"] {
						env.vars["$n"] = &TV{cellTerm(counter)(st), tInt}
					}
					if text != nil {
						if it, ok := fr.regs[text.Iter].(*IterV); ok {
							env.vars["$i"] = &TV{st.cells[it.cell].(*TV).t, types.Typ[types.Int]}
						}
					}
					if b != nil {
						v := cellTerm(b.id)(st)
						if b.a.Comment == "rangeindex" {
							v = c.add(v, c.int(1))
						}
						env.vars["$i"] = &TV{v, types.Typ[types.Int]}
					}
					return x.evalBool(cl.expr, env)
				}
				// resolvable at the header?
				cd := &invCand{fmt.Sprintf("%s|%s.%d.%d", base, con.key, ci, bi), cl.text, ev}
				if cl.label != "" {
					cd.label = cl.label
				}
				if x.safeEval(cd, fr, h) != nil {
					out = append(out, cd)
					x.matchedInv[fmt.Sprintf("%s.%d", con.key, ci)] = true
				} else if x.wild {
					out = append(out, x.wildCands(fr, level, cl, cd, b != nil, func() *Term { return c.add(cellTerm(b.id)(h), c.int(1)) }, h)...)
				}
			}
		}
	}
	return out
}

func loopCalls(f string, mod *recorder, fr *Frame) bool {
	if outer := len(fr.loops) <= 1 && outermostBut(fr); outer || f == "outer" {
		return outer && f == "outer"
	}
	if f == "-" {
		return len(mod.calls) == 0
	}
	for n := range mod.calls {
		if n == f || strings.HasSuffix(n, "."+f) {
			return true
		}
	}
	return false
}

// outermostBut: no loop around the innermost one
func outermostBut(fr *Frame) bool {
	n := 0
	for f := fr; f != nil; f = f.parent {
		n += len(f.loops)
	}
	return n <= 1
}

// wildCands tries other variables for the names an invariant uses that do not exist (any more).
func (x *Exec) wildCands(fr *Frame, level int, cl *Clause, cd *invCand, hasI bool, _ func() *Term, h *State) []*invCand {
	owner := fr
	for k := 0; k < level; k++ {
		owner = owner.parent
	}
	env := x.loopEnv(fr, owner, h)
	un := map[string]bool{}
	var rec func(e *Expr, bound map[string]bool)
	rec = func(e *Expr, bound map[string]bool) {
		if e == nil {
			return
		}
		b := bound
		if e.kind == "quant" || e.kind == "let" {
			b = map[string]bool{}
			for k := range bound {
				b[k] = true
			}
			for _, v := range e.vars {
				b[v.name] = true
			}
			b[e.name] = true
		}
		if e.kind == "name" && !b[e.name] && e.name != "$i" && e.name != "$n" {
			if _, ok := x.name(env, e.name); !ok {
				un[e.name] = true
			}
		}
		for _, a := range e.args {
			rec(a, b)
		}
	}
	rec(cl.expr, map[string]bool{})
	if len(un) == 0 || len(un) > 2 {
		return nil
	}
	var names []string
	for n := range un {
		names = append(names, n)
	}
	sort.Strings(names)
	type choice struct {
		label string
		a     *ssa.Alloc
		plus  int64
	}
	var choices []choice
	level2 := 0
	for f := fr; f != nil; f = f.parent {
		var as []*ssa.Alloc
		for a := range f.live {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return f.live[as[i]] < f.live[as[j]] })
		for _, a := range as {
			if a.Comment == "" {
				continue
			}
			if a.Comment == "rangeindex" {
				choices = append(choices, choice{fmt.Sprintf("%d.ri%d+1", level2, f.live[a]), a, 1})
			}
			choices = append(choices, choice{fmt.Sprintf("%d.%s%d", level2, a.Comment, f.live[a]), a, 0})
		}
		level2++
		if f == owner {
			break
		}
	}
	value := func(fr *Frame, st *State, ch choice) (Val, bool) {
		for f := fr; f != nil; f = f.parent {
			if _, ok := f.live[ch.a]; !ok {
				continue
			}
			var v Val
			switch r := f.regs[ch.a].(type) {
			case *PV:
				if r.pl.kind == pCell {
					if _, live := st.cells[r.pl.cell]; !live {
						return nil, false
					}
				}
				v = st.load(r.pl)
			case *TV:
				v = st.load(x.derefPlace(r.t, ptrElem(ch.a.Type())))
			}
			if ch.plus != 0 {
				tv, ok := v.(*TV)
				if !ok {
					return nil, false
				}
				v = &TV{x.c.add(tv.t, x.c.int(ch.plus)), tv.typ}
			}
			return v, v != nil
		}
		return nil, false
	}
	var out []*invCand
	var assign func(k int, chs []choice)
	assign = func(k int, chs []choice) {
		if k < len(names) {
			for _, ch := range choices {
				assign(k+1, append(append([]choice{}, chs...), ch))
			}
			return
		}
		key := cd.key
		for i := range names {
			key += "~" + names[i] + "=" + chs[i].label
		}
		ev := func(fr *Frame, st *State) *Term {
			o := fr
			for k := 0; k < level; k++ {
				o = o.parent
			}
			save := x.wildVars
			x.wildVars = map[string]Val{}
			defer func() { x.wildVars = save }()
			for i, n := range names {
				v, ok := value(fr, st, chs[i])
				if !ok {
					panic(unsupported("no value"))
				}
				x.wildVars[n] = v
			}
			return cd.eval(fr, st)
		}
		n := &invCand{key, cd.label, ev}
		if x.safeEval(n, fr, h) != nil {
			out = append(out, n)
		}
	}
	assign(0, nil)
	if len(out) > 60 {
		out = out[:60]
	}
	return out
}

func exprNames(e *Expr) map[string]bool {
	m := map[string]bool{}
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil {
			return
		}
		if e.kind == "name" || e.kind == "call" {
			m[e.name] = true
		}
		for _, a := range e.args {
			rec(a)
		}
		for _, a := range e.trig {
			rec(a)
		}
	}
	rec(e)
	return m
}

// loopEnv: names are the variables of the function as they are at the moment; owner is the frame
// of the contract the expression belongs to (old() and the parameters refer to its entry).
func (x *Exec) loopEnv(fr, owner *Frame, st *State) *Env {
	env := &Env{x: x, st: st, old: owner.old, vars: map[string]Val{}, pkg: x.w.pkgOf(owner.fn), fn: owner.fn}
	env.lookupAt = func(st *State, name string) (Val, bool) {
		for f := fr; f != nil; f = f.parent {
			if v, ok := x.frameName(f, st, name); ok {
				return v, true
			}
			if f == owner {
				break
			}
		}
		return nil, false
	}
	env.lookup = func(name string) (Val, bool) { return env.lookupAt(st, name) }
	env.oldLookup = func(name string) (Val, bool) {
		v, ok := owner.params[name]
		return v, ok
	}
	env.visited = func() *TV {
		// the visited set of the innermost map range
		for i := len(fr.loops) - 1; i >= 0; i-- {
			for _, ins := range fr.loops[i].hdr.Instrs {
				if n, ok := ins.(*ssa.Next); ok {
					if it, ok := fr.regs[n.Iter].(*IterV); ok {
						if v, ok := st.cells[it.cell].(*TV); ok {
							return v
						}
					}
				}
			}
		}
		return nil
	}
	return env
}

// frameName finds a variable of a frame: the innermost live one of that name, a captured one, or a parameter.
func (x *Exec) frameName(fr *Frame, st *State, name string) (Val, bool) {
	var best *ssa.Alloc
	code := name
	if n, ok := fr.alias[name]; ok {
		code = n
	}
	for a, o := range fr.live {
		if a.Comment != code {
			continue
		}
		if pv, ok := fr.regs[a].(*PV); ok && pv.pl.kind == pCell {
			if _, live := st.cells[pv.pl.cell]; !live {
				continue
			}
		}
		if best == nil || fr.live[best] < o {
			best = a
		}
	}
	if best != nil {
		v := fr.regs[best]
		switch v := v.(type) {
		case *PV:
			return st.load(v.pl), true
		case *TV:
			return st.load(x.derefPlace(v.t, ptrElem(best.Type()))), true
		}
	}
	for _, fv := range fr.fn.FreeVars {
		if fv.Name() == name {
			if pv, ok := fr.regs[fv].(*PV); ok {
				return st.load(pv.pl), true
			}
			if tv, ok := fr.regs[fv].(*TV); ok {
				return st.load(x.derefPlace(tv.t, ptrElem(fv.Type()))), true
			}
		}
	}
	if v, ok := fr.params[name]; ok {
		return v, true
	}
	return nil, false
}

func (x *Exec) rootFrame(fr *Frame) *Frame {
	for fr.parent != nil {
		fr = fr.parent
	}
	return fr
}
