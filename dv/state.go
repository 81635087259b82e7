package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// TV is a value represented by an SMT term.
type TV struct {
	t   *Term
	typ types.Type
}

// PV is an address (interior pointer or address of a local variable).
type PV struct {
	pl  *Place
	typ types.Type // pointer type
}

// FV is a function value known at verification time.
type FV struct {
	fn    *ssa.Function
	binds []Val
	typ   types.Type
}

type TupV struct{ vals []Val }

// IterV is the iterator of a range over a map or a string.
type IterV struct {
	m    *TV // map or string
	cell int // state: visited set (maps) or position (strings)
	dom0 *Term
}

type placeKind int

const (
	pCell placeKind = iota
	pField
	pElem
	pDeref
	pArr
	pGlobal
)

type Place struct {
	kind placeKind
	cell int
	heap string
	ref  *Term
	idx  *Term
	root types.Type // type of the root value
	path []pstep
	typ  types.Type // type of the value at the place
}

type pstep struct {
	styp  types.Type // struct or array type
	field int        // struct field, or
	idx   *Term      // array index
}

type pcNode struct {
	parent *pcNode
	t      *Term
	n      int
}

type State struct {
	x       *Exec
	cells   map[int]Val
	heaps   map[string]*Term
	epoch   int
	next    *Term
	pc      *pcNode
	facts   map[*Term]bool
	hid     bool
	last    map[string]*lastCall // what the functions called last on this path returned; nil: unknown
	guess   map[string]Val       // what $result means as long as the function is not called in the iteration
	counts  map[string]*Term     // how often the functions were called on this path
	drained []*Term              // the channels that were found empty by the last select, and nothing was sent since
	chans   map[*Term]chanBuf    // what was sent over the channels that this function shares only with the closures it posts
	iter    *State               // the state at the start of the current iteration of the outermost loop
	posted  map[int]postedVal    // what posted closures write into local variables: known once they have synchronized
}

type postedVal struct{ unknown, val Val }

type chanBuf struct {
	vals   []Val
	synced bool // sent to or closed by a posted closure
}

type lastCall struct{ res []Val }

func (s *State) clone() *State {
	n := &State{x: s.x, cells: make(map[int]Val, len(s.cells)), heaps: make(map[string]*Term, len(s.heaps)), epoch: s.epoch, next: s.next, pc: s.pc, facts: make(map[*Term]bool, len(s.facts)), last: make(map[string]*lastCall, len(s.last)), iter: s.iter}
	for k, v := range s.last {
		n.last[k] = v
	}
	if len(s.guess) > 0 {
		n.guess = make(map[string]Val, len(s.guess))
		for k, v := range s.guess {
			n.guess[k] = v
		}
	}
	if len(s.counts) > 0 {
		n.counts = make(map[string]*Term, len(s.counts))
		for k, v := range s.counts {
			n.counts[k] = v
		}
	}
	n.drained = s.drained
	if s.chans != nil {
		n.chans = map[*Term]chanBuf{}
		for k, v := range s.chans {
			n.chans[k] = v
		}
	}
	if s.posted != nil {
		n.posted = map[int]postedVal{}
		for k, v := range s.posted {
			n.posted[k] = v
		}
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k := range s.facts {
		n.facts[k] = true
	}
	return n
}

func (s *State) assume(t *Term) {
	if t.isTrue() || s.facts[t] {
		return
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &pcNode{parent: s.pc, t: t, n: n + 1}
	s.facts[t] = true
	if t.kind == kApp && t.op == "and" {
		for _, a := range t.args {
			s.facts[a] = true
		}
	}
	if t.isFalse() {
		s.hid = true
	}
}

func (s *State) dead() bool { return s.hid }

func (s *State) assumptions() []*Term {
	var r []*Term
	for p := s.pc; p != nil; p = p.parent {
		r = append(r, p.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---------------------------------------------------------------- heaps

type heapInfo struct {
	name string
	kind string // F field, E elements, P pointee, MD map domain, MV map values, G global, X ghost
	sort string
	typ  types.Type // type of the stored value (field, element, map value)
	key  types.Type
}

func (x *Exec) heapOf(name, kind, sort string, typ, key types.Type) string {
	if _, ok := x.heapInfos[name]; !ok {
		x.heapInfos[name] = &heapInfo{name: name, kind: kind, sort: sort, typ: typ, key: key}
	}
	return name
}

func (x *Exec) fieldHeap(st types.Type, i int) string {
	f := structOf(st).Field(i)
	return x.heapOf("F."+typeKey(st)+"."+f.Name(), "F", arraySort("Int", x.c.sortOf(f.Type())), f.Type(), nil)
}

func (x *Exec) elemHeap(et types.Type) string {
	// element heaps are shared by all types with the same underlying representation name
	return x.heapOf("E."+typeKey(et), "E", arraySort("Int", arraySort("Int", x.c.sortOf(et))), et, nil)
}

func (x *Exec) derefHeap(t types.Type) string {
	return x.heapOf("P."+typeKey(t), "P", arraySort("Int", x.c.sortOf(t)), t, nil)
}

func (x *Exec) mapHeaps(t types.Type) (string, string) {
	m := under(t).(*types.Map)
	k, v := x.c.sortOf(m.Key()), x.c.sortOf(m.Elem())
	n := typeKey(m.Key()) + "=>" + typeKey(m.Elem())
	return x.heapOf("MD."+n, "MD", arraySort("Int", arraySort(k, "Bool")), types.Typ[types.Bool], m.Key()),
		x.heapOf("MV."+n, "MV", arraySort("Int", arraySort(k, v)), m.Elem(), m.Key())
}

// heapTypeFacts: the facts about a value stored for the object r; references in objects that exist are
// older than next (objects made later, by callees, may hold younger ones).
func (c *Ctx) heapTypeFacts(s *Term, t types.Type, r, next *Term) []*Term {
	fs := c.typeFacts(s, t, nil)
	if next == nil {
		return fs
	}
	had := map[*Term]bool{}
	for _, f := range fs {
		had[f] = true
	}
	var young []*Term
	for _, f := range c.typeFacts(s, t, next) {
		if !had[f] {
			young = append(young, f)
		}
	}
	if len(young) > 0 {
		fs = append(fs, c.implies(c.lt(r, next), c.and(young...)))
	}
	return fs
}

// typed facts about all the values in an unconstrained heap version
func (x *Exec) heapFacts(h *heapInfo, v *Term, next *Term) []*Term {
	c := x.c
	switch h.kind {
	case "F", "P":
		r := c.bound("r", "Int")
		s := c.app("select", c.sortOf(h.typ), v, r)
		fs := c.heapTypeFacts(s, h.typ, r, next)
		if len(fs) == 0 {
			return nil
		}
		return []*Term{c.forall([]*Term{r}, [][]*Term{{s}}, c.and(fs...))}
	case "E", "MV":
		ks := "Int"
		if h.key != nil {
			ks = c.sortOf(h.key)
		}
		r, i := c.bound("r", "Int"), c.bound("i", ks)
		s := c.app("select", c.sortOf(h.typ), c.app("select", arraySort(ks, c.sortOf(h.typ)), v, r), i)
		fs := c.heapTypeFacts(s, h.typ, r, next)
		var out []*Term
		if len(fs) > 0 {
			out = append(out, c.forall([]*Term{r, i}, [][]*Term{{s}}, c.and(fs...)))
		}
		return out
	case "MD":
		// the nil map is empty
		ks := c.sortOf(h.key)
		z := c.app("select", arraySort(ks, "Bool"), v, c.int(0))
		return []*Term{c.app("=", "Bool", z, c.constArr(arraySort(ks, "Bool"), c.bool(false)))}
	case "X":
		if h.name == "$nlog" {
			return []*Term{c.ge(v, c.int(0))}
		}
	}
	return nil
}

func (s *State) heap(name string) *Term {
	if s.x.heapTrace != nil {
		s.x.heapTrace[name] = true
	}
	if t, ok := s.heaps[name]; ok {
		return t
	}
	x := s.x
	h := x.heapInfos[name]
	if h == nil {
		panic("unknown heap " + name)
	}
	key := fmt.Sprintf("%s@%d", name, s.epoch)
	t := x.epochHeaps[key]
	if t == nil {
		t = x.c.constant("H_"+name, h.sort)
		t.seqSet, t.heapVer = true, true
		t.seq = x.epochSeq[s.epoch]
		t.stable = s.epoch == 0
		t.facts = x.heapFacts(h, t, x.epochNext[s.epoch])
		x.epochHeaps[key] = t
	}
	s.heaps[name] = t
	return t
}

// setHeap names a new version of a heap.
func (s *State) setHeap(name string, v *Term) {
	x := s.x
	n := x.c.constant("h_"+name, v.sort)
	n.def = v
	n.seqSet, n.heapVer = true, true
	n.seq = x.nalloc
	s.heaps[name] = n
}

// freshHeap: an unconstrained new version.
func (s *State) freshHeap(name string) *Term {
	x := s.x
	h := x.heapInfos[name]
	n := x.c.constant("hv_"+name, h.sort)
	n.seqSet, n.heapVer = true, true
	n.seq = x.nalloc
	n.facts = x.heapFacts(h, n, s.next)
	s.heaps[name] = n
	return n
}

// freshContent: an arbitrary value stored in a heap at one reference.
func (s *State) freshContent(name string) *Term {
	x := s.x
	h := x.heapInfos[name]
	_, vs := arraySorts(h.sort)
	n := x.c.constant("hc_"+name, vs)
	n.seqSet = true
	n.seq = x.nalloc
	c := x.c
	switch h.kind {
	case "F", "P":
		n.facts = c.typeFacts(n, h.typ, s.next)
	case "E", "MV":
		ks := "Int"
		if h.key != nil {
			ks = c.sortOf(h.key)
		}
		i := c.bound("i", ks)
		e := c.app("select", c.sortOf(h.typ), n, i)
		if fs := c.typeFacts(e, h.typ, s.next); len(fs) > 0 {
			n.facts = []*Term{c.forall([]*Term{i}, [][]*Term{{e}}, c.and(fs...))}
		}
	}
	return n
}

func (s *State) alloc() *Term {
	x := s.x
	x.nalloc++
	a := x.c.constant("new", "Int")
	a.alloc = x.nalloc
	s.assume(x.c.ge(a, s.next))
	s.next = x.c.add(a, x.c.int(1))
	return a
}

func (s *State) advanceNext() {
	x := s.x
	n := x.c.constant("next", "Int")
	s.assume(x.c.ge(n, s.next))
	s.next = n
}

// ---------------------------------------------------------------- places

func (s *State) loadRoot(p *Place) Val {
	c := s.x.c
	switch p.kind {
	case pCell:
		v, ok := s.cells[p.cell]
		if !ok {
			panic(unsupported("read of a dead variable"))
		}
		return v
	case pField, pDeref, pGlobal:
		if p.kind == pDeref && structOf(p.root) != nil && !isTimeTime(p.root) {
			return s.loadStruct(p.ref, p.root)
		}
		return s.x.tv(c.sel(s.heap(p.heap), p.ref), p.root)
	case pElem:
		return s.x.tv(c.sel(c.sel(s.heap(p.heap), p.ref), p.idx), p.root)
	case pArr:
		row := c.sel(s.heap(p.heap), p.ref)
		for _, f := range c.typeFacts(row, p.root, nil) {
			s.assume(f)
		}
		return s.x.tv(row, p.root)
	}
	panic("loadRoot")
}

func (s *State) loadStruct(ref *Term, t types.Type) Val {
	c := s.x.c
	st := structOf(t)
	so := c.sortOf(t)
	if st.NumFields() == 0 {
		return &TV{c.int(0), t}
	}
	var as []*Term
	for i := 0; i < st.NumFields(); i++ {
		as = append(as, c.sel(s.heap(s.x.fieldHeap(t, i)), ref))
	}
	return &TV{c.mk("mk_"+so, as...), t}
}

func (s *State) load(p *Place) Val {
	v := s.loadRoot(p)
	if len(p.path) == 0 {
		return v
	}
	tv, ok := v.(*TV)
	if !ok {
		panic(unsupported("path into a non-term value"))
	}
	t := tv.t
	c := s.x.c
	for _, st := range p.path {
		if st.idx != nil {
			t = c.sel(t, st.idx)
		} else {
			t = c.field(fieldSel(st.styp, st.field), t)
		}
	}
	return s.x.tv(t, p.typ)
}

func (x *Exec) updPath(t *Term, path []pstep, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	c := x.c
	st := path[0]
	if st.idx != nil {
		return c.store(t, st.idx, x.updPath(c.sel(t, st.idx), path[1:], v))
	}
	str := structOf(st.styp)
	var as []*Term
	for i := 0; i < str.NumFields(); i++ {
		f := c.field(fieldSel(st.styp, i), t)
		if i == st.field {
			f = x.updPath(f, path[1:], v)
		}
		as = append(as, f)
	}
	return c.mk("mk_"+c.sortOf(st.styp), as...)
}

func (s *State) store(p *Place, v Val) {
	x := s.x
	c := x.c
	if p.kind == pCell {
		if len(p.path) == 0 {
			s.cells[p.cell] = v
		} else {
			root := s.cells[p.cell].(*TV)
			s.cells[p.cell] = &TV{x.updPath(root.t, p.path, x.term(v)), root.typ}
		}
		x.recCell(p.cell)
		return
	}
	t := x.term(v)
	if p.kind == pDeref && structOf(p.root) != nil && !isTimeTime(p.root) {
		if len(p.path) != 0 {
			panic("path on a struct reference")
		}
		st := structOf(p.root)
		for i := 0; i < st.NumFields(); i++ {
			h := x.fieldHeap(p.root, i)
			x.heapWrite(s, h, p.ref)
			s.setHeap(h, c.store(s.heap(h), p.ref, c.field(fieldSel(p.root, i), t)))
		}
		return
	}
	if p.kind == pElem {
		x.heapWriteR(s, p.heap, p.ref, p.idx, c.add(p.idx, c.int(1)))
	} else {
		x.heapWrite(s, p.heap, p.ref)
	}
	old := s.heap(p.heap)
	switch p.kind {
	case pField, pDeref, pGlobal, pArr:
		nv := t
		if len(p.path) > 0 {
			nv = x.updPath(c.sel(old, p.ref), p.path, t)
		}
		s.setHeap(p.heap, c.store(old, p.ref, nv))
	case pElem:
		arr := c.sel(old, p.ref)
		nv := t
		if len(p.path) > 0 {
			nv = x.updPath(c.sel(arr, p.idx), p.path, t)
		}
		s.setHeap(p.heap, c.store(old, p.ref, c.store(arr, p.idx, nv)))
	}
}

func (p *Place) with(st pstep, t types.Type) *Place {
	n := *p
	n.path = append(append([]pstep{}, p.path...), st)
	n.typ = t
	return &n
}

// ---------------------------------------------------------------- ghost event log

func (x *Exec) initGhost() {
	x.heapOf("$nlog", "X", "Int", nil, nil)
	x.heapOf("$log", "X", arraySort("Int", "Event"), nil, nil)
	x.heapOf("$closed", "X", arraySort("Int", "Bool"), nil, nil)
	x.heapOf("$nsent", "X", arraySort("Int", "Int"), nil, nil)
	x.heapOf("$written", "X", arraySort("Iface", "String"), nil, nil)
	for _, p := range x.w.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			st := structOf(tn.Type())
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if _, ok := under(st.Field(i).Type()).(*types.Chan); ok && !signalChan(st.Field(i).Type()) {
					x.sentHeap(chanElem(st.Field(i).Type()))
				}
			}
		}
	}
	x.heapOf("$awaited", "X", arraySort("Int", "Bool"), nil, nil)
	x.heapOf("$nrecv", "X", arraySort("Int", "Int"), nil, nil)
}

func (s *State) emit(name string, args []*Term) {
	x := s.x
	ev := x.event(name, args)
	n := s.heap("$nlog")
	x.ghostWrite(s, "$log")
	s.setHeap("$log", x.c.store(s.heap("$log"), n, ev))
	s.heaps["$nlog"] = x.c.add(n, x.c.int(1))
}

func (x *Exec) event(name string, args []*Term) *Term {
	c := x.c
	ek := c.events[name]
	if ek == nil {
		ek = &eventKind{name: name}
		for _, a := range args {
			ek.sorts = append(ek.sorts, a.sort)
		}
		c.events[name] = ek
		c.evOrder = append(c.evOrder, name)
		var fs []string
		for i := range args {
			fs = append(fs, fmt.Sprintf("ev_%s_%d", name, i))
		}
		dt := &dtype{sort: "Event", ctor: "ev_" + name, fields: fs, fsorts: ek.sorts}
		c.ctors["ev_"+name] = dt
		for i, f := range fs {
			c.sels[f] = selInfo{dt, i}
		}
	}
	if len(args) != len(ek.sorts) {
		panic(unsupported("event " + name + ": wrong number of arguments"))
	}
	for i := range args {
		if args[i].sort != ek.sorts[i] {
			if ek.sorts[i] == "Real" && args[i].sort == "Int" {
				args[i] = c.toReal(args[i])
			} else {
				panic(unsupported(fmt.Sprintf("event %s: argument %d: sort %s, want %s", name, i, args[i].sort, ek.sorts[i])))
			}
		}
	}
	return c.app("ev_"+name, "Event", args...)
}

type unsupported string
