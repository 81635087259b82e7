package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// simple executes the instructions that neither branch nor call.
func (x *Exec) simple(fr *Frame, ins ssa.Instruction, st *State) {
	c := x.c
	pos := x.curPos
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		x.alloc(fr, i, st)
	case *ssa.Store:
		if i.Addr.Type() == nil {
			return
		}
		p := x.place(st, x.val(fr, i.Addr), ptrElem(i.Addr.Type()), pos)
		v := x.val(fr, i.Val)
		st.store(p, v)
	case *ssa.BinOp:
		fr.regs[i] = &TV{x.binop(st, i.Op, x.val(fr, i.X), x.val(fr, i.Y), i.X.Type(), i.Y.Type(), i.Type(), pos), i.Type()}
	case *ssa.UnOp:
		fr.regs[i] = x.unop(fr, i, st)
	case *ssa.ChangeType:
		v := x.val(fr, i.X)
		if tv, ok := v.(*TV); ok {
			fr.regs[i] = x.changeType(tv, i.Type())
		} else {
			fr.regs[i] = v
		}
	case *ssa.Convert:
		fr.regs[i] = x.convert(st, x.val(fr, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		fr.regs[i] = x.convert(st, x.val(fr, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeInterface:
		switch v := x.val(fr, i.X).(type) {
		case *TV:
			fr.regs[i] = &TV{v.t, i.Type()}
		case *IfaceV:
			fr.regs[i] = &IfaceV{v.v, v.dyn, i.Type()}
		default:
			panic(unsupported("change interface"))
		}
	case *ssa.MakeInterface:
		fr.regs[i] = x.makeIface(x.val(fr, i.X), i.X.Type(), i.Type())
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		fr.regs[i] = &FV{fn: i.Fn.(*ssa.Function), binds: bs, typ: i.Type()}
	case *ssa.MakeMap:
		r := st.alloc()
		md, mv := x.mapHeaps(i.Type())
		m := under(i.Type()).(*types.Map)
		ks := c.sortOf(m.Key())
		x.heapWrite(st, md, r)
		st.setHeap(md, c.store(st.heap(md), r, c.constArr(arraySort(ks, "Bool"), c.bool(false))))
		_ = mv
		fr.regs[i] = &TV{r, i.Type()}
	case *ssa.MakeChan:
		r := st.alloc()
		x.heapWrite(st, "$closed", r)
		st.setHeap("$closed", c.store(st.heap("$closed"), r, c.bool(false)))
		st.assume(c.eq(c.sel(st.heap("$nrecv"), r), c.int(0)))
		c.fun("chancap", []string{"Int"}, "Int")
		st.assume(c.eq(c.app("chancap", "Int", r), x.t(fr, i.Size)))
		if localChan(i) {
			if st.chans == nil {
				st.chans = map[*Term]chanBuf{}
			}
			st.chans[r] = chanBuf{}
		}
		fr.regs[i] = &TV{r, i.Type()}
	case *ssa.MakeSlice:
		et := under(i.Type()).(*types.Slice).Elem()
		l, k := x.t(fr, i.Len), x.t(fr, i.Cap)
		x.must(st, "make", "length not negative", c.and(c.le(c.int(0), l), c.le(l, k)), pos)
		r := st.alloc()
		h := x.elemHeap(et)
		st.setElemsR(h, r, c.constArr(arraySort("Int", c.sortOf(et)), c.zero(et)), nil, nil)
		fr.regs[i] = &TV{c.mk("mkslice", r, c.int(0), l, k), i.Type()}
	case *ssa.Slice:
		fr.regs[i] = x.slice(fr, i, st)
	case *ssa.FieldAddr:
		pt := i.X.Type()
		el := ptrElem(pt)
		p := x.place(st, x.val(fr, i.X), el, pos)
		fr.regs[i] = x.addrVal(x.fieldPlace(p, el, i.Field))
		if pv, ok := fr.regs[i].(*PV); ok {
			pv.typ = i.Type()
		}
	case *ssa.Field:
		t := x.t(fr, i.X)
		fr.regs[i] = x.tv(c.field(fieldSel(i.X.Type(), i.Field), t), i.Type())
	case *ssa.IndexAddr:
		idx := x.t(fr, i.Index)
		if sl, ok := under(i.X.Type()).(*types.Slice); ok {
			s := x.t(fr, i.X)
			x.must(st, "bounds", "index in range", c.and(c.le(c.int(0), idx), c.lt(idx, c.slen(s))), pos)
			p := &Place{kind: pElem, heap: x.elemHeap(sl.Elem()), ref: c.sref(s), idx: c.ix(c.soff(s), idx), root: sl.Elem(), typ: sl.Elem()}
			fr.regs[i] = &PV{p, i.Type()}
			return
		}
		at := under(ptrElem(i.X.Type())).(*types.Array)
		x.must(st, "bounds", "index in range", c.and(c.le(c.int(0), idx), c.lt(idx, c.int(at.Len()))), pos)
		p := x.place(st, x.val(fr, i.X), ptrElem(i.X.Type()), pos)
		if p.kind == pArr && len(p.path) == 0 {
			fr.regs[i] = &PV{&Place{kind: pElem, heap: p.heap, ref: p.ref, idx: idx, root: at.Elem(), typ: at.Elem()}, i.Type()}
			return
		}
		fr.regs[i] = &PV{p.with(pstep{styp: p.typ, idx: idx}, at.Elem()), i.Type()}
	case *ssa.Index:
		idx := x.t(fr, i.Index)
		v := x.t(fr, i.X)
		if isString(i.X.Type()) {
			x.must(st, "bounds", "string index in range", c.and(c.le(c.int(0), idx), c.lt(idx, c.strlen(v))), pos)
			fr.regs[i] = &TV{c.stratIn(v, idx), i.Type()}
			return
		}
		at := under(i.X.Type()).(*types.Array)
		x.must(st, "bounds", "index in range", c.and(c.le(c.int(0), idx), c.lt(idx, c.int(at.Len()))), pos)
		fr.regs[i] = x.tv(c.sel(v, idx), i.Type())
	case *ssa.Range:
		v := x.val(fr, i.X).(*TV)
		it := &IterV{m: v}
		if isString(i.X.Type()) {
			it.cell = x.newCell(st, types.Typ[types.Int], &TV{c.int(0), types.Typ[types.Int]})
		} else {
			m := under(i.X.Type()).(*types.Map)
			ks := c.sortOf(m.Key())
			it.cell = x.newCell(st, nil, &TV{c.constArr(arraySort(ks, "Bool"), c.bool(false)), nil})
			md, _ := x.mapHeaps(i.X.Type())
			it.dom0 = c.sel(st.heap(md), v.t)
		}
		fr.regs[i] = it
	case *ssa.Extract:
		tv, ok := x.val(fr, i.Tuple).(*TupV)
		if !ok {
			panic(unsupported("extract"))
		}
		fr.regs[i] = tv.vals[i.Index]
	case *ssa.Send:
		panic("send")
	case *ssa.Go:
		// the started goroutine is verified on its own; starting it has no effect on the state of this one
		x.trust("goroutines are verified separately; the interleaving is not modelled")
		x.goCall(fr, i, st)
	case *ssa.Defer:
		if len(fr.loops) > 0 {
			panic(unsupported("defer in a loop"))
		}
		var as []Val
		for _, a := range i.Call.Args {
			as = append(as, x.val(fr, a))
		}
		if i.Call.IsInvoke() {
			as = append([]Val{x.val(fr, i.Call.Value)}, as...)
		} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			as = append([]Val{x.val(fr, i.Call.Value)}, as...)
		}
		fr.defers = append(fr.defers, i)
		fr.defArg = append(fr.defArg, as)
	case *ssa.MapUpdate:
		m := x.t(fr, i.Map)
		x.must(st, "nil-map", "assignment to a nil map", c.not(c.eq(m, c.int(0))), pos)
		md, mv := x.mapHeaps(i.Map.Type())
		k, v := x.t(fr, i.Key), x.t(fr, i.Value)
		x.heapWrite(st, md, m)
		x.heapWrite(st, mv, m)
		st.setHeap(md, c.store(st.heap(md), m, c.store(c.sel(st.heap(md), m), k, c.bool(true))))
		st.setHeap(mv, c.store(st.heap(mv), m, c.store(c.sel(st.heap(mv), m), k, v)))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
}

func (x *Exec) trust(s string) { x.trusted[s] = true }

func (s *State) setElemsR(heap string, ref, content, lo, hi *Term) {
	s.x.heapWriteR(s, heap, ref, lo, hi)
	s.setHeap(heap, s.x.c.store(s.heap(heap), ref, content))
}

func (x *Exec) changeType(tv *TV, to types.Type) Val {
	c := x.c
	if structOf(to) != nil && !isTimeTime(to) && c.sortOf(to) != tv.t.sort {
		return &TV{x.convStruct(tv.t, tv.typ, to), to}
	}
	return &TV{tv.t, to}
}

func (x *Exec) convStruct(t *Term, from, to types.Type) *Term {
	c := x.c
	so := c.sortOf(to)
	st := structOf(to)
	if st.NumFields() == 0 {
		return c.int(0)
	}
	var as []*Term
	for i := 0; i < st.NumFields(); i++ {
		as = append(as, c.field(fieldSel(from, i), t))
	}
	return c.mk("mk_"+so, as...)
}

func (x *Exec) alloc(fr *Frame, i *ssa.Alloc, st *State) {
	el := ptrElem(i.Type())
	c := x.c
	fr.nlive++
	fr.live[i] = fr.nlive
	if i.Heap && structOf(el) != nil && !isTimeTime(el) {
		r := st.alloc()
		s := structOf(el)
		for k := 0; k < s.NumFields(); k++ {
			h := x.fieldHeap(el, k)
			st.setHeap(h, c.store(st.heap(h), r, c.zero(s.Field(k).Type())))
			x.recHeap(h, r)
		}
		fr.regs[i] = &TV{r, i.Type()}
		return
	}
	if a, ok := under(el).(*types.Array); ok && i.Heap {
		r := st.alloc()
		h := x.elemHeap(a.Elem())
		st.setElemsR(h, r, c.zero(el), nil, nil)
		fr.regs[i] = &PV{&Place{kind: pArr, heap: h, ref: r, root: el, typ: el}, i.Type()}
		return
	}
	var z Val
	if i.Comment == "defer$stack" {
		z = &TV{c.int(0), el}
	} else {
		z = &TV{c.zero(el), el}
	}
	id := x.newCell(st, el, z)
	fr.regs[i] = &PV{&Place{kind: pCell, cell: id, root: el, typ: el}, i.Type()}
}

func (x *Exec) makeIface(v Val, dyn, typ types.Type) Val {
	c := x.c
	x.w.tagTypes[c.typeTag(dyn).ival.Int64()] = dyn
	switch v := v.(type) {
	case *TV:
		if structOf(dyn) != nil || under(dyn) != nil {
			return &TV{c.mk("mkiface", c.typeTag(dyn), c.box(v.t)), typ}
		}
	}
	return &IfaceV{v, dyn, typ}
}

func (x *Exec) unop(fr *Frame, i *ssa.UnOp, st *State) Val {
	c := x.c
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			if v := x.globalValue(g, st); v != nil {
				return v
			}
		}
		p := x.place(st, x.val(fr, i.X), ptrElem(i.X.Type()), x.curPos)
		v := st.load(p)
		if tv, ok := v.(*TV); ok && p.kind != pCell && tv.t.kind != kConst {
			x.loadFacts(st, tv)
		}
		return v
	case token.NOT:
		return &TV{c.not(x.t(fr, i.X)), i.Type()}
	case token.SUB:
		t := x.t(fr, i.X)
		if t.sort == "Cplx" {
			return &TV{c.mk("mkcplx", c.neg(c.field("cre", t)), c.neg(c.field("cim", t))), i.Type()}
		}
		return &TV{c.wrap(c.neg(t), i.Type()), i.Type()}
	case token.XOR:
		t := x.t(fr, i.X)
		lo, hi, ok := intRange(i.Type())
		if ok && lo.Sign() == 0 {
			return &TV{c.sub(c.bigint(hi), t), i.Type()}
		}
		return &TV{c.sub(c.neg(t), c.int(1)), i.Type()}
	}
	panic(unsupported("unary " + i.Op.String()))
}

// loadFacts: type facts of a loaded value (ranges, slice well-formedness). The heap versions carry these facts as
// quantified axioms; stating them for the loaded value saves the solver the instantiation.
func (x *Exec) loadFacts(st *State, tv *TV) {
	if tv.typ == nil {
		return
	}
	switch under(tv.typ).(type) {
	case *types.Slice, *types.Basic, *types.Pointer, *types.Map:
		for _, f := range x.c.typeFacts(tv.t, tv.typ, st.next) {
			st.assume(f)
		}
	}
}

func (c *Ctx) strlen(s *Term) *Term {
	if s.kind == kStr {
		return c.int(int64(len(s.sval)))
	}
	return c.app("str.len", "Int", s)
}

// strat: the byte at an index.
func (c *Ctx) strat(s, i *Term) *Term {
	if s.kind == kStr && i.kind == kInt && i.ival.IsInt64() {
		k := i.ival.Int64()
		if k >= 0 && k < int64(len(s.sval)) {
			return c.int(int64(s.sval[k]))
		}
	}
	return c.app("str.to_code", "Int", c.app("str.at", "String", s, i))
}

// stratIn is a character within the bounds of the text.
func (c *Ctx) stratIn(s, i *Term) *Term {
	for s.kind == kApp && s.op == "str.substr" {
		i = c.add(s.args[1], i)
		s = s.args[0]
	}
	return c.strat(s, i)
}

func (c *Ctx) concat(a, b *Term) *Term {
	if a.kind == kStr && a.sval == "" {
		return b
	}
	if b.kind == kStr && b.sval == "" {
		return a
	}
	if a.kind == kStr && b.kind == kStr {
		return c.str(a.sval + b.sval)
	}
	// right associate, merging literals
	if a.kind == kApp && a.op == "str.++" {
		return c.concat(a.args[0], c.concat(a.args[1], b))
	}
	if a.kind == kStr && b.kind == kApp && b.op == "str.++" && b.args[0].kind == kStr {
		return c.concat(c.str(a.sval+b.args[0].sval), b.args[1])
	}
	return c.app("str.++", "String", a, b)
}

func (c *Ctx) substr(s, lo, hi *Term) *Term {
	if lo.kind == kInt && lo.ival.Sign() == 0 && hi == c.strlen(s) {
		return s
	}
	if s.kind == kStr && lo.kind == kInt && hi.kind == kInt {
		a, b := lo.ival.Int64(), hi.ival.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.sval)) {
			return c.str(s.sval[a:b])
		}
	}
	return c.app("str.substr", "String", s, lo, c.sub(hi, lo))
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type, pos string) *Term {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b, ta, tb)
		if op == token.NEQ {
			return c.not(e)
		}
		return e
	}
	s, t := x.term(a), x.term(b)
	switch op {
	case token.LSS:
		return c.lt(s, t)
	case token.LEQ:
		return c.le(s, t)
	case token.GTR:
		return c.gt(s, t)
	case token.GEQ:
		return c.ge(s, t)
	}
	if s.sort == "Bool" {
		switch op {
		case token.AND, token.LAND:
			return c.and(s, t)
		case token.OR, token.LOR:
			return c.or(s, t)
		}
	}
	if s.sort == "String" {
		return c.concat(s, t)
	}
	if s.sort == "Cplx" {
		ar, ai, br, bi := c.field("cre", s), c.field("cim", s), c.field("cre", t), c.field("cim", t)
		switch op {
		case token.ADD:
			return c.mk("mkcplx", c.add(ar, br), c.add(ai, bi))
		case token.SUB:
			return c.mk("mkcplx", c.sub(ar, br), c.sub(ai, bi))
		case token.MUL:
			return c.mk("mkcplx", c.sub(c.mul(ar, br), c.mul(ai, bi)), c.add(c.mul(ar, bi), c.mul(ai, br)))
		case token.QUO:
			if bi.kind == kReal && bi.rval.Sign() == 0 {
				return c.mk("mkcplx", c.rdiv(ar, br), c.rdiv(ai, br))
			}
			d := c.add(c.mul(br, br), c.mul(bi, bi))
			return c.mk("mkcplx", c.rdiv(c.add(c.mul(ar, br), c.mul(ai, bi)), d), c.rdiv(c.sub(c.mul(ai, br), c.mul(ar, bi)), d))
		}
		panic(unsupported("complex operation"))
	}
	if isFloat(ta) {
		switch op {
		case token.ADD:
			return c.add(s, t)
		case token.SUB:
			return c.sub(s, t)
		case token.MUL:
			return c.mul(s, t)
		case token.QUO:
			return c.rdiv(s, t)
		}
		panic(unsupported("float operation"))
	}
	var r *Term
	switch op {
	case token.ADD:
		r = c.add(s, t)
	case token.SUB:
		r = c.sub(s, t)
	case token.MUL:
		r = c.mul(s, t)
	case token.QUO:
		x.must(st, "div-zero", "divisor not zero", c.not(c.eq(t, c.int(0))), pos)
		r = c.idiv(s, t)
		if t.kind != kInt {
			x.divFacts(st, s, t)
		}
	case token.REM:
		x.must(st, "div-zero", "divisor not zero", c.not(c.eq(t, c.int(0))), pos)
		r = c.imod(s, t)
		if t.kind != kInt {
			x.modFacts(st, s, t)
		}
	case token.SHL, token.SHR:
		if tt := tb; tt != nil {
			if lo, _, ok := intRange(tt); !ok || lo.Sign() < 0 {
				x.must(st, "shift", "shift count not negative", c.ge(t, c.int(0)), pos)
			}
		}
		p := c.pow2(t)
		if op == token.SHL {
			r = c.mul(s, p)
		} else {
			r = c.app("div", "Int", s, p)
			if s.kind == kInt && p.kind == kInt {
				r = c.bigint(new(big.Int).Div(s.ival, p.ival))
			}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		r = c.bitop(op, s, t)
	default:
		panic(unsupported("integer operation " + op.String()))
	}
	if b, ok := under(tr).(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64) && r.kind != kInt {
		switch op {
		case token.ADD, token.SUB, token.MUL:
			x.trust("64-bit signed integer addition, subtraction and multiplication treated as mathematical (no overflow)")
			return r
		}
	}
	return c.wrap(r, tr)
}

func (c *Ctx) pow2(t *Term) *Term {
	if t.kind == kInt && t.ival.IsInt64() && t.ival.Int64() < 4096 && t.ival.Sign() >= 0 {
		return c.bigint(new(big.Int).Lsh(big.NewInt(1), uint(t.ival.Int64())))
	}
	c.fun("pow2", []string{"Int"}, "Int")
	n := len(c.axioms)
	_ = n
	if !c.boxes["pow2"] {
		c.boxes["pow2"] = true
		k := c.bound("k", "Int")
		p := c.app("pow2", "Int", k)
		c.axiom("pow2", c.forall([]*Term{k}, [][]*Term{{p}}, c.ge(p, c.int(1))))
	}
	return c.app("pow2", "Int", t)
}

func (c *Ctx) bitop(op token.Token, a, b *Term) *Term {
	if a.kind == kInt && b.kind == kInt {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.ival, b.ival)
		case token.OR:
			r.Or(a.ival, b.ival)
		case token.XOR:
			r.Xor(a.ival, b.ival)
		case token.AND_NOT:
			r.AndNot(a.ival, b.ival)
		}
		return c.bigint(r)
	}
	if isZero(a) || isZero(b) {
		o := a
		if isZero(a) {
			o = b
		}
		switch op {
		case token.AND:
			return c.int(0)
		case token.OR, token.XOR:
			return o
		case token.AND_NOT:
			return a
		}
	}
	if op == token.AND {
		if a.kind == kInt {
			a, b = b, a
		}
		if b.kind == kInt && b.ival.Sign() > 0 {
			m := new(big.Int).Add(b.ival, big.NewInt(1))
			if new(big.Int).And(m, b.ival).Sign() == 0 {
				return c.app("mod", "Int", a, c.bigint(m))
			}
			// a single bit
			if new(big.Int).And(new(big.Int).Sub(b.ival, big.NewInt(1)), b.ival).Sign() == 0 {
				q := c.app("div", "Int", a, b)
				return c.mul(b, c.app("mod", "Int", q, c.int(2)))
			}
		}
	}
	name := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[op]
	c.fun(name, []string{"Int", "Int"}, "Int")
	gen := c.app(name, "Int", a, b)
	if op == token.OR {
		for k := 0; k < 2; k++ {
			if b.kind == kApp && b.op == "*" && b.args[0].kind == kInt {
				m := b.args[0].ival
				if m.Sign() > 0 && new(big.Int).And(m, new(big.Int).Sub(m, big.NewInt(1))).Sign() == 0 {
					return c.ite(c.and(c.le(c.int(0), a), c.lt(a, c.bigint(m))), c.add(a, b), gen)
				}
			}
			a, b = b, a
		}
	}
	return gen
}

// ground facts that help with a symbolic divisor
func (x *Exec) divFacts(st *State, a, b *Term) {
	c := x.c
	q := c.app("div", "Int", a, b)
	st.assume(c.implies(c.and(c.ge(a, c.int(0)), c.gt(b, c.int(0))), c.and(c.ge(q, c.int(0)), c.le(q, a), c.le(c.mul(q, b), a), c.lt(a, c.add(c.mul(q, b), b)))))
	st.assume(c.implies(c.and(c.ge(a, c.int(0)), c.lt(a, b)), c.eq(q, c.int(0))))
}

func (x *Exec) modFacts(st *State, a, b *Term) {
	c := x.c
	m := c.app("mod", "Int", a, b)
	st.assume(c.implies(c.gt(b, c.int(0)), c.and(c.ge(m, c.int(0)), c.lt(m, b))))
	st.assume(c.implies(c.and(c.ge(a, c.int(0)), c.lt(a, b)), c.eq(m, a)))
	st.assume(c.implies(c.and(c.ge(a, b), c.gt(b, c.int(0)), c.lt(a, c.add(b, b))), c.eq(m, c.sub(a, b))))
}

func (x *Exec) isNilVal(v Val, t types.Type) *Term {
	c := x.c
	switch v := v.(type) {
	case *FV, *PV, *IfaceV:
		return c.bool(false)
	case *TV:
		switch v.t.sort {
		case "Slice":
			return c.eq(c.sref(v.t), c.int(0))
		case "Iface":
			return c.eq(c.field("itag", v.t), c.int(0))
		case "Int":
			return c.eq(v.t, c.int(0))
		}
	}
	panic(unsupported("nil comparison"))
}

func isNilConst(c *Ctx, v Val, t types.Type) bool {
	tv, ok := v.(*TV)
	if !ok {
		return false
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return tv.t == c.zero(t)
	}
	return false
}

func (x *Exec) equal(st *State, a, b Val, ta, tb types.Type) *Term {
	c := x.c
	if isNilConst(c, b, tb) {
		return x.isNilVal(a, ta)
	}
	if isNilConst(c, a, ta) {
		return x.isNilVal(b, tb)
	}
	if pa, ok := a.(*PV); ok {
		if pb, ok := b.(*PV); ok && pa.pl.kind == pCell && pb.pl.kind == pCell && len(pa.pl.path) == 0 && len(pb.pl.path) == 0 {
			return c.bool(pa.pl.cell == pb.pl.cell)
		}
	}
	// interface compared with a concrete value
	if ta != nil && tb != nil && isIface(ta) != isIface(tb) {
		if isIface(ta) {
			b = x.makeIface(b, tb, ta)
		} else {
			a = x.makeIface(a, ta, tb)
		}
	}
	s, t := x.term(a), x.term(b)
	if at, ok := under(ta).(*types.Array); ok && s.sort == t.sort {
		if at.Len() <= 16 {
			return c.eq(s, t) // see typeFacts
		}
		if at.Len() <= 64 {
			// arrays are compared element by element
			var es []*Term
			for i := int64(0); i < at.Len(); i++ {
				es = append(es, x.equal(st, x.tv(c.sel(s, c.int(i)), at.Elem()), x.tv(c.sel(t, c.int(i)), at.Elem()), at.Elem(), at.Elem()))
			}
			return c.and(es...)
		}
		panic(unsupported("comparison of large arrays"))
	}
	if so := structOf(ta); so != nil && !isTimeTime(ta) && s.sort == t.sort && hasArray(ta) {
		var es []*Term
		for i := 0; i < so.NumFields(); i++ {
			ft := so.Field(i).Type()
			es = append(es, x.equal(st, x.tv(c.field(fieldSel(ta, i), s), ft), x.tv(c.field(fieldSel(ta, i), t), ft), ft, ft))
		}
		return c.and(es...)
	}
	return c.eq(s, t)
}

func hasArray(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Array:
		return true
	case *types.Struct:
		if isTimeTime(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if hasArray(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := x.c
	tv, ok := v.(*TV)
	if !ok {
		return v
	}
	t := tv.t
	switch {
	case isInt(from) && isInt(to):
		return &TV{c.wrap(t, to), to}
	case isInt(from) && isFloat(to):
		return &TV{c.toReal(t), to}
	case isFloat(from) && isInt(to):
		if _, _, small := intRange(to); small {
			r := c.trunc(t)
			lo, hi, _ := intRange(to)
			// out of range conversions are implementation defined
			k := x.fresh(st, "conv", to)
			return &TV{c.ite(c.and(c.le(c.bigint(lo), r), c.le(r, c.bigint(hi))), r, k.t), to}
		}
		return &TV{c.trunc(t), to}
	case isFloat(from) && isFloat(to), isComplex(from) && isComplex(to):
		return &TV{t, to}
	case isString(to) && isInt(from):
		return &TV{c.fromRune(t), to}
	case isString(to) && isString(from):
		return &TV{t, to}
	case isString(to):
		if sl, ok := under(from).(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return &TV{x.bytesToString(st, t), to}
			}
			return &TV{x.runesToString(st, t), to}
		}
	case isString(from):
		if sl, ok := under(to).(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return &TV{x.stringToBytes(st, t, sl.Elem()), to}
			}
			r := st.alloc()
			h := x.elemHeap(sl.Elem())
			c.fun("s2runes", []string{"String"}, "(Array Int Int)")
			c.fun("runecount", []string{"String"}, "Int")
			st.setElemsR(h, r, c.app("s2runes", "(Array Int Int)", t), nil, nil)
			n := c.app("runecount", "Int", t)
			st.assume(c.and(c.ge(n, c.int(0)), c.le(n, c.strlen(t))))
			return &TV{c.mk("mkslice", r, c.int(0), n, n), to}
		}
	}
	return &TV{t, to}
}

func (c *Ctx) fromRune(t *Term) *Term {
	c.fun("runestr", []string{"Int"}, "String")
	if t.kind == kInt {
		lit := c.str(string(rune(t.ival.Int64())))
		if k := "runestr " + t.op; t.ival.Int64() >= 128 && !c.boxes[k] {
			c.boxes[k] = true
			c.axiom("runestr", c.app("=", "Bool", c.app("runestr", "String", t), lit))
		}
		return lit
	}
	ascii := c.and(c.le(c.int(0), t), c.lt(t, c.int(128)))
	return c.ite(ascii, c.app("str.from_code", "String", t), c.app("runestr", "String", t))
}

func (x *Exec) b2s() {
	c := x.c
	if c.boxes["b2s"] {
		return
	}
	c.boxes["b2s"] = true
	A := "(Array Int Int)"
	c.fun("b2s", []string{A, "Int", "Int"}, "String")
	a, o, n, k := c.bound("a", A), c.bound("o", "Int"), c.bound("n", "Int"), c.bound("k", "Int")
	s := c.app("b2s", "String", a, o, n)
	c.axiom("b2s", c.forall([]*Term{a, o, n}, [][]*Term{{s}}, c.implies(c.ge(n, c.int(0)), c.eq(c.strlen(s), n))))
	ck := c.app("str.to_code", "Int", c.app("str.at", "String", s, k))
	// a is any array: only bytes are characters
	el := c.app("select", "Int", a, c.app("ix", "Int", o, k))
	c.axiom("b2s", c.forall([]*Term{a, o, n, k}, [][]*Term{{ck}}, c.implies(c.and(c.le(c.int(0), k), c.lt(k, n), c.le(c.int(0), el), c.le(el, c.int(255))), c.eq(ck, el))))
}

func (x *Exec) bytesToString(st *State, t *Term) *Term {
	x.b2s()
	c := x.c
	h := x.elemHeap(types.Typ[types.Uint8])
	a := c.sel(st.heap(h), c.sref(t))
	// string([]byte(s)) = s
	if a.kind == kApp && a.op == "s2b" && c.slen(t) == c.strlen(a.args[0]) && isZero(c.soff(t)) {
		return a.args[0]
	}
	if off, n := c.soff(t), c.slen(t); isZero(off) && n == c.int(1) && a.op == "store" && isZero(a.args[1]) {
		// the text of one byte
		return c.app("str.from_code", "String", a.args[2])
	}
	return c.app("b2s", "String", a, c.soff(t), c.slen(t))
}

func (x *Exec) runesToString(st *State, t *Term) *Term {
	c := x.c
	c.fun("runes2s", []string{"(Array Int Int)", "Int", "Int"}, "String")
	h := x.elemHeap(types.Typ[types.Int32])
	return c.app("runes2s", "String", c.sel(st.heap(h), c.sref(t)), c.soff(t), c.slen(t))
}

func (x *Exec) stringToBytes(st *State, t *Term, el types.Type) *Term {
	c := x.c
	A := "(Array Int Int)"
	x.b2s()
	if !c.boxes["s2b"] {
		c.boxes["s2b"] = true
		c.fun("s2b", []string{"String"}, A)
		s, k := c.bound("s", "String"), c.bound("k", "Int")
		e := c.app("select", "Int", c.app("s2b", A, s), k)
		c.axiom("s2b", c.forall([]*Term{s, k}, [][]*Term{{e}}, c.implies(c.and(c.le(c.int(0), k), c.lt(k, c.strlen(s))), c.eq(e, c.strat(s, k)))))
		b := c.app("b2s", "String", c.app("s2b", A, s), c.int(0), c.strlen(s))
		c.axiom("s2b", c.forall([]*Term{s}, [][]*Term{{b}}, c.eq(b, s)))
	}
	r := st.alloc()
	h := x.elemHeap(types.Typ[types.Uint8])
	st.setElemsR(h, r, c.app("s2b", A, t), nil, nil)
	return c.mk("mkslice", r, c.int(0), c.strlen(t), c.strlen(t))
}

func (x *Exec) slice(fr *Frame, i *ssa.Slice, st *State) Val {
	c := x.c
	var lo, hi, mx *Term
	lo = c.int(0)
	if i.Low != nil {
		lo = x.t(fr, i.Low)
	}
	if i.High != nil {
		hi = x.t(fr, i.High)
	}
	if i.Max != nil {
		mx = x.t(fr, i.Max)
	}
	xt := i.X.Type()
	if isString(xt) {
		s := x.t(fr, i.X)
		if hi == nil {
			hi = c.strlen(s)
		}
		x.must(st, "bounds", "string slice in range", c.and(c.le(c.int(0), lo), c.le(lo, hi), c.le(hi, c.strlen(s))), x.curPos)
		return &TV{c.substr(s, lo, hi), i.Type()}
	}
	var ref, off, ln, cp *Term
	if el := ptrElem(xt); el != nil {
		p := x.place(st, x.val(fr, i.X), el, x.curPos)
		at := under(el).(*types.Array)
		if p.kind != pArr || len(p.path) > 0 {
			panic(unsupported("slice of an embedded array"))
		}
		ref, off, ln, cp = p.ref, c.int(0), c.int(at.Len()), c.int(at.Len())
	} else {
		s := x.t(fr, i.X)
		ref, off, ln, cp = c.sref(s), c.soff(s), c.slen(s), c.scap(s)
	}
	if hi == nil {
		hi = ln
	}
	if mx == nil {
		mx = cp
	}
	x.must(st, "bounds", "slice bounds in range", c.and(c.le(c.int(0), lo), c.le(lo, hi), c.le(hi, mx), c.le(mx, cp)), x.curPos)
	r := c.mk("mkslice", ref, c.offAdd(off, lo), c.sub(hi, lo), c.sub(mx, lo))
	if x.usesWritten && typeKey(under(i.Type())) == "[]byte" {
		// the text of a part is the part of the text
		x.b2s()
		a := c.sel(st.heap(x.elemHeap(types.Typ[types.Uint8])), ref)
		st.assume(c.implies(c.le(hi, ln), c.eq(c.app("b2s", "String", a, c.offAdd(off, lo), c.sub(hi, lo)), c.app("str.substr", "String", c.app("b2s", "String", a, off, ln), lo, c.sub(hi, lo)))))
	}
	return &TV{r, i.Type()}
}

func (c *Ctx) offAdd(off, lo *Term) *Term {
	if isZero(lo) {
		return off
	}
	if isZero(off) {
		return lo
	}
	return c.ix(off, lo)
}

func (x *Exec) lookup(fr *Frame, i *ssa.Lookup, st *State) Val {
	c := x.c
	if isString(i.X.Type()) {
		s, idx := x.t(fr, i.X), x.t(fr, i.Index)
		x.must(st, "bounds", "string index in range", c.and(c.le(c.int(0), idx), c.lt(idx, c.strlen(s))), x.curPos)
		return &TV{c.stratIn(s, idx), i.Type()}
	}
	m, k := x.t(fr, i.X), x.t(fr, i.Index)
	mt := under(i.X.Type()).(*types.Map)
	in := x.mapHas(st, i.X.Type(), m, k)
	v := c.ite(in, x.mapGet(st, i.X.Type(), m, k), c.zero(mt.Elem()))
	if i.CommaOk {
		return &TupV{[]Val{x.tv(v, mt.Elem()), &TV{in, types.Typ[types.Bool]}}}
	}
	return x.tv(v, mt.Elem())
}

func (x *Exec) mapHas(st *State, mt types.Type, m, k *Term) *Term {
	md, _ := x.mapHeaps(mt)
	return x.c.sel(x.c.sel(st.heap(md), m), k)
}

func (x *Exec) mapGet(st *State, mt types.Type, m, k *Term) *Term {
	_, mv := x.mapHeaps(mt)
	return x.c.sel(x.c.sel(st.heap(mv), m), k)
}

func (x *Exec) doNext(fr *Frame, i *ssa.Next, st *State) []Outcome {
	c := x.c
	it := fr.regs[i.Iter].(*IterV)
	bt := types.Typ[types.Bool]
	if i.IsString {
		pos := st.cells[it.cell].(*TV).t
		s := it.m.t
		st.assume(c.le(c.int(0), pos))
		st2 := st.clone()
		// done
		st.assume(c.ge(pos, c.strlen(s)))
		z := &TupV{[]Val{&TV{c.bool(false), bt}, &TV{c.int(0), types.Typ[types.Int]}, &TV{c.int(0), types.Typ[types.Rune]}}}
		// next rune
		st2.assume(c.lt(pos, c.strlen(s)))
		b := c.stratIn(s, pos)
		r := x.fresh(st2, "rune", types.Typ[types.Rune])
		w := c.constant("width", "Int")
		st2.assume(c.and(c.le(c.int(0), b), c.le(b, c.int(255))))
		st2.assume(c.ite(c.lt(b, c.int(128)), c.and(c.eq(r.t, b), c.eq(w, c.int(1))), c.and(c.ge(r.t, c.int(128)), c.le(r.t, c.int(0x10ffff)), c.ge(w, c.int(1)), c.le(w, c.int(4)))))
		st2.assume(c.le(c.add(pos, w), c.strlen(s)))
		st2.cells[it.cell] = &TV{c.add(pos, w), types.Typ[types.Int]}
		x.recCell(it.cell)
		nx := &TupV{[]Val{&TV{c.bool(true), bt}, &TV{pos, types.Typ[types.Int]}, r}}
		return []Outcome{{st, z.vals}, {st2, nx.vals}}
	}
	mt := it.m.typ
	m := under(mt).(*types.Map)
	vis := st.cells[it.cell].(*TV).t
	md, _ := x.mapHeaps(mt)
	dom := c.sel(st.heap(md), it.m.t)
	st2 := st.clone()
	// done: every key that was there from the beginning has been visited
	k := c.bound("k", c.sortOf(m.Key()))
	ap := func(a *Term) *Term { return c.app("select", "Bool", a, k) }
	d := c.forall([]*Term{k}, [][]*Term{{ap(dom)}, {ap(vis)}}, c.implies(c.and(ap(dom), ap(it.dom0)), ap(vis)))
	st.assume(d)
	zk := &TV{c.zero(m.Key()), m.Key()}
	zv := &TV{c.zero(m.Elem()), m.Elem()}
	// next
	key := x.fresh(st2, "key", m.Key())
	st2.assume(c.app("select", "Bool", dom, key.t))
	st2.assume(c.not(c.app("select", "Bool", vis, key.t)))
	st2.cells[it.cell] = &TV{c.store(vis, key.t, c.bool(true)), nil}
	x.recCell(it.cell)
	val := &TV{x.mapGet(st2, mt, it.m.t, key.t), m.Elem()}
	x.loadFacts(st2, val)
	return []Outcome{{st, []Val{&TV{c.bool(false), bt}, zk, zv}}, {st2, []Val{&TV{c.bool(true), bt}, key, x.tv(val.t, val.typ)}}}
}

func (x *Exec) typeAssert(fr *Frame, i *ssa.TypeAssert, st *State) []Outcome {
	c := x.c
	v := x.val(fr, i.X)
	bt := types.Typ[types.Bool]
	to := i.AssertedType
	if iv, ok := v.(*IfaceV); ok {
		if types.Identical(iv.dyn, to) {
			if i.CommaOk {
				return []Outcome{{st, []Val{iv.v, &TV{c.bool(true), bt}}}}
			}
			return []Outcome{{st, []Val{iv.v}}}
		}
	}
	t := x.term(v)
	tag := c.field("itag", t)
	var ok *Term
	var val Val
	if isIface(to) {
		okc := c.constant("implements", "Bool")
		ok = c.and(okc, c.not(c.eq(tag, c.int(0))))
		if tag.kind == kInt {
			if dt := x.w.tagTypes[tag.ival.Int64()]; dt != nil {
				ok = c.bool(types.Implements(dt, under(to).(*types.Interface)))
			}
		}
		val = &TV{t, to}
	} else {
		x.w.tagTypes[c.typeTag(to).ival.Int64()] = to
		ok = c.eq(tag, c.typeTag(to))
		val = x.tv(c.unbox(c.field("ival", t), c.sortOf(to)), to)
	}
	if !i.CommaOk {
		x.must(st, "type-assert", "dynamic type", ok, x.curPos)
		if tv, k := val.(*TV); k {
			x.loadFacts(st, tv)
		}
		return []Outcome{{st, []Val{val}}}
	}
	st2 := st.clone()
	st.assume(ok)
	if tv, k := val.(*TV); k {
		for _, f := range c.typeFacts(tv.t, tv.typ, st.next) {
			st.assume(f)
		}
	}
	st2.assume(c.not(ok))
	var out []Outcome
	if !st.dead() {
		out = append(out, Outcome{st, []Val{val, &TV{c.bool(true), bt}}})
	}
	if !st2.dead() {
		out = append(out, Outcome{st2, []Val{&TV{c.zero(to), to}, &TV{c.bool(false), bt}}})
	}
	return out
}

// ---------------------------------------------------------------- channels

func chanElem(t types.Type) types.Type { return under(t).(*types.Chan).Elem() }

func (x *Exec) sendOuts(fr *Frame, st *State, ch, v Val, vt types.Type) []Outcome {
	st.drained = nil
	if fv, ok := v.(*FV); ok {
		// a closure handed to the goroutine that owns the state: its effect is attributed to the moment it is posted
		x.trust("a closure sent over a channel takes effect as if executed where it is sent")
		var r []Outcome
		before := st.clone()
		for _, o := range x.inline(fr, fv, nil, st) {
			x.posted(before, o.st)
			r = append(r, Outcome{o.st, nil})
		}
		return r
	}
	if b, ok := st.chans[x.term(ch)]; ok {
		b.vals = append(append([]Val{}, b.vals...), v)
		st.chans[x.term(ch)] = b
		return []Outcome{{st, nil}}
	}
	if x.c.sortOf(vt) != "Int" || structOf(vt) == nil { // not struct{}{} signals
		st.emit("Send_"+sanitize(typeKey(vt)), []*Term{x.term(ch), x.term(v)})
		t := x.term(ch)
		n := x.c.sel(st.heap("$nsent"), t)
		x.recHeap("$nsent", nil)
		if h := x.sentHeap(vt); h != "" {
			x.recHeap(h, nil)
			a := x.c.sel(st.heap(h), t)
			st.setHeap(h, x.c.store(st.heap(h), t, x.c.store(a, n, x.term(v))))
		}
		st.setHeap("$nsent", x.c.store(st.heap("$nsent"), t, x.c.add(n, x.c.int(1))))
	}
	return []Outcome{{st, nil}}
}

// a channel of struct{} only signals by being closed
func signalChan(t types.Type) bool {
	s, ok := under(chanElem(t)).(*types.Struct)
	return ok && s.NumFields() == 0
}

func (x *Exec) isClosed(st *State, ch *Term) *Term { return x.c.sel(st.heap("$closed"), ch) }

// canSend: whether the channel can take a value without waiting: decided by the environment, it may change whenever
// something was sent to the channel.
func (x *Exec) canSend(st *State, ch *Term) *Term {
	x.c.fun("cansend", []string{"Int", "Int"}, "Bool")
	return x.c.app("cansend", "Bool", ch, x.c.sel(st.heap("$nsent"), ch))
}

// posted: what a closure executed by another goroutine wrote into the local variables of this one is known only after
// it has synchronized over a channel they share.
func (x *Exec) posted(before, st *State) {
	for k, old := range before.cells {
		v := st.cells[k]
		if v == old || x.cellTyp[k] == nil {
			continue
		}
		if a, ok := v.(*TV); ok {
			if b, ok := old.(*TV); ok && a.t == b.t {
				continue
			}
		}
		u := x.fresh(st, "posted", x.cellTyp[k])
		if st.posted == nil {
			st.posted = map[int]postedVal{}
		}
		st.posted[k] = postedVal{u, v}
		st.cells[k] = u
	}
	for ch, b := range st.chans {
		a, ok := before.chans[ch]
		if ok && !b.synced && (len(a.vals) != len(b.vals) || x.isClosed(before, ch) != x.isClosed(st, ch)) {
			b.synced = true
			st.chans[ch] = b
		}
	}
}

// localChan: the channel is only sent to, received from and closed by this function and its closures.
func localChan(i *ssa.MakeChan) bool {
	for _, r := range *i.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			a, ok := r.Addr.(*ssa.Alloc)
			if !ok || r.Val != i || !localChanVar(a, i) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func localChanVar(v ssa.Value, i *ssa.MakeChan) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != v || r.Val != i {
				return false
			}
		case *ssa.MakeClosure:
			for k, b := range r.Bindings {
				if b == v && !localChanVar(r.Fn.(*ssa.Function).FreeVars[k], i) {
					return false
				}
			}
		case *ssa.UnOp:
			for _, u := range *r.Referrers() {
				switch u := u.(type) {
				case *ssa.DebugRef:
				case *ssa.Send:
					if u.Chan != r || u.X == r {
						return false
					}
				case *ssa.UnOp:
				case *ssa.Call:
					if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "close" {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) closeChan(st *State, ch *Term) {
	if _, ok := st.chans[ch]; !ok {
		st.emit("Close", []*Term{ch})
	}
	x.recHeap("$closed", ch)
	st.setHeap("$closed", x.c.store(st.heap("$closed"), ch, x.c.bool(true)))
}

// the ghost history of the values received from a channel
func (x *Exec) recvHeap(et types.Type) (string, bool) {
	so := x.c.sortOf(et)
	if _, ok := under(et).(*types.Signature); ok || so == "" {
		return "", false
	}
	return x.heapOf("$recv."+typeKey(et), "X", arraySort("Int", arraySort("Int", so)), et, nil), true
}

// the ghost history of the values sent over a channel
func (x *Exec) sentHeap(et types.Type) string {
	so := x.c.sortOf(et)
	if _, ok := under(et).(*types.Signature); ok || so == "" {
		return ""
	}
	n := "$sent." + typeKey(et)
	for _, h := range x.sentHeaps {
		if h == n {
			return n
		}
	}
	x.sentHeaps = append(x.sentHeaps, n)
	return x.heapOf(n, "X", arraySort("Int", arraySort("Int", so)), et, nil)
}

func (x *Exec) noteRecv(st *State, cht types.Type, ch *Term, v Val, ok *Term) {
	c := x.c
	if signalChan(cht) {
		// $awaited is only ever set: it needs no frame
		st.setHeap("$awaited", c.store(st.heap("$awaited"), ch, c.bool(true)))
		return
	}
	h, good := x.recvHeap(chanElem(cht))
	if !good {
		return
	}
	x.heapWrite(st, "$nrecv", ch)
	x.heapWrite(st, h, ch)
	n := c.sel(st.heap("$nrecv"), ch)
	r := c.sel(st.heap(h), ch)
	st.setHeap(h, c.store(st.heap(h), ch, c.store(r, n, x.term(v))))
	m := c.add(n, c.int(1))
	if ok != nil {
		m = c.ite(ok, m, n)
	}
	st.setHeap("$nrecv", c.store(st.heap("$nrecv"), ch, m))
}

// a function received from the channel in a field
type recvdFunc struct {
	name  string
	owner Val
}

func (x *Exec) noteFunc(fr *Frame, st *State, ch ssa.Value, v *TV) {
	if _, ok := under(v.typ).(*types.Signature); !ok {
		return
	}
	x.trust("functions sent over channels are not nil")
	st.assume(x.c.not(x.c.eq(v.t, x.c.int(0))))
	if u, ok := ch.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			el := ptrElem(fa.X.Type())
			x.received[v.t] = recvdFunc{x.w.typeKeyShort(el) + "." + structOf(el).Field(fa.Field).Name(), x.val(fr, fa.X)}
		}
	}
}

func (x *Exec) recv(fr *Frame, i *ssa.UnOp, st *State) []Outcome {
	et := chanElem(i.X.Type())
	ch := x.t(fr, i.X)
	if signalChan(i.X.Type()) {
		if b, ok := st.chans[ch]; !ok || len(b.vals) == 0 {
			st.assume(x.isClosed(st, ch))
		}
	}
	b, local := st.chans[ch]
	if b.synced {
		for k, v := range st.posted {
			if st.cells[k] == v.unknown {
				st.cells[k] = v.val
				x.recCell(k)
			}
		}
		st.posted = nil
	}
	if local && len(b.vals) > 0 && !i.CommaOk {
		v := b.vals[0]
		b.vals = b.vals[1:]
		st.chans[ch] = b
		return []Outcome{{st, []Val{v}}}
	}
	v := x.fresh(st, "recv", et)
	x.noteFunc(fr, st, i.X, v)
	if i.CommaOk {
		ok := x.c.constant("recvok", "Bool")
		x.noteRecv(st, i.X.Type(), ch, v, ok)
		return []Outcome{{st, []Val{v, &TV{ok, types.Typ[types.Bool]}}}}
	}
	x.noteRecv(st, i.X.Type(), ch, v, nil)
	x.yields(fr, st, ch, i.X.Type(), v)
	return []Outcome{{st, []Val{v}}}
}

// yields: what the contract of the verified function assumes about the
// values it receives ($value) from a channel ($chan).
func (x *Exec) yields(fr *Frame, st *State, ch *Term, ct types.Type, v Val) {
	if x.contract == nil || fr == nil {
		return
	}
	for _, cl := range x.contract.get("yields") {
		env := x.loopEnv(fr, x.rootFrame(fr), st)
		env.old = x.entry
		for n, p := range x.params {
			if _, ok := env.lookup(n); !ok {
				env.vars[n] = p
			}
		}
		vt, ok := v.(*TV)
		if !ok {
			continue
		}
		// a clause is about the channels whose elements have its type
		if want := cl.callee; want != "" && want != types.TypeString(chanElem(ct), func(p *types.Package) string { return p.Name() }) {
			continue
		}
		env.vars["$chan"] = &TV{ch, ct}
		env.vars["$value"] = vt
		st.assume(x.evalBool(cl.expr, env))
		x.trust("received values: " + cl.label + " (assumed in " + x.contract.key + ")")
	}
}

func usesOk(i *ssa.Select) bool {
	for _, r := range *i.Referrers() {
		if e, ok := r.(*ssa.Extract); !ok || e.Index == 1 {
			return true
		}
	}
	return false
}

func (x *Exec) doSelect(fr *Frame, i *ssa.Select, st *State) []Outcome {
	c := x.c
	it, bt := types.Typ[types.Int], types.Typ[types.Bool]
	var out []Outcome
	nrecv := 0
	for _, s := range i.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(idx int, okv *Term, r int, rv Val) []Val {
		vals := []Val{&TV{c.int(int64(idx)), it}, &TV{okv, bt}}
		k := 0
		for _, s := range i.States {
			if s.Dir == types.RecvOnly {
				et := chanElem(s.Chan.Type())
				if k == r {
					vals = append(vals, rv)
				} else {
					vals = append(vals, &TV{c.zero(et), et})
				}
				k++
			}
		}
		return vals
	}
	k := 0
	for n, s := range i.States {
		st2 := st.clone()
		if s.Dir == types.RecvOnly {
			v := x.fresh(st2, "recv", chanElem(s.Chan.Type()))
			x.noteFunc(fr, st2, s.Chan, v)
			ok := c.constant("recvok", "Bool")
			if signalChan(s.Chan.Type()) {
				st2.assume(x.isClosed(st2, x.t(fr, s.Chan)))
			}
			if !usesOk(i) {
				x.trust("a channel of data whose end is not checked by its receiver is never closed")
				ok = c.bool(true)
			}
			x.noteRecv(st2, s.Chan.Type(), x.t(fr, s.Chan), v, ok)
			x.yields(fr, st2, x.t(fr, s.Chan), s.Chan.Type(), v)
			out = append(out, Outcome{st2, mk(n, ok, k, v)})
			k++
		} else {
			if !i.Blocking {
				st2.assume(x.canSend(st2, x.t(fr, s.Chan)))
			}
			for _, o := range x.sendOuts(fr, st2, x.val(fr, s.Chan), x.val(fr, s.Send), s.Send.Type()) {
				out = append(out, Outcome{o.st, mk(n, c.bool(false), -1, nil)})
			}
		}
	}
	if !i.Blocking {
		st2 := st.clone()
		st2.drained = nil
		for _, s := range i.States {
			if s.Dir == types.RecvOnly {
				st2.drained = append(st2.drained, x.t(fr, s.Chan))
			}
			if s.Dir == types.RecvOnly && signalChan(s.Chan.Type()) {
				st2.assume(c.not(x.isClosed(st2, x.t(fr, s.Chan))))
			}
			if s.Dir == types.SendOnly {
				if _, local := st2.chans[x.t(fr, s.Chan)]; !local {
					st2.assume(c.not(x.canSend(st2, x.t(fr, s.Chan))))
				}
			}
		}
		out = append(out, Outcome{st2, mk(-1, c.bool(false), -1, nil)})
	}
	return out
}

func (x *Exec) runDefers(fr *Frame, st *State) []Outcome {
	if len(fr.defers) == 0 {
		return []Outcome{{st, nil}}
	}
	cur := []*State{st}
	for k := len(fr.defers) - 1; k >= 0; k-- {
		d, as := fr.defers[k], fr.defArg[k]
		var nx []*State
		for _, s := range cur {
			for _, o := range x.callVals(fr, nil, &d.Call, as, s) {
				nx = append(nx, o.st)
			}
		}
		cur = nx
	}
	fr.defers, fr.defArg = nil, nil
	var out []Outcome
	for _, s := range cur {
		out = append(out, Outcome{s, nil})
	}
	return out
}
