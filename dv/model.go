package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) ufReal(name string, a ...*Term) *Term {
	var ss []string
	for range a {
		ss = append(ss, "Real")
	}
	x.c.fun(name, ss, "Real")
	return x.c.app(name, "Real", a...)
}

func (x *Exec) sqrt(st *State, a *Term) *Term {
	c := x.c
	if a.kind == kReal {
		if n, d := new(big.Int).Sqrt(a.rval.Num()), new(big.Int).Sqrt(a.rval.Denom()); a.rval.Sign() >= 0 {
			if new(big.Int).Mul(n, n).Cmp(a.rval.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(a.rval.Denom()) == 0 {
				return c.real(new(big.Rat).SetFrac(n, d))
			}
		}
	}
	r := x.ufReal("m_sqrt", a)
	if !c.boxes["m_sqrt"] {
		c.boxes["m_sqrt"] = true
		v := c.bound("x", "Real")
		q := c.app("m_sqrt", "Real", v)
		c.axiom("m_sqrt", c.forall([]*Term{v}, [][]*Term{{q}}, c.implies(c.ge(v, c.realInt(0)), c.and(c.ge(q, c.realInt(0)), c.eq(c.mul(q, q), v)))))
	}
	return r
}

func (x *Exec) itoa(t *Term) *Term {
	c := x.c
	if t.kind == kInt {
		return c.str(t.ival.String())
	}
	c.fun("itoa", []string{"Int"}, "String")
	if !c.boxes["itoa"] {
		c.boxes["itoa"] = true
		c.fun("atoi", []string{"String"}, "Int")
		k := c.bound("k", "Int")
		i := c.app("itoa", "String", k)
		c.axiom("itoa", c.forall([]*Term{k}, [][]*Term{{i}}, c.and(c.eq(c.app("atoi", "Int", i), k), c.ge(c.strlen(i), c.int(1)))))
	}
	return c.app("itoa", "String", t)
}

// fmtVerb renders one verb of a format string.
func (x *Exec) fmtVerb(verb string, v Val, typ types.Type) *Term {
	c := x.c
	t := x.term(v)
	last := verb[len(verb)-1]
	if t.sort == "Iface" {
		// a boxed argument: look inside
		tag := c.field("itag", t)
		if tag.kind == kInt {
			if dt := x.w.tagTypes[tag.ival.Int64()]; dt != nil {
				return x.fmtVerb(verb, x.tv(c.unbox(c.field("ival", t), c.sortOf(dt)), dt), dt)
			}
		}
	}
	typ0 := typ
	if typ0 == nil {
		typ0 = x.typOf(v)
	}
	stringer := false
	if typ0 != nil {
		ms := types.NewMethodSet(typ0)
		if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			stringer = true
		}
	}
	if !stringer {
		if (verb == "%s" || verb == "%v") && t.sort == "String" {
			return t
		}
		if verb == "%d" || verb == "%v" && t.sort == "Int" && typ0 != nil && isInt(typ0) {
			if t.sort == "Int" {
				return x.itoa(t)
			}
		}
		if verb == "%c" && t.sort == "Int" {
			return c.fromRune(t)
		}
	} else {
		verb = verb + "." + typeKey(typ0)
	}
	_ = last
	n := "fmt_" + verb2name(verb) + "_" + sanitize(t.sort)
	c.fun(n, []string{t.sort}, "String")
	return c.app(n, "String", t)
}

func verb2name(v string) string {
	var b strings.Builder
	for _, r := range v {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "_%x_", r)
		}
	}
	return b.String()
}

// variadic gives the elements of a variadic argument slice.
func (x *Exec) variadic(st *State, v Val) ([]Val, bool) {
	c := x.c
	s := x.term(v)
	n := c.slen(s)
	if n.kind != kInt {
		return nil, false
	}
	typ := x.typOf(v)
	el := under(typ).(*types.Slice).Elem()
	var out []Val
	for i := int64(0); i < n.ival.Int64(); i++ {
		out = append(out, x.tv(c.sel(c.sel(st.heap(x.elemHeap(el)), c.sref(s)), c.ix(c.soff(s), c.int(i))), el))
	}
	return out, true
}

func (x *Exec) sprintf(st *State, format *Term, args Val) *Term {
	c := x.c
	vs, ok := x.variadic(st, args)
	if format.kind != kStr || !ok {
		return c.constant("sprintf", "String")
	}
	f := format.sval
	r := c.str("")
	k := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		if i+1 < len(f) && f[i+1] == '%' {
			lit += "%"
			i++
			continue
		}
		j := i + 1
		for j < len(f) && !(f[j] >= 'a' && f[j] <= 'z' || f[j] >= 'A' && f[j] <= 'Z') {
			j++
		}
		if j >= len(f) || k >= len(vs) {
			return c.constant("sprintf", "String")
		}
		r = c.concat(r, c.str(lit))
		lit = ""
		r = c.concat(r, x.fmtVerb(f[i:j+1], vs[k], nil))
		k++
		i = j
	}
	if k != len(vs) {
		return c.constant("sprintf", "String")
	}
	return c.concat(r, c.str(lit))
}

func (x *Exec) sprint(st *State, args Val, ln bool) *Term {
	c := x.c
	vs, ok := x.variadic(st, args)
	if !ok {
		return c.constant("sprint", "String")
	}
	r := c.str("")
	for i, v := range vs {
		if ln && i > 0 {
			r = c.concat(r, c.str(" "))
		} else if i > 0 {
			// a blank is added between operands when neither is a string
			a, b := x.fmtVerb("%v", vs[i-1], nil), x.fmtVerb("%v", v, nil)
			_ = a
			_ = b
			t1, t2 := x.dynIsString(vs[i-1]), x.dynIsString(v)
			if !t1 && !t2 {
				r = c.concat(r, c.str(" "))
			}
		}
		r = c.concat(r, x.fmtVerb("%v", v, nil))
	}
	if ln {
		r = c.concat(r, c.str("\n"))
	}
	return r
}

func (x *Exec) dynIsString(v Val) bool {
	t := x.term(v)
	if t.sort == "Iface" {
		tag := x.c.field("itag", t)
		if tag.kind == kInt {
			if dt := x.w.tagTypes[tag.ival.Int64()]; dt != nil {
				return isString(dt)
			}
		}
	}
	return t.sort == "String"
}

func (x *Exec) newError(st *State) *Term {
	c := x.c
	r := st.alloc()
	return c.mk("mkiface", c.int(777001), r)
}

func (x *Exec) write(st *State, w Val, s *Term) {
	t := x.term(w)
	if t.sort != "Iface" {
		v := x.makeIface(w, x.typOf(w), types.NewInterfaceType(nil, nil))
		t = x.term(v)
	}
	st.emit("Write", []*Term{t, s})
}

// model: built-in knowledge of library functions.
func (x *Exec) model(fr *Frame, key string, fn *ssa.Function, a []Val, st *State) ([]Outcome, bool) {
	c := x.c
	sig := fn.Signature
	ret := func(ts ...*Term) ([]Outcome, bool) {
		var vs []Val
		for i, t := range ts {
			vs = append(vs, x.tv(t, sig.Results().At(i).Type()))
		}
		x.trust("model of " + key)
		return []Outcome{{st, vs}}, true
	}
	T := func(i int) *Term { return x.term(a[i]) }
	switch key {
	case "math.Sqrt":
		return ret(x.sqrt(st, T(0)))
	case "math.Abs":
		return ret(c.ite(c.ge(T(0), c.realInt(0)), T(0), c.neg(T(0))))
	case "math.Floor":
		return ret(c.toReal(c.floor(T(0))))
	case "math.Ceil":
		return ret(c.toReal(c.ceil(T(0))))
	case "math.Round":
		return ret(c.toReal(c.round(T(0))))
	case "math.Trunc":
		return ret(c.toReal(c.trunc(T(0))))
	case "math.Max":
		return ret(c.ite(c.ge(T(0), T(1)), T(0), T(1)))
	case "math.Min":
		return ret(c.ite(c.le(T(0), T(1)), T(0), T(1)))
	case "math.IsNaN":
		return ret(c.bool(false))
	case "math.IsInf":
		return ret(c.bool(false))
	case "math.Log10", "math.Log", "math.Exp", "math.Sin", "math.Cos", "math.Log2", "math.Tan", "math.Atan":
		return ret(x.ufReal("m_"+strings.ToLower(strings.TrimPrefix(key, "math.")), T(0)))
	case "math.Hypot":
		s := c.add(c.mul(T(0), T(0)), c.mul(T(1), T(1)))
		return ret(x.sqrt(st, s))
	case "math.Pow":
		if T(1).kind == kReal && T(1).rval.IsInt() {
			n := T(1).rval.Num().Int64()
			if n >= 0 && n <= 4 {
				r := c.realInt(1)
				for ; n > 0; n-- {
					r = c.mul(r, T(0))
				}
				return ret(r)
			}
		}
		return ret(x.ufReal("m_pow", T(0), T(1)))
	case "errors.New":
		return ret(x.newError(st))
	case "fmt.Errorf":
		return ret(x.newError(st))
	case "fmt.Sprintf":
		return ret(x.sprintf(st, T(0), a[1]))
	case "fmt.Sprint":
		return ret(x.sprint(st, a[0], false))
	case "fmt.Sprintln":
		return ret(x.sprint(st, a[0], true))
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		var s *Term
		switch key {
		case "fmt.Fprintf":
			s = x.sprintf(st, T(1), a[2])
		case "fmt.Fprint":
			s = x.sprint(st, a[1], false)
		default:
			s = x.sprint(st, a[1], true)
		}
		x.write(st, a[0], s)
		st.advanceNext()
		x.trust("model of " + key)
		return []Outcome{{st, x.resultVals(st, sig, "w")}}, true
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Printf", "log.Print", "log.Println":
		x.trust("model of " + key + " (no effect on the state)")
		return []Outcome{{st, x.resultVals(st, sig, "w")}}, true
	case "log.Fatal", "log.Fatalf", "os.Exit":
		return nil, true
	case "strings.HasPrefix":
		return ret(c.app("str.prefixof", "Bool", T(1), T(0)))
	case "strings.HasSuffix":
		return ret(c.app("str.suffixof", "Bool", T(1), T(0)))
	case "strings.Contains":
		return ret(c.app("str.contains", "Bool", T(0), T(1)))
	case "strings.Index":
		return ret(c.app("str.indexof", "Int", T(0), T(1), c.int(0)))
	case "strings.TrimPrefix":
		return ret(c.ite(c.app("str.prefixof", "Bool", T(1), T(0)), c.substr(T(0), c.strlen(T(1)), c.strlen(T(0))), T(0)))
	case "strings.TrimSuffix":
		return ret(c.ite(c.app("str.suffixof", "Bool", T(1), T(0)), c.substr(T(0), c.int(0), c.sub(c.strlen(T(0)), c.strlen(T(1)))), T(0)))
	case "strconv.Itoa":
		return ret(x.itoa(T(0)))
	case "time.Time.Sub":
		return ret(c.sub(T(0), T(1)))
	case "time.Time.Add":
		return ret(c.add(T(0), T(1)))
	case "time.Time.After":
		return ret(c.gt(T(0), T(1)))
	case "time.Time.Before":
		return ret(c.lt(T(0), T(1)))
	case "time.Time.Equal":
		return ret(c.eq(T(0), T(1)))
	case "time.Time.IsZero":
		return ret(c.eq(T(0), c.namedConst("time.zero", "Int")))
	case "time.Time.UTC", "time.Time.Local":
		return ret(T(0))
	case "time.Time.UnixNano":
		return ret(T(0))
	case "time.Now":
		k := x.fresh(st, "now", sig.Results().At(0).Type())
		return ret(k.t)
	case "time.Since":
		k := c.constant("now", "Int")
		return ret(c.sub(k, T(0)))
	case "time.Duration.Seconds":
		return ret(c.rdiv(c.toReal(T(0)), c.realInt(1000000000)))
	case "time.Duration.Milliseconds":
		return ret(c.idiv(T(0), c.int(1000000)))
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock", "sync.WaitGroup.Add", "sync.WaitGroup.Done", "sync.WaitGroup.Wait":
		x.trust("locking has no effect on the sequential state")
		return []Outcome{{st, nil}}, true
	}
	return nil, false
}

func (x *Exec) modelInvoke(fr *Frame, key string, cc *ssa.CallCommon, a []Val, st *State) ([]Outcome, bool) {
	c := x.c
	m := cc.Method
	sig := cc.Signature()
	if m.Name() == "Write" && sig.Params().Len() == 1 && typeKey(sig.Params().At(0).Type()) == "[]byte" || m.Name() == "Write" && sig.Params().Len() == 1 && typeKey(sig.Params().At(0).Type()) == "[]uint8" {
		x.write(st, a[0], x.bytesToString(st, x.term(a[1])))
		st.advanceNext()
		x.trust("model of io.Writer.Write: an event, the buffer is not modified, 0 <= n <= len(p), an error if n < len(p)")
		vs := x.resultVals(st, sig, "w")
		if len(vs) == 2 {
			n, l := x.term(vs[0]), c.slen(x.term(a[1]))
			w, s := x.term(a[0]), x.bytesToString(st, x.term(a[1]))
			x.recHeap("$written", nil)
			st.setHeap("$written", c.store(st.heap("$written"), w, c.concat(c.sel(st.heap("$written"), w), c.substr(s, c.int(0), n))))
			st.assume(c.and(c.le(c.int(0), n), c.le(n, l), c.or(c.eq(n, l), c.not(x.isNilVal(vs[1], sig.Results().At(1).Type())))))
		}
		return []Outcome{{st, vs}}, true
	}
	if m.Name() == "Error" && sig.Params().Len() == 0 {
		c.fun("errstr", []string{"Iface"}, "String")
		return []Outcome{{st, []Val{&TV{c.app("errstr", "String", x.term(a[0])), tString}}}}, true
	}
	return nil, false
}
