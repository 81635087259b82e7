package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

// typeKey gives a stable name of a Go type.
func typeKey(t types.Type) string {
	s := typeKey1(t)
	// byte and uint8, rune and int32 are the same types
	s = aliasRE.ReplaceAllStringFunc(s, func(m string) string {
		if strings.HasSuffix(m, "byte") {
			return m[:len(m)-4] + "uint8"
		}
		return m[:len(m)-4] + "int32"
	})
	return s
}

var aliasRE = regexp.MustCompile(`(^|[^A-Za-z0-9_.])(byte|rune)\b`)

func typeKey1(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		pp := p.Path()
		if i := strings.LastIndexByte(pp, '/'); i >= 0 {
			pp = pp[i+1:]
		}
		return pp
	})
}

func isTimeTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}

func structOf(t types.Type) *types.Struct {
	s, _ := under(t).(*types.Struct)
	return s
}

func ptrElem(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func structSortName(t types.Type) string { return "S_" + sanitize(typeKey(t)) }

func fieldSel(t types.Type, i int) string {
	return fmt.Sprintf("%s.%d_%s", structSortName(t), i, sanitize(structOf(t).Field(i).Name()))
}

// sortOf maps a Go type to an SMT sort, declaring datatypes on the way.
func (c *Ctx) sortOf(t types.Type) string {
	if isTimeTime(t) {
		return "Int"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Info()&types.IsComplex != 0:
			return "Cplx"
		case u.Info()&types.IsString != 0:
			return "String"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return arraySort("Int", c.sortOf(u.Elem()))
	case *types.Struct:
		n := structSortName(t)
		if u.NumFields() == 0 {
			return "Int" // the only value is 0
		}
		if _, ok := c.sortSeen[n]; ok {
			return n
		}
		var fs, ss []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, fieldSel(t, i))
			ss = append(ss, c.sortOf(u.Field(i).Type()))
		}
		c.declDatatype(n, "mk_"+n, fs, ss)
		return n
	case *types.Tuple:
		return "Int"
	}
	return "Int"
}

func (c *Ctx) zero(t types.Type) *Term {
	if isTimeTime(t) {
		return c.namedConst("time.zero", "Int")
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.bool(false)
		case u.Info()&types.IsInteger != 0:
			return c.int(0)
		case u.Info()&types.IsFloat != 0:
			return c.realInt(0)
		case u.Info()&types.IsComplex != 0:
			return c.mk("mkcplx", c.realInt(0), c.realInt(0))
		case u.Info()&types.IsString != 0:
			return c.str("")
		}
		return c.int(0)
	case *types.Slice:
		return c.mk("mkslice", c.int(0), c.int(0), c.int(0), c.int(0))
	case *types.Interface:
		return c.mk("mkiface", c.int(0), c.int(0))
	case *types.Array:
		return c.constArr(c.sortOf(t), c.zero(u.Elem()))
	case *types.Struct:
		if u.NumFields() == 0 {
			return c.int(0)
		}
		s := c.sortOf(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, c.zero(u.Field(i).Type()))
		}
		return c.mk("mk_"+s, as...)
	}
	return c.int(0)
}

func intRange(t types.Type) (lo, hi *big.Int, small bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return nil, nil, false
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	one := big.NewInt(1)
	sg := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), one), true
	}
	us := func(n uint) (*big.Int, *big.Int, bool) { return big.NewInt(0), new(big.Int).Sub(p(n), one), true }
	switch b.Kind() {
	case types.Int8:
		return sg(8)
	case types.Int16:
		return sg(16)
	case types.Int32:
		return sg(32)
	case types.Uint8:
		return us(8)
	case types.Uint16:
		return us(16)
	case types.Uint32:
		return us(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return us(64)
	}
	return nil, nil, false
}

// wrap reduces a mathematical integer into a small machine type (exact two's complement).
func (c *Ctx) wrap(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if x.kind == kInt {
		if x.ival.Cmp(lo) >= 0 && x.ival.Cmp(hi) <= 0 {
			return x
		}
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		r := new(big.Int).Mod(new(big.Int).Sub(x.ival, lo), m)
		return c.bigint(new(big.Int).Add(r, lo))
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	in := c.and(c.le(c.bigint(lo), x), c.le(x, c.bigint(hi)))
	md := c.app("mod", "Int", c.sub(x, c.bigint(lo)), c.bigint(m))
	return c.ite(in, x, c.add(md, c.bigint(lo)))
}

// typeFacts: what holds of every value of the type (ranges, slice well-formedness, allocatedness).
func (c *Ctx) typeFacts(x *Term, t types.Type, next *Term) []*Term {
	if isTimeTime(t) {
		return nil
	}
	var out []*Term
	switch u := under(t).(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok && !lit(x) {
			out = append(out, c.le(c.bigint(lo), x), c.le(x, c.bigint(hi)))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if x.kind != kInt && x.alloc == 0 {
			out = append(out, c.ge(x, c.int(0)))
			if next != nil {
				out = append(out, c.lt(x, next))
			}
		}
	case *types.Slice:
		if c.isCtor(x) {
			return nil
		}
		r, o, l, k := c.sref(x), c.soff(x), c.slen(x), c.scap(x)
		out = append(out, c.ge(r, c.int(0)), c.ge(o, c.int(0)), c.ge(l, c.int(0)), c.le(l, k), c.implies(c.eq(r, c.int(0)), c.and(c.eq(k, c.int(0)), c.eq(o, c.int(0)))))
		if next != nil {
			out = append(out, c.lt(r, next))
		}
	case *types.Interface:
		if c.isCtor(x) {
			return nil
		}
		out = append(out, c.ge(c.field("itag", x), c.int(0)), c.implies(c.eq(c.field("itag", x), c.int(0)), c.eq(c.field("ival", x), c.int(0))))
	case *types.Array:
		// the places beyond the array hold zero values: equal elements make equal arrays
		if u.Len() <= 16 && !c.isCtor(x) {
			i := c.bound("i", "Int")
			s := c.app("select", c.sortOf(u.Elem()), x, i)
			out = append(out, c.forall([]*Term{i}, [][]*Term{{s}}, c.implies(c.or(c.lt(i, c.int(0)), c.ge(i, c.int(u.Len()))), c.app("=", "Bool", s, c.zero(u.Elem())))))
		}
	case *types.Struct:
		if c.isCtor(x) || u.NumFields() == 0 {
			return nil
		}
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, c.typeFacts(c.field(fieldSel(t, i), x), u.Field(i).Type(), next)...)
		}
		if len(out) > 60 {
			return nil
		}
	}
	var r []*Term
	for _, f := range out {
		if !f.isTrue() {
			r = append(r, f)
		}
	}
	return r
}

// tag of a dynamic type in an interface value
func (c *Ctx) typeTag(t types.Type) *Term {
	k := typeKey(t)
	h := uint32(2166136261)
	for i := 0; i < len(k); i++ {
		h = (h ^ uint32(k[i])) * 16777619
	}
	return c.int(int64(h%1000000007) + 1)
}

// box a value of a non-pointer dynamic type into an interface payload.
func (c *Ctx) box(x *Term) *Term {
	if x.sort == "Int" {
		return x
	}
	n := "box_" + sanitize(x.sort)
	u := "un" + n
	if !c.boxes[n] {
		c.boxes[n] = true
		c.fun(n, []string{x.sort}, "Int")
		c.fun(u, []string{"Int"}, x.sort)
		v := c.bound("b", x.sort)
		bx := c.app(n, "Int", v)
		c.axiom(n, c.forall([]*Term{v}, [][]*Term{{bx}}, c.app("=", "Bool", c.app(u, x.sort, bx), v)))
	}
	return c.app(n, "Int", x)
}

func (c *Ctx) unbox(p *Term, sort string) *Term {
	if sort == "Int" {
		return p
	}
	n := "box_" + sanitize(sort)
	if p.kind == kApp && p.op == n {
		return p.args[0]
	}
	if !c.boxes[n] {
		v := c.constant("dummy", sort)
		c.box(v)
	}
	return c.app("un"+n, sort, p)
}
