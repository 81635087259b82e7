package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ftl/sdrainer"

// World is the loaded program together with its specification.
type World struct {
	mu       sync.Mutex // held while obligations are generated
	repo     string
	spec     *Spec
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     []*packages.Package
	ssaPkgs  []*ssa.Package
	funcs    map[string][]*ssa.Function // by key
	all      []*ssa.Function
	loops    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	loopOrds map[*ssa.Function]map[*ssa.BasicBlock]int
	tagTypes map[int64]types.Type
	typPkgs  map[string]*types.Package // by path
	gstores  map[*ssa.Global][]*ssa.Store
	curLemma *Lemma
	gotParam map[string]string
}

func load(repo string, spec *Spec) (*World, error) {
	const goroot = "/opt/veriftools/go1.23.12"
	os.Setenv("GOROOT", goroot)
	os.Setenv("PATH", goroot+"/bin:"+os.Getenv("PATH"))
	for _, kv := range [][2]string{{"GOTOOLCHAIN", "local"}, {"GOPROXY", "off"}, {"GOFLAGS", "-mod=mod"}, {"GOWORK", "off"}, {"GOSUMDB", "off"}} {
		os.Setenv(kv[0], kv[1])
	}
	overlay := map[string][]byte{}
	byPkg := map[string][]string{}
	for _, s := range spec.inst {
		p, e, _ := strings.Cut(s, "|")
		byPkg[p] = append(byPkg[p], e)
	}
	for p, es := range byPkg {
		var b strings.Builder
		name := p
		if i := strings.LastIndexByte(p, '/'); i >= 0 {
			name = p[i+1:]
		}
		fmt.Fprintf(&b, "package %s\n\nfunc dv__instantiate() []any {\n\treturn []any{\n", name)
		for _, e := range es {
			// "new(T) Method Method": all methods are referenced
			f := strings.Fields(e)
			for _, m := range f[1:] {
				fmt.Fprintf(&b, "\t\t(*%s).%s,\n", f[0], m)
			}
			if len(f) == 1 {
				fmt.Fprintf(&b, "\t\t%s,\n", f[0])
			}
		}
		b.WriteString("\t}\n}\n")
		overlay[filepath.Join(repo, p, "dv__instantiate.go")] = []byte(b.String())
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedExportFile | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedTypesInfo | packages.NeedSyntax,
		Dir:     repo,
		Overlay: overlay,
	}
	pk, err := packages.Load(cfg, "./...", "github.com/ftl/digimodes/cw", "github.com/ftl/hamradio/callsign")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("the source does not compile: %v", e)
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	w := &World{repo: repo, spec: spec, prog: prog, pkgs: pk, ssaPkgs: sp, fset: pk[0].Fset, funcs: map[string][]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, loopOrds: map[*ssa.Function]map[*ssa.BasicBlock]int{}, tagTypes: map[int64]types.Type{}, typPkgs: map[string]*types.Package{}, gstores: map[*ssa.Global][]*ssa.Store{}}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if w.typPkgs[p.Path()] != nil {
			return
		}
		w.typPkgs[p.Path()] = p
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, p := range pk {
		visit(p.Types)
	}
	for f := range ssautil.AllFunctions(prog) {
		w.all = append(w.all, f)
	}
	sort.Slice(w.all, func(i, j int) bool { return w.all[i].String() < w.all[j].String() })
	for _, f := range w.all {
		if len(f.Blocks) == 0 {
			continue
		}
		if !w.inModule(f) {
			if f.Name() == "init" {
				w.initStores(f)
			}
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		if f.Parent() != nil && genericParent(f) {
			continue
		}
		if strings.Contains(f.Name(), "$bound") || strings.Contains(f.Name(), "$thunk") {
			continue
		}
		if f.Synthetic != "" && !strings.Contains(f.Synthetic, "instance of") && f.Name() != "init" {
			continue
		}
		k := w.keyOf(f)
		w.funcs[k] = append(w.funcs[k], f)
		w.initStores(f)
	}
	return w, nil
}

// initStores collects the assignments to package variables.
func (w *World) initStores(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if g, ok := rootGlobal(s.Addr); ok {
					w.gstores[g] = append(w.gstores[g], s)
				}
			}
		}
	}
}

func genericParent(f *ssa.Function) bool {
	for p := f; p != nil; p = p.Parent() {
		if p.TypeParams().Len() > 0 && len(p.TypeArgs()) == 0 {
			return true
		}
	}
	return false
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch u := v.(type) {
		case *ssa.Global:
			return u, true
		case *ssa.FieldAddr:
			v = u.X
		case *ssa.IndexAddr:
			v = u.X
		default:
			return nil, false
		}
	}
}

func (w *World) shortPath(p string) string {
	if p == modPath {
		return "main"
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func (w *World) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	p := f.Pkg
	if p == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (w *World) typeKeyShort(t types.Type) string {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return w.shortPath(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return typeKey(t)
}

func (w *World) keyOf(f *ssa.Function) string {
	if f.Parent() != nil {
		n := f.Name()
		if k := strings.LastIndexByte(n, '$'); k >= 0 {
			n = n[k:]
		}
		return w.keyOf(f.Parent()) + n
	}
	name := f.Name()
	if o := f.Origin(); o != nil {
		f = o
		name = o.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		return w.typeKeyShort(r.Type()) + "." + name
	}
	if f.Pkg != nil {
		return w.shortPath(f.Pkg.Pkg.Path()) + "." + name
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return w.shortPath(o.Pkg().Path()) + "." + name
	}
	return f.String()
}

func (w *World) ifaceKey(t types.Type, m *types.Func) string {
	return w.typeKeyShort(t) + "." + m.Name()
}

func (w *World) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

func (w *World) pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func (w *World) pkgByShort(s string) *types.Package {
	if s == "" {
		return nil
	}
	if s == "main" {
		return w.typPkgs[modPath]
	}
	if p := w.typPkgs[modPath+"/"+s]; p != nil {
		return p
	}
	if p := w.typPkgs[s]; p != nil {
		return p
	}
	// the shortest imported path that ends with this name
	best := ""
	for k := range w.typPkgs {
		if strings.HasSuffix(k, "/"+s) && (best == "" || len(k) < len(best) || len(k) == len(best) && k < best) {
			best = k
		}
	}
	return w.typPkgs[best]
}

func (w *World) shortOf(p *types.Package) string {
	if p == nil {
		return ""
	}
	return w.shortPath(p.Path())
}

// importOf resolves a package name as seen from a package.
func (w *World) importOf(p *types.Package, name string) *types.Package {
	if p != nil {
		for _, i := range p.Imports() {
			if i.Name() == name {
				return i
			}
		}
		if p.Name() == name {
			return p
		}
	}
	if q := w.pkgByShort(name); q != nil {
		return q
	}
	for _, q := range w.typPkgs {
		if q.Name() == name {
			return q
		}
	}
	return nil
}

func (w *World) typeByName(n string, pkg *types.Package, fn *ssa.Function) types.Type {
	switch {
	case strings.HasPrefix(n, "chan "):
		if t := w.typeByName(n[5:], pkg, fn); t != nil {
			return types.NewChan(types.SendRecv, t)
		}
		return nil
	case strings.HasPrefix(n, "*"):
		if t := w.typeByName(n[1:], pkg, fn); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(n, "[") && !strings.HasPrefix(n, "[]"):
		k := strings.IndexByte(n, ']')
		l, err := strconv.Atoi(n[1:k])
		if e := w.typeByName(n[k+1:], pkg, fn); e != nil && err == nil {
			return types.NewArray(e, int64(l))
		}
		return nil
	case strings.HasPrefix(n, "[]"):
		if t := w.typeByName(n[2:], pkg, fn); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(n, "map["):
		d := 0
		for i := 3; i < len(n); i++ {
			if n[i] == '[' {
				d++
			} else if n[i] == ']' {
				d--
				if d == 0 {
					k, v := w.typeByName(n[4:i], pkg, fn), w.typeByName(n[i+1:], pkg, fn)
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
	case strings.HasPrefix(n, "arr["):
		if t := w.typeByName(n[4:len(n)-1], pkg, fn); t != nil {
			return types.NewArray(t, 0)
		}
		return nil
	}
	switch n {
	case "real":
		return tReal
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.NewInterfaceType(nil, nil)
	}
	if o := types.Universe.Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	base, args := n, ""
	if i := strings.IndexByte(n, '['); i > 0 {
		base, args = n[:i], n[i+1:len(n)-1]
	}
	var o types.Object
	if i := strings.IndexByte(base, '.'); i >= 0 {
		if p := w.importOf(pkg, base[:i]); p != nil {
			o = p.Scope().Lookup(base[i+1:])
		}
	} else if pkg != nil {
		o = pkg.Scope().Lookup(base)
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		// a type parameter of the function
		if fn != nil {
			g := fn
			for g.Parent() != nil {
				g = g.Parent()
			}
			if og := g.Origin(); og != nil {
				tp := og.TypeParams()
				if r := og.Signature.RecvTypeParams(); r != nil && r.Len() > 0 {
					tp = r
				}
				for i := 0; i < tp.Len() && i < len(g.TypeArgs()); i++ {
					if tp.At(i).Obj().Name() == n {
						return g.TypeArgs()[i]
					}
				}
			}
		}
		switch n {
		case "T", "M":
			return types.Typ[types.Float32]
		case "F":
			return types.Typ[types.Int]
		}
		return nil
	}
	t := tn.Type()
	named, ok := t.(*types.Named)
	if !ok || named.TypeParams().Len() == 0 {
		return t
	}
	var ta []types.Type
	if args != "" {
		for _, a := range strings.Split(args, ",") {
			at := w.typeByName(strings.TrimSpace(a), pkg, fn)
			if at == nil {
				return nil
			}
			ta = append(ta, at)
		}
	} else {
		for i := 0; i < named.TypeParams().Len(); i++ {
			at := w.typeByName(named.TypeParams().At(i).Obj().Name(), nil, fn)
			if at == nil {
				return nil
			}
			ta = append(ta, at)
		}
	}
	it, err := types.Instantiate(nil, named, ta, false)
	if err != nil {
		return nil
	}
	return it
}

// ---------------------------------------------------------------- loops

func (w *World) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := w.loops[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				// back edge b -> s
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	w.loops[f] = l
	var hs []*ssa.BasicBlock
	for h := range l {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	o := map[*ssa.BasicBlock]int{}
	for i, h := range hs {
		o[h] = i
	}
	w.loopOrds[f] = o
	return l
}

func (w *World) loopOrd(f *ssa.Function, h *ssa.BasicBlock) int {
	w.loopsOf(f)
	return w.loopOrds[f][h]
}

// ---------------------------------------------------------------- globals

func (x *Exec) globalAddr(g *ssa.Global) Val {
	el := ptrElem(g.Type())
	name := "G." + g.String()
	x.heapOf(name, "P", arraySort("Int", x.c.sortOf(el)), el, nil)
	return &PV{&Place{kind: pGlobal, heap: name, ref: x.c.int(0), root: el, typ: el}, g.Type()}
}

// globalValue gives the value of a package variable that is only assigned by its initialisation.
func (x *Exec) globalValue(g *ssa.Global, st *State) Val {
	if v, ok := x.globals[g.String()]; ok {
		return v
	}
	c := x.c
	el := ptrElem(g.Type())
	stores := x.w.gstores[g]
	inMod := g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
	if inMod {
		for _, s := range stores {
			if s.Parent().Name() != "init" && !strings.HasPrefix(s.Parent().Name(), "init#") {
				return nil
			}
		}
		if x.w.addrTaken(g) {
			return nil
		}
		if len(stores) == 0 {
			v := &TV{c.zero(el), el}
			x.globals[g.String()] = v
			return v
		}
		if len(stores) == 1 {
			if k, ok := stores[0].Val.(*ssa.Const); ok && stores[0].Addr == g {
				v := x.constVal(k)
				x.globals[g.String()] = v
				return v
			}
		}
	}
	// a composite value of constants
	if t := x.structInit(g, stores, st); t != nil {
		v := &TV{t, el}
		x.globals[g.String()] = v
		if !inMod {
			x.trust("package variable " + g.String() + " keeps its initial value")
		}
		return v
	}
	// an unknown constant
	k := c.namedConst("g_"+g.String(), c.sortOf(el))
	if !k.seqSet {
		k.seqSet = true
		k.stable = true
		k.facts = c.typeFacts(k, el, x.entryNext)
		if inMod && len(stores) == 1 {
			// initialised by an allocation: not nil
			switch stores[0].Val.(type) {
			case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeClosure:
				k.facts = append(k.facts, c.not(c.eq(k, c.int(0))))
			case *ssa.Call:
				call := stores[0].Val.(*ssa.Call)
				if f := call.Call.StaticCallee(); f != nil && (f.String() == "regexp.MustCompile" || f.String() == "errors.New") {
					if k.sort == "Int" {
						k.facts = append(k.facts, c.not(c.eq(k, c.int(0))))
					} else if k.sort == "Iface" {
						k.facts = append(k.facts, c.not(c.eq(c.field("itag", k), c.int(0))))
					}
				}
			}
		} else if !inMod && k.sort == "Iface" {
			// exported error values of libraries
			k.facts = append(k.facts, c.not(c.eq(c.field("itag", k), c.int(0))))
		}
	}
	v := &TV{k, el}
	x.globals[g.String()] = v
	x.trust("package variable " + g.String() + " keeps its initial value")
	if inMod && len(stores) == 1 {
		x.tableFacts(g, stores[0], k, el, st)
	}
	return v
}

// structInit: the initial value of a struct variable, if all its parts are constants.
func (x *Exec) structInit(g *ssa.Global, stores []*ssa.Store, st *State) *Term {
	el := ptrElem(g.Type())
	if structOf(el) == nil || isTimeTime(el) || len(stores) == 0 {
		return nil
	}
	t := x.c.zero(el)
	for _, s := range stores {
		if s.Parent().Name() != "init" {
			return nil
		}
		e := x.initVal(nil, s.Val, st)
		if e == nil {
			return nil
		}
		switch a := s.Addr.(type) {
		case *ssa.Global:
			if len(stores) > 1 {
				return nil
			}
			t = e
		case *ssa.FieldAddr:
			if a.X != g {
				return nil
			}
			t = x.updPath(t, []pstep{{styp: el, field: a.Field}}, e)
		default:
			return nil
		}
	}
	return t
}

// tableFacts: the content of a map filled by the package initialisation with constants.
func (x *Exec) tableFacts(g *ssa.Global, s *ssa.Store, k *Term, el types.Type, st *State) {
	mm, ok := s.Val.(*ssa.MakeMap)
	if !ok {
		return
	}
	mt, ok := under(el).(*types.Map)
	if !ok || x.w.mapMutated(g) {
		return
	}
	c := x.c
	md, mv := x.mapHeaps(el)
	ks, vs := c.sortOf(mt.Key()), c.sortOf(mt.Elem())
	dom := c.constArr(arraySort(ks, "Bool"), c.bool(false))
	val := c.constant("table", arraySort(ks, vs))
	fn := s.Parent()
	// run the initialisation for this map only: the blocks are straight line code
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, live: map[*ssa.Alloc]int{}, params: map[string]Val{}}
	ist := x.entry.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	var domS, valS = dom, val
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok && mu.Map == mm {
				key := x.initVal(fr, mu.Key, ist)
				vv := x.initVal(fr, mu.Value, ist)
				if key == nil || vv == nil {
					return
				}
				domS = c.store(domS, key, c.bool(true))
				valS = c.store(valS, key, vv)
			}
		}
	}
	k.facts = append(k.facts,
		c.app("=", "Bool", c.app("select", dom.sort, x.entry.heap(md), k), domS),
		c.app("=", "Bool", c.app("select", val.sort, x.entry.heap(mv), k), valS))
	x.trust("table " + g.String() + ": content taken from its initialisation")
}

// initVal evaluates a value of an initialisation expression: constants and composite literals of constants.
func (x *Exec) initVal(fr *Frame, v ssa.Value, st *State) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return x.term(x.constVal(v))
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			el := ptrElem(a.Type())
			t := x.c.zero(el)
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.FieldAddr:
					for _, r2 := range *r.Referrers() {
						if s, ok := r2.(*ssa.Store); ok {
							e := x.initVal(fr, s.Val, st)
							if e == nil {
								return nil
							}
							t = x.updPath(t, []pstep{{styp: el, field: r.Field}}, e)
						}
					}
				case *ssa.IndexAddr:
					for _, r2 := range *r.Referrers() {
						if s, ok := r2.(*ssa.Store); ok {
							e := x.initVal(fr, s.Val, st)
							i := x.initVal(fr, r.Index, st)
							if e == nil || i == nil {
								return nil
							}
							t = x.c.store(t, i, e)
						}
					}
				case *ssa.Store:
					if r.Addr == a {
						return nil
					}
				}
			}
			return t
		}
	case *ssa.Convert:
		if e := x.initVal(fr, v.X, st); e != nil {
			return x.term(x.convert(st, &TV{e, v.X.Type()}, v.X.Type(), v.Type()))
		}
	case *ssa.ChangeType:
		return x.initVal(fr, v.X, st)
	}
	return nil
}

func (w *World) addrTaken(g *ssa.Global) bool {
	for _, f := range w.all {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != g {
						continue
					}
					switch i := ins.(type) {
					case *ssa.Store:
						if i.Val == g {
							return true
						}
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

// mapMutated: is a package level map written outside of the package initialisation?
func (w *World) mapMutated(g *ssa.Global) bool {
	for _, f := range w.all {
		if f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.X != g {
					continue
				}
				for _, r := range *u.Referrers() {
					switch r := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
							return true
						}
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

func (w *World) closureContract(fn *ssa.Function) *Contract { return nil }

func (w *World) pureResult(con *Contract, x *Exec, env *Env) types.Type {
	// find the declared function or interface method
	k := strings.LastIndexByte(con.key, '.')
	q, name := con.key[:k], con.key[k+1:]
	if p := w.pkgByShort(q); p != nil {
		if f, ok := p.Scope().Lookup(name).(*types.Func); ok {
			return f.Type().(*types.Signature).Results().At(0).Type()
		}
	}
	k = strings.LastIndexByte(q, '.')
	if k > 0 {
		if p := w.pkgByShort(q[:k]); p != nil {
			if o := p.Scope().Lookup(q[k+1:]); o != nil {
				obj, _, _ := types.LookupFieldOrMethod(o.Type(), true, p, name)
				if f, ok := obj.(*types.Func); ok {
					return f.Type().(*types.Signature).Results().At(0).Type()
				}
			}
		}
	}
	panic(unsupported("spec: cannot find the signature of " + con.key))
}

func (w *World) lemmaBefore(a, b *Lemma) bool {
	for _, l := range w.spec.lemmas {
		if l == a {
			return true
		}
		if l == b {
			return false
		}
	}
	return false
}

var _ ast.Node

func (w *World) modulePkgs() []*types.Package {
	var ps []string
	for p := range w.typPkgs {
		if strings.HasPrefix(p, modPath) {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	var r []*types.Package
	for _, p := range ps {
		r = append(r, w.typPkgs[p])
	}
	return r
}
