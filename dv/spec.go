package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- AST

type Expr struct {
	kind string // lit_int lit_real lit_str lit_bool nil name field index slice call bin un quant ite let event
	op   string
	name string
	args []*Expr
	vars []QVar
	trig []*Expr
	text string
}

type QVar struct{ name, typ string }

type Clause struct {
	kind  string
	props []string
	label string
	expr  *Expr
	text  string
	// oncall
	callee string
	// modifies
	items []*Expr
	line  string
}

func (c *Clause) forProp(p string) bool {
	if p == "" || len(c.props) == 0 {
		return true
	}
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	return false
}

type Contract struct {
	kind     string // func, extern
	pkg      string // package suffix the spec file is about
	key      string // function key
	recv     string
	params   []string
	results  []string
	props    []string
	clauses  []*Clause
	pure     bool
	helper   bool            // may be dropped (and the function inlined) when the code has been restructured
	reveal   map[string]bool // opaque predicates that are expanded here
	inline   bool            // callers inline the body instead of using the contract
	noframe  bool            // no modifies clause given => everything unspecified may change (only for loops run by goroutines)
	spec     bool            // has any requires/ensures
	file     string
	line     int
	variadic bool
}

func (c *Contract) get(kind string) []*Clause {
	var r []*Clause
	for _, cl := range c.clauses {
		if cl.kind == kind {
			r = append(r, cl)
		}
	}
	return r
}

func (c *Contract) hasProp(p string) bool {
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	return false
}

type Pred struct {
	name   string
	params []string
	body   *Expr
	pkg    string
	opaque bool // a name for its meaning in the current memory, except where it is revealed
}

type SpecFn struct {
	name   string
	params []QVar
	ret    string
	body   *Expr // nil: uninterpreted
	opaque bool  // never expanded in place; ground applications get their defining equation
	pkg    string
}

type Lemma struct {
	name     string
	params   []QVar
	requires []*Expr
	ensures  *Expr
	induct   string
	trig     []*Expr
	props    []string
	pkg      string
	axiom    bool
	text     string
	uses     []*Expr
}

type Spec struct {
	contracts map[string]*Contract
	order     []*Contract
	preds     map[string]*Pred
	fns       map[string]*SpecFn
	lemmas    []*Lemma
	inst      []string // extra instantiations: "pkg: expr"
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k string // id int real str op eof
	s string
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	isId := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$'
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
					case 'r':
						b.WriteByte('\r')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(s[j])
					}
				} else {
					b.WriteByte(s[j])
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
		case c == '\'':
			j := i + 1
			v := int(s[j])
			if s[j] == '\\' {
				j++
				switch s[j] {
				case 'n':
					v = 10
				case 'r':
					v = 13
				case 't':
					v = 9
				default:
					v = int(s[j])
				}
			}
			if s[j+1] != '\'' {
				return nil, fmt.Errorf("bad character literal")
			}
			out = append(out, tok{"int", fmt.Sprint(v)})
			i = j + 2
		case c >= '0' && c <= '9':
			j := i
			real := false
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '_' || s[j] == '.' && j+1 < len(s) && s[j+1] >= '0' && s[j+1] <= '9') {
				if s[j] == '.' {
					real = true
				}
				j++
			}
			t := strings.ReplaceAll(s[i:j], "_", "")
			if real {
				out = append(out, tok{"real", t})
			} else {
				out = append(out, tok{"int", t})
			}
			i = j
		case isId(c):
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "@", "=", "&"}
			found := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				return nil, fmt.Errorf("unexpected character %q", c)
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

// ---------------------------------------------------------------- expression parser

type parser struct {
	toks []tok
	p    int
}

func parseExpr(s string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	p := &parser{toks: ts}
	e = p.expr()
	if p.cur().k != "eof" {
		panic(fmt.Sprintf("unexpected %q", p.cur().s))
	}
	e.text = strings.Join(strings.Fields(s), " ")
	return e, nil
}

func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) next() tok {
	t := p.toks[p.p]
	p.p++
	return t
}
func (p *parser) is(s string) bool {
	return (p.cur().k == "op" || p.cur().k == "id") && p.cur().s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("expected %q, found %q", s, p.cur().s))
	}
}
func (p *parser) ident() string {
	if p.cur().k != "id" {
		panic(fmt.Sprintf("expected identifier, found %q", p.cur().s))
	}
	return p.next().s
}

func (p *parser) expr() *Expr {
	if p.is("forall") || p.is("exists") {
		q := p.next().s
		vars := p.qvars("::")
		p.expect("::")
		var trig []*Expr
		for p.accept("{") {
			t := &Expr{kind: "trig"}
			for {
				t.args = append(t.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			trig = append(trig, t)
		}
		body := p.expr()
		return &Expr{kind: "quant", op: q, vars: vars, trig: trig, args: []*Expr{body}}
	}
	if p.is("let") {
		p.next()
		n := p.ident()
		p.expect("=")
		v := p.implE()
		p.expect("in")
		return &Expr{kind: "let", name: n, args: []*Expr{v, p.expr()}}
	}
	return p.implE()
}

func (p *parser) qvars(end string) []QVar {
	var vars []QVar
	for {
		var names []string
		for {
			names = append(names, p.ident())
			if !p.accept(",") {
				break
			}
		}
		ty := p.typ()
		for _, n := range names {
			vars = append(vars, QVar{n, ty})
		}
		if !p.accept(",") {
			break
		}
	}
	return vars
}

func (p *parser) typ() string {
	if p.is("chan") {
		p.next()
		return "chan " + p.typ()
	}
	if p.accept("[") {
		p.expect("]")
		return "[]" + p.typ()
	}
	if p.accept("*") {
		return "*" + p.typ()
	}
	n := p.ident()
	if p.accept(".") {
		n += "." + p.ident()
	}
	if p.is("[") && n == "map" {
		p.next()
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	if p.is("[") { // generic instance
		p.next()
		n += "["
		for {
			n += p.typ()
			if !p.accept(",") {
				break
			}
			n += ","
		}
		p.expect("]")
		n += "]"
	}
	return n
}

func (p *parser) implE() *Expr {
	l := p.orE()
	if p.accept("==>") {
		var r *Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.implE()
		}
		return &Expr{kind: "bin", op: "==>", args: []*Expr{l, r}}
	}
	if p.accept("<==>") {
		var r *Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.orE()
		}
		return &Expr{kind: "bin", op: "<==>", args: []*Expr{l, r}}
	}
	return l
}

func (p *parser) orE() *Expr {
	l := p.andE()
	for p.accept("||") {
		var r *Expr
		if p.is("forall") || p.is("exists") {
			r = p.expr()
		} else {
			r = p.andE()
		}
		l = &Expr{kind: "bin", op: "||", args: []*Expr{l, r}}
	}
	return l
}

func (p *parser) andE() *Expr {
	l := p.cmpE()
	for p.accept("&&") {
		var r *Expr
		if p.is("forall") || p.is("exists") {
			r = p.expr()
		} else {
			r = p.cmpE()
		}
		l = &Expr{kind: "bin", op: "&&", args: []*Expr{l, r}}
	}
	return l
}

func (p *parser) cmpE() *Expr {
	l := p.addE()
	var res *Expr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">", "in"} {
			if p.is(o) {
				op = o
				break
			}
		}
		neg := false
		if op == "" && p.is("!") && p.toks[p.p+1].s == "in" {
			p.next()
			op = "in"
			neg = true
		}
		if op == "" {
			break
		}
		p.next()
		r := p.addE()
		e := &Expr{kind: "bin", op: op, args: []*Expr{l, r}}
		if neg {
			e = &Expr{kind: "un", op: "!", args: []*Expr{e}}
		}
		if res == nil {
			res = e
		} else {
			res = &Expr{kind: "bin", op: "&&", args: []*Expr{res, e}}
		}
		l = r
	}
	if res == nil {
		return l
	}
	return res
}

func (p *parser) addE() *Expr {
	l := p.mulE()
	for p.is("+") || p.is("-") {
		op := p.next().s
		l = &Expr{kind: "bin", op: op, args: []*Expr{l, p.mulE()}}
	}
	return l
}

func (p *parser) mulE() *Expr {
	l := p.unE()
	for p.is("*") || p.is("/") || p.is("%") {
		op := p.next().s
		l = &Expr{kind: "bin", op: op, args: []*Expr{l, p.unE()}}
	}
	return l
}

func (p *parser) unE() *Expr {
	if p.is("!") || p.is("-") || p.is("*") || p.is("&") {
		op := p.next().s
		return &Expr{kind: "un", op: op, args: []*Expr{p.unE()}}
	}
	return p.postE()
}

func (p *parser) postE() *Expr {
	e := p.primE()
	for {
		switch {
		case p.accept("."):
			e = &Expr{kind: "field", name: p.ident(), args: []*Expr{e}}
		case p.accept("["):
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{kind: "slice", args: []*Expr{e, nil, hi}}
				continue
			}
			if p.is("*") && p.toks[p.p+1].s == "]" {
				p.next()
				p.next()
				e = &Expr{kind: "all", args: []*Expr{e}}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{kind: "slice", args: []*Expr{e, i, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{kind: "index", args: []*Expr{e, i}}
		case p.is("(") && (e.kind == "name" || e.kind == "field"):
			p.next()
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = &Expr{kind: "call", name: callName(e), args: as}
		default:
			return e
		}
	}
}

func callName(e *Expr) string {
	if e.kind == "name" {
		return e.name
	}
	return callName(e.args[0]) + "." + e.name
}

func (p *parser) primE() *Expr {
	t := p.cur()
	switch {
	case t.k == "int":
		p.next()
		return &Expr{kind: "lit_int", name: t.s}
	case t.k == "real":
		p.next()
		return &Expr{kind: "lit_real", name: t.s}
	case t.k == "str":
		p.next()
		return &Expr{kind: "lit_str", name: t.s}
	case p.accept("("):
		e := p.expr()
		p.expect(")")
		return e
	case p.accept("@"):
		n := p.ident()
		p.expect("(")
		var as []*Expr
		for !p.is(")") {
			as = append(as, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		return &Expr{kind: "event", name: n, args: as}
	case p.is("if"):
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return &Expr{kind: "ite", args: []*Expr{c, a, b}}
	case p.is("forall") || p.is("exists"):
		return p.expr()
	case t.k == "id":
		p.next()
		switch t.s {
		case "true", "false":
			return &Expr{kind: "lit_bool", name: t.s}
		case "nil":
			return &Expr{kind: "nil"}
		}
		return &Expr{kind: "name", name: t.s}
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

// ---------------------------------------------------------------- file parser

var declKW = map[string]bool{"package": true, "pred": true, "fn": true, "lemma": true, "axiom": true, "func": true, "extern": true, "instantiate": true}
var clauseKW = map[string]bool{"props": true, "requires": true, "ensures": true, "modifies": true, "invariant": true, "decreases": true, "oncall": true, "pure": true, "event": true, "panics": true, "helper": true, "inline": true, "induction": true, "trigger": true, "noframe": true, "use": true, "yields": true, "assigns": true, "assume": true, "returned": true, "reveal": true, "step": true}

func loadSpecs(dir string) (*Spec, error) {
	sp := &Spec{contracts: map[string]*Contract{}, preds: map[string]*Pred{}, fns: map[string]*SpecFn{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

type item struct {
	kw, rest string
	line     int
}

func (sp *Spec) loadFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var items []item
	for i, l := range strings.Split(string(data), "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		kw := t
		if k := strings.IndexAny(t, " \t"); k >= 0 {
			kw = t[:k]
		}
		if declKW[kw] || clauseKW[kw] {
			items = append(items, item{kw, strings.TrimSpace(t[len(kw):]), i + 1})
		} else if len(items) > 0 {
			items[len(items)-1].rest += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
		}
	}
	pkg := ""
	var cur *Contract
	var lem *Lemma
	fail := func(it item, err error) error { return fmt.Errorf("%s:%d: %v", file, it.line, err) }
	for _, it := range items {
		switch it.kw {
		case "package":
			pkg = it.rest
			cur, lem = nil, nil
		case "instantiate":
			sp.inst = append(sp.inst, pkg+"|"+it.rest)
		case "pred":
			cur, lem = nil, nil
			prest, popaque := strings.CutPrefix(it.rest, "opaque ")
			h, b, ok := strings.Cut(prest, "=")
			if !ok {
				return fail(it, fmt.Errorf("pred without body"))
			}
			name, ps := splitHeader(h)
			e, err := parseExpr(b)
			if err != nil {
				return fail(it, err)
			}
			if sp.preds[name] != nil {
				return fail(it, fmt.Errorf("duplicate definition of %s", name))
			}
			sp.preds[name] = &Pred{name: name, params: ps, body: e, pkg: pkg, opaque: popaque}
		case "fn":
			cur, lem = nil, nil
			rest, opaque := strings.CutPrefix(strings.TrimSpace(it.rest), "opaque ")
			f, err := parseFn(rest)
			if err != nil {
				return fail(it, err)
			}
			f.opaque = opaque
			f.pkg = pkg
			if sp.fns[f.name] != nil {
				return fail(it, fmt.Errorf("duplicate definition of %s", f.name))
			}
			sp.fns[f.name] = f
		case "lemma", "axiom":
			cur = nil
			name, ps, rest, err := parseSig(it.rest)
			if err != nil || strings.TrimSpace(rest) != "" {
				return fail(it, fmt.Errorf("bad lemma header %v %q", err, rest))
			}
			lem = &Lemma{name: name, params: ps, pkg: pkg, axiom: it.kw == "axiom", text: it.rest}
			sp.lemmas = append(sp.lemmas, lem)
		case "func", "extern":
			lem = nil
			r := it.rest
			if it.kw == "extern" {
				r = strings.TrimSpace(strings.TrimPrefix(r, "func"))
			}
			c, err := parseContractHeader(r)
			if err != nil {
				return fail(it, err)
			}
			c.kind = it.kw
			c.pkg = pkg
			c.file = filepath.Base(file)
			c.line = it.line
			if it.kw == "func" {
				c.key = pkg + "." + c.key
			}
			if o := sp.contracts[c.key]; o != nil {
				return fail(it, fmt.Errorf("duplicate contract for %s", c.key))
			}
			sp.contracts[c.key] = c
			sp.order = append(sp.order, c)
			cur = c
		default:
			if lem != nil {
				switch it.kw {
				case "props":
					lem.props = splitList(it.rest)
				case "requires":
					e, err := parseExpr(it.rest)
					if err != nil {
						return fail(it, err)
					}
					lem.requires = append(lem.requires, e)
				case "ensures":
					e, err := parseExpr(it.rest)
					if err != nil {
						return fail(it, err)
					}
					lem.ensures = e
				case "induction":
					lem.induct = it.rest
				case "use":
					e, err := parseExpr(it.rest)
					if err != nil {
						return fail(it, err)
					}
					lem.uses = append(lem.uses, e)
				case "trigger":
					e, err := parseExpr("trig__(" + it.rest + ")")
					if err != nil {
						return fail(it, err)
					}
					lem.trig = append(lem.trig, &Expr{kind: "trig", args: e.args})
				default:
					return fail(it, fmt.Errorf("clause %s in a lemma", it.kw))
				}
				continue
			}
			if cur == nil {
				return fail(it, fmt.Errorf("clause outside of a contract"))
			}
			cl := &Clause{kind: it.kw, line: fmt.Sprintf("%s:%d", filepath.Base(file), it.line), text: strings.Join(strings.Fields(it.rest), " ")}
			rest := it.rest
			switch it.kw {
			case "props":
				cur.props = append(cur.props, splitList(rest)...)
				continue
			case "reveal":
				if cur.reveal == nil {
					cur.reveal = map[string]bool{}
				}
				for _, n := range splitList(rest) {
					cur.reveal[n] = true
				}
				continue
			case "pure":
				cur.pure = true
				continue
			case "helper":
				cur.helper = true
				continue
			case "inline":
				cur.inline = true
				continue
			case "noframe":
				cur.noframe = true
				continue
			case "modifies":
				if rest != "nothing" && rest != "*" {
					e, err := parseExpr("mods__(" + rest + ")")
					if err != nil {
						return fail(it, err)
					}
					cl.items = e.args
				}
				cl.text = rest
			case "returned":
				// returned a, b -> r, s requires expr : expr
				k := strings.Index(rest, ":")
				if k < 0 {
					return fail(it, fmt.Errorf("returned needs a colon"))
				}
				head := rest[:k]
				if h, r, ok := strings.Cut(head, " requires "); ok {
					head = h
					e, err := parseExpr(r)
					if err != nil {
						return fail(it, err)
					}
					cl.items = []*Expr{e}
				}
				cl.callee = strings.TrimSpace(head)
				rest = rest[k+1:]
				e, err := parseExpr(stripTag(cl, rest))
				if err != nil {
					return fail(it, err)
				}
				cl.expr = e
				cl.text = e.text
			case "oncall", "yields":
				// oncall Name: expr; yields element type: expr
				k := strings.Index(rest, ":")
				if k < 0 {
					return fail(it, fmt.Errorf("oncall needs a colon"))
				}
				cl.callee = strings.TrimSpace(rest[:k])
				rest = rest[k+1:]
				fallthrough
			case "step", "ensures", "requires", "assume", "invariant", "panics", "decreases", "use":
				if m := inLoop.FindStringSubmatch(rest); it.kw == "invariant" && m != nil {
					// only for the inner loops that call this function ("-": that call none)
					cl.callee, rest = m[1], m[2]
				}
				rest = stripTag(cl, rest)
				e, err := parseExpr(rest)
				if err != nil {
					return fail(it, err)
				}
				cl.expr = e
				cl.text = e.text
			case "event":
				e, err := parseExpr("@" + rest)
				if err != nil {
					return fail(it, err)
				}
				cl.expr = e
			default:
				return fail(it, fmt.Errorf("unknown clause %s", it.kw))
			}
			cur.clauses = append(cur.clauses, cl)
		}
	}
	return nil
}

var inLoop = regexp.MustCompile(`(?s)^in ([A-Za-z.]+|-|outer): (.*)$`)

func splitList(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			r = append(r, x)
		}
	}
	return r
}

func splitHeader(h string) (string, []string) {
	k := strings.Index(h, "(")
	if k < 0 {
		return strings.TrimSpace(h), nil
	}
	e := strings.LastIndex(h, ")")
	return strings.TrimSpace(h[:k]), splitList(h[k+1 : e])
}

func parseSig(s string) (name string, ps []QVar, rest string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	k := strings.Index(s, "(")
	d := 0
	e := -1
	for i := k; i < len(s); i++ {
		if s[i] == '(' {
			d++
		} else if s[i] == ')' {
			d--
			if d == 0 {
				e = i
				break
			}
		}
	}
	name = strings.TrimSpace(s[:k])
	ts, err := lex(s[k+1 : e])
	if err != nil {
		return
	}
	p := &parser{toks: ts}
	if p.cur().k != "eof" {
		ps = p.qvars("")
	}
	rest = s[e+1:]
	return
}

func parseFn(s string) (*SpecFn, error) {
	name, ps, rest, err := parseSig(s)
	if err != nil {
		return nil, err
	}
	f := &SpecFn{name: name, params: ps}
	ty, body, ok := strings.Cut(rest, "=")
	f.ret = strings.TrimSpace(ty)
	if ok {
		f.body, err = parseExpr(body)
		if err != nil {
			return nil, err
		}
	}
	return f, nil
}

// parseContractHeader: "(d *T) Name(a, b) (r, s)" or "Name(a) (r)" or, for externs, "pkg/path.Name(a) (r)" or "(x pkg/path.T) Name(a) (r)".
func parseContractHeader(s string) (*Contract, error) {
	c := &Contract{}
	s = strings.TrimSpace(s)
	recvType := ""
	if strings.HasPrefix(s, "(") {
		e := strings.Index(s, ")")
		f := strings.Fields(s[1:e])
		if len(f) != 2 {
			return nil, fmt.Errorf("bad receiver %q", s[:e+1])
		}
		c.recv = f[0]
		recvType = f[1]
		s = strings.TrimSpace(s[e+1:])
	}
	k := strings.Index(s, "(")
	if k < 0 {
		return nil, fmt.Errorf("bad header %q", s)
	}
	name := strings.TrimSpace(s[:k])
	if strings.HasPrefix(s, "\"") { // a function type
		q := strings.Index(s[1:], "\"") + 1
		name = "func." + s[1:q]
		s = s[q+1:]
		k = strings.Index(s, "(")
	}
	e := strings.Index(s, ")")
	for _, p := range splitList(s[k+1 : e]) {
		p = strings.Fields(p)[0]
		if strings.HasSuffix(p, "...") {
			c.variadic = true
			p = strings.TrimSuffix(p, "...")
		}
		c.params = append(c.params, p)
	}
	r := strings.TrimSpace(s[e+1:])
	if strings.HasPrefix(r, "(") {
		for _, p := range splitList(r[1:strings.Index(r, ")")]) {
			c.results = append(c.results, strings.Fields(p)[0])
		}
	}
	if recvType != "" {
		c.key = recvType + "." + name
	} else {
		c.key = name
	}
	c.key = strings.ReplaceAll(c.key, "*", "")
	return c, nil
}

// stripTag reads the tag of a clause: ["label"], [C01:"label"], [C01, C02].
func stripTag(cl *Clause, rest string) string {
	rest = strings.TrimSpace(rest)
	if !strings.HasPrefix(rest, "[") {
		return rest
	}
	k := strings.Index(rest, "]")
	tag := rest[1:k]
	rest = rest[k+1:]
	if a, b, ok := strings.Cut(tag, ":"); ok && !strings.HasPrefix(tag, "\"") {
		cl.props = splitList(a)
		cl.label = strings.Trim(strings.TrimSpace(b), "\"")
	} else if strings.HasPrefix(tag, "\"") {
		cl.label = strings.Trim(tag, "\"")
	} else {
		cl.props = splitList(tag)
	}
	return rest
}
