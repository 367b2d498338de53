package main

// Contracts: parsing, evaluation of specification expressions, application at
// call sites.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Kind  string
	Prop  string // explicit property tag
	Name  string // target
	Idx   []string
	L     ast.Expr
	E     ast.Expr
	E2    ast.Expr
	E3    ast.Expr
	Op    bool
	Src   string
	Where string
}

type Spec struct {
	Key     string
	Params  []string
	Results []string
	Props   []string
	Clauses []Clause
	Trusted string
	Inline  bool
	Open    bool // verified, but callers use the body
	Cases   int
	Nilable map[string]bool
	Lets    []Clause
	Where   string
	May     bool
	Conf    string
	Bounded string
	Kernel  bool
	Dropped bool
}

// propsAll: every property the contract carries, tags of clauses included.
func (s *Spec) propsAll() []string {
	ps := append([]string{}, s.Props...)
	for _, c := range s.Clauses {
		if c.Prop != "" && !contains(ps, c.Prop) {
			ps = append(ps, c.Prop)
		}
	}
	return ps
}

type Macro struct {
	Params []string
	E      ast.Expr
}

type Specs struct {
	ByKey  map[string]*Spec
	Order  []string
	Macros map[string]*Macro
}

func (s *Spec) all(kind string) []Clause {
	var r []Clause
	for _, c := range s.Clauses {
		if c.Kind == kind {
			r = append(r, c)
		}
	}
	return r
}

var clauseRe = regexp.MustCompile(`^([a-z]+)(?:\[([A-Z0-9]+)\])?(?:\s+|$)(.*)$`)
var fnRe = regexp.MustCompile(`^(\S+?\.\S+?)\(([^()]*)\)\s*(.*)$`)

var keywords = map[string]bool{"fn": true, "props": true, "requires": true, "panics": true, "errs": true, "new": true, "def": true, "ret": true, "ensures": true, "grad": true, "grads": true, "set": true, "mod": true, "trusted": true, "inline": true, "macro": true, "nilable": true, "let": true, "havoc": true, "may": true, "bounded": true, "conf": true, "own": true, "post": true, "open": true, "op": true, "alloc": true, "split": true, "cases": true, "guard": true, "signal": true, "detached": true}

func LoadSpecs(dir string) (*Specs, error) {
	sp := &Specs{ByKey: map[string]*Spec{}, Macros: map[string]*Macro{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Specs) loadFile(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	type line struct {
		n int
		s string
	}
	var lines []line
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		w := l
		if j := strings.IndexAny(l, " \t["); j >= 0 {
			w = l[:j]
		}
		if !keywords[w] && len(lines) > 0 {
			lines[len(lines)-1].s += " " + l
			continue
		}
		lines = append(lines, line{i + 1, l})
	}
	var cur *Spec
	for _, l := range lines {
		where := fmt.Sprintf("%s:%d", filepath.Base(f), l.n)
		m := clauseRe.FindStringSubmatch(l.s)
		if m == nil {
			return fmt.Errorf("%s: bad clause %q", where, l.s)
		}
		kw, tag, rest := m[1], m[2], m[3]
		expr := func(s string) ast.Expr {
			e, e2 := parser.ParseExpr(s)
			if e2 != nil && err == nil {
				err = fmt.Errorf("%s: %v in %q", where, e2, s)
			}
			return e
		}
		switch kw {
		case "macro":
			i := strings.Index(rest, "=")
			for i >= 0 && i+1 < len(rest) && (rest[i+1] == '=' || strings.ContainsRune("!<>=", rune(rest[i-1]))) {
				j := strings.Index(rest[i+2:], "=")
				if j < 0 {
					break
				}
				i += 2 + j
			}
			head := strings.TrimSpace(rest[:i])
			he := expr(head)
			ce, ok := he.(*ast.CallExpr)
			if !ok {
				return fmt.Errorf("%s: bad macro", where)
			}
			mac := &Macro{E: expr(rest[i+1:])}
			for _, a := range ce.Args {
				mac.Params = append(mac.Params, a.(*ast.Ident).Name)
			}
			sp.Macros[ce.Fun.(*ast.Ident).Name] = mac
		case "fn":
			// key may contain parentheses: pkg.(*T).M(params) results
			i := strings.LastIndex(rest, "(")
			// the parameter list is the last parenthesised group before results
			key, ps, rs := rest, "", ""
			if i >= 0 {
				j := strings.Index(rest[i:], ")")
				ps = rest[i+1 : i+j]
				key = strings.TrimSpace(rest[:i])
				rs = strings.TrimSpace(rest[i+j+1:])
			}
			cur = &Spec{Key: key, Where: where, Nilable: map[string]bool{}, Kernel: strings.Contains(where, "kernels.gcv")}
			for _, p := range strings.Split(ps, ",") {
				if p = strings.TrimSpace(p); p != "" {
					cur.Params = append(cur.Params, p)
				}
			}
			for _, p := range strings.FieldsFunc(rs, func(r rune) bool { return r == ',' || r == ' ' }) {
				cur.Results = append(cur.Results, p)
			}
			if sp.ByKey[key] != nil {
				return fmt.Errorf("%s: duplicate contract for %s", where, key)
			}
			sp.ByKey[key] = cur
			sp.Order = append(sp.Order, key)
		default:
			if cur == nil {
				return fmt.Errorf("%s: clause outside fn", where)
			}
			c := Clause{Kind: kw, Prop: tag, Src: rest, Where: where}
			switch kw {
			case "props":
				cur.Props = strings.Fields(rest)
				continue
			case "trusted":
				cur.Trusted = rest
				if rest == "" {
					cur.Trusted = "assumed"
				}
				continue
			case "bounded":
				cur.Bounded = rest
				continue
			case "conf":
				cur.Conf = rest
				continue
			case "open":
				cur.Open = true
				continue
			case "inline":
				cur.Inline = true
				continue
			case "nilable":
				for _, n := range strings.Fields(rest) {
					cur.Nilable[n] = true
				}
				continue
			case "guard", "signal":
				c.E = expr("f(" + rest + ")")
			case "detached":
			case "may":
				cur.May = true
				c.Kind = "panics"
				c.E = expr(rest)
			case "requires", "panics", "errs", "ensures", "mod", "havoc", "own", "split":
				c.E = expr(rest)
			case "cases":
				// cases e, n: e is one of 0 .. n-1 in turn, or none of them
				i := strings.LastIndex(rest, ",")
				n, err := strconv.Atoi(strings.TrimSpace(rest[i+1:]))
				if i < 0 || err != nil || cur.Cases > 0 {
					return fmt.Errorf("%s: bad cases", where)
				}
				c.E = expr(rest[:i])
				cur.Cases = n
			case "let":
				i := strings.Index(rest, "=")
				c.Name = strings.TrimSpace(rest[:i])
				c.E = expr(rest[i+1:])
				cur.Lets = append(cur.Lets, c)
				continue
			case "new", "op":
				// r rows, cols [, dtype]
				// op: r is a new *ag.Operator whose value is a new matrix
				c.Op = kw == "op"
				c.Kind = "new"
				i := strings.IndexAny(rest, " \t")
				c.Name = rest[:i]
				ce, ok := expr("f(" + rest[i:] + ")").(*ast.CallExpr)
				if !ok || len(ce.Args) < 2 {
					return fmt.Errorf("%s: bad new", where)
				}
				c.E, c.E2 = ce.Args[0], ce.Args[1]
				if len(ce.Args) > 2 {
					c.E3 = ce.Args[2]
				}
			case "alloc":
				// alloc y.f, rows, cols [, cond]: field f of the new object y is
				// a new matrix of zeros (nil unless cond)
				ce, ok := expr("f(" + rest + ")").(*ast.CallExpr)
				if !ok || len(ce.Args) < 3 {
					return fmt.Errorf("%s: bad alloc", where)
				}
				c.L, c.E, c.E2 = ce.Args[0], ce.Args[1], ce.Args[2]
				if len(ce.Args) > 3 {
					c.E3 = ce.Args[3]
				}
			case "def", "grad", "post", "set", "ret":
				i := topEq(rest)
				if i < 0 {
					return fmt.Errorf("%s: missing =", where)
				}
				lhs := strings.TrimSpace(rest[:i])
				c.E = expr(rest[i+1:])
				if kw == "set" {
					c.L = expr(lhs)
					break
				}
				if kw == "ret" {
					c.Name = lhs
					break
				}
				j := strings.LastIndex(lhs, "[")
				if j < 0 {
					return fmt.Errorf("%s: missing index", where)
				}
				c.L = expr(lhs[:j])
				c.Name = lhs[:j]
				for _, x := range strings.Split(strings.TrimSuffix(lhs[j+1:], "]"), ",") {
					c.Idx = append(c.Idx, strings.TrimSpace(x))
				}
			case "grads":
				// grads j, n: xs[j][i] = e
				i := strings.Index(rest, ":")
				head := strings.SplitN(rest[:i], ",", 2)
				body := rest[i+1:]
				k := topEq(body)
				lhs := strings.TrimSpace(body[:k])
				j := strings.LastIndex(lhs, "[")
				c.Idx = []string{strings.TrimSpace(head[0]), strings.TrimSuffix(lhs[j+1:], "]")}
				c.E2 = expr(head[1])
				c.L = expr(lhs[:j])
				c.E = expr(body[k+1:])
			default:
				return fmt.Errorf("%s: clause %s", where, kw)
			}
			cur.Clauses = append(cur.Clauses, c)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// topEq finds the first '=' that is not part of a comparison.
func topEq(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case '=':
			if d == 0 && (i+1 >= len(s) || s[i+1] != '=') && (i == 0 || !strings.ContainsRune("!<>=", rune(s[i-1]))) {
				return i
			}
		}
	}
	return -1
}

// ---------- evaluation ----------

type specEnv struct {
	ex   *Exec
	st   *State
	pre  *State
	vars map[string]Val
	up   *specEnv
	pkg  *types.Package
	rng  []*Term // range facts of the bound index
}

// neverErrs: the function has an error result its contract says nothing
// about: it is nil.
func (s *Spec) neverErrs(sig *types.Signature) bool {
	n := sig.Results().Len()
	if n == 0 || typeName(sig.Results().At(n-1).Type()) != "error" || len(s.Results) != n {
		return false
	}
	for _, c := range s.Clauses {
		switch c.Kind {
		case "errs":
			return false
		case "ret":
			if c.Name == s.Results[n-1] {
				return false
			}
		case "ensures":
			found := false
			ast.Inspect(c.E, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && id.Name == s.Results[n-1] {
					found = true
				}
				return true
			})
			if found {
				return false
			}
		}
	}
	return true
}

func (e *specEnv) lookup(n string) (Val, bool) {
	for c := e; c != nil; c = c.up {
		if v, ok := c.vars[n]; ok {
			return v, true
		}
	}
	return Val{}, false
}

func (e *specEnv) child(n string, v Val) *specEnv {
	return &specEnv{ex: e.ex, st: e.st, pre: e.pre, vars: map[string]Val{n: v}, up: e, pkg: e.pkg}
}

func (e *specEnv) in(st *State) *specEnv {
	n := *e
	n.st = st
	n.up = e.up
	// parents are only used for lookups
	return &n
}

func specFail(f string, a ...interface{}) { panic(Unsupported{"contract: " + fmt.Sprintf(f, a...)}) }

func (e *specEnv) term(x ast.Expr) *Term {
	v := e.eval(x)
	if len(v.L) != 1 {
		specFail("scalar expected in %s", exprStr(x))
	}
	return v.L[0]
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func iv(t *Term) Val { return Val{T: types.Typ[types.Int], L: []*Term{t}} }
func bv(t *Term) Val { return Val{T: types.Typ[types.Bool], L: []*Term{t}} }
func rv(t *Term) Val { return Val{T: types.Typ[types.Float64], L: []*Term{t}} }
func tv(t *Term) Val {
	switch t.sort.K {
	case 'B':
		return bv(t)
	case 'R':
		return rv(t)
	}
	return iv(t)
}

func (e *specEnv) rterm(x ast.Expr) *Term { return toReal(e.term(x)) }

func unify2(a, b *Term) (*Term, *Term) {
	if a.sort != b.sort && (a.sort == RealS || b.sort == RealS) {
		return toReal(a), toReal(b)
	}
	return a, b
}

func (e *specEnv) eval(x ast.Expr) Val {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if x.Kind == token.STRING {
			return Val{T: types.Typ[types.String], L: []*Term{strTerm(constant.StringVal(c))}}
		}
		r := constRat(c)
		if x.Kind == token.FLOAT {
			return rv(Num(RealS, r))
		}
		return iv(Num(IntS, r))
	case *ast.Ident:
		if v, ok := e.lookup(x.Name); ok {
			return v
		}
		switch x.Name {
		case "true":
			return bv(True)
		case "false":
			return bv(False)
		case "nil":
			return Val{T: types.Typ[types.UntypedNil], L: []*Term{Int(0)}}
		case "inf":
			return rv(infR())
		case "pi":
			r, _ := new(big.Rat).SetString("3.14159265358979323846264338327950288419716939937510582097494459")
			r = shortRat(r)
			return rv(Num(RealS, r))
		}
		specFail("unknown name %s", x.Name)
	case *ast.UnaryExpr:
		t := e.term(x.X)
		if x.Op == token.NOT {
			return bv(Not(t))
		}
		return tv(Neg(t))
	case *ast.BinaryExpr:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := e.eval(x.X), e.eval(x.Y)
			var r *Term
			if isNilT(a.T) || isNilT(b.T) || len(a.L) > 1 {
				r = e.ex.equal(e.st, a, b)
			} else {
				p, q := unify2(a.L[0], b.L[0])
				r = Eq(p, q)
			}
			if x.Op == token.NEQ {
				r = Not(r)
			}
			return bv(r)
		}
		a, b := unify2(e.term(x.X), e.term(x.Y))
		switch x.Op {
		case token.ADD:
			return tv(Add(a, b))
		case token.SUB:
			return tv(Sub(a, b))
		case token.MUL:
			return tv(Mul(a, b))
		case token.QUO:
			if a.sort == RealS {
				return rv(Div(a, b))
			}
			return iv(IDiv(a, b))
		case token.REM:
			return iv(IMod(a, b))
		case token.LSS:
			return bv(Lt(a, b))
		case token.LEQ:
			return bv(Le(a, b))
		case token.GTR:
			return bv(Gt(a, b))
		case token.GEQ:
			return bv(Ge(a, b))
		case token.LAND:
			return bv(And(a, b))
		case token.LOR:
			return bv(Or(a, b))
		}
	case *ast.SelectorExpr:
		base := e.eval(x.X)
		return e.field(base, x.Sel.Name)
	case *ast.IndexExpr:
		b := e.eval(x.X)
		if _, ok := b.T.Underlying().(*types.Map); ok {
			k := e.eval(x.Index)
			mt := b.T.Underlying().(*types.Map)
			v, _ := e.ex.mapGet(e.st, &LV{kind: 'm', T: mt.Elem(), ref: b.L[0], name: typeName(b.T), key: k})
			return v
		}
		i := e.term(x.Index)
		if len(b.L) != 4 {
			specFail("index of non-slice %s", exprStr(x.X))
		}
		return e.st.loadElem(elemType(b.T), b.L[0], Add(b.L[1], i))
	case *ast.CallExpr:
		return e.call(x)
	}
	specFail("expression %s", exprStr(x))
	return Val{}
}

func (e *specEnv) field(base Val, name string) Val {
	t := base.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		su, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			specFail("field %s of %v", name, t)
		}
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == name {
				return e.st.loadField(structNameOf(p.Elem()), "."+name, su.Field(i).Type(), base.L[0])
			}
		}
		// promoted through embedded fields
		obj, idx, _ := types.LookupFieldOrMethod(t, true, e.pkgOf(p.Elem()), name)
		if _, ok := obj.(*types.Var); ok {
			cur := &LV{kind: 'f', T: p.Elem(), ref: base.L[0], name: structNameOf(p.Elem())}
			for _, ix := range idx {
				if pp, ok := cur.T.Underlying().(*types.Pointer); ok {
					v := e.ex.load(e.st, cur)
					cur = &LV{kind: 'f', T: pp.Elem(), ref: v.L[0], name: structNameOf(pp.Elem())}
				}
				cur = e.ex.fieldLV(cur, cur.T.Underlying().(*types.Struct).Field(ix), nil)
			}
			return e.ex.load(e.st, cur)
		}
		specFail("no field %s in %v", name, t)
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		off := 0
		for i := 0; i < su.NumFields(); i++ {
			n := len(flatten(su.Field(i).Type()))
			if su.Field(i).Name() == name {
				return Val{T: su.Field(i).Type(), L: base.L[off : off+n]}
			}
			off += n
		}
	}
	specFail("field %s of %v", name, t)
	return Val{}
}

func (e *specEnv) pkgOf(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return e.pkg
}

// ---- matrices ----

func denseT() types.Type { return types.Typ[types.Int] }

func (st *State) denseField(d *Term, f string) *Term {
	k := "F.mat.Dense." + f
	lf := Leaf{"", IntS, 'N'}
	if strings.HasSuffix(f, ".arr") {
		lf.Kind = 'A'
	}
	if f == "grad" {
		lf.Kind = 'O'
	}
	if f == "requiresGrad" {
		lf = Leaf{"", BoolS, 'B'}
	}
	regHeap(k, lf, false)
	return Select(st.get(k), d)
}

func (st *State) setDense(d *Term, f string, v *Term) {
	st.denseField(d, f)
	k := "F.mat.Dense." + f
	st.heap[k] = Store(st.get(k), d, v)
}

var leafI = Leaf{"", IntS, 'I'}
var leafR = Leaf{"", RealS, 'R'}

func (st *State) dims(d *Term) (*Term, *Term) {
	a, o := st.denseField(d, "shape.arr"), st.denseField(d, "shape.off")
	row := st.memRow("mem.I", leafI, a)
	return Select(row, o), Select(row, Add(o, Int(1)))
}

func (st *State) matAt(d, i *Term) *Term {
	a, o := st.denseField(d, "data.arr"), st.denseField(d, "data.off")
	return Select(st.memRow("mem.R", leafR, a), Add(o, i))
}

func tval(x *Term) *Term {
	if x.op == OIte {
		return Ite(x.args[0], tval(x.args[1]), tval(x.args[2]))
	}
	if isDenseRef(x) {
		return x // a Dense matrix made by the code is its own value
	}
	t := App("tval", IntS, x)
	t.nonneg = true
	return t
}

func (e *specEnv) mat(x ast.Expr) *Term {
	return e.term(x)
}

// tensor value: a matrix is its own value
func (e *specEnv) valOf(v Val) *Term {
	if namedName(v.T) == "mat.Matrix" {
		if in, n := e.ex.inner(e.st, v.L[0]); in != nil && n == "nn.Param" {
			return in // a parameter used as a matrix stands for its matrix
		}
		return v.L[0]
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok && namedName(p.Elem()) == "mat.Dense" {
		return v.L[0]
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		if n := namedName(p.Elem()); wrapped[n] != "" {
			e.ex.knowTag(v.L[0], v.T)
			if in := e.ex.innerOf(e.st, v.L[0], n); in != nil {
				if n == "nn.Param" {
					return in
				}
				return e.ex.tensorValue(e.st, in)
			}
		}
	}
	return e.ex.tensorValue(e.st, v.L[0])
}

// tensorValue: Value() of a tensor; fresh Dense matrices are their own value.
func (ex *Exec) tensorValue(st *State, x *Term) *Term {
	if x.op == OIte {
		return Ite(x.args[0], ex.tensorValue(st, x.args[1]), ex.tensorValue(st, x.args[2]))
	}
	tg := ex.tag(st, x)
	if isCtor(tg) && tg.name == "c!type.*mat.Dense" {
		return x
	}
	if in, n := ex.inner(st, x); in != nil {
		if n == "nn.Param" {
			return in
		}
		return ex.tensorValue(st, in)
	}
	return tval(x)
}

func notNil(x *Term) *Term {
	if x.op == OIte {
		return Ite(x.args[0], notNil(x.args[1]), notNil(x.args[2]))
	}
	if isCtor(x) {
		return True
	}
	return Ge(x, Int(1))
}

func (ex *Exec) isMat(st *State, x *Term) *Term {
	if x.op == OIte {
		return Ite(x.args[0], ex.isMat(st, x.args[1]), ex.isMat(st, x.args[2]))
	}
	tg := ex.tag(st, x)
	if isCtor(tg) {
		return Eq(tg, ctor("type.*mat.Dense"))
	}
	d := ex.dtypeRef(st, x)
	return And(notNil(x), Eq(App("u.isMatrix", IntS, x), Int(1)), Eq(tval(x), x), Ge(d, Int(0)), Le(d, Int(1)))
}

func (ex *Exec) reqOf(st *State, x *Term) *Term {
	if x.op == OIte {
		return Ite(x.args[0], ex.reqOf(st, x.args[1]), ex.reqOf(st, x.args[2]))
	}
	tg := ex.tag(st, x)
	if isCtor(tg) && tg.name == "c!type.*mat.Dense" {
		return st.denseField(x, "requiresGrad")
	}
	switch in, n := ex.inner(st, x); n {
	case "ag.GradientBlocker":
		return False
	case "nn.Buffer":
		return ex.reqOf(st, in)
	case "nn.Param":
		return st.denseField(in, "requiresGrad")
	}
	return App("req", BoolS, x)
}

func (e *specEnv) bound(n string) (*Term, *specEnv) {
	b := freshBV(IntS)
	return b, e.child(n, iv(b))
}

func (e *specEnv) call(x *ast.CallExpr) Val {
	name := ""
	switch f := x.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = exprStr(f)
	}
	argT := func(i int) *Term { return e.term(x.Args[i]) }
	argR := func(i int) *Term { return e.rterm(x.Args[i]) }
	if m, ok := e.ex.specs.Macros[name]; ok {
		if len(m.Params) != len(x.Args) {
			specFail("macro %s arguments", name)
		}
		vars := map[string]Val{}
		for i, p := range m.Params {
			vars[p] = e.eval(x.Args[i])
		}
		return (&specEnv{ex: e.ex, st: e.st, pre: e.pre, vars: vars, pkg: e.pkg}).eval(m.E)
	}
	idn := func(i int) string {
		id, ok := x.Args[i].(*ast.Ident)
		if !ok {
			specFail("bound variable expected")
		}
		return id.Name
	}
	switch name {
	case "rows", "cols", "size":
		r, c := e.st.dims(argT(0))
		switch name {
		case "rows":
			return iv(r)
		case "cols":
			return iv(c)
		}
		return iv(Mul(r, c))
	case "datalen":
		return iv(e.st.denseField(argT(0), "data.len"))
	case "iface":
		// the interface value holding a pointer
		v := e.eval(x.Args[0])
		return Val{T: v.T, L: []*Term{e.ex.ifaceOfPtr(e.st, v.L[0], v.T)}}
	case "dataof":
		return e.st.loadField("mat.Dense", ".data", types.NewSlice(types.Typ[types.Float64]), argT(0))
	case "nilptr":
		// a nil interface or a nil matrix pointer in one
		v := argT(0)
		tn := ctor("tnil." + strings.TrimPrefix(typeID(types.NewPointer(e.ex.prog.Named["mat.Dense"])).name, "c!type."))
		return bv(Or(Eq(v, nilRef), Eq(v, tn)))
	case "as":
		// as(x, pkg.Type): the reference x as a *pkg.Type
		nt := e.ex.prog.Named[exprStr(x.Args[1])]
		if nt == nil {
			specFail("type %s", exprStr(x.Args[1]))
		}
		return Val{T: types.NewPointer(nt), L: []*Term{argT(0)}}
	case "haskey":
		mv := e.eval(x.Args[0])
		mt, ok := mv.T.Underlying().(*types.Map)
		if !ok {
			specFail("haskey of %s", exprStr(x.Args[0]))
		}
		_, has := e.ex.mapGet(e.st, &LV{kind: 'm', T: mt.Elem(), ref: mv.L[0], name: typeName(mv.T), key: e.eval(x.Args[1])})
		return bv(And(Not(Eq(mv.L[0], nilRef)), has))
	case "dense":
		// the matrix as a pointer to its structure
		return Val{T: types.NewPointer(e.ex.prog.Named["mat.Dense"]), L: []*Term{argT(0)}}
	case "shapeof":
		return e.st.loadField("mat.Dense", ".shape", types.NewSlice(types.Typ[types.Int]), argT(0))
	case "at":
		d := argT(0)
		if len(x.Args) == 3 {
			_, c := e.st.dims(d)
			return rv(e.st.matAt(d, Add(Mul(argT(1), c), argT(2))))
		}
		return rv(e.st.matAt(d, argT(1)))
	case "samedims":
		r1, c1 := e.st.dims(argT(0))
		r2, c2 := e.st.dims(argT(1))
		return bv(And(Eq(r1, r2), Eq(c1, c2)))
	case "isvec":
		r, c := e.st.dims(argT(0))
		return bv(Or(Eq(r, Int(1)), Eq(c, Int(1))))
	case "val":
		v := e.eval(x.Args[0])
		return Val{T: denseT(), L: []*Term{e.valOf(v)}}
	case "ismat":
		// ismat(x): x is a matrix (its value is itself)
		return bv(e.ex.isMat(e.st, argT(0)))
	case "tensor":
		// tensor(x): x is not nil and its value is a matrix
		v := e.eval(x.Args[0])
		return bv(And(notNil(v.L[0]), e.ex.isMat(e.st, e.valOf(v))))
	case "tokens":
		return iv(Select(e.st.get(tokenKey()), argT(0)))
	case "started":
		return bv(Not(Eq(Select(e.st.get(relKey()), Int(0)), Int(0))))
	case "closed":
		return bv(e.ex.isClosed(e.st, argT(0)))
	case "req":
		return bv(e.ex.reqOf(e.st, argT(0)))
	case "dtype":
		return iv(e.ex.dtypeRef(e.st, argT(0)))
	case "len":
		v := e.eval(x.Args[0])
		if len(v.L) != 4 {
			specFail("len")
		}
		return iv(v.L[2])
	case "old":
		return e.in(e.pre).eval(x.Args[0])
	case "sum":
		lo, hi := argT(1), argT(2)
		b, ne := e.bound(idn(0))
		body := toReal(ne.term(x.Args[3]))
		if lo == Int(0) {
			return rv(Sum(Lambda(b, body), hi))
		}
		return rv(SumRange(func(k *Term) *Term { return subst1(body, b, k) }, lo, hi))
	case "isum":
		// isum(i, lo, hi, e): the sum of integers
		lo, hi := argT(1), argT(2)
		b, ne := e.bound(idn(0))
		body := ne.term(x.Args[3])
		if n, ok := Sub(hi, lo).isInt(); ok && n <= 8 {
			acc := Int(0)
			for k := int64(0); k < n; k++ {
				acc = Add(acc, subst1(body, b, Add(lo, Int(k))))
			}
			return iv(acc)
		}
		if lo == Int(0) {
			return iv(Sum(Lambda(b, body), hi))
		}
		return iv(SumRange(func(k *Term) *Term { return subst1(body, b, k) }, lo, hi))
	case "catat":
		// catat(k, n, size, i, j, e): element i of the concatenation of n blocks
		// of the given sizes, e being element j of block k
		n := argT(1)
		bk, ne := e.bound(idn(0))
		size := ne.term(x.Args[2])
		i := argT(3)
		bj, nj := ne.bound(idn(4))
		el := nj.rterm(x.Args[5])
		if c, ok := n.isInt(); ok && c <= 8 {
			acc := RealN(0)
			var offs []*Term
			o := Int(0)
			for k := int64(0); k < c; k++ {
				offs = append(offs, o)
				o = Add(o, subst1(size, bk, Int(k)))
			}
			for k := c - 1; k >= 0; k-- {
				v := subst1(subst1(el, bk, Int(k)), bj, Sub(i, offs[k]))
				if k == c-1 {
					acc = v
					continue
				}
				acc = Ite(Lt(i, offs[k+1]), v, acc)
			}
			return rv(acc)
		}
		// under the range of the blocks
		f := Lambda(bk, underRange(size, bk, n))
		k := Blk(f, i)
		return rv(subst1(subst1(underRange(el, bk, n), bk, k), bj, Sub(i, Sum(f, k))))
	case "maxof":
		// maxof(i, n, e): maximum over 0 <= i < n, n >= 1
		b, ne := e.bound(idn(0))
		return rv(MaxF(Lambda(b, ne.rterm(x.Args[2])), argT(1)))
	case "minof":
		b, ne := e.bound(idn(0))
		return rv(Neg(MaxF(Lambda(b, Neg(ne.rterm(x.Args[2]))), argT(1))))
	case "all":
		b, ne := e.bound(idn(0))
		in := And(Ge(b, argT(1)), Lt(b, argT(2)))
		ne.rng = append(append([]*Term(nil), ne.rng...), in)
		return bv(Forall([]*Term{b}, Imp(in, ne.term(x.Args[3]))))
	case "any":
		b, ne := e.bound(idn(0))
		return bv(Exists([]*Term{b}, And(Ge(b, argT(1)), Lt(b, argT(2)), ne.term(x.Args[3]))))
	case "allr":
		// allr(v, e): e holds for every real v
		b := freshBV(RealS)
		ne := e.child(idn(0), rv(b))
		return bv(Forall([]*Term{b}, ne.term(x.Args[1])))
	case "deriv":
		// deriv(v, e): the derivative of e by the real variable or parameter v
		// deriv(v, e, p): the same at p
		b := freshBV(RealS)
		id, ok := x.Args[0].(*ast.Ident)
		if !ok {
			specFail("deriv by %s", exprStr(x.Args[0]))
		}
		var v *Term
		if len(x.Args) > 2 {
			v = argR(2)
		} else {
			v = argR(0)
		}
		body := e.child(id.Name, rv(b)).rterm(x.Args[1])
		return rv(subst1(derivBy(body, b), b, v))
	case "imp":
		return bv(Imp(argT(0), argT(1)))
	case "iff":
		return bv(Iff(argT(0), argT(1)))
	case "ite":
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		if len(a.L) == 1 && len(b.L) == 1 {
			p, q := unify2(a.L[0], b.L[0])
			return Val{T: a.T, L: []*Term{Ite(argT(0), p, q)}}.fix()
		}
		return iteVal(argT(0), a, b)
	case "exp":
		return rv(Exp(argR(0)))
	case "log":
		return rv(Log(argR(0)))
	case "sqrt":
		return rv(Sqrt(argR(0)))
	case "tanh":
		return rv(App("tanh", RealS, argR(0)))
	case "pow":
		return rv(Pow(argR(0), argR(1)))
	case "abs":
		return tv(Abs(argT(0)))
	case "max", "min":
		a, b := unify2(argT(0), argT(1))
		if name == "max" {
			return tv(Ite(Gt(a, b), a, b))
		}
		return tv(Ite(Lt(a, b), a, b))
	case "real":
		return rv(argR(0))
	case "fresh":
		return bv(isFresh(argT(0)))
	case "isinf":
		// isinf(x): x is the configuration value +infinity
		return bv(Eq(App("u.isinf", IntS, argR(0)), Int(1)))
	case "std":
		// std(Sin, x): a library function kept uninterpreted
		var l []*Term
		for i := 1; i < len(x.Args); i++ {
			l = append(l, argR(i))
		}
		return rv(App("u.math."+idn(0), RealS, l...))
	case "apply":
		// apply(f, args...) of a real-valued function argument
		f := e.eval(x.Args[0])
		if e.ex.knownFunc(f.L[0]) {
			var args []Val
			for _, a := range x.Args[1:] {
				args = append(args, e.eval(a))
			}
			return rv(e.beta(f, args))
		}
		leaves := []*Term{f.L[0]}
		for _, a := range x.Args[1:] {
			leaves = append(leaves, e.eval(a).L...)
		}
		return rv(App(fmt.Sprintf("u.fn0.0.R.%d", len(leaves)), RealS, leaves...))
	case "posted":
		// posted(x, i): accumulated gradient contributions
		return rv(Select(Select(e.st.get(ghostG()), argT(0)), argT(1)))
	case "posts":
		return rv(Select(e.st.get(ghostGn()), argT(0)))
	case "ptr":
		// ptr(T, e): view a reference as a *T
		n := e.ex.prog.Named[exprStr(x.Args[0])]
		if n == nil {
			specFail("type %s", exprStr(x.Args[0]))
		}
		return Val{T: types.NewPointer(n), L: []*Term{argT(1)}}
	case "istype":
		return bv(Eq(e.ex.tag(e.st, argT(0)), ctor("type."+exprStr(x.Args[1]))))
	case "istypep":
		return bv(Eq(e.ex.tag(e.st, argT(0)), ctor("type.*"+exprStr(x.Args[1]))))
	case "uf":
		// uf(name, args...): uninterpreted specification function to Real
		var l []*Term
		for i := 1; i < len(x.Args); i++ {
			l = append(l, e.eval(x.Args[i]).L...)
		}
		return rv(App("u.spec."+idn(0), RealS, l...))
	case "ufi":
		var l []*Term
		for i := 1; i < len(x.Args); i++ {
			l = append(l, e.eval(x.Args[i]).L...)
		}
		return iv(App("u.speci."+idn(0), IntS, l...))
	case "arrOf":
		return iv(e.eval(x.Args[0]).L[0])
	case "sameslice":
		a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
		return bv(And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]), Eq(a.L[2], b.L[2])))
	case "global":
		// global(pkg.Name)
		s := exprStr(x.Args[0])
		i := strings.Index(s, ".")
		for _, p := range e.ex.prog.Pkgs {
			if p.Short == s[:i] {
				if o, ok := p.Types.Scope().Lookup(s[i+1:]).(*types.Var); ok {
					return e.st.loadField("global."+s, "", o.Type(), Int(1))
				}
			}
		}
	case "constof":
		s := exprStr(x.Args[0])
		i := strings.Index(s, ".")
		for _, p := range e.ex.prog.Pkgs {
			if p.Short == s[:i] {
				if o, ok := p.Types.Scope().Lookup(s[i+1:]).(*types.Const); ok {
					return constVal(o.Type(), o.Val())
				}
			}
		}
	}
	specFail("function %s", name)
	return Val{}
}

// knownFunc: the function value is one whose body is known.
func (ex *Exec) knownFunc(f *Term) bool {
	if f.op == OIte {
		return ex.knownFunc(f.args[1]) && ex.knownFunc(f.args[2])
	}
	if f.op != OApp {
		return false
	}
	_, ok := ex.funcs[f.name]
	return ok
}

// beta is the value of a known function at the arguments.  Its obligations are
// those of the caller, for every value of the bound indices.
func (e *specEnv) beta(f Val, args []Val) *Term {
	ex := e.ex
	sk := map[*Term]*Term{}
	back := map[*Term]*Term{}
	collect := func(t *Term) {
		if sk[t] == nil {
			v := Var("sk!"+t.name, t.sort)
			sk[t] = v
			back[v] = t
		}
	}
	for _, a := range args {
		for _, l := range a.L {
			for _, b := range freeBVs(l) {
				collect(b)
			}
		}
	}
	st := e.st.clone()
	for c := e; c != nil; c = c.up {
		for _, r := range c.rng {
			for _, b := range freeBVs(r) {
				collect(b)
			}
			st.assume(Subst(r, sk))
		}
	}
	var as []Val
	for _, a := range args {
		n := Val{T: a.T}
		for _, l := range a.L {
			n.L = append(n.L, Subst(l, sk))
		}
		as = append(as, n)
	}
	ft := f.T
	if f.L[0].op == OApp {
		if fv := ex.funcs[f.L[0].name]; fv != nil {
			ft = fv.T
		}
	}
	sig, ok := ft.Underlying().(*types.Signature)
	if !ok {
		specFail("apply of %v", ft)
	}
	fr := &Frame{env: map[types.Object]int{}, depth: 1}
	out := ex.callValue(fr, st, f.L[0], sig, as, types.Typ[types.Float64])
	return Subst(toReal(out[0].L[0]), back)
}

func (v Val) fix() Val {
	if len(v.L) == 1 {
		switch v.L[0].sort.K {
		case 'R':
			v.T = types.Typ[types.Float64]
		case 'B':
			v.T = types.Typ[types.Bool]
		}
	}
	return v
}

// isFresh: the reference was allocated during this call.
func isFresh(t *Term) *Term {
	switch {
	case t.op == OIte:
		return Ite(t.args[0], isFresh(t.args[1]), isFresh(t.args[2]))
	case isCtor(t):
		if strings.HasPrefix(t.name, "c!arr.mat.Dense.") && len(t.args) == 1 {
			// the slices of a value object
			return isFresh(t.args[0])
		}
		return Bool(strings.HasPrefix(t.name, "c!obj"))
	case preborn(t):
		return False
	}
	if _, ok := t.isNum(); ok {
		return False
	}
	return mkRaw(OApp, BoolS, "u.isfresh", t)
}

func ghostG() string {
	regHeap("ghost.G", leafR, true)
	return "ghost.G"
}

func ghostGn() string {
	// a number, kept as a real so that sums apply
	regHeap("ghost.Gn", leafR, false)
	return "ghost.Gn"
}

// ---------- application at call sites ----------

func (ex *Exec) specEnvFor(sp *Spec, sig *types.Signature, recv *Val, args []Val, st, pre *State) *specEnv {
	env := &specEnv{ex: ex, st: st, pre: pre, vars: map[string]Val{}}
	all := args
	if recv != nil {
		all = append([]Val{*recv}, args...)
	}
	if len(sp.Params) != len(all) {
		specFail("%s (%s): contract has %d parameters, function has %d", sp.Key, sp.Where, len(sp.Params), len(all))
	}
	for i, p := range sp.Params {
		env.vars[p] = all[i]
	}
	return env
}

func (e *specEnv) addLets(sp *Spec) {
	for _, l := range sp.Lets {
		e.vars[l.Name] = e.eval(l.E)
	}
}

// newDense creates a matrix object in st.
func (ex *Exec) makeDense(st *State, rows, cols, dtype *Term, content *Term) *Term {
	if ex.valueObjs {
		ex.seq++
		regHeap("dtype", dtLeaf, false)
		if dtype == nil {
			dtype = Select(initHeap("dtype"), ctor(fmt.Sprintf("obj%d", ex.seq), ex.loopKs...))
		}
		args := append(append([]*Term(nil), ex.loopKs...), rows, cols, dtype, content)
		return ctor(fmt.Sprintf("obj%d.vD", ex.seq), args...)
	}
	ref := ex.newDenseRef()
	sh, da := ex.newRef(), ex.newRef()
	st.setDense(ref, "shape.arr", sh)
	st.setDense(ref, "shape.off", Int(0))
	st.setDense(ref, "shape.len", Int(2))
	st.setDense(ref, "shape.cap", Int(2))
	regHeap("mem.I", leafI, true)
	st.heap["mem.I"] = Store(st.get("mem.I"), sh, Store(Store(Lambda(freshBV(IntS), Int(0)), Int(0), rows), Int(1), cols))
	st.setDense(ref, "data.arr", da)
	st.setDense(ref, "data.off", Int(0))
	st.setDense(ref, "data.len", Mul(rows, cols))
	st.setDense(ref, "data.cap", Mul(rows, cols))
	st.setDense(ref, "grad", Int(0))
	st.setDense(ref, "requiresGrad", False)
	regHeap("mem.R", leafR, true)
	st.heap["mem.R"] = Store(st.get("mem.R"), da, content)
	regHeap("tag", tagLeaf, false)
	st.heap["tag"] = Store(st.get("tag"), ref, ctor("type.*mat.Dense"))
	if dtype != nil {
		ex.setDtype(st, ref, dtype)
	}
	return ref
}

// modMap gives the heap rows of the map m in a clause "mod map(m)".
func (e *specEnv) modMap(x ast.Expr) (map[string]Leaf, *Term) {
	c, ok := x.(*ast.CallExpr)
	if !ok || exprStr(c.Fun) != "entries" {
		return nil, nil
	}
	v := e.eval(c.Args[0])
	mt, ok := v.T.Underlying().(*types.Map)
	if !ok {
		specFail("entries of %s", exprStr(c.Args[0]))
	}
	r := map[string]Leaf{"map." + typeName(v.T) + ".has": {"", BoolS, 'B'}}
	for _, l := range flatten(mt.Elem()) {
		r["map."+typeName(v.T)+".val"+l.Path] = l
	}
	return r, v.L[0]
}

// makeOperator is a new operator that ran its forward pass.
func (ex *Exec) makeOperator(st *State, val *Term) *Term {
	n := ex.prog.Named["ag.Operator"]
	if n == nil {
		specFail("no ag.Operator")
	}
	if isValRef(val) {
		ex.seq++
		return ctor(fmt.Sprintf("obj%d.vO", ex.seq), append(append([]*Term(nil), ex.loopKs...), val)...)
	}
	ref := ex.newRef()
	for _, f := range fieldsOf(n) {
		if f.Name() == "value" {
			st.storeField("ag.Operator", ".value", ref, Val{T: f.Type(), L: []*Term{val}})
		}
	}
	ex.setTag(st, ref, types.NewPointer(n))
	return ref
}

func fieldsOf(t types.Type) []*types.Var {
	var out []*types.Var
	if su, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < su.NumFields(); i++ {
			out = append(out, su.Field(i))
		}
	}
	return out
}

// wrapped: the field that holds the value of the tensors of this module.
var wrapped = map[string]string{
	"ag.Operator":        "value",
	"ag.GradientBlocker": "Tensor",
	"nn.Buffer":          "Tensor",
	"nn.Param":           "Matrix",
}

// inner is the tensor (or matrix) a tensor of known type wraps.
func (ex *Exec) inner(st *State, x *Term) (*Term, string) {
	tg := ex.tag(st, x)
	if !isCtor(tg) || !strings.HasPrefix(tg.name, "c!type.*") {
		return nil, ""
	}
	n := strings.TrimPrefix(tg.name, "c!type.*")
	return ex.innerOf(st, x, n), n
}

func (ex *Exec) innerOf(st *State, x *Term, n string) *Term {
	f, nt := wrapped[n], ex.prog.Named[n]
	if f == "" || nt == nil || x == nilRef || (isCtor(x) && strings.HasPrefix(x.name, "c!tnil.")) {
		return nil
	}
	for _, v := range fieldsOf(nt) {
		if v.Name() == f {
			return st.loadField(n, "."+f, v.Type(), x).L[0]
		}
	}
	return nil
}

func firstDense(ex *Exec, st *State, all []Val) *Term {
	for _, v := range all {
		if p, ok := v.T.Underlying().(*types.Pointer); ok && namedName(p.Elem()) == "mat.Dense" {
			return ex.dtypeRef(st, v.L[0])
		}
		if namedName(v.T) == "mat.Matrix" {
			return ex.dtypeRef(st, v.L[0])
		}
	}
	return nil
}

func hasDtypeTarg(targs map[*types.TypeParam]TArg) *Term {
	for _, a := range targs {
		if a.Dtype != nil {
			return a.Dtype
		}
	}
	return nil
}

func (ex *Exec) applySpec(fr *Frame, st *State, sp *Spec, fi *FuncInfo, sig *types.Signature, recv *Val, args []Val, targs map[*types.TypeParam]TArg, resT types.Type) []Val {
	ex.used[sp.Key] = true
	if sp.Trusted != "" {
		ex.trusted[sp.Key] = true
	}
	if recv != nil && recv.L != nil && len(recv.L) == 1 && recv.L[0].sort == IntS {
		if _, ok := recv.T.Underlying().(*types.Pointer); ok && !sp.Nilable[sp.Params[0]] {
			ex.mayPanic(st, "nil receiver", Eq(recv.L[0], nilRef))
		}
	}
	if st.dead {
		return deadResults(resT)
	}
	if len(sp.all("mod"))+len(sp.all("set"))+len(sp.all("havoc"))+len(sp.all("grad"))+len(sp.all("post"))+len(sp.all("grads")) > 0 {
		ex.noLateWrite(st, nil)
	}
	ex.noGuard++
	defer func() { ex.noGuard-- }()
	pre := st.clone()
	env := ex.specEnvFor(sp, sig, recv, args, pre, pre)
	env.addLets(sp)
	if d := hasDtypeTarg(targs); d != nil {
		env.vars["T"] = iv(d)
	}
	for _, c := range sp.all("requires") {
		g := env.term(c.E)
		ex.oblige(st, "pre", sp.Key+":"+shortSrc(c.Src), g)
		st.assume(markHint(g))
	}
	pcond := False
	for _, c := range sp.all("panics") {
		pcond = Or(pcond, env.term(c.E))
	}
	ex.mayPanic(st, "call "+sp.Key, pcond)
	if st.dead {
		return deadResults(resT)
	}
	errs := False
	hasErrs := false
	for _, c := range sp.all("errs") {
		errs = Or(errs, env.term(c.E))
		hasErrs = true
	}
	hasErrs = hasErrs || sp.neverErrs(sig)
	if hasErrs && errs != False && errs != True {
		switch ex.decide(st, errs) {
		case 1:
			errs = True
		case 0:
			errs = False
		}
	}
	ok := Not(errs)
	guardI := func(a, b *Term) *Term { return Ite(ok, a, b) }
	all := args
	if recv != nil {
		all = append([]Val{*recv}, args...)
	}
	// results
	n := sig.Results().Len()
	if len(sp.Results) != n {
		specFail("%s: contract has %d results, function has %d", sp.Key, len(sp.Results), n)
	}
	out := make([]Val, n)
	done := make([]bool, n)
	rtype := func(i int) types.Type {
		if tt, ok := resT.(*types.Tuple); ok {
			if i < tt.Len() {
				return tt.At(i).Type()
			}
		} else if resT != nil && n == 1 {
			return resT
		}
		return sig.Results().At(i).Type()
	}
	ridx := map[string]int{}
	for i, r := range sp.Results {
		ridx[r] = i
	}
	defFor := func(name string) *Clause {
		for i := range sp.Clauses {
			if sp.Clauses[i].Kind == "def" && strings.TrimSpace(sp.Clauses[i].Name) == name {
				return &sp.Clauses[i]
			}
		}
		return nil
	}
	for _, c := range sp.all("new") {
		i, isRes := ridx[c.Name]
		if !isRes {
			specFail("%s: new %s", sp.Key, c.Name)
		}
		rows, cols := env.term(c.E), env.term(c.E2)
		var dt *Term
		if c.E3 != nil {
			dt = env.term(c.E3)
		} else if dt = firstDense(ex, pre, all); dt == nil {
			dt = hasDtypeTarg(targs)
		}
		var content *Term
		if d := defFor(c.Name); d != nil {
			content = env.defLambda(d, cols, Mul(rows, cols))
		} else {
			content = ex.freshK("any", ArrS(RealS))
		}
		ex.valueObjs = c.Op
		ref := ex.makeDense(st, rows, cols, dt, content)
		ex.valueObjs = false
		if c.Op {
			ref = ex.makeOperator(st, ref)
		}
		out[i] = Val{T: rtype(i), L: []*Term{guardI(ref, nilRef)}}
		done[i] = true
	}
	for i, r := range sp.Results {
		if done[i] {
			continue
		}
		t := rtype(i)
		v := Val{T: t}
		if hasErrs && i == n-1 && typeName(t) == "error" {
			v.L = []*Term{Ite(errs, ex.newRef(), nilRef)}
			out[i], done[i] = v, true
			continue
		}
		fresh := false
		for _, c := range sp.all("own") {
			// own r: a freshly allocated slice (or object)
			if id, ok := c.E.(*ast.Ident); ok && id.Name == r {
				fresh = true
			}
		}
		for li, l := range flatten(t) {
			if fresh && (l.Kind == 'A' || l.Kind == 'O') {
				v.L = append(v.L, ex.newRef())
				continue
			}
			if l.Path == ".off" && fresh {
				v.L = append(v.L, Int(0))
				continue
			}
			_ = li
			pf := "r."
			if len(ex.loopKs) == 0 && (l.Kind == 'A' || l.Kind == 'O') {
				pf = "rb." // refers to nothing allocated later
			}
			x := ex.freshK(pf+shortKey(sp.Key), l.S)
			if l.Kind == 'N' {
				x.nonneg = true
			}
			v.L = append(v.L, x)
		}
		if fresh {
			ex.freshContents(st, v)
		} else if len(v.L) == 4 {
			if _, ok := t.Underlying().(*types.Slice); ok {
				st.assume(Or(Ge(v.L[0], Int(1)), Eq(v.L[2], Int(0))))
			}
		}
		out[i] = v
	}
	env2 := &specEnv{ex: ex, st: pre, pre: pre, vars: map[string]Val{}, up: env}
	for i, r := range sp.Results {
		env2.vars[r] = out[i]
	}
	for _, c := range sp.all("ret") {
		i, isRes := ridx[c.Name]
		if !isRes {
			specFail("%s: ret %s", sp.Key, c.Name)
		}
		v := env.eval(c.E)
		t := rtype(i)
		if isNilT(v.T) {
			v = zeroVal(t)
		}
		lf := flatten(t)
		if len(lf) == 1 && lf[0].S == RealS {
			v.L = []*Term{toReal(v.L[0])}
		}
		if len(lf) != len(v.L) {
			specFail("%s: ret %s shape", sp.Key, c.Name)
		}
		if hasErrs {
			v = iteVal(ok, v, zeroVal(t))
		}
		out[i] = Val{T: t, L: v.L}
		env2.vars[c.Name] = out[i]
	}
	// effects
	ex.applyEffects(st, sp, env2, ok, ridx)
	// postconditions
	env3 := *env2
	env3.st = st
	env3.pre = pre
	env3up := *env
	env3up.st = st
	env3.up = &env3up
	for _, c := range sp.all("alloc") {
		rows, cols := env2.term(c.E), env2.term(c.E2)
		dt := ex.fresh("dt", IntS)
		st.assume(Ge(dt, Int(0)))
		st.assume(Le(dt, Int(1)))
		ref := ex.makeDense(st, rows, cols, dt, Lambda(freshBV(IntS), RealN(0)))
		if c.E3 != nil {
			ref = Ite(env2.term(c.E3), ref, nilRef)
		}
		lv := env3.specLV(c.L, st)
		ex.store(st, lv, Val{T: lv.T, L: []*Term{ref}})
	}
	for _, c := range sp.all("ensures") {
		e := c.E
		if ok == True {
			e = ex.storeOwn(st, sp, env3, e)
		}
		if e != nil {
			st.assume(Imp(ok, env3.term(e)))
		}
	}
	return out
}

// storeOwn: "own y" with "ensures y.f == e" stores e in the new object; what
// is left of the clause is returned.
func (ex *Exec) storeOwn(st *State, sp *Spec, env specEnv, e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.storeOwn(st, sp, env, x.X)
	case *ast.BinaryExpr:
		if x.Op == token.LAND {
			a, b := ex.storeOwn(st, sp, env, x.X), ex.storeOwn(st, sp, env, x.Y)
			if a == nil {
				return b
			}
			if b == nil {
				return a
			}
			return &ast.BinaryExpr{X: a, Op: token.LAND, Y: b}
		}
		if x.Op == token.EQL && ex.storeOwnField(st, sp, env, x.X, x.Y) {
			return nil
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "sameslice" && ex.storeOwnField(st, sp, env, x.Args[0], x.Args[1]) {
			return nil
		}
	}
	return e
}

func (ex *Exec) storeOwnField(st *State, sp *Spec, env specEnv, l, r ast.Expr) bool {
	s, ok := l.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return false
	}
	own := false
	for _, c := range sp.all("own") {
		if o, ok := c.E.(*ast.Ident); ok && o.Name == id.Name {
			own = true
		}
	}
	if !own {
		return false
	}
	v := env.eval(r)
	lv := env.specLV(l, st)
	if isNilT(v.T) {
		v = zeroVal(lv.T)
	}
	lf := flatten(lv.T)
	if len(lf) != len(v.L) {
		return false
	}
	for i := range lf {
		if lf[i].S == RealS {
			v.L[i] = toReal(v.L[i])
		}
		if lf[i].S != v.L[i].sort {
			return false
		}
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		if _, i := lv.T.Underlying().(*types.Interface); i {
			v.L = []*Term{ex.ifaceOfPtr(st, v.L[0], p)}
		}
	}
	v.T = lv.T
	ex.store(st, lv, v)
	return true
}

func (ex *Exec) nextSeq() int { ex.seq++; return ex.seq }

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

func shortSrc(s string) string {
	if len(s) > 50 {
		return s[:50]
	}
	return s
}

// freshContents havocs the elements of a freshly returned slice.
func (ex *Exec) freshContents(st *State, v Val) {
	if len(v.L) == 4 {
		ks, ls := memKeys(elemType(v.T))
		for i, k := range ks {
			regHeap(k, ls[i], true)
			st.heap[k] = Store(st.get(k), v.L[0], ex.freshK("any", ArrS(ls[i].S)))
		}
		return
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		x := Val{T: p.Elem()}
		for _, l := range flatten(p.Elem()) {
			y := ex.freshK("any", l.S)
			if l.Kind == 'N' {
				y.nonneg = true
			}
			x.L = append(x.L, y)
		}
		st.storeField(structNameOf(p.Elem()), "", v.L[0], x)
		ex.setTag(st, v.L[0], v.T)
	}
}

// defLambda is the flat content given by a def clause.
func (e *specEnv) defLambda(c *Clause, cols, n *Term) *Term {
	b := freshBV(IntS)
	e = e.child("", Val{})
	e.rng = []*Term{Ge(b, Int(0)), Lt(b, n)}
	switch len(c.Idx) {
	case 1:
		return Lambda(b, toReal(e.child(c.Idx[0], iv(b)).term(c.E)))
	case 2:
		if cols == Int(1) {
			ne := e.child(c.Idx[0], iv(b)).child(c.Idx[1], iv(Int(0)))
			return Lambda(b, toReal(ne.term(c.E)))
		}
		ne := e.child(c.Idx[0], iv(IDiv(b, cols))).child(c.Idx[1], iv(IMod(b, cols)))
		return Lambda(b, toReal(ne.term(c.E)))
	}
	specFail("def indices")
	return nil
}

func (ex *Exec) applyEffects(st *State, sp *Spec, env *specEnv, ok *Term, ridx map[string]int) {
	pre := env.pre
	// havoc / mod of matrix data without definition
	for _, c := range sp.all("mod") {
		if mk, ref := env.modMap(c.E); len(mk) > 0 {
			for k, l := range mk {
				regHeap(k, l, true)
				m := st.get(k)
				st.heap[k] = Store(m, ref, ex.freshK("any", ArrS(l.S)))
			}
			continue
		}
		d := env.term(c.E)
		regHeap("mem.R", leafR, true)
		arr := pre.denseField(d, "data.arr")
		m := st.get("mem.R")
		st.heap["mem.R"] = Store(m, arr, ex.freshK("any", ArrS(RealS)))
	}
	for _, c := range sp.all("havoc") {
		lv := env.specLV(c.E, st)
		v := Val{T: lv.T}
		for _, l := range flatten(lv.T) {
			x := ex.freshK("hv", l.S)
			if l.Kind == 'N' {
				x.nonneg = true
			}
			v.L = append(v.L, x)
		}
		ex.store(st, lv, v)
	}
	for i := range sp.Clauses {
		c := &sp.Clauses[i]
		switch c.Kind {
		case "def":
			name := strings.TrimSpace(c.Name)
			if j, isRes := ridx[name]; isRes {
				// content of a result slice (matrices are handled by new)
				v := env.vars[sp.Results[j]]
				if len(v.L) == 4 {
					ks, ls := memKeys(elemType(v.T))
					regHeap(ks[0], ls[0], true)
					b := freshBV(IntS)
					x := env.child(c.Idx[0], iv(b)).term(c.E)
					if ls[0].S == RealS {
						x = toReal(x)
					}
					st.heap[ks[0]] = Store(st.get(ks[0]), v.L[0], Lambda(b, x))
				}
				continue
			}
			v := env.eval(c.L)
			b := freshBV(IntS)
			if len(v.L) == 4 {
				// slice argument
				ks, ls := memKeys(elemType(v.T))
				regHeap(ks[0], ls[0], true)
				m := st.get(ks[0])
				row := Select(m, v.L[0])
				i := Sub(b, v.L[1])
				x := env.child(c.Idx[0], iv(i)).term(c.E)
				if ls[0].S == RealS {
					x = toReal(x)
				}
				in := And(ok, Ge(i, Int(0)), Lt(i, v.L[2]))
				st.heap[ks[0]] = Store(m, v.L[0], Lambda(b, Ite(in, x, Select(row, b))))
				continue
			}
			d := v.L[0]
			arr, off := pre.denseField(d, "data.arr"), pre.denseField(d, "data.off")
			n := pre.denseField(d, "data.len")
			regHeap("mem.R", leafR, true)
			m := st.get("mem.R")
			row := Select(m, arr)
			i := Sub(b, off)
			var x *Term
			env := env.child("", Val{})
			env.rng = []*Term{Ge(i, Int(0)), Lt(i, n)}
			if len(c.Idx) == 1 {
				x = env.child(c.Idx[0], iv(i)).rterm(c.E)
			} else {
				_, cols := pre.dims(d)
				for _, s := range sp.all("set") {
					if ce, isC := s.L.(*ast.CallExpr); isC && exprStr(ce.Fun) == "cols" && exprStr(ce.Args[0]) == name {
						cols = env.term(s.E)
					}
				}
				x = env.child(c.Idx[0], iv(IDiv(i, cols))).child(c.Idx[1], iv(IMod(i, cols))).rterm(c.E)
			}
			in := And(ok, Ge(i, Int(0)), Lt(i, n))
			st.heap["mem.R"] = Store(m, arr, Lambda(b, Ite(in, x, Select(row, b))))
		case "set":
			ex.applySet(st, env, c, ok)
		case "grad", "post":
			t := env.term(c.L)
			b := freshBV(IntS)
			g := st.get(ghostG())
			e := env.child(c.Idx[0], iv(b)).rterm(c.E)
			rq := ok
			if c.Kind == "grad" {
				rq = And(ok, ex.reqOf(pre, t))
			}
			row := Select(g, t)
			st.heap["ghost.G"] = Store(g, t, Lambda(b, Add(Select(row, b), Ite(rq, e, RealN(0)))))
			gn := st.get(ghostGn())
			st.heap["ghost.Gn"] = Store(gn, t, Add(Select(gn, t), Ite(rq, RealN(1), RealN(0))))
		case "grads":
			g, gn := env.gradsEffect(c, st.get(ghostG()), st.get(ghostGn()), ok)
			st.heap["ghost.G"], st.heap["ghost.Gn"] = g, gn
		}
	}
}

func (env *specEnv) gradsEffect(c *Clause, g, gn, ok *Term) (*Term, *Term) {
	ex := env.ex
	q, b, j := freshBV(IntS), freshBV(IntS), freshBV(IntS)
	n := env.term(c.E2)
	ej := env.child(c.Idx[0], iv(j))
	t := ej.term(c.L)
	val := ej.child(c.Idx[1], iv(b)).rterm(c.E)
	rq := And(ok, ex.reqOf(env.pre, t))
	contrib := Sum(Lambda(j, Ite(And(Eq(q, t), rq), val, RealN(0))), n)
	ng := Lambda(q, Lambda(b, Add(Select(Select(g, q), b), contrib)))
	cnt := Sum(Lambda(j, Ite(And(Eq(q, t), rq), RealN(1), RealN(0))), n)
	ngn := Lambda(q, Add(Select(gn, q), cnt))
	return ng, ngn
}

// specLV is the location named by a contract expression.
func (e *specEnv) specLV(x ast.Expr, st *State) *LV {
	s, ok := x.(*ast.SelectorExpr)
	if !ok {
		specFail("location %s", exprStr(x))
	}
	base := e.eval(s.X)
	p, ok := base.T.Underlying().(*types.Pointer)
	if !ok {
		specFail("location %s", exprStr(x))
	}
	su, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		specFail("location %s", exprStr(x))
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == s.Sel.Name {
			return &LV{kind: 'f', T: su.Field(i).Type(), ref: base.L[0], name: structNameOf(p.Elem()), path: "." + s.Sel.Name}
		}
	}
	specFail("location %s", exprStr(x))
	return nil
}

func (ex *Exec) applySet(st *State, env *specEnv, c *Clause, ok *Term) {
	if ce, isC := c.L.(*ast.CallExpr); isC {
		d := env.term(ce.Args[0])
		i := int64(0)
		switch exprStr(ce.Fun) {
		case "closed":
			old := Select(st.get(closedKey()), d)
			ex.setClosed(st, d, Ite(ok, Ite(env.term(c.E), Int(1), Int(0)), old))
			return
		case "rows":
		case "cols":
			i = 1
		default:
			specFail("set %s", exprStr(c.L))
		}
		a, o := env.pre.denseField(d, "shape.arr"), env.pre.denseField(d, "shape.off")
		regHeap("mem.I", leafI, true)
		m := st.get("mem.I")
		row := Select(m, a)
		idx := Add(o, Int(i))
		st.heap["mem.I"] = Store(m, a, Store(row, idx, Ite(ok, env.term(c.E), Select(row, idx))))
		return
	}
	lv := env.specLV(c.L, st)
	v := env.eval(c.E)
	if isNilT(v.T) {
		v = zeroVal(lv.T)
	}
	lf := flatten(lv.T)
	if len(lf) == 1 && lf[0].S == RealS {
		v.L = []*Term{toReal(v.L[0])}
	}
	v.T = lv.T
	if ok != True {
		v = iteVal(ok, v, ex.load(st, lv))
	}
	ex.store(st, lv, v)
}
